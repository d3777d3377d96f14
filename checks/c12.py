"""C12: random draws of directions and stochastic steps."""
import copy
import itertools as it
import numpy as np
from oranssi.opt_tools import AlgebraSU4
from mc import core
from mc import oracle as o
from mc import layers as L
from mc.randctl import NpRandom, PyRandom

PROPERTY = 'C12'
RULE = ('sampler: breadth-first search over every answer of the random source (state: used qubits, remaining words), plus '
        'runs of 30 draws with every placement of up to k deviating answers; oracle: pool automaton, every allowed draw '
        'must be reachable. Layer: every answer sequence up to a deviation bound; each step must be explained by a draw '
        'the automaton allows and the step law')
ASSUMPTIONS = ['randomness comes from numpy.random or random (otherwise only what occurs is checked)']

SINGLE = ['X', 'Y', 'Z']
WORDS = SINGLE + [a + b for a in SINGLE for b in SINGLE]


class Auto(object):
    """(used qubits, remaining words) -> allowed draws and successor"""

    @staticmethod
    def start(n):
        return (frozenset(), tuple(sorted(WORDS)))

    @staticmethod
    def allowed(st, n):
        used, pool = st
        if len(used) == n:
            used = frozenset()
        if not pool:
            pool = tuple(sorted(WORDS))
        free = [q for q in range(n) if q not in used]
        if len(free) > 1:
            draws = [(w, qs) for w in sorted(set(pool)) for qs in it.permutations(free, len(w))]
        else:
            if not any(len(w) == 1 for w in pool):
                pool = tuple(sorted(pool + tuple(SINGLE)))
            draws = [(w, (free[0],)) for w in sorted(set(pool)) if len(w) == 1]
        return used, pool, draws

    @staticmethod
    def succ(used, pool, draw):
        w, qs = draw
        p = list(pool)
        p.remove(w)
        return (used | set(qs), tuple(p))


def norm(draw):
    d, q = draw
    return str(d), tuple(int(x) for x in np.atleast_1d(q))


class Rnd(object):
    def __init__(self, ch):
        self.a, self.b = NpRandom(ch), PyRandom(ch)

    def __enter__(self):
        self.a.__enter__()
        self.b.__enter__()

    def __exit__(self, *x):
        self.b.__exit__(*x)
        self.a.__exit__(*x)


def digest(obj):
    out = []
    for k in sorted(vars(obj)):
        v = vars(obj)[k]
        if isinstance(v, dict):
            continue            # operator caches: content is a function of the key
        out.append((k, repr(v.tolist() if isinstance(v, np.ndarray) else v)))
    return tuple(out)


def cases(tier):
    q = tier == 'quick'
    out = []
    for n in (1, 2, 3, 4):
        out.append({'k': 'bfs', 'n': n, 'first': None, 'depth': 40 if n == 1 else 1})
    for n, d in ((2, 4 if q else 40), (3, 3 if q else 4), (4, 2 if q else 3)):
        for w in range(len(WORDS)):
            out.append({'k': 'bfs', 'n': n, 'first': w, 'depth': d})
    for n in (1, 2, 3, 4, 5):
        for r in range(4):
            out.append({'k': 'long', 'n': n, 'draws': 30, 'bound': 1 if q else 2, 'rot': r})
    for n in (1, 2, 3, 4, 5):
        for oi in range(3 if n < 5 else 2):
            for g in range(2 if n < 5 and oi < 2 else 1):
                out.append({'k': 'layer', 'n': n, 'oi': oi, 'g': g, 'steps': 4 if n < 3 else 3, 'bound': 1 if q else 2,
                            'runs': 400 if q else 5000})
    for n, steps in ((2, 60), (3, 110), (4, 40)):
        for rot in (1, 3, 5) if q else (1, 2, 3, 5, 7, 11):
            out.append({'k': 'layer', 'n': n, 'oi': 0, 'g': 0, 'steps': steps, 'bound': 0, 'runs': 1, 'rot': rot})
    return out


def draws_from(alg, rec):
    """every (draw, successor object) the implementation can produce from this object"""
    res = []
    points = [0]

    def run(ch):
        a = copy.deepcopy(alg)
        with Rnd(ch):
            d = a.get_random_direction_and_qubits()
        points[0] += len(ch.points)
        res.append((norm(d), a))
    core.explore(run)
    return res, points[0]


def bfs(c, rec):
    n = c['n']
    a0 = AlgebraSU4(n, add_su2=True)
    s0 = Auto.start(n)
    seen = set()
    frontier = [(a0, s0, 0)]
    n_states = 0
    while frontier:
        nxt = []
        for alg, st, depth in frontier:
            used, pool, allowed = Auto.allowed(st, n)
            res, points = draws_from(alg, rec)
            got = set(d for d, _ in res)
            rec.path = ['used %s pool %s' % (sorted(st[0]), st[1])]
            for d, _ in res:
                rec.check(d in set(allowed), 'drew %s with used qubits %s and pool %s', d, sorted(st[0]), st[1])
            if points and depth > 0 or points and c['first'] is None:
                miss = set(allowed) - got
                rec.check(not miss, 'impossible draws %s with used qubits %s and pool %s', sorted(miss)[:4], sorted(st[0]), st[1])
            rec.step(len(res))
            rec.state((n, tuple(sorted(st[0])), st[1]))
            if depth + 1 > c['depth']:
                continue
            for d, a in res:
                if depth == 0 and c['first'] is not None and d[0] != WORDS[c['first']]:
                    continue
                s = Auto.succ(used, pool, d)
                key = (s, digest(a))
                if key in seen:
                    continue
                seen.add(key)
                nxt.append((a, s, depth + 1))
            rec.outcome(len(allowed))
        frontier = nxt
    rec.trace(len(seen))
    rec.example({'n': n, 'first': c['first'], 'states': len(seen), 'depth': c['depth']})


def long(c, rec):
    n = c['n']

    def run(ch):
        a = AlgebraSU4(n, add_su2=True)
        st = Auto.start(n)
        hist = []
        rot = c['rot']
        k = [0]

        def shifted(m):     # rotate the default answer so that the default run is not always the first element
            x = ch(m)
            k[0] += 1
            return (x + rot * k[0]) % m
        with Rnd(shifted):
            for i in range(c['draws']):
                d = norm(a.get_random_direction_and_qubits())
                used, pool, allowed = Auto.allowed(st, n)
                hist.append(d)
                rec.check(d in allowed, 'draw %d: %s with used qubits %s and pool %s (history %s)', i, d, sorted(st[0]), st[1], hist)
                st = Auto.succ(used, pool, d)
                rec.state((n, tuple(sorted(st[0])), st[1]))
                rec.step()
        rec.trace()
    core.explore(run, bound=c['bound'])


def obs_lists(n):
    if n == 1:
        return [[[('Z', 0)], [('X', 0)]], [[('Y', 0)], [('Z', 0)]], [[('~', (0,), 1e-5)]]]
    return [[[('X', q)] for q in range(n)] + [[('Z', q), ('Z', q + 1)] for q in range(n - 1)],
            [[('Y', 1), ('X', 0)], [('Z', 1)], [('Y', 0)], [('Z', 1)]] + ([[('Z', 2), ('X', 0)]] if n > 2 else []),
            [[('~', tuple(range(n))[::-1], 2e-5)], [('~', (1,), 1e-5)]]]      # every direction is small, none vanishes


def layer(c, rec):
    n = c['n']
    dev = L.device(n)
    specs = obs_lists(n)[c['oi']]
    mats = [o.obs_spec_matrix(s, n) for s in specs]
    U0 = o.circuit_unitary(o.generic_circuits(n)[c['g']], n)
    eta = [0.8, 0.3, 0.6][c['oi']]
    obs = o.obs_list(specs)

    def ref(U, draw, eta):
        P = o.embed(o.word(draw[0]), draw[1], n)
        phi = U[:, 0]
        V = U
        for O in mats:
            om = 2 * np.vdot(P @ phi, O @ phi).imag
            V = o.rot(P, eta / 2 ** n * om) @ V
        return V

    def run(ch):
        lay = L.make('stoch', dev, obs, eta=eta)
        U = U0.copy()
        hyps = {Auto.start(n)}
        rot, num = c.get('rot', 0), [0]

        def shifted(m):     # long runs: another answer every time
            x = ch(m)
            num[0] += 1
            return (x + ((num[0] * 2654435761 * rot) >> 9)) % m
        with Rnd(shifted if rot else ch):
            for k in range(c['steps']):
                before = U.copy()
                now = eta if k != 1 else 0.98765432
                if k in (1, 2):
                    lay.set_eta(now)
                U = o.reuse(U)
                V = o.own(lay(U))
                new = set()
                cache = {}
                for st in hyps:
                    used, pool, allowed = Auto.allowed(st, n)
                    for d in allowed:
                        if d not in cache:
                            cache[d] = o.close(ref(before, d, now), V, 1e-8)
                        if cache[d]:
                            new.add(Auto.succ(used, pool, d))
                rec.path = [specs, 'random answers %s' % ch.choices, 'step %d' % k]
                rec.check(bool(new), 'n=%d step %d is not a stochastic step along an allowed draw', n, k)
                rec.check(np.array_equal(before, U), 'input modified')
                hyps = new
                U = V
                rec.step()
                rec.outcome(o.canon_state(U[:, 0], 4))
        rec.trace()
        rec.state((n, c['oi'], c['g'], tuple(ch.choices)))
    core.explore(run, bound=c['bound'], max_runs=c['runs'], rec=rec)
    rec.example({'n': n, 'observables': specs, 'eta': eta})


def run_case(c, rec):
    {'bfs': bfs, 'long': long, 'layer': layer}[c['k']](c, rec)
