"""C09: commuting layers."""
import itertools as it
import numpy as np
import pennylane as qml
import oranssi.optimizers as opts
from mc import core
from mc import oracle as o
from mc import layers as L
from mc import linesearch as ls
from mc.randctl import PyRandom

PROPERTY = 'C09'
RULE = ('commuting mode of the squared-gradient layer: start states (all stabilizer states n<=2, families n=3,4, symmetric '
        'product states) x observable lists x every answer of the random source up to the deviation bound x scripted '
        'answers of the angle optimizer; reported gates vs. the applied unitary and the gradient table')
ASSUMPTIONS = ['random answers: at most 1 deviation (2 thorough); in optimizer runs within the first 6 draws', 'the layer receives the angle optimizer through its documented `optimizer` argument']

ANGLES = [[0.0, 0.0, 0.0, 0.0], [0.7, -1.1, 2.0, 0.3], [np.pi, 0.4, -0.4, 1.5]]


def obs_lists(n):
    out = [[[('Z', n - 1)]], [[('X', 0)], [('Z', 0), ('Z', 1)]],
           [[('X', q)] for q in range(n)] + [[('Z', q), ('Z', (q + 1) % n)] for q in range(n if n > 2 else 1)],
           [[('Z', q)] for q in range(n)],
           [[('Y', 0), ('Z', n - 1)], [('Y', n - 1), ('Z', 0)]],
           [[('X', 0)], [('Z', 0), ('Z', n - 1)], [('X', 0)], [('X', 0)]]]
    if n >= 3:
        out += [[[('X', a), ('X', b)] for a, b in it.combinations(range(n), 2)],
                [[('Z', q), ('Z', q + 1)] for q in range(n - 1)] + [[('X', n - 1)]]]
    return out


def special(n):
    """symmetric product states: many equal gradients, overlapping edges"""
    t = 0.9
    return [[('RY', (t,), (q,)) for q in range(n)], [('RX', (t,), (q,)) for q in range(n)],
            [('Hadamard', (), (q,)) for q in range(n)],
            [('RY', (t,), (q,)) for q in range(n)] + [('RZ', (0.8,), (q,)) for q in range(n)],
            [('RY', (t + 1e-4 * q,), (q,)) for q in range(n)]]


def start(n, s):
    i = int(s[1:])
    if s[0] == 'g':
        return o.generic_circuits(n)[i]
    if s[0] == 'p':
        return special(n)[i]
    return o.stabilizer_circuits(n)[i][0]


def cases(tier):
    q = tier == 'quick'
    out = []
    for n in (2, 3, 4):
        sts = ['p%d' % i for i in range(5)] + ['g0', 'g1']
        if n == 2:
            sts += ['s%d' % i for i in range(60)]
        if n == 3:
            sts += ['s%d' % i for i in range(0, 1080, 45 if q else 9)]
        for s in sts:
            for oi in range(len(obs_lists(n))):
                if q and s[0] == 's' and n == 3 and (int(s[1:]) // 45 + oi) % 3:
                    continue
                if q and n == 4 and s in ('g1', 'p2', 'p3') and oi % 2:
                    continue
                out.append({'k': 'layer', 'n': n, 's': s, 'oi': oi, 'bound': 1 if q else 2, 'runs': 150 if q else 1000})
    for s in ('p0', 'p1', 'p4', 'g0'):
        for oi in range(len(obs_lists(5))):
            out.append({'k': 'layer', 'n': 5, 's': s, 'oi': oi, 'bound': 1, 'runs': 12 if q else 200})
    for n in (2, 3):
        for oi in range(len(obs_lists(n))):
            for mode in range(3):
                out.append({'k': 'opt', 'n': n, 'oi': oi, 'steps': 3 + 2 * (mode > 0), 'mode': mode})
            out.append({'k': 'opt', 'n': n, 'oi': oi, 'steps': 3, 'mode': 3})
            out.append({'k': 'opt', 'n': n, 'oi': oi, 'steps': 26, 'mode': 3, 'horizon': 1})
            out.append({'k': 'opt', 'n': n, 'oi': oi, 'steps': 26, 'mode': 0, 'horizon': 1})
    out.append({'k': 'real', 'n': 2, 'oi': 1})
    out.append({'k': 'real', 'n': 3, 'oi': 2})
    return out


def check_gates(U, V, gates, n, H, rec, tag):
    table = ls.words_on(n, (1, 2))
    gates = list(gates)
    rec.check(len(gates) >= 1, '%s: no gates', tag)
    used = []
    W = np.eye(2 ** n, dtype=complex)
    words = set()
    for key, theta in gates:
        key = (str(key[0]),) + tuple(int(x) for x in key[1:])
        rec.check(key in table, '%s: unknown direction %s', tag, key)
        words.add(key[0])
        used += list(key[1:])
        W = o.rot(table[key], float(theta) / 2) @ W
    rec.check(len(words) == 1, '%s: several words %s', tag, words)
    rec.check(len(used) == len(set(used)), '%s: overlapping gates %s', tag, [g[0] for g in gates])
    g = {k: abs(o.grad(U[:, 0], H, P)) for k, P in table.items()}
    gmax = max(g.values())
    for key, theta in gates:
        key = (str(key[0]),) + tuple(int(x) for x in key[1:])
        rec.check(g[key] >= gmax - 1.01e-3 - 1e-5 * gmax, '%s: gate %s has gradient %g, largest %g', tag, key, g[key], gmax)
    # sites of this word within the tolerance: if they are disjoint, all of them are used
    (word,) = words
    near = [k[1:] for k in g if k[0] == word and g[k] >= gmax - 1.01e-3 - 1e-5 * gmax]
    flat = [q for e in near for q in e]
    if len(flat) == len(set(flat)):
        for e in near:
            if g[(word,) + e] >= gmax - 0.99e-3:
                rec.check(all(q in used for q in e), '%s: %s %s has gradient %g, largest %g, and is left out', tag, word, e, g[(word,) + e], gmax)
    rec.check(o.close(V, W @ U, 1e-8), '%s: the unitary is not the reported gates times the old unitary', tag)
    return len(gates)


def stub_factory(angles, seen, n, U0, rec):
    def stub(circuit, params, observables, device=None, **kw):
        k = len(params)
        final = np.array([angles[i % len(angles)] + 0.07 * (i // len(angles)) for i in range(k)])

        def full(p):
            circuit(p)
            return qml.state()
        seen.append((k, final, np.asarray(qml.QNode(full, L.device(n))(list(final)))))
        # histories of very different lengths: only the last entry counts
        m = (2, 12, 160, 200)[len(seen) % 4]
        hist = [np.array(params, dtype=float) * (3 + j) for j in range(m)]
        return [0.0] * (m + 1), hist + [final]
    return stub


def run_case(c, rec):
    n = c['n']
    dev = L.device(n)
    specs = obs_lists(n)[c['oi']]
    H = o.ham_matrix(specs, n)
    obs = o.obs_list(specs)
    if c['k'] == 'layer':
        U = o.circuit_unitary(start(n, c['s']), n)
        layer = L.make('squared', dev, obs)
        for ai, ang in enumerate(ANGLES):
            def run(ch):
                seen = [None] * ai
                before = U.copy()
                rec.path = [c['s'], specs, ang, ch.prefix]
                with PyRandom(ch):
                    X = o.reuse(U)
                    res = layer(X, commute=True, optimizer=stub_factory(ang, seen, n, U, rec))
                rec.check(isinstance(res, tuple) and len(res) == 2, 'commuting mode returns (unitary, gates)')
                V, gates = res
                tag = 'n=%d start %s observables %s random %s' % (n, c['s'], specs, ch.choices)
                rec.check(np.array_equal(X, before), 'input modified')
                k = check_gates(U, V, gates, n, H, rec, tag)
                if len(seen) > ai:
                    kk, final, phi = seen[-1]
                    rec.check(kk == k and sorted(np.round([float(t) for _, t in gates], 9)) == sorted(np.round(final, 9)),
                              '%s: reported angles are not those found by the optimizer', tag)
                    # what the optimizer was given to optimise is the circuit that is applied
                    rec.check(o.close(phi, V[:, 0], 1e-7), '%s: the optimised circuit differs from the applied gates', tag)
                rec.step()
                rec.trace()
                rec.state((n, c['s'], c['oi'], ai, tuple(ch.choices)[:40]))
                rec.outcome((c['s'], c['oi'], str(gates[0][0]), k))
            core.explore(run, bound=c['bound'] if ai == 1 else 0, max_runs=c['runs'], rec=rec)
        rec.example({'n': n, 'start': c['s'], 'observables': specs})
    else:
        core.explore(lambda ch: run_opt(c, ch, n, specs, H, rec), bound=1, horizon=c.get('horizon', 6) if c['k'] == 'opt' else 0)


# answers of the scripted angle optimizer, one per step: different ones; none; full turns (the same gates in every step)
ANSWERS = [[[0.3, -0.8, 0.5, 0.1], [0.0, 0.2, 0.4, 0.6], [1.0, 1.1, 1.2, 1.3]], [[0.] * 4],
           [[2 * np.pi] * 4, [4 * np.pi] * 4, [2 * np.pi] * 4],
           [[0.004, -0.002, 0.001, 1e-5], [1e-4, 0.3, 1e-7, 0.], [-1e-9, 1e-3, 2e-3, 1e-6]]]


def run_opt(c, ch, n, specs, H, rec):
    dev = L.device(n)
    obs = o.obs_list(specs)
    ops = special(n)[3] if c['k'] == 'opt' else o.generic_circuits(n)[0]
    saved = opts.parameter_shift_optimizer
    answers = ANSWERS[c.get('mode', 0)]
    count = [0]

    def scripted(circuit, params, observables, device=None, **kw):
        count[0] += 1
        return [0.0], [np.array(answers[count[0] % len(answers)][:len(params)])]
    try:
        if c['k'] == 'opt':
            opts.parameter_shift_optimizer = scripted
        layer = L.make('squared', dev, obs)
        with PyRandom(ch):
            costs, Us, gates = opts.approximate_lie_optimizer(o.qml_circuit(ops), [], obs, dev, [layer], commute=True,
                                                              return_gates=True, return_unitary=True,
                                                              nsteps=c.get('steps', 2), **({'tol': None} if c.get('steps', 2) > 9 else {}))
    finally:
        opts.parameter_shift_optimizer = saved
    rec.path = [c, ch.choices[:20]]
    rec.check(len(gates) == len(costs) - 1 == len(Us) - 1, 'one gate list per step (%d, %d costs, %d unitaries)',
              len(gates), len(costs), len(Us))
    for i, gl in enumerate(gates):
        check_gates(Us[i], Us[i + 1], gl, n, H, rec, 'step %d' % i)
        rec.step()
        rec.state((c['k'], n, c['oi'], c.get('mode'), i, tuple(ch.choices)[:40]))
    rec.check(o.close(Us[0], o.circuit_unitary(ops, n), 1e-9), 'initial unitary')
    if c['k'] == 'real':
        rec.check(all(b <= a + 1e-6 for a, b in zip(costs, costs[1:])), 'cost increased: %s', costs)
    rec.trace()
