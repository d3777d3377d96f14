"""C29: runs are reproducible from the seeds of the global random sources; deterministic code does not touch them."""
import itertools as it
import json
import os
import random
import subprocess
import sys

import numpy as np

if __name__ == '__main__':      # child process: repository and framework are given by the parent
    sys.dont_write_bytecode = True
    sys.path[:0] = [os.environ['ORANSSI_REPO'], os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]
    _real = os.dup(1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)

from mc import oracle as o
from mc import layers as L

PROPERTY = 'C29'
RULE = ('every program of an alphabet (all layer classes, optimizers with and without perturbation, commuting layers, random draws, '
        'edge colouring, Pauli sums) x every pair of seeds of the two global random sources x every other program executed before it '
        'in the process x several string-hash seeds (separate processes); oracle: the result in a fresh process. Programs that are '
        'deterministic are run from every random state and must leave both sources untouched.')
ASSUMPTIONS = ['circuits without symmetries, so that no decision hangs on the last bits of a rounding error (or with exact ties)', 'tolerance 1e-7']
SEEDS = [(0, 0), (1, 0), (0, 1), (7, 123)]
FAMILIES = ['layer-local1', 'layer-squared', 'layer3-zass', 'stoch-2', 'draw-3', 'commute', 'adapt-2', 'approx-kick', 'exact-kick', 'ps',
            'set-odd', 'colour', 'pauli', 'helpers']
HASHES = ['0', '1', '4242']


def specs(n):
    return [[('Z', q), ('Z', q + 1)] for q in range(n - 1)] + [[('X', 0)], [('Y', n - 1)]]


def flat(x):
    """a JSON-able form of any result"""
    if isinstance(x, dict):
        return [[str(k), flat(v)] for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [flat(y) for y in x]
    if isinstance(x, str) or x is None:
        return x
    a = np.asarray(x)
    if a.dtype == object:
        return [flat(y) for y in a.ravel()]
    a = a.astype(complex).ravel()
    return [float(v) for v in a.real] + [float(v) for v in a.imag]


def ps_stub(circuit, params, observables, device=None, *a, **k):
    """a cheap parameter optimizer (the layers take it as an argument)"""
    q = np.array([np.array(p, dtype=float) + 0.2 for p in params])
    return [0.0, 0.0], [q, q]


def P_layer(name, n, calls=3, call=None, **kw):
    def run():
        tie = call is not None and call.get('tie')      # |0..0> and one X per qubit: the gradients are exactly 0 or exactly equal
        lay = L.make(name, L.device(n), o.obs_list([[('X', q)] for q in range(n)] if tie else specs(n)), **kw)
        U = o.circuit_unitary(o.generic_circuits(n)[0], n)
        if tie:
            U = np.eye(2 ** n, dtype=complex)
        if call is not None and call.get('sym'):
            U = o.circuit_unitary([('RY', (0.9,), (q,)) for q in range(n)], n)
        extra = {} if call is None else {k: v for k, v in call.items() if k not in ('sym', 'tie')}
        out = []
        for _ in range(calls):
            r = lay(U, **extra)
            U = r[0] if isinstance(r, tuple) else r
            out.append(1e-4 * r if name == 'bch' else r)       # the fit of the BCH layer stops at 1e-4
        return out
    return run


def P_approx(names, n, **kw):
    def run():
        from oranssi.optimizers import approximate_lie_optimizer
        dev = L.device(n)
        obs = o.obs_list(specs(n))
        lays = [L.make(x, dev, obs, eta=0.3) for x in names]
        return approximate_lie_optimizer(o.qml_circuit(o.generic_circuits(n)[1]), [], obs, dev, lays, return_state=True,
                                         return_unitary=True, **kw)
    return run


def P_exact(n, **kw):
    def run():
        from oranssi.optimizers import exact_lie_optimizer
        return exact_lie_optimizer(o.qml_circuit(o.generic_circuits(n)[1]), [], o.obs_list(specs(n)), L.device(n),
                                   eta=0.4, return_state=True, return_unitary=True, **kw)
    return run


def P_ps(n):
    def run():
        from oranssi.optimizers import parameter_shift_optimizer
        import pennylane as qml

        def circuit(params, **kwargs):
            qml.RX(params[0], wires=0)
            qml.RY(params[1], wires=n - 1)
            qml.CNOT(wires=[0, n - 1])
        return parameter_shift_optimizer(circuit, [0.3, 0.9], o.obs_list(specs(n)), L.device(n), nsteps=4, eta=0.2,
                                         return_params=True)
    return run


def P_set(edges):
    def run():
        from oranssi.circuit_tools import get_commuting_set
        return [get_commuting_set(list(edges)) for _ in range(3)]
    return run


def P_colour(edges, D):
    def run():
        import networkx as nx
        from oranssi.edge_coloring import applyHeuristic
        out = []
        for _ in range(2):
            g = nx.from_edgelist(edges)
            ok = applyHeuristic(g, D, 6, 6)
            out.append([int(bool(ok))] + [g[a][b]['color'] for a, b in edges])
        return out
    return run


def P_draw(n):
    def run():
        from oranssi.opt_tools import AlgebraSU4
        a = AlgebraSU4(n, add_su2=True)
        out = []
        for _ in range(25):
            d, q = a.get_random_direction_and_qubits()
            out.append([str(d)] + [int(x) for x in q])
        return out
    return run


def P_pauli():
    from oranssi.pauli import Pauli, PauliMonomial, PauliSum
    mons = [PauliMonomial([Pauli(0, a, c), Pauli(1, b)]) for a, b in ('XY', 'ZI', 'YY', 'IX') for c in (0.5, 1j)]
    s = PauliSum(mons)
    t = s * s + s - s * s
    return [[repr(m.to_oranssi()), complex(m.coeff)] for m in t.pauli_sum]


def P_helpers(n):
    def run():
        from oranssi.circuit_tools import get_all_su_n_directions, get_hamiltonian_matrix, get_full_operator
        from oranssi.utils import get_su_n_operators
        U = o.circuit_unitary(o.generic_circuits(n)[2], n)
        obs = o.obs_list(specs(n))
        ops, names = get_su_n_operators(2 ** n, identity=True, return_names=True)
        return [get_all_su_n_directions(U, obs, L.device(n)), get_hamiltonian_matrix(n, obs), get_full_operator(o.X, (n - 1,), n), names,
                ops[3]]
    return run


def programs():
    """name -> (program, deterministic?)"""
    out = {}
    for name in ('local1', 'local2', 'local1t', 'local2t', 'custom', 'customt', 'squared'):
        out['layer-' + name] = (P_layer(name, 2, eta=0.6), True)
    for name in ('su8', 'zass', 'squared', 'local1'):
        out['layer3-' + name] = (P_layer(name, 3, calls=2), True)
    for name, n in (('squared', 2), ('squared', 3), ('squared', 4), ('su8', 3), ('zass', 3)):
        out['tie-%s-%d' % (name, n)] = (P_layer(name, n, calls=1, call={'tie': True}), True)
    out['layer-bch'] = (P_layer('bch', 2), True)
    for n in (1, 2, 3):
        out['stoch-%d' % n] = (P_layer('stoch', n, calls=8, eta=0.7), False)
        out['draw-%d' % n] = (P_draw(n), False)
    out['commute'] = (P_layer('squared', 3, call={'commute': True, 'optimizer': ps_stub, 'sym': True}), False)
    for n in (2, 3):
        out['adapt-%d' % n] = (P_layer('adapt', n, calls=1, call={'params': [], 'optimizer': ps_stub}), True)
    out['approx'] = (P_approx(['local1', 'squared'], 2, nsteps=4, tol=1e-9), True)
    out['approx-stoch'] = (P_approx(['stoch', 'local1'], 2, nsteps=6, tol=1e-9), False)
    out['approx-kick'] = (P_approx(['local1'], 2, nsteps=14, tol=10., perturb=True, return_perturbations=True), False)
    out['exact'] = (P_exact(2, nsteps=4), True)
    out['exact-kick'] = (P_exact(2, nsteps=9, tol=10., perturbation=True, return_perturbations=True), False)
    out['ps'] = (P_ps(2), True)
    out['set'] = (P_set([(0, 1), (1, 2), (2, 3), (0, 3), (0, 2)]), False)
    out['set-odd'] = (P_set([(0, 1), (1, 2), (0, 2)]), False)
    out['colour'] = (P_colour([(0, 1), (1, 2), (2, 3), (3, 0), (0, 2)], 3), False)
    out['pauli'] = (P_pauli, True)
    out['helpers'] = (P_helpers(2), True)
    return out


def seeded(prog, seeds):
    random.seed(seeds[0])
    np.random.seed(seeds[1])
    return flat(prog())


def rstate():
    s = np.random.get_state()
    return (random.getstate(), s[0], s[1].tobytes(), s[2:])


def same(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= 1e-7 or a == b or (a != a and b != b)
    if isinstance(a, complex) or isinstance(b, complex):
        return abs(a - b) <= 1e-7
    return a == b


REFS = {}


def solo(name):
    prog = programs()[name][0]
    return {s: seeded(prog, s) for s in SEEDS}


def reference(names):
    from mc import core
    miss = [n for n in names if n not in REFS]
    for n, r in zip(miss, core.fresh(solo, miss, core.NPROC)):
        REFS[n] = r


def cases(tier):
    P = sorted(programs())
    reference(P)
    out = [{'kind': 'hash', 'names': P[i::8], 'hashes': HASHES if tier == 'quick' else HASHES + ['99', '31337']} for i in range(8)]
    for p in P:
        out.append({'kind': 'history', 'p': p, 'before': sorted(set(FAMILIES + [p])) if tier == 'quick' else P, 'depth': 1 if tier == 'quick' else 2})
    return out


def run_case(c, rec):
    if c['kind'] == 'hash':
        from mc import core
        ref = None
        for h in c['hashes']:
            env = dict(os.environ, PYTHONHASHSEED=h, ORANSSI_REPO=core.REPO)
            r = subprocess.run([sys.executable, '-W', 'ignore', os.path.abspath(__file__), json.dumps(c['names'])], env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            rec.check(r.returncode == 0, 'the program failed in a fresh process: %s', r.stderr.decode()[-600:])
            d = json.loads(r.stdout.decode())
            if ref is None:
                ref = d
            for k in d:
                rec.check(same(ref[k], d[k]), '%s: result differs in a fresh process (string-hash seed %s)', k, h)
                rec.step()
                rec.state((k, h))
            rec.trace()
        rec.example({'programs': c['names'], 'hash_seeds': c['hashes']})
        return
    P = programs()
    prog, det = P[c['p']]
    reference([c['p']])
    rec.check(REFS[c['p']][0] == 'ok', '%s fails in a fresh process: %s', c['p'], REFS[c['p']][1])
    base = REFS[c['p']][1]
    for s in SEEDS:
        rec.check(same(seeded(prog, s), base[s]), '%s: differs from the run in a fresh process (seeds %s)', c['p'], s)
        rec.outcome((c['p'], repr(base[s])[:2000]))
    if det:
        for s in SEEDS[1:]:
            rec.check(same(base[s], base[SEEDS[0]]), '%s: result depends on the random sources', c['p'])
        random.seed(5)
        np.random.seed(6)
        for warm in range(3):
            before = rstate()
            r = flat(prog())
            rec.check(rstate() == before, '%s draws from or reseeds the random sources', c['p'])
            rec.check(same(r, base[SEEDS[0]]), '%s: result depends on the state of the random sources', c['p'])
            random.random()
            np.random.rand()
            rec.step()
    else:
        # the next draws after the program must still depend on the seeds (no reseeding inside)
        tails = set()
        for s in SEEDS:
            seeded(prog, s)
            tails.add((random.random(), np.random.rand()))
        rec.check(len(tails) == len(SEEDS), '%s resets the random sources', c['p'])
        rec.step(len(SEEDS))
    names = sorted(P)
    for hist in it.chain.from_iterable(it.product(c['before'] if d == 1 else FAMILIES, repeat=d) for d in range(1, c['depth'] + 1)):
        s = SEEDS[(names.index(hist[-1]) + len(hist)) % len(SEEDS)]
        rec.path = list(hist) + [c['p']]
        for q in hist:
            P[q][0]()        # random sources in whatever state

        rec.check(same(seeded(prog, s), base[s]), '%s gives another result after %s (seeds %s)', c['p'], hist, s)
        rec.step(len(hist) + 1)
        rec.state((c['p'], hist, s))
        rec.trace()
    rec.example({'program': c['p'], 'deterministic': det, 'seeds': SEEDS})


if __name__ == '__main__':
    sys.stdout = open(os.devnull, 'w')
    res = {}
    for nm in json.loads(sys.argv[1]):
        for sd in SEEDS[:2]:
            res['%s seeds %s' % (nm, sd)] = seeded(programs()[nm][0], sd)
    with os.fdopen(_real, 'w') as f:
        json.dump(res, f)
