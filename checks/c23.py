"""C23: parameter shift optimisation is gradient descent on the summed cost."""
import itertools as it
import numpy as np
import pennylane as qml
from oranssi.optimizers import parameter_shift_optimizer
from mc import oracle as o
from mc import layers as L

PROPERTY = 'C23'
RULE = ('every ansatz of up to 2 (3 thorough) parametrised gates over an alphabet of gates and wires, shared and nested parameters, x '
        'observable lists (repeated and multi-qubit ones) x start parameters x step sizes x steps; oracle: fourth-order '
        'derivative of the cost computed by an independent simulator, step by step')
ASSUMPTIONS = ['gradients compared to 1e-6']

G1 = [('RX', (0,)), ('RY', (0,)), ('RZ', (1,)), ('PhaseShift', (1,)), ('CRX', (0, 1)), ('CRZ', (1, 0)), ('XY', (0, 1)), ('ZX', (1, 0)), ('Y', (1,))]
FIX = [[], [('Hadamard', (), (0,)), ('CNOT', (), (0, 1))], [('Hadamard', (), (0,)), ('Hadamard', (), (1,))]]
OBS = [[[('Z', 0)]], [[('Z', 0), ('Z', 1)], [('X', 1)]], [[('X', 0)], [('X', 0)], [('Y', 1)]], [[('Y', 0), ('X', 1)], [('Y', 0), ('X', 1)], [('Z', 1)]],
       [[('Z', 1), ('X', 0)], [('Z', 0)], [('X', 1)], [('Z', 0)]], [[('X', 0), ('Z', 1)], [('X', 1), ('Z', 0)]]]
START = [[0.3, -0.7, 1.1], [0.0, 0.0, 0.0], [np.pi / 2, 1.0, -2.0]]


def op(g, t):
    name, w = g
    if name in ('XY', 'ZX', 'Y'):
        return ('PauliRot', (t, name), w)
    return (name, (t,), w)


def cost(f, p, specs, n):
    U = o.circuit_unitary(f(p), n)
    return sum(np.vdot(U[:, 0], o.obs_spec_matrix(s, n) @ U[:, 0]).real for s in specs)


def gradient(f, p, specs, n, h=2e-3):
    g = np.zeros(len(p))
    for k in range(len(p)):
        e = np.zeros(len(p))
        e[k] = h
        c = lambda x: cost(f, p + x * e, specs, n)
        g[k] = (8 * (c(1) - c(-1)) - (c(2) - c(-2))) / (12 * h)
    return g


def run(f, p0, specs, n, eta, steps, rec, tag, shape=None, kw=None):
    """f: flat params -> ops; shape: how the optimizer receives them"""
    obs = o.obs_list(specs)
    flat = np.array(p0, dtype=float)
    given = list(map(float, p0)) if shape is None else [list(map(float, r)) for r in np.array(p0).reshape(shape)]

    def circuit(params, **k):
        if shape is None:
            ps = [params[i] for i in range(len(p0))]
        else:
            ps = [params[i][j] for i in range(shape[0]) for j in range(shape[1])]
        for name, pr, w in f(ps):
            getattr(qml, name)(*pr, wires=list(w) if len(w) > 1 else w[0])
    rec.path = [tag]
    args = dict(nsteps=steps, tol=0.0, return_params=True)
    if eta is not None:
        args['eta'] = eta
    args.update(kw or {})
    if args.get('return_state'):
        costs, states, params = parameter_shift_optimizer(circuit, given, obs, L.device(n), **args)
        rec.check(len(states) == len(params), '%s: %d states, %d parameter sets', tag, len(states), len(params))
        for i, (s, q) in enumerate(zip(states, params)):
            want = o.circuit_unitary(f(np.asarray(q, dtype=float).reshape(-1)), n)[:, 0]
            rec.check(o.close(s, want, 1e-8), '%s: state %d is not the circuit at the parameters', tag, i)
    else:
        costs, params = parameter_shift_optimizer(circuit, given, obs, L.device(n), **args)
    if kw:
        other = {k: v for k, v in args.items() if not k.startswith('return')}
        plain = parameter_shift_optimizer(circuit, given, obs, L.device(n), **other)
        rec.check([float(x) for x in plain] == [float(x) for x in costs], '%s: costs depend on what is returned', tag)
    e = 0.1 if eta is None else eta
    rec.check(len(costs) == len(params) and len(costs) >= 2, '%s: %d costs, %d parameter sets', tag, len(costs), len(params))
    p = flat
    for i, (c, q) in enumerate(zip(costs, params)):
        q = np.asarray(q, dtype=float).reshape(-1)
        rec.check(q.shape == p.shape and np.abs(q - p).max() < 1e-6, '%s: parameters after %d steps %s, expected %s', tag, i, q.tolist(), p.tolist())
        rec.check(abs(float(c) - cost(f, q, specs, n)) < 1e-8, '%s: cost %d is %s, expected %s', tag, i, float(c), cost(f, q, specs, n))
        if i + 1 < len(costs):
            p = q - e * gradient(f, q, specs, n)
        rec.step()
    rec.trace()
    rec.state(tag)


def cases(tier):
    q = tier == 'quick'
    out = []
    for i in range(len(G1)):
        out.append({'k': 'one', 'g': i})
        for j in range(len(G1)):
            out.append({'k': 'two', 'g': [i, j], 'full': not q})
    for i in range(7):
        out.append({'k': 'special', 'i': i})
    if not q:
        for i, j in it.product(range(len(G1)), repeat=2):
            out.append({'k': 'three', 'g': [i, j]})
    return out


def run_case(c, rec):
    n = 2
    if c['k'] == 'one':
        g = G1[c['g']]
        for fi, fix in enumerate(FIX):
            f = lambda p: fix + [op(g, p[0])]
            for oi, specs in enumerate(OBS):
                for eta in (0.0, 0.1, 0.5, 1.0, None):
                    run(f, START[(oi + fi) % 3][:1], specs, n, eta, 2, rec, 'ansatz %s %s obs %d eta %s' % (fi, g, oi, eta))
        rec.example({'gate': g})
    elif c['k'] == 'two':
        a, b = G1[c['g'][0]], G1[c['g'][1]]
        for fi, fix in enumerate(FIX):
            f = lambda p: fix + [op(a, p[0]), op(b, p[1])]
            for oi, specs in enumerate(OBS):
                if not c['full'] and (fi + oi + c['g'][0] + c['g'][1]) % 3:
                    continue
                for si, s in enumerate(START if c['full'] else START[(fi + oi) % 2::2][:1]):
                    run(f, s[:2], specs, n, (0.3, 1.0)[(oi + si) % 2], 3, rec, 'ansatz %d %s %s obs %d start %d' % (fi, a, b, oi, si))
        rec.example({'gates': [a, b]})
    elif c['k'] == 'three':
        a, b = G1[c['g'][0]], G1[c['g'][1]]
        for k, d in enumerate(G1):
            f = lambda p: FIX[1] + [op(a, p[0]), op(b, p[1]), op(d, p[2])]
            run(f, START[k % 3], OBS[(k + c['g'][0]) % 5], n, 0.4, 3, rec, 'ansatz %s %s %s' % (a, b, d))
    else:
        i = c['i']
        if i == 0:      # shared parameters
            for a, b in it.product(G1[:6], repeat=2):
                f = lambda p: [op(a, p[0]), ('CNOT', (), (0, 1)), op(b, p[0]), op(('RY', (1,)), p[1])]
                run(f, [0.4, 0.9], OBS[1], n, 0.3, 3, rec, 'shared %s %s' % (a, b))
        elif i == 1:    # nested parameters
            f = lambda p: [op(('RY', (0,)), p[0]), op(('RX', (1,)), p[1]), ('CNOT', (), (0, 1)), op(('RZ', (0,)), p[2]), op(('RY', (1,)), p[3])]
            for specs in OBS:
                run(f, [0.1, 0.2, -0.5, 0.7], specs, n, 0.5, 3, rec, 'nested %s' % specs, shape=(2, 2))
        elif i == 2:    # three qubits, many steps, many observables
            f = lambda p: [op(('RY', (q,)), p[q]) for q in range(3)] + [('CNOT', (), (0, 1)), ('CNOT', (), (1, 2))] + [op(('RX', (2,)), p[0])]
            specs = [[('Z', 0), ('Z', 1)], [('Z', 1), ('Z', 2)], [('X', 0)], [('X', 1)], [('X', 2)], [('Y', 0), ('Y', 2)], [('X', 0)]]
            for eta in (0.05, 0.3, 1.0):
                run(f, [0.4, -0.3, 0.8], specs, 3, eta, 6, rec, '3 qubits eta %s' % eta)
        elif i == 3:    # every ordering of one observable list
            f = lambda p: [op(('RY', (0,)), p[0]), ('CNOT', (), (0, 1)), op(('RX', (1,)), p[1])]
            base = [[('Z', 0)], [('X', 1)], [('Z', 0)], [('Z', 1), ('Z', 0)]]
            for perm in it.permutations(base):
                run(f, [0.4, -0.3], list(perm), n, 0.4, 2, rec, 'order %s' % (perm,))
        elif i == 5:    # overshooting runs, states returned
            for g in (('RX', (0,)), ('RY', (0,)), ('PhaseShift', (0,))):
                f = lambda p: [('Hadamard', (), (0,))] * (g[0] == 'PhaseShift') + [op(g, p[0]), op(('RY', (1,)), p[1])]
                for specs in ([[('Z', 0)]] * 3 + [[('X', 0)]], [[('Y', 0), ('Z', 1)], [('Y', 0)], [('Z', 0)], [('Z', 0)], [('X', 1)]] * 2):
                    for s in START:
                        for eta in (0.9, 1.0):
                            run(f, s[:2], specs, 2, eta, 9, rec, 'overshooting %s %s %s %s' % (g, specs, s, eta), kw={'return_state': True})
        elif i == 6:    # long runs
            f = lambda p: [op(('RY', (0,)), p[0]), ('CNOT', (), (0, 1)), op(('RX', (1,)), p[1])]
            for specs in (OBS[1], OBS[4]):
                for eta in (0.01, 0.7):
                    run(f, [0.4, -0.3], specs, 2, eta, 45, rec, 'long %s %s' % (specs, eta), kw={'return_state': True})
        else:           # Rot gate and one qubit
            f = lambda p: [('Rot', (p[0], p[1], p[2]), (0,))]
            for specs in ([[('Z', 0)]], [[('X', 0)], [('Y', 0)], [('X', 0)]]):
                for s in START:
                    run(f, s, specs, 1, 0.6, 4, rec, 'Rot %s %s' % (specs, s))
