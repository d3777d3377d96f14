"""C30: the BCH layer (ZassenhausLayerV2) returns its ansatz at fitted angles."""
import itertools as it
import numpy as np
from oranssi import opt_tools as ot
from mc import oracle as o
from mc import layers as L

PROPERTY = 'C30'
RULE = ('every two-qubit stabilizer state (quick: every second) and generic states x observable lists x step sizes, registers of 2-4 '
        'qubits; every history of up to 3 calls with step size changes on one layer. The angles are reconstructed from the returned '
        'unitary; the mismatch with the wanted step is an independent formula whose derivative must vanish there')
ASSUMPTIONS = ['stationarity is tested with tolerance 2e-3 (the fit of the layer stops at 1e-4)']
WORDS = ['XI', 'IX', 'ZZ', 'YZ', 'ZY']


def obs_lists(n):
    return [[[('X', 0)], [('X', 1)], [('Z', 0), ('Z', 1)]],
            [[('Y', 0)], [('Z', 1)]],
            [[('X', 0), ('Y', 1)], [('Z', 0)], [('Z', 0)]],
            [[('Z', 0), ('Z', n - 1)], [('Y', 1)], [('X', n - 1), ('Z', 0)]],
            [[('Y', 0), ('Z', 1)], [('Y', 1), ('Z', 0)]]]


def ansatz(x, n):
    z = x[2]
    ops = [('Hadamard', (), (0,)), ('Hadamard', (), (1,)), ('RX', (x[0],), (0,)), ('RX', (x[1],), (1,))]
    return o.embed(o.exph(o.word('ZZ'), z / 2), (0, 1), n) @ o.circuit_unitary(ops, n)


def angles(U, n):
    """candidate angles (x0, x1, z) of the ansatz, None if U is not of that form"""
    V = U.reshape(2, 2, 2 ** (n - 2), 2, 2, 2 ** (n - 2))[:, :, 0, :, :, 0].reshape(4, 4)
    W = V @ np.kron(o.H, o.H).conj().T
    if abs(W[0, 0]) < 1e-6:
        return None
    t1 = 2 * np.arctan2((1j * W[0, 1] / W[0, 0]).real, 1)
    t0 = 2 * np.arctan2((1j * W[0, 2] / W[0, 0]).real, 1)
    out = []
    for a, b in it.product((0, 1, -1), repeat=2):
        x0, x1 = t0 + 2 * np.pi * a, t1 + 2 * np.pi * b
        ph = W[0, 0] / (np.cos(x0 / 2) * np.cos(x1 / 2))
        z = -2 * np.angle(ph)
        for c in (0, 1, -1):
            x = np.array([x0, x1, z + 4 * np.pi * c])
            if o.close(ansatz(x, n), U, 1e-7):
                out.append(x)
    return out or None


def mismatch(x, target):
    c = np.array([x[0], x[1], x[2], -x[0] * x[2], -x[1] * x[2]])
    return np.mean((c - target) ** 2)


def grad_mismatch(x, target):
    c = np.array([x[0], x[1], x[2], -x[0] * x[2], -x[1] * x[2]]) - target
    J = np.array([[1, 0, 0], [0, 1, 0], [0, 0, 1], [-x[2], 0, -x[0]], [0, -x[2], -x[1]]])
    return 2 * J.T @ c / 5


def judge(U, V, eta, specs, n, rec, tag):
    xs = angles(V, n)
    rec.check(xs is not None, '%s: the result is not the ansatz at any angles', tag)
    Hm = o.ham_matrix(specs, n)
    phi = U[:, 0]
    target = -eta * np.array([o.grad(phi, Hm, o.word(w + 'I' * (n - 2))) for w in WORDS])
    best = min(np.abs(grad_mismatch(x, target)).max() for x in xs)
    rec.check(best < 2e-3, '%s: the angles %s are no minimum of the mismatch (derivative %.2g)', tag, xs[0], best)
    rec.check(min(mismatch(x, target) for x in xs) <= mismatch(np.array([0.1, 0.2, 0.3]), target) + 1e-3, '%s: worse than the start of the fit', tag)
    rec.outcome(tuple(np.round(xs[0], 3)))


def state(n, i):
    if i < 0:
        return o.circuit_unitary(o.generic_circuits(n)[-i - 1], n)
    U = o.stabilizer_circuits(2)[i][1]
    return np.kron(U, np.eye(2 ** (n - 2)))


def cases(tier):
    q = tier == 'quick'
    out = []
    for n in (2, 3, 4):
        for oi in range(5):
            sts = [-1, -2, -3] + (list(range(0, 60, 2 if q else 1)) if n == 2 else list(range(0, 60, 20 if q else 6)))
            for i in range(0, len(sts), 6):
                out.append({'k': 'step', 'n': n, 'oi': oi, 'states': sts[i:i + 6], 'etas': [0.1, 1.0] if q else [0.0, 0.05, 0.1, 0.3, 0.7, 1.0]})
    for oi in range(5):
        for first in range(3):
            out.append({'k': 'hist', 'n': 2, 'oi': oi, 'first': first, 'len': 3 if q else 4})
    out.append({'k': 'default'})
    return out


def run_case(c, rec):
    if c['k'] == 'default':
        for n in (2, 3):
            for oi in range(5):
                specs = obs_lists(n)[oi]
                lay = ot.ZassenhausLayerV2(L.device(n), o.obs_list(specs))
                U = state(n, -1)
                judge(U, lay(U), 0.1, specs, n, rec, 'default step size, n=%d observables %d' % (n, oi))
                rec.step()
                rec.state((n, oi))
        rec.trace()
        return
    n, specs = c['n'], obs_lists(c['n'])[c['oi']]
    obs = o.obs_list(specs)
    if c['k'] == 'step':
        for eta in c['etas']:
            lay = ot.ZassenhausLayerV2(L.device(n), obs, eta=eta)
            for i in c['states']:
                U = state(n, i)
                U0 = U.copy()
                rec.path = [n, c['oi'], eta, i]
                X = o.reuse(U)
                V = lay(X)
                rec.check(np.array_equal(X, U0), 'the circuit was changed')
                judge(U, V, eta, specs, n, rec, 'n=%d observables %d eta=%s state %d' % (n, c['oi'], eta, i))
                rec.step()
                rec.state((n, c['oi'], eta, i))
                rec.trace()
        rec.example({'n': n, 'observables': specs})
        return
    # histories: the step size is changed between calls, the circuit is the previous result or a new one
    for hist in it.product((('e', 0.05), ('e', 0.9876), ('g', -1), ('s', 17)), repeat=c['len'] - 1):
        lay = ot.ZassenhausLayerV2(L.device(n), obs, eta=0.2)
        eta, U = 0.2, state(n, -1 - c['first'])
        V = lay(o.reuse(U))
        rec.path = [c['oi'], c['first'], hist]
        judge(U, V, eta, specs, n, rec, 'history %s, first call' % (hist,))
        for j, (kind, v) in enumerate(hist):
            if kind == 'e':
                lay.set_eta(v)
                eta, U = v, V
            else:
                U = state(n, v)
            V = lay(o.reuse(U))
            judge(U, V, eta, specs, n, rec, 'history %s, call %d' % (hist, j + 1))
            rec.step()
            rec.state((c['oi'], c['first'], hist[:j + 1]))
        rec.trace()
