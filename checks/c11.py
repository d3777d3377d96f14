"""C11: Zassenhaus layer."""
import itertools as it
import numpy as np
from oranssi.optimizers import approximate_lie_optimizer
from mc import oracle as o
from mc import layers as L
from mc import linesearch as ls

PROPERTY = 'C11'
RULE = ('ratios {1,2,3}x{1,2,3} x start states (stabilizer families incl. stationary states, generic) x observable lists x '
        'runs of up to two periods; every step is reconstructed from the returned unitaries and must be explained by a '
        'nondeterministic phase machine (set of possible previous words)')


def obs_lists(n):
    return [[[('X', q)] for q in range(n)] + [[('Z', q), ('Z', (q + 1) % n)] for q in range(n)],
            [[('Z', 0)], [('Y', 2), ('X', 1)]],
            [[('X', 2), ('Y', 0), ('Z', 1)], [('X', 2), ('Z', 0)]],
            [[('Z', 0), ('Z', 1), ('Z', 2)]],
            [[('X', 0), ('X', 1)], [('Y', 1), ('Y', 2)], [('Z', 0)], [('Z', 2)]],
            [[('X', 0), ('Z', 2)], [('X', 2), ('Z', 0)], [('Y', 1)]],
            [[('Y', 0), ('X', 1)], [('Z', 2)], [('Y', 0), ('X', 1)], [('X', 2)], [('X', 2)]]]


def cases(tier):
    q = tier == 'quick'
    out = []
    sts = ['g0', 'g1', 'g2'] + ['s%d' % i for i in ((0, 1, 5, 77, 300, 620, 901, 1079) if q else range(0, 1080, 36))]
    for si, s in enumerate(sts):
        for a, b in it.product((1, 2, 3), repeat=2):
            for oi in range(len(obs_lists(3))):
                if q and (si + a + 2 * b + oi) % 3:
                    continue
                out.append({'n': 3, 's': s, 'ratio': [a, b], 'oi': oi, 'steps': min(2 * (a + b) + 1, 9)})
    for a, b in ((1, 5), (5, 1), (4, 4), (2, 6)):     # long phases
        out.append({'n': 3, 's': 'g0', 'ratio': [a, b], 'oi': 0, 'steps': a + b + 2})
        out.append({'n': 3, 's': 'g2', 'ratio': [a, b], 'oi': 4, 'steps': a + b + 2})
    out.append({'n': 4, 's': 'g0', 'ratio': [1, 1], 'oi': 0, 'steps': 3})
    out.append({'n': 4, 's': 'g1', 'ratio': [2, 2], 'oi': 4, 'steps': 5})
    out.append({'n': 5, 's': 'g0', 'ratio': [1, 1], 'oi': 0, 'steps': 3})
    out.append({'n': 5, 's': 'g2', 'ratio': [1, 2], 'oi': 4, 'steps': 4})
    for si, s in enumerate(('g0', 'g1', 's1', 's300')):
        for eta in (0.0, 0.03, 0.4, 1.0):
            out.append({'n': 3, 's': s, 'ratio': [1, 2], 'oi': si, 'steps': 6, 'eta': eta})
    out.append({'n': 3, 's': 'g0', 'ratio': None, 'oi': 0, 'steps': 5})
    return out


def anticommute_one_shared(k, h):
    shared = [q for q in k[1:] if q in h[1:]]
    if len(shared) != 1:
        return False
    q = shared[0]
    return k[0][k[1:].index(q)] != h[0][h[1:].index(q)]


def angle(W, P):
    """theta in (-2 pi, 2 pi] with W = exp(-i theta P / 2)"""
    d = len(W)
    c0, c1 = (np.trace(W) / d).real, -(np.sum(P.T * W) / d).imag
    return 2 * np.arctan2(c1, c0)


def follow(W, phi, H, table, hyps, eta, n, rec):
    """All (word, angle) pairs that explain a three-qubit-motivated step, given the possible pairs before it."""
    same = np.abs(W - np.eye(len(W))).max() < 1e-7
    turns = set(ls.rotations(W, table, 1e-6))
    new = set()
    for A, theta in hyps:
        strong = False
        for B in table:
            if not anticommute_one_shared(B, A):
                continue
            C = (table[A] @ table[B] - table[B] @ table[A]) / 2j
            gc, gb = o.grad(phi, H, C), o.grad(phi, H, table[B])
            if abs(gc) < 1e-3 - 1e-6:
                continue
            strong = strong or (abs(gc) > 1e-3 + 1e-6 and abs(gb) > 1e-6)
            if abs(theta) < 1e-6:
                if same or (abs(theta) > 1e-9 and B in turns):
                    new.add((B, theta))
            elif np.abs(W - o.rot(table[B], -eta / 2 ** n * gc / theta)).max() < 1e-6:
                new.add((B, theta))
                rec.outcome(('followed', A, B))
        if same and (abs(theta) < 1e-6 or not strong):
            new.add((A, theta))
    return new


def run_case(c, rec):
    n = c['n']
    dev = L.device(n)
    specs = obs_lists(n)[c['oi']]
    H = o.ham_matrix(specs, n)
    i = int(c['s'][1:])
    ops = o.generic_circuits(n)[i] if c['s'][0] == 'g' else o.stabilizer_circuits(n)[i][0]
    obs = o.obs_list(specs)
    layer = L.make('zass', dev, obs, **({'eta': c['eta']} if 'eta' in c else {}), **({} if c['ratio'] is None else {'ratio': tuple(c['ratio'])}))
    costs, Us, phases = approximate_lie_optimizer(o.qml_circuit(ops), [], obs, dev, [layer], nsteps=c['steps'], tol=None,
                                                  return_unitary=True, return_zassenhaus=True)
    a, b = c['ratio'] or (1, 1)
    rec.check(len(phases) == c['steps'] == len(Us) - 1, 'one phase per step')
    table = ls.words_on(n, (2,))
    hyps = {None}
    for k in range(c['steps']):
        U, V = np.asarray(Us[k]), np.asarray(Us[k + 1])
        line = (k % (a + b)) < a
        rec.path = ['start %s observables %s ratio %s' % (c['s'], specs, c['ratio']), 'step %d' % k]
        rec.check(phases[k] == ('su4' if line else 'su8'), 'step %d reports phase %s', k, phases[k])
        if line:
            new, why = ls.explain(U, V, H, table, {None}, False)
            rec.check(bool(new), 'step %d (line search): %s', k, why)
            new = {(A, angle(V @ U.conj().T, table[A])) for A in new}
        else:
            W = V @ U.conj().T
            rec.check(o.is_unitary(W, 1e-6), 'step %d is not unitary', k)
            new = follow(W, U[:, 0], H, table, hyps, c.get('eta', 0.1), n, rec)
            if not new:
                turns = ls.rotations(W, table, 1e-5)
                near = {x for h, _ in hyps for x in turns if anticommute_one_shared(x, h)}
                rec.check(bool(near) or np.abs(W - np.eye(len(W))).max() < 1e-5,
                          'step %d is not a rotation about a two-qubit word that shares one qubit with, and does not '
                          'commute with, the previous word (%s)', k, sorted(hyps)[:3])
                rec.check(False, 'step %d: the rotation about %s does not follow the three-qubit gradient after (%s)',
                          k, sorted(near)[:3], sorted(hyps)[:3])
        hyps = new
        rec.step()
        rec.state((c['s'], tuple(c['ratio'] or ()), c['oi'], k))
        rec.outcome((line, sorted(hyps)[0], len(hyps)))
    rec.trace()
    rec.example({'start': c['s'], 'observables': specs, 'ratio': c['ratio'], 'phases': list(phases)})
