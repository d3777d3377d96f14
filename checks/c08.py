"""C08: line-search layers (squared gradient, SU(8)) and rotosolve."""
import itertools as it
import numpy as np
import pennylane as qml
from oranssi.opt_tools import rotosolve
from oranssi.circuit_tools import circuit_observable_from_unitary
from mc import oracle as o
from mc import layers as L
from mc import linesearch as ls

PROPERTY = 'C08'
RULE = ('line-search layers x all stabilizer states (n<=2; families for n=3,4) and generic states x observable lists x '
        'call histories (continue / restart from another state); each step U->V is reconstructed from V U^-1 and must '
        'be explained by the nondeterministic reference model (steepest allowed word, exact line minimum)')
ASSUMPTIONS = ['Pauli-word observables', 'gradient ties within 1e-7 may be broken either way']


def obs_lists(n):
    if n == 1:
        return [[[('Z', 0)]], [[('X', 0)], [('Y', 0)]], [[('X', 0)], [('X', 0)], [('Z', 0)]]]
    out = [[[('Z', n - 1)]], [[('X', 0)], [('Z', 0), ('Z', 1)]], [[('Y', 1), ('X', 0)], [('Z', 1)], [('X', 0)]],
           [[('X', q)] for q in range(n)] + [[('Z', q), ('Z', (q + 1) % n)] for q in range(n)],
           [[('Z', 1), ('Y', 0)], [('Z', 1), ('Y', 0)]]]
    if n == 2:
        out.append([[('X', 0), ('Z', 1)], [('X', 1), ('Z', 0)]])
        out.append([[('X', 0)], [('Z', 1)], [('Y', 0), ('Z', 1)], [('Z', 0), ('X', 1)], [('Y', 1)]] * 4 + [[('Z', 0), ('Z', 1)]])
    if n >= 3:
        out += [[[('X', 2), ('Y', 0), ('Z', 1)], [('X', 2), ('Z', 0)]], [[('Z', 0), ('Z', 1), ('Z', 2)], [('X', 1)]]]
    return out


CONF = {'squared': {'lengths': (1, 2), 'kw': {}, 'excl': True},
        'su8': {'lengths': (1, 2, 3), 'kw': {}, 'excl': False},
        'su8_23': {'lengths': (2, 3), 'kw': {'add_su2': False}, 'excl': False},
        'su8_13': {'lengths': (1, 3), 'kw': {'add_su4': False}, 'excl': False},
        'su8_3': {'lengths': (3,), 'kw': {'add_su2': False, 'add_su4': False}, 'excl': False}}


def cases(tier):
    q = tier == 'quick'
    out = []
    for n in (1, 2):
        for i in range(len(o.stabilizer_circuits(n))):
            out.append({'k': 'chain', 'conf': 'squared', 'n': n, 'start': 's%d' % i,
                        'ois': list(range(len(obs_lists(n)))), 'steps': 3 if q else 5})
        for g in range(3):
            out.append({'k': 'chain', 'conf': 'squared', 'n': n, 'start': 'g%d' % g,
                        'ois': list(range(len(obs_lists(n)))), 'steps': 5 if q else 8})
    for conf in CONF:
        sts = ['g0', 'g1', 'g2'] + ['s%d' % i for i in range(0, 1080, 90 if q else 30)]
        for s in sts:
            for oi in range(len(obs_lists(3))):
                if q and s[0] == 's' and (int(s[1:]) // 90 + oi + len(conf)) % 4:
                    continue
                if q and conf not in ('squared', 'su8') and s in ('g1', 'g2') and oi % 2:
                    continue
                out.append({'k': 'chain', 'conf': conf, 'n': 3, 'start': s, 'ois': [oi], 'steps': 3 if q else 4})
    for conf in ('squared', 'su8'):
        for oi in ((2, 3) if q else range(len(obs_lists(4)))):
            out.append({'k': 'chain', 'conf': conf, 'n': 4, 'start': 'g0', 'ois': [oi], 'steps': 2})
    for conf in ('squared', 'su8', 'su8_3') if q else CONF:
        for oi in (3, 5):
            out.append({'k': 'chain', 'conf': conf, 'n': 5, 'start': 'g%d' % (oi % 3), 'ois': [oi], 'steps': 2})
    for oi in range(len(obs_lists(2))):
        for first in range(4):
            out.append({'k': 'hist', 'conf': 'squared', 'n': 2, 'oi': oi, 'first': first, 'depth': 3 if q else 4})
    for t in range(4):
        out.append({'k': 'chain', 'conf': 'squared', 'n': 2, 'start': 't%d' % t, 'ois': list(range(len(obs_lists(2)))), 'steps': 2})
        for conf in CONF:
            out.append({'k': 'chain', 'conf': conf, 'n': 3, 'start': 't%d' % t, 'ois': [3] if q else list(range(len(obs_lists(3)))), 'steps': 2})
    for t in range(6):
        for n in (1, 2, 3):
            out.append({'k': 'chain', 'conf': 'squared', 'n': n, 'start': 'n%d' % t, 'ois': list(range(len(obs_lists(n)))), 'steps': 2})
        for conf in CONF:
            out.append({'k': 'chain', 'conf': conf, 'n': 3, 'start': 'n%d' % t, 'ois': [t % 3, 3 + t % 4], 'steps': 1 if q else 3})
    for conf in CONF:       # the same circuit twice, a tiny rotation away from a symmetric state
        for t in range(6):
            for oi in ((3, 6) if q else range(len(obs_lists(3)))):
                out.append({'k': 'same', 'conf': conf, 'n': 3, 'start': 'n%d' % t, 'ois': [oi], 'steps': 3})
    for conf in ('squared', 'su8', 'su8_3'):
        for oi in ((3, 6) if q else range(len(obs_lists(3)))):
            for first in range(4):
                out.append({'k': 'hist', 'conf': conf, 'n': 3, 'oi': oi, 'first': first, 'depth': 2 if q else 3})
    for n in (1, 2, 3):
        for oi in range(len(obs_lists(n))):
            out.append({'k': 'roto', 'n': n, 'oi': oi, 'full': not q})
    return out


def start(n, s):
    i = int(s[1:])
    if s[0] == 't':      # nearly equal gradients: the same rotations up to tiny differences
        d = (1e-3, -2e-4, 3e-5, -1e-5)[i]
        return o.circuit_unitary([('RY', (0.9 + d * q,), (q,)) for q in range(n)] + [('RZ', (0.4 - d * q,), (q,)) for q in range(n)], n)
    if s[0] == 'n':      # a tiny rotation away from a symmetric state
        return o.circuit_unitary(o.near_circuits(n, (1e-3, 3e-6)[i // 3])[i % 3], n)
    return o.circuit_unitary(o.generic_circuits(n)[i], n) if s[0] == 'g' else o.stabilizer_circuits(n)[i][1]


def mk(conf, dev, specs):
    return L.make('squared' if conf == 'squared' else 'su8', dev, o.obs_list(specs), **CONF[conf]['kw'])


def step(layer, U, H, conf, n, hyps, rec, tag):
    before = U.copy()
    X = o.reuse(U)
    V = layer(X)
    rec.check(np.array_equal(before, X), 'input modified')
    new, why = ls.explain(before, V, H, ls.words_on(n, CONF[conf]['lengths']), hyps, CONF[conf]['excl'])
    rec.check(bool(new), '%s n=%d %s: %s', conf, n, tag, why)
    rec.check(ls.cost(V[:, 0], H) <= ls.cost(before[:, 0], H) + 1e-8, 'cost increased')
    rec.step()
    rec.outcome((len(new), sorted(new)[0], round(ls.cost(V[:, 0], H), 4)))
    return V, new


def run_case(c, rec):
    n = c['n']
    dev = L.device(n)
    ol = obs_lists(n)
    if c['k'] in ('chain', 'same'):
        for oi in c['ois']:
            specs = ol[oi]
            H = o.ham_matrix(specs, n)
            layer = mk(c['conf'], dev, specs)
            U, hyps = start(n, c['start']), {None}
            for k in range(c['steps']):
                rec.path = [c['start'], specs, 'step %d' % k]
                if c['k'] == 'same' and k != 2:
                    U = start(n, c['start'])
                U, hyps = step(layer, U, H, c['conf'], n, hyps, rec, rec.path)
                rec.state((c['conf'], n, oi, o.canon_state(U[:, 0], 4), tuple(sorted(hyps))[:3]))
            rec.trace()
        rec.example({'layer': c['conf'], 'n': n, 'start': c['start'], 'last_words': sorted(map(str, hyps))[:4]})
    elif c['k'] == 'hist':
        specs = ol[c['oi']]
        H = o.ham_matrix(specs, n)
        menu = ['prev', 'g0', 'g1', 's17']
        for rest in it.product(range(4), repeat=c['depth'] - 1):
            layer = mk(c['conf'], dev, specs)
            U, hyps = start(n, 'g2'), {None}
            for i in (c['first'],) + rest:
                X = U if menu[i] == 'prev' else start(n, menu[i])
                rec.path = [specs, [menu[j] for j in (c['first'],) + rest]]
                U, hyps = step(layer, X, H, c['conf'], n, hyps, rec, rec.path)
            rec.state((c['oi'], (c['first'],) + rest))
            rec.trace()
    else:
        specs = ol[c['oi']]
        H = o.ham_matrix(specs, n)
        obs = o.obs_list(specs)
        qn = qml.QNode(circuit_observable_from_unitary, dev)
        table = ls.words_on(n, tuple(range(1, n + 1)))
        sts = ['g0', 's5' if n > 1 else 's3'] + ([] if not c['full'] else ['g1', 'g2', 's9'] if n > 1 else ['s1'])
        for s in sts:
            U = start(n, s)
            for k, P in table.items():
                V, eta = rotosolve(P.copy(), obs, qn, U, len(k[0]))
                rec.path = [s, k]
                rec.check(np.isfinite(float(eta)), 'angle')
                rec.check(k in ls.rotations(V @ U.conj().T, {k: P}), 'rotosolve is not a rotation about %s', k)
                e, m = ls.cost(V[:, 0], H), ls.line_min(U[:, 0], H, P)
                rec.check(abs(e - m) < 1e-7, 'rotosolve about %s from %s ends at %.9g, minimum %.9g (observables %s)', k, s, e, m, specs)
                rec.step()
                rec.state((n, c['oi'], s, k))
            rec.trace()
