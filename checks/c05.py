"""C05: dictionary of Lie-algebra directions."""
import itertools as it
import numpy as np
import pennylane as qml
from oranssi.circuit_tools import get_all_su_n_directions
from mc import oracle as o
from mc import layers as L

PROPERTY = 'C05'
RULE = ('every stabilizer state (6/60/1080 for n=1/2/3) and generic states x an alphabet of observable lists; every '
        'layer class before and after steps; oracle: Im<phi|[P,H]|phi>/2^n from matrices, keys in lexicographic order')
ASSUMPTIONS = ['device wires are 0..n-1', 'tolerance 1e-11']


def obs_lists(n):
    out = [[[('Z', 0)]], [[('X', n - 1)]], [[('Y', 0)], [('Y', 0)]]]
    if n >= 2:
        out += [[[('X', 0), ('Z', 1)]], [[('Y', 1), ('Z', 0)], [('X', 0)]],
                [[('X', q)] for q in range(n)] + [[('Z', q), ('Z', (q + 1) % n)] for q in range(n)],
                [[('Z', 0)], [('Z', 1)], [('X', 0), ('X', 1)], [('Y', 0), ('Y', 1)]]]
    if n >= 2:
        out += [[[('X', 0), ('Z', 1)], [('X', 1), ('Z', 0)]], [[('Y', 1)], [('Y', 0)], [('X', 1), ('Z', 0)], [('X', 0), ('Z', 1)]]]
    if n >= 3:
        out += [[[('X', 2), ('Y', 0), ('Z', 1)]], [[('X', 0), ('X', 2)], [('Z', 1), ('Y', 2)]]]
    # general hermitian observables, small and large ones
    out += [[[('~', (n - 1,), 1e-5)]], [[('~', tuple(range(n))[::-1], 1e-6)], [('~', (0,), 3e-7)]], [[('~', tuple(range(min(n, 2))), 7.)], [('Z', 0)]]]
    out.append([])
    return out


def cases(tier):
    out = []
    for n in (1, 2, 3):
        ns = len(o.stabilizer_circuits(n))
        ol = obs_lists(n)
        chunk = 6 if n < 3 else 15
        for i in range(0, ns, chunk):
            out.append({'kind': 'stab', 'n': n, 'lo': i, 'hi': min(ns, i + chunk), 'all': tier != 'quick' or n < 3})
    out += [{'kind': 'generic', 'n': n} for n in (1, 2, 3, 4, 5)]
    for name in sorted(L.LAYERS):
        for n in (1, 2, 3, 4):
            if L.supported(name, n) and not (n == 4 and name in ('adapt',)):
                out.append({'kind': 'layer', 'n': n, 'layer': name})
    return out


_w = {}


def wordmats(n):
    if n not in _w:
        _w[n] = [(w, o.word(w)) for w in o.words(n)]
    return _w[n]


def expected(n, phi, H):
    """dict word -> value, vectorised: Im(<phi|P H|phi> - c.c.) = 2 Im <P phi|H phi>"""
    h = H @ phi
    return [(w, 2 * np.vdot(P @ phi, h).imag / 2 ** n) for w, P in wordmats(n)]


def compare(d, n, phi, H, rec, what):
    exp = expected(n, phi, H)
    rec.check(list(d.keys()) == [w for w, _ in exp], '%s: keys %s', what, list(d.keys())[:5])
    for w, v in exp:
        rec.check(abs(d[w] - v) < 1e-11, '%s: direction %s is %s, expected %s', what, w, d[w], v)
    rec.outcome(tuple(round(v, 5) + 0.0 for _, v in exp))


def do_state(n, U, dev, lists, rec, tag):
    for oi, specs in lists:
        H = o.ham_matrix(specs, n)
        obs = o.obs_list(specs)
        X = o.reuse(U)
        d = get_all_su_n_directions(X, obs, dev)
        rec.path = [tag, specs]
        compare(d, n, U[:, 0], H, rec, 'state %s observables %s' % (tag, specs))
        rec.check(np.array_equal(U, X), 'unitary modified')
        rec.step()
        rec.state((n, tag, oi))
    rec.trace()


def run_case(c, rec):
    n = c['n']
    dev = L.device(n)
    ol = list(enumerate(obs_lists(n)))
    if c['kind'] == 'stab':
        st = o.stabilizer_circuits(n)
        for i in range(c['lo'], c['hi']):
            lists = ol if c['all'] else [ol[i % len(ol)]]
            do_state(n, st[i][1], dev, lists, rec, i)
            rec.example({'n': n, 'circuit': st[i][0]})
    elif c['kind'] == 'generic':
        for gi, ops in enumerate(o.generic_circuits(n)):
            if n >= 4 and gi:
                break
            do_state(n, o.circuit_unitary(ops, n), dev, ol if n < 4 else ol[:6] if n == 4 else ol[4:7:2], rec, 'g%d' % gi)
        if n == 5:
            return
        for eps in (1e-3, 1e-6, 1e-9):      # tiny gradients
            for gi, ops in enumerate(o.near_circuits(n, eps)[:3 if n < 4 else 1]):
                do_state(n, o.circuit_unitary(ops, n), dev, ol if n < 3 else ol[:7:2] if n < 4 else ol[4:5], rec, 'near%d %g' % (gi, eps))
        if n < 4:   # Hermitian, repeated and unsorted-wire observables
            U = o.circuit_unitary(o.generic_circuits(n)[0], n)
            m = np.array([[0.4, 0.1 - 0.7j], [0.1 + 0.7j, -0.3]])
            d = get_all_su_n_directions(U, [qml.Hermitian(m, wires=n - 1), qml.PauliX(0)], dev)
            compare(d, n, U[:, 0], o.embed(m, (n - 1,), n) + o.embed(o.X, (0,), n), rec, 'Hermitian')
            rec.step()
    else:
        states = [o.stabilizer_circuits(min(n, 2))[7 % len(o.stabilizer_circuits(min(n, 2)))][0],
                  o.generic_circuits(n)[0], o.generic_circuits(n)[1]]
        lists = ol if n <= 2 else ol[4:7]
        if n == 4:
            lists = ol[5:6]
            states = states[1:2]
        for oi, specs in lists:
            if not specs:
                continue
            H = o.ham_matrix(specs, n)
            layer = L.make(c['layer'], dev, o.obs_list(specs))
            for si, ops in enumerate(states):
                U = o.circuit_unitary(ops, n)
                d = layer.get_lie_algebra_directions(o.reuse(U))
                compare(d, n, U[:, 0], H, rec, '%s n=%d state %d observables %s' % (c['layer'], n, si, specs))
                rec.step()
                rec.state((c['layer'], n, oi, si))
                if c['layer'] != 'adapt':
                    U2 = layer(U)
                    d = layer.get_lie_algebra_directions(o.reuse(U2))
                    compare(d, n, U2[:, 0], H, rec, '%s n=%d after a step' % (c['layer'], n))
                    rec.step(2)
                    rec.state((c['layer'], n, oi, si, 'step'))
            rec.trace()
        rec.example({'layer': c['layer'], 'n': n})
