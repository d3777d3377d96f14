"""C01: promoting a local operator to the full register."""
import itertools as it
import numpy as np
import pennylane as qml
from oranssi.circuit_tools import get_full_operator
from mc import oracle as o

PROPERTY = 'C01'
RULE = ('every ordered tuple of k distinct wires of an n-qubit register x every matrix unit and a set of special '
        'operators x every way to pass wires/arrays; oracle: index-level definition of the embedding. All call '
        'histories of length 3 with in-place modification of earlier inputs and results. Every out-of-range wire '
        'and every size mismatch must be rejected.')


def special_ops(k):
    d = 2 ** k
    a = np.arange(d * d).reshape(d, d)
    g = (np.cos(1.0 + a) + 1j * np.sin(0.3 + 1.7 * a))
    perm = np.zeros((d, d), dtype=complex)
    for i in range(d):
        perm[i, (i * 3 + 1) % d] = 1j ** i
    ops = {'generic': g, 'identity': np.eye(d), 'zero': np.zeros((d, d)), 'real': g.real.copy(),
           'int': (a % 5 - 2), 'diag': np.diag(g[0]), 'perm': perm, 'upper': np.triu(g),
           'fortran': np.asfortranarray(g), 'strided': np.repeat(np.repeat(g, 2, 0), 2, 1)[::2, ::2],
           'herm': g + g.conj().T, 'complex64': g.astype(np.complex64), 'bool': (a % 2 == 1),
           'scaled': 1e8 * g, 'tiny': 1e-9 * g, 'tinyimag': g.real + 1e-11j * g.imag, 'micro': 1e-14 * g,
           'nearid': np.eye(d) + 1e-9 * g, 'neardiag': np.diag(g[0]) + 1e-9 * g, 'nearherm': g + g.conj().T + 1e-9 * g, 'negid': -np.eye(d), 'iid': 1j * np.eye(d)}
    ro = g.copy()
    ro.flags.writeable = False
    ops['readonly'] = ro
    return ops


def wire_forms(w):
    return [('tuple', tuple(w)), ('list', list(w)), ('Wires', qml.wires.Wires(list(w))),
            ('np', tuple(np.int64(x) for x in w))]


def cases(tier):
    nmax = 6 if tier == 'quick' else 7
    out = []
    for n in range(1, nmax + 1):
        for k in range(1, min(n, 4) + 1):
            if n >= 6 and k == 4:
                tuples = [list(t) for t in it.permutations(range(n), k)]
                for i in range(0, len(tuples), 40):
                    out.append({'kind': 'embed', 'n': n, 'k': k, 'w': tuples[i:i + 40], 'units': False})
                continue
            tuples = [list(t) for t in it.permutations(range(n), k)]
            step = 24 if k < 3 else 8
            for i in range(0, len(tuples), step):
                out.append({'kind': 'embed', 'n': n, 'k': k, 'w': tuples[i:i + step], 'units': k <= 2 or n <= 3})
        for k in (5, 6):
            if k > n:
                continue
            tuples = [list(t) for t in it.permutations(range(n), k)]
            for i in range(0, len(tuples), 30):
                out.append({'kind': 'embed' if n < 6 else 'big', 'n': n, 'k': k, 'w': tuples[i:i + 30], 'units': False})
    for n in (7, 8) if tier == 'quick' else (7, 8, 9):
        for k in (1, 2, 3) if n < 8 else (1, 2):
            tuples = [list(t) for t in it.permutations(range(n), k)]
            for i in range(0, len(tuples), 14):
                out.append({'kind': 'big', 'n': n, 'k': k, 'w': tuples[i:i + 14], 'units': False})
    out.append({'kind': 'reject'})
    for first in range(6):
        out.append({'kind': 'history', 'first': first, 'depth': 3 if tier == 'quick' else 4})
    return out


def run_embed(c, rec):
    n, k = c['n'], c['k']
    d = 2 ** k
    sp = special_ops(k)
    if c['kind'] == 'big':
        sp = {'generic': sp['generic']}
    for w in c['w']:
        if c['units']:
            for i in range(d):
                for j in range(d):
                    u = np.zeros((d, d), dtype=complex)
                    u[i, j] = 1.0
                    r = get_full_operator(u, tuple(w), n)
                    rec.check(o.close(r, o.embed(u, w, n), 1e-13),
                              'unit (%d,%d) on wires %s of %d', i, j, tuple(w), n)
                    rec.step()
                    rec.state((n, tuple(w), i, j))
        for name, op in sp.items():
            forms = wire_forms(w) if name in ('generic', 'identity') and c['kind'] != 'big' else wire_forms(w)[:1]
            for fname, wf in forms:
                before = op.copy()
                r = get_full_operator(op, wf, n)
                rec.check(isinstance(r, np.ndarray) and r.shape == (2 ** n, 2 ** n), 'shape')
                rec.check(np.iscomplexobj(r), 'result for %s is not complex', name)
                scale = max(1., float(np.abs(before).max()))
                scale = {'tiny': 1e-9, 'micro': 1e-14}.get(name, scale)
                rec.check(o.close(r / scale, o.embed(before, w, n) / scale, 1e-13 if name != 'complex64' else 1e-6),
                          'operator %s on wires %s (%s) of %d', name, tuple(w), fname, n)
                rec.check(np.array_equal(op, before), 'the operator argument was modified (%s)', name)
                rec.check(r is not op and (not np.shares_memory(r, op)), 'result aliases the argument')
                rec.step()
                rec.state((n, tuple(w), name, fname))
        rec.outcome((n, tuple(w)))
    rec.trace(len(c['w']))
    rec.example({'n': n, 'wires': c['w'][0], 'operators': sorted(sp)})


def run_reject(c, rec):
    n_rej = 0
    for n in range(1, 5):
        for k in range(1, n + 1):
            op = special_ops(k)['generic']
            for w in it.product(range(-2, n + 2), repeat=k):
                if max(w) < n and min(w) >= 0 and len(set(w)) == k:
                    continue
                try:
                    get_full_operator(op, w, n)
                except Exception:
                    n_rej += 1
                else:
                    rec.check(False, 'wires %s accepted for %d qubits', w, n)
                rec.step()
                rec.state(('range', n, w))
            for k2 in range(1, n + 1):
                if k2 == k:
                    continue
                for w in it.permutations(range(n), k2):
                    try:
                        get_full_operator(op, w, n)
                    except Exception:
                        n_rej += 1
                    else:
                        rec.check(False, '%d-qubit operator accepted on wires %s', k, w)
                    rec.step()
                    rec.state(('size', n, k, w))
            d = 2 ** k
            for shape in ((d, d // 2), (d // 2, d), (d, 2 * d), (d, d + 1), (d + 1, d + 1), (d, d - 1), (d + 1, d), (2 * d - 1, 2 * d - 1),
                          (d, 1), (d, d, 1), (d, d, 2)):
                if shape[0] < 1 or shape[1] < 1 or shape == (d, d) or (np.prod(shape) == d * d and shape[0] == d):
                    continue
                for w in it.permutations(range(n), k):
                    bad = np.cos(np.arange(np.prod(shape))).reshape(shape) + 0j
                    try:
                        get_full_operator(bad, w, n)
                    except Exception:
                        n_rej += 1
                    else:
                        rec.check(False, 'a matrix of shape %s accepted on wires %s', shape, w)
                    rec.step()
                    rec.state(('shape', n, shape, w))
    rec.trace(n_rej)
    rec.example({'rejected': n_rej})


def run_history(c, rec):
    """Histories of calls; after every call the result (and then the input) is overwritten in place."""
    ops = special_ops(1)
    ops2 = special_ops(2)
    menu = [(ops['generic'], (0,), 2), (ops['identity'], (1,), 2), (ops2['generic'], (0, 1), 2),
            (ops2['generic'], (1, 0), 2), (ops['generic'], (0,), 1), (ops2['perm'], (0, 1), 2)]
    depth = c['depth']
    for rest in it.product(range(len(menu)), repeat=depth - 1):
        shared = {}
        for pos, m in enumerate((c['first'],) + rest):
            base, w, n = menu[m]
            arr = shared.setdefault(id(base), np.array(base, dtype=complex))   # same object reused in place
            want = o.embed(arr, w, n)
            r = get_full_operator(arr, w, n)
            rec.path = [(c['first'],) + rest, pos]
            rec.check(o.close(r, want, 1e-13), 'call %d of history %s', pos, (c['first'],) + rest)
            r *= 0.
            r += 7.
            arr *= -1j
            arr[0, 0] += 1.
            rec.step()
        rec.trace()
        rec.state((c['first'],) + rest)


def run_case(c, rec):
    {'embed': run_embed, 'big': run_embed, 'reject': run_reject, 'history': run_history}[c['kind']](c, rec)
