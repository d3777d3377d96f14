"""C02: the Pauli-word bases."""
import itertools as it
import numpy as np
from oranssi.utils import get_su_2_operators, get_su_4_operators, get_su_n_operators
from mc import oracle as o

PROPERTY = 'C02'
RULE = ('every basis function x every size x both flags (keyword and default); every call history of bounded length '
        'with destructive modification of every returned list and matrix; oracle: explicit tensor products')


def calls(nmax):
    out = []
    for ident in (False, True):
        for names in (False, True):
            out.append(['su2', 1, ident, names])
            out.append(['su4', 2, ident, names])
            for n in range(1, nmax + 1):
                out.append(['sun', n, ident, names])
    return out


def do(call):
    f, n, ident, names = call
    if f == 'su2':
        return get_su_2_operators(identity=ident, return_names=names)
    if f == 'su4':
        return get_su_4_operators(identity=ident, return_names=names)
    return get_su_n_operators(2 ** n, identity=ident, return_names=names)


_exp = {}


def expected(n, ident):
    if (n, ident) not in _exp:
        ws = o.words(n, ident)
        _exp[n, ident] = (ws, [o.word(w) for w in ws])
    return _exp[n, ident]


def verify(call, r, rec):
    f, n, ident, names = call
    ws, mats = expected(n, ident)
    if names:
        rec.check(isinstance(r, tuple) and len(r) == 2, '%s: expected (operators, names)', call)
        ops, nm = r
        rec.check(list(nm) == ws, '%s: names %s', call, list(nm)[:6])
        rec.check(all(isinstance(x, str) for x in nm), 'names are strings')
    else:
        ops = r
    rec.check(isinstance(ops, list) and len(ops) == len(ws), '%s: %d operators', call, len(ops))
    for w, m, e in zip(ws, ops, mats):
        rec.check(np.asarray(m).shape == e.shape and np.array_equal(np.asarray(m), e), '%s: operator %s', call, w)
        rec.check(np.iscomplexobj(m), '%s: operator %s is not complex', call, w)
    return ops


def destroy(call, r):
    ops = r[0] if call[3] else r
    for i, m in enumerate(ops):
        m += 3. + 1j * i
    ops.append('x')
    ops.reverse()
    if call[3]:
        r[1].append('Q')
        r[1].reverse()
        r[1][0] = 'W'


def cases(tier):
    out = [{'kind': 'single', 'call': c} for c in calls(5 if tier == 'quick' else 6)]
    out += [{'kind': 'default'}]
    menu = calls(2 if tier == 'quick' else 3)
    for i in range(len(menu)):
        out.append({'kind': 'history', 'first': i, 'nmax': 2 if tier == 'quick' else 3, 'depth': 3})
    return out


def run_case(c, rec):
    if c['kind'] == 'single':
        r = do(c['call'])
        ops = verify(c['call'], r, rec)
        # pairwise distinct buffers: no aliasing between entries of one basis
        if len(ops) <= 64:
            for a, b in it.combinations(ops, 2):
                rec.check(not np.shares_memory(a, b), 'entries share memory')
        rec.state(c['call'])
        rec.step()
        rec.trace()
        rec.outcome((c['call'], len(ops)))
        rec.example({'call': c['call'], 'n_operators': len(ops)})
    elif c['kind'] == 'default':
        verify(['su2', 1, False, False], get_su_2_operators(), rec)
        verify(['su4', 2, False, False], get_su_4_operators(), rec)
        for n in (1, 2, 3):
            verify(['sun', n, False, False], get_su_n_operators(2 ** n), rec)
            verify(['sun', n, True, False], get_su_n_operators(2 ** n, True), rec)
            verify(['sun', n, True, True], get_su_n_operators(2 ** n, True, True), rec)
        verify(['su2', 1, True, True], get_su_2_operators(True, True), rec)
        verify(['su4', 2, True, True], get_su_4_operators(True, True), rec)
        rec.step(13)
        rec.trace()
    else:
        menu = calls(c['nmax'])
        for rest in it.product(range(len(menu)), repeat=c['depth'] - 1):
            hist = (c['first'],) + rest
            rec.path = list(hist)
            for i in hist:
                r = do(menu[i])
                verify(menu[i], r, rec)
                destroy(menu[i], r)
                rec.step()
            rec.state(hist)
            rec.trace()
