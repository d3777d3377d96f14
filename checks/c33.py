"""C33: malformed Pauli objects and operations are rejected, well-formed ones accepted, and a rejection changes nothing."""
import itertools as it
import numpy as np
import sympy as sp
from oranssi.pauli import Pauli, PauliMonomial, PauliSum

PROPERTY = 'C33'
RULE = ('constructors: every combination of an alphabet of valid and malformed sites, letters and coefficients; every list of up to 4 (5 '
        'thorough) members over an alphabet of Paulis, monomials and foreign objects; operations: every pair of objects of an alphabet for '
        'every operation, every sequence of up to 3 (4) operations, some rejected, on one set of operands; oracle: the documented domain')
NAN = float('nan')
SITE_OK = [0, 1, 7, 10 ** 6]
SITE_BAD = [-1, -7, 0.0, 1.5, '0', None, (0,), 2j]
LET_OK = ['I', 'X', 'Y', 'Z', 0, 1, 2, 3, np.int64(2)]
LET_BAD = ['x', 'XX', '', 'A', '1', 4, -1, np.int64(4), 1.0, None, ['X'], 7]
CO_OK = [1.0, 0.0, -2.5, 1j, 0.5 - 1j, sp.Symbol('a'), 2 * sp.Symbol('a'), sp.Symbol('a') ** 2]
CO_BAD = ['1', None, [1.0], (1j,), {}]


def rejected(f, rec, tag):
    try:
        r = f()
    except Exception:
        rec.step()
        return
    rec.check(False, '%s: accepted, giving %r', tag, r)


def snap(x):
    if isinstance(x, Pauli):
        return ('P', x.alpha, int(x.gamma), repr(x.coeff))
    if isinstance(x, PauliMonomial):
        return ('M', repr(x.coeff), tuple(snap(p) for p in x.monomial), tuple(x.locations))
    if isinstance(x, PauliSum):
        return ('S', tuple(snap(m) for m in x.pauli_sum))
    return repr(x)


def M(*parts):
    return PauliMonomial([Pauli(s, c) for s, c in parts])


def members():
    return [Pauli(0, 'X'), Pauli(1, 'Y', 2j), Pauli(0, 'I'), Pauli(3, 'Z', 0.5), 'X', None, M((0, 'X')), 3]


def monos():
    return [M((0, 'X')), M((1, 'Z')), M((0, 'X'), (1, 'Y')), M((2, 'Z'), (0, 'I')), M((0, 'X'), (1, 'X'), (2, 'X')), Pauli(0, 'X'), 'XY', None, 2.0]


def objects():
    return [Pauli(0, 'X'), Pauli(1, 'Z', 1j), M((0, 'X')), M((0, 'X'), (1, 'Y')), M((0, 'Z'), (2, 'Y')), PauliSum([M((0, 'X')), M((1, 'Y'))]),
            PauliSum([M((0, 'X'), (1, 'Z'))]), PauliSum([]), 'X', None, 2, 1.5]


OPS = ['*', '+', '-', '==', 'commutator', 'commutes_with', 'scalar_mul']


def apply(op, a, b):
    if op == '*':
        return a * b
    if op == '+':
        return a + b
    if op == '-':
        return a - b
    if op == '==':
        return a == b
    return getattr(a, op)(b)


def lengths(s):
    return {len(m.monomial) for m in s.pauli_sum}


def allowed(op, a, b):
    """True: must work; False: must be rejected; None: not specified"""
    P, Mo, S = (lambda x: isinstance(x, Pauli)), (lambda x: isinstance(x, PauliMonomial)), (lambda x: isinstance(x, PauliSum))
    if not (P(a) or Mo(a) or S(a)):
        return None
    if op == 'scalar_mul':
        return (isinstance(b, (int, float, complex)) if S(a) else None)
    if op in ('commutator', 'commutes_with'):
        return Mo(b) if Mo(a) else None
    if op == '==':
        if Mo(a) and Mo(b):
            return len(a.monomial) == len(b.monomial)
        return True if P(a) and P(b) else None
    if op == '*':
        if P(a):
            return a.alpha == b.alpha if P(b) else (None if Mo(b) or S(b) else False)
        if Mo(a):
            return True if Mo(b) else (None if P(b) or S(b) else False)
        if S(b):
            n = {len(set(x.locations) | set(y.locations)) for x in a.pauli_sum for y in b.pauli_sum}
            return len(n) <= 1
        return None if P(b) or Mo(b) or not a.pauli_sum else False
    if S(a):
        if S(b):
            return len(lengths(a) | lengths(b)) <= 1
        return None if P(b) or Mo(b) else False
    return None


def cases(tier):
    q = tier == 'quick'
    out = [{'k': 'pauli', 's': i} for i in range(len(SITE_OK) + len(SITE_BAD))]
    for i in range(len(members())):
        out.append({'k': 'mono', 'i': i, 'len': 4 if q else 5})
    for n in (5, 7, 10, 13) + (() if q else (26,)):
        out.append({'k': 'long', 'len': n})
    for i in range(len(monos())):
        out.append({'k': 'sum', 'i': i, 'len': 4 if q else 5})
    for i in range(len(objects())):
        out.append({'k': 'op', 'i': i, 'len': 2 if q else 3})
    return out


def run_case(c, rec):
    {'pauli': pauli_case, 'mono': mono_case, 'long': long_case, 'sum': sum_case, 'op': op_case}[c['k']](c, rec)
    rec.trace()


def pauli_case(c, rec):
    site = (SITE_OK + SITE_BAD)[c['s']]
    for li, l in enumerate(LET_OK + LET_BAD):
        for ci, co in enumerate(CO_OK + CO_BAD + ['default']):
            ok = c['s'] < len(SITE_OK) and li < len(LET_OK) and (ci < len(CO_OK) or co == 'default')
            tag = 'Pauli(%r, %r, %r)' % (site, l, co)
            rec.path = [tag]
            f = (lambda: Pauli(site, l)) if isinstance(co, str) and co == 'default' else (lambda: Pauli(site, l, co))
            if ok:
                p = f()
                want = 1.0 if isinstance(co, str) else co
                rec.check(p.alpha == site and int(p.gamma) == ('IXYZ'.index(l) if isinstance(l, str) else int(l)), '%s is %r', tag, p)
                rec.check(bool(p.coeff == want), '%s has coefficient %s', tag, p.coeff)
                rec.step()
            else:
                rejected(f, rec, tag)
            rec.state(tag)
    rec.example({'site': repr(site)})


def lists(first, n, length):
    for r in range(length):
        for rest in it.product(range(n), repeat=r):
            yield (first,) + rest


def mono_case(c, rec):
    for idx in lists(c['i'], len(members()), c['len']):
        ms = members()
        l = [ms[i] for i in idx]
        before = [snap(x) for x in l]
        tag = 'PauliMonomial(%r)' % (l,)
        rec.path = [tag]
        sites = [x.alpha for x in l if isinstance(x, Pauli)]
        if len(sites) == len(l) and len(set(sites)) == len(l):
            m = PauliMonomial(l)
            rec.check([p.alpha for p in m.monomial] == sorted(sites), '%s: sites', tag)
            rec.step()
        else:
            rejected(lambda: PauliMonomial(l), rec, tag)
        rec.check([snap(x) for x in l] == before and [ms[i] for i in idx] == l, '%s changed its argument', tag)
        rec.state(('m',) + idx)


def long_case(c, rec):
    """long lists of factors: every pair of positions shares its site, or none does"""
    L = c['len']
    for pair in [None] + list(it.combinations(range(L), 2)):
        for perm in (1, L - 1, 3 if L % 3 else 5):
            sites = [(5 * k * perm) % (5 * L) if np.gcd(perm, L) == 1 else 5 * k for k in range(L)]
            if pair:
                sites[pair[1]] = sites[pair[0]]
            for letters in ('XYZI', 'I', 'X'):
                l = [Pauli(s, letters[k % len(letters)]) for k, s in enumerate(sites)]
                tag = 'PauliMonomial(%r)' % (l,)
                rec.path = [tag]
                if pair is None:
                    rec.check(PauliMonomial(l).locations is not None and [p.alpha for p in PauliMonomial(l).monomial] == sorted(sites), '%s: sites', tag)
                    rec.step()
                else:
                    rejected(lambda: PauliMonomial(l), rec, tag)
                rec.state((tuple(sites), letters))
    # long lists of terms: one of another length at every position
    for pos in [None] + list(range(L)):
        words = it.islice(it.product('XYZ', repeat=3), L)
        ms = [M((0, w[0]), (1, w[1]), (2, w[2])) for w in words]
        if pos is not None:
            ms[pos] = M((0, 'X'), (1, 'Z'))
        tag = 'PauliSum of %d terms, other length at %s' % (L, pos)
        rec.path = [tag]
        if pos is None:
            rec.check(len(PauliSum(ms)) == L, '%s', tag)
            rec.step()
        else:
            rejected(lambda: PauliSum(ms), rec, tag)
        rec.state((L, pos))


def sum_case(c, rec):
    for idx in lists(c['i'], len(monos()), c['len']):
        ms = monos()
        l = [ms[i] for i in idx]
        before = [snap(x) for x in l]
        tag = 'PauliSum(%r)' % (l,)
        rec.path = [tag]
        if all(isinstance(x, PauliMonomial) for x in l) and len({len(x) for x in l}) <= 1:
            s = PauliSum(l)
            rec.check(len(s) == len(set(idx)), '%s has %d terms', tag, len(s))
            rec.step()
        else:
            rejected(lambda: PauliSum(l), rec, tag)
        rec.check([snap(x) for x in l] == before, '%s changed its argument', tag)
        rec.state(('s',) + idx)


def op_case(c, rec):
    n = len(objects())
    steps = [(op, j) for op in OPS for j in range(n)]
    for r in range(1, c['len'] + 1):
        for seq in it.product(steps, repeat=r):
            obj = objects()
            a = obj[c['i']]
            for op, j in seq:
                b = obj[j]
                want = allowed(op, a, b)
                if want is None:
                    break
                tag = 'object %d: %r %s %r after %s' % (c['i'], snap(a), op, snap(b), seq)
                rec.path = [tag]
                before = [snap(x) for x in obj]
                if want:
                    apply(op, a, b)
                    rec.step()
                    if op == 'scalar_mul':
                        continue
                else:
                    rejected(lambda: apply(op, a, b), rec, tag)
                rec.check([snap(x) for x in obj] == before, '%s: an operand was changed', tag)
            else:
                rec.state((c['i'],) + seq)
