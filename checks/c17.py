"""C17: the Pauli algebra against matrices."""
import itertools as it
import numpy as np
import sympy as sp
from oranssi.pauli import Pauli, PauliMonomial
from mc import oracle as o

PROPERTY = 'C17'
RULE = ('all pairs of monomials on 3 (non-contiguous) sites, each site absent/I/X/Y/Z, x coefficients; words on 4-6 sites built in every order and multiplied pairwise; all expression trees over '
        'product, commutator, conjugation and coefficient changes up to depth 3; oracle: coefficient x tensor-product matrix, '
        'operands snapshotted around every operation')

SITES = [(0, 1, 2), (1, 6, 13)]
CO = [1.0, -1.0, 1j, 0.5, 2 - 1j, -0.25j, 0.3 + 0.4j]
LET = 'IXYZ'


def build(letters, sites, coeffs=None, order=None, ints=False):
    """letters: string over '.IXYZ' ('.': absent)"""
    ps = []
    for k, (c, s) in enumerate(zip(letters, sites)):
        if c == '.':
            continue
        g = LET.index(c) if ints else c
        if coeffs is None or k >= len(coeffs) or coeffs[k] is None:
            ps.append(Pauli(s, g))
        else:
            ps.append(Pauli(s, g, coeff=coeffs[k]))
    if order:
        ps = [ps[i] for i in order]
    return PauliMonomial(ps)


def mat(m, sites):
    w = {p.alpha: LET[p.gamma] for p in m.monomial}
    return complex(m.coeff) * o.word(''.join(w.get(s, 'I') for s in sites))


def snap(m):
    return (id(m.monomial), tuple(id(p) for p in m.monomial), tuple((p.alpha, p.gamma, p.coeff) for p in m.monomial), m.coeff,
            tuple(m.locations))


def psnap(p):
    return p.alpha, p.gamma, p.coeff


def compact(letters, sites):
    w = [(s, c) for s, c in zip(sites, letters) if c not in '.I']
    return (''.join(c for _, c in w),) + tuple(s for s, _ in w)


def well_formed(m, rec, tag):
    loc = [p.alpha for p in m.monomial]
    rec.check(loc == sorted(set(loc)) and list(m.locations) == loc and len(m) == len(loc), '%s: sites %s / %s', tag, m.locations, loc)
    rec.check([m[i] for i in range(len(m))] == list(m.monomial), '%s: indexing', tag)


def words3(maxlen=3):
    return [''.join(w) for w in it.product('.' + LET, repeat=3) if any(c != '.' for c in w)]


def check_pair(a, b, wa, wb, sites, rec, tag):
    A, B = mat(a, sites), mat(b, sites)
    sa, sb = snap(a), snap(b)
    ab = a * b
    rec.check(o.close(mat(ab, sites), A @ B, 1e-12), '%s: product', tag)
    well_formed(ab, rec, tag)
    present = sorted(s for k, s in enumerate(sites) if wa[k] != '.' or wb[k] != '.')
    rec.check(list(ab.locations) == present, '%s: the product lives on %s, expected %s', tag, ab.locations, present)
    com = a.commutator(b)
    rec.check(o.close(mat(com, sites), A @ B - B @ A, 1e-12), '%s: commutator', tag)
    well_formed(com, rec, tag)
    cw = bool(a.commutes_with(b))
    rec.check(cw == bool(np.abs(A @ B - B @ A).max() < 1e-12), '%s: commutes_with says %s', tag, cw)
    rec.check(snap(a) == sa and snap(b) == sb, '%s: an operand was changed', tag)
    # results do not share Paulis with the operands
    own = set(id(p) for p in ab.monomial) | set(id(p) for p in com.monomial)
    c = complex(ab.coeff)
    ab.conj()
    rec.check(abs(complex(ab.coeff) - c.conjugate()) < 1e-14, '%s: conjugate of the product', tag)
    rec.check(snap(a) == sa and snap(b) == sb, '%s: conjugating the product changed an operand', tag)
    rec.step(4)


def cases(tier):
    q = tier == 'quick'
    out = [{'k': 'single'}, {'k': 'symbols'}]
    out += [{'k': 'scale', 'w': ''.join(w)} for w in it.product(LET, repeat=2)]
    for si in range(len(SITES)):
        for w in words3():
            out.append({'k': 'pairs', 'w': w, 'si': si, 'co': [0] if si else ([0, 4] if q else [0, 2, 4, 6])})
    leaves = LEAVES if not q else LEAVES[:6]
    for l in range(len(leaves)):
        out.append({'k': 'trees', 'first': l, 'leaves': len(leaves), 'depth': 2 if q else 2})
    for l in range(4 if q else 6):
        out.append({'k': 'deep', 'first': l, 'leaves': 4 if q else 6})
    for i in range(len(WIDE)):
        out.append({'k': 'wide', 'i': i, 'all4': not q})
    for l in range(len(LEAVES)):
        out.append({'k': 'hist', 'first': l, 'len': 3 if q else 4})
    return out


# (letters, coefficients per Pauli)
LEAVES = [('X..', [1j]), ('XY.', [0.5, -1.0]), ('.ZZ', [None, 2 - 1j, 1j]), ('IYX', [None, -0.25j, None]), ('Y.Z', [0.3 + 0.4j, None, -1.0]),
          ('ZII', [None, 1j, 1j]), ('.X.', [None, 1.0]), ('..Y', [None, None, 2.0]), ('XXX', [None, 0.5, 1j])]


def scale(c, rec):
    """coefficients of very different sizes: relative accuracy, and commutation does not depend on the size"""
    sites = (0, 4)
    for v in it.product(LET, repeat=2):
        anti = sum(x != y and 'I' not in (x, y) for x, y in zip(c['w'], v)) % 2
        for ca, cb in it.product((1e-9, 3e-6j, 1e-60, -2e8, 1e12j, 1 - 1e-9j), repeat=2):
            a, b = build(c['w'], sites, [ca]), build(v, sites, [None, cb])
            A, B = mat(a, sites), mat(b, sites)
            tag = '%s %s times %s %s' % (ca, c['w'], cb, ''.join(v))
            s = abs(ca * cb)
            rec.path = [tag]
            rec.check(o.close(mat(a * b, sites) / s, A @ B / s, 1e-12), '%s: product', tag)
            rec.check(o.close(mat(a.commutator(b), sites) / s, (A @ B - B @ A) / s, 1e-12), '%s: commutator', tag)
            rec.check(bool(a.commutes_with(b)) == (not anti), '%s: commutes_with', tag)
            rec.step(3)
            rec.state((c['w'], v, str(ca), str(cb)))
        rec.trace()


# words on four, five and six sites
WIDE = ['XYZX', 'X.ZY', 'ZZII', 'YXIZ', '...Y', 'XYZXY', 'IZ.YX', 'ZZZZZ', 'Y...X', 'XXYYZ', 'XYZXYZ', 'Z.X.Y.', 'YYIIXX']
WIDE_SITES = [(0, 1, 2, 3, 4, 5), (3, 5, 8, 9, 14, 21)]


def leaf(i, sites):
    l, c = LEAVES[i]
    return build(l, sites, c)


def run_single(rec):
    for a, b in it.product(range(4), repeat=2):
        for ca, cb in it.product(CO, repeat=2):
            for sa in (0, 3):
                for ia, ib in it.product((True, False), repeat=2):
                    p = Pauli(sa, a if ia else LET[a], coeff=ca)
                    q = Pauli(sa, b if ib else LET[b], coeff=cb)
                    before = psnap(p), psnap(q)
                    r = p * q
                    rec.check(r.alpha == sa and o.close(complex(r.coeff) * o.PAULI[LET[r.gamma]],
                                                        ca * cb * o.PAULI[LET[a]] @ o.PAULI[LET[b]], 1e-13),
                              'Pauli product %s*%s: %s', LET[a], LET[b], r)
                    rec.check((psnap(p), psnap(q)) == before, 'Pauli product changed an operand')
                    r.conj()
                    rec.check((psnap(p), psnap(q)) == before, 'conjugating a Pauli product changed a factor')
                    rec.step()
                    rec.state((a, b, ca, cb, sa, ia, ib))
    for a in range(4):
        for ca in CO:
            p = Pauli(2, a, coeff=ca)
            r = p.conj()
            rec.check(abs(complex(r.coeff) - np.conj(ca)) < 1e-15 and r.gamma == a and r.alpha == 2, 'Pauli conjugate')
            r2 = r.conj()
            rec.check(abs(complex(r2.coeff) - ca) < 1e-15, 'Pauli conjugate twice')
            rec.step(2)
    try:
        Pauli(0, 'X') * Pauli(1, 'X')
        rec.check(False, 'Paulis on different sites were multiplied')
    except AssertionError:
        pass
    # construction in any order, repeated sites rejected, compact form
    for sites in SITES + [(12, 3, 7), (5, 4, 3)]:
        for w in words3():
            present = [s for c, s in zip(w, sites) if c != '.']
            for order in it.permutations(range(len(present))):
                for ints in (False, True):
                    m = build(w, sites, [1j, 0.5, 2 - 1j], order, ints)
                    well_formed(m, rec, w)
                    want = 1
                    for k, c in enumerate(w):
                        if c != '.':
                            want = want * [1j, 0.5, 2 - 1j][k]
                    srt = sorted(zip(sites, w))
                    rec.check(abs(complex(m.coeff) - want) < 1e-14, 'coefficient of %s', w)
                    rec.check({p.alpha: LET[p.gamma] for p in m.monomial} == {s: c for s, c in zip(sites, w) if c != '.'}, 'letters of %s', w)
                    rec.check(tuple(m.to_oranssi()) == compact([c for _, c in srt], [s for s, _ in srt]),
                              'compact form of %s on %s: %s', w, sites, m.to_oranssi())
                    rec.step()
            rec.state((w, sites))
    for s in (0, 4):
        for a, b in it.product(LET, repeat=2):
            try:
                PauliMonomial([Pauli(s, a), Pauli(s, b)])
                rec.check(False, 'two Paulis on one site accepted')
            except AssertionError:
                rec.step()
    rec.trace()
    rec.example({'single': 'all pairs of letters x coefficients'})


def apply(op, a, b):
    return a * b if op == '*' else a.commutator(b)


def ref(op, A, B):
    return A @ B if op == '*' else A @ B - B @ A


def run_trees(c, rec):
    sites = SITES[1]
    nl = c['leaves']
    i = c['first']
    for ops in it.product('*c', repeat=2):
        for j, k in it.product(range(nl), repeat=2):
            for shape in (0, 1):
                a, b, d = leaf(i, sites), leaf(j, sites), leaf(k, sites)
                A, B, D = mat(a, sites), mat(b, sites), mat(d, sites)
                s0 = [snap(x) for x in (a, b, d)]
                if shape == 0:
                    r = apply(ops[1], apply(ops[0], a, b), d)
                    R = ref(ops[1], ref(ops[0], A, B), D)
                else:
                    r = apply(ops[0], a, apply(ops[1], b, d))
                    R = ref(ops[0], A, ref(ops[1], B, D))
                rec.path = [ops, shape, i, j, k]
                rec.check(o.close(mat(r, sites), R, 1e-10), 'expression %s', rec.path)
                rec.check([snap(x) for x in (a, b, d)] == s0, 'expression %s changed a leaf', rec.path)
                cw = bool(apply(ops[0], a, b).commutes_with(d))
                X = ref(ops[0], A, B)
                rec.check(cw == bool(np.abs(X @ D - D @ X).max() < 1e-12), 'commutes_with in %s', rec.path)
                rec.step(3)
                rec.state((ops, shape, i, j, k))
                rec.trace()
    rec.example({'tree over leaf': LEAVES[i]})


def run_deep(c, rec):
    sites = SITES[0]
    i, nl = c['first'], c['leaves']
    for ops in it.product('*c', repeat=3):
        for j, k, l in it.product(range(nl), repeat=3):
            ms = [leaf(x, sites) for x in (i, j, k, l)]
            Ms = [mat(m, sites) for m in ms]
            r = apply(ops[1], apply(ops[0], ms[0], ms[1]), apply(ops[2], ms[2], ms[3]))
            R = ref(ops[1], ref(ops[0], Ms[0], Ms[1]), ref(ops[2], Ms[2], Ms[3]))
            rec.check(o.close(mat(r, sites), R, 1e-10), 'expression (%s %s %s) over leaves %s', ops[0], ops[1], ops[2], (i, j, k, l))
            rec.step(3)
            rec.state((ops, i, j, k, l))
        rec.trace()


def run_hist(c, rec):
    """histories on two registers: in-place conjugation and coefficient changes interleaved with products"""
    sites = SITES[0]
    OPS = ['conj0', 'conj1', 'half0', 'mul', 'rmul', 'com', 'sq', 'set1']
    for hist in it.product(OPS, repeat=c['len']):
        a, b = leaf(c['first'], sites), leaf((c['first'] * 2 + 1) % len(LEAVES), sites)
        A, B = mat(a, sites), mat(b, sites)
        wa, wb = A / complex(a.coeff), B / complex(b.coeff)
        for h in hist:
            if h == 'conj0':
                z = complex(a.coeff)
                r = a.conj()
                rec.check(r is a or o.close(mat(r, sites), mat(a, sites), 0), 'conj returns the object')
                A = A * (np.conj(z) / z) if abs(z) > 1e-12 else A
            elif h == 'conj1':
                z = complex(b.coeff)
                b.conj()
                B = B * (np.conj(z) / z) if abs(z) > 1e-12 else B
            elif h == 'half0':
                a.coeff = a.coeff * 0.5
                A = A * 0.5
            elif h == 'set1':
                z = complex(b.coeff)
                b.coeff = 1 - 2j
                w = {p.alpha: LET[p.gamma] for p in b.monomial}
                B = (1 - 2j) * o.word(''.join(w.get(s, 'I') for s in sites))
            elif h == 'mul':
                a, A = a * b, A @ B
            elif h == 'rmul':
                b, B = b * a, B @ A
            elif h == 'sq':
                a, A = a * a, A @ A
            else:
                a, A = a.commutator(b), A @ B - B @ A
            rec.step()
            sc = max(1.0, np.abs(A).max(), np.abs(B).max())
            rec.path = [c['first'], hist, h]
            rec.check(np.abs(mat(a, sites) - A).max() < 1e-10 * sc and np.abs(mat(b, sites) - B).max() < 1e-10 * sc,
                      'history %s from leaf %d, at %s', hist, c['first'], h)
        rec.trace()
        rec.state((c['first'], hist))


def run_wide(c, rec):
    wa = WIDE[c['i']]
    n = len(wa)
    co = [1j, 0.5, None, -1.0, 2 - 1j, None]
    others = [w for w in WIDE if len(w) <= n] + ([''.join(w) for w in it.product('.XYZ', repeat=4) if any(x != '.' for x in w)]
                                                if n == 4 and c['all4'] else [])
    for sites in WIDE_SITES:
        sites = sites[:n]
        present = [k for k in range(n) if wa[k] != '.']
        want = np.prod([co[k] if co[k] is not None else 1 for k in present])
        for order in it.permutations(range(len(present))):
            m = build(wa, sites, co, order)
            well_formed(m, rec, '%s built in order %s' % (wa, order))
            rec.check(abs(complex(m.coeff) - want) < 1e-13, 'coefficient of %s', wa)
            rec.check({p.alpha: LET[p.gamma] for p in m.monomial} == {sites[k]: wa[k] for k in present}, 'letters of %s built in order %s', wa, order)
            rec.check(tuple(m.to_oranssi()) == compact(wa, sites), 'compact form of %s on %s: %s', wa, sites, m.to_oranssi())
            rec.step()
            rec.state((wa, sites, order))
        for wb in others:
            wb = wb + '.' * (n - len(wb))
            for rb in (False, True):
                nb = sum(x != '.' for x in wb)
                a = build(wa, sites, co, list(range(len(present)))[::-1])
                b = build(wb, sites, co[::-1][:n], list(range(nb))[::-1] if rb else None)
                tag = '%s x %s on %s' % (wa, wb, sites)
                rec.path = [tag]
                check_pair(a, b, wa, wb, sites, rec, tag)
                rec.state((tag, rb))
            rec.trace()
    rec.example({'wide word': wa})


def run_symbols(rec):
    x, y = sp.symbols('x y')
    vals = {x: 0.7, y: -1.3}

    def num(z):
        return complex(sp.sympify(z).subs(vals))

    def smat(m, sites):
        w = {p.alpha: LET[p.gamma] for p in m.monomial}
        return num(m.coeff) * o.word(''.join(w.get(s, 'I') for s in sites))
    sites = (0, 1)
    cs = [x, -1j * y, x * y, 2.0, 1j]
    ms = [(l, c) for l in ('X.', 'XZ', '.Y', 'IZ', 'YY') for c in cs]

    def mk(t):
        l, c = t
        first = [k for k in range(2) if l[k] != '.'][0]
        co = [None, None]
        co[first] = c
        return build(l, sites, co)
    for s, t in it.product(ms, repeat=2):
        a, b = mk(s), mk(t)
        A, B = smat(a, sites), smat(b, sites)
        rec.check(o.close(smat(a * b, sites), A @ B, 1e-10), 'symbolic product %s %s', s, t)
        com = a.commutator(b)
        rec.check(o.close(smat(com, sites), A @ B - B @ A, 1e-10), 'symbolic commutator %s %s', s, t)
        comm = bool(np.abs(A @ B - B @ A).max() < 1e-12)
        rec.check(bool(a.commutes_with(b)) == comm, 'symbolic commutes_with %s %s', s, t)
        if not comm:
            com.coeff *= 0.5
            d = a.commutator(com)
            X = 0.5 * (A @ B - B @ A)
            rec.check(o.close(smat(d, sites), A @ X - X @ A, 1e-10), 'nested symbolic commutator %s %s', s, t)
        rec.step(4)
        rec.state((str(s), str(t)))
        rec.trace()


def run_case(c, rec):
    k = c['k']
    if k == 'single':
        run_single(rec)
    elif k == 'scale':
        scale(c, rec)
    elif k == 'symbols':
        run_symbols(rec)
    elif k == 'pairs':
        sites = SITES[c['si']]
        for wb in words3():
            for ci in c['co']:
                a = build(c['w'], sites, [CO[ci], CO[(ci + 2) % 7], None])
                b = build(wb, sites, [None, CO[(ci + 3) % 7], CO[(ci + 5) % 7]])
                tag = '%s x %s on %s coefficients %d' % (c['w'], wb, sites, ci)
                rec.path = [tag]
                check_pair(a, b, c['w'], wb, sites, rec, tag)
                rec.state(tag)
            rec.trace()
        rec.example({'left word': c['w'], 'sites': sites})
    elif k == 'trees':
        run_trees(c, rec)
    elif k == 'wide':
        run_wide(c, rec)
    elif k == 'deep':
        run_deep(c, rec)
    else:
        run_hist(c, rec)
