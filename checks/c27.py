"""C27: equality, hashing and order of Pauli objects."""
import itertools as it
import numpy as np
from oranssi.pauli import Pauli, PauliMonomial
from mc import oracle as o

PROPERTY = 'C27'
RULE = ('all pairs (equality, hash, order against the definition) and all triples (transitivity of the order and of incomparability) of '
        'monomials over words x coefficients; all permutations of short lists sorted; membership in sets and dictionaries')

COEFF = [1.0, -1.0, 2.0, 1j, -1j, 1 + 1j, 0.5 - 2j, 1 + 1e-12j]
LET = 'IXYZ'


def mono(w, sites, c):
    ps = [Pauli(s, l) for s, l in zip(sites, w)]
    ps[0] = Pauli(sites[0], w[0], coeff=c)
    return PauliMonomial(ps)


def isreal(c):
    return complex(c).imag == 0


def ref_eq(a, b):
    return a[0] == b[0] and a[1] == b[1] and isreal(a[2]) == isreal(b[2])


def ref_lt(a, b):
    la, lb = [LET.index(x) for x in a[0]], [LET.index(x) for x in b[0]]
    if la != lb:
        return la < lb
    ra, rb = isreal(a[2]), isreal(b[2])
    if ra != rb:
        return not ra
    f = lambda z: complex(z).real + complex(z).imag
    return f(a[2]) < f(b[2])


def universe(k, sites, coeffs):
    return [(w, tuple(s), c) for w in o.words(k) for s in sites for c in coeffs]


def cases(tier):
    q = tier == 'quick'
    out = [{'k': 'pauli'}, {'k': 'length'}, {'k': 'sets'}]
    for i in range(len(universe(1, [(0,), (3,)], COEFF))):
        out.append({'k': 'pairs', 'n': 1, 'i': i})
    for i in range(0, len(universe(2, [(0, 1), (0, 2)], COEFF)), 4):
        out.append({'k': 'pairs', 'n': 2, 'i': i, 'num': 4})
    for i in range(4 if q else 16):
        out.append({'k': 'triples', 'n': 1 if q else 2, 'i': i})
    for i in range(12 if q else 40):
        out.append({'k': 'sort', 'i': i, 'len': 4 if q else 5})
    out.append({'k': 'triples3'})
    return out


def pairs(A, U, rec):
    a = mono(*A)
    for B in U:
        b = mono(*B)
        e = a == b
        rec.path = [A, B]
        rec.check(bool(e) == ref_eq(A, B), '%s == %s gives %s', A, B, e)
        rec.check(bool(a != b) == (not ref_eq(A, B)), '%s != %s', A, B)
        rec.check(bool(b == a) == bool(e), 'equality of %s and %s is not symmetric', A, B)
        if e:
            rec.check(hash(a) == hash(b), '%s and %s are equal but their hashes differ', A, B)
        if A[1] == B[1]:
            rec.check(bool(a < b) == ref_lt(A, B), '%s < %s gives %s', A, B, a < b)
            rec.check(bool(b < a) == ref_lt(B, A), '%s < %s gives %s', B, A, b < a)
            rec.check(not (a < b and b < a), 'the order is not antisymmetric')
        rec.step(5)
    rec.state(A)
    rec.trace()


def run_case(c, rec):
    k = c['k']
    if k == 'pauli':
        P = [(s, g, x) for s in (0, 1, 10, 11) for g in range(4) for x in (1.0, -1.0, 1j)]
        for A, B in it.product(P, repeat=2):
            for ia in (False, True):
                a = Pauli(A[0], A[1] if ia else LET[A[1]], coeff=A[2])
                b = Pauli(B[0], B[1], coeff=B[2])
                want = A[:2] == B[:2]
                rec.check(bool(a == b) == want, 'Pauli %s == %s gives %s', A, B, a == b)
                rec.check(bool(a != b) == (not want), 'Pauli %s != %s', A, B)
                if want:
                    rec.check(hash(a) == hash(b), 'equal Paulis %s, %s have different hashes', A, B)
                rec.step(2)
        rec.state('pauli')
        rec.trace()
        rec.example({'paulis': len(P)})
    elif k == 'length':
        ms = [mono(w, (0, 1, 2)[:len(w)], x) for w in ('X', 'I', 'XY', 'IX', 'XYZ', 'III') for x in (1.0, 1j)]
        for a, b in it.product(ms, repeat=2):
            if len(a) != len(b):
                for f in (lambda: a == b, lambda: b == a):
                    try:
                        r = f()
                    except Exception:
                        rec.step()
                        continue
                    rec.check(False, '%s == %s: monomials of different length compared: %s', a, b, r)
        rec.state('length')
        rec.trace()
    elif k == 'pairs':
        U = universe(c['n'], [(0,), (3,)] if c['n'] == 1 else [(0, 1), (0, 2)], COEFF)
        for i in range(c['i'], min(len(U), c['i'] + c.get('num', 1))):
            pairs(U[i], U, rec)
        rec.example(U[c['i']])
    elif k == 'triples':
        ws = o.words(c['n'])
        U = [(w, (0, 1)[:c['n']], x) for w in ws for x in COEFF]
        mine = [u for u in U if u[0] == ws[c['i']]]
        M = {u: mono(*u) for u in U}
        lt = {(a, b): bool(M[a] < M[b]) for a in U for b in U}
        rec.step(len(lt))
        for a in mine:
            for b, d in it.product(U, repeat=2):
                if lt[(a, b)] and lt[(b, d)]:
                    rec.check(lt[(a, d)], 'not transitive: %s < %s < %s', a, b, d)
                if not lt[(a, b)] and not lt[(b, a)] and not lt[(b, d)] and not lt[(d, b)]:
                    rec.check(not lt[(a, d)] and not lt[(d, a)], 'incomparability not transitive: %s %s %s', a, b, d)
            rec.state(a)
        rec.trace()
    elif k == 'triples3':
        ws = ['IXY', 'IXZ', 'IYX', 'XII', 'XIX', 'ZZZ', 'III']
        U = [(w, (0, 1, 4), x) for w in ws for x in COEFF]
        for A in U:
            pairs(A, U, rec)
    elif k == 'sort':
        U = universe(1, [(0,)], COEFF) + universe(2, [(0, 1)], COEFF[:5])
        n = len(U)
        one = [u for u in U if len(u[0]) == (1 if c['i'] % 2 else 2)]
        L = [one[(c['i'] * 7 + j * (3 + c['i'] % 5)) % len(one)] for j in range(c['len'])]
        base = None
        for perm in it.permutations(L):
            s = sorted(mono(*p) for p in perm)
            key = [([p.gamma for p in m.monomial], isreal(m.coeff), round(complex(m.coeff).real + complex(m.coeff).imag, 9)) for m in s]
            if base is None:
                base = key
            rec.check(key == base, 'sorting %s depends on the initial order', L)
            arr = np.empty(len(perm), dtype=object)
            for i, p in enumerate(perm):
                arr[i] = mono(*p)
            arr = np.sort(arr)
            key = [([p.gamma for p in m.monomial], isreal(m.coeff), round(complex(m.coeff).real + complex(m.coeff).imag, 9)) for m in arr]
            rec.check(key == base, 'numpy.sort of %s depends on the initial order', L)
            rec.step(2)
        rec.state((c['i'], str(L)))
        rec.trace()
    else:
        U = universe(2, [(0, 1), (0, 2)], COEFF)
        for A in U:
            S = {mono(*A): 1}
            T = set([mono(*A)])
            for B in U:
                b = mono(*B)
                rec.check((b in S) == ref_eq(A, B) and (b in T) == ref_eq(A, B), 'dictionary lookup of %s among {%s}', B, A)
            rec.step(len(U))
        S = set(mono(*A) for A in U)
        rec.check(len(S) == 16 * 2 * 2, 'a set of all monomials has %d elements', len(S))
        S = set(Pauli(s, g, coeff=x) for s in (0, 1, 12) for g in LET for x in (1.0, 2.0, 1j))
        rec.check(len(S) == 12, 'a set of all Paulis has %d elements', len(S))
        rec.state('sets')
        rec.trace()
