"""C18: Pauli sums as values, over all operation sequences of a small register machine."""
import itertools as it
import numpy as np
from oranssi.pauli import Pauli, PauliMonomial, PauliSum
from mc import oracle as o

PROPERTY = 'C18'
RULE = ('every sequence of operations (add, subtract, multiply registers in all pairings, scalar multiplications, rebuilding from the '
        'terms of a register) up to length 3 (4 thorough, on a reduced alphabet) over 3 registers from several initial contents; '
        'value model: matrices; after every operation all registers, the monomials and lists they were built from are compared; '
        'merging: all lists of up to 4 terms over an alphabet')
SITES = (0, 2)
LET = 'IXYZ'


def mono(w, coeff=1.0):
    ps = [Pauli(s, c) for s, c in zip(SITES, w)]
    ps[0] = Pauli(SITES[0], w[0], coeff=coeff)
    return PauliMonomial(ps)


def word(m):
    return ''.join(LET[p.gamma] for p in m.monomial)


WM = {w: o.word(w) for w in o.words(2)}


def value(s):
    M = np.zeros((4, 4), dtype=complex)
    for m in s.pauli_sum:
        M = M + complex(m.coeff) * WM[word(m)]
    return M


def mval(m):
    return complex(m.coeff), tuple((p.alpha, p.gamma, complex(p.coeff)) for p in m.monomial)


INIT = [
    [[('XI', 1.0), ('ZZ', 0.5)], [('YX', 1j), ('XI', -1.0)], [('IZ', 2.0)]],
    [[('XI', 1.0), ('XI', 1.0), ('ZI', 1j)], [('XI', 2.0)], [('XI', -2.0), ('ZI', -1j)]],
    [[('II', 0.5), ('XY', 0.5)], [('II', 0.5), ('XY', -0.5)], []],
    [[('XI', 1 + 1j), ('XI', 0.5), ('XI', -1j), ('XI', 0.25)], [('YZ', 1j), ('YZ', -1j)], [('ZX', 1.0), ('ZX', -1.0), ('IX', 1.0)]],
    [[('XI', 3e-6), ('XI', 1.0), ('ZZ', 2e-6)], [('XI', -1.0), ('ZZ', 4e-6j)], [('IZ', 1e-3), ('XI', 2e-5)]],
]
SCAL = [-1, 2.0, 1j, 0]


def ops_all():
    ops = []
    for i, j in it.product(range(3), repeat=2):
        ops += [('+', i, j, 2), ('-', i, j, 1), ('*', i, j, 2)]
    for r in range(3):
        for s in range(len(SCAL)):
            ops.append(('s', r, s, r))
    ops += [('r', 2, 0, 0), ('r', 1, 0, 0)]
    return ops


OPS = ops_all()
SMALL = [x for x in OPS if (x[0] in '+-*' and (x[1], x[2]) in ((0, 1), (2, 2), (2, 0), (1, 2))) or (x[0] == 's' and x[2] in (0, 2)) or x[0] == 'r']


class Machine(object):
    def __init__(self, init):
        self.monos = [[mono(w, c) for w, c in ts] for ts in init]
        self.lists = [list(ms) for ms in self.monos]
        self.regs = [PauliSum(l) for l in self.lists]
        self.vals = [sum((c * WM[w] for w, c in ts), np.zeros((4, 4), dtype=complex)) for ts in init]
        self.old = []          # earlier register objects and their values: they must not change either
        self.init = [[mval(m) for m in ms] for ms in self.monos]

    def do(self, op):
        k, i, j, d = op
        R, V = self.regs, self.vals
        if k == 's':
            R[i].scalar_mul(SCAL[j])
            # the object may also be reachable as an old one: same object, same value
            for q, (obj, val) in enumerate(self.old):
                if obj is R[i]:
                    self.old[q] = (obj, val * SCAL[j])
            V[i] = V[i] * SCAL[j]
            return
        if k == '+':
            r, v = R[i] + R[j], V[i] + V[j]
        elif k == '-':
            r, v = R[i] - R[j], V[i] - V[j]
        elif k == '*':
            r, v = R[i] * R[j], V[i] @ V[j]
        else:
            r, v = PauliSum(R[i].pauli_sum), V[i]
        self.old.append((R[d], V[d]))
        R[d], V[d] = r, v

    def verify(self, rec, tag):
        for n, (r, v) in enumerate(list(zip(self.regs, self.vals)) + self.old):
            M = value(r)
            sc = max(1.0, np.abs(v).max())
            rec.check(np.abs(M - v).max() < 1e-7 * sc, '%s: %s no longer denotes its operator (off by %g)', tag,
                      'register %d' % n if n < 3 else 'an earlier sum', np.abs(M - v).max())
        for ms, l, ini in zip(self.monos, self.lists, self.init):
            rec.check(len(l) == len(ms) and all(x is y for x, y in zip(l, ms)), '%s: the list a sum was built from changed', tag)
            rec.check([mval(m) for m in ms] == ini, '%s: a monomial a sum was built from changed', tag)


def kind(c):
    return abs(complex(c).imag) == 0


def merge_case(terms, rec):
    ms = [mono(w, c) for w, c in terms]
    l = list(ms)
    s = PauliSum(l)
    groups = {}
    for w, c in terms:
        groups.setdefault((w, kind(c)), []).append(complex(c))
    V = sum((c * WM[w] for w, c in terms), np.zeros((4, 4), dtype=complex))
    tag = 'PauliSum(%s)' % (terms,)
    rec.check(np.abs(value(s) - V).max() < 1e-7, '%s: wrong operator', tag)
    rec.check(l == ms and len(l) == len(ms), '%s: the list changed', tag)
    rec.check([complex(m.coeff) for m in ms] == [complex(c) for _, c in terms], '%s: a monomial changed', tag)
    # structure, where merging does not turn a complex coefficient into a real one
    if all(k[1] or abs(sum(v).imag) > 1e-9 or abs(sum(v)) < 1e-12 for k, v in groups.items()):
        got = {}
        for m in s.pauli_sum:
            key = (word(m), kind(m.coeff))
            rec.check(key not in got, '%s: %s occurs twice', tag, key)
            got[key] = complex(m.coeff)
        for k, v in groups.items():
            if abs(sum(v)) > 2e-8:
                rec.check(k in got and abs(got[k] - sum(v)) < 1e-12, '%s: term %s is %s', tag, k, got.get(k))
            elif len(v) > 1 and abs(sum(v)) < 1e-12:
                rec.check(k not in got, '%s: the vanishing term %s is kept', tag, k)
        rec.check(len(s) == len(s.pauli_sum) and all(g in groups for g in got), '%s: extra terms', tag)
    rec.step()
    rec.trace()
    rec.state(tag)
    rec.outcome(len(s))


TERMS = [('XI', 1.0), ('XI', -1.0), ('XI', 1j), ('XI', -1j), ('ZY', 0.5), ('ZY', 1 + 1j), ('II', 2.0), ('XI', 2 - 1j)]
SCALED = [('XI', 1.0), ('XI', 0.5j), ('ZY', -2.0), ('II', 1 - 1j)]
# merging leaves small but non-vanishing remainders
TINY = [('XI', 1.0), ('XI', -1.0 + 3e-7), ('XI', 1e-6), ('XI', -1e-6), ('XI', 5e-8j), ('ZY', 4e-8), ('XI', 1j), ('XI', 2e-5 - 1j)]


def cases(tier):
    q = tier == 'quick'
    out = []
    for i in range(len(INIT)):
        for f in range(len(OPS)):
            out.append({'k': 'seq', 'init': i, 'first': f, 'len': 3})
    if not q:
        for i in range(len(INIT)):
            for f in range(len(SMALL)):
                for g in range(len(SMALL)):
                    out.append({'k': 'seq4', 'init': i, 'first': [f, g]})
    for t in range(len(TERMS)):
        out.append({'k': 'merge', 't': t, 'len': 4 if q else 5})
    for t in range(len(TINY)):
        out.append({'k': 'merge', 't': t, 'tiny': True, 'len': 4 if q else 5})
    for t in range(len(TERMS)):
        out.append({'k': 'many', 't': t})
    out.append({'k': 'scale'})
    out.append({'k': 'reject'})
    return out


def run(init, seq, rec):
    m = Machine(INIT[init])
    m.verify(rec, 'initial %d' % init)
    for i, op in enumerate(seq):
        m.do(op)
        rec.step()
    rec.path = [init, seq]
    m.verify(rec, 'initial %d operations %s' % (init, seq))
    rec.trace()
    rec.state((init, seq))
    return m


def run_case(c, rec):
    if c['k'] == 'seq':
        f = OPS[c['first']]
        pool = OPS if c['init'] < 2 else SMALL
        run(c['init'], (f,), rec)
        for g in pool:
            run(c['init'], (f, g), rec)
            for h in (pool if f in SMALL or c['init'] == 0 else SMALL):
                run(c['init'], (f, g, h), rec)
        rec.example({'initial': c['init'], 'first operation': f})
    elif c['k'] == 'seq4':
        f, g = SMALL[c['first'][0]], SMALL[c['first'][1]]
        for h, k in it.product(SMALL, repeat=2):
            run(c['init'], (f, g, h, k), rec)
    elif c['k'] == 'merge':
        T = TINY if c.get('tiny') else TERMS
        for r in range(0, c['len']):
            for rest in it.product(T, repeat=r):
                merge_case([T[c['t']]] + list(rest), rec)
        merge_case([], rec)
    elif c['k'] == 'many':      # long lists in which the same words come back
        for other in TERMS + [None]:
            for m in (5, 6, 7, 8, 9, 12, 17):
                for pat in ((0,), (0, 1), (0, 0, 1), (0, 1, 1, 1, 0), (1, 0, 0)):
                    pair = [TERMS[c['t']], other or TERMS[c['t']]]
                    merge_case([pair[pat[i % len(pat)]] for i in range(m)], rec)
                merge_case([TERMS[(c['t'] * (i + 1) + (0 if other is None else TERMS.index(other)) * i * i) % len(TERMS)] for i in range(m)], rec)
    elif c['k'] == 'scale':     # scalar multiplications in a row, tiny and huge ones included
        for seq in it.product((1e-9, -1, 1j, 1e9, 1, 2, -0.5, 0, 1e-4), repeat=3):
            S = PauliSum([mono(w, z) for w, z in SCALED])
            want = [[w, z] for w, z in SCALED]
            rec.path = [seq]
            for s in seq:
                S.scalar_mul(s)
                for x in want:
                    x[1] = x[1] * s
                v, W = value(S), sum(z * WM[w] for w, z in want)
                rec.check(np.abs(v - W).max() <= 1e-12 * max(abs(z) for _, z in SCALED) * abs(want[1][1] / SCALED[1][1]), 'scalar multiplications %s', seq)
                rec.step()
            rec.state(('scale', seq))
        rec.trace()
    else:
        for bad in ([Pauli(0, 'X')], [mono('XI'), 'XI'], [mono('XI'), PauliMonomial([Pauli(0, 'X')])], [None]):
            try:
                PauliSum(bad)
            except Exception:
                rec.step()
                continue
            rec.check(False, 'PauliSum(%s) accepted', bad)
        for s in ('2', None, [1]):
            S = PauliSum([mono('XI')])
            try:
                S.scalar_mul(s)
            except Exception:
                rec.check(np.abs(value(S) - WM['XI']).max() < 1e-12, 'a rejected scalar changed the sum')
                rec.step()
                continue
            rec.check(False, 'scalar %r accepted', s)
        rec.state('reject')
        rec.trace()
