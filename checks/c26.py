"""C26: the algebra dictionaries."""
import itertools as it
import numpy as np
from oranssi.opt_tools import AlgebraSU2, AlgebraSU4, AlgebraSU8
from mc import oracle as o

PROPERTY = 'C26'
RULE = ('every algebra class x options x register size; every history of up to 3 (4 thorough) enumerations, single additions (all qubit '
        'orders) and random draws; every dictionary entry compared with the reference operator')

SPEC = {'su2': (AlgebraSU2, [{}, {'add_su2': True}, {'add_su2': False}], lambda k: (1,)),
        'su4': (AlgebraSU4, [{}, {'add_su2': True}, {'add_su2': False}], lambda k: (1, 2) if k.get('add_su2') else (2,)),
        'su8': (AlgebraSU8, [{}] + [{'add_su2': a, 'add_su4': b} for a in (False, True) for b in (False, True)],
                lambda k: tuple(x for x, y in ((1, k.get('add_su2')), (2, k.get('add_su4')), (3, True)) if y))}


def words(lens):
    return [w for l in lens for w in o.words(l, identity=False)]


def entry(w, q, n):
    return o.embed(o.word(w), q, n)


def norm(k):
    return (str(k[0]),) + tuple(int(x) for x in k[1:])


def verify(A, n, rec, tag, seen):
    for k, M in A.full_paulis.items():
        w, q = str(k[0]), tuple(int(x) for x in k[1:])
        rec.check(len(w) == len(q) and len(set(q)) == len(q), '%s: key %s', tag, k)
        rec.check(o.close(M, entry(w, q, n), 1e-12), '%s: the operator under %s is wrong', tag, k)
        kk = norm(k)
        if kk in seen:
            rec.check(seen[kk] == np.asarray(M).tobytes(), '%s: the entry %s was changed', tag, k)
        else:
            seen[kk] = np.asarray(M).tobytes()
    have = set(map(norm, A.full_paulis))
    for kk in seen:
        rec.check(kk in have, '%s: the entry %s disappeared', tag, kk)


def cases(tier):
    q = tier == 'quick'
    out = []
    for cls in SPEC:
        for i in range(len(SPEC[cls][1])):
            for n in (1, 2, 3, 4) if cls == 'su8' or q else (1, 2, 3, 4, 5):
                out.append({'k': 'full', 'cls': cls, 'opt': i, 'n': n})
            for n in (1, 2, 3):
                out.append({'k': 'hist', 'cls': cls, 'opt': i, 'n': n, 'len': 3 if q else 4})
    if q:
        out += [{'k': 'full', 'cls': c, 'opt': i, 'n': 5} for c in ('su2', 'su4') for i in (0, 1)]
        out += [{'k': 'full', 'cls': 'su8', 'opt': i, 'n': 5} for i in range(len(SPEC['su8'][1]))]
    else:
        out += [{'k': 'full', 'cls': 'su8', 'opt': i, 'n': 5} for i in range(len(SPEC['su8'][1]))]
    return out


def run_case(c, rec):
    cls, opts, lens = SPEC[c['cls']]
    kw, n = opts[c['opt']], c['n']
    L = lens(kw)
    want = set((w,) + q for w in words(L) for q in it.combinations(range(n), len(w)))
    if c['k'] == 'full':
        A = cls(n, **kw)
        tag = '%s(%d, %s)' % (c['cls'], n, kw)
        rec.check(sorted(map(str, A.directions)) == sorted(words(L)), '%s: directions %s', tag, A.directions)
        seen = {}
        for rep in range(3):
            A.get_all_directions_and_qubits()
            verify(A, n, rec, tag, seen)
            got = list(map(norm, A.full_paulis))
            rec.check(len(got) == len(set(got)) and set(got) == want, '%s: %d entries, expected %d; missing %s extra %s', tag, len(got),
                      len(want), sorted(want - set(got))[:3], sorted(set(got) - want)[:3])
            rec.step(len(got))
        # every word on every ordered tuple of qubits, forwards to the full dictionary and backwards to an empty one
        more = [(w, q) for w in words(L) for q in it.permutations(range(n), len(w))]
        for w, q in more:
            A.add_pauli(w, q)
        rec.check(set(map(norm, A.full_paulis)) == set((w,) + q for w, q in more), '%s: entries after adding all orders', tag)
        verify(A, n, rec, tag, seen)
        if n < 5:
            E, seen = cls(n, **kw), {}
            for w, q in more[::-1]:
                E.add_pauli(w, q)
            verify(E, n, rec, tag, seen)
            rec.step(len(more))
        if hasattr(A, 'get_random_direction_and_qubits') and c['cls'] == 'su4' and kw.get('add_su2'):
            for full in (False, True):
                E, seen = cls(n, **kw), {}
                if full:
                    E.get_all_directions_and_qubits()
                np.random.seed(n)
                for i in range(200):
                    d, q = E.get_random_direction_and_qubits()
                    rec.check((str(d),) + tuple(int(x) for x in q) in set(map(norm, E.full_paulis)), '%s: draw %d is not stored', tag, i)
                verify(E, n, rec, tag, seen)
                rec.step(200)
        B = cls(n, **kw)
        rec.check(B.full_paulis is not A.full_paulis, '%s: objects share their dictionary', tag)
        rec.trace()
        rec.state(tag)
        rec.example({'class': c['cls'], 'options': kw, 'n': n, 'entries': len(want)})
        return
    # histories
    adds = []
    for w in words(L):
        if len(w) <= n and w in ('X', 'Z', 'XY', 'ZZ', 'YX', 'XYZ', 'ZZX'):
            adds += [(w, q) for q in it.permutations(range(n), len(w))][:3]
    draw = c['cls'] == 'su4' and kw.get('add_su2')
    ops = [('all',)] + [('add', w, q) for w, q in adds[:8]] + ([('draw', s) for s in (0, 1, 2)] if draw else [])
    for hist in it.product(ops, repeat=c['len']):
        A = cls(n, **kw)
        seen = {}
        drawn = False
        tag = '%s(%d, %s) %s' % (c['cls'], n, kw, hist)
        rec.path = [tag]
        for h in hist:
            if h[0] == 'all':
                A.get_all_directions_and_qubits()
                if not drawn:
                    rec.check(want <= set(map(norm, A.full_paulis)), '%s: enumeration incomplete', tag)
            elif h[0] == 'add':
                A.add_pauli(h[1], h[2])
                rec.check((h[1],) + tuple(h[2]) in set(map(norm, A.full_paulis)), '%s: not added', tag)
            else:
                np.random.seed(h[1])
                d, q = A.get_random_direction_and_qubits()
                drawn = True
                rec.check((str(d),) + tuple(int(x) for x in q) in set(map(norm, A.full_paulis)), '%s: drawn word not stored', tag)
            verify(A, n, rec, tag, seen)
            rec.step()
        allowed = want | set((h[1],) + tuple(h[2]) for h in hist if h[0] == 'add')
        if not drawn:
            rec.check(set(map(norm, A.full_paulis)) <= allowed, '%s: unexpected entries', tag)
        rec.check(sorted(map(str, A.directions)) == sorted(words(L)), '%s: the list of directions changed', tag)
        rec.trace()
        rec.state(tag)
