"""C16: circuits stay unitary; non-unitary exponentials are repaired on request."""
import itertools as it
import sys
import numpy as np
import scipy.linalg
from mc import oracle as o
from mc import layers as L

PROPERTY = 'C16'
RULE = ('every sequence of up to 3 (4 thorough) layers over all layer classes and step sizes on several start circuits, every '
        'intermediate circuit tested for unitarity; every pattern of faults in the matrix exponentials of one layer call, the '
        'result compared with the product of the exponentials, each non-unitary one replaced by its polar factor')
ASSUMPTIONS = ['fault injection replaces scipy.linalg.expm wherever the package refers to it; a layer that computes its '
               'exponential in another way is only covered by the unitarity part']

ETAS = {'a': 0.1, 'b': 1.0, 'z': 0.0}


def stub(circuit, params, observables, device=None, *a, **k):
    """parameter optimizer with a fixed answer of the right shape"""
    p = [np.array(x, dtype=float) for x in params]
    q = [0.37 + x for x in p]
    arr = np.array(q) if all(np.shape(x) == np.shape(q[0]) for x in q) else q
    return [0.0], [arr]


SPECS = {1: [[('Z', 0)], [('X', 0)]], 2: [[('Z', 0), ('Z', 1)], [('X', 0)], [('Y', 1)]],
         3: [[('Z', 0), ('Z', 1)], [('X', 2)], [('Y', 1), ('Z', 2)]]}


def names(n):
    return [k for k in ('local1', 'local2', 'local1t', 'local2t', 'custom', 'customt', 'stoch', 'squared', 'su8', 'zass', 'adapt')
            if L.supported(k, n)]


def call(layer, name, U, st, rec):
    U = o.reuse(U)
    if name == 'adapt':
        V, p = layer(U, optimizer=stub, params=st.setdefault('params', []))
        st['params'] = p
        return V
    if name == 'squaredc':
        return layer(U, optimizer=stub, commute=True)[0]
    return o.own(layer(U))


def starts(n):
    cl = o.stabilizer_circuits(n)
    gen = [o.circuit_unitary(g, n) for g in o.generic_circuits(n)]
    return [np.eye(2 ** n, dtype=complex), gen[0], gen[2], cl[len(cl) // 2][1]]


def sequences(c, rec):
    n = c['n']
    dev = L.device(n)
    obs = o.obs_list(SPECS[n])
    alphabet = [(nm, e) for nm in names(n) + ['squaredc'] for e in ETAS]
    cache = {}

    def layer(nm, e):
        if (nm, e) not in cache:
            cache[(nm, e)] = L.make('squared' if nm == 'squaredc' else nm, dev, obs, eta=ETAS[e])
        return cache[(nm, e)]
    alpha2 = [(nm, 'b') for nm in names(n) + ['squaredc']]
    for si, U0 in enumerate(starts(n)):
        for depth in range(1, c['depth'] + 1):
            if depth == 3 and n == 2 and si not in c.get('deep', (0, 1, 2, 3)):
                continue
            pool = alphabet if depth == 1 else alpha2
            for tail in it.product(pool, repeat=depth - 1):
                seq = (tuple(c['first']),) + tail
                if depth == 1 and seq[0] not in pool and False:
                    continue
                U = U0.copy()
                st = {}
                for i, (nm, e) in enumerate(seq):
                    np.random.seed(i)
                    if nm == 'adapt':
                        lay = L.make('adapt', dev, obs)      # an adaptive layer carries one run
                        st = {}
                    else:
                        lay = layer(nm, e)
                    before = np.array(U)
                    U = np.asarray(call(lay, nm, U, st, rec))
                    rec.path = [seq[:i + 1]]
                    rec.check(U.shape == before.shape and o.is_unitary(U, 1e-8), 'after %s the circuit is not unitary', seq[:i + 1])
                    rec.step()
                    rec.state(np.round(U, 6).tobytes())
                rec.trace()
    rec.example({'first': c['first'], 'n': n, 'depth': c['depth']})


def bch(c, rec):
    """the BCH layer before, between and after another layer"""
    n = c['n']
    dev = L.device(n)
    obs = o.obs_list(SPECS[n])
    for order in ((0, 1), (1, 0), (1, 0, 1), (0, 1, 0)):
        for e in ('a', 'b'):
            lays = [L.make('squared' if c['other'] == 'squaredc' else c['other'], dev, obs, eta=ETAS[e]), L.make('bch', dev, obs, eta=ETAS[e])]
            U, st = starts(n)[1].copy(), {}
            np.random.seed(4)
            for i in order:
                if i == 0 and c['other'] == 'adapt':
                    lays[0] = L.make('adapt', dev, obs)
                    st = {}
                U = np.asarray(call(lays[i], c['other'] if i == 0 else 'bch', U, st, rec))
                rec.path = [c['other'], order, e]
                rec.check(U.shape == (2 ** n, 2 ** n) and o.is_unitary(U, 1e-8), 'after %s (%s=0, bch=1) the circuit is not unitary', order, c['other'])
                rec.step()
                rec.state(np.round(U, 6).tobytes())
            rec.trace()


def long_runs(c, rec):
    n = c['n']
    dev = L.device(n)
    obs = o.obs_list(SPECS[n])
    for nm in names(n):
        if nm == 'adapt':
            continue
        for U0 in starts(n)[:2]:
            lay = L.make(nm, dev, obs, eta=1.0)
            U = U0.copy()
            np.random.seed(1)
            for i in range(c['steps']):
                U = np.asarray(lay(U))
                rec.check(o.is_unitary(U, 1e-8), '%d steps of %s: not unitary any more', i + 1, nm)
                rec.step()
            rec.trace()
            rec.state((nm, n, np.round(U, 6).tobytes()))


# -------------------------------------------------------------------------------- fault injection

def polar(E):
    P, _, Q = np.linalg.svd(E)
    return P @ Q


def fault(E, kind):
    d = len(E)
    if kind == 0:
        return E
    if kind == 1:
        return 1.03 * E
    if kind == 2:       # shear: not proportional to a unitary
        N = np.eye(d, dtype=complex)
        N[0, d - 1] = 0.2 + 0.1j
        return N @ E
    if kind == 3:       # below the threshold of the check
        return (1 + 1e-11) * E
    if kind == 4:       # slightly above the threshold
        N = np.eye(d, dtype=complex)
        N[d - 1, 0] = 3e-6j
        return N @ E
    if kind == 5:       # very slightly above the threshold
        N = np.eye(d, dtype=complex)
        N[0, 0] = 1 + 1e-7
        return N @ E
    if kind == 6:       # complex orthogonal: Q Q^T = 1, but not unitary
        N = np.eye(d, dtype=complex)
        N[0, 0] = N[d - 1, d - 1] = np.cosh(0.3)
        N[0, d - 1], N[d - 1, 0] = 1j * np.sinh(0.3), -1j * np.sinh(0.3)
        return N
    if kind == 7:       # determinant 1 and columns of the right norm, but not orthogonal ones
        N = np.eye(d, dtype=complex)
        N[0, d - 1], N[d - 1, d - 1] = np.sin(0.4), np.cos(0.4)
        return N @ E
    if kind in (8, 9):  # nearly singular; singular (the closest unitary is not unique)
        N = np.eye(d, dtype=complex)
        N[d // 2, d // 2] = 1e-8 if kind == 8 else 0.
        return N @ E
    if kind == 10:      # huge
        return 1e9 * E
    if kind == 11:      # tiny
        return 1e-9 * E


class Inject(object):
    """Replace every reference of the package to scipy.linalg.expm by one with faults."""

    def __init__(self, pattern):
        self.pattern, self.n, self.out = pattern, 0, []

    def __enter__(self):
        orig = scipy.linalg.expm
        self.undo = []

        def expm(A, *a, **k):
            E = orig(A, *a, **k)
            kind = self.pattern[self.n] if self.n < len(self.pattern) else 0
            self.n += 1
            E = fault(np.array(E, dtype=complex), kind)
            self.out.append(E.copy())
            return E
        for m in [scipy.linalg] + [m for k, m in sorted(sys.modules.items()) if k.startswith('oranssi')]:
            for k, v in list(vars(m).items()):
                if v is orig:
                    self.undo.append((m, k, v))
                    setattr(m, k, expm)
        return self

    def __exit__(self, *a):
        for m, k, v in self.undo:
            setattr(m, k, v)


def patterns(m, kinds, full, maxf):
    if len(kinds) ** m <= full:
        for p in it.product(kinds, repeat=m):
            yield p
        return
    for r in range(maxf + 1):
        for pos in it.combinations(range(m), r):
            for ks in it.product([k for k in kinds if k], repeat=r):
                p = [0] * m
                for i, k in zip(pos, ks):
                    p[i] = k
                yield tuple(p)


def singles(m, kinds):
    for i in range(m):
        for k in kinds:
            yield (0,) * i + (k,) + (0,) * (m - i - 1)


def inject(c, rec):
    n, nm = c['n'], c['layer']
    dev = L.device(n)
    obs = o.obs_list(SPECS[n][:c['nobs']])
    kw = {'directions': c['dirs']} if c['dirs'] else {}
    kinds = (0, 1, 2, 3, 4)
    for U0 in starts(n)[1:3]:
        for chk in (True, False, None):
            def mk():
                k2 = dict(kw)
                if chk is not None:
                    k2['unitary_error_check'] = chk
                return L.make(nm, dev, obs, eta=0.7, **k2)
            one = None if nm == 'stoch' else mk()     # the stochastic layer carries its pools
            np.random.seed(2)
            with Inject(()) as inj:
                clean = np.asarray((one or mk())(U0.copy()))
            m = inj.n
            rec.check(o.is_unitary(clean), 'not unitary without faults')
            want = U0
            for E in inj.out:
                want = E @ want
            if m == 0 or not o.close(clean, want, 1e-10):
                rec.cap('exponentials not observable')      # another way of computing them: nothing to inject into
                return
            for p in it.chain(patterns(m, kinds if chk else (0, 1, 2), c['full'], c['maxf'] if chk else 1), singles(m, (5, 6, 7, 8, 9, 10, 11) if chk else (6,))):
                np.random.seed(2)
                with Inject(p) as inj:
                    got = np.asarray((one or mk())(U0.copy()))
                rec.path = [c, chk, p]
                want = U0
                for E, k in zip(inj.out, p):
                    bad = np.abs(E @ E.conj().T - np.eye(len(E))).max() > 1e-8
                    want = (polar(E) if chk and bad else E) @ want
                rec.check(9 in p or o.close(got, want, 1e-7 if 8 in p else 1e-9), '%s check=%s faults %s: the step is not the product of the (repaired) '
                          'exponentials; max difference %g', nm, chk, p, np.abs(got - want).max())
                if chk:
                    rec.check(o.is_unitary(got, 1e-7), '%s faults %s: the circuit is not unitary', nm, p)
                rec.step(m)
                rec.trace()
                rec.state((nm, n, c['nobs'], c['dirs'], chk, p, len(U0)))
                rec.outcome((chk, any(p)))
    rec.example({'layer': nm, 'n': n, 'exponentials per call': m})


def cases(tier):
    q = tier == 'quick'
    out = []
    for n in (1, 2, 3):
        for nm in names(n) + ['squaredc']:
            for e in ETAS:
                d = {1: 3, 2: 3 if e == 'b' else 1, 3: 2 if e == 'b' else 1}[n] if q else {1: 4, 2: 3, 3: 3 if e == 'b' else 2}[n]
                out.append({'k': 'seq', 'n': n, 'first': [nm, e], 'depth': d, 'deep': [1, 3] if q else [0, 1, 2, 3]})
    for n in (2, 3):
        for nm in names(n) + ['squaredc', 'bch']:
            out.append({'k': 'bch', 'n': n, 'other': nm})
    for n in (1, 2, 3):
        out.append({'k': 'long', 'n': n, 'steps': 40 if q else 300})
    for n, nm, nobs, dirs in [(1, 'local1', 1, None), (1, 'local1', 2, None), (1, 'local1t', 1, None), (1, 'local1t', 2, None),
                              (2, 'local1', 1, None), (2, 'local1', 2, None), (2, 'local1', 3, None), (2, 'local1t', 1, ['X', 'Z']),
                              (2, 'local2', 2, None), (2, 'local2t', 1, ['XX', 'ZY', 'YY']), (2, 'local2t', 1, None),
                              (2, 'custom', 1, None), (2, 'custom', 3, None), (2, 'customt', 1, ['X', 'ZY']), (2, 'customt', 2, ['Y']),
                              (2, 'customt', 1, None), (1, 'custom', 2, None), (1, 'stoch', 2, None), (2, 'stoch', 3, None),
                              (3, 'local1', 2, None), (3, 'stoch', 3, None), (3, 'custom', 2, None)]:
        out.append({'k': 'inject', 'n': n, 'layer': nm, 'nobs': nobs, 'dirs': dirs, 'full': 700 if q else 20000, 'maxf': (1 if dirs is None and nm in ('customt', 'local2t') else 2) if q else 3 if dirs or not nm.endswith('t') else 2})
    out.sort(key=lambda c: (c['k'] != 'seq' or c['n'] != 2, ))
    return out


def run_case(c, rec):
    {'bch': bch, 'seq': sequences, 'long': long_runs, 'inject': inject}[c['k']](c, rec)
