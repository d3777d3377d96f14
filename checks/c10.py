"""C10: adaptive VQE layer."""
import itertools as it
import numpy as np
import pennylane as qml
import oranssi.optimizers as opts
from mc import oracle as o
from mc import layers as L

PROPERTY = 'C10'
RULE = ('all histories of bounded length of adaptive steps, for every sequence of answers of the (scripted) parameter '
        'optimizer over an alphabet and every observable list; oracle: nondeterministic model that tracks the set of '
        'layer sequences explaining all returned unitaries and all circuits handed to the optimizer')
ASSUMPTIONS = ['the layer receives the parameter optimizer through its documented `optimizer` argument',
               'a layer object serves one run (its ansatz grows over its lifetime)']

WORDS = ['X', 'Y', 'Z'] + [a + b for a in 'XYZ' for b in 'XYZ']


def obs_lists(n):
    out = [[[('Z', 0)], [('X', n - 1)]],
           [[('X', q)] for q in range(n)] + [[('Z', q), ('Z', (q + 1) % n)] for q in range(n if n > 2 else 1)],
           [[('Y', 0), ('Z', 1)], [('Z', 0)], [('X', 1), ('Y', 0)]],
           [[('Z', q), ('Y', q + 1)] for q in range(n - 1)],
           [[('Z', n - 1), ('Y', 0)]],
           [[('Y', 0), ('Z', 1)], [('Y', 1), ('Z', 0)]],
           [[('Y', 0), ('Z', 1)], [('X', 0)], [('Y', 0), ('Z', 1)]]]
    return out


def layer_gates(kind, p, n):
    """[(word, qubits, angle)] of one layer"""
    w, t = kind
    if t == 'single':
        return [(w, (i,), p[i]) for i in range(n)]
    if t == 'even':
        return [(w, (i, i + 1), p[k]) for k, i in enumerate(range(0, n - 1, 2))]
    return [(w, (i, i + 1), p[k]) for k, i in enumerate(range(1, n - 1, 2))] + [(w, (0, n - 1), p[-1])]


_h = {}


def ansatz(layers, params, n):
    if n not in _h:
        _h[n] = o.circuit_unitary([('Hadamard', (), (q,)) for q in range(n)], n)
    U = _h[n]
    for kind, p in zip(layers, params):
        for w, qs, a in layer_gates(kind, p, n):
            U = o.rot(o.embed(o.word(w), qs, n), a / 2) @ U
    return U


def scores(phi, H, n):
    """summed absolute gradient of every possible layer"""
    h = H @ phi

    def g(w, qs):
        return abs(2 * np.vdot(o.embed(o.word(w), qs, n) @ phi, h).imag)
    out = {}
    for w in WORDS:
        for t in (('single',) if len(w) == 1 else ('even', 'odd')):
            out[w, t] = sum(g(w, qs) for _, qs, _ in layer_gates((w, t), [0.] * n, n))
    return out


def answer(a, params, n):
    """the scripted optimizer's final parameters"""
    P = [list(map(float, p)) for p in params]
    k = len(P)
    if a == 0:
        return [[0.4 + 0.31 * i + 0.17 * j for i in range(n)] for j in range(k)]
    if a == 1:
        return [[-0.9 + 0.53 * i - 0.29 * j + p[i] for i in range(n)] for j, p in enumerate(P)]
    if a == 2:
        return P
    if a == 4:      # a layer optimized away, the others nearly so
        return [[0. if j == k - 1 or not any(p) else 1e-9 * (i + 1) for i in range(n)] for j, p in enumerate(P)]
    return [[p[i] + (0.25 if j == k - 1 else 0.) * (i + 1) for i in range(n)] for j, p in enumerate(P)]


def cases(tier):
    q = tier == 'quick'
    out = []
    for n in (2, 3, 4):
        for oi in range(len(obs_lists(n))):
            for first in range(5):
                out.append({'k': 'hist', 'n': n, 'oi': oi, 'first': first,
                            'depth': (4 if n < 3 else 3 if n < 4 else 2) if q else 4 if n < 4 else 3})
                out.append({'k': 'long', 'n': n, 'oi': oi, 'first': first, 'depth': 8 if n < 4 else 5})
            out.append({'k': 'opt', 'n': n, 'oi': oi, 'steps': 3 if n < 4 else 2})
    for oi in (1, 2, 4):
        for first in (0, 4):
            out.append({'k': 'long', 'n': 5, 'oi': oi, 'first': first, 'depth': 4 if q else 6})
    out.append({'k': 'real', 'n': 2, 'oi': 1})
    if not q:
        out.append({'k': 'real', 'n': 3, 'oi': 1})
    return out


class Model(object):
    """Tracks every layer sequence that explains the observations."""

    def __init__(self, n, H, rec):
        self.n, self.H, self.rec = n, H, rec
        self.hyps = {()}

    def candidates(self, U):
        s = scores(U[:, 0], self.H, self.n)
        new = set()
        for h in self.hyps:
            allowed = {k: v for k, v in s.items() if not h or k[0] != h[-1][0]}
            m = max(allowed.values())
            for k, v in allowed.items():
                if v >= m - 1e-7:
                    new.add(h + (k,))
        return new

    def observe_circuit(self, cands, circuit, params, tag):
        """the circuit handed to the optimizer is the ansatz of one of the candidates"""
        dev = L.device(self.n)

        def full(p):
            circuit(p)
            return qml.state()
        probe = [[0.3 + 0.2 * i + 0.45 * j for i in range(self.n)] for j in range(len(params))]
        phi = np.asarray(qml.QNode(full, dev)(probe))
        ok = {h for h in cands if len(h) == len(params) and o.close(ansatz(h, probe, self.n)[:, 0], phi, 1e-7)}
        self.rec.check(bool(ok), '%s: the ansatz handed to the optimizer is not an extension of the previous one by a '
                       'layer of maximal gradient (%d candidates)', tag, len(cands))
        return ok

    def observe_step(self, cands, V, params, tag):
        ok = {h for h in cands if o.close(ansatz(h, params, self.n), V, 1e-7)}
        self.rec.check(bool(ok), '%s: the returned unitary is not the ansatz at the returned parameters', tag)
        self.hyps = ok


def scripted(model, U_of, a, rec, tag, expect, log):
    def stub(circuit, params, observables, device=None, *args, **kw):
        n = model.n
        P = [list(map(float, p)) for p in params]
        if expect is not None:
            rec.check(len(P) == len(expect) + 1, '%s: %d layers of parameters after %d', tag, len(P), len(expect))
            rec.check(all(o.close(x, y, 1e-12) for x, y in zip(P, expect)), '%s: earlier parameters changed', tag)
        rec.check(len(P[-1]) == n and o.close(P[-1], [0.1] * n, 1e-12), '%s: new parameters %s', tag, P[-1])
        cands = model.observe_circuit(model.candidates(U_of()), circuit, params, tag)
        final = answer(a, P, n)
        log.append((cands, final))
        return [0.0, 0.0], [np.array(P), np.array(final)]
    return stub


def run_case(c, rec):
    n = c['n']
    dev = L.device(n)
    specs = obs_lists(n)[c['oi']]
    H = o.ham_matrix(specs, n)
    obs = o.obs_list(specs)
    U0 = o.circuit_unitary([('Hadamard', (), (q,)) for q in range(n)], n)
    if c['k'] in ('hist', 'long'):
        longs = [tuple((c['first'] + s * k) % 5 for k in range(1, c['depth'])) for s in (0, 1, 3)]
        for rest in it.product(range(5), repeat=c['depth'] - 1) if c['k'] == 'hist' else longs:
            layer = L.make('adapt', dev, obs)
            model = Model(n, H, rec)
            U, params = U0.copy(), []
            for k, a in enumerate((c['first'],) + rest):
                tag = 'n=%d observables %s answers %s step %d' % (n, specs, (c['first'],) + rest, k)
                rec.path = [tag]
                log = []
                caller = [list(p) for p in params]
                keep = [list(p) for p in params]
                before = U.copy()
                X = o.reuse(U)
                V, newp = layer(X, params=caller, optimizer=scripted(model, lambda: before, a, rec, tag, keep, log))
                rec.check(caller == keep, '%s: the parameter list of the caller was modified', tag)
                rec.check(np.array_equal(X, before), '%s: input modified', tag)
                rec.check(len(log) == 1, '%s: the optimizer was called %d times', tag, len(log))
                cands, final = log[0]
                rec.check(len(newp) == len(final) and all(o.close(x, y, 1e-9) for x, y in zip(newp, final)),
                          '%s: returned parameters are not the optimized ones', tag)
                model.observe_step(cands, V, final, tag)
                rec.step()
                U, params = V, [list(p) for p in newp]
                rec.state((n, c['oi'], (c['first'],) + rest[:k], tuple(sorted(model.hyps))[0]))
                rec.outcome(tuple(sorted(model.hyps))[0])
            rec.trace()
        rec.example({'n': n, 'observables': specs, 'layers': [list(x) for x in sorted(model.hyps)[0]]})
    else:
        saved = opts.parameter_shift_optimizer
        model = Model(n, H, rec)
        log = []
        cur = [U0.copy()]
        count = [0]

        def wrapped(circuit, params, observables, device=None, *args, **kw):
            k = count[0]
            count[0] += 1
            expect = log[-1][1] if log else []
            if k:   # the previous step has been completed: its unitary is the ansatz at its final parameters
                cands, final = log[-1]
                V = ansatz(sorted(cands)[0], final, n)
                model.hyps = cands
                cur[0] = V
            if c['k'] == 'opt':
                return scripted(model, lambda: cur[0], k % 2, rec, 'optimizer step %d' % k, expect, log)(
                    circuit, params, observables, device, *args, **kw)
            P = [list(map(float, p)) for p in params]
            cands = model.observe_circuit(model.candidates(cur[0]), circuit, params, 'real step %d' % k)
            r = saved(circuit, params, observables, device, *args, **kw)
            log.append((cands, [list(map(float, p)) for p in r[1][-1]]))
            return r
        try:
            opts.parameter_shift_optimizer = wrapped
            layer = L.make('adapt', dev, obs)
            ops = [('Hadamard', (), (q,)) for q in range(n)]
            params0 = []
            costs, Us = opts.approximate_lie_optimizer(o.qml_circuit(ops), params0, obs, dev, [layer],
                                                       return_unitary=True, nsteps=c.get('steps', 2))
        finally:
            opts.parameter_shift_optimizer = saved
        rec.check(params0 == [], 'the parameter list of the caller was modified: %s', params0)
        rec.check(len(Us) == len(costs) == c.get('steps', 2) + 1, 'one unitary per step')
        if log:
            rec.check(len(log) == len(costs) - 1, 'one optimisation per step')
            for k, (cands, final) in enumerate(log):
                rec.check(any(o.close(ansatz(h, final, n), Us[k + 1], 1e-7) for h in cands),
                          'step %d: the unitary is not the ansatz at the optimized parameters', k)
                rec.step()
                rec.state((c['k'], n, c['oi'], k))
        rec.trace()
