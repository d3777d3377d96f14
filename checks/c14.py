"""C14: return flags, alignment of the traces, round-robin use of the layers."""
import itertools as it
import random
import numpy as np
import pennylane as qml
from oranssi.opt_tools import LieLayer
from oranssi.optimizers import approximate_lie_optimizer, exact_lie_optimizer, parameter_shift_optimizer
from mc import oracle as o
from mc.randctl import NpNormal
from mc import layers as L
from checks.c06 import cost as exact_cost

PROPERTY = 'C14'
RULE = ('every combination of return flags x every word of up to 3 scripted layers x every number of steps (stopping early '
        'included) x perturbation, and of real layers; each returned trace is recomputed from the others by the reference '
        'model and the costs are compared with the run without flags')

AP = ['return_state', 'return_omegas', 'return_unitary', 'return_gates', 'return_perturbations', 'return_zassenhaus']
EX = ['return_state', 'return_perturbations', 'return_unitary']
PSF = ['return_state', 'return_params']


class Rot(LieLayer):
    """multiplies by a fixed unitary; logs its calls"""

    def __init__(self, device, observables, n, tag, log, U, phases=None):
        super().__init__(device, observables, n)
        self.tag, self.log, self.U = tag, log, U
        self.phases = phases or ['p%s' % tag]
        self.k = 0
        self.su_state = self.phases[0]

    def __call__(self, circuit_unitary, *args, **kwargs):
        # the layer that changes nothing returns the very array it was given every other time
        out = circuit_unitary if self.tag == 3 and self.k % 2 == 0 else self.U @ np.asarray(circuit_unitary)
        self.k += 1
        self.log.append((self.tag, self.su_state, np.array(circuit_unitary), out.copy()))
        self.su_state = self.phases[self.k % len(self.phases)]
        return out

    def __repr__(self):
        return '| scripted %s' % self.tag


def flagsets(names):
    for bits in it.product((False, True), repeat=len(names)):
        yield dict(zip(names, bits))


def unpack(r, flags, names, rec, tag):
    """-> dict name -> value, costs under 'cost'"""
    on = [n for n in names if flags[n]]
    if not on:
        rec.check(not isinstance(r, tuple), '%s: without flags only the costs are returned', tag)
        return {'cost': r}
    rec.check(isinstance(r, tuple) and len(r) == 1 + len(on), '%s: %d values returned, expected %d', tag,
              len(r) if isinstance(r, tuple) else -1, 1 + len(on))
    d = {'cost': r[0]}
    d.update(zip(on, r[1:]))
    return d


def directions(U, Hm, n):
    phi = np.asarray(U)[:, 0]
    return [(w, o.grad(phi, Hm, o.word(w)) / 2 ** n) for w in o.words(n)]


def verify_ap(d, specs, n, rec, tag, nsteps, states_seq=None, phases=None, pert=None, gates=None, lspecs=None):
    """states_seq: unitaries after each step (index 0: initial) as seen by the layers"""
    Hm = o.ham_matrix(specs, n)
    costs = np.array([float(c) for c in d['cost']])
    rec.check(len(costs) == nsteps + 1, '%s: %d costs for %d steps', tag, len(costs), nsteps)
    if 'return_state' in d:
        st = d['return_state']
        rec.check(len(st) == nsteps + 1, '%s: %d states', tag, len(st))
        for i, s in enumerate(st):
            rec.check(abs(np.vdot(s, Hm @ np.asarray(s)).real - costs[i]) < 1e-8, '%s: state %d does not belong to cost %d', tag, i, i)
            if states_seq is not None:
                rec.check(o.close(s, states_seq[i][:, 0], 1e-9), '%s: state %d', tag, i)
    if 'return_unitary' in d:
        us = d['return_unitary']
        rec.check(len(us) == nsteps + 1, '%s: %d unitaries', tag, len(us))
        for i, U in enumerate(us):
            phi = np.asarray(U)[:, 0]
            rec.check(abs(np.vdot(phi, Hm @ phi).real - costs[i]) < 1e-8, '%s: unitary %d does not belong to cost %d', tag, i, i)
            if states_seq is not None:
                rec.check(o.close(U, states_seq[i], 1e-9), '%s: unitary %d', tag, i)
            if 'return_state' in d:
                rec.check(o.close(phi, d['return_state'][i], 1e-9), '%s: state %d and unitary %d differ', tag, i, i)
    if 'return_omegas' in d:
        om = d['return_omegas']
        rec.check(len(om) == nsteps, '%s: %d direction entries', tag, len(om))
        us = states_seq if states_seq is not None else d.get('return_unitary')
        if us is not None:
            for i, m in enumerate(om):
                want = directions(us[i + 1], Hm if lspecs is None else o.ham_matrix(lspecs[i], n), n)
                rec.check(list(m.keys()) == [w for w, _ in want] and
                          all(abs(m[w] - v) < 1e-9 for w, v in want), '%s: directions of step %d', tag, i)
    if 'return_zassenhaus' in d and phases is not None:
        rec.check(list(d['return_zassenhaus']) == list(phases), '%s: phases %s, expected %s', tag, list(d['return_zassenhaus']), phases)
    if 'return_perturbations' in d and pert is not None:
        rec.check(list(d['return_perturbations']) == list(pert), '%s: perturbations %s, expected %s', tag,
                  list(d['return_perturbations']), pert)
    if 'return_gates' in d and gates is not None:
        rec.check(len(d['return_gates']) == gates, '%s: %d gate lists', tag, len(d['return_gates']))


U3 = [o.rot(o.word('XI'), 0.21) @ o.rot(o.word('ZY'), 0.4), o.rot(o.word('YI'), 0.13) @ o.rot(o.word('IX'), -0.3),
      o.rot(o.word('ZX'), 0.17)]
SPECS = [[('Z', 0)], [('X', 1)], [('Z', 0), ('Y', 1)], [('Z', 0)]]       # one object twice
LSPECS = [SPECS, [[('Y', 0)], [('X', 0), ('X', 1)]], [[('Z', 1)]], [[('X', 0)], [('Y', 1)], [('Z', 0), ('X', 1)]]]
START = [('RY', (0.4,), (0,)), ('RX', (0.9,), (1,)), ('CNOT', (), (0, 1))]
R2 = [[0.1 * ((3 * i + 5 * j) % 7) - 0.2 for j in range(4)] for i in range(4)]


def run_scripted(word, nsteps, kw, flags, rec, tag):
    n = 2
    dev = L.device(n)
    obs = o.obs_list(SPECS)
    log = []
    lib = {}
    layers = []
    for t in word:
        if t not in lib:
            lib[t] = Rot(dev, o.obs_list(LSPECS[t]), n, t, log, np.eye(4) if t == 3 else U3[t], ['p%d' % t, 'q%d' % t, 'r%d' % t])
        layers.append(lib[t])
    with NpNormal(R2):
        given = list(layers)
        r = approximate_lie_optimizer(o.qml_circuit(START), [], obs, dev, given, nsteps=nsteps, **kw, **flags)
        rec.check(given == layers, '%s: the layer list was changed', tag)
    d = unpack(r, flags, AP, rec, tag)
    k = len(log)
    rec.check([x[0] for x in log] == [word[i % len(word)] for i in range(k)], '%s: layers used in order %s', tag, [x[0] for x in log])
    seq = [o.circuit_unitary(START, n)] + [x[3] for x in log]
    pert = [i for i in range(k - 1) if np.abs(log[i][3] - log[i + 1][2]).max() > 1e-9]
    if k and k == nsteps and kw.get('perturb') and 'return_perturbations' in d:
        pert = [p for p in pert] + [p for p in d['return_perturbations'] if p == k - 1]
    verify_ap(d, SPECS, n, rec, tag, k, seq, [x[1] for x in log], pert, 0, [LSPECS[x[0]] for x in log])
    Hm = o.ham_matrix(SPECS, n)
    rec.check(o.close(np.array([float(c) for c in d['cost']]),
                      [np.vdot(U[:, 0], Hm @ U[:, 0]).real for U in seq], 1e-9), '%s: costs are not those of the circuits', tag)
    rec.step(k)
    rec.trace()
    rec.state((tuple(word), nsteps, sorted(kw.items()), sorted(flags.items())))
    rec.outcome((k, tuple(pert), sorted(flags.items())))
    return d


REAL = [(2, ['local1']), (2, ['local2']), (2, ['local1', 'local2t']), (2, ['custom', 'local1t', 'squared']), (2, ['squared']),
        (3, ['su8']), (3, ['zass']), (3, ['zass', 'local1']), (2, ['adapt']), (2, ['stoch', 'local1']), (3, ['custom', 'su8', 'zass'])]
RSPECS = {2: SPECS, 3: [[('Z', 0)], [('X', 1), ('X', 2)], [('Y', 2), ('Z', 0)]]}


def run_real(i, commute, nsteps, flags, rec):
    n, names = REAL[i]
    specs = RSPECS[n]
    dev = L.device(n)
    obs = o.obs_list(specs)
    np.random.seed(5)
    random.seed(5)
    layers = [L.make(nm, dev, obs) for nm in names]
    ops = [('Hadamard', (), (q,)) for q in range(n)] if 'adapt' in names else o.generic_circuits(n)[0]
    kw = {'commute': True} if commute else {}
    params = []
    r = approximate_lie_optimizer(o.qml_circuit(ops), params, obs, dev, layers, nsteps=nsteps, tol=None, **kw, **flags)
    tag = 'layers %s commute %s steps %d flags %s' % (names, commute, nsteps, [k for k in flags if flags[k]])
    rec.check(params == [], '%s: params changed', tag)
    d = unpack(r, flags, AP, rec, tag)
    sq = [names[k % len(names)] == 'squared' for k in range(nsteps)]
    ph = None
    if names == ['zass']:
        ph = [('su4', 'su8')[k % 2] for k in range(nsteps)]
    verify_ap(d, specs, n, rec, tag, nsteps, None, ph, [], sum(sq) if commute else 0)
    if 'return_state' in d:
        rec.check(o.close(d['return_state'][0], o.circuit_unitary(ops, n)[:, 0], 1e-9), '%s: initial state', tag)
    if 'return_unitary' in d:
        rec.check(o.close(d['return_unitary'][0], o.circuit_unitary(ops, n), 1e-9), '%s: initial unitary', tag)
    rec.step(nsteps)
    rec.trace()
    rec.state(('real', i, commute, nsteps, sorted(flags.items())))
    return d


def cases(tier):
    q = tier == 'quick'
    out = []
    for nl in (1, 2, 3):
        for word in it.product(range(3), repeat=nl):
            if list(word) != sorted(word) and nl == 3 and q and len(set(word)) < 2:
                continue
            out.append({'k': 'robin', 'word': list(word)})
    out += [{'k': 'flags', 'nsteps': N, 'word': w, 'stop': s} for N in ((1, 2, 5) if q else (1, 2, 3, 5, 7)) for w in ([0], [0, 1, 2])
            for s in ('none',)]
    out += [{'k': 'flags', 'nsteps': N, 'word': w, 'stop': s} for N in (10, 14) for w in ([3], [3, 0]) for s in ('stop', 'perturb')
            if not (w == [3, 0] and N == 10 and q)]
    # long runs: all flags, every pair and every single flag, with perturbations too
    for N, w, s in ((40, [0, 1, 2], 'none'), (110, [0], 'none'), (45, [3, 0], 'perturb')):
        out += [{'k': 'flags', 'nsteps': N, 'word': w, 'stop': s, 'few': True, 'part': p} for p in range(3)]
    for i in range(len(REAL)):
        for commute in (False, True):
            if commute and 'squared' not in REAL[i][1]:
                continue
            P = 6 if commute else 2
            for part in range(P):
                out.append({'k': 'real', 'i': i, 'commute': commute, 'nsteps': 3, 'all': (i in (0, 3, 6) and not commute) or not q,
                            'part': part, 'parts': P})
    for e in range(len(EXA)):
        for N in (1, 2, 6, 8, 30):
            out.append({'k': 'exact', 'i': e, 'N': N})
    for e in range(len(PSA)):
        for N in (1, 3, 6, 30):
            out.append({'k': 'ps', 'i': e, 'N': N})
    return out


EXA = [([('RY', (0.4,), (0,))], [[('Z', 0)]], 1), (START, SPECS, 2), ([], [[('Z', 0)], [('Z', 1)]], 2),
       ([('RX', (0.6,), (0,)), ('RY', (1.1,), (1,)), ('CNOT', (), (1, 0))], [[('Y', 0)], [('X', 1)], [('Y', 0)], [('X', 1)], [('X', 1)]], 2)]
PSA = [(lambda p: [('RX', (p[0],), (0,)), ('RY', (p[1],), (0,))], [0.7, -0.4], [[('Z', 0)], [('X', 0)]], 1),
       (lambda p: [('RY', (p[0],), (0,)), ('CNOT', (), (0, 1)), ('RY', (p[1],), (1,)), ('RZ', (p[2],), (1,))], [0.4, 0.2, 0.9],
        [[('Z', 0), ('Z', 1)], [('X', 1)]], 2),
       (lambda p: [('RY', (p[0],), (0,))], [0.0], [[('Z', 0)]], 1),
       # repeated observables: steps overshoot, the cost goes up and down
       (lambda p: [('RY', (p[0],), (0,)), ('RX', (p[1],), (0,))], [0.9, 0.3], [[('Z', 0)]] * 4 + [[('X', 0)]], 1)]


def run_case(c, rec):
    k = c['k']
    if k == 'robin':
        for N in range(1, 9):
            for fl in ({}, {'return_state': True, 'return_unitary': True, 'return_zassenhaus': True, 'return_omegas': True}):
                flags = dict.fromkeys(AP, False)
                flags.update(fl)
                tag = 'scripted layers %s steps %d flags %s' % (c['word'], N, sorted(fl))
                rec.path = [tag]
                run_scripted(c['word'], N, {'tol': None}, flags, rec, tag)
        rec.example({'layer word': c['word'], 'steps': '1..8'})
    elif k == 'flags':
        base = None
        kw = {'tol': None} if c['stop'] == 'none' else {'tol': 1e-3, 'perturb': c['stop'] == 'perturb'}
        for num, flags in enumerate(flagsets(AP)):
            on = sum(flags.values())
            if c.get('few') and on and (not (on in (1, 2) or on >= 5) or num % 3 != c['part']):
                continue
            tag = 'scripted layers %s steps %d %s flags %s' % (c['word'], c['nsteps'], c['stop'], [f for f in flags if flags[f]])
            rec.path = [tag]
            d = run_scripted(c['word'], c['nsteps'], kw, flags, rec, tag)
            cs = np.array([float(x) for x in d['cost']])
            if base is None:
                base = cs
            rec.check(cs.shape == base.shape and np.abs(cs - base).max() < 1e-12, '%s: asking for traces changed the costs', tag)
        rec.example(c)
    elif k == 'real':
        base = None
        zass_ok = all(x == 'zass' for x in REAL[c['i']][1])
        for num, flags in enumerate(flagsets(AP)):
            on = sum(flags.values())
            if on and num % c['parts'] != c['part']:
                continue
            if not c['all'] and not (on <= 1 or on >= 5 or (flags['return_state'] and flags['return_unitary'] and on <= 3)):
                continue
            rec.path = [c, flags]
            d = run_real(c['i'], c['commute'], c['nsteps'], flags, rec)
            cs = np.array([float(x) for x in d['cost']])
            if base is None:
                base = cs
            rec.check(np.abs(cs - base).max() < 1e-9, 'layers %s flags %s: asking for traces changed the costs',
                      REAL[c['i']][1], flags)
    elif k == 'exact':
        ops, specs, n = EXA[c['i']]
        obs = o.obs_list(specs)
        Hm = o.ham_matrix(specs, n)
        for perturbation in (False, True):
            base = None
            for flags in flagsets(EX):
                if flags['return_perturbations'] and not perturbation:
                    continue
                rec.path = [c, perturbation, flags]
                np.random.seed(3)
                r = exact_lie_optimizer(o.qml_circuit(ops), [], obs, L.device(n), nsteps=c['N'], eta=0.3 if c['N'] < 30 else 0.02, tol=1e-3,
                                        perturbation=perturbation, **flags)
                tag = 'exact %s' % rec.path
                d = unpack(r, flags, EX, rec, tag)
                cs = np.array([float(x) for x in d['cost']])
                if base is None:
                    base = cs
                rec.check(cs.shape == base.shape and np.abs(cs - base).max() < 1e-12, '%s: flags change the costs', tag)
                rec.check(len(cs) <= c['N'] + 1, '%s: %d costs', tag, len(cs))
                if flags['return_state']:
                    st = d['return_state']
                    rec.check(len(st) == len(cs), '%s: %d states for %d costs', tag, len(st), len(cs))
                    for s, x in zip(st, cs):
                        rec.check(abs(np.vdot(s, Hm @ np.asarray(s)).real - x) < 1e-8, '%s: a state does not belong to its cost', tag)
                    rec.check(o.close(st[0], o.circuit_unitary(ops, n)[:, 0], 1e-9), '%s: initial state', tag)
                if flags['return_unitary']:
                    U = np.asarray(d['return_unitary'])
                    rec.check(U.shape == (2 ** n, 2 ** n) and o.is_unitary(U), '%s: unitary', tag)
                    phi = U[:, 0]
                    rec.check(abs(np.vdot(phi, Hm @ phi).real - cs[-1]) < 1e-8, '%s: the unitary does not belong to the last cost', tag)
                    if flags['return_state']:
                        rec.check(o.close(phi, d['return_state'][-1], 1e-9), '%s: unitary and last state', tag)
                if flags['return_perturbations']:
                    rec.check(all(0 <= p < len(cs) - 1 for p in d['return_perturbations']), '%s: perturbations', tag)
                rec.step(len(cs) - 1)
                rec.trace()
                rec.state(('exact', c['i'], c['N'], perturbation, sorted(flags.items())))
    else:
        f, p0, specs, n = PSA[c['i']]
        obs = o.obs_list(specs)

        def circuit(params, **kw):
            for name, pr, w in f(params):
                getattr(qml, name)(*pr, wires=list(w) if len(w) > 1 else w[0])
        base = None
        for eta in (0.1, 0.5, 1.0) if c['N'] < 30 else (0.01, 0.1):
            base = None
            for flags in flagsets(PSF):
                rec.path = [c, eta, flags]
                given = list(p0)
                r = parameter_shift_optimizer(circuit, given, obs, L.device(n), nsteps=c['N'], eta=eta, tol=1e-3, **flags)
                tag = 'parameter shift %s' % rec.path
                rec.check(given == list(p0), '%s: the initial parameters were changed', tag)
                d = unpack(r, flags, PSF, rec, tag)
                cs = np.array([float(x) for x in d['cost']])
                if base is None:
                    base = cs
                rec.check(cs.shape == base.shape and np.abs(cs - base).max() < 1e-12, '%s: flags change the costs', tag)
                if flags['return_params']:
                    ps = d['return_params']
                    rec.check(len(ps) == len(cs), '%s: %d parameter sets for %d costs', tag, len(ps), len(cs))
                    for j, p in enumerate(ps):
                        p = [float(x) for x in p]
                        U = o.circuit_unitary(f(p), n)
                        rec.check(abs(exact_cost(U, specs, n) - cs[j]) < 1e-8, '%s: parameters %d do not belong to cost %d', tag, j, j)
                        if flags['return_state']:
                            rec.check(o.close(d['return_state'][j], U[:, 0], 1e-8), '%s: state %d', tag, j)
                    rec.check(o.close([float(x) for x in ps[0]], p0, 1e-12), '%s: first parameters', tag)
                if flags['return_state']:
                    rec.check(len(d['return_state']) == len(cs), '%s: %d states', tag, len(d['return_state']))
                rec.step(len(cs) - 1)
                rec.trace()
                rec.state(('ps', c['i'], c['N'], eta, sorted(flags.items())))
