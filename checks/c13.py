"""C13: early stopping and perturbation."""
import contextlib
import itertools as it
import numpy as np
import pennylane as qml
from oranssi.opt_tools import LieLayer
from oranssi.optimizers import approximate_lie_optimizer, exact_lie_optimizer, parameter_shift_optimizer
from mc import oracle as o
from mc.randctl import NpNormal
from mc import layers as L
from checks.c06 import step as exact_step, cost as exact_cost

PROPERTY = 'C13'
RULE = ('approximate optimizer: every binary cost history of 11 steps and every placement of up to 2 (3) convergence events '
        'in longer histories, through a scripted Lie layer, x tolerances x step limits x perturbation; exact and '
        'parameter-shift optimizers: trajectories of the real flow with the tolerance placed in every gap between '
        'successive cost differences; scripted Gaussian matrices for the kicks; oracle: reference stopping automaton')
ASSUMPTIONS = ['convergence is |difference| <= tol + 1e-5 |earlier cost| (numpy.isclose); histories within 1e-7 of that '
               'threshold are not judged']

RTOL = 1e-5


def converged(a, b, tol):
    """None if too close to the threshold to call"""
    if tol == float('inf'):
        return True
    d, lim = abs(a - b), tol + RTOL * abs(b)
    if abs(d - lim) < 1e-7 and not (d < 1e-9 and lim > 1e-9):
        return None if lim > 1e-9 or d > 1e-12 else True
    return d <= lim


class Script(LieLayer):
    """A Lie layer whose k-th step produces a circuit with the k-th scripted cost <Z>."""

    def __init__(self, device, observables, levels):
        super().__init__(device, observables, 1)
        self.levels = levels
        self.calls = 0
        self.inputs, self.outputs = [], []

    def __call__(self, circuit_unitary, *args, **kwargs):
        self.inputs.append(np.array(circuit_unitary))
        U = o._ry(np.arccos(self.levels[self.calls]))
        # a different circuit for the same cost, so that nothing but the cost converges
        U = o._rz(0.3 + 0.1 * self.calls) @ U
        self.calls += 1
        self.outputs.append(U.copy())
        return U

    def __repr__(self):
        return '| scripted layer'


def predict(levels0, levels, tol, nsteps, perturb):
    """(number of steps, perturbation steps) or None if undecidable"""
    c = [levels0]
    pert = []
    for s in range(nsteps):
        c.append(levels[s])
        if tol is not None and s >= 9:
            k = converged(c[-1], c[-6], tol)
            if k is None:
                return None
            if k:
                if perturb:
                    pert.append(s)
                else:
                    return s + 1, pert
    return nsteps, pert


def run_script(l0, levels, tol, nsteps, perturb, rec, eta=None, randn=None, given=None):
    want = predict(l0, levels, tol, nsteps, perturb)
    if want is None:
        return
    dev = L.device(1)
    obs = [qml.PauliZ(0)]
    layer = Script(dev, obs, list(levels) + [0.123] * 5)
    kw = {'nsteps': nsteps, 'tol': tol} if given is None else dict(given)
    if perturb is not None:
        kw['perturb'] = perturb
    if eta is not None:
        kw['eta'] = eta
    if perturb:
        kw['return_perturbations'] = True
    with contextlib.nullcontext() if randn is None else NpNormal(randn):
        r = approximate_lie_optimizer(o.qml_circuit([('RY', (float(np.arccos(l0)),), (0,))]), [], obs, dev, [layer], **kw)
    costs, pert = (r if perturb else (r, []))
    tag = 'initial cost %s levels %s tol %s nsteps %s perturb %s' % (l0, levels, tol, nsteps, perturb)
    rec.check(len(costs) - 1 == want[0] and layer.calls == want[0], '%s: %d steps, expected %d', tag, layer.calls, want[0])
    rec.check(o.close(np.array(costs, dtype=float), [l0] + list(levels[:want[0]]), 1e-9), '%s: costs', tag)
    rec.check(list(pert) == want[1], '%s: perturbations %s, expected %s', tag, list(pert), want[1])
    for k in range(1, layer.calls):
        K = layer.inputs[k] @ layer.outputs[k - 1].conj().T
        if k - 1 in want[1]:
            rec.check(o.is_unitary(K, 1e-9) and np.abs(K.imag).max() < 1e-9, '%s: the kick is not orthogonal', tag)
            if randn is not None:
                rec.check(is_kick(K, randn, 0.1 if eta is None else eta), '%s: wrong kick after step %d', tag, k - 1)
        else:
            rec.check(np.abs(K - np.eye(2)).max() < 1e-12, '%s: the circuit was changed after step %d', tag, k - 1)
    rec.step(layer.calls)
    rec.trace()
    rec.state(('ap', l0, tuple(levels), tol, nsteps, perturb, eta))
    rec.outcome((want[0], tuple(want[1])))


R1 = [[0.3, 1.2], [-0.7, 0.5]]


def kick(R, eta):
    R = np.array(R, dtype=float)
    S, V = np.linalg.eigh(1j * 0.05 * (R - R.T))
    return (V * np.exp(1j * eta / 2 * S)) @ V.conj().T


def is_kick(K, R, eta):
    """the kick of the Gaussian matrix R; a Gaussian matrix and its transpose are equally likely"""
    G = kick(R, eta)
    return np.abs(K - G).max() < 1e-9 or np.abs(K - G.conj().T).max() < 1e-9


def pattern(j):
    def f(shape):
        k = np.arange(int(np.prod(shape)), dtype=float)
        return (np.sin(1.7 * k + j) + 0.3 * (k % 3) - 0.2 * j).reshape(shape)
    return f


class Still(LieLayer):
    """A Lie layer that leaves the circuit alone: the cost converges at once."""

    def __init__(self, device, observables, n):
        super().__init__(device, observables, n)
        self.inputs = []

    def __call__(self, circuit_unitary, *args, **kwargs):
        self.inputs.append(np.array(circuit_unitary))
        return circuit_unitary

    def __repr__(self):
        return '| resting layer'


def run_kick(c, rec):
    n, eta = c['n'], c['eta']
    kw = {} if eta is None else {'eta': eta}
    eta = 0.1 if eta is None else eta
    specs = [[('Z', q)] for q in range(n)] + ([[('X', 0), ('Y', 1)]] if n > 1 else [])
    obs = o.obs_list(specs)
    ops = [('RY', (0.4 + 0.7 * q,), (q,)) for q in range(n)]
    for j in range(3):
        R = pattern(j)((2 ** n, 2 ** n))
        rec.path = ['kick', c, j]
        layer = Still(L.device(n), obs, n)
        with NpNormal(pattern(j)):
            costs, pert = approximate_lie_optimizer(o.qml_circuit(ops), [], obs, L.device(n), [layer], nsteps=13, tol=3.0 * n,
                                                    perturb=True, return_perturbations=True, **kw)
        rec.check(list(pert) == [9, 10, 11, 12], 'perturbations %s', list(pert))
        for k in range(1, 13):
            K = layer.inputs[k] @ layer.inputs[k - 1].conj().T
            rec.check(is_kick(K, R, eta) if k - 1 in pert else np.abs(K - np.eye(2 ** n)).max() < 1e-9,
                      'n=%d eta %s: circuit after step %d', n, eta, k - 1)
            rec.step()
        with NpNormal(pattern(j)):
            costs, states, pert = exact_lie_optimizer(o.qml_circuit(ops), [], obs, L.device(n), nsteps=8, tol=9.0,
                                                      perturbation=True, return_perturbations=True, return_state=True, **kw)
        rec.check(list(pert) == [4, 5, 6], 'exact optimizer: perturbations %s', list(pert))
        for s in range(8):
            ok = False
            for G in ((kick(R, eta), kick(R, eta).conj().T) if s - 1 in pert else (np.eye(2 ** n),)):
                V = np.zeros((2 ** n, 2 ** n), dtype=complex)
                V[:, 0] = G @ np.asarray(states[s])
                ok = ok or o.close(exact_step(V, specs, n, eta)[:, 0], states[s + 1], 1e-8)
            rec.check(ok, 'exact optimizer n=%d eta %s: state after step %d', n, eta, s)
            rec.step()
        rec.trace(2)
        rec.state(('kick', n, eta, j))


def run_defaults(c, rec):
    """settings that are not given: 40 steps, step size 0.1, tolerance 1e-3, no perturbation"""
    for tol in (c['tol'],):
        for nst in (c['nst'],):
            t, N = tol.get('tol', 1e-3), nst.get('nsteps', 40)
            kw = dict(tol, **nst)
            for i, (ops, specs, n) in enumerate(EXACT):
                rec.path = ['defaults', kw, i]
                traj = exact_traj(i, 0.1, N)
                want = predict1(traj, t, N, 4)
                if want is not None:
                    r = exact_lie_optimizer(o.qml_circuit(ops), [], o.obs_list(specs), L.device(n), **kw)
                    rec.check(len(r) - 1 == want, 'exact optimizer with %s: %d steps, expected %d', kw, len(r) - 1, want)
                    rec.check(o.close(np.array(r, dtype=float), traj[:want + 1], 1e-7), 'exact optimizer with %s: costs', kw)
                    rec.step(want)
                    rec.outcome(('exact default', want))
                rec.state(('default', i, t, N))
            for i, (f, p0, specs, n) in enumerate(PS):
                traj = ps_traj(i, 0.1, N)
                want = predict1(traj, t, N, 3)
                if want is not None:
                    r = parameter_shift_optimizer(ps_circuit(f), list(p0), o.obs_list(specs), L.device(n), **kw)
                    rec.check(len(r) - 1 == want, 'parameter shift with %s: %d steps, expected %d', kw, len(r) - 1, want)
                    rec.check(o.close(np.array(r, dtype=float), traj[:want + 1], 1e-6), 'parameter shift with %s: costs', kw)
                    rec.step(want)
                    rec.outcome(('ps default', want))
                rec.state(('defaultps', i, t, N))
            for rate in (1.5e-4, 1.9e-4, 2.1e-4, 3e-4, 5e-3):
                lv = [0.3 - rate * i for i in range(N + 1)]
                run_script(lv[0], lv[1:], t, N, None, rec, given=kw)
    rec.trace()


def cases(tier):
    q = tier == 'quick'
    out = []
    N = 11 if q else 13
    for pre in it.product((0, 1), repeat=7 if q else 9):
        out.append({'k': 'binary', 'pre': list(pre), 'N': N})
    for tol in (1e-3, 0.05, 0.0):
        for perturb in (False, True):
            out.append({'k': 'events', 'tol': tol, 'perturb': perturb, 'N': 17, 'ev': 2 if q else 3})
    out.append({'k': 'limits'})
    out.append({'k': 'drift'})
    for perturb in (False, True):
        out.append({'k': 'ternary', 'perturb': perturb, 'N': 12})
    for tol in ({}, {'tol': 0.0}, {'tol': 1e-3}):
        for nst in ({}, {'nsteps': 40}, {'nsteps': 60}):
            out.append({'k': 'defaults', 'tol': tol, 'nst': nst})
    for n in (1, 2, 3):
        for eta in (None, 0.0, 0.3, 1.0):
            out.append({'k': 'kick', 'n': n, 'eta': eta})
    # exact optimizer
    for i in range(len(EXACT)):
        for eta in (0.1, 0.5, 1.0):
            out.append({'k': 'exact', 'i': i, 'eta': eta, 'N': 11 if q else 18, 'limits': not q or eta == 0.5})
    for i in range(len(PS)):
        for eta in (0.1, 0.4, 1.0):
            out.append({'k': 'ps', 'i': i, 'eta': eta, 'N': 9 if q else 14})
    return out


# (ops, observables, n): trajectories with fast, slow, non-monotone and stationary phases
EXACT = [([('RY', (0.3,), (0,))], [[('Z', 0)]], 1), ([('RY', (0.02,), (0,))], [[('Z', 0)]], 1),
         ([('RY', (2.9,), (0,))], [[('Z', 0)]], 1), ([], [[('Z', 0)]], 1),
         ([('RY', (1.1,), (0,))], [[('X', 0)], [('Z', 0)]], 1),
         ([('RY', (-0.8,), (0,))], [[('X', 0)], [('X', 0)], [('Z', 0)]], 1),
         ([('RY', (0.4,), (0,)), ('CNOT', (), (0, 1)), ('RY', (0.9,), (1,))],
          [[('X', 0)], [('X', 1)], [('Z', 0), ('Z', 1)]], 2)]


def exact_traj(i, eta, N):
    ops, specs, n = EXACT[i]
    U = o.circuit_unitary(ops, n)
    c = [exact_cost(U, specs, n)]
    for _ in range(N):
        U = exact_step(U, specs, n, eta)
        c.append(exact_cost(U, specs, n))
    return c


def gaps(c, window=1):
    """tolerances placed in every gap between successive differences"""
    d = sorted(set([round(max(0., abs(a - b) - RTOL * abs(b)), 12) for b, a in zip(c, c[1:])]))
    tols = [0.0, 1e-3, 3.0]
    for x, y in zip(d, d[1:]):
        if y - x > 1e-6:
            tols.append(0.5 * (x + y))
    for x in d:
        tols += [x + 1e-6]
        if x > 2e-6:
            tols.append(x - 1e-6)
    return sorted(set(float(t) for t in tols))


def predict1(c, tol, nsteps, first):
    """one-step window, checked from step index `first` (0-based) on"""
    for s in range(nsteps):
        if s >= first:
            k = converged(c[s + 1], c[s], tol)
            if k is None:
                return None
            if k:
                return s + 1
    return nsteps


def run_exact(c, rec):
    ops, specs, n = EXACT[c['i']]
    obs = o.obs_list(specs)
    traj = exact_traj(c['i'], c['eta'], c['N'])
    for tol in gaps(traj):
        want = predict1(traj, tol, c['N'], 4)
        if want is None:
            continue
        r = exact_lie_optimizer(o.qml_circuit(ops), [], obs, L.device(n), eta=c['eta'], nsteps=c['N'], tol=tol)
        rec.path = ['exact', c, tol]
        rec.check(len(r) - 1 == want, 'exact optimizer %s: %d steps with tol %s, expected %d; costs %s', c, len(r) - 1, tol, want, list(r))
        rec.step(want)
        rec.trace()
        rec.state(('exact', c['i'], c['eta'], tol))
        rec.outcome(('exact', want))
    # perturbation with zero kicks: the same trajectory to the end, the converged steps recorded
    if n == 1:
        for tol in gaps(traj)[::3] + [3.0]:
            N = c['N']
            steps = [converged(traj[s + 1], traj[s], tol) for s in range(N)]
            if None in steps:
                continue
            want = [s for s in range(N - 1) if s >= 4 and steps[s]]
            with NpNormal(np.zeros):
                costs, pert, U = exact_lie_optimizer(o.qml_circuit(ops), [], obs, L.device(n), eta=c['eta'], nsteps=N, tol=tol,
                                                     perturbation=True, return_perturbations=True, return_unitary=True)
                rec.path = ['exact perturbation', c, tol]
                rec.check(o.close(np.array(costs, dtype=float), traj, 1e-7), 'costs with zero kicks %s', costs)
                rec.check(list(pert) == want, 'perturbations %s expected %s (tol %s)', list(pert), want, tol)
            with NpNormal(R1):
                costs, states, pert, U = exact_lie_optimizer(o.qml_circuit(ops), [], obs, L.device(n), eta=c['eta'], nsteps=N,
                                                             tol=tol, perturbation=True, return_perturbations=True,
                                                             return_unitary=True, return_state=True)
            rec.check(len(costs) == N + 1, 'a perturbed run performs all steps, got %d', len(costs) - 1)
            rec.check(all(isinstance(int(p), int) and 4 <= p < N - 1 for p in pert), 'perturbation steps %s', pert)
            rec.check(o.is_unitary(U) and np.abs(np.asarray(U).imag).max() < 1e-9, 'the kicks are not orthogonal')
            rec.check(o.close(states[-1], np.asarray(U)[:, 0], 1e-9), 'kicked after the final step')
            for s in range(N):
                k = converged(float(costs[s + 1]), float(costs[s]), tol)
                if 4 <= s < N - 1 and k is not None:
                    rec.check((s in pert) == k, 'step %d: perturbed %s, converged %s', s, s in pert, k)
                # without a kick the next state is one exact step from the previous one
                if s > 0 and (s - 1) not in pert:
                    V = np.zeros((2 ** n, 2 ** n), dtype=complex)
                    V[:, 0] = states[s]
                    W = exact_step(V, specs, n, c['eta'])
                    rec.check(o.close(W[:, 0], states[s + 1], 1e-7), 'step %d is not an exact step', s)
                elif s > 0:
                    V = np.zeros((2 ** n, 2 ** n), dtype=complex)
                    V[:, 0] = states[s]
                    W = exact_step(V, specs, n, c['eta'])
                    rec.check(not o.close(W[:, 0], states[s + 1], 1e-9), 'no kick at recorded step %d', s - 1)
            rec.step(2 * N)
            rec.trace(2)
            rec.state(('exactp', c['i'], c['eta'], tol))
    if c['limits']:
        for N in range(1, 8):
            want = predict1(traj, 3.0, N, 4)
            r = exact_lie_optimizer(o.qml_circuit(ops), [], obs, L.device(n), eta=c['eta'], nsteps=N, tol=3.0)
            rec.check(len(r) - 1 == want, '%d steps with limit %d', len(r) - 1, N)
            rec.step(want)
            rec.state(('exactN', c['i'], c['eta'], N))


# (circuit as function of params -> ops, start, observables, n)
PS = [(lambda p: [('RY', (p[0],), (0,))], [0.3], [[('Z', 0)]], 1),
      (lambda p: [('RY', (p[0],), (0,))], [0.01], [[('Z', 0)]], 1),
      (lambda p: [('RY', (p[0],), (0,))], [0.0], [[('Z', 0)]], 1),
      (lambda p: [('RX', (p[0],), (0,)), ('RY', (p[1],), (0,))], [0.7, -0.4], [[('Z', 0)], [('X', 0)]], 1),
      (lambda p: [('RY', (p[0],), (0,)), ('CNOT', (), (0, 1)), ('RY', (p[1],), (1,))], [0.4, 0.2],
       [[('Z', 0), ('Z', 1)], [('X', 1)]], 2)]


def ps_cost(i, p):
    f, _, specs, n = PS[i]
    return exact_cost(o.circuit_unitary(f(p), n), specs, n)


def ps_traj(i, eta, N):
    p = np.array(PS[i][1], dtype=float)
    c = [ps_cost(i, p)]
    for _ in range(N):
        g = []
        for k in range(len(p)):
            e = np.zeros(len(p))
            e[k] = np.pi / 2
            g.append(0.5 * (ps_cost(i, p + e) - ps_cost(i, p - e)))
        p = p - eta * np.array(g)
        c.append(ps_cost(i, p))
    return c


def ps_circuit(f):
    def circuit(params, **kw):
        for name, pr, w in f(params):
            getattr(qml, name)(*pr, wires=list(w) if len(w) > 1 else w[0])
    return circuit


def run_ps(c, rec):
    f, p0, specs, n = PS[c['i']]
    obs = o.obs_list(specs)

    circuit = ps_circuit(f)
    traj = ps_traj(c['i'], c['eta'], c['N'])
    for tol in gaps(traj):
        want = predict1(traj, tol, c['N'], 3)
        if want is None:
            continue
        r = parameter_shift_optimizer(circuit, list(p0), obs, L.device(n), eta=c['eta'], nsteps=c['N'], tol=tol)
        rec.path = ['ps', c, tol]
        rec.check(len(r) - 1 == want, 'parameter shift %s: %d steps with tol %s, expected %d', c, len(r) - 1, tol, want)
        rec.check(o.close(np.array(r, dtype=float), traj[:want + 1], 1e-6), 'costs %s, expected %s', list(r), traj[:want + 1])
        rec.step(want)
        rec.trace()
        rec.state(('ps', c['i'], c['eta'], tol))
        rec.outcome(('ps', want))
    for N in (1, 2, 3, 4, 5, 6):
        want = predict1(traj, 3.0, N, 3)
        r = parameter_shift_optimizer(circuit, list(p0), obs, L.device(n), eta=c['eta'], nsteps=N, tol=3.0)
        rec.check(len(r) - 1 == want, 'parameter shift: %d steps with limit %d', len(r) - 1, N)
        rec.step(want)
        rec.state(('psN', c['i'], c['eta'], N))


def run_case(c, rec):
    k = c['k']
    if k == 'binary':
        rest = c['N'] + 1 - len(c['pre'])
        for tail in it.product((0, 1), repeat=rest):
            bits = c['pre'] + list(tail)
            lv = [0.2 if b else -0.3 for b in bits]
            rec.path = [bits]
            run_script(lv[0], lv[1:], 1e-3, c['N'], None, rec)
        rec.example({'binary history prefix': c['pre'], 'tails': 2 ** rest})
    elif k == 'ternary':
        # fixed changing history, then every ternary tail (same / within / outside the tolerance of 5 steps ago)
        N = c['N']
        base = [0.9 - 0.05 * i for i in range(N + 1)]
        for tail in it.product((0, 1, 2, 3), repeat=3):
            lv = list(base)
            for j, t in enumerate(tail):
                s = 10 + j
                lv[s] = lv[s - 5] + (0.0, 4e-4, -4e-4, 0.0021)[t]
            run_script(lv[0], lv[1:], 1e-3, N, c['perturb'], rec, randn=R1 if c['perturb'] else None)
    elif k == 'events':
        N = c['N']
        base = [0.95 - 0.09 * i for i in range(N + 1)]
        for r in range(0, c['ev'] + 1):
            for pos in it.combinations(range(1, N + 1), r):
                for back in ((5,) if c['tol'] == 0.0 else (5, 1, 4, 6)):
                    lv = list(base)
                    for s in pos:
                        if s >= back:
                            lv[s] = lv[s - back]
                    if back != 5 and r == 2 and (pos[0] < 6):
                        continue
                    run_script(lv[0], lv[1:], c['tol'], N, c['perturb'], rec, randn=R1 if c['perturb'] else None,
                               eta=0.7 if c['perturb'] and back == 5 else None)
        rec.example({'events': c})
    elif k == 'limits':
        for N in range(1, 14):
            for tol in (1e-3, None, 0.3, float('inf'), 0.0):
                for perturb in (False, True):
                    run_script(0.1, [0.1] * N, tol, N, perturb, rec, randn=R1 if perturb else None)
                run_script(0.1, [0.1 + 0.01 * (i % 2) for i in range(N)], tol, N, False, rec)
                run_script(0.9, [0.9 - 0.06 * i for i in range(N)], tol, N, True, rec, randn=R1, eta=0.0)
    elif k == 'drift':
        for rate in (1.5e-4, 1.9e-4, 2.1e-4, 3e-4, 6e-4, 9e-4, 1.1e-3):
            for start in (0.0, 0.5, -0.99):
                for sgn in (1, -1):
                    lv = [start + sgn * rate * i * (1 if abs(start) < 0.9 else np.sign(-start) * sgn) for i in range(15)]
                    run_script(lv[0], lv[1:], 1e-3, 14, False, rec)
                    run_script(lv[0], lv[1:], 1e-3, 14, True, rec, randn=R1)
        for plateau in range(1, 9):     # fast change, plateau of a given length, change again
            for at in range(5, 13):
                lv, x = [], 0.9
                for i in range(17):
                    if not (at <= i < at + plateau):
                        x -= 0.05
                    lv.append(x)
                run_script(lv[0], lv[1:], 1e-3, 16, False, rec)
                run_script(lv[0], lv[1:], 1e-3, 16, True, rec, randn=R1)
    elif k == 'exact':
        run_exact(c, rec)
    elif k == 'kick':
        run_kick(c, rec)
    elif k == 'defaults':
        run_defaults(c, rec)
    else:
        run_ps(c, rec)
