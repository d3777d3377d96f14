"""C06: exact Riemannian gradient step."""
import itertools as it
import numpy as np
from oranssi.optimizers import exact_lie_optimizer
from mc import oracle as o
from mc import layers as L

PROPERTY = 'C06'
RULE = ('every stabilizer state of 1 and 2 qubits (reached by real circuits) and generic circuits on 1-4 qubits x every '
        'ordered list of observables from an alphabet x step sizes x run lengths; every cost, state and the final '
        'unitary compared with the reference transition function U <- exp(eta/2 [rho,O]) U')
ASSUMPTIONS = ['observables are Pauli words (the parameter-shift commutator is exact for involutory observables only)']
ETAS = [0.0, 0.03, 0.1, 0.37, 0.75, 1.0]


def obs_lists(n, tier):
    single = []
    if n == 1:
        al = [[('X', 0)], [('Y', 0)], [('Z', 0)]]
    elif n == 2:
        al = [[('X', 0)], [('Z', 1)], [('Y', 1)], [('Z', 0), ('Z', 1)], [('X', 1), ('Y', 0)]]
    elif n == 3:
        al = [[('X', 1)], [('Z', 2), ('Y', 0)], [('X', 2), ('Y', 0), ('Z', 1)]]
    else:
        al = [[('X', 3)], [('Z', 2), ('Y', 0)], [('X', 3), ('Y', 1), ('Z', 0)]]
    out = [[a] for a in al]
    if n <= 2:
        out += [list(p) for p in it.product(al, repeat=2)]
    else:
        out += [list(p) for p in it.permutations(al, 2)] + [al, al[::-1]]
    if n == 2:
        out += [[al[0], al[3], al[4]], [al[4], al[3], al[0]], [al[1], al[1], al[1]]]
        out += [[[('X', 0)], [('X', 1)], [('Z', 0), ('Z', 1)]]]
    # long lists
    if n == 1:
        out += [[al[0], al[1], al[2]], [al[0], al[1], al[2], al[0]], [al[2], al[2], al[1], al[0], al[1], al[2], al[0]]]
    else:
        tfi = [[('X', q)] for q in range(n)] + [[('Z', q), ('Z', (q + 1) % n)] for q in range(n)]
        out += [[[('X', 0), ('Z', 1)], [('X', 1), ('Z', 0)]], [[('Y', 1)], [('X', 1), ('Z', 0)], [('Y', 0)], [('X', 0), ('Z', 1)]]]
        out += [tfi, tfi[::-1] + [[('Y', 0)]], [[('Y', n - 1)]] * 5]
    return out


def step(U, specs, n, eta):
    for s in specs:
        O = o.obs_spec_matrix(s, n)
        phi = U[:, 0]
        rho = np.outer(phi, phi.conj())
        U = o.exp_antiherm(eta / 2 * (rho @ O - O @ rho)) @ U
    return U


def cost(U, specs, n):
    return sum(np.vdot(U[:, 0], o.obs_spec_matrix(s, n) @ U[:, 0]).real for s in specs)


def cases(tier):
    out = []
    q = tier == 'quick'
    for n in (1, 2):
        ns = len(o.stabilizer_circuits(n))
        for i in range(ns):
            out.append({'kind': 'stab', 'n': n, 'i': i, 'lists': 'all',
                        'etas': ETAS if n == 1 or not q else [ETAS[2 + i % 4], ETAS[(i * 5) % 6]],
                        'nsteps': 2 if n == 2 else 4})
    if not q:
        for i in range(0, len(o.stabilizer_circuits(3)), 5):
            out.append({'kind': 'stab', 'n': 3, 'i': i, 'lists': 'all', 'etas': [0.37], 'nsteps': 2})
    for n in (1, 2, 3, 4):
        for g in range(3):
            for li in range(len(obs_lists(n, tier))):
                if n == 4 and (g or 3 < li < len(obs_lists(n, tier)) - 2) and q:
                    continue
                out.append({'kind': 'generic', 'n': n, 'g': g, 'li': li,
                            'etas': ETAS if n < 4 else [0.37, 1.0], 'nsteps': 6 if n < 4 else 3})
    for n in (5,) if q else (5, 6):
        for g, li in ((0, 2), (1, len(obs_lists(n, tier)) - 3), (2, 4)):
            out.append({'kind': 'generic', 'n': n, 'g': g, 'li': li, 'etas': [0.37], 'nsteps': 2})
    return out


def check_run(ops, specs, n, eta, nsteps, rec, tag):
    dev = L.device(n)
    obs = o.obs_list(specs)
    costs, states, Uf = exact_lie_optimizer(o.qml_circuit(ops), [], obs, dev, eta=eta, nsteps=nsteps, tol=0.0,
                                            return_state=True, return_unitary=True)
    rec.path = [tag, specs, eta, nsteps]
    rec.check(1 <= len(costs) - 1 <= nsteps and len(states) == len(costs), 'number of steps %d', len(costs) - 1)
    U = o.circuit_unitary(ops, n)
    for k in range(len(costs)):
        if k:
            U = step(U, specs, n, eta)
        rec.check(o.close(states[k], U[:, 0], 1e-7), 'state after %d steps: %s observables %s eta %s', k, tag, specs, eta)
        rec.check(abs(float(costs[k]) - cost(U, specs, n)) < 1e-7, 'cost after %d steps: %s observables %s eta %s', k, tag, specs, eta)
        rec.step()
        rec.state((n, o.canon_state(U[:, 0], 5), repr(specs), eta))
    rec.check(o.close(Uf, U, 1e-7), 'final unitary: %s observables %s eta %s', tag, specs, eta)
    if len(specs) == 1:
        for a, b in zip(costs, costs[1:]):
            rec.check(b <= a + 1e-9, 'cost increased from %s to %s', a, b)
    rec.trace()
    rec.outcome(tuple(np.round(np.array(costs, dtype=float), 4)))


def run_case(c, rec):
    n = c['n']
    lists = obs_lists(n, None)
    if c['kind'] == 'stab':
        ops = o.stabilizer_circuits(n)[c['i']][0]
        for li, specs in enumerate(lists):
            for eta in c['etas']:
                check_run(ops, specs, n, eta, c['nsteps'], rec, 'stabilizer %d' % c['i'])
        rec.example({'n': n, 'circuit': ops, 'lists': len(lists), 'etas': c['etas']})
    else:
        ops = o.generic_circuits(n)[c['g']]
        for eta in c['etas']:
            check_run(ops, lists[c['li']], n, eta, c['nsteps'], rec, 'generic %d' % c['g'])
        if len(lists[c['li']]) == 1 and n < 4:
            check_run(ops, lists[c['li']], n, 1.0, 20, rec, 'generic long %d' % c['g'])
            check_run(ops, lists[c['li']], n, 0.5, 20, rec, 'generic long %d' % c['g'])
