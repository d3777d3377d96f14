"""C28: parameter-shift commutator and operator norm."""
import itertools as it
import numpy as np
from oranssi.circuit_tools import param_shift_comm
from oranssi.utils import operator_2_norm
from mc import oracle as o

PROPERTY = 'C28'
RULE = ('all stabilizer states, generic pure states, mixed states and all matrix units x all Pauli words and other involutory observables '
        'on <=3 qubits, compared with i[rho,O]; the norm on every matrix over a small entry alphabet')


def states(n):
    out = [np.outer(U[:, 0], U[:, 0].conj()) for _, U in o.stabilizer_circuits(n)] if n <= 2 else \
        [np.outer(U[:, 0], U[:, 0].conj()) for _, U in o.stabilizer_circuits(n)[::7]]
    for g in o.generic_circuits(n):
        p = o.circuit_unitary(g, n)[:, 0]
        out.append(np.outer(p, p.conj()))
    for eps in (1e-3, 2e-5, 1e-7):          # states that nearly commute with Pauli words
        for g in o.near_circuits(n, eps):
            p = o.circuit_unitary(g, n)[:, 0]
            out.append(np.outer(p, p.conj()))
    d = 2 ** n
    out.append(np.eye(d) / d)
    out.append(np.diag(np.arange(1, d + 1)) / (d * (d + 1) / 2.))
    out.append(0.3 * out[0] + 0.7 * out[-3])
    return [np.asarray(x, dtype=complex) for x in out]


def observables(n):
    out = [o.word(w) for w in o.words(n)]
    if n <= 2:
        for g in o.generic_circuits(n):         # other observables with eigenvalues +-1
            U = o.circuit_unitary(g, n)
            for diag in it.product((1, -1), repeat=2 ** n):
                out.append(U @ np.diag(diag) @ U.conj().T)
    out.append(o.embed(o.H, (n - 1,), n))
    if n >= 2:
        out.append(o.embed(o.SWAP, (0, n - 1), n))
        out.append(o.embed(o.CZ, (0, 1), n))
    return out


def wide():
    """(n, observable) on larger registers"""
    out = []
    for n in (4, 5):
        ws = o.words(n)
        out += [(n, o.word(w)) for w in ws[1::61 if n == 4 else 311]]
        out.append((n, o.embed(o.SWAP, (n - 1, 0), n)))
        out.append((n, o.circuit_unitary(o.generic_circuits(n)[1], n) @ np.diag([1 - 2 * (bin(i).count('1') % 2) for i in range(2 ** n)])
                    @ o.circuit_unitary(o.generic_circuits(n)[1], n).conj().T))
        out.append((n, np.eye(2 ** n, dtype=complex)))
        out.append((n, -np.eye(2 ** n, dtype=complex)))
    return out


def cases(tier):
    q = tier == 'quick'
    out = []
    for n in (1, 2, 3):
        for i in range(len(observables(n))):
            if n == 3 and q and i % 3:
                continue
            out.append({'k': 'comm', 'n': n, 'i': i})
    for i in range(len(wide())):
        out.append({'k': 'wide', 'i': i})
    for n in (1, 2):
        for i in range(4 ** n):
            out.append({'k': 'units', 'n': n, 'i': i})
    for a in range(6):
        out.append({'k': 'norm', 'a': a})
    out.append({'k': 'norms'})
    return out


ENT = [0, 1, -1, 1j, 2 - 1j, -0.5]


def run_case(c, rec):
    if c['k'] in ('comm', 'units', 'wide'):
        n = c['n'] if 'n' in c else wide()[c['i']][0]
        if c['k'] == 'wide':
            O = wide()[c['i']][1]
            ps = [o.circuit_unitary(g, n)[:, 0] for g in o.generic_circuits(n)]
            rhos = [np.outer(p, p.conj()) for p in ps]
            rhos += [np.eye(2 ** n) / 2. ** n + 0j, 0.25 * rhos[0] + 0.75 * rhos[1], np.outer(ps[0], ps[1].conj())]
        elif c['k'] == 'comm':
            O = observables(n)[c['i']]
            rhos = states(n)
        else:
            O = o.word(o.words(n)[c['i']])
            d = 2 ** n
            rhos = []
            for i, j in it.product(range(d), repeat=2):
                E = np.zeros((d, d), dtype=complex)
                E[i, j] = 1
                rhos.append(E)
        for si, rho in enumerate(rhos):
            calls = []

            def gate(t):
                calls.append(t)
                return o.rot(O, t / 2)
            before = rho.copy()
            rho = o.reuse(rho)
            got = np.asarray(param_shift_comm(rho, gate))
            rec.path = [c, si]
            rec.check(o.close(got, 1j * (rho @ O - O @ rho), 1e-12), 'observable %s state %d: not i[rho,O]', c, si)
            rec.check(np.array_equal(before, rho), 'the state was changed')
            if c['k'] == 'comm':
                rec.check(o.close(got, got.conj().T, 1e-12) and abs(np.trace(got)) < 1e-12, 'not hermitian and traceless')
            rec.step()
            rec.trace()
            rec.state((c['k'], n, c['i'], si))
        rec.example({'observable': c, 'states': len(rhos)})
    elif c['k'] == 'norm':
        for rest in it.product(ENT, repeat=3):
            M = np.array([[ENT[c['a']], rest[0]], [rest[1], rest[2]]], dtype=complex)
            before = M.copy()
            M = o.reuse(M)
            got = operator_2_norm(M)
            rec.check(abs(float(got) - np.sqrt((np.abs(M) ** 2).sum())) < 1e-12 * 10, 'norm of %s: %s', M.tolist(), got)
            rec.check(np.array_equal(before, M), 'the matrix was changed')
            rec.step()
            rec.state((c['a'], rest))
        rec.trace()
    else:
        for n in range(1, 5):
            d = 2 ** n
            for w in o.words(n):
                rec.check(abs(operator_2_norm(o.word(w)) - np.sqrt(d)) < 1e-9, 'norm of %s', w)
                rec.step()
            for s in (0.0, 1e-8, 1.0, 1e8):
                M = s * np.array([[(i * 3 + j * 5) % 7 - 3 + 1j * ((i + 2 * j) % 3) for j in range(d)] for i in range(d)])
                want = np.sqrt((np.abs(M) ** 2).sum())
                rec.check(abs(operator_2_norm(M) - want) <= 1e-10 * max(want, 1e-300) + 0, 'norm of a %dx%d matrix', d, d)
                rec.step()
            rec.state(('words', n))
        # rectangular matrices, columns, other sizes and element types
        for shape in ((1, 1), (1, 3), (3, 1), (2, 4), (4, 2), (3, 3), (5, 5), (7, 3), (1, 64), (64, 1), (20, 20), (64, 64)):
            A = np.arange(1, shape[0] * shape[1] + 1).reshape(shape)
            for M in (A * (1 - 0.5j), A - 2, A * 1., 1j * A, np.asfortranarray(A * (1 + 2j)), np.roll(np.eye(*shape), 1, axis=0), (A % 3 == 1) * 1j,
                      (A * (1 - 0.5j)).T[::-1].T, np.where(A % 5 == 0, 1e-12j, 1e-13), np.where(A == 1, 1e6j, 1e-6)):
                M.setflags(write=False)
                want = np.sqrt((np.abs(M) ** 2).sum())
                rec.check(abs(operator_2_norm(M) - want) <= 1e-10 * want, 'norm of a %s matrix', shape)
                rec.step()
        # difference of two operators that are nearly equal: no cancellation
        for n in (1, 2, 3):
            U = o.circuit_unitary(o.generic_circuits(n)[0], n)
            for e in (1e-3, 1e-7):
                rec.check(abs(operator_2_norm(U - np.exp(1j * e) * U) - 2 * np.sin(e / 2) * np.sqrt(2 ** n)) < 1e-12, 'norm of a small difference')
                rec.step()
        rec.trace()
