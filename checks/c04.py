"""C04: Hamiltonian matrix."""
import itertools as it
import numpy as np
import pennylane as qml
from oranssi.circuit_tools import get_hamiltonian_matrix
from mc import oracle as o

PROPERTY = 'C04'
RULE = ('every list (with repetitions, all orders) of up to 3 observables from an alphabet of Pauli words, tensor '
        'products in every wire order and Hermitian matrices, x every coefficient vector over a small alphabet and '
        'every container type; oracle: explicit weighted sum')

HM1 = np.array([[0.5, 0.3 - 0.2j], [0.3 + 0.2j, -1.1]])
g = np.cos(np.arange(16)).reshape(4, 4) + 1j * np.sin(np.arange(16)).reshape(4, 4)
HM2 = g + g.conj().T
HM3 = np.array([[-0.7, 0.9j], [-0.9j, 0.2]])
HM4 = np.diag([1., -2., 0.5, 3.]) + 0.25 * np.ones((4, 4))


def alphabet(n):
    """(name, qml builder, matrix)"""
    out = []

    def pw(spec):
        out.append((repr(spec), lambda s=spec: o.obs_qml(s), o.obs_spec_matrix(spec, n)))
    for q in range(n):
        for c in 'XYZ':
            if c == 'XYZ'[q % 3] or q == 0 or q == n - 1:
                pw([(c, q)])
    pw([('I', 0)])
    for a, b in it.permutations(range(n), 2):
        pw([('X', a), ('Z', b)])
        pw([('Y', a), ('Y', b)])
    for p in it.permutations(range(n), 3):
        if p in ((0, 1, 2), (2, 0, 1), (2, 1, 0), (1, 3, 0), (3, 2, 0)):
            pw([('X', p[0]), ('Y', p[1]), ('Z', p[2])])
    if n >= 4:
        pw([('X', 3), ('Y', 1), ('Z', 0), ('X', 2)])
    out.append(('Hermitian1', lambda: qml.Hermitian(HM1, wires=n - 1), o.embed(HM1, (n - 1,), n)))
    out.append(('Hadamard', lambda: qml.Hadamard(0), o.embed(o.H, (0,), n)))
    if n > 1:
        out.append(('Hermitian2', lambda: qml.Hermitian(HM2, wires=[n - 1, 0]), o.embed(HM2, (n - 1, 0), n)))
    # different matrices on the same wires, the same matrix on the wires in the other order, a product with a matrix factor
    out.append(('Hermitian1b', lambda: qml.Hermitian(HM3, wires=n - 1), o.embed(HM3, (n - 1,), n)))
    if n > 1:
        out.append(('Hermitian2b', lambda: qml.Hermitian(HM4, wires=[n - 1, 0]), o.embed(HM4, (n - 1, 0), n)))
        out.append(('Hermitian2r', lambda: qml.Hermitian(HM2, wires=[0, n - 1]), o.embed(HM2, (0, n - 1), n)))
        for h in (HM1, HM3):
            out.append(('Hermitian x Z', lambda h=h: qml.Hermitian(h, wires=0) @ qml.PauliZ(n - 1),
                        o.embed(h, (0,), n) @ o.embed(o.Z, (n - 1,), n)))
    return out


COEFFS = [None, 'list', 'tuple', 'array']
VALS = (1.0, -0.5, 0.0, 2, 1e-9)


def cases(tier):
    out = []
    for n in (1, 2, 3, 4):
        a = alphabet(n)
        out.append({'n': n, 'prefix': [], 'depth': 0})
        out.append({'n': n, 'prefix': [0], 'depth': -1})
        for i in range(len(a)):
            out.append({'n': n, 'prefix': [i], 'depth': 2 if (n <= 2 or tier != 'quick') else 1})
    return out


def run_case(c, rec):
    n = c['n']
    a = alphabet(n)
    if not c['prefix']:
        m = get_hamiltonian_matrix(n, [])
        rec.check(o.close(m, np.zeros((2 ** n, 2 ** n)), 0.) and np.iscomplexobj(m), 'empty list')
        m = get_hamiltonian_matrix(n, [], [])
        rec.check(o.close(m, np.zeros((2 ** n, 2 ** n)), 0.), 'empty list')
        rec.step(2)
        rec.trace()
        rec.state((n, ()))
        return
    if c['depth'] < 0:      # long lists: every window, every rotation, with and without coefficients
        m = len(a)
        for L in range(4, min(m, 9) + 1):
            for start in range(m):
                idx = [(start + 3 * k) % m for k in range(L)]
                for v in (None, [0.2 * (k + 1) for k in range(L)], [(-1) ** k for k in range(L)], np.arange(L)):
                    want = sum(((1. if v is None else v[k]) * a[i][2] for k, i in enumerate(idx)),
                               np.zeros((2 ** n, 2 ** n), dtype=complex))
                    got = get_hamiltonian_matrix(n, [a[i][1]() for i in idx], v)
                    rec.check(o.close(got, want, 1e-11), 'n=%d observables %s coefficients %s', n,
                              [a[i][0] for i in idx], v)
                    rec.step()
                    rec.state((n, tuple(idx), repr(v)))
        rec.trace()
        return
    for d in range(0, c['depth'] + 1):
        for rest in it.product(range(len(a)), repeat=d):
            idx = c['prefix'] + list(rest)
            L = len(idx)
            obs = [a[i][1]() for i in idx]
            if L <= 2:
                vecs = [None] + list(it.product(VALS, repeat=L)) + [tuple(0.3 * (k + 1) for k in range(L))]
            else:
                vecs = [None, (0.3, -1.7, 2), (0, 1., -1.)]
            for v in vecs:
                want = sum(((1. if v is None else v[k]) * a[i][2] for k, i in enumerate(idx)),
                           np.zeros((2 ** n, 2 ** n), dtype=complex))
                forms = [None] if v is None else ([list(v), tuple(v), np.array(v, dtype=float)] if L == 1 else [list(v)])
                for cf in forms:
                    keep = list(obs)
                    keepc = None if cf is None else list(cf)
                    m = get_hamiltonian_matrix(n, obs) if cf is None else get_hamiltonian_matrix(n, obs, cf)
                    rec.path = [[a[i][0] for i in idx], v]
                    rec.check(o.close(m, want, 1e-12), 'n=%d observables %s coefficients %s', n, [a[i][0] for i in idx], v)
                    rec.check(len(obs) == L and all(x is y for x, y in zip(obs, keep)), 'list modified')
                    rec.check(cf is None or list(cf) == keepc, 'coefficients modified')
                    rec.step()
                    rec.state((n, tuple(idx), v))
                    if L == 1:
                        m += 5.
            rec.trace()
            if L == 2:
                m1 = get_hamiltonian_matrix(n, obs, coeffs=[0.7, -0.2])
                m2 = get_hamiltonian_matrix(n, obs[::-1], coeffs=[-0.2, 0.7])
                rec.check(o.close(m1, m2, 1e-12), 'order dependence')
                rec.step(2)
    rec.example({'n': n, 'first': a[c['prefix'][0]][0]})
