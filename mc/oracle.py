"""Independent reference model: dense linear algebra written from the definitions, with no code shared
with oranssi and no PennyLane simulator.  Qubit 0 is the most significant bit of a basis index."""
import itertools as it
import numpy as np

I2 = np.eye(2, dtype=complex)
X = np.array([[0, 1], [1, 0]], dtype=complex)
Y = np.array([[0, -1j], [1j, 0]], dtype=complex)
Z = np.array([[1, 0], [0, -1]], dtype=complex)
PAULI = {'I': I2, 'X': X, 'Y': Y, 'Z': Z}
H = np.array([[1, 1], [1, -1]], dtype=complex) / np.sqrt(2)
S = np.array([[1, 0], [0, 1j]], dtype=complex)
T = np.array([[1, 0], [0, np.exp(0.25j * np.pi)]], dtype=complex)
CNOT = np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]], dtype=complex)
CZ = np.diag([1, 1, 1, -1]).astype(complex)
SWAP = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]], dtype=complex)


def _index_maps(wires, n):
    """base[r] for every assignment r of the other qubits, off[a] for every assignment a of `wires`."""
    rest = [q for q in range(n) if q not in wires]
    off = []
    for a in range(2 ** len(wires)):
        v = 0
        for i, w in enumerate(wires):
            if (a >> (len(wires) - 1 - i)) & 1:
                v |= 1 << (n - 1 - w)
        off.append(v)
    base = []
    for r in range(2 ** len(rest)):
        v = 0
        for i, w in enumerate(rest):
            if (r >> (len(rest) - 1 - i)) & 1:
                v |= 1 << (n - 1 - w)
        base.append(v)
    return base, off


_maps = {}


def embed(op, wires, n):
    wires = tuple(int(w) for w in wires)
    key = (wires, n)
    if key not in _maps:
        base, off = _index_maps(wires, n)
        rows = (np.array(base)[:, None, None] + np.array(off)[None, :, None])
        cols = (np.array(base)[:, None, None] + np.array(off)[None, None, :])
        if len(_maps) > 20000:
            _maps.clear()
        _maps[key] = np.broadcast_arrays(rows, cols)
    rows, cols = _maps[key]
    out = np.zeros((2 ** n, 2 ** n), dtype=complex)
    out[rows, cols] = np.asarray(op)[None, :, :]
    return out


def word(w):
    m = np.ones((1, 1), dtype=complex)
    for c in w:
        m = np.kron(m, PAULI[c])
    return m


def words(n, identity=True):
    return [''.join(p) for p in it.product('IXYZ' if identity else 'XYZ', repeat=n)]


def exph(Hm, t=1.0):
    """exp(-i t H) for hermitian H."""
    s, v = np.linalg.eigh(Hm)
    return (v * np.exp(-1j * t * s)) @ v.conj().T


def exp_antiherm(A):
    """exp(A) for anti-hermitian A."""
    return exph(1j * A, 1.0)


def rot(pauli, t):
    """exp(-i t P) for P with P^2 = 1."""
    return np.cos(t) * np.eye(len(pauli)) - 1j * np.sin(t) * pauli


def grad(phi, Hm, P):
    """Im <phi| [P, H] |phi>"""
    return (np.vdot(phi, P @ (Hm @ phi)) - np.vdot(phi, Hm @ (P @ phi))).imag


def is_unitary(U, tol=1e-8):
    U = np.asarray(U)
    return bool(np.all(np.isfinite(U))) and np.abs(U @ U.conj().T - np.eye(len(U))).max() <= tol


def close(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    d = np.abs(a - b).max()
    return bool(np.isfinite(d) and d <= tol)


# ------------------------------------------------------------------------------ circuits as op lists

def _rx(t): return rot(X, t / 2)
def _ry(t): return rot(Y, t / 2)
def _rz(t): return rot(Z, t / 2)


def ctrl(u):
    m = np.eye(2 * len(u), dtype=complex)
    m[len(u):, len(u):] = u
    return m


GATES = {   # name -> (n wires, n params, matrix function)
    'Hadamard': (1, 0, lambda: H), 'PauliX': (1, 0, lambda: X), 'PauliY': (1, 0, lambda: Y),
    'PauliZ': (1, 0, lambda: Z), 'S': (1, 0, lambda: S), 'T': (1, 0, lambda: T),
    'SX': (1, 0, lambda: 0.5 * np.array([[1 + 1j, 1 - 1j], [1 - 1j, 1 + 1j]])),
    'RX': (1, 1, _rx), 'RY': (1, 1, _ry), 'RZ': (1, 1, _rz),
    'PhaseShift': (1, 1, lambda t: np.diag([1, np.exp(1j * t)])),
    'Rot': (1, 3, lambda a, b, c: _rz(c) @ _ry(b) @ _rz(a)),
    'CNOT': (2, 0, lambda: CNOT), 'CZ': (2, 0, lambda: CZ), 'CY': (2, 0, lambda: ctrl(Y)),
    'SWAP': (2, 0, lambda: SWAP),
    'CRX': (2, 1, lambda t: ctrl(_rx(t))), 'CRY': (2, 1, lambda t: ctrl(_ry(t))),
    'CRZ': (2, 1, lambda t: ctrl(_rz(t))),
    'Toffoli': (3, 0, lambda: ctrl(CNOT)), 'CSWAP': (3, 0, lambda: ctrl(SWAP)),
}


def gate_matrix(name, params=(), k=None):
    if name == 'PauliRot':
        return exph(word(params[1]), params[0] / 2)
    if name == 'MultiRZ':
        return exph(word('Z' * k), params[0] / 2)
    if name == 'QubitUnitary':
        return np.asarray(params[0], dtype=complex)
    return np.asarray(GATES[name][2](*params), dtype=complex)


def near_circuits(n, eps):
    """circuits whose state is a rotation by a tiny angle eps away from a symmetric state"""
    tiny = [('RX', (eps,), (0,)), ('RY', (-0.7 * eps,), (n - 1,)), ('RZ', (0.4 * eps,), (0,))]
    ghz = [('Hadamard', (), (0,))] + [('CNOT', (), (0, q)) for q in range(1, n)]
    return [tiny, [('Hadamard', (), (q,)) for q in range(n)] + tiny, ghz + tiny]


def circuit_unitary(ops, n):
    """ops: list of (name, params, wires); the first one is applied first."""
    U = np.eye(2 ** n, dtype=complex)
    for name, params, wires in ops:
        U = embed(gate_matrix(name, params, len(wires)), wires, n) @ U
    return U


def apply_qml(ops):
    """Queue the same operations in PennyLane."""
    import pennylane as qml
    for name, params, wires in ops:
        w = list(wires) if len(wires) > 1 else wires[0]
        getattr(qml, name)(*params, wires=w)


def qml_circuit(ops, ret=True):
    import pennylane as qml

    def circuit(params=None, **kwargs):
        apply_qml(ops)
        if ret:
            return qml.state()
    return circuit


# ------------------------------------------------------------------------------------- observables

def obs_spec_matrix(spec, n):
    """spec: list of (letter, wire) -- a Pauli word on distinct wires."""
    if spec[0][0] == '~':
        return embed(dense_observable(len(spec[0][1]), spec[0][2]), spec[0][1], n)
    w = ['I'] * n
    for c, q in spec:
        w[q] = c
    return word(''.join(w))


def dense_observable(k, scale):
    """a hermitian k-qubit matrix of norm ~scale without structure; spec [('~', wires, scale)]"""
    d = 2 ** k
    a = np.cos(1.3 + np.arange(d * d)).reshape(d, d) + 1j * np.sin(0.4 + 1.7 * np.arange(d * d)).reshape(d, d)
    return scale * (a + a.conj().T) / d


def obs_qml(spec):
    import pennylane as qml
    if spec[0][0] == '~':
        return qml.Hermitian(dense_observable(len(spec[0][1]), spec[0][2]), wires=list(spec[0][1]))
    cls = {'X': qml.PauliX, 'Y': qml.PauliY, 'Z': qml.PauliZ, 'I': qml.Identity}
    out = None
    for c, q in spec:
        o = cls[c](q)
        out = o if out is None else out @ o
    return out


def obs_list(specs):
    """observables of a list of specs; of equal specs the first two are one object, further ones are new objects"""
    seen, out = {}, []
    for s in specs:
        k = repr(s)
        seen.setdefault(k, [])
        seen[k].append(obs_qml(s) if len(seen[k]) != 1 else seen[k][0])
        out.append(seen[k][-1])
    return out


def ham_matrix(specs, n):
    return sum((obs_spec_matrix(s, n) for s in specs), np.zeros((2 ** n, 2 ** n), dtype=complex))


# ------------------------------------------------------------------------------- stabilizer states

_stab = {}


def canon_state(phi, dec=6):
    """Key of a state up to global phase."""
    i = int(np.argmax(np.abs(phi) > 1e-6))
    p = phi * (abs(phi[i]) / phi[i])
    p = np.round(p, dec) + 0.0
    return p.tobytes()


def stabilizer_circuits(n, generators=None):
    """BFS over Clifford circuits: for every n-qubit stabilizer state one op list (and its unitary)."""
    key = (n, generators)
    if key in _stab:
        return _stab[key]
    gens = []
    for q in range(n):
        gens += [('Hadamard', (), (q,)), ('S', (), (q,))]
    for q in range(n):
        for r in range(n):
            if q != r:
                gens.append(('CNOT', (), (q, r)))
    mats = [embed(gate_matrix(*g[:2]), g[2], n) for g in gens]
    U0 = np.eye(2 ** n, dtype=complex)
    seen = {canon_state(U0[:, 0])}
    out = [([], U0)]
    frontier = [([], U0)]
    while frontier:
        nxt = []
        for ops, U in frontier:
            for g, m in zip(gens, mats):
                V = m @ U
                k = canon_state(V[:, 0])
                if k not in seen:
                    seen.add(k)
                    item = (ops + [g], V)
                    out.append(item)
                    nxt.append(item)
        frontier = nxt
    _stab[key] = out
    return out


def generic_circuits(n):
    """A few circuits without symmetries (no vanishing gradients, complex amplitudes)."""
    out = []
    for s, a in enumerate((0.37, 0.81, 1.93)):
        ops = []
        for q in range(n):
            ops.append(('RY', (a + 0.31 * q,), (q,)))
            ops.append(('RZ', (0.7 * a - 0.45 * q + 0.2,), (q,)))
        for q in range(n - 1):
            ops.append(('CNOT', (), (q, q + 1) if s % 2 == 0 else (q + 1, q)))
        for q in range(n):
            ops.append(('RX', (0.5 - 0.23 * q + a * 0.3,), (q,)))
        out.append(ops)
    return out


_reused = {}


def reuse(A):
    """The array to hand to the code under test: in two of three calls the same array, overwritten in place with the
    content of A (as a caller may do between calls), otherwise a copy of its own."""
    A = np.asarray(A)
    buf = _reused.setdefault((A.shape, A.dtype.char), [np.empty_like(A), 0])
    buf[1] += 1
    if buf[1] % 3 == 0:
        return A.copy()
    if not np.may_share_memory(buf[0], A):
        buf[0][...] = A
    elif buf[0] is not A:
        return A.copy()
    return buf[0]


def own(V):
    """a copy if V is the reused array (a step that does nothing may return its argument)"""
    return np.array(V) if any(np.may_share_memory(V, b[0]) for b in _reused.values()) else V
