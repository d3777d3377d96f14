"""C03: circuit -> unitary."""
import itertools as it
import numpy as np
import pennylane as qml
from oranssi.circuit_tools import (get_ops_from_qnode, circuit_state_from_unitary,
                                   circuit_observable_from_unitary)
from mc import oracle as o

PROPERTY = 'C03'
RULE = ('every gate sequence of bounded length over the gate alphabet (all wire assignments, inverse gates, '
        'parameters) and every kind of measurement; oracle: independent simulator. Every position of a state '
        'preparation in a short circuit must be reported by an error.')

ANG = (0.7, -1.3, 2.2)
U2 = o.exph(np.array([[0.3, 0.2 - 0.5j], [0.2 + 0.5j, -0.9]]))
U4 = o.exph(np.cos(np.arange(16)).reshape(4, 4) + np.cos(np.arange(16)).reshape(4, 4).T
            + 1j * (np.sin(np.arange(16)).reshape(4, 4) - np.sin(np.arange(16)).reshape(4, 4).T))

# unitaries that resemble named gates
NAMED = {'U2': U2, 'U4': U4, 'iSWAP': np.array([[1, 0, 0, 0], [0, 0, 1j, 0], [0, 1j, 0, 0], [0, 0, 0, 1]]), '-I': -np.eye(2), 'iX': 1j * o.X,
         'X': o.X + 0j, 'CZ-': np.diag([1., 1., -1., 1.]) + 0j, 'YX': np.kron(o.Y, o.X)}


def alphabet(n, full=True):
    """list of [name, params, wires, inverse]; JSON-able"""
    out = []
    for name, (k, p, _) in o.GATES.items():
        if k > n:
            continue
        for w in it.permutations(range(n), k):
            out.append([name, list(ANG[:p]), list(w), False])
            if full and name in ('S', 'T', 'RX', 'Rot', 'CRY', 'SX'):
                out.append([name, list(ANG[:p]), list(w), True])
    for k, words in ((1, ['X', 'Y']), (2, ['XY', 'ZZ', 'YI']), (3, ['XYZ', 'ZIX'])):
        if k > n:
            continue
        for w in it.permutations(range(n), k):
            for pw in words:
                out.append(['PauliRot', [0.9, pw], list(w), False])
            out.append(['MultiRZ', [1.1], list(w), False])
    for w in it.permutations(range(n), 1):
        out.append(['QubitUnitary', ['U2'], list(w), False])
    if n > 1:
        for w in it.permutations(range(n), 2):
            out.append(['QubitUnitary', ['U4'], list(w), False])
            out.append(['QubitUnitary', ['U4'], list(w), True])
    return out


def extra_gates(n):
    """(name, qml builder, matrix) of the remaining gates that have a matrix, on every ordered wire tuple"""
    def ph(t):
        return np.exp(1j * t)

    def u3(a, b, c):
        return np.array([[np.cos(a / 2), -ph(c) * np.sin(a / 2)], [ph(b) * np.sin(a / 2), ph(b + c) * np.cos(a / 2)]])

    def exc(t, outer):
        m = np.diag([outer, np.cos(t / 2), np.cos(t / 2), outer]).astype(complex)
        m[1, 2], m[2, 1] = -np.sin(t / 2), np.sin(t / 2)
        return m

    def mctrl(u, values):
        k = len(values)
        m = np.eye(2 ** k * len(u), dtype=complex)
        i = int(values, 2) * len(u)
        m[i:i + len(u), i:i + len(u)] = u
        return m

    def dexc(t, outer=1.):
        m = outer * np.eye(16, dtype=complex)
        m[3, 3] = m[12, 12] = np.cos(t / 2)
        m[3, 12], m[12, 3] = -np.sin(t / 2), np.sin(t / 2)
        return m
    d2, d4 = np.array([ph(0.3), ph(-1.1)]), np.array([1., 1j, ph(0.4), ph(2.5)])
    out = []
    for (q,) in it.permutations(range(n), 1):
        out += [('U1', lambda q=q: qml.U1(0.7, wires=q), np.diag([1, ph(0.7)]), (q,)),
                ('U2', lambda q=q: qml.U2(0.7, -1.3, wires=q), u3(np.pi / 2, 0.7, -1.3), (q,)),
                ('U3', lambda q=q: qml.U3(0.7, -1.3, 2.2, wires=q), u3(0.7, -1.3, 2.2), (q,)),
                ('Diag1', lambda q=q: qml.DiagonalQubitUnitary(d2, wires=[q]), np.diag(d2), (q,)),
                ('QFT1', lambda q=q: qml.QFT(wires=[q]), o.H, (q,))]
    for w in it.permutations(range(n), 2):
        qft = np.array([[1j ** (a * b) for b in range(4)] for a in range(4)]) / 2.
        out += [('CRot', lambda w=w: qml.CRot(0.7, -1.3, 2.2, wires=w), o.ctrl(o.gate_matrix('Rot', (0.7, -1.3, 2.2))), w),
                ('CPhase', lambda w=w: qml.ControlledPhaseShift(0.7, wires=w), np.diag([1, 1, 1, ph(0.7)]), w),
                ('SE', lambda w=w: qml.SingleExcitation(0.7, wires=w), exc(0.7, 1.), w),
                ('SE+', lambda w=w: qml.SingleExcitationPlus(0.7, wires=w), exc(0.7, ph(0.35)), w),
                ('SE-', lambda w=w: qml.SingleExcitationMinus(0.7, wires=w), exc(0.7, ph(-0.35)), w),
                ('Diag2', lambda w=w: qml.DiagonalQubitUnitary(d4, wires=w), np.diag(d4), w),
                ('QFT2', lambda w=w: qml.QFT(wires=w), qft, w),
                ('CQU', lambda w=w: qml.ControlledQubitUnitary(U2, control_wires=[w[0]], wires=[w[1]], control_values='0'),
                 mctrl(U2, '0'), w)]
    for w in it.permutations(range(n), 3):
        out += [('CCQU', lambda w=w: qml.ControlledQubitUnitary(U2, control_wires=w[:2], wires=[w[2]], control_values='01'),
                 mctrl(U2, '01'), w),
                ('MCX', lambda w=w: qml.MultiControlledX(control_wires=list(w[:2]), wires=[w[2]], control_values='10'),
                 mctrl(o.X, '10'), w),
                ('CQU4', lambda w=w: qml.ControlledQubitUnitary(U4, control_wires=[w[0]], wires=w[1:]), mctrl(U4, '1'), w)]
    for w in it.permutations(range(n), 4):
        out += [('DE', lambda w=w: qml.DoubleExcitation(0.7, wires=w), dexc(0.7), w),
                # single precision in PennyLane 0.21
                ('DE+', lambda w=w: qml.DoubleExcitationPlus(0.7, wires=w), dexc(0.7, ph(0.35)), w),
                ('DE-', lambda w=w: qml.DoubleExcitationMinus(0.7, wires=w), dexc(0.7, ph(-0.35)), w)]
    return out


def run_extra(c, rec):
    """every remaining gate alone, inverted, and between two other gates; several kinds of return value"""
    n = c['n']
    dev = qml.device('default.qubit', wires=n)
    for name, build, m, w in extra_gates(n):
        full = o.embed(m, w, n)
        for inv in (False, True):
            g = full.conj().T if inv else full
            for pre in (False, True):
                for ret in ('state', 'expval', 'probs', 'two')[:4 if n > 1 else 3]:
                    def circuit(params, **kwargs):
                        if pre:
                            qml.Hadamard(wires=0)
                        op = build()
                        if inv:
                            op.inv()
                        if pre:
                            qml.CRX(0.6, wires=[n - 1, 0]) if n > 1 else qml.RX(0.6, wires=0)
                        if ret == 'state':
                            return qml.state()
                        if ret == 'probs':
                            return qml.probs(wires=list(range(n)))
                        if ret == 'two':
                            return qml.expval(qml.PauliX(0)), qml.expval(qml.PauliZ(n - 1))
                        return qml.expval(qml.PauliY(0))
                    want = g
                    if pre:
                        last = o.embed(o.gate_matrix('CRX', (0.6,)), (n - 1, 0), n) if n > 1 else o.gate_matrix('RX', (0.6,))
                        want = last @ g @ o.embed(o.H, (0,), n)
                    rec.path = [name, w, inv, pre, ret]
                    ops, wires = get_ops_from_qnode(circuit, [], dev)
                    U = np.eye(2 ** n, dtype=complex)
                    for a, b in zip(ops, wires):
                        U = o.embed(np.asarray(a), tuple(b), n) @ U
                    rec.check(len(ops) == len(wires) and o.close(U, want, 1e-6 if name in ('DE+', 'DE-') else 1e-9), 'gate %s on %s (inverse %s, returns %s)',
                              name, w, inv, ret)
                    rec.step()
                    rec.state((n, name, w, inv, pre, ret))
        rec.trace()
    rec.example({'gates': len(extra_gates(n)), 'n': n})


def run_fromU(c, rec):
    """state and expectation values from unitaries: stabilizer and generic circuits, each also with tiny extra rotations"""
    n = c['n']
    dev = qml.device('default.qubit', wires=n)
    sq, oq = qml.QNode(circuit_state_from_unitary, dev), qml.QNode(circuit_observable_from_unitary, dev)
    st = o.stabilizer_circuits(n)[c['part']::4 if n < 3 else 97] if n < 4 else []
    us = [(('stab', i), u) for i, (_, u) in enumerate(st)]
    us += [(('gen', i), o.circuit_unitary(g, n)) for i, g in enumerate(o.generic_circuits(n)) if i == c['part'] or n == 1]
    words = [w for w in o.words(n) if n < 3 or w.count('I') >= n - 2 or w in ('XYZ', 'ZYXZ', 'YYYY')]
    obs = [(w, o.word(w), o.obs_qml([(ch, q) for q, ch in enumerate(w) if ch != 'I'] or [('I', 0)])) for w in words]
    if n > 1:
        g = np.cos(np.arange(16)).reshape(4, 4) + 1j * np.sin(np.arange(16)).reshape(4, 4)
        h = g + g.conj().T
        obs.append(('H2', o.embed(h, (n - 1, 0), n), qml.Hermitian(h, wires=[n - 1, 0])))
    for key, u in us:
        for eps in (0., 1e-4, -1e-6) if n < 4 else (0., 1e-4):
            v = o.embed(o.rot(o.X, eps), (0,), n) @ o.embed(o.rot(o.Z, 0.7 * eps), (n - 1,), n) @ u if eps else u
            before = v.copy()
            v = o.reuse(v)
            rec.path = [key, eps]
            phi = np.asarray(sq(unitary=v))
            rec.check(o.close(phi, v[:, 0], 1e-9), 'state of unitary %s eps %s', key, eps)
            for w, m, ob in obs:
                e = float(oq(unitary=v, observable=ob))
                rec.check(abs(e - np.vdot(v[:, 0], m @ v[:, 0]).real) < 1e-9, 'expectation of %s for unitary %s eps %s',
                          w, key, eps)
            rec.check(np.array_equal(before, v), 'unitary modified')
            rec.step(1 + len(obs))
            rec.state((n, key, eps))
            rec.outcome(o.canon_state(v[:, 0], 5))
        rec.trace()
    rec.example({'n': n, 'unitaries': len(us), 'observables': len(obs)})


def real_params(g):
    return [NAMED.get(p, p) if isinstance(p, str) else p for p in g[1]] \
        if g[0] == 'QubitUnitary' else list(g[1])


def queue(g):
    w = g[2] if len(g[2]) > 1 else g[2][0]
    op = getattr(qml, g[0])(*real_params(g), wires=w)
    if g[3]:
        op.inv()


def matrix(g):
    m = o.gate_matrix(g[0], real_params(g), len(g[2]))
    return m.conj().T if g[3] else m


_obs_cache = {}


def obs_list(n):
    if n not in _obs_cache:
        specs = [[('Z', 0)], [('X', n - 1)], [('Y', 0)]]
        if n > 1:
            specs += [[('X', 1), ('Z', 0)], [('Y', 0), ('Y', n - 1)]]
        _obs_cache[n] = [(s, o.obs_spec_matrix(s, n), o.obs_qml(s)) for s in specs]
    return _obs_cache[n]


def cases(tier):
    out = []
    for n in (1, 2, 3):
        a = alphabet(n)
        for i in range(len(a)):
            out.append({'kind': 'seq', 'n': n, 'first': i, 'depth': 2, 'full': True})
    if tier != 'quick':
        for i in range(len(alphabet(2, False))):
            out.append({'kind': 'seq', 'n': 2, 'first': i, 'depth': 3, 'full': False})
    else:
        for i in range(len(alphabet(1))):
            out.append({'kind': 'seq', 'n': 1, 'first': i, 'depth': 3, 'full': True})
    out += [{'kind': 'four', 'n': 4, 'first': i} for i in range(len(alphabet(4, False)))]
    out += [{'kind': 'prep', 'n': n} for n in (1, 2, 3)]
    for n in (1, 2, 3, 4, 5):
        out += [{'kind': 'long', 'n': n, 'rev': r} for r in (False, True)]
    for n in (2, 3):
        out += [{'kind': 'three', 'n': n, 'first': i} for i in range(len(reduced(n)))]
    out += [{'kind': 'params', 'n': n} for n in (1, 2, 3)]
    out += [{'kind': 'angles', 'n': n} for n in (1, 2, 3)]
    out += [{'kind': 'empty', 'n': n} for n in (1, 2, 3)]
    out += [{'kind': 'extra', 'n': n} for n in (1, 2, 3, 4)]
    out += [{'kind': 'sub', 'n': n} for n in (2, 3, 4)]
    for n in (1, 2, 3, 4):
        out += [{'kind': 'fromU', 'n': n, 'part': k} for k in range(1 if n == 1 else 4)]
    return out


def reduced(n):
    """a small alphabet in which gates cancel, commute and share wires in all ways"""
    out = [['Hadamard', [], [0], False], ['Hadamard', [], [n - 1], False], ['S', [], [0], False], ['S', [], [0], True],
           ['RX', [0.7], [0], False], ['RX', [0.7], [0], True], ['CNOT', [], [0, 1], False], ['CNOT', [], [1, 0], False],
           ['CZ', [], [0, n - 1], False], ['PauliRot', [0.9, 'XY'], [n - 1, 0], False], ['PauliX', [], [n - 1], False]]
    out += [['QubitUnitary', ['iSWAP'], [0, n - 1], False], ['QubitUnitary', ['-I'], [0], False], ['QubitUnitary', ['iX'], [n - 1], False],
            ['SWAP', [], [n - 1, 0], False], ['QubitUnitary', ['CZ-'], [0, 1], False]]
    if n > 2:
        out += [['CNOT', [], [2, 1], False], ['Toffoli', [], [2, 0, 1], False], ['SWAP', [], [0, 2], False]]
    return out


def check_seq(seq, n, dev, rec, ret='state', deep=True):
    def circuit(params, **kwargs):
        for g in seq:
            queue(g)
        if ret == 'state':
            return qml.state()
        if ret == 'expval':
            return qml.expval(qml.PauliX(0))
    ops, wires = get_ops_from_qnode(circuit, [], dev)
    rec.check(len(ops) == len(wires), 'as many wires as matrices')
    U = np.eye(2 ** n, dtype=complex)
    for m, w in zip(ops, wires):
        U = o.embed(np.asarray(m), tuple(w), n) @ U
    want = np.eye(2 ** n, dtype=complex)
    for g in seq:
        want = o.embed(matrix(g), g[2], n) @ want
    rec.check(o.close(U, want, 1e-9), 'extracted unitary of %s on %d qubits (returns %s)', seq, n, ret)
    rec.step()
    if deep:
        phi = np.asarray(qml.QNode(circuit_state_from_unitary, dev)(unitary=want))
        rec.check(o.close(phi, want[:, 0], 1e-9), 'state of %s on %d qubits', seq, n)
        spec, m, ob = obs_list(n)[len(seq) * 3 % len(obs_list(n))]
        for spec, m, ob in obs_list(n):
            e = float(qml.QNode(circuit_observable_from_unitary, dev)(unitary=want, observable=ob))
            rec.check(abs(e - np.vdot(want[:, 0], m @ want[:, 0]).real) < 1e-9, 'expectation %s of %s', spec, seq)
        rec.step(1 + len(obs_list(n)))
    rec.trace()
    rec.state((n, repr(seq), ret))
    rec.outcome(o.canon_state(want[:, 0], 5))


def run_case(c, rec):
    n = c['n']
    dev = qml.device('default.qubit', wires=n)
    if c['kind'] in ('seq', 'four'):
        a = alphabet(n, c.get('full', False))
        first = a[c['first']]
        check_seq([first], n, dev, rec)
        check_seq([first], n, dev, rec, ret='expval', deep=False)
        if c['kind'] == 'four':
            if first[0] in ('Hadamard', 'CRX', 'Toffoli'):
                check_seq([first, ['Toffoli', [], [3, 0, 2], False], first], n, dev, rec)
            return
        for rest in it.product(range(len(a)), repeat=c['depth'] - 1):
            seq = [first] + [a[i] for i in rest]
            rec.path = [seq]
            check_seq(seq, n, dev, rec, deep=(n < 3 and c['depth'] == 2))
        rec.example({'n': n, 'first_gate': first, 'continuations': len(a) ** (c['depth'] - 1)})
    elif c['kind'] == 'three':
        a = reduced(n)
        for g, h in it.product(a, repeat=2):
            seq = [a[c['first']], g, h]
            rec.path = [seq]
            check_seq(seq, n, dev, rec, deep=False)
    elif c['kind'] == 'long':
        # the whole alphabet as one program, all its windows of several lengths
        a = alphabet(min(n, 4), n < 5)
        if n == 5:
            a = [[g[0], g[1], [(q + i) % 5 for q in g[2]], g[3]] for i, g in enumerate(a)][::5]
        if c['rev']:
            a = [[g[0], g[1], g[2], not g[3]] for g in a[::-1]]
        rec.path = ['whole alphabet', c]
        check_seq(a[:150], n, dev, rec, ret='expval', deep=False)
        for m in (7, 23, 64):
            for i in range(0, len(a) - m, m if n < 4 else 2 * m):
                rec.path = ['window', c, i, m]
                check_seq(a[i:i + m], n, dev, rec, deep=False)
        check_seq(a[:40] + [[g[0], g[1], g[2], not g[3]] for g in a[:40][::-1]], n, dev, rec, deep=False)
    elif c['kind'] == 'fromU':
        run_fromU(c, rec)
    elif c['kind'] == 'extra':
        run_extra(c, rec)
    elif c['kind'] == 'angles':
        # every gate with parameters at every special angle (full turns, half turns, tiny, huge), alone and after another gate
        special = (0., 2 * np.pi, -2 * np.pi, 4 * np.pi, np.pi, -np.pi, np.pi / 2, 3 * np.pi / 2, 1e-7, -1e-5, 6.2831, 100., -57.3)
        for name, (k, p, _) in list(o.GATES.items()) + [('PauliRot', (min(n, 2), 1, None)), ('MultiRZ', (n, 1, None))]:
            if not p or k > n:
                continue
            for w in it.permutations(range(n), k):
                for j in range(p):
                    for t in special:
                        par = list(ANG[:p])
                        par[j] = t
                        if name == 'PauliRot':
                            par.append('XZ'[:k])
                        for inv in (False, True):
                            rec.path = [name, par, w, inv]
                            check_seq([[name, par, list(w), inv]], n, dev, rec, deep=False)
                            check_seq([['Hadamard', [], [w[-1]], False], [name, par, list(w), inv], ['RY', [0.4], [w[0]], False]],
                                      n, dev, rec, ret='expval', deep=False)
    elif c['kind'] == 'sub':
        # circuits on a subset of the wires of the device; one function constructed again and again
        box = {}

        def circuit(params, **kwargs):
            for g in box['seq']:
                queue(g)
            return qml.state()
        for q in it.permutations(range(n), 2):
            for name in ('Hadamard', 'CNOT', 'CRY', 'PauliRot'):
                k = 1 if name == 'Hadamard' else 2
                par = {'CRY': [0.4], 'PauliRot': [0.9, 'XY']}.get(name, [])
                for rep in (1, 2, 3):
                    box['seq'] = [[name, par, list(q[:k]), False]] * rep
                    ops, wires = get_ops_from_qnode(circuit, [], dev)
                    U = np.eye(2 ** n, dtype=complex)
                    want = np.eye(2 ** n, dtype=complex)
                    for m, w in zip(ops, wires):
                        U = o.embed(np.asarray(m), tuple(w), n) @ U
                    for g in box['seq']:
                        want = o.embed(matrix(g), g[2], n) @ want
                    rec.check(len(ops) == len(wires) and o.close(U, want, 1e-9), '%d x %s on %s', rep, name, q)
                    rec.step()
                    rec.state((n, 'sub', q, name, rep))
        rec.trace()
    elif c['kind'] == 'empty':
        check_seq([], n, dev, rec)
    elif c['kind'] == 'prep':
        preps = [lambda: qml.BasisState(np.array([1] * n), wires=list(range(n))),
                 lambda: qml.BasisState(np.array([1]), wires=[n - 1]),
                 lambda: qml.QubitStateVector(np.eye(2 ** n)[1], wires=list(range(n))),
                 lambda: qml.QubitStateVector(np.array([0., 1.]), wires=[0]),
                 lambda: qml.templates.AmplitudeEmbedding(np.array([0., 1.]), wires=[0])]
        gates = [g for g in alphabet(n, False)]
        for p in range(len(preps)):
            for tail in [[]] + [[g] for g in gates]:
                for ret in ('state', 'expval'):
                    def circuit(params, **kwargs):
                        preps[p]()
                        for g in tail:
                            queue(g)
                        return qml.state() if ret == 'state' else qml.expval(qml.PauliZ(0))
                    try:
                        ops, wires = get_ops_from_qnode(circuit, [], dev)
                    except Exception:
                        pass
                    else:
                        # accepted only if the result really prepares the state
                        U = np.eye(2 ** n, dtype=complex)
                        for m, w in zip(ops, wires):
                            U = o.embed(np.asarray(m), tuple(w), n) @ U
                        x = np.zeros(2 ** n)
                        x[{0: 2 ** n - 1, 1: 1, 2: 1, 3: 2 ** (n - 1), 4: 2 ** (n - 1)}[p]] = 1.
                        for g in tail:
                            x = o.embed(matrix(g), g[2], n) @ x
                        rec.check(o.close(U[:, 0], x, 1e-9), 'state preparation %d dropped (tail %s)', p, tail)
                    rec.step()
                    rec.state((n, p, repr(tail), ret))
            rec.trace()
    else:   # parameters reach the gates, in nested lists too
        def circuit(params, **kwargs):
            qml.RX(params[0], wires=0)
            qml.RY(params[1][0], wires=n - 1)
            if n > 1:
                qml.CRZ(params[1][1], wires=[n - 1, 0])
            else:
                qml.RZ(params[1][1], wires=0)
            return qml.state()
        for vals in it.product((0.0, 0.4, -2.1, np.pi, 7.5), repeat=3):
            p = [vals[0], [vals[1], vals[2]]]
            ops, wires = get_ops_from_qnode(circuit, p, dev)
            rec.check(p == [vals[0], [vals[1], vals[2]]], 'parameters modified')
            U = np.eye(2 ** n, dtype=complex)
            for m, w in zip(ops, wires):
                U = o.embed(np.asarray(m), tuple(w), n) @ U
            seq = [('RX', (vals[0],), (0,)), ('RY', (vals[1],), (n - 1,)),
                   ('CRZ', (vals[2],), (n - 1, 0)) if n > 1 else ('RZ', (vals[2],), (0,))]
            rec.check(o.close(U, o.circuit_unitary(seq, n), 1e-9), 'parameters %s', vals)
            rec.step()
            rec.state((n, vals))
        rec.trace()
