"""C22: no modified inputs, no hidden shared state."""
import copy
import itertools as it
import random
import numpy as np
import pennylane as qml
from oranssi.circuit_tools import get_full_operator, get_hamiltonian_matrix, get_all_su_n_directions, get_commuting_set, param_shift_comm, \
    get_ops_from_qnode
from oranssi.optimizers import approximate_lie_optimizer, exact_lie_optimizer, parameter_shift_optimizer
from oranssi.pauli import Pauli, PauliMonomial, PauliSum
from oranssi.utils import get_su_2_operators, get_su_4_operators, get_su_n_operators, operator_2_norm
from mc import core
from mc import oracle as o
from mc import layers as L

PROPERTY = 'C22'
RULE = ('every interleaving of two call sequences (2 calls each, 3 thorough) for every pair of actors (all layer classes, two instances of '
        'the same class, the three optimizers, the helper functions), sharing device, observables and input arrays; for two instances of a '
        'class with other observables, step size, directions or register size every interleaving of construction and calls; every actor with all its arrays handed over in one array overwritten in place; differential '
        'oracle: each actor alone in a fresh process; inputs and all earlier results snapshotted, results overwritten after use in a second mode')

VSPECS = {2: [[('X', 0), ('Y', 1)], [('Z', 1)]], 3: [[('X', 0), ('Y', 1)], [('Z', 1)], [('Z', 2), ('X', 0)]]}
SPECS = {2: [[('Z', 0), ('Z', 1)], [('X', 0)], [('Y', 1)]], 3: [[('Z', 0), ('Z', 1)], [('X', 2)], [('Y', 1), ('Z', 2)]]}


def ps_stub(circuit, params, observables, device=None, *a, **k):
    q = [np.array(p, dtype=float) + 0.2 for p in params]
    return [0.0], [np.array(q)]


def circuits(n):
    gen = [o.circuit_unitary(g, n) for g in o.generic_circuits(n)]
    return gen + [o.stabilizer_circuits(n)[11][1]]


class World(object):
    """what the actors share"""

    def __init__(self, n, v=0):
        self.n = n
        self.dev = L.device(n)
        self.v = v
        self.obs = o.obs_list((VSPECS if v else SPECS)[n])
        self.U = [u.copy() for u in circuits(n)]
        self.dirs1 = ['Z', 'Y'] if v else ['X', 'Z']
        self.dirs2 = ['XZ', 'YY', 'ZX'] if v else ['ZY', 'XX', 'YY']
        self.params = [-0.7, 0.1] if v else [0.3, -0.4]
        self.nested = []
        self.edges = [(0, 1), (1, 2), (0, 2)] if n > 2 else [(0, 1)]
        self.coeffs = [0.5, -1.0, 2.0]

    def snapshot(self):
        return ([u.tobytes() for u in self.U], list(map(id, self.obs)), [np.asarray(x.matrix).tobytes() for x in self.obs],
                [str(x.wires) for x in self.obs], list(self.dirs1), list(self.dirs2), list(self.params), copy.deepcopy(self.nested),
                list(self.edges), list(self.coeffs))


class OneBuffer(object):
    """the circuits of a world, all handed out in one array that is overwritten in place"""

    def __init__(self, us):
        self.us = us
        self.buf = np.empty_like(us[0])
        self.cur = None

    def __len__(self):
        return len(self.us)

    def __getitem__(self, i):
        self.cur = i % len(self.us)
        self.buf[...] = self.us[self.cur]
        return self.buf

    def __iter__(self):
        return iter(self.us)

    def intact(self):
        return self.cur is None or np.array_equal(self.buf, self.us[self.cur])


def A_layer(name, eta=0.3, dirs=None, commute=False):
    def make(w):
        kw = {'eta': eta if not w.v else 0.9}
        if name == 'zass' and w.v:
            kw['ratio'] = (2, 1)
        if dirs:
            kw['directions'] = getattr(w, dirs)
        lay = L.make(name, w.dev, w.obs, **kw)

        def call(i):
            np.random.seed(10 + i)
            random.seed(10 + i)
            U = w.U[i % len(w.U)]
            if name == 'adapt':
                return lay(U, optimizer=ps_stub, params=w.nested if i == 0 else call.p)
            if commute:
                return lay(U, commute=True, optimizer=ps_stub)
            if i == 1 and hasattr(lay, 'eta'):
                lay.set_eta(0.77)
            return 1e-6 * lay(U) if name == 'bch' else lay(U)      # the fit of the BCH layer stops at 1e-4

        def outer(i):
            r = call(i)
            if name == 'adapt':
                call.p = copy.deepcopy(r[1])
            return r
        return outer
    return make


def A_dirs(name):
    def make(w):
        lay = L.make(name, w.dev, w.obs)

        def call(i):
            d = lay.get_lie_algebra_directions(w.U[i % len(w.U)])
            return [list(d.keys()), np.array([float(v) for v in d.values()]), list(lay.get_lie_algebra_directions_strings())[:4] and
                    [str(x) for x in lay.get_lie_algebra_directions_strings()], repr(lay)]
        return call
    return make


def A_opt(kind):
    def make(w):
        n = w.n

        def start(i):
            return o.qml_circuit(o.generic_circuits(n)[i % 3])

        def circ(params, **k):
            qml.RY(params[0], wires=0)
            qml.CNOT(wires=[0, 1])
            qml.RX(params[1], wires=1)

        def call(i):
            np.random.seed(20 + i)
            random.seed(20 + i)
            if kind == 'ps':
                r = parameter_shift_optimizer(circ, w.params, w.obs[:2], w.dev, nsteps=2, eta=0.2, return_params=True, return_state=True)
                return [np.array(r[0], dtype=float), [np.array(x) for x in r[1]], [np.array(x, dtype=float) for x in r[2]]]
            if kind == 'exact':
                r = exact_lie_optimizer(start(i), w.params, w.obs, w.dev, nsteps=2, eta=0.4, return_state=True, return_unitary=True)
                return [np.array(r[0], dtype=float), list(r[1]), r[2]]
            ls = [L.make(x, w.dev, w.obs) for x in (('squared', 'local1'), ('local1', 'squared', 'custom'))[(i + w.v) % 2]]
            given = list(ls)
            r = approximate_lie_optimizer(start(i), w.params, w.obs, w.dev, given, nsteps=3, return_state=True, return_unitary=True)
            assert given == ls, 'layer list changed'
            return [np.array(r[0], dtype=float), list(r[1]), list(r[2])]
        return call
    return make


def A_help(w):
    n = w.n
    m = [PauliMonomial([Pauli(0, 'X', coeff=1j), Pauli(1, 'Z')]), PauliMonomial([Pauli(0, 'Y'), Pauli(1, 'Z', coeff=0.5)])]

    def call(i):
        random.seed(3)
        U = w.U[i % len(w.U)]
        if i % 2 == 0:
            d = get_all_su_n_directions(U, w.obs, w.dev)
            return [get_full_operator(U[:4, :4], (1, 0), n), get_hamiltonian_matrix(n, w.obs, w.coeffs),
                    np.array([float(v) for v in d.values()]), [str(e) for e in get_commuting_set(w.edges)],
                    get_su_n_operators(4, identity=True, return_names=True)[0], operator_2_norm(U), repr(m[0] * m[1])]
        ops, wires = get_ops_from_qnode(o.qml_circuit(o.generic_circuits(n)[0]), w.params, w.dev)
        rho = np.outer(U[:, 0], U[:, 0].conj())
        s = PauliSum(m) - PauliSum([m[1]])
        return [[np.array(x) for x in ops], [str(x) for x in wires], get_su_2_operators(), get_su_4_operators(), get_hamiltonian_matrix(n, w.obs),
                param_shift_comm(rho, lambda t: o.rot(o.word('X' * n), t / 2)), [repr(x) for x in s.pauli_sum], repr(m[0].commutator(m[1]))]
    return call


ACTORS = {'local1': A_layer('local1'), 'local1t': A_layer('local1t', dirs='dirs1'), 'local2': A_layer('local2'),
          'local2t': A_layer('local2t', dirs='dirs2'), 'custom': A_layer('custom', dirs='dirs2'), 'customt': A_layer('customt', dirs='dirs1'),
          'stoch': A_layer('stoch'), 'squared': A_layer('squared'), 'squaredc': A_layer('squared', commute=True),
          'su8': A_layer('su8'), 'zass': A_layer('zass'), 'bch': A_layer('bch'), 'adapt': A_layer('adapt'), 'dirs_l': A_dirs('local1'), 'dirs_s': A_dirs('squared'),
          'ps': A_opt('ps'), 'exact': A_opt('exact'), 'approx': A_opt('approx'), 'help': lambda w: A_help(w)}


def flat(x, out):
    if isinstance(x, (list, tuple)):
        out.append('(%d' % len(x))
        for y in x:
            flat(y, out)
    elif isinstance(x, np.ndarray):
        out.append(np.array(x))
    else:
        out.append(x)
    return out


def same(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            if np.shape(x) != np.shape(y) or (np.size(x) and np.abs(np.asarray(x) - np.asarray(y)).max() > 1e-9):
                return False
        elif isinstance(x, str) or isinstance(y, str) or x is None or y is None:
            if x != y:
                return False
        elif not (x == y or abs(complex(x) - complex(y)) < 1e-9):
            return False
    return True


def arrays(x, out):
    if isinstance(x, (list, tuple)):
        for y in x:
            arrays(y, out)
    elif isinstance(x, np.ndarray) and x.flags.writeable and x.size:
        out.append(x)
    return out


def solo(key):
    name, n, v = key
    a = ACTORS[name](World(n, v))
    return [flat(a(i), []) for i in range(3)]


REFS = {}


def reference(*keys):
    """results of an actor that is alone in a fresh process"""
    miss = sorted(set(k for k in keys if k not in REFS))
    for k, (st, r) in zip(miss, core.fresh(solo, miss, core.NPROC)):
        REFS[k] = (st, r)
    for k in keys:
        if REFS[k][0] != 'ok':
            raise RuntimeError('%s alone fails: %s' % (k, REFS[k][1]))
    return [REFS[k][1] for k in keys]


def run_twins(c, rec):
    """two instances with different settings: construction is an event of the interleaving"""
    keys = [tuple(x) for x in c['keys']]
    refs = reference(*keys)
    for order in orders(3, False):
        ws = [World(*keys[0][1:]), World(*keys[1][1:])]
        before = [w.snapshot() for w in ws]
        acts, cnt, kept = [None, None], [0, 0], []
        tag = '%s and %s in order %s (first event: construction)' % (keys[0], keys[1], order)
        rec.path = [tag]
        for t in order:
            if acts[t] is None:
                acts[t] = ACTORS[keys[t][0]](ws[t])
            else:
                r = acts[t](cnt[t])
                rec.check(same(flat(r, []), refs[t][cnt[t]]), '%s: call %d of %s differs from the same call alone', tag, cnt[t], keys[t])
                cnt[t] += 1
                kept += [(x, x.copy()) for x in arrays(r, [])]
            rec.check([w.snapshot() for w in ws] == before, '%s: an event of %s modified an input', tag, keys[t])
            for old, cp in kept:
                rec.check(np.array_equal(old, cp), '%s: an event of %s modified an earlier result', tag, keys[t])
            rec.step()
        rec.trace()
        rec.state((keys[0], keys[1], order))
    rec.example({'actors': c['keys'], 'events each': 'construction, call, call'})


STATELESS = ('local1', 'local1t', 'local2', 'local2t', 'custom', 'customt', 'su8', 'dirs_l', 'dirs_s', 'help', 'ps', 'exact', 'approx')


def run_buffer(c, rec):
    """one actor, whose caller reuses its arrays and lists: what was passed earlier is overwritten before the next call"""
    name, n, v = c['buffer']
    for hist in it.product((0, 1, 2), repeat=3) if name in STATELESS and name not in ('local1', 'local2', 'custom', 'help') else ((0, 1, 2),):
        w = World(n, v)
        w.U = OneBuffer(w.U)
        act = ACTORS[name](w)
        plain = ACTORS[name](World(n, v))           # the same calls with fresh arrays
        rec.path = ['%s n=%d variant %d, circuits passed in one array, calls %s' % (name, n, v, hist)]
        before = w.snapshot()
        for i in hist:
            if name in ('help', 'ps'):      # lists passed earlier are changed, too; then they get their content back
                keep = list(w.coeffs), list(w.edges), list(w.params)
                w.coeffs[:], w.edges[:], w.params[:] = [2.0, 0.25, -3.0], w.edges[:1] * 1, [0.9, 0.9]
                act(i)
                act(i + 1)
                w.coeffs[:], w.edges[:], w.params[:] = keep
            r = flat(act(i), [])
            rec.check(same(r, flat(plain(i), [])), '%s: call %d differs from the same call with a fresh array', rec.path[0], i)
            rec.check(w.U.intact() and w.snapshot() == before, '%s: call %d modified an input', rec.path[0], i)
            rec.step()
        rec.trace()
        rec.state((name, n, v, hist))
    rec.example({'actor': c['buffer']})


def run_pair(n, a, b, k, order, trash, refs, rec):
    w = World(n)
    before = w.snapshot()
    acts = [ACTORS[a](w), ACTORS[b](w)]
    cnt = [0, 0]
    kept = []
    tag = '%s and %s (n=%d) in order %s%s' % (a, b, n, order, ', results overwritten' if trash else '')
    rec.path = [tag]
    inputs = set(id(u) for u in w.U)
    for t in order:
        r = acts[t](cnt[t])
        f = flat(r, [])
        rec.check(same(f, refs[t][cnt[t]]), '%s: call %d of %s differs from the same call alone', tag, cnt[t], (a, b)[t])
        cnt[t] += 1
        rec.check(w.snapshot() == before, '%s: a call of %s modified an input', tag, (a, b)[t])
        for old, cp in kept:
            rec.check(np.array_equal(old, cp), '%s: a call of %s modified an earlier result', tag, (a, b)[t])
        arrs = arrays(r, [])
        if trash:
            for x in arrs:
                if id(x) not in inputs:
                    x.fill(7)
        else:
            kept += [(x, x.copy()) for x in arrs]
        rec.step()
    rec.trace()
    rec.state((n, a, b, order, trash))


def cases(tier):
    q = tier == 'quick'
    out = []
    n2 = [x for x in ACTORS if x not in ('su8', 'zass')]
    for a, b in it.combinations_with_replacement(n2, 2):
        if q and 'bch' in (a, b) and not {a, b} <= {'bch', 'help', 'local1', 'approx', 'ps'}:
            continue
        out.append({'n': 2, 'a': a, 'b': b, 'k': 2 if q else 3})
    n3 = ['su8', 'zass', 'local1', 'custom', 'squared', 'stoch', 'help', 'squaredc', 'adapt']
    for a, b in it.combinations_with_replacement(n3, 2):
        if q and not ({a, b} & {'su8', 'zass'}) and a != b:
            continue
        out.append({'n': 3, 'a': a, 'b': b, 'k': 2})
    for a in sorted(ACTORS):
        ns = [n for n in (2, 3) if not (n == 2 and a in ('su8', 'zass')) and not (n == 3 and a in ('local2', 'local2t'))]
        for n in ns:
            out.append({'keys': [[a, n, 0], [a, n, 1]]})
        if len(ns) == 2:
            out.append({'keys': [[a, 2, 0], [a, 3, 0]]})
            out.append({'keys': [[a, 2, 1], [a, 3, 0]]})
    for a, b in (('local1', 'custom'), ('squared', 'adapt'), ('squared', 'stoch'), ('help', 'custom'), ('dirs_l', 'local1'), ('squared', 'su8'),
                 ('zass', 'su8'), ('stoch', 'custom')):
        out.append({'keys': [[a, 2 if a != 'zass' else 3, 1], [b, 3, 0]]})
    for a in sorted(ACTORS):
        for n in (2, 3):
            if not (n == 2 and a in ('su8', 'zass')) and not (n == 3 and a in ('local2', 'local2t')):
                out += [{'buffer': [a, n, v]} for v in (0, 1)]
    need = set()
    for c in out:
        need |= {tuple(c['buffer'])} if 'buffer' in c else set(tuple(k) for k in c['keys']) if 'keys' in c else {(c['a'], c['n'], 0), (c['b'], c['n'], 0)}
    try:
        reference(*sorted(need))
    except RuntimeError:
        pass        # reported by the cases concerned
    return out


def orders(k, twins):
    for pos in it.combinations(range(2 * k), k):
        o_ = tuple(0 if i in pos else 1 for i in range(2 * k))
        if twins and o_[0] == 1:
            continue
        yield o_


def run_case(c, rec):
    if 'buffer' in c:
        return run_buffer(c, rec)
    if 'keys' in c:
        return run_twins(c, rec)
    a, b, n, k = c['a'], c['b'], c['n'], c['k']
    refs = reference((a, n, 0), (b, n, 0))
    for order in orders(k, a == b):
        run_pair(n, a, b, k, order, False, refs, rec)
    for order in list(orders(k, a == b))[::2]:
        run_pair(n, a, b, k, order, True, refs, rec)
    rec.example({'actors': [a, b], 'n': n, 'calls each': k})
