"""C15: settings outside their domain are rejected before anything happens; settings inside are accepted."""
import itertools as it
import numpy as np
import pennylane as qml
from oranssi.opt_tools import LieLayer
from oranssi.optimizers import approximate_lie_optimizer, exact_lie_optimizer, parameter_shift_optimizer
from mc import oracle as o
from mc import layers as L

PROPERTY = 'C15'
RULE = ('every option of every optimizer and layer x an alphabet of valid and boundary/invalid values, singly and in all pairs; '
        'monitor: device executions and layer calls before the rejection; oracle: the documented domain of each option')

NAN, INF = float('nan'), float('inf')
# values are indices into these tables so that cases stay JSON-able
INT_OK = [1, 2, 3]
INT_BAD = [0, -1, 1.0, 2.5, '3', None, [2], np.float64(2.0), NAN, -INF]
ETA_OK = [0.0, 0.1, 1.0, np.float64(0.5), 1e-300]
ETA_BAD = [-1e-12, 1.0000001, -0.1, 2.0, 1, 0, '0.1', None, NAN, INF, -INF, 0.1j, [0.1]]
TOL_OK = [0.0, 1e-3, 5.0, INF, np.float64(0.2)]
TOL_BAD = [-1e-12, -1.0, 1, 0, '1e-3', NAN, -INF, [0.1]]
BOOL_OK = [True, False]
BOOL_BAD = [0, 1, None, 'True', 'no', [], 1.0, [True]]
FLOAT_OK = [0.0, 1e-3, -2.0]
FLOAT_BAD = [1, None, '0.1', [1.0]]

TABLE = {'int': (INT_OK, INT_BAD), 'eta': (ETA_OK, ETA_BAD), 'tol': (TOL_OK, TOL_BAD + [None]),
         'toln': (TOL_OK + [None], TOL_BAD), 'bool': (BOOL_OK, BOOL_BAD), 'float': (FLOAT_OK, FLOAT_BAD)}

OPTIONS = {
    'ps': {'nsteps': 'int', 'eta': 'eta', 'tol': 'tol', 'return_state': 'bool', 'return_params': 'bool'},
    'exact': {'nsteps': 'int', 'eta': 'eta', 'tol': 'tol', 'return_state': 'bool', 'perturbation': 'bool', 'return_unitary': 'bool',
              'return_perturbations': 'bool'},
    'approx': {'nsteps': 'int', 'eta': 'eta', 'tol': 'toln', 'escape_tol': 'float', 'return_state': 'bool', 'return_omegas': 'bool',
               'return_unitary': 'bool', 'return_gates': 'bool', 'perturb': 'bool', 'return_perturbations': 'bool',
               'return_zassenhaus': 'bool'},
}
LAYER_OPTIONS = {'eta': 'eta', 'unitary_error_check': 'bool', 'trotterize': 'bool'}
CLASSES = ['local1', 'local2', 'custom', 'stoch', 'squared', 'su8', 'zass', 'adapt', 'bch']
MINN = {'su8': 3, 'zass': 3, 'bch': 2}


class Probe(LieLayer):
    def __init__(self, dev, obs, n, count):
        super().__init__(dev, obs, n)
        self.count = count

    def __call__(self, U, *a, **k):
        self.count[0] += 1
        return U

    def __repr__(self):
        return '| probe'


def ps_circuit(params, **kw):
    qml.RY(params[0], wires=0)


class Dev(object):
    """a device and its execution counter"""

    def __init__(self, n):
        self.dev = qml.device('default.qubit', wires=n)

    def used(self):
        return self.dev.num_executions


def call(entry, kw, rec, circuit=None, layers=None):
    """-> (exception or None, device executions, layer calls)"""
    D = Dev(1)
    count = [0]
    obs = [qml.PauliZ(0)]
    try:
        if entry == 'ps':
            p = [0.3]
            parameter_shift_optimizer(circuit or ps_circuit, p, obs, D.dev, **kw)
            rec.check(p == [0.3], 'initial parameters changed')
        elif entry == 'exact':
            exact_lie_optimizer(circuit or o.qml_circuit([('RY', (0.3,), (0,))]), [], obs, D.dev, **kw)
        else:
            ls = [Probe(D.dev, obs, 1, count)] if layers is None else layers(D.dev, obs, count)
            approximate_lie_optimizer(circuit or o.qml_circuit([('RY', (0.3,), (0,))]), [], obs, D.dev, ls, **kw)
        e = None
    except Exception as ex:
        e = ex
    rec.step()
    return e, D.used(), count[0]


def judge(e, used, calls, ok, tag, rec):
    if ok:
        rec.check(e is None, '%s: rejected although valid: %r', tag, e)
    else:
        rec.check(e is not None, '%s: accepted although invalid', tag)
        rec.check(used == 0 and calls == 0, '%s: rejected only after %d evaluations and %d layer calls', tag, used, calls)
    rec.trace()
    rec.state(tag)
    rec.outcome((ok, type(e).__name__))


def valid_combo(entry, kw):
    if entry == 'exact' and kw.get('return_perturbations') is True and kw.get('perturbation') is not True:
        return False
    return True


def single(entry, rec):
    for opt, t in OPTIONS[entry].items():
        ok, bad = TABLE[t]
        for v, good in [(v, True) for v in ok] + [(v, False) for v in bad]:
            kw = {'nsteps': 1}
            kw[opt] = v
            e, used, calls = call(entry, kw, rec)
            judge(e, used, calls, good and valid_combo(entry, kw), '%s(%s=%r)' % (entry, opt, v), rec)


def pairs(entry, a, b, rec):
    ta, tb = OPTIONS[entry][a], OPTIONS[entry][b]
    A = [(v, True) for v in TABLE[ta][0]] + [(v, False) for v in TABLE[ta][1]]
    B = [(v, True) for v in TABLE[tb][0]] + [(v, False) for v in TABLE[tb][1]]
    for (va, ga), (vb, gb) in it.product(A, B):
        kw = {'nsteps': 1}
        kw[a] = va
        kw[b] = vb
        e, used, calls = call(entry, kw, rec)
        judge(e, used, calls, ga and gb and valid_combo(entry, kw), '%s(%s=%r, %s=%r)' % (entry, a, va, b, vb), rec)


def wrong_circuits(rec):
    def none(params, **k):
        qml.RY(0.3, wires=0)

    def expval(params, **k):
        qml.RY(0.3, wires=0)
        return qml.expval(qml.PauliZ(0))

    def var(params, **k):
        qml.RY(0.3, wires=0)
        return qml.var(qml.PauliZ(0))

    def probs(params, **k):
        qml.RY(0.3, wires=0)
        return qml.probs(wires=[0])

    def number(params, **k):
        return 1.5

    def array(params, **k):
        return np.ones(2)

    def state(params, **k):
        qml.RY(0.3, wires=0)
        return qml.state()
    for entry in ('exact', 'approx'):
        for f, ok in ((none, False), (expval, False), (var, False), (probs, False), (number, False), (array, False), (state, True)):
            e, used, calls = call(entry, {'nsteps': 1}, rec, circuit=f)
            judge(e, used, calls, ok, '%s(circuit returning %s)' % (entry, f.__name__), rec)
    for f, ok in ((ps_circuit, True), (expval, False), (state, False), (probs, False), (var, False)):
        e, used, calls = call('ps', {'nsteps': 1}, rec, circuit=f)
        judge(e, used, calls, ok, 'ps(circuit returning %s)' % f.__name__, rec)


def wrong_layers(rec):
    P = lambda d, ob, c: Probe(d, ob, 1, c)

    class NotLie(object):
        def __init__(self, c):
            self.c = c

        def __call__(self, U, *a, **k):
            self.c[0] += 1
            return U
    lists = [('list of one', lambda d, ob, c: [P(d, ob, c)], True),
             ('list of two', lambda d, ob, c: [P(d, ob, c), P(d, ob, c)], True),
             ('tuple', lambda d, ob, c: (P(d, ob, c),), False),
             ('single layer', lambda d, ob, c: P(d, ob, c), False),
             ('None', lambda d, ob, c: None, False),
             ('generator', lambda d, ob, c: (x for x in [P(d, ob, c)]), False),
             ('dict', lambda d, ob, c: {0: P(d, ob, c)}, False),
             ('function first', lambda d, ob, c: [NotLie(c), P(d, ob, c)], False),
             ('function last', lambda d, ob, c: [P(d, ob, c), NotLie(c)], False),
             ('function in the middle', lambda d, ob, c: [P(d, ob, c), NotLie(c), P(d, ob, c)], False),
             ('class', lambda d, ob, c: [Probe], False), ('None element', lambda d, ob, c: [P(d, ob, c), None], False),
             ('string', lambda d, ob, c: 'layer', False)]
    for name, f, ok in lists:
        for N in (1, 3):
            e, used, calls = call('approx', {'nsteps': N}, rec, layers=f)
            judge(e, used, calls, ok, 'approx(layers=%s, nsteps=%d)' % (name, N), rec)


def build(cls, n, rec, tag, ok, run=True, locality=None, **kw):
    dev = qml.device('default.qubit', wires=n)
    obs = [qml.PauliZ(0)]
    try:
        if locality is not None:
            from oranssi.opt_tools import LocalLieAlgebraLayer
            l = LocalLieAlgebraLayer(dev, obs, locality[0], **kw)
        else:
            base = {'local1': 'local1', 'local2': 'local2'}.get(cls, cls)
            l = L.make(base, dev, obs, **kw)
        e = None
    except Exception as ex:
        e = ex
    rec.step()
    if ok:
        rec.check(e is None, '%s: rejected although valid: %r', tag, e)
        rec.check(isinstance(l, LieLayer), '%s: not a Lie layer', tag)
        rec.check(isinstance(repr(l), str) and len(repr(l)) > 0, '%s: no description', tag)
        if run and cls not in ('adapt',):
            U = np.asarray(l(np.eye(2 ** n, dtype=complex)))
            rec.check(o.is_unitary(U), '%s: the layer does not work', tag)
    else:
        rec.check(e is not None, '%s: accepted although invalid', tag)
        rec.check(dev.num_executions == 0, '%s: evaluated before it was rejected', tag)
    rec.trace()
    rec.state(tag)
    rec.outcome((cls, ok, type(e).__name__))


def layer_options(cls, rec, pair):
    n = MINN.get(cls, 2)
    opts = [('eta', 'eta'), ('unitary_error_check', 'bool'), ('trotterize', 'bool')]
    if cls == 'local2':
        opts.append(('stride', 'stride'))
    tab = dict(TABLE)
    tab['stride'] = ([0, 1], [2, -1, '0', None, 0.5])
    if not pair:
        for opt, t in opts:
            for v, good in [(v, True) for v in tab[t][0]] + [(v, False) for v in tab[t][1]]:
                build(cls, n, rec, '%s(%s=%r)' % (cls, opt, v), good, **{opt: v})
    else:
        for (a, ta), (b, tb) in it.combinations(opts, 2):
            for (va, ga), (vb, gb) in it.product([(v, True) for v in tab[ta][0]] + [(v, False) for v in tab[ta][1]],
                                                 [(v, True) for v in tab[tb][0]] + [(v, False) for v in tab[tb][1]]):
                build(cls, n, rec, '%s(%s=%r, %s=%r)' % (cls, a, va, b, vb), ga and gb, run=False, **{a: va, b: vb})


ONE = ['X', 'Y', 'Z']
TWO = [a + b for a in ONE for b in ONE]
BADWORDS = ['I', 'W', 'x', '', 'XYZ', 'XI', 'IX', 'II', 'X ', 'XXX', 0, None, 1.0]


def directions(rec):
    for cls, good in (('local1', ONE), ('local2', TWO), ('custom', ONE + TWO)):
        bad = [w for w in BADWORDS + ONE + TWO if w not in good]
        for k in (1, 2):
            for sub in it.product(good, repeat=k):
                if k == 2 and len(good) > 3 and sub[0] > sub[1]:
                    continue
                build(cls, 2, rec, '%s(directions=%r)' % (cls, list(sub)), True, run=k == 1, directions=list(sub))
        build(cls, 2, rec, '%s(directions=all)' % cls, True, directions=list(good))
        build(cls, 2, rec, '%s(directions=None)' % cls, True, directions=None)
        for w in bad:
            build(cls, 2, rec, '%s(directions=[%r])' % (cls, w), False, directions=[w])
            for g in good:
                build(cls, 2, rec, '%s(directions=[%r,%r])' % (cls, w, g), False, directions=[w, g])
                build(cls, 2, rec, '%s(directions=[%r,%r])' % (cls, g, w), False, directions=[g, w])
            build(cls, 2, rec, '%s(directions=all+[%r])' % (cls, w), False, directions=list(good) + [w])


def sizes(rec):
    for loc in (1, 2, 0, 3, -1, 1.5, 4, '1', None, 'su2'):
        for n in (1, 2, 3, 4, 5, 6, 7):
            ok = loc == 1 or (loc == 2 and n % 2 == 0)
            build('local', n, rec, 'local(locality=%r, nqubits=%d)' % (loc, n), ok, run=n < 4, locality=[loc])
    for cls in ('su8', 'zass'):
        for n in (1, 2, 3, 4, 5):
            build(cls, n, rec, '%s(nqubits=%d)' % (cls, n), n >= 3, run=n < 4)
    for cls in ('custom', 'stoch', 'squared', 'local1'):
        for n in (1, 2, 3, 4, 5):
            build(cls, n, rec, '%s(nqubits=%d)' % (cls, n), True, run=n < 4)


def cases(tier):
    q = tier == 'quick'
    out = [{'k': 'single', 'e': e} for e in ('ps', 'exact', 'approx')]
    out += [{'k': 'big'}, {'k': 'circuits'}, {'k': 'layers'}, {'k': 'directions'}, {'k': 'sizes'}]
    for cls in CLASSES:
        out.append({'k': 'layer', 'cls': cls, 'pair': False})
        out.append({'k': 'layer', 'cls': cls, 'pair': True})
    for e in ('ps', 'exact', 'approx'):
        for a, b in it.combinations(sorted(OPTIONS[e]), 2):
            out.append({'k': 'pair', 'e': e, 'a': a, 'b': b})
    if not q:
        for e in ('ps', 'exact', 'approx'):
            for a, b, c in it.combinations(sorted(OPTIONS[e]), 3):
                out.append({'k': 'triple', 'e': e, 'o': [a, b, c]})
    return out


def triple(entry, opts, rec):
    lists = []
    for a in opts:
        t = OPTIONS[entry][a]
        lists.append([(v, True) for v in TABLE[t][0][:2]] + [(v, False) for v in TABLE[t][1][:3]])
    for combo in it.product(*lists):
        kw = {'nsteps': 1}
        kw.update({a: v for a, (v, _) in zip(opts, combo)})
        e, used, calls = call(entry, kw, rec)
        judge(e, used, calls, all(g for _, g in combo) and valid_combo(entry, kw), '%s(%s)' % (entry, kw), rec)


def run_case(c, rec):
    k = c['k']
    rec.example(c)
    if k == 'big':
        for e in ('ps', 'exact', 'approx'):
            for big in (50, 501, 1001, 10 ** 6):
                for tol in (INF, 5.0):      # stops as soon as it may
                    kw = {'nsteps': big, 'tol': tol}
                    err, used, calls = call(e, kw, rec)
                    judge(err, used, calls, True, '%s(%s)' % (e, kw), rec)
    elif k == 'single':
        single(c['e'], rec)
    elif k == 'pair':
        pairs(c['e'], c['a'], c['b'], rec)
    elif k == 'triple':
        triple(c['e'], c['o'], rec)
    elif k == 'circuits':
        wrong_circuits(rec)
    elif k == 'layers':
        wrong_layers(rec)
    elif k == 'directions':
        directions(rec)
    elif k == 'sizes':
        sizes(rec)
    else:
        layer_options(c['cls'], rec, c['pair'])
