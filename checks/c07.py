"""C07: local and custom-direction layers."""
import itertools as it
import numpy as np
import pennylane as qml
from mc import oracle as o
from mc import layers as L

PROPERTY = 'C07'
RULE = ('layer configurations (locality / direction subset / trotterize / eta / observable list) x start states '
        '(all stabilizer states for n<=2, families for n=3,4, generic states), and all histories of bounded length of '
        '(call on state s | set_eta); oracle: reference transition function computed from matrices')
ASSUMPTIONS = ['Pauli-word and Hermitian observables', 'device wires 0..n-1', 'at least one allowed direction']

ETAS = [0.0, 0.1, 0.5, 1.0]
HM = np.array([[0.5, 0.3 - 0.2j], [0.3 + 0.2j, -1.1]])


def obs_lists(n):
    if n == 1:
        return [[[('Z', 0)]], [[('X', 0)], [('Y', 0)]], [[('Y', 0)], [('X', 0)], [('Y', 0)]]]
    out = [[[('Z', n - 1)]], [[('X', 0)], [('Z', 0), ('Z', 1)]], [[('Y', 1), ('X', 0)], [('Z', 1)], [('X', 0)]],
           [[('Z', 1)], [('Y', 1), ('X', 0)], [('Z', 1)]]]
    if n == 2:
        # general hermitian observables, small and large ones
        out.append([[('~', (1, 0), 1e-5)], [('~', (1,), 2.5)]])
        out.append([[('X', 0), ('Z', 1)], [('X', 1), ('Z', 0)]])
        out.append([[('X', 0)], [('X', 1)], [('Z', 0), ('Z', 1)], [('Y', 0)], [('X', 0)]])
    if n >= 3:
        out.append([[('~', (n - 1, 0), 1e-5)], [('~', (1,), 3e-6)]])
        out += [[[('X', q)] for q in range(n)] + [[('Z', q), ('Z', q + 1)] for q in range(n - 1)],
                [[('X', 2), ('Y', 0), ('Z', 1)], [('X', 2), ('Z', 0)]]]
    return out


def matrices(specs, n):
    return [o.obs_spec_matrix(s, n) for s in specs]


def local_blocks(n, locality, dirs):
    ws = [w for w in (''.join(p) for p in it.product('XYZ', repeat=locality)) if dirs is None or w in dirs]
    sites = [(q,) for q in range(n)] if locality == 1 else list(it.combinations(range(n), 2))
    return [[o.embed(o.word(w), s, n) for w in ws] for s in sites]


def custom_block(n, dirs):
    ws = [w for w in list('XYZ') + [a + b for a in 'XYZ' for b in 'XYZ'] if dirs is None or w in dirs]
    out = []
    for w in ws:
        sites = [(q,) for q in range(n)] if len(w) == 1 else list(it.combinations(range(n), 2))
        out += [o.embed(o.word(w), s, n) for s in sites]
    return [out]


_blocks = {}


def blocks(kind, n, dirs):
    key = (kind, n, tuple(dirs) if dirs is not None else None)
    if key not in _blocks:
        if len(_blocks) > 3000:
            _blocks.clear()
        _blocks[key] = custom_block(n, dirs) if kind.startswith('custom') else local_blocks(n, int(kind[5]), dirs)
    return _blocks[key]


def reference(kind, n, dirs, trotter, eta, mats, U):
    phi = U[:, 0]
    V = U
    for O in mats:
        for blk in blocks(kind, n, dirs):
            # <phi|[P,O]|phi> = 2i Im <P phi|O phi>
            h = O @ phi
            om = [2j * np.vdot(P @ phi, h).imag for P in blk]
            if trotter:
                for w, P in zip(om, blk):
                    # -eta/2^n * w * P  =  -i t P  with t = eta/2^n * Im w
                    V = o.rot(P, eta / 2 ** n * w.imag) @ V
            else:
                A = sum(w * P for w, P in zip(om, blk))
                V = o.exp_antiherm(-eta / 2 ** n * A) @ V
    return V


def make(kind, dev, specs_obs, dirs, trotter, eta):
    kw = {} if eta is None else {'eta': eta}
    if trotter is not None:
        kw['trotterize'] = trotter
    if kind.startswith('custom'):
        return L.make('custom', dev, specs_obs, directions=dirs, **kw)
    if dirs is not None:
        kw['directions'] = dirs
    return L.make(kind, dev, specs_obs, **kw)


def states(n, which):
    if which == 'generic':
        return [('g%d' % i, o.circuit_unitary(c, n)) for i, c in enumerate(o.generic_circuits(n))]
    st = o.stabilizer_circuits(n)
    return [('s%d' % i, st[i][1]) for i in which]


def cases(tier):
    q = tier == 'quick'
    out = []
    kinds = ['local1', 'local2', 'custom']
    for kind in kinds:
        for n in (1, 2, 3, 4):
            if not L.supported(kind, n):
                continue
            for tr in (False, True):
                for oi in range(len(obs_lists(n))):
                    if n == 4 and q and oi not in (2, 4):
                        continue
                    out.append({'k': 'states', 'kind': kind, 'n': n, 'tr': tr, 'oi': oi, 'all': not q})
    # direction subsets
    w1 = ['X', 'Y', 'Z']
    w2 = [a + b for a in 'XYZ' for b in 'XYZ']
    subs1 = [list(s) for r in (1, 2, 3) for s in it.combinations(w1, r)]
    subs2 = [list(s) for r in range(1, 10) for s in it.combinations(w2, r)]
    w12 = w1 + w2
    if q:
        subsC = [list(s) for r in (1, 2) for s in it.combinations(w12, r)] + \
                [[w for w in w12 if w not in s] for r in (1,) for s in it.combinations(w12, r)] + \
                [list(s) for s in it.combinations(w12, 3)]
    else:
        subsC = [list(s) for r in range(1, 13) for s in it.combinations(w12, r)]
    for n in (1, 2, 3):
        out.append({'k': 'dirs', 'kind': 'local1', 'n': n, 'subs': subs1 + [['Z', 'X'], ['Y', 'Y'], ['Z', 'Y', 'X']]})
    for i in range(0, len(subs2), 32):
        out.append({'k': 'dirs', 'kind': 'local2', 'n': 2, 'subs': subs2[i:i + 32]})
    out.append({'k': 'dirs', 'kind': 'local2', 'n': 2, 'subs': [['ZZ', 'XX'], ['YX', 'XY', 'YX']]})
    out.append({'k': 'dirs', 'kind': 'local2', 'n': 4, 'subs': [['ZZ', 'XX'], ['YX'], ['XY', 'ZY']]})
    for i in range(0, len(subsC), 20):
        out.append({'k': 'dirs', 'kind': 'custom', 'n': 2, 'subs': subsC[i:i + 20]})
    out.append({'k': 'dirs', 'kind': 'custom', 'n': 1, 'subs': subs1 + [['ZZ', 'X']]})
    out.append({'k': 'dirs', 'kind': 'custom', 'n': 3, 'subs': [['ZZ', 'X'], ['YX'], ['XY', 'ZY', 'Y'], ['Z']]})
    # larger registers
    for kind, n in (('local1', 5), ('local1', 6), ('custom', 5), ('local2', 6)) + (() if q else (('custom', 6), ('local1', 7))):
        for tr in (False, True):
            out.append({'k': 'large', 'kind': kind, 'n': n, 'tr': tr})
    # histories
    for kind in kinds:
        for n in (1, 2) if kind != 'local2' else (2,):
            for tr in (False, True):
                for first in range(7):
                    out.append({'k': 'hist', 'kind': kind, 'n': n, 'tr': tr, 'first': first, 'depth': 3 if q else 4})
    return out


def one(layer, kind, n, dirs, tr, eta, mats, U, rec, tag):
    before = U.copy()
    U = o.reuse(U)
    V = layer(U)
    want = reference(kind, n, dirs, tr, eta, mats, before)
    rec.check(isinstance(V, np.ndarray) and o.close(V, want, 1e-8), '%s n=%d dirs=%s trotterize=%s eta=%s: step from %s', kind, n,
              dirs, tr, eta, tag)
    rec.check(np.array_equal(U, before), 'input unitary modified')
    rec.step()
    rec.outcome(o.canon_state(V[:, 0], 4))
    return V


def run_case(c, rec):
    n, kind = c['n'], c['kind']
    dev = L.device(n)
    ol = obs_lists(n)
    if c['k'] == 'states':
        specs = ol[c['oi']]
        mats = matrices(specs, n)
        sts = states(n, 'generic')
        if n <= 2:
            sts += states(n, range(len(o.stabilizer_circuits(n))))
        elif n == 3:
            sts += states(n, range(c['oi'], 1080, 60 if not c['all'] else 20))
        if n == 4:
            sts = sts[:2]
        sts += [('near%d %g' % (i, eps), o.circuit_unitary(ops, n)) for eps in ((1e-3, 3e-6) if n < 4 else (3e-6,))
                for i, ops in enumerate(o.near_circuits(n, eps)[:3 if n < 4 else 1])]
        layers = [(eta, make(kind, dev, o.obs_list(specs), None, c['tr'], eta))
                  for eta in (ETAS if n < 3 else [0.1, 1.0])]
        # default step size and default trotterize
        if not c['tr']:
            layers.append((0.1, make(kind, dev, o.obs_list(specs), None, None, None)))
        for eta, layer in layers:
            for tag, U in sts:
                rec.path = [specs, eta, tag]
                V = one(layer, kind, n, None, c['tr'], eta, mats, U, rec, tag)
                rec.state((kind, n, c['tr'], c['oi'], eta, tag))
            rec.trace()
        if not c['tr'] and n < 3:
            obs = [qml.Hermitian(HM, wires=n - 1), qml.PauliY(0)]
            layer = make(kind, dev, obs, None, c['tr'], 0.7)
            for tag, U in sts[:12]:
                one(layer, kind, n, None, c['tr'], 0.7, [o.embed(HM, (n - 1,), n), o.embed(o.Y, (0,), n)], U, rec, tag)
            layer = make(kind, dev, [qml.Hermitian(30 * HM, wires=n - 1)], None, c['tr'], 0.7)    # large gradients
            for tag, U in sts[:6]:
                one(layer, kind, n, None, c['tr'], 0.7, [o.embed(30 * HM, (n - 1,), n)], U, rec, tag)
        rec.example({'kind': kind, 'n': n, 'observables': specs, 'states': len(sts)})
    elif c['k'] == 'large':
        specs = [[('Y', n - 1), ('X', 0), ('Z', n - 3)], [('Z', n - 2), ('Z', 1)]]
        layer = make(kind, dev, o.obs_list(specs), None, c['tr'], 1.0)
        for tag, U in states(n, 'generic')[:1]:
            rec.path = [specs, tag]
            one(layer, kind, n, None, c['tr'], 1.0, matrices(specs, n), U, rec, tag)
            rec.state((kind, n, c['tr'], tag))
        rec.trace()
    elif c['k'] == 'dirs':
        specs = ol[2]
        mats = matrices(specs, n)
        g = states(n, 'generic')[:2]
        for dirs in c['subs']:
            for tr in (False, True):
                if kind == 'custom' and n == 1 and not any(len(d) == 1 for d in dirs):
                    continue
                layer = make(kind, dev, o.obs_list(specs), list(dirs), tr, 0.6)
                for tag, U in g[:1 if n > 2 else 2]:
                    rec.path = [dirs, tr, tag]
                    one(layer, kind, n, dirs, tr, 0.6, mats, U, rec, tag)
                rec.state((kind, n, tuple(dirs), tr))
            rec.trace()
        rec.example({'kind': kind, 'n': n, 'directions': c['subs'][-1]})
    else:
        specs = ol[1]
        mats = matrices(specs, n)
        g = states(n, 'generic') + states(n, [0, 1])
        # menu: call on one of 3 fixed states, call on the previous result, change the step size
        menu = [('call', 0), ('call', 1), ('call', 3), ('prev', None), ('eta', 0.0), ('eta', 0.87654321), ('eta', 0.000123456), ('eta', 1.0)]
        for rest in it.product(range(len(menu)), repeat=c['depth'] - 1):
            layer = make(kind, dev, o.obs_list(specs), None, c['tr'], 0.4)
            eta = 0.4
            prev = g[2][1]
            old = []
            rec.path = [menu[c['first']]] + [menu[i] for i in rest]
            for i in (c['first'],) + rest:
                op, x = menu[i]
                if op == 'eta':
                    layer.set_eta(x)
                    eta = x
                    continue
                U = g[x][1] if op == 'call' else prev
                prev = one(layer, kind, n, None, c['tr'], eta, mats, U.copy(), rec, rec.path)
                for a, b in old:
                    rec.check(np.array_equal(a, b), 'an earlier result was overwritten')
                old.append((prev, prev.copy()))
                rec.state((kind, n, c['tr'], (c['first'],) + rest))
            rec.trace()
