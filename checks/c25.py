"""C25: the direction plots show the directions."""
import itertools as it
import logging
import numpy as np
import matplotlib.pyplot as plt
from oranssi import plot_utils as pu
from mc import oracle as o
from mc import layers as L

logging.getLogger('matplotlib').setLevel(logging.ERROR)
PROPERTY = 'C25'
RULE = ('every sequence of 1-3 circuits (and runs of 11-24) over stabilizer and generic circuits x observable lists, through the four direction plots; the '
        'curves are read back from the figure and compared with the reference directions')

SPECS = {2: [[[('Z', 0)]], [[('Z', 0), ('Z', 1)], [('X', 0)], [('Y', 1)]], [[('X', 0), ('Y', 1)], [('X', 0), ('Y', 1)]], [[('Y', 0)], [('Z', 1)]]],
         4: [[[('Z', 0), ('Z', 1)], [('X', 2)], [('Y', 1), ('Y', 3)]], [[('X', 0), ('X', 1), ('Z', 2), ('Y', 3)], [('Z', 3)]]]}


def circuits(n):
    if n == 2:
        st = o.stabilizer_circuits(2)
        return [u for _, u in st[::10]] + [o.circuit_unitary(g, 2) for g in o.generic_circuits(2)]
    gen = [o.circuit_unitary(g, 4) for g in o.generic_circuits(4)]
    ghz = [('Hadamard', (), (0,))] + [('CNOT', (), (q, q + 1)) for q in range(3)] + [('S', (), (2,))]
    cl = [('Hadamard', (), (q,)) for q in range(4)] + [('CZ', (), (q, q + 1)) for q in range(3)]
    return [np.eye(16, dtype=complex), o.circuit_unitary(ghz, 4), o.circuit_unitary(cl, 4)] + gen


_dir = {}


def directions(n, ci, si):
    if (n, ci, si) not in _dir:
        phi = circuits(n)[ci][:, 0]
        Hm = o.ham_matrix(SPECS[n][si], n)
        _dir[(n, ci, si)] = {w: o.grad(phi, Hm, o.word(w)) / 2 ** n for w in o.words(n)}
    return _dir[(n, ci, si)]


def curves(ax):
    return {l.get_label(): np.asarray(l.get_ydata(), dtype=float) for l in ax.get_lines()}, [np.asarray(l.get_xdata(), dtype=float) for l in ax.get_lines()], \
        [l.get_label() for l in ax.get_lines()]


def weight_label(k):
    return r'SU$(%d)$' % (2 ** k)


def judge_sums(ax, ds, n, maxw, rec, tag):
    got, xs, labels = curves(ax)
    rec.check(len(labels) == len(set(labels)), '%s: repeated labels %s', tag, labels)
    for k in range(1, maxw + 1):
        want = [sum(abs(v) for w, v in d.items() if n - w.count('I') == k) for d in ds]
        lab = weight_label(k)
        rec.check(lab in got, '%s: no curve %s among %s', tag, lab, labels)
        rec.check(o.close(got[lab], want, 1e-9), '%s: curve %s is %s, expected %s', tag, lab, got[lab], want)
    rec.check(set(labels) == set(weight_label(k) for k in range(1, maxw + 1)) | {'Min.'} and np.all(got['Min.'] == 0)
              and len(got['Min.']) == len(ds), '%s: curves %s', tag, labels)
    for x in xs:
        rec.check(list(x) == list(range(len(ds))), '%s: steps %s', tag, x)


def judge_words(ax, ds, words, rec, tag, omit):
    got, xs, labels = curves(ax)
    rec.check(len(labels) == len(set(labels)), '%s: repeated labels', tag)
    for w in words:
        y = np.array([d[w] for d in ds])
        m = np.abs(y).max()
        if omit and m < 1e-10:
            rec.check(w not in got, '%s: the vanishing word %s is plotted', tag, w)
        elif not omit or m > 1e-6:
            rec.check(w in got, '%s: no curve for %s', tag, w)
            rec.check(o.close(got[w], y, 1e-9), '%s: curve %s is %s, expected %s', tag, w, got[w], y)
    rec.check(set(labels) <= set(words), '%s: unexpected curves %s', tag, sorted(set(labels) - set(words)))
    for x in xs:
        rec.check(list(x) == list(range(len(ds))), '%s: steps %s', tag, x)


def run_one(fn, n, seq, si, rec):
    plt.close('all')
    us = [circuits(n)[i] for i in seq]
    bytes_ = [u.tobytes() for u in us]
    obs = o.obs_list(SPECS[n][si])
    ds = [directions(n, i, si) for i in seq]
    dev = L.device(n)
    tag = '%s circuits %s observables %s' % (fn, seq, SPECS[n][si])
    rec.path = [tag]
    if fn == 'individual':
        fig, ax = pu.plot_su8_directions_individually(us, obs, dev)
        judge_words(ax, ds, [w for w in o.words(2) if w != 'II'], rec, tag, True)
    elif fn == 'su8':
        fig, ax = pu.plot_su8_directions(2, us, obs, dev)
        judge_sums(ax, ds, 2, 2, rec, tag)
    elif fn == 'su16':
        fig, ax = pu.plot_su16_directions(4, us, obs, dev)
        judge_sums(ax, ds, 4, 4, rec, tag)
    else:
        fig, axs = pu.plot_su16_directions_separate(4, us, obs, dev)
        for (r, c), k in (((0, 0), 1), ((0, 1), 2), ((1, 0), 3), ((1, 1), 4)):
            judge_words(axs[r, c], ds, [w for w in o.words(4) if 4 - w.count('I') == k], rec, '%s panel %d%d' % (tag, r, c), False)
    rec.check([u.tobytes() for u in us] == bytes_, '%s: a circuit was changed', tag)
    plt.close('all')
    rec.step(len(seq))
    rec.trace()
    rec.state((fn, seq, si))
    rec.outcome((fn, len(seq)))


def cases(tier):
    q = tier == 'quick'
    out = []
    n2 = len(circuits(2))
    for fn in ('individual', 'su8'):
        for i in range(n2):
            out.append({'fn': fn, 'n': 2, 'first': i, 'pairs': 1 if q else 1, 'triples': not q})
    for fn in ('su16', 'separate'):
        for i in range(6):
            for si in range(2):
                out.append({'fn': fn, 'n': 4, 'first': i, 'si': si, 'pairs': 0 if q and fn == 'separate' else 1})
    for fn, n in (('individual', 2), ('su8', 2), ('su16', 4), ('separate', 4)):
        for si in range(len(SPECS[n])):
            out.append({'fn': fn, 'n': n, 'long': 61 if n == 2 else 17, 'si': si})
    out.sort(key=lambda c: -c['n'])
    return out


def run_case(c, rec):
    fn, n, i = c['fn'], c['n'], c.get('first')
    N = len(circuits(n))
    if 'long' in c:
        run_one(fn, n, tuple((3 * k * k + k) % N for k in range(c['long'])), c['si'], rec)
        run_one(fn, n, (N - 1,) * c['long'] + (0,), c['si'], rec)
        rec.example({'plot': fn, 'steps': c['long']})
        return
    if n == 2:
        for si in range(4):
            run_one(fn, n, (i,), si, rec)
        for j in range(N):
            si = (i + j) % 4
            run_one(fn, n, (i, j), si, rec)
            if c['triples'] or j == i or j == 0:
                run_one(fn, n, (i, j, (i + 3) % N), (si + 1) % 4, rec)
    else:
        run_one(fn, n, (i,), c['si'], rec)
        for j in (range(N) if c['pairs'] else [(i + 1) % N]):
            run_one(fn, n, (i, j), c['si'], rec)
    rec.example({'plot': fn, 'first circuit': i})
