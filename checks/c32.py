"""C32: cost landscapes and label sizes."""
import itertools as it
import logging
import numpy as np
import matplotlib
import matplotlib.pyplot as plt
from oranssi.plot_utils import plot_bloch_sphere_2d, change_label_fontsize
from mc import oracle as o

logging.getLogger('matplotlib').setLevel(logging.ERROR)
PROPERTY = 'C32'
RULE = ('all landscapes a*phi + b*theta + c over a grid of coefficients x grids of different sizes; every vertex of the filled contours is '
        'read back and must lie on its level of the landscape or on the border; label sizes: all states of an axes object (labels, '
        'ticks, limits) x sizes, repeated changes included')
AB = [(1, 0), (0, 1), (1, -2), (-1.5, -0.5), (0.3, 2)]
GRIDS = [(3, 4), (7, 5), (2, 9), (12, 12)]


def cases(tier):
    q = tier == 'quick'
    out = []
    for ab in range(len(AB)):
        for g in range(len(GRIDS)):
            out.append({'k': 'land', 'ab': ab, 'g': g})
    for first in range(4):
        out.append({'k': 'font', 'first': first, 'len': 2 if q else 3})
    return out


def land(c, rec):
    a, b = AB[c['ab']]
    K, Lq = GRIDS[c['g']]
    # the last two: grids that run downwards
    for p0, p1, t0, t1, off in ((0, 2 * np.pi, 0, np.pi, 0.0), (-1.0, 2.0, 0.5, 0.75, 3.0), (2.0, -1.0, 0.1, 0.9, 0.0), (0.3, 1.4, 3.0, 0.2, -1.0)):
        phi, theta = np.linspace(p0, p1, K), np.linspace(t0, t1, Lq)
        costs = a * phi[None, :] + b * theta[:, None] + off
        keep = phi.copy(), theta.copy(), costs.copy()
        plt.close('all')
        fig, ax = plt.subplots(1, 1)
        plot_bloch_sphere_2d(phi, theta, costs, ax, fig)
        tag = 'landscape %s phi + %s theta on a %dx%d grid' % (a, b, K, Lq)
        rec.check(all(np.array_equal(x, y) for x, y in zip(keep, (phi, theta, costs))), '%s: an argument was changed', tag)
        fig.canvas.draw()
        rec.check(len(fig.axes) == 2, '%s: %d axes, expected the plot and a colour bar', tag, len(fig.axes))
        (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
        rec.check(o.close([x0, x1, y0, y1], [min(p0, p1), max(p0, p1), min(t0, t1), max(t0, t1)], 1e-9), '%s: the plot spans %s', tag, [x0, x1, y0, y1])
        rec.check('phi' in ax.get_xlabel() and 'theta' in ax.get_ylabel(), '%s: labels %r, %r', tag, ax.get_xlabel(), ax.get_ylabel())
        lo, hi = fig.axes[1].get_ylim()
        span = costs.max() - costs.min()
        rec.check(lo <= costs.min() + 0.3 * span and hi >= costs.max() - 0.3 * span, '%s: the colour bar covers [%s, %s], the costs [%s, %s]', tag, lo, hi, costs.min(), costs.max())
        inner = 0
        bands = []
        for col in ax.collections:
            cs = []
            for path in col.get_paths():
                for x, y in path.vertices:
                    v = a * x + b * y + off
                    border = min(abs(x - p0), abs(x - p1), abs(y - t0), abs(y - t1)) < 1e-9
                    cs.append((v, border))
            if cs:
                bands.append(cs)
        levels = set()
        for cs in bands:
            vs = [v for v, br in cs if not br]
            lohi = (min(v for v, _ in cs), max(v for v, _ in cs))
            # inner vertices of a band lie on one of the two levels that bound it
            for v in vs:
                rec.check(min(abs(v - lohi[0]), abs(v - lohi[1])) < 1e-6 * max(1, span), '%s: a contour of value %s inside the band %s', tag, v, lohi)
                levels.add(round(v, 6))
                inner += 1
            rec.step(len(cs))
            rec.state((tag, p0, lohi))
        rec.check(len(bands) >= 3, '%s: only %d bands', tag, len(bands))
        if K > 2 and Lq > 2:
            rec.check(inner > 0, '%s: no contour inside the plot', tag)
        rec.trace()
        plt.close('all')
    rec.example({'coefficients': AB[c['ab']], 'grid': GRIDS[c['g']]})


ACTIONS = ['12', '20', '5', 'plot', 'title', 'xlabel', 'ticks', 'lim', 'other7', 'many']


def font(c, rec):
    for hist in it.product(range(len(ACTIONS)), repeat=c['len']):
        hist = (c['first'],) + hist
        plt.close('all')
        fig, (ax, ax2) = plt.subplots(1, 2)
        title = ax.set_title('t', fontsize=9)
        txt = ax.text(0.5, 0.5, 'note', fontsize=8)
        for h in hist:
            act = ACTIONS[h]
            if act.isdigit():
                change_label_fontsize(ax, int(act))
                items = [ax.xaxis.label, ax.yaxis.label] + ax.get_xticklabels() + ax.get_yticklabels()
                rec.check(all(i.get_fontsize() == int(act) for i in items), 'sizes %s after setting %s (history %s)',
                          sorted(set(i.get_fontsize() for i in items)), act, [ACTIONS[i] for i in hist])
                rec.check(txt.get_fontsize() == 8, 'the size of a text in the plot was changed')
            elif act == 'plot':
                ax.plot([1, 4, 2])
            elif act == 'title':
                ax.set_title('t2', fontsize=9)
            elif act == 'xlabel':
                ax.set_xlabel('new')
            elif act == 'ticks':
                ax.set_xticks([0, 0.5, 1])
                ax.set_xticklabels(['a', 'b', 'c'])
            elif act == 'many':
                ax.set_xticks(np.linspace(-1, 1, 26))
                ax.set_yticks(np.arange(33))
            elif act == 'lim':
                ax.set_xlim(-2, 3)
            else:
                before = [ax.xaxis.label.get_fontsize(), ax.yaxis.label.get_fontsize()] + [i.get_fontsize() for i in ax.get_xticklabels()]
                change_label_fontsize(ax2, 7)
                after = [ax.xaxis.label.get_fontsize(), ax.yaxis.label.get_fontsize()] + [i.get_fontsize() for i in ax.get_xticklabels()]
                rec.check(before == after, 'the sizes of another axes object changed: %s', hist)
            rec.step()
        rec.check(ax.title.get_fontsize() == 9, 'the size of the title was changed')
        rec.state(hist)
        rec.trace()


def run_case(c, rec):
    matplotlib.rcParams['figure.max_open_warning'] = 0
    (land if c['k'] == 'land' else font)(c, rec)
