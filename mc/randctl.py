"""Control of the random sources used by the code under test (inside the check process only)."""
import random
import numpy as np


class PyRandom(object):
    """Every bounded draw of Python's `random` module (choice, randint, shuffle, sample...) asks `chooser(n)`."""

    def __init__(self, chooser):
        self.chooser = chooser

    def __enter__(self):
        inst = random._inst
        self.saved = inst.__dict__.get('_randbelow', None)
        ch = self.chooser
        inst._randbelow = lambda n, *a: ch(n)
        return self

    def __exit__(self, *a):
        inst = random._inst
        if self.saved is None:
            try:
                del inst._randbelow
            except AttributeError:
                pass
        else:
            inst._randbelow = self.saved


class NpRandom(object):
    """numpy.random.{choice,permutation,randint,shuffle} ask `chooser(n)`."""

    NAMES = ('choice', 'permutation', 'randint', 'shuffle')

    def __init__(self, chooser):
        self.chooser = chooser

    def _draw_distinct(self, n, k):
        pool = list(range(n))
        out = []
        for _ in range(k):
            out.append(pool.pop(self.chooser(len(pool)) if len(pool) > 1 else 0))
        return out

    def __enter__(self):
        ch = self.chooser
        self.saved = {k: getattr(np.random, k) for k in self.NAMES}

        def one(n):
            return ch(n) if n > 1 else 0

        def choice(a, size=None, replace=True, p=None):
            arr = np.arange(a) if isinstance(a, (int, np.integer)) else np.asarray(a)
            n = len(arr)
            if n == 0:
                raise ValueError("'a' cannot be empty unless no samples are taken")
            ok = list(range(n)) if p is None else [i for i in range(n) if p[i] > 0]
            if size is None:
                return arr[ok[one(len(ok))]]
            k = int(np.prod(size))
            if replace:
                idx = [ok[one(len(ok))] for _ in range(k)]
            else:
                idx = [ok[i] for i in self._draw_distinct(len(ok), k)]
            return arr[idx].reshape(size)

        def permutation(x):
            arr = np.arange(x) if isinstance(x, (int, np.integer)) else np.array(x)
            return arr[self._draw_distinct(len(arr), len(arr))] if len(arr) else arr

        def randint(low, high=None, size=None, dtype=int):
            lo, hi = (0, low) if high is None else (low, high)
            if size is None:
                return lo + one(hi - lo)
            return np.array([lo + one(hi - lo) for _ in range(int(np.prod(size)))]).reshape(size)

        def shuffle(x):
            idx = self._draw_distinct(len(x), len(x))
            vals = [x[i] for i in idx]
            for i, v in enumerate(vals):
                x[i] = v
        np.random.choice, np.random.permutation = choice, permutation
        np.random.randint, np.random.shuffle = randint, shuffle
        return self

    def __exit__(self, *a):
        for k, v in self.saved.items():
            setattr(np.random, k, v)


class NpNormal(object):
    """numpy's normal draws return `values` (a matrix, or a function of the requested shape)."""

    def __init__(self, values):
        self.values = values if callable(values) else (lambda shape: np.array(values, dtype=float).reshape(shape))

    def __enter__(self):
        self.saved = {k: getattr(np.random, k) for k in ('randn', 'standard_normal', 'normal')}
        v = self.values

        def shp(size):
            return () if size is None else (size,) if isinstance(size, (int, np.integer)) else tuple(size)
        np.random.randn = lambda *s: v(tuple(s))
        np.random.standard_normal = lambda size=None: v(shp(size))
        np.random.normal = lambda loc=0.0, scale=1.0, size=None: loc + scale * v(shp(size))
        return self

    def __exit__(self, *a):
        for k, f in self.saved.items():
            setattr(np.random, k, f)
