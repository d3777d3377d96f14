"""C24: concurrent creation of result directories, all interleavings at file-system calls."""
import itertools as it
import os
import shutil
import threading
import numpy as np
from oranssi import utils
from mc import core

PROPERTY = 'C24'
RULE = ('interleavings of 2 callers (all of them where one level is missing, otherwise preemption bound 3, 5 thorough) and of 3 callers '
        '(preemption bound 2, 3 thorough) at every file-system primitive '
        '(stat, mkdir, rmdir, rename, ...) the implementation performs, x initial directory trees (also with symbolic links) x paths (also unusual names, taken literally), in a scratch directory')
ASSUMPTIONS = ['one file-system primitive is atomic; nobody removes directories meanwhile; no file occupies a path component']

PRIMS = ('stat', 'lstat', 'mkdir', 'rmdir', 'rename', 'replace', 'unlink', 'remove', 'symlink', 'link', 'open', 'listdir', 'scandir', 'access',
         'chmod')


class Deadlock(Exception):
    pass


class Sched(object):
    """Runs threads one at a time; a thread gives up control before each of its primitives."""

    def __init__(self, chooser):
        self.ch = chooser
        self.cv = threading.Condition()
        self.turn = None
        self.me = {}
        self.alive = set()
        self.ready = set()
        self.last = None
        self.ops = 0
        self.trace = []
        self.quiet = set()

    def point(self, what):
        t = self.me.get(threading.get_ident())
        if t is None or t in self.quiet:
            return
        with self.cv:
            self.ready.add(t)
            self.turn = None
            self.cv.notify_all()
            while self.turn != t:
                self.cv.wait()
            self.ready.discard(t)
            self.ops += 1
            self.trace.append((t, what))

    def thread(self, t, fn, res):
        def body():
            self.me[threading.get_ident()] = t
            try:
                self.point('start')
                res[t] = ('ok', fn())
            except BaseException as e:
                res[t] = ('error', '%s: %s' % (type(e).__name__, e))
            finally:
                with self.cv:
                    self.alive.discard(t)
                    self.turn = None
                    self.cv.notify_all()
        return threading.Thread(target=body, daemon=True)

    def run(self, fns):
        res = {}
        self.alive = set(range(len(fns)))
        ts = [self.thread(i, f, res) for i, f in enumerate(fns)]
        for t in ts:
            t.start()
        with self.cv:
            while True:
                while not (self.turn is None and self.alive <= self.ready):
                    self.cv.wait()
                if not self.alive:
                    break
                en = sorted(self.alive)
                if self.last in en:         # answer 0: no preemption
                    en.remove(self.last)
                    en.insert(0, self.last)
                t = en[self.ch(len(en))] if len(en) > 1 else en[0]
                self.last = t
                self.ready.discard(t)
                self.turn = t
                self.cv.notify_all()
        for t in ts:
            t.join()
        return res


class Patched(object):
    def __init__(self, sched):
        self.s = sched

    def __enter__(self):
        self.saved = {}
        for p in PRIMS:
            f = getattr(os, p, None)
            if f is None:
                continue
            self.saved[p] = f

            def w(*a, _f=f, _p=p, **k):
                self.s.point(_p)
                return _f(*a, **k)
            setattr(os, p, w)
        import pathlib
        self.acc = getattr(pathlib, '_NormalAccessor', None)
        self.sacc = {}
        if self.acc is not None:
            for p in PRIMS:
                v = self.acc.__dict__.get(p)
                if v is not None:
                    self.sacc[p] = v
                    setattr(self.acc, p, staticmethod(getattr(os, p)))
        return self

    def __exit__(self, *a):
        for p, f in self.saved.items():
            setattr(os, p, f)
        for p, v in self.sacc.items():
            setattr(self.acc, p, v)


# initial trees: list of (relative path, content or None for a directory)
TREES = {'empty': [], 'base': [('base', None)], 'full': [('base', None), ('base/exp', None), ('base/exp/data.txt', 'keep'), ('base/exp/sub', None),
                                                           ('base/exp/sub/x', '1')],
         'deep': [('base', None), ('base/a', None), ('base/a/other.txt', 'o')]}
# (base, name): relative to the scratch directory
PATHS = [('base', 'exp'), ('base/a', 'exp'), ('base/a/b', 'exp'), ('base', 'a/b'), ('base/', 'exp'), ('base', ''), ('.', 'exp'), ('base/./a', 'exp/')]


# unusual names, all of which are to be taken literally; used with one and two callers
ODD = [('~', 'exp'), ('base', '~'), ('$HOME', 'exp'), ('base', '$HOME'), ('base', 'exp.txt'), ('base', '.hidden'), ('base', 'v1.0'), ('Base', 'Exp'),
       ('base', 'with space '), ('base', '*?[x]'), ('base', '%s{0}'), ('base', 'a//b'), ('base', '../exp'), ('base', '..'), ('', 'exp'),
       ('base', 'e' * 200), ('a/b/c/d/e/f', 'g/h'), ('link', 'exp'), ('link/../real', 'exp'), ('base', 'to'), ('base/to', 'x'), ('base', '-p'), ('base', '0'),
       ('base', 'a\\b'), ('base', 'exp\n')]
N = len(PATHS)
PATHS = PATHS + ODD
TREES['links'] = [('real', None), ('real/keep', '1'), ('link', ('real',)), ('base', None), ('base/to', ('../real',))]


def build(root, tree):
    for p, c in TREES[tree]:
        q = os.path.join(root, p)
        if isinstance(c, tuple):
            os.symlink(c[0], q)
        elif c is None:
            os.mkdir(q)
        else:
            with open(q, 'w') as f:
                f.write(c)


def content(root, tree):
    out = []
    for p, c in TREES[tree]:
        q = os.path.join(root, p)
        if isinstance(c, tuple):
            out.append(os.path.islink(q) and os.readlink(q) == c[0])
        elif c is None:
            out.append(os.path.isdir(q))
        else:
            out.append(os.path.isfile(q) and open(q).read() == c)
    return all(out)


def cases(tier):
    q = tier == 'quick'
    out = []

    def add(t, calls, rep, bound, runs):
        for ab in (0, 1):
            out.append({'tree': t, 'calls': list(calls), 'rep': rep, 'bound': bound, 'abs': ab, 'runs': runs})
    lim = 3000 if q else 60000
    for i in range(N, len(PATHS)):
        for t in ('empty', 'links'):
            add(t, [i], 3, None, lim)
            add(t, [i, i], 1, 1 if q else 2, lim)
    for t in TREES:
        for i, p in enumerate(PATHS[:N]):
            add(t, [i], 3, None, lim)
            add(t, [i, i], 1, 3 if q else 5, lim)
        for i, j in it.combinations(range(5), 2):
            add(t, [i, j], 1, 3 if q else 5, lim)
        for i, j in [(0, 0), (1, 1), (1, 3)]:
            add(t, [i, j], 2, 2 if q else 3, lim)
        for tr in [(0, 0, 0), (1, 1, 1), (0, 1, 2), (1, 2, 3), (2, 2, 0)] + ([] if q else [(2, 2, 2), (3, 3, 3), (0, 0, 1)]):
            add(t, tr, 1, 2 if q else 3, lim)
    for t in ('base', 'deep', 'full'):      # one level to create: every interleaving
        add(t, [0, 0], 1, None, lim)
        add(t, [0, 4], 1, None, lim)
    return out


def run_case(c, rec):
    with core.Scratch() as top:
        k = [0]

        def run(ch):
            root = os.path.join(top, 'r%d' % k[0])
            k[0] += 1
            os.mkdir(root)
            build(root, c['tree'])
            cwd = os.getcwd()
            home = os.environ.get('HOME')
            os.chdir(root)
            os.environ['HOME'] = os.path.join(root, 'home')
            absolute = c['abs']
            try:
                s = Sched(ch)

                def caller(i):
                    b, nm = PATHS[i]
                    b2 = os.path.join(root, b) if absolute else b

                    def f():
                        r = []
                        for _ in range(c['rep']):
                            p = utils.save_path_creator(b2, nm)
                            t = s.me[threading.get_ident()]
                            s.quiet.add(t)          # the observation itself is no scheduling point
                            r.append((p, os.path.isdir(p)))
                            s.quiet.discard(t)
                        return r
                    return f
                with Patched(s):
                    res = s.run([caller(i) for i in c['calls']])
                tag = 'tree %s calls %s interleaving %s' % (c['tree'], [PATHS[i] for i in c['calls']], s.trace)
                rec.path = [tag]
                for t, i in enumerate(c['calls']):
                    b, nm = PATHS[i]
                    b2 = os.path.join(root, b) if absolute else b
                    kind, v = res[t]
                    rec.check(kind == 'ok', '%s: caller %d failed with %s', tag, t, v)
                    for p, isd in v:
                        rec.check(os.path.normpath(os.fspath(p)) == os.path.normpath(os.path.join(b2, nm)), '%s: returned %s', tag, p)
                        rec.check(isd and os.path.isdir(p), '%s: the directory does not exist on return', tag)
                        rec.check(os.path.isdir(os.path.join(root, b, nm)), '%s: another directory was created', tag)
                rec.check(content(root, c['tree']), '%s: existing content was changed', tag)
                if c['calls'] == [0] and c['tree'] == 'full':
                    rec.check(sorted(os.listdir(os.path.join(root, 'base/exp'))) == ['data.txt', 'sub'], '%s: extra entries', tag)
                rec.step(s.ops)
                rec.trace()
                rec.state((c['tree'], tuple(c['calls']), tuple(s.trace)))
                rec.outcome(sorted(str(x) for x in res.values()) and (c['tree'], tuple(c['calls']), len(s.trace)))
                rec.example({'tree': c['tree'], 'calls': c['calls'], 'interleaving': [list(x) for x in s.trace]})
            finally:
                os.chdir(cwd)
                os.environ['HOME'] = home or '/root'
                shutil.rmtree(root, ignore_errors=True)
        core.explore(run, c['bound'], c['runs'], rec)
