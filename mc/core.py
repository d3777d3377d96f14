"""Core of the model-checking framework.

A check is a module with

    PROPERTY   id
    RULE       one line: what is enumerated and what the oracle is
    cases(tier) -> list of JSON-able case descriptors (a finite, deterministic enumeration)
    run_case(case, rec)   explores everything below `case` on the real code of /repo

`run_case` reports through a Recorder:

    rec.state(key)        a distinct model/implementation state (or checked configuration)
    rec.step(n)           n transitions executed on the real code and compared with the oracle
    rec.trace(n)          n complete executions whose observations were compared with the oracle
    rec.outcome(key)      a distinct observed outcome (guards against vacuous exploration)
    rec.check(cond, msg)  the property; a false condition is a violation

Cases are distributed over forked workers.  The set of cases, and every exploration below a case, is
deterministic, so the verdict does not depend on scheduling, on the clock or on a seed.
"""
import hashlib
import json
import os
import pickle
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('ORANSSI_REPO', '/repo')
CASE_LIMIT_S = 300          # a single case needs seconds; beyond this the code does not terminate
NPROC = int(os.environ.get('MC_NPROC', '8'))
MAX_VIOLATIONS = 3


class Violation(Exception):
    pass


class CaseTimeout(Exception):
    pass


def h64(key):
    return struct.unpack('<q', hashlib.blake2b(repr(key).encode(), digest_size=8).digest())[0]


class Recorder(object):
    def __init__(self):
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.caps = []
        self.sample = None
        self.path = []          # the operations executed so far below the case (for the replay file)

    def state(self, key):
        self.states.add(h64(key))

    def outcome(self, key):
        self.outcomes.add(h64(key))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def cap(self, what):
        self.caps.append(what)

    def check(self, cond, msg, *args):
        if not cond:
            raise Violation(msg % args if args else msg)

    def example(self, x):
        if self.sample is None:
            self.sample = x


class _Null(object):
    encoding = 'utf-8'

    def write(self, s):
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


def _on_alarm(signum, frame):
    raise CaseTimeout()


def run_one(mod, case, limit=CASE_LIMIT_S):
    """Run one case; returns a result dict."""
    rec = Recorder()
    viol = None
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(limit)
    try:
        mod.run_case(case, rec)
    except Violation as e:
        viol = {'kind': 'property', 'message': str(e), 'traceback': traceback.format_exc()}
    except CaseTimeout:
        viol = {'kind': 'timeout', 'message': 'no answer within %d s' % limit,
                'traceback': traceback.format_exc()}
    except Exception as e:
        viol = {'kind': 'exception', 'message': '%s: %s' % (type(e).__name__, e),
                'traceback': traceback.format_exc()}
    finally:
        signal.alarm(0)
    return {'states': rec.states, 'outcomes': rec.outcomes, 'transitions': rec.transitions,
            'traces': rec.traces, 'caps': rec.caps, 'sample': rec.sample, 'violation': viol,
            'path': [str(p) for p in rec.path][-200:]}


# ------------------------------------------------------------------------------------ fresh processes

def fresh(fn, items, nproc=8):
    """fn(item) for every item, each in its own forked child (nothing an earlier item did is visible).
    -> list of ('ok', result) or ('error', traceback)"""
    out = [None] * len(items)
    todo = list(range(len(items)))[::-1]
    live = {}
    while todo or live:
        while todo and len(live) < nproc:
            i = todo.pop()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    sys.stdout = _Null()
                    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
                    try:
                        res = ('ok', fn(items[i]))
                    except BaseException:
                        res = ('error', traceback.format_exc())
                    with os.fdopen(w, 'wb') as f:
                        pickle.dump(res, f, 2)
                finally:
                    os._exit(0)
            os.close(w)
            live[r] = (pid, i, [])
        for r in select.select(list(live), [], [])[0]:
            d = os.read(r, 1 << 20)
            pid, i, buf = live[r]
            if d:
                buf.append(d)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del live[r]
            b = b''.join(buf)
            out[i] = pickle.loads(b) if b else ('error', 'the process died')
    return out


# ------------------------------------------------------------------------------------------- pool

def _worker(mod, cases, rfd, wfd):
    sys.stdout = _Null()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    r = os.fdopen(rfd, 'rb', 0)
    w = os.fdopen(wfd, 'wb')
    try:
        while True:
            b = r.read(4)
            if len(b) < 4:
                break
            i = struct.unpack('<i', b)[0]
            t0 = time.time()
            res = run_one(mod, cases[i])
            res['i'] = i
            res['t'] = time.time() - t0
            data = pickle.dumps(res, 2)
            w.write(struct.pack('<q', len(data)))
            w.write(data)
            w.flush()
    finally:
        os._exit(0)


class Pool(object):
    def __init__(self, mod, cases, nproc):
        self.mod, self.cases = mod, cases
        self.procs = {}
        for _ in range(nproc):
            self.spawn()

    def spawn(self):
        c2p_r, c2p_w = os.pipe()
        p2c_r, p2c_w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(c2p_r)
            os.close(p2c_w)
            for pr in self.procs.values():
                os.close(pr['r'])
                os.close(pr['w'])
            _worker(self.mod, self.cases, p2c_r, c2p_w)
        os.close(c2p_w)
        os.close(p2c_r)
        self.procs[pid] = {'r': c2p_r, 'w': p2c_w, 'case': None, 'since': None, 'buf': b''}

    def kill(self):
        for pid, pr in list(self.procs.items()):
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(pid, 0)
            os.close(pr['r'])
            os.close(pr['w'])
        self.procs = {}

    def run(self, deadline, on_result):
        todo = list(range(len(self.cases)))[::-1]
        pending = 0
        stop = False
        try:
            while (todo and not stop) or pending:
                for pid, pr in self.procs.items():
                    if pr['case'] is None and todo and not stop:
                        i = todo.pop()
                        pr['case'], pr['since'] = i, time.time()
                        os.write(pr['w'], struct.pack('<i', i))
                        pending += 1
                rl, _, _ = select.select([pr['r'] for pr in self.procs.values()], [], [], 1.0)
                for pid, pr in list(self.procs.items()):
                    if pr['r'] in rl:
                        d = os.read(pr['r'], 1 << 20)
                        if not d:       # the worker died (crash, memory)
                            os.waitpid(pid, 0)
                            os.close(pr['r'])
                            os.close(pr['w'])
                            del self.procs[pid]
                            if pr['case'] is not None:
                                pending -= 1
                                if not on_result(self._dead(pr['case'], 'the process died')):
                                    stop = True
                            self.spawn()
                            continue
                        pr['buf'] += d
                        while len(pr['buf']) >= 8:
                            n = struct.unpack('<q', pr['buf'][:8])[0]
                            if len(pr['buf']) < 8 + n:
                                break
                            res = pickle.loads(pr['buf'][8:8 + n])
                            pr['buf'] = pr['buf'][8 + n:]
                            pr['case'] = None
                            pending -= 1
                            if not on_result(res):
                                stop = True
                    elif pr['case'] is not None and time.time() - pr['since'] > CASE_LIMIT_S + 30:
                        i = pr['case']
                        os.kill(pid, signal.SIGKILL)
                        os.waitpid(pid, 0)
                        os.close(pr['r'])
                        os.close(pr['w'])
                        del self.procs[pid]
                        pending -= 1
                        if not on_result(self._dead(i, 'no answer')):
                            stop = True
                        self.spawn()
                if stop:
                    break
                if time.time() > deadline:
                    return len(todo) + pending
            return 0
        finally:
            self.kill()

    def _dead(self, i, why):
        return {'states': set(), 'outcomes': set(), 'transitions': 0, 'traces': 0, 'caps': [],
                'sample': None, 'i': i, 't': 0., 'path': [],
                'violation': {'kind': 'timeout', 'message': why, 'traceback': ''}}


# ---------------------------------------------------------------------------------------- driver

def jsonable(x):
    try:
        json.dumps(x)
        return x
    except TypeError:
        return repr(x)


def load_known(pid):
    """Known findings: lines JSON objects with property, case, message, what (one per line)."""
    out = []
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith('#') or line.startswith('fixed:'):
                continue
            d = json.loads(line)
            if d.get('property') == pid:
                out.append(d)
    return out


def drive(mod, tier, budget_s, nproc=8, replay=None):
    t0 = time.time()
    pid = mod.PROPERTY
    ev_dir = os.path.join(VERIF, 'evidence')
    os.makedirs(ev_dir, exist_ok=True)
    if replay:
        d = json.load(open(replay))
        real = sys.stdout
        sys.stdout = _Null()
        res = run_one(mod, d['case'])
        sys.stdout = real
        if res['violation']:
            print(res['violation']['traceback'])
            print('VIOLATION property=%s replay=%s' % (pid, replay))
            return 1
        print('replay: no violation')
        return 0

    cases = mod.cases(tier)
    known = load_known(pid)
    tot = {'states': set(), 'outcomes': set(), 'transitions': 0, 'traces': 0, 'caps': set()}
    viols, samples, knowns = [], [], []
    tmax = [0., None]
    done = [0]

    def on_result(r):
        done[0] += 1
        tot['states'] |= r['states']
        tot['outcomes'] |= r['outcomes']
        tot['transitions'] += r['transitions']
        tot['traces'] += r['traces']
        tot['caps'] |= set(r['caps'])
        if r['t'] > tmax[0]:
            tmax[0], tmax[1] = r['t'], cases[r['i']]
        if r['sample'] is not None and len(samples) < 400:
            samples.append((r['i'], r['sample']))
        if r['violation']:
            for k in known:
                if k['case'] == cases[r['i']] and k['message'] in r['violation']['message']:
                    knowns.append(k)
                    return True
            viols.append((r['i'], r['violation'], r['path']))
            return len(viols) < MAX_VIOLATIONS
        return True

    pool = Pool(mod, cases, min(nproc, max(1, len(cases))))
    left = pool.run(t0 + budget_s, on_result)
    samples.sort(key=lambda s: s[0])
    n = len(samples)
    samples = [samples[i][1] for i in sorted(set([0, n // 3, n // 2, (2 * n) // 3, n - 1])) if 0 <= i < n]
    cov = {'states': len(tot['states']), 'transitions': tot['transitions'],
           'traces_validated_against_impl': tot['traces'],
           'cases': len(cases), 'cases_completed': done[0],
           'distinct_outcomes': len(tot['outcomes']),
           'rule': mod.RULE, 'samples': [jsonable(s) for s in samples] or [jsonable(cases[0])],
           'exhaustive': left == 0 and not viols and not tot['caps'],
           'caps_hit': sorted(tot['caps']), 'cases_not_reached_in_time': left,
           'slowest_case_s': round(tmax[0], 2)}
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
          'level': 'model_checking', 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(viols)}
    with open(os.path.join(ev_dir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: cases=%d/%d states=%d transitions=%d traces=%d outcomes=%d wall=%.1fs slowest=%.1fs %s'
          % (pid, tier, done[0], len(cases), cov['states'], cov['transitions'], tot['traces'],
             cov['distinct_outcomes'], ev['wall_s'], tmax[0], tmax[1] if tmax[0] > 20 else ''))
    if left:
        print('NOTE: %d cases not reached within the time budget' % left)
    for k in knowns:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if viols:
        viols.sort(key=lambda v: v[0])
        i, v, path = viols[0]
        rp = os.path.join(ev_dir, 'replay_%s.json' % pid)
        with open(rp, 'w') as f:
            json.dump({'property': pid, 'case': cases[i], 'violation': v, 'history': path,
                       'how': './run.sh %s --replay <this file>' % pid}, f, indent=1)
        print(v['traceback'])
        print('case: %s' % json.dumps(cases[i]))
        print('history: %s' % path)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


# ------------------------------------------------------------------------- choice-tree exploration

class Diverged(Exception):
    pass


class Chooser(object):
    """Owns the nondeterministic answers of one execution: replays a prefix, then answers 0."""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.points = []          # number of alternatives at each point
        self.choices = []

    def __call__(self, n):
        n = int(n)
        i = len(self.points)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                raise Diverged('choice %d of %d at point %d' % (c, n, i))
        else:
            c = 0
        self.points.append(n)
        self.choices.append(c)
        return c


def explore(run, bound=None, max_runs=None, rec=None, horizon=None):
    """Run `run(chooser)` for every sequence of answers with at most `bound` deviations from answer 0
    (None: no bound), deviating only within the first `horizon` points (None: anywhere).
    Iterates depth first, simplest first; returns (runs, capped)."""
    stack = [()]
    runs = 0
    while stack:
        prefix = stack.pop()
        ch = Chooser(prefix)
        run(ch)
        runs += 1
        if max_runs is not None and runs >= max_runs and stack:
            if rec is not None:
                rec.cap('max_runs=%d' % max_runs)
            return runs, True
        dev = sum(1 for c in ch.choices[:len(prefix)] if c)
        new = []
        for i in range(len(prefix), len(ch.points) if horizon is None else min(horizon, len(ch.points))):
            if bound is not None and dev >= bound:
                break
            for alt in range(1, ch.points[i]):
                new.append(tuple(ch.choices[:i]) + (alt,))
        stack.extend(reversed(new))
    return runs, False


# ------------------------------------------------------------------------------------------ scratch

class Scratch(object):
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix='oranssi_mc_')
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)
