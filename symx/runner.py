"""Explores all paths of the harnesses of a property and decides their
obligations with the solver.

One path of one configuration is one symbolic execution. Work is split over
processes by path prefix. Every candidate violation is replayed on the real
code (the package imported from /repo, the real numpy) before it is reported.
"""

import gc
import io
import json
import os
import pickle
import random
import select
import signal
import struct
import sys
import time
import traceback
from fractions import Fraction

import z3

from . import core, harness
from .core import Engine, Unsupported, PathInfeasible, PathBudget, b_and, b_not, b_or, to_b, rv, SymReal



class Config(object):
    """One bounded question: harness function, concrete shape parameters."""

    def __init__(self, name, fn, kwargs=None, note='', path_s=60, timeout_ms=15000, slice_s=2.0,
                 witness=6, max_forks=4000, weight=1, after=None):
        # after: the configuration of an earlier run in the same process
        self.earlier = None if after is None else (after.fn, after.kwargs)
        self.earlier_values = None
        self.name, self.fn, self.kwargs = name, fn, dict(kwargs or {})
        self.note, self.path_s, self.timeout_ms, self.slice_s = note, path_s, timeout_ms, slice_s
        self.witness, self.max_forks, self.weight = witness, max_forks, weight


def again(configs, *pairs):
    """Configurations (A after B) which run A in a process in which B was run before"""
    by = dict((c.name, c) for c in configs)
    for pair in pairs:
        a, b = pair if isinstance(pair, tuple) else (pair, pair)
        a, b = by[a], by[b]
        c = Config('%s-after-%s' % (a.name, b.name if b is not a else 'itself'), a.fn, a.kwargs, a.note, a.path_s, a.timeout_ms,
                   a.slice_s, min(a.witness, 3), a.max_forks, a.weight, after=b)
        configs.append(c)
    return configs


# ---------------------------------------------------------------------------
# models
# ---------------------------------------------------------------------------

def model_value(m, kind, c):
    v = m.eval(c, model_completion=True)
    if kind == 'real':
        if z3.is_algebraic_value(v):
            v = v.approx(20)
        if not z3.is_rational_value(v):
            return Fraction(0)
        return v.as_fraction()
    if kind == 'int':
        return v.as_long()
    return z3.is_true(v)


def read_values(e, m):
    return dict((n, model_value(m, k, c)) for n, (k, c) in e.vars.items())


class Finder(object):
    """Finds friendly (short, exactly representable) input values."""

    def __init__(self, e, budget_s=20):
        self.e = e
        self.end = time.time() + budget_s

    def check(self, *conds):
        e = self.e
        if time.time() > self.end:
            return None
        left = max(int((self.end - time.time()) * 1000), 100)
        e.solver.set('timeout', min(e.timeout_ms, left))
        t0 = time.time()
        r = e.solver.check(*conds)
        e.stats.add('solver_s', time.time() - t0)
        e.stats.add('witness_queries')
        e.solver.set('timeout', e.timeout_ms)
        return e.solver.model() if r == z3.sat else None

    def pins(self, m, step):
        out = []
        for n, (k, c) in self.e.vars.items():
            v = model_value(m, k, c)
            if k == 'real':
                q = Fraction(round(v / step)) * step
                out.append(c == rv(q))
            elif k == 'int':
                out.append(c == v)
            else:
                out.append(c if v else z3.Not(c))
        return out

    def snapped(self, m, cond):
        """(model, snapped?) of a friendly valuation of pc and cond near m"""
        for step in (Fraction(1, 8), Fraction(1, 64), Fraction(1, 1024)):
            pins = self.pins(m, step)
            r = self.check(cond, *pins)
            if r is not None:
                return r, True
        # greedy bisection with the finest step
        fixed = []

        def rec(ps):
            if time.time() > self.end or not ps:
                return
            if self.check(cond, *(fixed + ps)) is not None:
                fixed.extend(ps)
                return
            if len(ps) == 1:
                return
            h = len(ps) // 2
            rec(ps[:h])
            rec(ps[h:])
        rec(self.pins(m, Fraction(1, 8)))
        r = self.check(cond, *fixed)
        return (r or m), len(fixed) == len(self.e.vars)

    def rough(self, m, cond, rng, far):
        """a valuation of pc and cond, near m or away from it, whose numbers
        single precision cannot represent"""
        fixed = []
        for n, (k, c) in self.e.vars.items():
            v = model_value(m, k, c)
            if k != 'real' or v.denominator >= 10**6:
                continue
            size = Fraction(rng.randrange(10**6)) / 10**6
            for near in ((size * 200 - 100, size) if far else (size, size / 1000)):
                if time.time() > self.end:
                    break
                p = c == rv(Fraction(round((v + near) * 10**6), 10**6))
                if self.check(cond, *(fixed + [p])) is not None:
                    fixed.append(p)
                    break
        return self.check(cond, *fixed) or m


def violation_models(e, cond, pairs, limit=6):
    """Yields candidate input values of `pc and cond` with friendly numbers,
    preferring large differences."""
    f = Finder(e, 25)
    tries = []
    for margin in (1, Fraction(1, 16), Fraction(1, 1024)):
        if not pairs:
            break
        alts = []
        for a, b, w in pairs:
            try:
                d = a - b
            except Exception:
                continue
            if not d.clean:
                continue
            mz = SymReal(Fraction(margin))
            alts.append(b_and(w, b_or(to_b(d >= mz), to_b(d <= -mz))))
        c = b_or(*alts)
        if c is not False and c is not True:
            tries.append(z3.And(cond, c))
        elif c is True:
            tries.append(cond)
    tries.append(cond)
    rng = random.Random(1)
    n = 0
    for t in tries:
        m = f.check(t)
        if m is None:
            continue
        m2, ok = f.snapped(m, t)
        n += 1
        yield read_values(e, m2)
        if n >= limit:
            return
        # vary: push a few inputs away from this model
        for _ in range(2):
            reals = [(nm, c) for nm, (k, c) in e.vars.items() if k == 'real']
            if not reals:
                break
            rng.shuffle(reals)
            away = []
            for nm, c in reals[:max(1, len(reals) // 3)]:
                v = model_value(m2, 'real', c)
                away.append(z3.Or(c >= rv(v + 1), c <= rv(v - 1)))
            m3 = f.check(t, *away)
            if m3 is None:
                m3 = f.check(t, z3.Or(*away))
            if m3 is None:
                break
            m2, ok = f.snapped(m3, t)
            n += 1
            yield read_values(e, m2)
            if n >= limit:
                return
    if any(k[0] == 'f32' for k in e.names if isinstance(k, tuple)):
        # how numbers are rounded is abstract: values which are not rounded to themselves
        f = Finder(e, 10)
        m = f.check(cond)
        if m is not None:
            for k in range(12):
                yield read_values(e, f.rough(m, cond, rng, k % 4 != 3))


def jsonable(values):
    out = {}
    for k, v in values.items():
        out[k] = {'q': str(v)} if isinstance(v, Fraction) else v
    return out


def unjson(values):
    return dict((k, Fraction(v['q']) if isinstance(v, dict) else v) for k, v in values.items())


# ---------------------------------------------------------------------------
# one path
# ---------------------------------------------------------------------------

class PathResult(object):
    def __init__(self):
        self.kind = 'done'
        self.why = ''
        self.stats = {}
        self.pending = []
        self.entered = set()
        self.violations = []     # dict(values, failed, exc, how)
        self.undecided = []      # text
        self.witness = 0         # concrete runs which agreed
        self.float_sensitive = 0
        self.sample = None
        self.obligations = 0
        self.wall = 0.0


def describe(r):
    if r.exc:
        return r.exc
    return '; '.join('%s%s' % (m, (' (%s)' % d) if d else '') for m, d in r.failed[:3])


def is_tight(how):
    """the solver says that the numbers differ: they do not just by rounding"""
    return str(how).startswith('counterexample of:')


def real_run(cfg, values, tight=False):
    before = None if cfg.earlier is None else cfg.earlier + (cfg.earlier_values or {},)
    return harness.run_concrete(cfg.fn, cfg.kwargs, values, tight=tight, before=before)


def earlier_values(cfg):
    """numbers for the earlier call: a model of one of the first paths of its configuration"""
    c = Config(cfg.name, cfg.earlier[0], cfg.earlier[1], path_s=20)
    end = time.time() + 5
    todo, best = [()], (-1, {})
    for k in range(12):
        if not todo or time.time() > end:
            break
        found = []
        r = run_path(c, todo.pop(0), time.time() + 20, False, found)
        todo += r.pending
        if found and r.obligations > best[0]:
            best = (r.obligations, found[-1])
    return best[1]


def try_values(cfg, values, res, how):
    """Replay; record a violation when the real code fails a check."""
    r = real_run(cfg, values, is_tight(how))
    if r.infeasible:
        return r
    if not r.ok:
        res.violations.append({'config': cfg.name, 'values': jsonable(values), 'how': how,
                               'message': r.failed[0][0] if r.failed else r.exc,
                               'what': describe(r)})
    return r


def run_path(cfg, prefix, deadline, witness=True, models=None):
    from .loader import Loader
    from .fs import FileSystem
    res = PathResult()
    t0 = time.time()
    e = Engine(prefix, timeout_ms=cfg.timeout_ms, max_forks=cfg.max_forks,
               deadline=min(deadline, t0 + cfg.path_s))
    core.set_engine(e)
    e.fs = FileSystem()
    exc = None
    ld = None
    out, err = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    env = None

    def expired(*a):
        e.abort(PathBudget('processor time'))
    handler = signal.signal(signal.SIGPROF, expired)
    try:
        try:
            # (code which does not touch the engine is not stopped by its deadline)
            signal.setitimer(signal.ITIMER_PROF, cfg.path_s + 5, 5)
            try:
                ld = Loader(harness.REPO)
                env = harness.SymEnv(e, ld)
                if cfg.earlier is not None:
                    try:
                        cfg.earlier[0](harness.WarmSymEnv(e, ld, cfg.earlier_values), **cfg.earlier[1])
                    except (z3.Z3Exception, RecursionError, MemoryError):
                        raise
                    except (Exception, SystemExit):
                        e.abort_check()
                    e.fs = FileSystem()
                    e.capture = False
                    ld.drawlog[:] = []
                cfg.fn(env, **cfg.kwargs)
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
        except core.Control as c:
            exc = c
        except (z3.Z3Exception, RecursionError, MemoryError) as x:
            exc = Unsupported('%s: %s' % (type(x).__name__, x))
            e.tb = traceback.format_exc()
        except (Exception, SystemExit) as x:
            exc = x
            e.tb = traceback.format_exc()
    finally:
        signal.signal(signal.SIGPROF, handler or signal.SIG_DFL)
        sys.stdout, sys.stderr = out, err
    if e.aborted is not None:
        exc = e.aborted
    e.aborted = None
    e.deadline = None
    res.pending = e.pending
    res.entered = ld.entered if ld else set()
    if models is not None:
        # only looking for numbers
        if exc is None:
            res.obligations = len(env.obls)
            models += list(violation_models(e, z3.BoolVal(True), (), 4))
        core.set_engine(None)
        return res
    try:
        _decide(cfg, e, env, exc, res, witness)
    except (z3.Z3Exception, RecursionError) as x:
        res.kind = 'unsupported'
        res.undecided.append('solver error: %s' % x)
    res.stats = dict(e.stats)
    res.wall = time.time() - t0
    core.set_engine(None)
    return res


def _fallback(cfg, e, res, label, n=4):
    """The path could not be decided: execute a few of the solver's inputs for
    it on the real code (disclosed as undecided either way)."""
    f = Finder(e, 8)
    m = f.check()
    if m is None:
        return
    seen = 0
    for values in violation_models(e, z3.BoolVal(True), (), n):
        r = try_values(cfg, values, res, label)
        seen += 1
        if res.violations:
            return


def _decide(cfg, e, env, exc, res, witness):
    if isinstance(exc, PathInfeasible):
        res.kind = 'infeasible'
        return
    if isinstance(exc, (Unsupported, PathBudget)):
        res.kind = 'unsupported' if isinstance(exc, Unsupported) else 'budget'
        res.why = str(exc)
        res.undecided.append('%s: %s' % (res.kind, exc))
        _fallback(cfg, e, res, 'input of a path outside the encoding (%s)' % exc)
        return
    if exc is not None:
        # an exception which the harness does not expect
        res.kind = 'exception'
        res.why = '%s: %s' % (type(exc).__name__, exc)
        res.tb = getattr(e, 'tb', '')
        if e.feasible() == z3.unsat:
            res.kind = 'infeasible'
            return
        for values in violation_models(e, z3.BoolVal(True), (), 5):
            try_values(cfg, values, res, 'exception on this path: ' + res.why)
            if res.violations:
                return
        res.undecided.append('exception only in the encoding: %s | %s' % (res.why, res.tb[-700:]))
        return
    fe = e.feasible()
    if fe == z3.unsat:
        res.kind = 'infeasible'
        return
    if fe != z3.sat:
        res.undecided.append('feasibility of the path unknown')
    obls = env.obls
    res.obligations = len(obls)
    todo = []
    for o in obls:
        e.stats.add('obligations')
        if o.cond is True:
            e.stats.add('trivial')
            continue
        todo.append(o)
    failed = []

    def batch(os_):
        if not os_:
            return
        c = b_and(*[o.cond for o in os_])
        s = z3.simplify(c, som=True) if not isinstance(c, bool) else z3.BoolVal(c)
        if z3.is_true(s):
            e.stats.add('rewritten', len(os_))
            return
        if len(os_) > 1:
            r = e._check(z3.Not(s), quick=True)
        else:
            r = e._check(z3.Not(s))
        if r == z3.unsat:
            return
        if len(os_) == 1:
            failed.append((os_[0], s, r))
            return
        h = len(os_) // 2
        batch(os_[:h])
        if failed and len(failed) >= 3:
            return
        batch(os_[h:])
    size = 4
    for i in range(0, len(todo), size):
        batch(todo[i:i + size])
        if len(failed) >= 3:
            break
    for o, s, r in failed:
        if r == z3.unknown:
            # nonlinear: look for a counterexample with most inputs pinned, then give up
            res.undecided.append('solver gave up on: %s' % o.msg)
            for values in violation_models(e, z3.Not(s), o.pairs, 4):
                try_values(cfg, values, res, 'counterexample of an obligation (unknown at first)')
                if res.violations:
                    return
            _fallback(cfg, e, res, 'input of a path with an undecided obligation', 3)
            if res.violations:
                return
            continue
        n = 0
        for values in violation_models(e, z3.Not(s), o.pairs):
            n += 1
            try_values(cfg, values, res, 'counterexample of: %s' % o.msg)
            if res.violations:
                return
        res.undecided.append('counterexample not reproduced by the real code (%d tried): %s' % (n, o.msg))
    if witness and not failed:
        f = Finder(e, 5)
        m = e.model or f.check()
        if m is not None:
            bad = 0
            for k in range(2):
                m2, snapped = f.snapped(m, z3.BoolVal(True))
                values = read_values(e, m2)
                r = real_run(cfg, values)
                if res.sample is None:
                    res.sample = {'config': cfg.name, 'values': jsonable(values), 'checks': r.checks}
                if r.ok and not r.infeasible:
                    res.witness += 1
                    break
                if r.infeasible:
                    res.float_sensitive += 1
                    break
                bad += 1
                if bad == 2:
                    res.violations.append({
                        'config': cfg.name, 'values': jsonable(values), 'what': describe(r),
                        'message': r.failed[0][0] if r.failed else r.exc,
                        'how': 'inputs of an explored path fail on the real code'})
                    break
                away = []
                for nm, (kk, c) in e.vars.items():
                    if kk == 'real':
                        v = model_value(m2, kk, c)
                        away.append(z3.Or(c >= rv(v + Fraction(1, 2)), c <= rv(v - Fraction(1, 2))))
                m = f.check(z3.Or(*away)) if away else None
                if m is None:
                    if away:
                        res.float_sensitive += 1
                    else:
                        res.violations.append({
                            'config': cfg.name, 'values': jsonable(values), 'what': describe(r),
                            'message': r.failed[0][0] if r.failed else r.exc,
                            'how': 'inputs of an explored path fail on the real code'})
                    break


# ---------------------------------------------------------------------------
# exploring in worker processes
# ---------------------------------------------------------------------------

def worker(cfg, prefixes, deadline, wit):
    if cfg.earlier is not None and cfg.earlier_values is None:
        cfg.earlier_values = earlier_values(cfg)
    end = time.time() + cfg.slice_s
    stack = list(prefixes)
    results = []
    while stack:
        p = stack.pop()
        r = run_path(cfg, p, deadline, wit > 0)
        if r.witness or r.violations:
            wit -= 1
        results.append(r)
        stack.extend(r.pending)
        r.pending = []
        if r.violations or time.time() > end or time.time() > deadline:
            break
    return results, stack, cfg.earlier_values


def _spawn(cfg, prefixes, deadline, wit):
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rfd)
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            try:
                payload = pickle.dumps(worker(cfg, prefixes, deadline, wit))
            except BaseException:
                payload = pickle.dumps(('error', traceback.format_exc()))
            with os.fdopen(wfd, 'wb') as fp:
                fp.write(struct.pack('<Q', len(payload)))
                fp.write(payload)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(wfd)
    return pid, rfd


class Explorer(object):
    def __init__(self, configs, seconds, jobs=8, known=(), log=None):
        self.configs = configs
        self.deadline = time.time() + seconds
        self.jobs = jobs
        self.known = known
        self.log = log
        self.total = core.Stats()
        self.per = {}
        self.entered = set()
        self.violations = []
        self.known_hits = []
        self.undecided = []
        self.samples = []
        self.unexplored = 0
        self.t0 = time.time()

    def is_known(self, v):
        for k in self.known:
            if k['config'] == v['config'] and (v['message'] or '').startswith(k['message']):
                return k
        return None

    def run(self, on_violation):
        """on_violation(v) -> bool: stop?"""
        queue = []
        for i, c in enumerate(self.configs):
            queue.append((i, [()]))
            self.per[c.name] = core.Stats()
        live = {}
        wit_left = dict((i, c.witness) for i, c in enumerate(self.configs))
        stop = False
        while (queue or live) and not stop:
            now = time.time()
            while queue and len(live) < self.jobs and now < self.deadline:
                # breadth first over configurations
                i, pre = queue.pop(0)
                # share: keep some of the prefixes for other workers
                if len(pre) > 1 and len(live) + len(queue) < self.jobs:
                    h = len(pre) // 2
                    queue.append((i, pre[:h]))
                    pre = pre[h:]
                w = min(wit_left[i], max(3, self.configs[i].witness // 2))
                cfg = self.configs[i]
                pid, fd = _spawn(cfg, pre, self.deadline, w)
                live[fd] = (pid, i, pre, now + cfg.slice_s + cfg.path_s + 120, [])
            if not live:
                break
            rd, _, _ = select.select(list(live), [], [], 0.5)
            for fd in rd:
                pid, i, pre, hard, buf = live[fd]
                d = os.read(fd, 1 << 20)
                if d:
                    buf.append(d)
                    continue
                os.close(fd)
                os.waitpid(pid, 0)
                del live[fd]
                data = b''.join(buf)
                ok = False
                if len(data) >= 8:
                    n = struct.unpack('<Q', data[:8])[0]
                    if len(data) - 8 == n:
                        ok = True
                        r = pickle.loads(data[8:])
                if not ok:
                    self.note(i, 'worker died (%d prefixes)' % len(pre))
                    continue
                if r[0] == 'error':
                    self.note(i, 'worker error: ' + r[1][-1500:])
                    continue
                results, rest, known = r
                self.configs[i].earlier_values = known
                if rest:
                    queue.append((i, rest))
                for pr in results:
                    wit_left[i] -= pr.witness
                    if self.take(i, pr, on_violation):
                        stop = True
                        break
            now = time.time()
            for fd in list(live):
                pid, i, pre, hard, buf = live[fd]
                if now > hard or (now > self.deadline + 15):
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    os.close(fd)
                    del live[fd]
                    self.note(i, 'worker out of time')
            if now > self.deadline and not live:
                break
        for fd in list(live):
            pid = live[fd][0]
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(fd)
        if not stop:
            for i, pre in queue:
                self.unexplored += len(pre)
                self.note(i, '%d path prefixes not explored within the time limit' % len(pre))

    def note(self, i, msg):
        self.undecided.append({'config': self.configs[i].name, 'what': msg})
        if self.log:
            self.log('undecided %s: %s' % (self.configs[i].name, msg))

    def take(self, i, pr, on_violation):
        c = self.configs[i]
        st = self.per[c.name]
        st.add('paths_' + pr.kind)
        st.add('wall', pr.wall)
        for k, v in pr.stats.items():
            self.total.add(k, v)
            st.add(k, v)
        st.add('witness', pr.witness)
        st.add('checked', pr.obligations)
        self.total.add('witness', pr.witness)
        self.total.add('float_sensitive', pr.float_sensitive)
        self.total.add('paths_' + pr.kind)
        self.entered |= pr.entered
        if pr.sample and len(self.samples) < 6 and st.get('sampled', 0) < 1:
            st.add('sampled')
            self.samples.append(pr.sample)
        for u in pr.undecided:
            self.note(i, u)
        for v in pr.violations:
            k = self.is_known(v)
            if k is not None:
                if k not in self.known_hits:
                    self.known_hits.append(k)
                continue
            if c.earlier is not None:
                v = dict(v, earlier=jsonable(c.earlier_values or {}))
            if on_violation(v):
                return True
        return False
