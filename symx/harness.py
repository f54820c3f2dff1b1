"""Environments in which a harness runs.

A harness is a function `h(env, **config)` written once. Under SymEnv inputs
are solver variables, the code under test is the instrumented copy of /repo's
current source and every `env.check*` becomes an obligation for the solver.
Under ConcEnv inputs are the numbers of one model, the code under test is the
real package imported from /repo with the real numpy, and the same checks are
evaluated with floating point tolerance: this replays counterexamples and
validates one witness per explored path.
"""

import builtins
import contextlib
import importlib
import io
import os
import shutil
import signal
import sys
import tempfile
import warnings
from fractions import Fraction

import numpy as rnp
import z3

from . import core
from .core import (SymReal, SymInt, SymBool, SYMT, Engine, Unsupported, PathInfeasible, PathBudget,
                   b_and, b_or, b_not, to_b, ite, fr, rv)

REPO = os.environ.get('STRATA_REPO', '/repo')
BOUND = 1000


class Violation(Exception):
    pass


class CheckFailed(Exception):
    pass


class Obl(object):
    __slots__ = ('cond', 'msg', 'pairs')

    def __init__(self, cond, msg, pairs=()):
        self.cond, self.msg, self.pairs = cond, msg, pairs


class EnvBase(object):
    def frac(self, x):
        return x if isinstance(x, Fraction) else Fraction(str(x))

    def reals(self, name, n, lo=None, hi=None):
        return [self.real('%s[%d]' % (name, i), lo, hi) for i in range(n)]

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def check_eq_all(self, xs, ys, msg, **k):
        xs, ys = list(xs), list(ys)
        self.check(len(xs) == len(ys), msg + ': length')
        for i, (x, y) in enumerate(zip(xs, ys)):
            self.check_eq(x, y, '%s[%d]' % (msg, i), **k)

    def sum(self, xs):
        s = None
        for x in xs:
            s = x if s is None else s + x
        return self.const(0) if s is None else s

    def min(self, xs):
        xs = list(xs)
        m = xs[0]
        for x in xs[1:]:
            m = self.ite(x < m, x, m)
        return m

    def max(self, xs):
        xs = list(xs)
        m = xs[0]
        for x in xs[1:]:
            m = self.ite(x > m, x, m)
        return m

    def count(self, conds):
        s = 0
        for c in conds:
            s = s + self.ite(c, 1, 0)
        return s

    def abs(self, x):
        return self.ite(x < 0, -x, x)


class SymEnv(EnvBase):
    symbolic = True

    def __init__(self, engine, loader):
        self.e = engine
        self.ld = loader
        self.np = loader.np
        self.obls = []
        self.tmp = ''
        self.notes = []

    # -- code -------------------------------------------------------------
    def mod(self, name):
        return self.ld.load(name)

    def stub(self, name, obj):
        self.ld.subst[name] = obj

    # -- inputs -------------------------------------------------------------
    def real(self, name, lo=None, hi=None):
        v = z3.Real(name)
        self.e.vars[name] = ('real', v)
        lo = -BOUND if lo is None else lo
        hi = BOUND if hi is None else hi
        self.e.add(z3.And(v >= rv(self.frac(lo)), v <= rv(self.frac(hi))))
        return SymReal(v, py=True)

    def int(self, name, lo, hi):
        self.e.stats.add('ints')
        v = z3.Int(name)
        self.e.vars[name] = ('int', v)
        self.e.add(z3.And(v >= lo, v <= hi))
        return SymInt(v)

    def bool(self, name):
        v = z3.Bool(name)
        self.e.vars[name] = ('bool', v)
        return SymBool(v)

    def polar(self, name, r, lo=0, hi=360):
        """(degrees, x, y) of a point at the constant distance r"""
        from . import trig
        e = self.e
        deg = self.real(name, lo, hi)
        r = rv(self.frac(r))
        c, s, th = e.fresh_real('cos'), e.fresh_real('sin'), e.fresh_real('th')
        pi = rv(trig.PI)
        d = deg.z()
        a = trig.Angle(th, c, s)
        con = [th == z3.If(d <= 180, d * pi / 180, z3.If(d < 540, d * pi / 180 - 2 * pi, d * pi / 180 - 4 * pi)),
               trig._facts(th, c, s)]
        con += [trig._pair(a, o) for _, o in e.trigs.values() if isinstance(o, trig.Angle)]
        e.add(z3.And(*con))
        e.abstracted = True
        x, y = r * c, r * s
        tx, ty = z3.simplify(x, som=True), z3.simplify(y, som=True)
        e.trigs[('arctan2', ty.get_id(), tx.get_id())] = ((tx, ty), a)
        q = z3.simplify(x * x + y * y, som=True)
        e.sqrts[q.get_id()] = (q, SymReal(r))
        return deg, SymReal(x, py=True), SymReal(y, py=True)

    def choice(self, name, seq):
        seq = list(seq)
        if len(seq) == 1:
            return seq[0]
        return seq[self.int(name, 0, len(seq) - 1).__index__()]

    def const(self, x):
        return SymReal(self.frac(x), py=True)

    def pow10(self, x):
        """10 ** x"""
        from . import trig
        return trig.pow10(self.e, SymReal.of(x))

    def log10(self, x):
        return SymReal.of(x).log10()

    def lit(self, x):
        """an exact constant for the oracle"""
        return SymReal(self.frac(x))

    def arr(self, xs, dtype=None):
        return self.np.array(list(xs), dtype=dtype) if dtype else self.np.array(
            [SymReal.of(x) if not isinstance(x, SYMT) else x for x in xs]) if len(xs) else self.np.zeros((0,))

    def pdseries(self, values, index, name=None):
        from . import spandas
        return spandas.Series(self.arr(values), self.arr(index), name)

    def num(self, x):
        if isinstance(x, rnp.ndarray):
            x = x.view(rnp.ndarray).ravel()[0]
        r = SymReal.of(x)
        if r is None:
            raise TypeError('not a number: %r' % (x,))
        return r.as_np()

    # -- logic --------------------------------------------------------------
    def and_(self, *xs): return SymBool(b_and(*[to_b(x) for x in xs]))
    def or_(self, *xs): return SymBool(b_or(*[to_b(x) for x in xs]))
    def not_(self, x): return SymBool(b_not(to_b(x)))
    def ite(self, c, a, b):
        return ite(to_b(c), a, b)

    def iff(self, a, b):
        a, b = to_b(a), to_b(b)
        return SymBool(b_or(b_and(a, b), b_and(b_not(a), b_not(b))))

    def eq(self, a, b):
        return SymBool(to_b(self.num(a) == self.num(b)))

    def close(self, a, b, tol):
        return SymBool(to_b(abs(self.num(a) - self.num(b)) <= SymReal(self.frac(tol))))

    def isnan(self, a):
        return SymBool(self.num(a).nan)

    def finite(self, a):
        return SymBool(self.num(a).finite())

    # -- assumptions and obligations -----------------------------------------
    def assume(self, c):
        c = to_b(c)
        if c is True:
            return
        if c is False:
            self.e.abort(PathInfeasible())
        self.e.add(c)
        if self.e.model is None and self.e.pos >= len(self.e.prefix):
            if self.e.feasible() == z3.unsat:
                self.e.abort(PathInfeasible())

    def check(self, c, msg):
        self.obls.append(Obl(to_b(c), msg))

    def check_eq(self, a, b, msg, tol=None, when=True):
        """tol: absolute tolerance granted in both modes"""
        if a is None or b is None:
            self.obls.append(Obl(a is b, msg))
            return
        a, b = self.num(a), self.num(b)
        if tol is None:
            c = to_b(a == b)
        else:
            c = to_b(abs(a - b) <= (tol if isinstance(tol, SymReal) else SymReal(self.frac(tol))))
        w = to_b(when)
        pairs = ()
        if c is not True and a.clean and b.clean:
            pairs = ((a, b, w),)
        self.obls.append(Obl(b_or(b_not(w), c), msg, pairs))

    def fork(self, c):
        return bool(SymBool(to_b(c)))

    def raises(self, excs, fn):
        """(exception or None): runs fn expecting one of excs"""
        try:
            fn()
        except excs as err:
            self.e.abort_check()
            return err
        return None

    # -- command line -----------------------------------------------------
    def cli(self, argv):
        """exit code of the command line"""
        from . import sclick
        try:
            with sclick.active():
                m = self.ld.cli()
                m.strata.main(args=list(argv), prog_name='strata')
        except SystemExit as x:
            self.e.abort_check()
            return x.code or 0
        return 0

    def cli_mod(self):
        return self.ld.cli()

    def record_output(self):
        self.e.capture = True
        self._printed = sys.stdout.tell()

    def printed(self):
        return sys.stdout.getvalue()[self._printed:]

    # -- files ------------------------------------------------------------
    @property
    def fs(self):
        from . import fs
        return fs.FS()

    def path(self, *p):
        return os.path.join(*p)

    def mkdir(self, p):
        self.fs.dirs.add(self.fs.norm(p))

    def write_text(self, path, text):
        self.fs.files[self.fs.norm(path)] = list(text.encode())

    def read_raw(self, path):
        """identity of a file's content"""
        return tuple(self.fs.files[self.fs.norm(path)])

    def exists(self, path):
        return self.fs.norm(path) in self.fs.files

    def listing(self):
        return sorted(self.fs.files)

    def remove(self, path):
        del self.fs.files[self.fs.norm(path)]

    def replace_bytes(self, path, old, new):
        """the first occurrence of the (ASCII) text in the file is replaced"""
        f = self.fs.files[self.fs.norm(path)]
        o = list(old.encode())
        for k in range(len(f)):
            if f[k:k + len(o)] == o:
                f[k:k + len(o)] = list(new.encode())
                return
        raise ValueError('%r is not in the file' % old)

    def fmt(self, spec, v):
        from . import loader
        return loader.format_percent(spec, (v,))

    def cut_file(self, path, n):
        """the last n bytes of the file are lost"""
        f = self.fs.files[self.fs.norm(path)]
        del f[len(f) - n:]

    def deny(self, path, exc):
        self.fs.deny[self.fs.norm(path)] = exc

    def series(self, prefix, suffix, pred, lo, hi, loader=None):
        """files prefix%05dsuffix exist for the numbers n in [lo, hi] which satisfy
        pred(n)"""
        def p(n):
            return SymBool(b_and(to_b(n >= lo), to_b(n <= hi), to_b(pred(n))))
        self.fs.series.append((prefix, suffix, p, loader))

    def fmt_path(self, prefix, n, suffix, width=5):
        from . import loader
        return loader.format_percent('%s%0' + str(width) + 'd%s', (prefix, n, suffix))

    def file_number(self, path, prefix, suffix):
        """n when path is prefix%05dsuffix, or None"""
        return self.fs.series_number(self.fs.norm(path), prefix, suffix)

    def read_text_table(self, path, comments=('#', '@')):
        txt = bytes(c for c in self.fs.files[self.fs.norm(path)]).decode()
        rows = []
        for l in txt.splitlines():
            if not l.strip() or l.strip()[0] in comments:
                continue
            rows.append([self.e.read_number(w) for w in l.split()])
        return rows

    def word(self, w):
        """the number which a printed word reads as"""
        return self.e.read_number(w)

    def text(self, path):
        return bytes(c for c in self.fs.files[self.fs.norm(path)]).decode()

    def exact_f32(self):
        self.e.exact_f32 = True

    def record_drawing(self):
        self.ld.drawlog[:] = []

    def drawn(self, *names):
        """(name, arguments, keyword arguments) of the drawing calls with these names, in order"""
        return [d for d in self.ld.drawlog if d[0] in names]

    def colour_maps(self):
        """names of the colour maps of what was drawn with colours, in order"""
        now, out, last = 'viridis', [], False
        for d in self.ld.drawlog:
            path = getattr(d, 'path', '').replace('mpl.pyplot', 'plt')
            if d[0] in COLOURED:
                out.append(d[2].get('cmap') or now)
                last = path.startswith('plt.%s' % d[0])
            elif d[0] == 'set_cmap':
                if path == 'plt.set_cmap':
                    now = d[1][0]
                if out and (path != 'plt.set_cmap' or last):
                    out[-1] = d[1][0]
            elif d[0] == 'rc' and d[1][:1] == ['image'] and 'cmap' in d[2]:
                now = d[2]['cmap']
            elif d[0] in ('clf', 'figure'):
                last = False
        return out


class WarmStop(Exception):
    """an input of the earlier call is outside of the bounds"""


class WarmSymEnv(SymEnv):
    """An earlier call of the same code, with the numbers of one model. Nothing
    is checked, but what the code remembers of the call stays."""

    def __init__(self, engine, loader, values):
        SymEnv.__init__(self, engine, loader)
        self.values = values

    def real(self, name, lo=None, hi=None):
        lo, hi = (self.frac(d if x is None else x) for x, d in ((lo, -BOUND), (hi, BOUND)))
        return SymReal(min(max(Fraction(self.values.get(name, 0)), lo), hi), py=True)

    def int(self, name, lo, hi):
        return min(max(int(self.values.get(name, lo)), lo), hi)

    def bool(self, name):
        return SymBool(bool(self.values.get(name, False)))

    def choice(self, name, seq):
        seq = list(seq)
        return seq[0] if len(seq) == 1 else seq[self.int(name, 0, len(seq) - 1)]

    def assume(self, c):
        c = to_b(c)
        if c is False:
            raise WarmStop()
        if c is not True:
            self.e.add(c)

    def check(self, c, msg): pass
    def check_eq(self, a, b, msg, tol=None, when=True): pass


_real_empty = rnp.empty
_real_empty_like = rnp.empty_like
JUNK = 77123.25


def _junk(a):
    if a.dtype.names:
        for n in a.dtype.names:
            _junk(a[n])
    elif a.dtype.kind == 'f':
        a[...] = JUNK
    return a


def patch_numpy():
    def empty(*a, **k):
        return _junk(_real_empty(*a, **k))

    def empty_like(*a, **k):
        return _junk(_real_empty_like(*a, **k))
    rnp.empty, rnp.empty_like = empty, empty_like


def setup_concrete():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    patch_numpy()
    rnp.seterr(all='ignore')
    warnings.simplefilter('ignore')


class ConcEnv(EnvBase):
    symbolic = False

    def __init__(self, values, tmp=None):
        self.values = values
        self.np = rnp
        self.failed = []
        self.tmp = tmp
        self.assume_failed = False
        self.checks = 0
        self.tight = False

    def mod(self, name):
        return importlib.import_module(name)

    def stub(self, name, obj):
        pass

    def _get(self, name, default=0):
        return self.values.get(name, default)

    def real(self, name, lo=None, hi=None):
        v = float(self._get(name))
        lo = -BOUND if lo is None else lo
        hi = BOUND if hi is None else hi
        return min(max(v, float(self.frac(lo))), float(self.frac(hi)))

    def int(self, name, lo, hi):
        return min(max(int(self._get(name, lo)), lo), hi)

    def bool(self, name):
        return bool(self._get(name, False))

    def polar(self, name, r, lo=0, hi=360):
        import math
        deg = self.real(name, lo, hi)
        r = float(self.frac(r))
        q = math.radians(deg)
        exact = {0: (1, 0), 90: (0, 1), 180: (-1, 0), 270: (0, -1), 360: (1, 0)}.get(deg)
        c, s = exact or (math.cos(q), math.sin(q))
        return deg, r * c, r * s

    def choice(self, name, seq):
        seq = list(seq)
        if len(seq) == 1:
            return seq[0]
        return seq[int(self._get(name, 0))]

    def pow10(self, x):
        return 10.0 ** float(x)

    def log10(self, x):
        return float(rnp.log10(x))

    def const(self, x):
        return float(self.frac(x))

    lit = const

    def arr(self, xs, dtype=None):
        return rnp.array(list(xs), dtype=dtype or float)

    def pdseries(self, values, index, name=None):
        import pandas
        return pandas.Series(self.arr(values), index=self.arr(index), name=name)

    def num(self, x):
        if isinstance(x, rnp.ndarray):
            x = x.ravel()[0]
        return rnp.float64(x)

    def and_(self, *xs): return all(bool(x) for x in xs)
    def or_(self, *xs): return any(bool(x) for x in xs)
    def not_(self, x): return not bool(x)
    def ite(self, c, a, b): return a if bool(c) else b
    def iff(self, a, b): return bool(a) == bool(b)

    def eq(self, a, b):
        a, b = float(self.num(a)), float(self.num(b))
        if a - a != 0 or b - b != 0:
            return False
        return abs(a - b) <= (2e-9 if self.tight else 1e-6) * max(1.0, abs(a), abs(b))

    def close(self, a, b, tol):
        a, b = float(self.num(a)), float(self.num(b))
        return abs(a - b) <= float(tol if isinstance(tol, float) else self.frac(tol)) + (1e-9 if self.tight else 1e-7) * max(1.0, abs(a), abs(b))

    def isnan(self, a):
        a = float(self.num(a))
        return a != a

    def finite(self, a):
        a = float(self.num(a))
        return a - a == 0

    def assume(self, c):
        if not bool(c):
            self.assume_failed = True
            raise PathInfeasible()

    def check(self, c, msg):
        self.checks += 1
        if not bool(c):
            self.failed.append((msg, ''))

    def check_eq(self, a, b, msg, tol=None, when=True):
        self.checks += 1
        if not bool(when):
            return
        if a is None or b is None:
            if a is not b:
                self.failed.append((msg, '%r vs %r' % (a, b)))
            return
        ok = self.eq(a, b) if tol is None else self.close(a, b, tol)
        if not ok:
            self.failed.append((msg, 'got %r, expected %r' % (float(self.num(a)), float(self.num(b)))))

    def fork(self, c):
        return bool(c)

    def raises(self, excs, fn):
        try:
            fn()
        except excs as err:
            return err
        return None

    # -- files ------------------------------------------------------------
    def cli(self, argv):
        try:
            self.mod('strata.strata').strata.main(args=list(argv), prog_name='strata')
        except SystemExit as x:
            return x.code or 0
        return 0

    def cli_mod(self):
        return self.mod('strata.strata')

    def record_output(self):
        self._printed = sys.stdout.tell()

    def printed(self):
        return sys.stdout.getvalue()[self._printed:]

    def path(self, *p):
        return os.path.join(*p)

    def mkdir(self, p):
        os.makedirs(p, exist_ok=True)

    def write_text(self, path, text):
        if os.path.dirname(path):
            os.makedirs(os.path.dirname(path), exist_ok=True)
        with builtins.open(path, 'w') as fp:
            fp.write(text)

    def read_raw(self, path):
        with builtins.open(path, 'rb') as fp:
            return fp.read()

    def exists(self, path):
        return os.path.isfile(path)

    def listing(self):
        out = []
        for d, _, fs in os.walk('.'):
            for f in fs:
                out.append(os.path.normpath(os.path.join(d, f)))
        return sorted(out)

    def remove(self, path):
        os.remove(path)

    def replace_bytes(self, path, old, new):
        with builtins.open(path, 'rb') as fp:
            b = fp.read()
        if old.encode() not in b:
            raise ValueError('%r is not in the file' % old)
        with builtins.open(path, 'wb') as fp:
            fp.write(b.replace(old.encode(), new.encode(), 1))

    def fmt(self, spec, v):
        return spec % v

    def cut_file(self, path, n):
        os.truncate(path, os.path.getsize(path) - n)

    def deny(self, path, exc):
        raise PathInfeasible()

    def series(self, prefix, suffix, pred, lo, hi, loader=None):
        for n in range(int(lo), int(hi) + 1):
            if bool(pred(n)):
                p = '%s%05d%s' % (prefix, n, suffix)
                if not os.path.exists(p):
                    self.write_text(p, '')

    def fmt_path(self, prefix, n, suffix, width=5):
        return ('%s%0' + str(width) + 'd%s') % (prefix, n, suffix)

    def file_number(self, path, prefix, suffix):
        path = os.path.normpath(path)
        mid = path[len(prefix):len(path) - len(suffix)]
        if path != prefix + mid + suffix or not mid.isdigit() or '%05d' % int(mid) != mid:
            return None
        return int(mid)

    def read_text_table(self, path, comments=('#', '@')):
        rows = []
        with builtins.open(path) as fp:
            for l in fp:
                if not l.strip() or l.strip()[0] in comments:
                    continue
                rows.append([float(w) for w in l.split()])
        return rows

    def word(self, w):
        return float(w)

    def text(self, path):
        with builtins.open(path) as fp:
            return fp.read()

    def exact_f32(self):
        # single precision, which the encoding leaves out, is allowed for
        self.tight = False

    def record_drawing(self):
        import matplotlib.pyplot as plt
        from matplotlib.axes import Axes
        if not hasattr(plt, '_recorded'):
            plt._recorded = []
            plt._depth = [0]

            from .loader import DRAW_ALIASES

            def wrap(obj, attr, name=None):
                name = name or DRAW_ALIASES.get(attr, attr)
                real = getattr(obj, attr)

                def call(*a, **k):
                    if not plt._depth[0] and name != '-':
                        b = a if obj is plt else a[1:]
                        plt._recorded.append((name, [x.copy() if hasattr(x, 'copy') else x for x in b],
                                              dict((n, x.copy() if hasattr(x, 'copy') else x) for n, x in k.items())))
                    outer = not plt._depth[0]
                    plt._depth[0] += 1
                    try:
                        r = real(*a, **k)
                        if outer and name in COLOURED:
                            plt._coloured.append(r)
                        return r
                    finally:
                        plt._depth[0] -= 1
                setattr(obj, attr, call)
            from matplotlib.figure import Figure
            for n in ('plot', 'quiver', 'hist2d', 'contour', 'contourf', 'streamplot', 'set_axis_off', 'legend', 'axis', 'loglog',
                      'semilogx', 'semilogy', 'scatter', 'errorbar') + tuple(DRAW_ALIASES):
                wrap(Axes, n)
            wrap(Axes, '__init__', '-')
            for n in ('savefig', 'colorbar', 'legend'):
                wrap(Figure, n)
            wrap(plt, 'subplots', 'figure')
            from matplotlib.colorbar import Colorbar
            for n in ('set_label', 'set_ticks', 'set_ticklabels'):
                wrap(Colorbar, n)
            for n in ('plot', 'streamplot', 'savefig', 'figure', 'clf', 'title', 'xlabel', 'ylabel', 'xlim', 'ylim', 'axis', 'show',
                      'legend', 'set_cmap', 'xscale', 'yscale', 'colorbar', 'loglog', 'semilogx', 'semilogy', 'scatter', 'errorbar'):
                wrap(plt, n)
        plt.close('all')
        plt.rc('image', cmap='viridis')
        plt._recorded[:] = []
        plt._coloured = []

    def colour_maps(self):
        import matplotlib.pyplot as plt
        drawn = [r[3] if isinstance(r, tuple) and len(r) == 4 else r for r in plt._coloured]
        return [getattr(r, 'lines', r).get_cmap().name for r in drawn]

    def drawn(self, *names):
        import matplotlib.pyplot as plt
        return [d for d in plt._recorded if d[0] in names]


COLOURED = ('quiver', 'hist2d', 'contour', 'contourf', 'streamplot')


class WarmConcEnv(ConcEnv):
    def assume(self, c):
        if not bool(c):
            raise WarmStop()

    def check(self, c, msg): pass
    def check_eq(self, a, b, msg, tol=None, when=True): pass


class ConcResult(object):
    def __init__(self, ok, failed=(), exc=None, infeasible=False, checks=0):
        self.ok, self.failed, self.exc, self.infeasible, self.checks = ok, failed, exc, infeasible, checks


class Hang(BaseException):
    pass


# processor time after which a run of the real code on these small inputs is
# taken not to end (they take well below a second)
HANG_S = 40


def run_concrete(h, cfg, values, tight=False, before=None):
    """Run the harness on the real code with the given numbers.

    tight: numbers may differ by the errors of double precision only.
    before: (function, configuration, values) of an earlier call in the same process
    """
    def expired(*a):
        raise Hang()
    tmp = tempfile.mkdtemp(prefix='symx_')
    old = os.getcwd()
    for m in [m for m in sys.modules if m.split('.')[0] in ('strata', 'droplets')]:
        if getattr(h, 'fresh_modules', False):
            del sys.modules[m]
    env = ConcEnv(values, tmp)
    env.tight = tight
    exc = None
    old_handler = signal.signal(signal.SIGPROF, expired)
    old_out, old_err = sys.stdout, sys.stderr
    try:
        os.chdir(tmp)
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                signal.setitimer(signal.ITIMER_PROF, HANG_S, 1)
                try:
                    if before is not None:
                        try:
                            before[0](WarmConcEnv(before[2], tmp), **before[1])
                        except (Exception, SystemExit):
                            pass
                        os.chdir(tmp)
                        for f in os.listdir(tmp):
                            f = os.path.join(tmp, f)
                            if os.path.isdir(f) and not os.path.islink(f):
                                shutil.rmtree(f, ignore_errors=True)
                            else:
                                os.remove(f)
                    h(env, **cfg)
                finally:
                    signal.setitimer(signal.ITIMER_PROF, 0)
            except PathInfeasible:
                return ConcResult(True, infeasible=True)
            except Hang:
                exc = 'the code does not end (%d s of processor time)' % HANG_S
            except (Exception, SystemExit) as err:
                import traceback
                tb = traceback.extract_tb(err.__traceback__)
                exc = '%s: %s (at %s)' % (type(err).__name__, err, ' < '.join(
                    '%s:%d' % (os.path.relpath(f.filename, REPO) if f.filename.startswith(REPO) else
                               os.path.basename(f.filename), f.lineno) for f in reversed(tb[-3:])))
    finally:
        signal.signal(signal.SIGPROF, old_handler or signal.SIG_DFL)
        sys.stdout, sys.stderr = old_out, old_err
        os.chdir(old)
        shutil.rmtree(tmp, ignore_errors=True)
    return ConcResult(not env.failed and exc is None, env.failed, exc, checks=env.checks)
