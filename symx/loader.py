"""Loads the code under test for symbolic execution.

Every module of the packages `droplets` and `strata` is read from /repo's
current working tree, parsed, instrumented and executed with symbolic
look-alikes of numpy and of the few builtins and libraries which would need
concrete numbers. Nothing is cached between runs.

The instrumentation is semantic-preserving: `a % b` and `a / b` call helpers
(so that formatting of symbolic values works and the quotient of two literals
is an exact rational), and function entries are recorded for the evidence.
"""

import ast
import builtins
import importlib
import os as _os
import re
import sys
import types
from fractions import Fraction

import numpy as rnp
import z3

from . import core
from .core import SymReal, SymInt, SymBool, SYMT, ite, to_b

_isinstance = builtins.isinstance
PACKAGES = ('droplets', 'strata')

_code_cache = {}


class _Tx(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.stack = []

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if _isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(ast.Name('__sx_mod__', ast.Load()),
                                              [node.left, node.right], []), node)
        if _isinstance(node.op, ast.Div):
            return ast.copy_location(ast.Call(ast.Name('__sx_div__', ast.Load()),
                                              [node.left, node.right], []), node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if _isinstance(node.func, ast.Attribute) and node.func.attr in ('zfill', 'rjust'):
            return ast.copy_location(ast.Call(ast.Name('__sx_pad__', ast.Load()),
                                              [node.func.value, ast.Constant(node.func.attr)] + node.args,
                                              node.keywords), node)
        if _isinstance(node.func, ast.Attribute) and node.func.attr == 'join' and len(node.args) == 1 \
                and not node.keywords:
            return ast.copy_location(ast.Call(ast.Name('__sx_join__', ast.Load()),
                                              [node.func.value] + node.args, []), node)
        return node

    def _func(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        qual = '%s:%s' % (self.modname, '.'.join(self.stack))
        self.stack.pop()
        call = ast.Expr(ast.Call(ast.Name('__sx_enter__', ast.Load()), [ast.Constant(qual)], []))
        # keep a docstring first
        at = 1 if (node.body and _isinstance(node.body[0], ast.Expr)
                   and _isinstance(node.body[0].value, ast.Constant)
                   and _isinstance(node.body[0].value.value, str)) else 0
        node.body.insert(at, ast.copy_location(call, node.body[0]))
        return node

    visit_FunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node


def sx_mod(a, b):
    if _isinstance(a, str):
        return format_percent(a, b)
    if _isinstance(a, bytes):
        return a % b
    return a % b


def sx_pad(obj, method, *args, **kw):
    """zfill and rjust of a formatted symbolic integer"""
    if type(obj) is str and core.MARK_L in obj and args and not kw:
        mk = core.ENGINE.unmark(obj)
        zero = method == 'zfill' or (len(args) == 2 and args[1] == '0')
        if mk is not None and _isinstance(mk[0], SymInt) and mk[1] == 'd' and (zero or len(args) == 1):
            if method == 'rjust' and zero and bool(mk[0] < 0):
                core.ENGINE.unsupported('rjust of a negative number')
            return core.ENGINE.marker(mk[0], ('0%dd' if zero else '%dd') % args[0])
        core.ENGINE.unsupported('padding of a formatted symbolic value')
    return getattr(obj, method)(*args, **kw)


def sx_join(obj, parts):
    if _isinstance(obj, bytes):
        from . import fs
        return fs.join(obj, parts)
    return obj.join(parts)


def sx_div(a, b):
    if type(a) in (int, float, bool) and type(b) in (int, float, bool):
        r = a / b
        if r - r == 0 and a - a == 0 and b - b == 0:
            q = core.fr(a) / core.fr(b)
            if q != core.fr(r):
                return SymReal(q, py=True)
        return r
    return a / b


_spec = re.compile(r'%(\((?P<key>[^)]*)\))?(?P<flags>[-+ 0#]*)(?P<w>\d+|\*)?(\.(?P<p>\d+|\*))?[hlL]?(?P<c>.)', re.S)


def _has_sym(v):
    if _isinstance(v, SYMT):
        return True
    if _isinstance(v, (tuple, list)):
        return any(_has_sym(x) for x in v)
    return _isinstance(v, rnp.ndarray) and v.dtype.kind in 'OV'


def format_percent(fmt, args):
    if not _has_sym(args) and not _isinstance(args, dict):
        return fmt % args
    seq = args if _isinstance(args, tuple) else (args,)
    out, pos, k = [], 0, 0
    for m in _spec.finditer(fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        c = m.group('c')
        if c == '%':
            out.append('%')
            continue
        if m.group('key') is not None:
            v = args[m.group('key')]
        else:
            if k >= len(seq):
                raise TypeError('not enough arguments for format string')
            v = seq[k]
            k += 1
        spec = fmt[m.start():m.end()]
        if m.group('key') is not None:
            spec = spec.replace('(%s)' % m.group('key'), '')
        if _isinstance(v, rnp.ndarray) and v.size == 1 and c not in 'rs':
            v = v.view(rnp.ndarray).ravel()[0]
        if _isinstance(v, SymBool) and c not in 'rs':
            v = v.as_int()
        if _isinstance(v, SymReal) and v.const:
            v = float(v.n)
        if _isinstance(v, SymInt) and v.const:
            v = v.t
        if _isinstance(v, (SymReal, SymInt)):
            if c in 'di':
                v = v.sym_int()
                out.append((spec % v.t) if v.const else core.ENGINE.marker(v, spec[1:]))
            elif c in 'fFgGeE':
                out.append(core.ENGINE.marker(v, spec[1:]))
            elif c in 'rs':
                out.append(core.ENGINE.marker(v, 'r'))
            else:
                core.ENGINE.unsupported('format %r of a symbolic value' % spec)
        elif c in 'rs':
            out.append(spec % (safe_repr(v) if c == 'r' else safe_str(v),) if c == 's'
                       else safe_repr(v))
        else:
            out.append(spec % (v,))
    if not _isinstance(args, dict) and k < len(seq):
        raise TypeError('not all arguments converted during string formatting')
    out.append(fmt[pos:])
    return ''.join(out)


def safe_repr(v):
    return repr(v)


def safe_str(v):
    return str(v)


def sx_float(x=0.0, np=False):
    if _isinstance(x, SymReal):
        return x.as_np() if np else x.as_py()
    if _isinstance(x, SymInt):
        r = x.real()
        return r if np else r.as_py()
    if _isinstance(x, SymBool):
        r = x.as_int().real()
        return r if np else r.as_py()
    if _isinstance(x, (str, bytes)):
        if _isinstance(x, bytes):
            x = x.decode()
        r = core.ENGINE.read_number(x)
        if r.const and not np:
            try:
                return builtins.float(x)
            except ValueError:
                pass
        return r.as_np() if np else r.as_py()
    if _isinstance(x, rnp.ndarray):
        if x.size != 1:
            raise TypeError('only size-1 arrays can be converted to Python scalars')
        return sx_float(x.view(rnp.ndarray).ravel()[0], np)
    r = builtins.float(x)
    return SymReal.of(r).as_np() if np else r


def sx_int(x=0, *base):
    if base:
        return builtins.int(x, *base)
    if _isinstance(x, rnp.ndarray):
        if x.size != 1:
            raise TypeError('only size-1 arrays can be converted to Python scalars')
        x = x.view(rnp.ndarray).ravel()[0]
    if _isinstance(x, (SymReal, SymInt)):
        r = x.sym_int()
        return r.t if r.const else r
    if _isinstance(x, SymBool):
        r = x.as_int()
        return r.t if r.const else r
    if _isinstance(x, str):
        mk = core.ENGINE.unmark(x)
        if mk is not None:
            v = mk[0]
            if _isinstance(v, SymInt):
                return v
            raise ValueError('invalid literal for int() with base 10: %r' % x)
    return builtins.int(x)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return _isinstance(x, builtins.float) or (_isinstance(x, SymReal))

    def __call__(cls, x=0.0):
        return sx_float(x)

    def __eq__(cls, o):
        return o is cls or o is builtins.float or o is SymReal

    def __hash__(cls):
        return hash(builtins.float)


class sxfloat(metaclass=_FloatMeta):
    _sx_float = True
    fromhex = builtins.float.fromhex


sxfloat.__name__ = 'float'


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return _isinstance(x, (builtins.int, SymInt))

    def __call__(cls, x=0, *a):
        return sx_int(x, *a)

    def __eq__(cls, o):
        return o is cls or o is builtins.int or o is SymInt

    def __hash__(cls):
        return hash(builtins.int)


class sxint(metaclass=_IntMeta):
    _sx_int = True


sxint.__name__ = 'int'


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return _isinstance(x, (builtins.bool, SymBool))

    def __call__(cls, x=False):
        return builtins.bool(x)

    def __eq__(cls, o):
        return o is cls or o is builtins.bool or o is SymBool

    def __hash__(cls):
        return hash(builtins.bool)


class sxbool(metaclass=_BoolMeta):
    _sx_bool = True


sxbool.__name__ = 'bool'

_nokey = object()


def _minmax(better, real):
    def f(*args, key=None, default=_nokey):
        if len(args) == 1:
            seq = list(args[0])
            if not seq:
                if default is not _nokey:
                    return default
                return real(seq)
        else:
            seq = list(args)
        if key is not None or not any(_isinstance(x, (SymReal, SymInt)) for x in seq) or \
                any(not _isinstance(x, (SymReal, SymInt, int, float, Fraction, rnp.number)) for x in seq):
            kw = {} if key is None else {'key': key}
            return real(seq, **kw)
        best = seq[0]
        for x in seq[1:]:
            c = to_b(better(x, best))
            if c is not True and c is not False:
                c = core.ENGINE.known(c)
            best = ite(c, x, best)
        return best
    return f


sx_min = _minmax(lambda x, b: x < b, builtins.min)
sx_max = _minmax(lambda x, b: x > b, builtins.max)


def sx_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def sx_round(x, nd=None):
    if _isinstance(x, (SymReal, SymInt)):
        r = x.__round__(nd) if nd is not None else x.__round__()
        if _isinstance(r, SymInt) and r.const:
            return r.t
        return r
    return builtins.round(x, nd) if nd is not None else builtins.round(x)


def sx_print(*a, **k):
    f = k.get('file')
    if f is not None and hasattr(f, 'sx_file'):
        f.write(' '.join(str(x) for x in a) + k.get('end', '\n'))
    elif f is None and core.ENGINE.capture:
        sys.stdout.write((k.get('sep') or ' ').join(str(x) for x in a) + (k['end'] if k.get('end') is not None else '\n'))


def _copied(x):
    return x.copy() if hasattr(x, 'copy') else x


# methods of axes and figures which do what the function of pyplot does
DRAW_ALIASES = dict(set_xlabel='xlabel', set_ylabel='ylabel', set_xlim='xlim', set_ylim='ylim', set_title='title',
                    set_xscale='xscale', set_yscale='yscale')


class Call(tuple):
    """(name, arguments, keyword arguments) of a call; path is how it was reached"""
    path = ''


class Dummy(object):
    """swallows everything (progress bars, drawing)"""
    def __init__(self, name='dummy', log=None):
        self.__dict__['_name'] = name
        self.__dict__['_log'] = log

    def __call__(self, *a, **k):
        if self._log is not None:
            name = self._name.split('.')[-1]
            if name == 'subplots':
                if a or any(n not in ('figsize', 'dpi') for n in k):
                    core.ENGINE.unsupported('subplots')
                if self._name not in ('plt.subplots', 'mpl.pyplot.subplots'):
                    return Dummy('axes()', self._log)
                self._log.append(('figure', [], dict(k)))
                return Dummy('figure()', self._log), Dummy('axes()', self._log)
            c = Call((DRAW_ALIASES.get(name, name), [_copied(x) for x in a], dict((n, _copied(x)) for n, x in k.items())))
            c.path = self._name
            self._log.append(c)
        return Dummy(self._name + '()', self._log)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Dummy(self._name + '.' + n, self._log)

    def __getitem__(self, i):
        return Dummy(self._name + '[]', self._log)

    def __setitem__(self, i, v):
        if self._log is not None and self._name.endswith('rcParams') and i == 'image.cmap':
            self._log.append(Call(('rc', ['image'], {'cmap': v})))

    def __setattr__(self, n, v):
        pass

    def __iter__(self):
        return iter([Dummy(self._name + '[]', self._log)] if self._name.endswith('.axes') else ())


def linregress(x, y=None, *a, **k):
    from . import snp
    x, y = snp.asarr(x), snp.asarr(y)
    if x.size == 0 or y.size == 0:
        raise ValueError('Inputs must not be empty.')
    if bool(snp.amax(x) == snp.amin(x)) and len(x) > 1:
        raise ValueError('Cannot calculate a linear regression if all x values are identical')
    mx, my = snp.mean(x), snp.mean(y)
    sxx = snp.sum_((x - mx) * (x - mx))
    sxy = snp.sum_((x - mx) * (y - my))
    slope = sxy / sxx
    intercept = my - slope * mx

    class R(tuple):
        pass
    class _Poison(object):
        def __getattr__(self, n):
            core.ENGINE.unsupported('linregress statistics')
    r = R((slope, intercept, _Poison(), _Poison(), _Poison()))
    r.slope, r.intercept = slope, intercept
    r.rvalue = r.pvalue = r.stderr = r.intercept_stderr = r[2]
    return r


def make_math():
    import math as rm
    m = types.ModuleType('math')
    for n in dir(rm):
        if not n.startswith('__'):
            setattr(m, n, getattr(rm, n))
    m.pi = SymReal(Fraction('3.141592653589793'), py=True)

    def lift(name, f):
        real = getattr(rm, name)

        def g(*a):
            if any(_isinstance(x, (SymReal, SymInt, SymBool, rnp.ndarray)) for x in a):
                return f(*[SymReal.of(x) for x in a])
            if name in ('atan2', 'acos', 'asin', 'atan', 'cos', 'sin', 'tan', 'degrees', 'radians', 'sqrt', 'hypot'):
                return f(*[SymReal.of(x) for x in a])
            return real(*a)
        setattr(m, name, g)
    sqrt = lambda x: _msqrt(x)
    for n, f in dict(floor=lambda x: _si(x._floor_int()), ceil=lambda x: _si(-((-x)._floor_int())),
                     trunc=lambda x: _si(x.sym_int()), sqrt=sqrt, fabs=abs,
                     sin=SymReal.sin, cos=SymReal.cos, tan=SymReal.tan, acos=SymReal.arccos,
                     asin=SymReal.arcsin, atan=SymReal.arctan, atan2=SymReal.arctan2, exp=SymReal.exp,
                     log=SymReal.log, degrees=SymReal.degrees, radians=SymReal.radians,
                     hypot=SymReal.hypot, isnan=SymReal.isnan, isinf=SymReal.isinf,
                     isfinite=SymReal.isfinite, pow=lambda a, b: a ** b).items():
        lift(n, f)

    def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
        a, b = SymReal.of(a), SymReal.of(b)
        return abs(a - b) <= sx_max(SymReal.of(rel_tol) * sx_max(abs(a), abs(b)), SymReal.of(abs_tol))
    m.isclose = isclose

    def fsum(it):
        return sx_sum(it, 0.0)
    m.fsum = fsum
    return m


def _msqrt(x):
    if bool(x < 0):
        raise ValueError('math domain error')
    return x.sqrt()


def _si(r):
    return r.t if r.const else r


def compiled(name, path):
    code = _code_cache.get(path)
    if code is None:
        with builtins.open(path, encoding='utf-8') as fp:
            src = fp.read()
        tree = ast.parse(src, path)
        tree = ast.fix_missing_locations(_Tx(name).visit(tree))
        code = _code_cache[path] = compile(tree, path, 'exec')
    return code


def precompile(root):
    for pkg in PACKAGES:
        for d, ds, fs in _os.walk(_os.path.join(root, pkg)):
            ds[:] = [x for x in ds if x not in ('tests', '__pycache__')]
            for f in fs:
                if f.endswith('.py'):
                    path = _os.path.join(d, f)
                    rel = _os.path.relpath(path, root)[:-3].replace(_os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-9]
                    try:
                        compiled(rel, path)
                    except SyntaxError:
                        pass


class Loader(object):
    """One instance per symbolic path: fresh module state."""

    def __init__(self, root='/repo'):
        from . import snp, fs, spandas, sopt
        self.root = root
        self.mods = {}
        self.entered = set()
        self.drawlog = []
        self.np = snp.make_module()
        self.fs = fs
        self.subst = {
            'numpy': self.np,
            'numpy.lib.recfunctions': self.np.lib.recfunctions,
            'numpy.lib': self.np.lib,
            'progressbar': Dummy('pbar'),
            'matplotlib': Dummy('mpl', self.drawlog),
            'matplotlib.pyplot': Dummy('plt', self.drawlog),
            'mpl_toolkits.axes_grid1': Dummy('axes', self.drawlog),
            'pandas': spandas.make_module(),
            'scipy.stats': types.SimpleNamespace(linregress=linregress),
            'scipy.optimize': sopt.make_module(),
            'scipy': _Unsup('scipy'),
            'math': make_math(),
            'os': fs.make_os(),
            'os.path': fs.make_os().path,
            'shutil': fs.make_shutil(),
            'pkg_resources': Dummy('pkg'),
            'struct': fs.make_struct(),
            'io': fs.make_io(),
            'pathlib': fs.make_pathlib(fs.make_os()),
            'statistics': fs.make_statistics(),
            'glob': _Unsup('glob'),
            'tempfile': _Unsup('tempfile'),
            'subprocess': _Unsup('subprocess'),
            'mmap': _Unsup('mmap'),
        }
        st = self.subst['strata.strata'] = types.ModuleType('strata.strata')
        st.version = '0.0'
        b = dict(vars(builtins))
        b.update({
            '__import__': self.imp,
            'float': sxfloat, 'int': sxint, 'bool': sxbool,
            'min': sx_min, 'max': sx_max, 'sum': sx_sum, 'round': sx_round,
            'print': sx_print, 'open': fs.open_,
            '__sx_mod__': sx_mod, '__sx_pad__': sx_pad, '__sx_join__': sx_join, '__sx_div__': sx_div, '__sx_enter__': self.enter,
        })
        self.builtins = b

    def cli(self):
        """the module of the command line, which needs click"""
        from . import sclick
        if _isinstance(self.subst.get('strata.strata'), types.ModuleType):
            del self.subst['strata.strata']
            self.mods.pop('strata.strata', None)
            self.subst['click'] = sclick.make_module()
        m = self.load('strata.strata')
        if not _isinstance(getattr(m, 'version', None), str):
            m.version = '0.0'
        return m

    def enter(self, qual):
        self.entered.add(qual)
        e = core.ENGINE
        if e is not None and (e.aborted is not None or e.deadline is not None):
            e.abort_check()

    def path_of(self, name):
        p = _os.path.join(self.root, *name.split('.'))
        if _os.path.isdir(p):
            return _os.path.join(p, '__init__.py'), True
        return p + '.py', False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name in self.subst:
            m = self.mods[name] = self.subst[name]
            if '.' in name:
                par, _, leaf = name.rpartition('.')
                self.load(par)
                setattr(self.mods[par], leaf, m)
            return m
        if '.' in name:
            self.load(name.rsplit('.', 1)[0])
            if name in self.mods:
                return self.mods[name]
        path, pkg = self.path_of(name)
        if not _os.path.exists(path):
            raise ModuleNotFoundError('No module named %r' % name)
        code = compiled(name, path)
        m = types.ModuleType(name)
        m.__file__ = path
        if pkg:
            m.__path__ = [_os.path.dirname(path)]
        m.__package__ = name if pkg else name.rpartition('.')[0]
        m.__dict__['__builtins__'] = self.builtins
        self.mods[name] = m
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if '.' in name:
            par, _, leaf = name.rpartition('.')
            setattr(self.mods[par], leaf, m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__', '')
            base = pkg.split('.')
            if level > 1:
                base = base[:-(level - 1)]
            name = '.'.join(base + ([name] if name else []))
        top = name.split('.')[0]
        if top in PACKAGES:
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        try:
                            self.load(name + '.' + f)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.mods[top]
        if name in self.subst:
            s = self.subst[name]
            if fromlist:
                return s
            if '.' in name:
                if name == 'matplotlib.pyplot' or top == 'matplotlib':
                    return self.subst.get(top, s)
                parent = types.SimpleNamespace()
                if top in self.subst:
                    parent = self.subst[top]
                    if _isinstance(parent, _Unsup):
                        parent = types.SimpleNamespace()
                leaf = name.split('.', 1)[1]
                try:
                    setattr(parent, leaf, s)
                except Exception:
                    pass
                return parent
            return s
        if top in ('numpy', 'scipy', 'pandas', 'matplotlib'):
            return _Unsup(name)
        if top == 'strata_cli':
            raise ImportError(name)
        return builtins.__import__(name, globals, locals, fromlist, level)


class _Unsup(object):
    def __init__(self, name):
        self.__dict__['_n'] = name

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        return _UnsupCall('%s.%s' % (self._n, a))


class _UnsupCall(object):
    def __init__(self, name):
        self._n = name

    def __call__(self, *a, **k):
        core.ENGINE.unsupported(self._n)
