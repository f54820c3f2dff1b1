"""A numpy look-alike whose floating point elements are symbolic reals.

Real numpy does the array bookkeeping (views, broadcasting, reshaping, fancy
indexing, structured records) on object arrays; this module supplies the
element semantics: every float dtype is mapped to object and the elements are
SymReal. Functions not listed fall through to numpy's own Python
implementation running on these arrays, or raise Unsupported.
"""

import builtins
import functools
import types
from fractions import Fraction

import numpy as rnp
import z3

from . import core
from .core import (SymReal, SymInt, SymBool, Unsupported, ite, smin, smax, to_b,
                   b_and, b_or, b_not)

_isinstance = builtins.isinstance
SYM = (SymReal, SymInt, SymBool)


def E():
    return core.ENGINE


# ---------------------------------------------------------------------------
# dtypes
# ---------------------------------------------------------------------------

class FloatDtype(object):
    """marker types for np.float64 etc."""


def is_float_dtype(dt):
    return dt.kind in 'fc'


F32_FIELDS = set()


def map_dtype(dt):
    """Map floating point types to object, recursively for records."""
    if dt is None:
        return rnp.dtype(object)
    if _isinstance(dt, type) and issubclass(dt, (SymReal,)):
        return rnp.dtype(object)
    if _isinstance(dt, type) and issubclass(dt, SymInt):
        return rnp.dtype(object)
    if _isinstance(dt, type) and issubclass(dt, SymBool):
        return rnp.dtype(object)
    if _isinstance(dt, type) and dt.__name__ == 'float' and getattr(dt, '_sx_float', False):
        return rnp.dtype(object)
    if _isinstance(dt, type) and getattr(dt, '_sx_int', False):
        return rnp.dtype(int)
    if _isinstance(dt, type) and getattr(dt, '_sx_bool', False):
        return rnp.dtype(bool)
    if _isinstance(dt, list):
        out = []
        for f in dt:
            out.append((f[0], _field_dtype(f[1])) + tuple(f[2:]))
        return rnp.dtype(out)
    if _isinstance(dt, dict):
        d = dict(dt)
        d['formats'] = [_field_dtype(f) for f in d['formats']]
        return rnp.dtype(d)
    dt = rnp.dtype(dt)
    if dt.names:
        return rnp.dtype([(n, _field_dtype(dt.fields[n][0])) for n in dt.names])
    if is_float_dtype(dt):
        return rnp.dtype(object)
    return dt


def _field_dtype(dt):
    """the type of a field of a record, which remembers how precise it is"""
    m = map_dtype(dt)
    if m.kind == 'O' and m.metadata is None:
        b = dtype_bits(dt)
        if b is not None and b[0] == 'f' and b[1] != 8:
            m = rnp.dtype('O', metadata={'sx': b})
    return m


def record_layout(dt):
    """[(name, kind, bytes)] of a packed record"""
    if _isinstance(dt, dict) and ('offsets' in dt or 'itemsize' in dt or dt.get('aligned')):
        E().unsupported('records with a layout of their own')
    out = []
    m = map_dtype(dt)
    for n in m.names:
        f = m.fields[n][0]
        if f.kind == 'O':
            b = dtype_bits(f)
        elif f.kind in 'iufb' and f.byteorder != '>':
            b = (f.kind, f.itemsize)
        else:
            E().unsupported('raw bytes of %s' % f)
        out.append((n,) + tuple(b))
    return out


def is_record(dt):
    return dt is not None and (_isinstance(dt, (list, dict)) or (
        not _isinstance(dt, type) and map_dtype(dt).names is not None))


def dtype_bits(dt):
    """(kind, bytes) of the type the program asked for"""
    if dt is None:
        return None
    if _isinstance(dt, (list, dict)):
        return None
    if _isinstance(dt, type) and getattr(dt, '_sx_float', False):
        return ('f', 8)
    if _isinstance(dt, type) and getattr(dt, '_sx_int', False):
        return ('i', 8)
    if _isinstance(dt, type) and getattr(dt, '_sx_bool', False):
        return ('b', 1)
    if _isinstance(dt, type) and issubclass(dt, SYM):
        return ('f', 8)
    dt = rnp.dtype(dt)
    if dt.kind == 'O':
        return (dt.metadata or {}).get('sx', ('f', 8))
    if dt.byteorder == '>':
        E().unsupported('big-endian data')
    return (dt.kind, dt.itemsize)


# ---------------------------------------------------------------------------
# arrays
# ---------------------------------------------------------------------------

def has_float(a):
    return a.dtype.kind in 'fc'


def elem(v):
    """an element as stored in an object array"""
    if _isinstance(v, SymReal):
        return v.as_np()
    if _isinstance(v, (SymInt,)):
        return v
    if _isinstance(v, SymBool):
        return v
    if v is None or _isinstance(v, (str, bytes)):
        return v
    if _isinstance(v, (bool, rnp.bool_)):
        return v
    r = SymReal.of(v)
    return v if r is None else r.as_np()


_vec_elem = rnp.frompyfunc(elem, 1, 1)


def to_obj(a):
    """object array with float elements lifted to exact constants"""
    if a.dtype.kind == 'O':
        return a
    if a.dtype.names:
        return a.astype(map_dtype(a.dtype))
    out = rnp.empty(a.shape, dtype=object)
    if a.size:
        out[...] = _vec_elem(a) if a.ndim else elem(a[()])
    return out


def wrap(a):
    """SArr of anything array-like coming out of numpy"""
    if _isinstance(a, SArr):
        if has_float(a):
            return to_obj(a.view(rnp.ndarray)).view(SArr)
        return a
    if _isinstance(a, rnp.ndarray):
        if has_float(a):
            a = to_obj(a)
        elif a.dtype.names and any(is_float_dtype(a.dtype.fields[n][0]) for n in a.dtype.names):
            b = rnp.empty(a.shape, dtype=map_dtype(a.dtype))
            for n in a.dtype.names:
                b[n] = to_obj(a[n])
            a = b
        if _isinstance(a, rnp.ndarray):
            return a.view(SArr)
        return a
    if _isinstance(a, (rnp.floating, builtins.float)):
        return elem(a)
    if _isinstance(a, tuple) and type(a) is tuple:
        return tuple(wrap(x) for x in a)
    if _isinstance(a, list):
        return [wrap(x) for x in a]
    return a


def unwrap(a):
    if _isinstance(a, SArr):
        return a.view(rnp.ndarray)
    return a


def is_symbool_arr(a):
    if a.dtype.kind != 'O' or a.dtype.names:
        return False
    f = a.ravel()
    if f.size == 0:
        return False
    return all(_isinstance(x, (SymBool, bool, rnp.bool_)) for x in f.view(rnp.ndarray))


def boolize(a):
    """bool array if all entries are constant, else unchanged"""
    f = a.view(rnp.ndarray)
    if f.dtype.kind == 'O' and f.dtype.names is None:
        if all((x is True or x is False or (_isinstance(x, SymBool) and x.const)) for x in f.ravel()):
            return f.astype(bool).view(SArr)
    return a if _isinstance(a, SArr) else a.view(SArr)


def concretize_mask(a):
    """Fork on every entry of a symbolic boolean mask."""
    f = a.view(rnp.ndarray)
    out = rnp.zeros(f.shape, dtype=bool)
    flat = f.ravel()
    o = out.ravel()
    for i, x in enumerate(flat):
        o[i] = bool(x)
    return o.reshape(f.shape)


def conc_index(ix):
    """Concretise symbolic masks / integers inside an index expression."""
    if _isinstance(ix, tuple):
        return tuple(conc_index(i) for i in ix)
    if _isinstance(ix, SymBool):
        return bool(ix)
    if _isinstance(ix, SymInt):
        return ix.__index__()
    if _isinstance(ix, SymReal):
        raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) '
                         'and integer or boolean arrays are valid indices')
    if _isinstance(ix, list) and ix and any(_isinstance(i, SYM) for i in ix):
        return conc_index(array(ix))
    if type(ix).__name__ == 'Series' and not _isinstance(ix, rnp.ndarray):
        ix = ix.values
    if _isinstance(ix, rnp.ndarray) and ix.dtype.kind == 'O' and ix.dtype.names is None:
        if ix.size == 0:
            # an empty object array used as index: numpy raises for arrays
            return unwrap(ix)
        if is_symbool_arr(ix):
            return concretize_mask(ix)
        if all(_isinstance(x, (SymInt, int, rnp.integer)) for x in ix.view(rnp.ndarray).ravel()):
            out = rnp.array([int(x) for x in ix.view(rnp.ndarray).ravel()], dtype=int)
            return out.reshape(ix.shape)
        raise IndexError('arrays used as indices must be of integer (or boolean) type')
    if _isinstance(ix, slice):
        f = lambda v: v.__index__() if _isinstance(v, SymInt) else v
        return slice(f(ix.start), f(ix.stop), f(ix.step))
    return unwrap(ix) if _isinstance(ix, SArr) else ix


CMP = {rnp.less: '<', rnp.less_equal: '<=', rnp.greater: '>', rnp.greater_equal: '>=',
       rnp.equal: '==', rnp.not_equal: '!='}


def _e_and(a, b): return SymBool(b_and(truth(a), truth(b)))
def _e_or(a, b): return SymBool(b_or(truth(a), truth(b)))
def _e_not(a): return SymBool(b_not(truth(a)))
def _e_xor(a, b): return SymBool(truth(a)) ^ SymBool(truth(b))


def truth(x):
    """condition under which an element is truthy"""
    if _isinstance(x, SymBool):
        return x.c
    if _isinstance(x, SymReal):
        r = x != 0
        return to_b(r)
    if _isinstance(x, SymInt):
        return to_b(x != 0)
    return bool(x)


def _num(f):
    """lift an elementwise method, coercing numbers to SymReal"""
    def g(x, *a):
        if _isinstance(x, SymInt) or _isinstance(x, SymBool) or not _isinstance(x, SymReal):
            y = SymReal.of(x)
            if y is None:
                raise TypeError('unsupported operand type %r' % type(x))
            x = y
        return f(x, *a)
    return g


def _power(a, b):
    if not _isinstance(a, SYM):
        a = SymReal.of(a)
    return a ** b


def _e_abs(x):
    return abs(x)


def _divide(a, b):
    a, b = SymReal.of(a), SymReal.of(b)
    return a.as_np() / b.as_np()


def _mod(a, b):
    if _isinstance(a, (SymInt,)) and not _isinstance(b, SymReal):
        return a % b
    return SymReal.of(a).as_np() % SymReal.of(b).as_np()


def _floordiv(a, b):
    if _isinstance(a, (SymInt,)) and not _isinstance(b, (SymReal, builtins.float)):
        return a // b
    return SymReal.of(a).as_np() // SymReal.of(b).as_np()


UNARY = {
    'sqrt': SymReal.sqrt, 'sin': SymReal.sin, 'cos': SymReal.cos, 'tan': SymReal.tan,
    'arccos': SymReal.arccos, 'arcsin': SymReal.arcsin, 'arctan': SymReal.arctan,
    'exp': SymReal.exp, 'log': SymReal.log, 'log10': SymReal.log10, 'log2': SymReal.log2, 'exp2': SymReal.exp2,
    'degrees': SymReal.degrees, 'rad2deg': SymReal.degrees,
    'radians': SymReal.radians, 'deg2rad': SymReal.radians,
    'floor': SymReal.floor, 'ceil': SymReal.ceil, 'trunc': SymReal.trunc, 'rint': SymReal.rint,
    'sign': SymReal.sign, 'square': SymReal.square, 'fabs': SymReal.__abs__,
    'isnan': SymReal.isnan, 'isinf': SymReal.isinf, 'isfinite': SymReal.isfinite,
    'reciprocal': lambda x: SymReal(Fraction(1)) / x,
    'negative': lambda x: -x, 'positive': lambda x: x,
    'absolute': lambda x: abs(x),
    'conjugate': lambda x: x,
}

ELEM_UFUNC = {}
for _n, _f in UNARY.items():
    if _n in ('negative', 'positive', 'absolute', 'conjugate'):
        ELEM_UFUNC[getattr(rnp, _n)] = rnp.frompyfunc(_f, 1, 1)
    else:
        ELEM_UFUNC[getattr(rnp, _n)] = rnp.frompyfunc(_num(_f), 1, 1)
def _extreme(pick, ignore):
    """the larger or smaller number; nan if one of them is (or only if both are, with ignore)"""
    def f(a, b):
        a, b = _c(a), _c(b)
        na, nb = getattr(a, 'nan', False), getattr(b, 'nan', False)
        if na is False and nb is False:
            return pick(a, b)
        a, b = SymReal.of(a), SymReal.of(b)
        if ignore:
            return ite(SymBool(nb), a, ite(SymBool(na), b, pick(a, b)))
        return ite(SymBool(na), a, ite(SymBool(nb), b, pick(a, b)))
    return rnp.frompyfunc(f, 2, 1)


ELEM_UFUNC[rnp.minimum] = _extreme(smin, False)
ELEM_UFUNC[rnp.maximum] = _extreme(smax, False)
ELEM_UFUNC[rnp.fmin] = _extreme(smin, True)
ELEM_UFUNC[rnp.fmax] = _extreme(smax, True)
ELEM_UFUNC[rnp.logical_and] = rnp.frompyfunc(_e_and, 2, 1)
ELEM_UFUNC[rnp.logical_or] = rnp.frompyfunc(_e_or, 2, 1)
ELEM_UFUNC[rnp.logical_xor] = rnp.frompyfunc(_e_xor, 2, 1)
ELEM_UFUNC[rnp.logical_not] = rnp.frompyfunc(_e_not, 1, 1)
ELEM_UFUNC[rnp.true_divide] = rnp.frompyfunc(_divide, 2, 1)
ELEM_UFUNC[rnp.power] = rnp.frompyfunc(_power, 2, 1)
ELEM_UFUNC[rnp.float_power] = ELEM_UFUNC[rnp.power]
ELEM_UFUNC[rnp.mod] = rnp.frompyfunc(_mod, 2, 1)
ELEM_UFUNC[rnp.floor_divide] = rnp.frompyfunc(_floordiv, 2, 1)
ELEM_UFUNC[rnp.hypot] = rnp.frompyfunc(lambda a, b: SymReal.of(a).hypot(SymReal.of(b)), 2, 1)
ELEM_UFUNC[rnp.arctan2] = rnp.frompyfunc(lambda a, b: SymReal.of(a).arctan2(SymReal.of(b)), 2, 1)
ELEM_UFUNC[rnp.add] = rnp.frompyfunc(lambda a, b: _c(a) + _c(b), 2, 1)
ELEM_UFUNC[rnp.subtract] = rnp.frompyfunc(lambda a, b: _c(a) - _c(b), 2, 1)
ELEM_UFUNC[rnp.multiply] = rnp.frompyfunc(lambda a, b: _c(a) * _c(b), 2, 1)

# comparison on elements gives SymBool
def _mkcmp(op):
    def f(a, b):
        a, b = _c(a), _c(b)
        if op == '<': r = a < b
        elif op == '<=': r = a <= b
        elif op == '>': r = a > b
        elif op == '>=': r = a >= b
        elif op == '==': r = a == b
        else: r = a != b
        return r if _isinstance(r, SymBool) else SymBool(bool(r))
    return rnp.frompyfunc(f, 2, 1)


def _c(x):
    """coerce floats to exact reals, leave ints etc. alone"""
    if _isinstance(x, SYM):
        return x
    if _isinstance(x, (builtins.float, rnp.floating)):
        return elem(x)
    return x


for _u, _op in CMP.items():
    ELEM_UFUNC[_u] = _mkcmp(_op)

_BITS = {rnp.bitwise_and: rnp.logical_and, rnp.bitwise_or: rnp.logical_or,
         rnp.bitwise_xor: rnp.logical_xor, rnp.invert: rnp.logical_not}

# Functions with float results for integer input
FLOAT_RESULT = {rnp.true_divide, rnp.sqrt, rnp.sin, rnp.cos, rnp.tan, rnp.arccos, rnp.arcsin, rnp.arctan,
                rnp.arctan2, rnp.exp, rnp.log, rnp.log10, rnp.log2, rnp.exp2, rnp.degrees, rnp.rad2deg, rnp.radians,
                rnp.deg2rad, rnp.hypot, rnp.float_power}


def _reduce(uf, a, axis, keepdims, initial=None):
    """reduction of an object array with an elementwise binary function"""
    f = ELEM_UFUNC.get(uf)
    if f is None:
        raise Unsupported('reduction %s' % uf)
    if axis is None:
        flat = list(a.view(rnp.ndarray).ravel())
        if uf not in (rnp.logical_and, rnp.logical_or) and any(x is None for x in flat):
            raise TypeError("unsupported operand type(s) for +: 'NoneType' and 'NoneType'")
        acc = initial
        for x in flat:
            acc = x if acc is None else f(acc, x)
        if acc is None:
            ident = {rnp.add: SymReal(Fraction(0)), rnp.multiply: SymReal(Fraction(1)),
                     rnp.logical_and: SymBool(True), rnp.logical_or: SymBool(False)}.get(uf)
            if ident is None:
                raise ValueError('zero-size array to reduction operation %s which has no identity'
                                 % uf.__name__)
            acc = ident
        if keepdims:
            o = rnp.empty((1,) * a.ndim, dtype=object)
            o[...] = acc
            return o.view(SArr)
        return acc
    if _isinstance(axis, tuple):
        if len(axis) == 0:
            return a
        for ax in sorted((x % a.ndim for x in axis), reverse=True):
            a = _reduce(uf, asarr(a), ax, keepdims)
        return a
    axis = int(axis)
    if axis < -a.ndim or axis >= a.ndim:
        raise rnp.AxisError(axis, a.ndim)
    b = rnp.moveaxis(a.view(rnp.ndarray), axis, 0)
    if b.shape[0] == 0:
        out = rnp.empty(b.shape[1:], dtype=object)
        z = _reduce(uf, rnp.empty((0,), dtype=object), None, False)
        out[...] = z
    else:
        out = rnp.empty(b.shape[1:], dtype=object)
        if out.ndim == 0:
            acc = b[0]
            for i in range(1, b.shape[0]):
                acc = f(acc, b[i])
            return acc if not keepdims else rnp.array([acc], dtype=object).view(SArr)
        out[...] = b[0]
        for i in range(1, b.shape[0]):
            out[...] = f(out, b[i])
    if keepdims:
        out = rnp.expand_dims(out, axis)
    return out.view(SArr)


class SArr(rnp.ndarray):
    __array_priority__ = 1000

    def __array_finalize__(self, obj):
        if obj is not None:
            b = getattr(obj, '_bits', None)
            if b is not None:
                self._bits = b

    @property
    def itemsize(self):
        if self.dtype.names:
            return builtins.sum(size for _, _, size in record_layout(self.dtype))
        return (getattr(self, '_bits', None) or (None, 8))[1] if self.dtype.kind == 'O' else self.dtype.itemsize

    @property
    def nbytes(self):
        return self.size * self.itemsize

    # -- ufuncs -------------------------------------------------------------
    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        out = kwargs.pop('out', None)
        where = kwargs.pop('where', True)
        kwargs.pop('casting', None)
        dtype = kwargs.pop('dtype', None)
        ins = []
        for x in inputs:
            if _isinstance(x, SArr):
                ins.append(x.view(rnp.ndarray))
            elif _isinstance(x, rnp.ndarray) or _isinstance(x, SYM):
                ins.append(x)
            elif _isinstance(x, (list, tuple)):
                ins.append(unwrap(array(x)))
            else:
                ins.append(x)
        objs = any(_isinstance(x, SYM) or (_isinstance(x, rnp.ndarray) and x.dtype.kind in 'OfV')
                   or _isinstance(x, (builtins.float, rnp.floating)) for x in ins)
        if ufunc in FLOAT_RESULT:
            objs = True
        if method == '__call__':
            if ufunc in snp_more.UFUNCS:
                return snp_more.UFUNCS[ufunc](*[wrap(x) if _isinstance(x, rnp.ndarray) else x for x in ins])
            if ufunc in CMP and any(_isinstance(x, rnp.ndarray) and x.dtype.names for x in ins):
                return self._struct_cmp(ufunc, ins)
            if not objs:
                r = ufunc(*ins, **({'dtype': dtype} if dtype is not None else {}))
            else:
                if ufunc in _BITS:
                    ufunc = _BITS[ufunc]
                f = ELEM_UFUNC.get(ufunc)
                if f is None:
                    E().unsupported('ufunc %s' % ufunc.__name__)
                ins = [x if not (_isinstance(x, rnp.ndarray) and has_float(x)) else to_obj(x) for x in ins]
                r = f(*ins)
                if ufunc in CMP or ufunc in (rnp.logical_and, rnp.logical_or, rnp.logical_not,
                                             rnp.logical_xor, rnp.isnan, rnp.isinf, rnp.isfinite):
                    if _isinstance(r, rnp.ndarray):
                        r = boolize(r.view(SArr))
            if where is not True:
                w = wrap(rnp.asarray(unwrap(where)))
                base = out[0] if out else None
                if base is None:
                    E().unsupported('ufunc where without out')
                r = where3(w, r, base)
            if out:
                o = out[0]
                target = o.view(rnp.ndarray) if _isinstance(o, SArr) else o
                rr = unwrap(r)
                if target.dtype.kind in 'iu' and _isinstance(rr, rnp.ndarray) and rr.dtype.kind == 'O':
                    raise rnp.core._exceptions._UFuncOutputCastingError(
                        ufunc, 'same_kind', rnp.dtype(float), target.dtype, 0)
                target[...] = rr
                return o
            return wrap(r) if _isinstance(r, rnp.ndarray) else r
        if method == 'reduce':
            axis = kwargs.get('axis', 0)
            keep = kwargs.get('keepdims', False)
            initial = kwargs.get('initial', None)
            if initial is rnp._NoValue:
                initial = None
            a = ins[0]
            if not objs:
                r = ufunc.reduce(a, axis=axis, keepdims=keep,
                                 **({'dtype': dtype} if dtype is not None and rnp.dtype(dtype).kind != 'O' else {}))
                return wrap(r)
            if ufunc in _BITS:
                ufunc = _BITS[ufunc]
            return _reduce(ufunc, asarr(a), axis, keep, initial)
        if method == 'accumulate':
            axis = kwargs.get('axis', 0)
            a = ins[0]
            if not objs:
                return wrap(ufunc.accumulate(a, axis=axis))
            f = ELEM_UFUNC[ufunc]
            b = rnp.moveaxis(rnp.array(a, dtype=object), axis, 0)
            for i in range(1, b.shape[0]):
                b[i] = f(b[i - 1], b[i])
            return rnp.moveaxis(b, 0, axis).view(SArr)
        if method == 'outer':
            a, b = (rnp.asarray(x) for x in ins)
            return ufunc(a.reshape(a.shape + (1,) * b.ndim).view(SArr), b)
        E().unsupported('ufunc method %s.%s' % (ufunc.__name__, method))

    def _struct_cmp(self, ufunc, ins):
        if ufunc not in (rnp.equal, rnp.not_equal):
            raise TypeError('structured comparison')
        a, b = ins
        a = rnp.asarray(a)
        b = rnp.asarray(b)
        if a.dtype.names is None or b.dtype.names is None or set(a.dtype.names) != set(b.dtype.names):
            return NotImplemented
        shape = rnp.broadcast(a, b).shape
        aa, bb = rnp.broadcast_to(a, shape), rnp.broadcast_to(b, shape)
        out = rnp.empty(shape, dtype=object)
        flat = out.reshape(-1)
        af = {n: aa[n].ravel() for n in a.dtype.names}
        bf = {n: bb[n].ravel() for n in a.dtype.names}
        for i in range(flat.size):
            c = True
            for n in a.dtype.names:
                r = _c(af[n][i]) == _c(bf[n][i])
                r = to_b(r)
                c = b_and(c, r)
                if c is False:
                    break
            flat[i] = SymBool(c if ufunc is rnp.equal else b_not(c))
        out = flat.reshape(shape)
        if out.ndim == 0:
            return out[()]
        return boolize(out.view(SArr))

    def __eq__(self, o):
        return self._eqne(o, rnp.equal)

    def __ne__(self, o):
        return self._eqne(o, rnp.not_equal)

    def _eqne(self, o, uf):
        if o is None or _isinstance(o, str):
            r = rnp.zeros(self.shape, dtype=bool)
            if o is None and self.dtype.kind == 'O':
                f = rnp.array([x is None for x in self.view(rnp.ndarray).ravel()], dtype=bool)
                r = f.reshape(self.shape)
            return (r if uf is rnp.equal else ~r).view(SArr)
        return uf(self, o)

    __hash__ = None

    # -- numpy functions ------------------------------------------------------
    def __array_function__(self, func, types_, args, kwargs):
        name = func.__name__
        f = FUNCS.get(name)
        if f is not None:
            return f(*args, **kwargs)
        if name in PASS_C:
            a2 = _map_args(args, unwrap)
            k2 = {k: _map_args(v, unwrap) for k, v in kwargs.items()}
            return wrap(func(*a2, **k2))
        impl = getattr(func, '_implementation', None)
        if impl is not None and _isinstance(impl, types.FunctionType):
            return wrap(impl(*args, **kwargs))
        if any(_isinstance(a, rnp.ndarray) and a.dtype.kind in 'OV' for a in args):
            E().unsupported('numpy.%s' % name)
        a2 = [unwrap(a) for a in args]
        k2 = {k: unwrap(v) for k, v in kwargs.items()}
        return wrap(func(*a2, **k2))

    # -- indexing -----------------------------------------------------------
    def __getitem__(self, ix):
        if _isinstance(ix, str) or (_isinstance(ix, list) and ix and _isinstance(ix[0], str)):
            if self.dtype.names is None:
                raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) '
                                 'and integer or boolean arrays are valid indices')
            r = super().__getitem__(ix)
            if r.dtype.metadata is not None and 'sx' in r.dtype.metadata:
                bits = r.dtype.metadata['sx']
                r = r.view(rnp.ndarray).view(rnp.dtype(object)).view(SArr)
                r._bits = bits
            return r
        r = super().__getitem__(conc_index(ix))
        return r

    def __setitem__(self, ix, v):
        if _isinstance(ix, SArr) and ix.dtype.kind == 'O' and ix.dtype.names is None \
                and ix.shape == self.shape and self.dtype.names is None and is_symbool_arr(ix) \
                and not (_isinstance(v, rnp.ndarray) and v.ndim > 0) and self.dtype.kind == 'O':
            vv = elem(v)
            flat = self.view(rnp.ndarray)
            for i in rnp.ndindex(*self.shape):
                flat[i] = ite(to_b(ix.view(rnp.ndarray)[i]), vv, flat[i])
            return
        ix = conc_index(ix)
        if self.dtype.kind == 'O' and self.dtype.names is None:
            if _isinstance(v, (list, tuple)) and self.ndim == 1 and _isinstance(ix, (int, rnp.integer)) \
                    and not _isinstance(ix, bool):
                if all(x is None or _isinstance(x, (tuple, rnp.ndarray)) for x in self.view(rnp.ndarray)):
                    # an array of objects
                    super().__setitem__(ix, v)
                    return
                raise ValueError('setting an array element with a sequence.')
            if _isinstance(v, (list, tuple)):
                v = array(v)
            if _isinstance(v, rnp.ndarray):
                v = unwrap(wrap(v))
                if v.dtype.kind != 'O' and v.dtype.names is None:
                    v = to_obj(v)
                elif v.dtype.kind == 'O' and v.dtype.names is None:
                    v = to_obj_elems(v)
            else:
                v = elem(v)
            b = getattr(self, '_bits', None)
            if b is not None and b[0] == 'f' and b[1] < 8:
                # stored with less precision
                v = _round_to(v.view(SArr), b).view(rnp.ndarray) if _isinstance(v, rnp.ndarray) else (
                    f32(v) if _isinstance(v, (SymReal, SymInt)) else v)
        elif self.dtype.names is not None:
            if _isinstance(ix, str):
                self[ix][...] = v
                return
            if any(self.dtype.fields[n][0].metadata for n in self.dtype.names):
                # fields which are stored with less precision
                if _isinstance(v, (tuple, rnp.void)) or (
                        _isinstance(v, rnp.ndarray) and v.dtype.names):
                    names = self.dtype.names
                    for k, n in enumerate(names):
                        self[n][ix] = v[k] if _isinstance(v, tuple) else v[v.dtype.names[k]]
                    return
                E().unsupported('assignment to records of less precision')
            if _isinstance(v, rnp.ndarray) or _isinstance(v, rnp.void):
                v = unwrap(v)
            elif _isinstance(v, tuple):
                v = tuple(elem(x) for x in v)
            else:
                v = elem(v)
        else:
            if _isinstance(v, SymReal):
                v = int(v) if self.dtype.kind in 'iu' else bool(v)
            elif _isinstance(v, (SymInt, SymBool)):
                v = int(v)
            elif _isinstance(v, SArr) and v.dtype.kind == 'O' and v.dtype.names is None:
                v = rnp.array([(int if self.dtype.kind in 'iu' else bool)(x)
                               for x in v.view(rnp.ndarray).ravel()],
                              dtype=self.dtype).reshape(v.shape)
            elif _isinstance(v, SArr):
                v = unwrap(v)
        super().__setitem__(ix, v)

    def __contains__(self, x):
        return bool((self == x).any())

    def __bool__(self):
        if self.size == 1:
            x = self.view(rnp.ndarray).ravel()[0]
            return bool(x)
        return bool(self.view(rnp.ndarray)) if self.size == 0 else _ambiguous()

    # -- reductions -----------------------------------------------------------
    def min(self, axis=None, out=None, keepdims=False, initial=None, where=True):
        return amin(self, axis=axis, keepdims=keepdims)

    def max(self, axis=None, out=None, keepdims=False, initial=None, where=True):
        return amax(self, axis=axis, keepdims=keepdims)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
        return sum_(self, axis=axis, keepdims=keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, where=True):
        return mean(self, axis=axis, keepdims=keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False):
        if self.dtype.kind != 'O':
            return wrap(self.view(rnp.ndarray).prod(axis=axis, keepdims=keepdims))
        return _reduce(rnp.multiply, self, axis, keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return std(self, axis=axis, ddof=ddof)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return var(self, axis=axis, ddof=ddof)

    def all(self, axis=None, out=None, keepdims=False):
        return all_(self, axis=axis)

    def any(self, axis=None, out=None, keepdims=False):
        return any_(self, axis=axis)

    def argmin(self, axis=None, out=None):
        return argmin(self, axis)

    def argmax(self, axis=None, out=None):
        return argmax(self, axis)

    def cumsum(self, axis=None, dtype=None, out=None):
        return cumsum(self, axis)

    def ptp(self, axis=None):
        return amax(self, axis) - amin(self, axis)

    def round(self, decimals=0, out=None):
        return around(self, decimals)

    def clip(self, min=None, max=None, out=None):
        return clip(self, min, max)

    def dot(self, o):
        return dot(self, o)

    def nonzero(self):
        return nonzero(self)

    def conj(self): return self

    def sort(self, axis=-1, kind=None, order=None):
        s = sort(self, axis=axis, kind=kind, order=order)
        self.view(rnp.ndarray)[...] = s.view(rnp.ndarray)

    def argsort(self, axis=-1, kind=None, order=None):
        return argsort(self, axis=axis, kind=kind, order=order)

    def searchsorted(self, v, side='left', sorter=None):
        return searchsorted(self, v, side)

    def astype(self, dtype, order='K', casting='unsafe', subok=True, copy=True):
        bits = dtype_bits(dtype)
        a = self.view(rnp.ndarray)
        if bits is None or (bits[0] == 'V'):
            dt = map_dtype(dtype)
            out = rnp.empty(a.shape, dtype=dt)
            out = out.view(SArr)
            if a.dtype.names:
                for n, m in zip(dt.names, a.dtype.names):
                    out[n] = self[m]
            return out
        if bits[0] == 'f':
            if a.dtype.names:
                return wrap(a.astype(dtype))
            o = to_obj_elems(rnp.array(to_obj(a), dtype=object))
            return _round_to(o.view(SArr), bits)
        if bits[0] in 'iu' and a.dtype.kind == 'O':
            vals = [x.sym_int() if _isinstance(x, (SymReal, SymInt)) else int(x) for x in a.ravel()]
            if all(not _isinstance(v, SymInt) or v.const for v in vals):
                return rnp.array([int(v) for v in vals], dtype=dtype).reshape(a.shape).view(SArr)
            out = rnp.empty(len(vals), dtype=object)
            out[:] = vals
            return out.reshape(a.shape).view(SArr)
        if bits[0] == 'b' and a.dtype.kind == 'O':
            out = rnp.empty(a.size, dtype=object)
            out[:] = [SymBool(truth(x)) for x in a.ravel()]
            return boolize(out.reshape(a.shape).view(SArr))
        return wrap(a.astype(map_dtype(dtype)))

    def copy(self, order='C'):
        return keep_bits(self.view(rnp.ndarray).copy(order).view(SArr), [self])

    def resize(self, *shape, **kw):
        if len(shape) == 1 and _isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        n = 1
        for s in shape:
            n *= int(s)
        if n != self.size:
            E().unsupported('in-place resize to another size')
        self.shape = tuple(int(s) for s in shape)

    def tofile(self, fp, sep='', format='%s'):
        from . import fs
        fs.tofile(self, fp)

    def tobytes(self, order='C'):
        from . import fs
        a = self.T if order == 'F' else self
        return fs.tobytes(a)

    def tolist(self):
        return self.view(rnp.ndarray).tolist()

    def fill(self, v):
        self[...] = v

    def put(self, *a, **k): E().unsupported('ndarray.put')
    def partition(self, *a, **k): E().unsupported('ndarray.partition')

    def __float__(self):
        if self.size == 1:
            return builtins.float(self.view(rnp.ndarray).ravel()[0])
        raise TypeError('only size-1 arrays can be converted to Python scalars')

    def __int__(self):
        if self.size == 1:
            return builtins.int(self.view(rnp.ndarray).ravel()[0])
        raise TypeError('only size-1 arrays can be converted to Python scalars')

    def __format__(self, spec):
        return str(self.view(rnp.ndarray)) if not spec else format(self.view(rnp.ndarray), spec)


def _ambiguous():
    raise ValueError('The truth value of an array with more than one element is ambiguous. '
                     'Use a.any() or a.all()')


def to_obj_elems(a):
    if a.size == 0:
        return a
    if a.ndim == 0:
        o = rnp.empty((), dtype=object)
        o[()] = elem(a[()])
        return o
    return _vec_elem(a)


def _round_to(a, bits):
    """conversion to a narrower float type: values are abstracted by an
    uninterpreted rounding function."""
    if bits == ('f', 8) or bits[0] != 'f':
        return a
    out = rnp.empty(a.shape, dtype=object)
    src = a.view(rnp.ndarray)
    for i in rnp.ndindex(*a.shape):
        out[i] = f32(src[i])
    if a.ndim == 0:
        out[()] = f32(src[()])
    r = out.view(SArr)
    r._bits = bits
    return r


def f32(x):
    """float32 rounding: exact for representable constants, otherwise an
    uninterpreted value with relative error below 2**-24 (and idempotent)."""
    x = SymReal.of(x)
    if x is None:
        return x
    e = E()
    if getattr(e, 'exact_f32', False):
        return x
    fin = SymReal(x.n, x.d)
    if fin.const:
        q = Fraction(builtins.float(rnp.float32(builtins.float(fin.n)))) if abs(fin.n) < 10**38 else fin.n
        return SymReal(q, None, x.nan, x.pinf, x.ninf)
    t = z3.simplify(fin.z())
    key = ('f32', t.get_id())
    if key in e.names:
        r = e.names[key][1]
    elif t.get_id() in e.names.get('f32out', {}):
        r = t
    else:
        r = e.fresh_real('f32')
        a = z3.If(t >= 0, t, -t)
        eps = core.rv(Fraction(1, 2 ** 24))
        con = z3.And(r - t <= eps * a, t - r <= eps * a)
        e.solver.add(con)
        e.pc.append(con)
        e.model = None
        e.abstracted = True
        e.names[key] = (t, r)
        e.names.setdefault('f32out', {})[r.get_id()] = r
    return SymReal(r, None, x.nan, x.pinf, x.ninf)


# ---------------------------------------------------------------------------
# conversion / creation
# ---------------------------------------------------------------------------

def _nested_shape(x):
    if _isinstance(x, rnp.ndarray):
        return x.shape
    if _isinstance(x, (list, tuple)):
        if len(x) == 0:
            return (0,)
        s = [_nested_shape(e) for e in x]
        if all(t == s[0] for t in s):
            return (len(x),) + s[0]
        # numpy: ragged -> object array over the common leading dimensions
        n = 0
        while all(len(t) > n for t in s) and all(t[n] == s[0][n] for t in s):
            n += 1
        return (len(x),) + s[0][:n]
    return ()


def contains_sym(x):
    if _isinstance(x, SYM):
        return True
    if _isinstance(x, (list, tuple)):
        return any(contains_sym(e) for e in x)
    if _isinstance(x, rnp.ndarray):
        return x.dtype.kind in 'OVf'
    return False


def _listify(x):
    if _isinstance(x, (types.GeneratorType, map, zip, range, dict)):
        return x
    return x


def array(x, dtype=None, copy=True, ndmin=0, order=None, subok=False):
    bits = dtype_bits(dtype) if dtype is not None and not _isinstance(dtype, (list, dict)) else None
    if _isinstance(x, SArr) or _isinstance(x, rnp.ndarray):
        x = wrap(x)
        r = keep_bits(x.view(rnp.ndarray).copy().view(SArr), [x]) if copy else x
        if dtype is not None:
            r = r.astype(dtype)
    elif _isinstance(x, SYM):
        a = rnp.empty((), dtype=object)
        a[()] = elem(x)
        r = a.view(SArr)
        if dtype is not None:
            r = r.astype(dtype)
    elif _isinstance(x, (list, tuple)) and contains_sym(x) and not (
            dtype is not None and (_isinstance(dtype, list) or map_dtype(dtype).names)):
        shape = _nested_shape(x)
        # structured elements: let numpy stack them
        if any(_isinstance(e, (rnp.ndarray, rnp.void)) and e.dtype.names for e in x):
            r = rnp.array([unwrap(e) for e in x])
            r = r.view(SArr)
        else:
            a = rnp.empty(shape, dtype=object)
            if a.size:
                _fill(a, x, ())
            r = a.view(SArr)
            flat = a.ravel()
            if a.size and all(_isinstance(e, (bool, rnp.bool_)) for e in flat):
                r = a.astype(bool).view(SArr)
            elif a.size and all(_isinstance(e, (int, rnp.integer, bool)) for e in flat):
                r = a.astype(int).view(SArr)
            else:
                r = to_obj_keep(a).view(SArr)
        if dtype is not None:
            r = r.astype(dtype)
    else:
        dt = dtype
        if dt is not None:
            dt = map_dtype(dtype)
        if dt is not None and dt.names:
            x = [tuple(e) for e in x]
            a = rnp.empty((len(x),), dtype=dt)
            for i, e in enumerate(x):
                a[i] = tuple((_round_elem(elem(v), dt[k]) if v is not None else rnp_nan()) if dt[k].kind == 'O' else v
                             for k, v in enumerate(e))
            r = a.view(SArr)
        else:
            a = rnp.array(x, copy=True)
            r = wrap(a)
            if dtype is not None and not (bits and bits[0] == 'O'):
                r = r.astype(dtype) if _isinstance(r, SArr) else r
    if ndmin and r.ndim < ndmin:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    return r


def _round_elem(v, dt):
    return f32(v) if dt.metadata and 'sx' in dt.metadata and _isinstance(v, SYM) else v


def rnp_nan():
    return elem(builtins.float('nan'))


def to_obj_keep(a):
    """lift floats, keep None etc."""
    return _vec_elem(a) if a.size else a


def _fill(a, x, ix):
    if len(ix) == a.ndim:
        a[ix] = x
        return
    for i in range(a.shape[len(ix)]):
        _fill(a, x[i], ix + (i,))


def asarr(x, dtype=None):
    if _isinstance(x, SArr) and dtype is None:
        return x if not has_float(x) else wrap(x)
    return array(x, dtype=dtype, copy=False)


asarray = asarr


def asanyarray(x, dtype=None, order=None):
    return asarr(x, dtype)


def _zero_fill(a, value):
    if a.dtype.names:
        for n in a.dtype.names:
            _zero_fill(a[n], value)
    elif a.dtype.kind == 'O':
        a[...] = value
    else:
        a[...] = int(value.n) if _isinstance(value, SymReal) else value


def _shape(s):
    if _isinstance(s, (SymInt,)):
        return s.__index__()
    if _isinstance(s, (tuple, list, rnp.ndarray)):
        return tuple(int(i) for i in s)
    if _isinstance(s, SymReal):
        raise TypeError("'float' object cannot be interpreted as an integer")
    return s


def _set_bits(r, dtype):
    if dtype is not None and r.dtype.kind == 'O' and r.dtype.names is None:
        b = dtype_bits(dtype)
        if b is not None and b[0] == 'f' and b[1] < 8:
            r._bits = b
    return r


def _all_bits(x, out):
    if _isinstance(x, rnp.ndarray):
        out.add(getattr(x, '_bits', None) if x.dtype.kind == 'O' else x.dtype.kind)
    elif _isinstance(x, (list, tuple)):
        for e in x:
            _all_bits(e, out)
    elif _isinstance(x, (SymReal, builtins.float)):
        out.add(None)


def keep_bits(r, sources):
    """arrays put together from single precision arrays are of single precision"""
    if _isinstance(r, SArr) and r.dtype.kind == 'O' and r.dtype.names is None and getattr(r, '_bits', None) is None:
        found = set()
        _all_bits(list(sources), found)
        found -= set('biu')
        if len(found) == 1 and None not in found:
            r._bits = found.pop()
    return r


def zeros(shape, dtype=None, order='C'):
    a = rnp.zeros(_shape(shape), dtype=map_dtype(dtype))
    if a.dtype.kind in 'OV':
        _zero_fill(a, SymReal(Fraction(0)))
    return _set_bits(a.view(SArr), dtype)


def ones(shape, dtype=None, order='C'):
    a = rnp.ones(_shape(shape), dtype=map_dtype(dtype))
    if a.dtype.kind in 'OV':
        _zero_fill(a, SymReal(Fraction(1)))
    return _set_bits(a.view(SArr), dtype)


def full(shape, value, dtype=None, order='C'):
    if dtype is None and _isinstance(value, (int, bool)) and not _isinstance(value, SYM):
        return rnp.full(_shape(shape), value).view(SArr)
    a = _set_bits(rnp.empty(_shape(shape), dtype=map_dtype(dtype)).view(SArr), dtype)
    a[...] = value
    return a


def empty(shape, dtype=None, order='C'):
    a = rnp.empty(_shape(shape), dtype=map_dtype(dtype))
    _garbage(a)
    return _set_bits(a.view(SArr), dtype)


def _garbage(a):
    if a.dtype.names:
        for n in a.dtype.names:
            _garbage(a[n])
    elif a.dtype.kind == 'O':
        g = SymReal(E().fresh_real('uninit'))
        a[...] = g
    else:
        a[...] = 0


def zeros_like(p, dtype=None, order='K', subok=True, shape=None):
    p = asarr(p)
    if shape is None:
        shape = p.shape
    if dtype is None:
        return keep_bits(zeros(shape, p.dtype), [p])
    return zeros(shape, dtype)


def ones_like(p, dtype=None, order='K', subok=True, shape=None):
    p = asarr(p)
    return keep_bits(ones(p.shape if shape is None else shape, p.dtype if dtype is None else dtype), [p] if dtype is None else [])


def empty_like(p, dtype=None, order='K', subok=True, shape=None):
    p = asarr(p)
    return keep_bits(empty(p.shape if shape is None else shape, p.dtype if dtype is None else dtype), [p] if dtype is None else [])


def full_like(p, value, dtype=None, order='K', subok=True, shape=None):
    p = asarr(p)
    return keep_bits(full(p.shape if shape is None else shape, value, p.dtype if dtype is None else dtype), [p] if dtype is None else [])


def arange(*args, dtype=None, **kw):
    args = list(args)
    if 'start' in kw: args = [kw['start']] + args
    if 'stop' in kw: args.append(kw['stop'])
    if 'step' in kw: args.append(kw['step'])
    start, stop, step = 0, None, 1
    if len(args) == 1:
        stop = args[0]
    elif len(args) == 2:
        start, stop = args
    else:
        start, stop, step = args[:3]
    ints = all(_isinstance(v, (int, rnp.integer, SymInt)) and not _isinstance(v, SymReal) for v in (start, stop, step))
    if ints:
        a = rnp.arange(int(start), int(stop), int(step)).view(SArr)
        if dtype is not None:
            a = a.astype(dtype)
        return a
    start, stop, step = (SymReal.of(v) for v in (start, stop, step))
    if bool(step == 0):
        raise ZeroDivisionError('division by zero')
    n = (stop - start) / step
    k = -((-n)._floor_int())
    k = k.__index__()
    out = rnp.empty(max(k, 0), dtype=object)
    for i in range(len(out)):
        out[i] = elem(start + step * i)
    r = out.view(SArr)
    if dtype is not None:
        r = r.astype(dtype)
    return r


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    start, stop = SymReal.of(start), SymReal.of(stop)
    div = num - 1 if endpoint else num
    out = rnp.empty(num, dtype=object)
    step = (stop - start) / div if div > 0 else SymReal(Fraction(0), nan=True)
    for i in range(num):
        out[i] = elem(start + (stop - start) * SymReal(Fraction(i, div) if div else Fraction(0)))
    r = out.view(SArr)
    if dtype is not None:
        r = r.astype(dtype)
    return (r, step) if retstep else r


# ---------------------------------------------------------------------------
# functions
# ---------------------------------------------------------------------------

def _isobj(a):
    return a.dtype.kind == 'O'


def _fork_order():
    return not getattr(E(), 'merge_minmax', True)


def amin(a, axis=None, out=None, keepdims=False, initial=None, where=True):
    a = asarr(_mat(a))
    if not _isobj(a):
        return wrap(a.view(rnp.ndarray).min(axis=axis, keepdims=bool(keepdims is True)))
    return _reduce(rnp.minimum, a, axis, keepdims is True)


def amax(a, axis=None, out=None, keepdims=False, initial=None, where=True):
    a = asarr(_mat(a))
    if not _isobj(a):
        return wrap(a.view(rnp.ndarray).max(axis=axis, keepdims=bool(keepdims is True)))
    return _reduce(rnp.maximum, a, axis, keepdims is True)


def _mat(a):
    """numpy treats generators/maps as 0-d objects; min(map) returns it."""
    return a


def sum_(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    if _isinstance(a, types.GeneratorType):
        return builtins.sum(a)
    a = asarr(a)
    if not _isobj(a):
        r = a.view(rnp.ndarray).sum(axis=axis, keepdims=bool(keepdims is True))
        return wrap(r)
    return _reduce(rnp.add, a, axis, keepdims is True)


def prod(a, axis=None, **k):
    return asarr(a).prod(axis)


def _count(a, axis):
    if axis is None:
        return a.size
    if _isinstance(axis, tuple):
        n = 1
        for x in axis:
            n *= a.shape[x]
        return n
    return a.shape[axis]


def mean(a, axis=None, dtype=None, out=None, keepdims=False, where=True):
    a = asarr(a)
    n = _count(a, axis)
    s = _reduce(rnp.add, to_obj(a.view(rnp.ndarray)).view(SArr), axis, keepdims is True)
    if n == 0:
        nan = SymReal(Fraction(0), nan=True)
        return s * nan if _isinstance(s, rnp.ndarray) else nan
    if _isinstance(s, SYM):
        return SymReal.of(s) / SymReal(Fraction(n))
    return s / SymReal(Fraction(n))


def average(a, axis=None, weights=None, returned=False, keepdims=False):
    a = asarr(a)
    if weights is None:
        r = mean(a, axis)
        if returned:
            return r, SymReal(Fraction(_count(a, axis)))
        return r
    w = asarr(weights)
    if a.shape != w.shape:
        if axis is None:
            raise TypeError('Axis must be specified when shapes of a and weights differ.')
        if w.ndim != 1:
            raise TypeError('1D weights expected when shapes of a and weights differ.')
        if w.shape[0] != a.shape[axis]:
            raise ValueError('Length of weights not compatible with specified axis.')
        w = rnp.broadcast_to(w.view(rnp.ndarray), (a.ndim - 1) * (1,) + w.shape)
        w = rnp.array(w.swapaxes(-1, axis)).view(SArr)
    scl = sum_(w, axis=axis)
    if _isinstance(scl, rnp.ndarray):
        if bool(any_(scl == 0)):
            raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    elif bool(SymReal.of(scl) == 0):
        raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    num = sum_(to_obj(a.view(rnp.ndarray)).view(SArr) * w, axis=axis)
    if _isinstance(num, rnp.ndarray):
        r = num / scl
    else:
        r = SymReal.of(num).as_np() / SymReal.of(scl).as_np()
    return (r, scl) if returned else r


def var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
    a = asarr(a)
    m = mean(a, axis, keepdims=axis is not None)
    d = to_obj(a.view(rnp.ndarray)).view(SArr) - m
    s = sum_(d * d, axis=axis)
    n = _count(a, axis) - ddof
    return s / SymReal(Fraction(n))


def std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
    v = var(a, axis, ddof=ddof)
    return rnp.sqrt(v) if _isinstance(v, rnp.ndarray) else v.sqrt()


def median(a, axis=None, **k):
    a = asarr(a)
    if axis is not None:
        E().unsupported('median axis')
    s = sort(a.ravel())
    n = s.size
    if n == 0:
        return SymReal(Fraction(0), nan=True)
    x = s.view(rnp.ndarray)
    last = getattr(x[-1], 'nan', False)
    if last is not False and bool(SymBool(last)):
        return SymReal(Fraction(0), nan=True)
    return SymReal.of(x[n // 2]) if n % 2 else (SymReal.of(x[n // 2 - 1]) + x[n // 2]) / 2


def all_(a, axis=None, out=None, keepdims=False, where=True):
    a = asarr(a)
    if not _isobj(a):
        return wrap(a.view(rnp.ndarray).all(axis=axis))
    r = _reduce(rnp.logical_and, a, axis, False, SymBool(True) if axis is None else None)
    return r if not _isinstance(r, rnp.ndarray) else boolize(r)


def any_(a, axis=None, out=None, keepdims=False, where=True):
    a = asarr(a)
    if not _isobj(a):
        return wrap(a.view(rnp.ndarray).any(axis=axis))
    r = _reduce(rnp.logical_or, a, axis, False, SymBool(False) if axis is None else None)
    return r if not _isinstance(r, rnp.ndarray) else boolize(r)


def _argext(a, axis, better):
    a = asarr(a)
    if a.size == 0:
        raise ValueError('attempt to get argmin of an empty sequence')
    if axis is not None and a.ndim > 1:
        m = rnp.moveaxis(a.view(rnp.ndarray), axis, -1)
        out = rnp.empty(m.shape[:-1], dtype=int)
        for i in rnp.ndindex(*out.shape):
            out[i] = _argext(m[i].view(SArr), None, better)
        return out.view(SArr)
    flat = list(a.view(rnp.ndarray).ravel())
    # nan handling as numpy: the first nan wins
    best = 0
    for i in range(len(flat)):
        x = flat[i]
        if _isinstance(x, SymReal) and x.nan is not False:
            if bool(SymBool(x.nan)):
                return i
    for i in range(1, len(flat)):
        if bool(better(_c(flat[i]), _c(flat[best]))):
            best = i
    return best


def argmin(a, axis=None, out=None, **k):
    a = asarr(a)
    if not _isobj(a):
        return wrap(a.view(rnp.ndarray).argmin(axis=axis))
    return _argext(a, axis, lambda x, y: x < y)


def argmax(a, axis=None, out=None, **k):
    a = asarr(a)
    if not _isobj(a):
        return wrap(a.view(rnp.ndarray).argmax(axis=axis))
    return _argext(a, axis, lambda x, y: x > y)


def cumsum(a, axis=None, dtype=None, out=None):
    a = asarr(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    if not _isobj(a):
        return wrap(rnp.cumsum(a.view(rnp.ndarray), axis=axis))
    return rnp.add.accumulate(a, axis=axis)


def _keyfun(dtype, order):
    names = list(dtype.names)
    if order is None:
        keys = names
    else:
        order = [order] if _isinstance(order, str) else list(order)
        for o in order:
            if o not in names:
                raise ValueError('unknown field name: %s' % o)
        keys = order + [n for n in names if n not in order]
    return keys


def _less(a, b):
    if _isinstance(a, SymReal) and a.nan is not False or _isinstance(b, SymReal) and b.nan is not False:
        an = bool(SymBool(SymReal.of(a).nan))
        bn = bool(SymBool(SymReal.of(b).nan))
        if an or bn:
            return bn and not an
    return bool(a < b)


def _cmp_scalar(a, b):
    if a is b:
        return 0
    if _less(a, b):
        return -1
    if _less(b, a):
        return 1
    return 0


def _argsort1(a, order=None):
    """stable order of a 1-d array"""
    v = a.view(rnp.ndarray)
    n = v.shape[0]
    if v.dtype.names:
        cols = [[_c(x) for x in v[k]] for k in _keyfun(v.dtype, order)]

        def cmp(i, j):
            for c in cols:
                r = _cmp_scalar(c[i], c[j])
                if r:
                    return r
            return 0
    else:
        vals = [_c(x) for x in v]

        def cmp(i, j):
            return _cmp_scalar(vals[i], vals[j])
    return sorted(range(n), key=functools.cmp_to_key(cmp))


def sort(a, axis=-1, kind=None, order=None):
    a = asarr(a)
    if a.dtype.kind not in 'OV':
        return wrap(rnp.sort(a.view(rnp.ndarray), axis=axis if axis is not None else None))
    if axis is None:
        a = a.ravel()
        axis = -1
    if a.ndim == 0:
        raise rnp.AxisError(axis, 0)
    out = a.copy()
    m = rnp.moveaxis(out.view(rnp.ndarray), axis, -1)
    for i in rnp.ndindex(*m.shape[:-1]):
        row = m[i].copy().view(SArr)
        m[i] = row.view(rnp.ndarray)[_argsort1(row, order)]
    return out


def argsort(a, axis=-1, kind=None, order=None):
    a = asarr(a)
    if a.dtype.kind not in 'OV':
        return wrap(rnp.argsort(a.view(rnp.ndarray), axis=axis, kind='stable'))
    if axis is None:
        a = a.ravel()
        axis = -1
    out = rnp.empty(a.shape, dtype=int)
    m = rnp.moveaxis(a.view(rnp.ndarray), axis, -1)
    o = rnp.moveaxis(out, axis, -1)
    for i in rnp.ndindex(*m.shape[:-1]):
        o[i] = _argsort1(m[i].view(SArr), order)
    return out.view(SArr)


def lexsort(keys, axis=-1):
    keys = [list(asarr(k).view(rnp.ndarray)) for k in keys]

    def cmp(i, j):
        for c in reversed(keys):
            r = _cmp_scalar(_c(c[i]), _c(c[j]))
            if r:
                return r
        return 0
    return rnp.array(sorted(range(len(keys[0])), key=functools.cmp_to_key(cmp)), dtype=int).view(SArr)


def unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    ar = asarr(ar)
    if ar.dtype.kind not in 'OV':
        return wrap(rnp.unique(ar.view(rnp.ndarray), return_index, return_inverse, return_counts))
    if ar.dtype.names:
        E().unsupported('unique of records')
    flat = ar.ravel()
    order = _argsort1(flat)
    v = flat.view(rnp.ndarray)
    groups = []
    for i in order:
        if groups and _cmp_scalar(_c(v[groups[-1][0]]), _c(v[i])) == 0:
            groups[-1].append(i)
        else:
            groups.append([i])
    vals = rnp.empty(len(groups), dtype=object)
    for k_, g in enumerate(groups):
        vals[k_] = v[g[0]]
    out = [vals.view(SArr)]
    if return_index:
        out.append(rnp.array([min(g) for g in groups], dtype=int).view(SArr))
    if return_inverse:
        inv = rnp.zeros(len(v), dtype=int)
        for k_, g in enumerate(groups):
            inv[g] = k_
        out.append(inv.view(SArr))
    if return_counts:
        out.append(rnp.array([len(g) for g in groups], dtype=int).view(SArr))
    return out[0] if len(out) == 1 else tuple(out)


def where3(c, a, b):
    c = asarr(c)
    a = asarr(a) if not _isinstance(a, rnp.ndarray) else wrap(a)
    b = asarr(b) if not _isinstance(b, rnp.ndarray) else wrap(b)
    if not _isobj(c) and a.dtype.kind != 'O' and b.dtype.kind != 'O':
        return wrap(rnp.where(unwrap(c), unwrap(a), unwrap(b)))
    f = rnp.frompyfunc(lambda c_, x, y: ite(truth(c_), _c(x), _c(y)), 3, 1)
    r = f(unwrap(c), to_obj(unwrap(a)) if a.dtype.kind != 'O' else unwrap(a),
          to_obj(unwrap(b)) if b.dtype.kind != 'O' else unwrap(b))
    return r.view(SArr) if _isinstance(r, rnp.ndarray) else r


def where(c, *args):
    if args:
        return where3(c, *args)
    return nonzero(asarr(c))


def nonzero(a):
    a = asarr(a)
    if _isobj(a):
        m = rnp.array([bool(SymBool(truth(x))) for x in a.view(rnp.ndarray).ravel()],
                      dtype=bool).reshape(a.shape)
    else:
        m = a.view(rnp.ndarray)
    return wrap(rnp.nonzero(m))


def flatnonzero(a):
    return nonzero(asarr(a).ravel())[0]


def argwhere(a):
    return rnp.transpose(rnp.array([unwrap(x) for x in nonzero(a)])).view(SArr)


def count_nonzero(a, axis=None, **k):
    a = asarr(a)
    if not _isobj(a):
        return rnp.count_nonzero(a.view(rnp.ndarray), axis=axis)
    o = rnp.empty(a.shape, dtype=object)
    src = a.view(rnp.ndarray)
    for i in rnp.ndindex(*a.shape):
        o[i] = SymBool(truth(src[i])).as_int()
    return _reduce(rnp.add, o.view(SArr), axis, False)


def around(a, decimals=0, out=None):
    if _isinstance(a, SYM):
        return a.round(decimals) if _isinstance(a, SymReal) else a
    a = asarr(a)
    if not _isobj(a):
        return a.copy()
    return wrap(rnp.frompyfunc(lambda x: SymReal.of(x).round(int(decimals)).as_np(), 1, 1)(a.view(rnp.ndarray)))


def clip(a, a_min=None, a_max=None, out=None, **k):
    r = asarr(a)
    if a_min is not None:
        r = rnp.maximum(r, a_min)
    if a_max is not None:
        r = rnp.minimum(r, a_max)
    return r


def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    if _isinstance(x, SYM):
        return SymReal.of(x).nan_to_num(nan, posinf, neginf)
    x = asarr(x)
    if not _isobj(x):
        return x.copy() if copy else x
    r = wrap(rnp.frompyfunc(lambda v: SymReal.of(v).nan_to_num(nan, posinf, neginf), 1, 1)(x.view(rnp.ndarray)))
    if not copy:
        x[...] = r
        return x
    return r


def _is_close1(a, b, rtol, atol):
    a, b = SymReal.of(a), SymReal.of(b)
    fin = (abs(a - b) <= atol + rtol * abs(b))
    if a.clean and b.clean:
        return fin
    f = b_and(a.finite(), b.finite())
    return SymBool(b_or(b_and(f, to_b(fin)),
                        b_and(a.pinf, b.pinf), b_and(a.ninf, b.ninf)))


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    rtol, atol = SymReal.of(rtol), SymReal.of(atol)
    if SymReal._lift(a) is not None and SymReal._lift(b) is not None:
        return _is_close1(a, b, rtol, atol)
    a, b = asarr(a), asarr(b)
    if any(x is None for x in a.view(rnp.ndarray).ravel()) or any(x is None for x in b.view(rnp.ndarray).ravel()):
        raise TypeError("ufunc 'isfinite' not supported for the input types")
    f = rnp.frompyfunc(lambda x, y: _is_close1(x, y, rtol, atol), 2, 1)
    r = f(a.view(rnp.ndarray), b.view(rnp.ndarray))
    if _isinstance(r, rnp.ndarray):
        return boolize(r.view(SArr))
    return r


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    r = isclose(a, b, rtol, atol)
    return r if not _isinstance(r, rnp.ndarray) else all_(r)


def array_equal(a, b, equal_nan=False):
    a, b = asarr(a), asarr(b)
    if a.shape != b.shape:
        return False
    return all_(a == b)


def intersect1d(a, b, assume_unique=False, return_indices=False):
    a, b = asarr(a), asarr(b)
    if a.dtype.kind not in 'O' and b.dtype.kind not in 'O':
        return wrap(rnp.intersect1d(a.view(rnp.ndarray), b.view(rnp.ndarray)))
    u, v = unique(a), unique(b)
    out = [x for x in u.view(rnp.ndarray) if any(_cmp_scalar(x, y) == 0 for y in v.view(rnp.ndarray))]
    return array(out) if out else empty((0,))


def in1d(a, b, **k):
    a, b = asarr(a).ravel(), asarr(b).ravel()
    if a.dtype.kind != 'O' and b.dtype.kind != 'O':
        return wrap(rnp.in1d(unwrap(a), unwrap(b), **k))
    out = rnp.empty(a.size, dtype=object)
    for i, x in enumerate(unwrap(a)):
        out[i] = SymBool(b_or(*[to_b(_c(x) == _c(y)) for y in unwrap(b)]) if b.size else False)
        if k.get('invert'):
            out[i] = ~out[i]
    return boolize(out.view(SArr)) if out.size else out.astype(bool).view(SArr)


def isin(a, b, **k):
    a = asarr(a)
    return in1d(a, b, **k).reshape(a.shape)


def searchsorted(a, v, side='left', sorter=None):
    a = asarr(a)
    vals = list(a.view(rnp.ndarray))

    def one(x):
        n = 0
        if getattr(x, 'nan', False) is not False and bool(SymBool(x.nan)):
            return len(vals)
        for y in vals:
            c = (_c(y) < x) if side == 'left' else (_c(y) <= x)
            if bool(c):
                n += 1
            else:
                break
        return n
    if SymReal._lift(v) is not None:
        return one(SymReal.of(v))
    v = asarr(v)
    return rnp.array([one(_c(x)) for x in v.view(rnp.ndarray).ravel()], dtype=int).reshape(v.shape).view(SArr)


def digitize(x, bins, right=False):
    return searchsorted(bins, x, side='left' if right else 'right')


def diff(a, n=1, axis=-1, **k):
    a = asarr(a)
    for _ in range(n):
        m = rnp.moveaxis(a.view(rnp.ndarray), axis, -1)
        r = m[..., 1:].view(SArr) - m[..., :-1].view(SArr)
        a = rnp.moveaxis(r.view(rnp.ndarray), -1, axis).view(SArr)
    return a


def dot(a, b, out=None):
    a, b = asarr(a), asarr(b)
    if not _isobj(a) and not _isobj(b):
        return wrap(rnp.dot(unwrap(a), unwrap(b)))
    if a.ndim == 1 and b.ndim == 1:
        return sum_(a * b)
    if a.ndim == 2 and b.ndim == 1:
        return sum_(a * b, axis=1)
    if a.ndim == 1 and b.ndim == 2:
        return sum_(a.reshape(-1, 1) * b, axis=0)
    if a.ndim == 2 and b.ndim == 2:
        return sum_(a.reshape(a.shape + (1,)) * b.reshape((1,) + b.shape), axis=1)
    E().unsupported('dot of these shapes')


def trapz(y, x=None, dx=1.0, axis=-1):
    y = asarr(y)
    d = diff(asarr(x)) if x is not None else dx
    return sum_(d * (y[1:] + y[:-1]) / 2)


def gradient(f, *varargs, axis=None, edge_order=1):
    impl = rnp.gradient._implementation
    f = asarr(f)
    f = to_obj(f.view(rnp.ndarray)).view(SArr)
    va = []
    for v in varargs:
        if SymReal._lift(v) is not None:
            va.append(SymReal.of(v).as_np())
        else:
            va.append(asarr(v))
    # spacings: scalars or coordinate arrays
    arrs = [v for v in va if _isinstance(v, rnp.ndarray)]
    if arrs:
        E().unsupported('gradient with coordinate arrays')
    return _gradient(f, va, axis, edge_order)


def _gradient(f, varargs, axis, edge_order):
    N = f.ndim
    axes = tuple(range(N)) if axis is None else ((axis,) if not _isinstance(axis, tuple) else axis)
    axes = tuple(a % N for a in axes)
    n = len(varargs)
    if n == 0:
        dx = [SymReal(Fraction(1))] * len(axes)
    elif n == 1:
        dx = list(varargs) * len(axes)
    elif n == len(axes):
        dx = list(varargs)
    else:
        raise TypeError('invalid number of arguments')
    if edge_order > 2:
        raise ValueError("'edge_order' greater than 2 not supported")
    outs = []
    for ax, h in zip(axes, dx):
        if f.shape[ax] < edge_order + 1:
            raise ValueError('Shape of array too small to calculate a numerical gradient, '
                             'at least (edge_order + 1) elements are required.')
        m = rnp.moveaxis(f.view(rnp.ndarray), ax, 0)
        out = rnp.empty(m.shape, dtype=object)
        g = lambda i: m[i].view(SArr) if m.ndim > 1 else m[i]
        k = m.shape[0]
        for i in range(1, k - 1):
            out[i] = unwrap((g(i + 1) - g(i - 1)) / (h * 2))
        if edge_order == 1:
            out[0] = unwrap((g(1) - g(0)) / h)
            out[-1] = unwrap((g(k - 1) - g(k - 2)) / h)
        else:
            out[0] = unwrap((g(1) * 4 - g(0) * 3 - g(2)) / (h * 2))
            out[-1] = unwrap((g(k - 1) * 3 - g(k - 2) * 4 + g(k - 3)) / (h * 2))
        outs.append(rnp.moveaxis(out, 0, ax).view(SArr))
    return outs[0] if len(outs) == 1 else outs


def meshgrid(*xi, indexing='xy', sparse=False, copy=True):
    r = rnp.meshgrid(*[unwrap(asarr(x)) for x in xi], indexing=indexing, sparse=sparse, copy=copy)
    return [x.view(SArr) for x in r]


def indices(dimensions, dtype=int, sparse=False):
    dims = tuple(_shape(d) if _isinstance(d, SymInt) else d for d in dimensions)
    r = rnp.indices(dims, sparse=sparse)
    if sparse:
        return tuple(x.view(SArr).astype(dtype) for x in r)
    return r.view(SArr).astype(dtype)


class _Grid(object):
    """np.mgrid and np.ogrid"""

    def __init__(self, sparse):
        self.sparse = sparse

    def __getitem__(self, key):
        one = not _isinstance(key, tuple)
        axes = []
        for s in (key,) if one else key:
            start = 0 if s.start is None else s.start
            step = 1 if s.step is None else s.step
            if _isinstance(step, complex):
                axes.append(linspace(start, s.stop, int(abs(step))))
            else:
                axes.append(arange(start, s.stop, step))
        if one:
            return axes[0]
        r = rnp.meshgrid(*[unwrap(a) for a in axes], indexing='ij', sparse=self.sparse)
        if self.sparse:
            return [x.view(SArr) for x in r]
        if any(x.dtype.kind == 'O' for x in r):
            r = [unwrap(asarr(x).astype(npfloat)) for x in r]
        return rnp.array(r).view(SArr)


def append_(arr, values, axis=None):
    arr, values = asarr(arr), asarr(values)
    if axis is None:
        if arr.ndim != 1:
            arr = arr.ravel()
        values = values.ravel()
        axis = 0
    return concatenate((arr, values), axis=axis)


def concatenate(seq, axis=0, out=None, dtype=None, casting=None):
    seq = [asarr(x) for x in seq]
    kinds = set(x.dtype.kind for x in seq)
    if 'O' in kinds and len(kinds) > 1 and 'V' not in kinds:
        seq = [to_obj(x.view(rnp.ndarray)).view(SArr) for x in seq]
    return keep_bits(wrap(rnp.concatenate([x.view(rnp.ndarray) for x in seq], axis=axis)), seq)


def size_(a, axis=None):
    a = asarr(a) if not _isinstance(a, rnp.ndarray) else a
    return a.size if axis is None else a.shape[axis]


def shape_(a):
    return _nested_shape(a) if not _isinstance(a, rnp.ndarray) else a.shape


def ndim_(a):
    return len(shape_(a))


def savetxt(fname, X, fmt='%.18e', delimiter=' ', newline='\n', header='', footer='',
            comments='# ', encoding=None):
    from . import fs, loader
    X = asarr(X)
    if X.dtype.names:
        rows = [tuple(X[n].view(rnp.ndarray)[i] for n in X.dtype.names) for i in range(X.shape[0])]
    elif X.ndim == 1:
        rows = [(x,) for x in X.view(rnp.ndarray)]
    else:
        rows = [tuple(r) for r in X.view(rnp.ndarray)]
    lines = []
    if header:
        lines.append(comments + header.replace('\n', '\n' + comments))
    for r in rows:
        if _isinstance(fmt, (list, tuple)):
            lines.append(delimiter.join(loader.sx_mod(f, v) for f, v in zip(fmt, r)))
        elif fmt.count('%') == 1:
            lines.append(delimiter.join(loader.sx_mod(fmt, v) for v in r))
        else:
            lines.append(loader.sx_mod(fmt, tuple(r)))
    if footer:
        lines.append(comments + footer)
    text = newline.join(lines) + (newline if lines else '')
    if hasattr(fname, 'write'):
        fname.write(text)
    else:
        with fs.open_(fname, 'w') as fp:
            fp.write(text)


def genfromtxt(fname, dtype=float, comments='#', delimiter=None, skip_header=0, names=None,
               unpack=None, usecols=None, ndmin=0, **kw):
    from . import fs
    if kw:
        E().unsupported('genfromtxt option %s' % list(kw))
    with fs.open_(fname, 'r') as fp:
        text = fp.read()
    lines = text.splitlines()[skip_header:]
    rows = []
    labels = None
    for ln in lines:
        if names is True and labels is None:
            s = ln.strip()
            if s.startswith(comments):
                s = s[len(comments):]
            labels = s.split(delimiter)
            continue
        s = ln.split(comments)[0].strip() if comments else ln.strip()
        if not s:
            continue
        rows.append([E().read_number(w) for w in s.split(delimiter)])
    if rows and any(len(r) != len(rows[0]) for r in rows):
        raise ValueError('Some errors were detected !')
    if usecols is not None:
        rows = [[r[i] for i in usecols] for r in rows]
    if labels is not None:
        a = rnp.empty(len(rows), dtype=[(l, object) for l in labels])
        for i, l in enumerate(labels):
            col = rnp.empty(len(rows), dtype=object)
            col[:] = [elem(r[i]) for r in rows]
            a[l] = col
        if len(rows) == 1:
            a = a.reshape(())
        return a.view(SArr)
    a = rnp.empty((len(rows), len(rows[0]) if rows else 0), dtype=object)
    for i, r in enumerate(rows):
        for j, v in enumerate(r):
            a[i, j] = elem(v)
    if ndmin < 2:
        a = rnp.squeeze(a)
        if ndmin == 1:
            a = rnp.atleast_1d(a)
    if unpack:
        a = a.T
    return a.view(SArr)


loadtxt = genfromtxt


def fromfile(fp, dtype=float, count=-1, sep='', offset=0):
    from . import fs
    if is_record(dtype):
        return fs.fromfile_records(fp, map_dtype(dtype), record_layout(dtype), count, offset)
    return fs.fromfile(fp, dtype_bits(dtype), count, offset)


def frombuffer(buffer, dtype=float, count=-1, offset=0):
    from . import fs
    if is_record(dtype):
        return fs.frombuffer_records(buffer, map_dtype(dtype), record_layout(dtype), count, offset)
    return fs.frombuffer(buffer, dtype_bits(dtype), count, offset)


def _real_dtype(x):
    """the dtype itself if it has numbers of a size or order of its own"""
    if _isinstance(x, type) and x.__module__.startswith('symx'):
        return None
    try:
        if _isinstance(x, list):
            dt = rnp.dtype([(f[0], _real_dtype(f[1]) or map_dtype(f[1])) + tuple(f[2:]) for f in x])
        else:
            dt = rnp.dtype(x)
    except TypeError:
        return None
    for f in ([dt.fields[n][0] for n in dt.names] if dt.names else [dt]):
        if f.base.kind == 'f' and (f.base.itemsize != 8 or f.base.byteorder == '>'):
            return dt
    return None


def dtype_(x, *a, **k):
    return _real_dtype(x) or map_dtype(x)


def result_type(*a):
    ds = [x.dtype if _isinstance(x, rnp.ndarray) else x for x in a]
    if any(_isinstance(d, SYM) or (_isinstance(d, rnp.dtype) and d.kind == 'O')
           or _isinstance(d, builtins.float) for d in ds):
        return rnp.dtype(object)
    return rnp.result_type(*ds)


def issubdtype(a, b):
    try:
        if rnp.dtype(a).kind == 'O':
            a = rnp.float64
    except TypeError:
        pass
    return rnp.issubdtype(a, b)


def iscomplexobj(x): return False
def isrealobj(x): return True
def real_if_close(x, *a): return x


def vectorize(f, *a, **k):
    E().unsupported('vectorize')


def isscalar(x):
    return _isinstance(x, SYM) or rnp.isscalar(x)


def array_split_(*a, **k):
    return wrap(rnp.array_split(*[unwrap(x) for x in a], **k))


def _nan_free(name, g):
    """the function without the elements which are nan"""
    def f(a, axis=None, **k):
        a = asarr(a)
        raw = a.view(rnp.ndarray)
        if not _isobj(a) or builtins.all(SymReal.of(x).nan is False or E().entailed(SymReal.of(x).nan) is False for x in raw.ravel()):
            if not _isobj(a) and a.dtype.kind == 'f' and rnp.isnan(raw).any():
                raw = raw.astype(object)
            else:
                return g(a, axis, **k) if axis is not None else g(a, **k)
        if axis is not None and a.ndim > 1:
            if a.ndim != 2 or k:
                E().unsupported('nan' + name + ' of this form')
            rows = raw if axis in (1, -1) else raw.T
            return wrap(rnp.array([f(wrap(r)) for r in rows], dtype=object))
        keep = [(i, x) for i, x in enumerate(raw.ravel()) if not builtins.bool(SymBool(SymReal.of(x).nan))]
        if keep:
            r = g(wrap(rnp.array([x for _, x in keep] + [None], dtype=object)[:-1]), **k)
            return keep[int(r)][0] if name.startswith('arg') else r
        if name == 'sum':
            return elem(0.0)
        if name.startswith('arg'):
            raise ValueError('All-NaN slice encountered')
        return rnp_nan()
    return f


FUNCS = {
    'amin': amin, 'amax': amax, 'min': amin, 'max': amax, 'sum': sum_, 'prod': prod, 'mean': mean, 'average': average,
    'var': var, 'std': std, 'median': median, 'all': all_, 'any': any_, 'alltrue': all_, 'sometrue': any_,
    'argmin': argmin, 'argmax': argmax, 'cumsum': cumsum, 'sort': sort, 'argsort': argsort, 'lexsort': lexsort,
    'unique': unique, 'where': where, 'nonzero': nonzero, 'flatnonzero': flatnonzero,
    'argwhere': argwhere, 'count_nonzero': count_nonzero,
    'around': around, 'round_': around, 'round': around, 'clip': clip, 'nan_to_num': nan_to_num, 'isclose': isclose,
    'allclose': allclose, 'array_equal': array_equal, 'intersect1d': intersect1d, 'in1d': in1d, 'isin': isin,
    'searchsorted': searchsorted, 'digitize': digitize, 'diff': diff, 'dot': dot, 'trapz': trapz,
    'gradient': gradient, 'meshgrid': meshgrid, 'indices': indices, 'append': append_, 'concatenate': concatenate,
    'size': size_, 'shape': shape_, 'ndim': ndim_, 'savetxt': savetxt, 'genfromtxt': genfromtxt,
    'loadtxt': loadtxt, 'fromfile': fromfile, 'frombuffer': frombuffer, 'result_type': result_type,
    'zeros_like': zeros_like, 'ones_like': ones_like, 'empty_like': empty_like, 'full_like': full_like,
    'linspace': linspace, 'iscomplexobj': iscomplexobj, 'isrealobj': isrealobj,
    'real_if_close': real_if_close, 'nansum': _nan_free('sum', sum_), 'nanmean': _nan_free('mean', mean),
    'nanmin': _nan_free('min', amin), 'nanmax': _nan_free('max', amax),
}

# creation functions only reachable through the module
CREATE = {
    'array': array, 'asarray': asarr, 'asanyarray': asanyarray, 'ascontiguousarray': asarr,
    'zeros': zeros, 'ones': ones, 'empty': empty, 'full': full, 'arange': arange,
    'dtype': dtype_, 'issubdtype': issubdtype, 'isscalar': isscalar, 'vectorize': vectorize,
}

# pure data movement: run numpy's own code on the raw object arrays
PASS = {'reshape', 'ravel', 'transpose', 'swapaxes', 'moveaxis', 'rollaxis', 'squeeze', 'expand_dims',
        'broadcast_to', 'broadcast_arrays', 'repeat', 'tile', 'roll', 'flip', 'fliplr', 'flipud',
        'rot90', 'stack', 'vstack', 'hstack', 'dstack', 'column_stack', 'split', 'array_split', 'hsplit', 'vsplit',
        'atleast_1d', 'atleast_2d', 'atleast_3d', 'take', 'copy', 'delete', 'insert', 'resize', 'pad',
        'ix_', 'unravel_index', 'ravel_multi_index', 'ndindex', 'eye', 'identity', 'tri', 'tril', 'triu',
        'diag', 'diagonal', 'trim_zeros', 'compress', 'take_along_axis', 'ndenumerate', 'nditer', 'row_stack', 'block',
        'kron', 'outer', 'cross', 'inner', 'matmul', 'einsum', 'tensordot', 'copyto'}
# reduced/arithmetical members of PASS must see SArr
PASS_ARITH = {'kron', 'outer', 'cross'}
PASS_C = PASS - PASS_ARITH - {'inner', 'matmul', 'einsum', 'tensordot'}


def _map_args(x, f):
    if _isinstance(x, rnp.ndarray):
        return f(x)
    if type(x) is list:
        return [_map_args(e, f) for e in x]
    if type(x) is tuple:
        return tuple(_map_args(e, f) for e in x)
    return x


class _Ufunc(object):
    """np.<ufunc> of the proxy module"""

    def __init__(self, uf):
        self.uf = uf
        self.__name__ = uf.__name__

    def _lift(self, a):
        if _isinstance(a, SYM):
            return a
        if _isinstance(a, (list, tuple)):
            return array(a)
        if _isinstance(a, rnp.ndarray):
            return wrap(a)
        return a

    def __call__(self, *args, **kw):
        args = [self._lift(a) for a in args]
        if self.uf in snp_more.UFUNCS and any(_isinstance(a, SYM + (SArr,)) for a in args):
            return snp_more.UFUNCS[self.uf](*args)
        kw = {k: (map_dtype(v) if k == 'dtype' else v) for k, v in kw.items()}
        if not any(_isinstance(a, SArr) for a in args):
            # scalars only
            if any(_isinstance(a, SYM) for a in args) or self.uf in ELEM_UFUNC:
                a2 = []
                for a in args:
                    if _isinstance(a, (builtins.float, rnp.floating)) or (
                            self.uf in FLOAT_RESULT and SymReal.of(a) is not None):
                        a = SymReal.of(a).as_np()
                    elif _isinstance(a, SymReal):
                        a = a.as_np()
                    a2.append(a)
                u = _BITS.get(self.uf, self.uf)
                f = ELEM_UFUNC.get(u)
                if f is None:
                    E().unsupported('ufunc %s' % self.__name__)
                if self.uf in ELEM_UFUNC and not any(_isinstance(a, SYM) for a in a2):
                    r = wrap(self.uf(*a2))
                else:
                    r = f(*a2)
                return r
            return wrap(self.uf(*args, **kw))
        return self.uf(*args, **kw)

    def _red(self, name, a, *args, **kw):
        a = self._lift(a)
        return getattr(self.uf, name)(a, *args, **kw)

    def reduce(self, a, *args, **kw): return self._red('reduce', a, *args, **kw)
    def accumulate(self, a, *args, **kw): return self._red('accumulate', a, *args, **kw)

    def outer(self, a, b, **kw):
        a, b = asarr(a), asarr(b)
        return self.uf(a.reshape(a.shape + (1,) * b.ndim), b)

    def at(self, *a, **k):
        E().unsupported('ufunc.at')

    def reduceat(self, *a, **k):
        E().unsupported('ufunc.reduceat')


def _proxy(name, f):
    def g(*args, **kw):
        return f(*args, **kw)
    g.__name__ = name
    return g


def _pass(name):
    rf = getattr(rnp, name)

    def g(*args, **kw):
        # numbers of elements (repetitions, shapes, axes) after the first argument
        args = [(tuple(_shape(e) if _isinstance(e, SymInt) else e for e in a)
                 if i > 0 and _isinstance(a, tuple) and a and all(_isinstance(e, (builtins.int, SymInt)) for e in a)
                 else a) for i, a in enumerate(args)]
        args = [(array(a, copy=False) if _isinstance(a, (list, tuple)) and contains_sym(a) and
                 not any(_isinstance(e, rnp.ndarray) for e in a) else a) for a in args]
        args = [_shape(a) if _isinstance(a, (SymInt,)) else a for a in args]
        if name in PASS_ARITH:
            impl = getattr(rf, '_implementation', rf)
            return wrap(impl(*[asarr(a) if _isinstance(a, (list, tuple, rnp.ndarray)) else a for a in args], **kw))
        if name in ('inner', 'matmul', 'einsum', 'tensordot', 'copyto'):
            if name in ('matmul', 'inner'):
                return dot(*args)
            E().unsupported('numpy.' + name)
        a2 = _map_args(tuple(args), unwrap)
        k2 = {k: _map_args(v, unwrap) for k, v in kw.items()}
        if 'dtype' in k2:
            k2['dtype'] = map_dtype(k2['dtype'])
        return keep_bits(wrap(rf(*a2, **k2)), args)
    g.__name__ = name
    return g


class FloatMeta(type):
    def __instancecheck__(cls, x):
        return _isinstance(x, (builtins.float, SymReal)) or _isinstance(x, rnp.floating)

    def __call__(cls, x=0.0):
        from . import loader
        return loader.sx_float(x, np=True)


class npfloat(metaclass=FloatMeta):
    _sx_float = True


npfloat.__name__ = 'float'


class _MaArray(object):
    pass


from . import snp_more  # noqa: E402
snp_more.install()


def make_module():
    m = types.ModuleType('numpy')
    for n in dir(rnp):
        if n.startswith('__'):
            continue
        v = getattr(rnp, n, None) if n not in ('testing', 'distutils') else None
        if _isinstance(v, rnp.ufunc):
            setattr(m, n, _Ufunc(v))
    for n, f in FUNCS.items():
        setattr(m, n, _proxy(n, _liftlists(f)))
    for n, f in CREATE.items():
        setattr(m, n, f)
    for n in PASS:
        if hasattr(rnp, n):
            setattr(m, n, _pass(n))
    m.abs = m.absolute
    m.ndarray = SArr
    m.inf = builtins.float('inf')
    m.Inf = m.inf
    m.PINF = m.inf
    m.NINF = -m.inf
    m.nan = SymReal(Fraction(0), nan=True)
    m.NaN = m.nan
    m.NAN = m.nan
    m.pi = SymReal(Fraction('3.141592653589793'))
    m.e = SymReal(Fraction('2.718281828459045'))
    m.newaxis = None
    m.void = rnp.void
    m.float = npfloat
    m.float64 = npfloat
    m.double = npfloat
    m.float_ = npfloat
    m.float32 = rnp.float32
    m.float16 = rnp.float16
    m.single = rnp.float32
    for n in ('int', 'uint', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64',
              'intp', 'int_', 'bool_', 'integer', 'floating', 'number', 'generic', 'inexact', 's_', 'r_', 'c_',
              'index_exp', 'AxisError', 'object_', 'str_', 'signedinteger', 'unsignedinteger', 'broadcast',
              'set_printoptions', 'iinfo', 'flatiter', 'ufunc'):
        if hasattr(rnp, n):
            try:
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    setattr(m, n, getattr(rnp, n))
            except AttributeError:
                pass
    m.bool = bool
    m.object = object
    m.str = str
    m.fix = m.trunc
    m.mgrid = _Grid(False)
    m.ogrid = _Grid(True)
    m.finfo = rnp.finfo
    m.errstate = _errstate
    m.seterr = lambda **k: {}
    m.geterr = lambda: {}
    m.RankWarning = rnp.RankWarning
    m.VisibleDeprecationWarning = rnp.VisibleDeprecationWarning
    m.ma = snp_more.make_ma(m)
    m.rec = types.SimpleNamespace(fromarrays=snp_more.fromarrays)
    m.core = types.SimpleNamespace(records=m.rec)
    m.linalg = types.SimpleNamespace(norm=_norm, lstsq=_lstsq)
    m.testing = rnp.testing
    m.lib = types.SimpleNamespace(recfunctions=types.SimpleNamespace(append_fields=append_fields))
    m.__version__ = rnp.__version__
    m.polyfit = _polyfit
    m.polyval = _polyval

    def __getattr__(name):
        if name.startswith('__') or not hasattr(rnp, name):
            raise AttributeError("module 'numpy' has no attribute %r" % name)
        E().unsupported('numpy.%s' % name)
    m.__getattr__ = __getattr__
    return m


def _liftlists(f):
    @functools.wraps(f)
    def g(*args, **kw):
        if args and _isinstance(args[0], rnp.ndarray) and not _isinstance(args[0], SArr):
            args = (wrap(args[0]),) + args[1:]
        if args and _isinstance(args[0], (SymReal, SymInt)) and f in (amin, amax, sum_, mean):
            return args[0]
        return f(*args, **kw)
    return g


class _errstate(object):
    def __init__(self, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False

    def __call__(self, f): return f


def _ma_unsupported(*a, **k):
    E().unsupported('masked array')


def _norm(x, ord=None, axis=None):
    x = asarr(x)
    s = sum_(x * x, axis=axis)
    return rnp.sqrt(s) if _isinstance(s, rnp.ndarray) else s.sqrt()


def _lstsq(a, b, rcond='warn'):
    from . import sopt
    return sopt.lstsq(a, b)


def _polyfit(x, y, deg, **k):
    if deg != 1:
        E().unsupported('polyfit degree')
    x, y = asarr(x), asarr(y)
    mx, my = mean(x), mean(y)
    slope = sum_((x - mx) * (y - my)) / sum_((x - mx) * (x - mx))
    return array([slope, my - slope * mx])


def _polyval(p, x):
    y = SymReal(Fraction(0))
    for c in asarr(p).view(rnp.ndarray):
        y = y * x + c
    return y


def append_fields(base, names, data, dtypes=None, fill_value=-1, usemask=True, asrecarray=False):
    base = asarr(base)
    if _isinstance(names, str):
        names, data = [names], [data]
    dt = [(n, base.dtype.fields[n][0]) for n in base.dtype.names] + [(n, object) for n in names]
    out = rnp.empty(base.shape, dtype=dt)
    for n in base.dtype.names:
        out[n] = base[n]
    for n, d in zip(names, data):
        out[n] = unwrap(asarr(d)).ravel()
    return out.view(SArr)
