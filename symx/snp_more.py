"""Further numpy functions of the model, expressed through those of snp.py."""
import builtins
import functools
from fractions import Fraction

import numpy as rnp

from . import snp
from .core import SymBool, SymInt, SymReal

SArr = snp.SArr
_isinstance = isinstance
_IDENT = {'sum': 0, 'prod': 1, 'all': True, 'any': False}
_COMBINE = {'sum': rnp.add, 'prod': rnp.multiply, 'amin': rnp.minimum, 'amax': rnp.maximum}


def _given(x):
    return x is not None and x is not rnp._NoValue


def reduction(name, f):
    """reductions with where, initial, out and keepdims"""
    @functools.wraps(f)
    def g(a, axis=None, *args, **kw):
        where, initial, out, keep = (kw.pop(k, d) for k, d in (('where', True), ('initial', None), ('out', None), ('keepdims', False)))
        keep = keep is True
        if not _given(where):
            where = True
        if where is True and not _given(initial) and not keep and not _given(out):
            return f(a, axis, *args, **kw)
        a = snp.asarr(a)
        if where is not True:
            w = snp.asarr(where)
            w = rnp.broadcast_to(w.view(rnp.ndarray), a.shape).view(SArr)
            if name in _IDENT:
                a = snp.where3(w, a, _IDENT[name])
            elif name in ('amin', 'amax') and _given(initial):
                a = snp.where3(w, a, initial)
            elif name == 'mean':
                n = snp.count_nonzero(w, axis=axis)
                r = snp.sum_(snp.where3(w, a, 0), axis=axis)
                r = r / n if _isinstance(r, rnp.ndarray) or _isinstance(n, rnp.ndarray) else SymReal.of(r).as_np() / SymReal.of(n).as_np()
                return finish(r, a, axis, keep, out)
            else:
                snp.E().unsupported('where in numpy.%s' % name)
        if _given(initial) and a.size == 0 and axis is None:
            r = SymReal.of(initial)
        else:
            r = f(a, axis, *args, **kw)
            if _given(initial):
                r = snp._Ufunc(_COMBINE[name])(r, initial)
        return finish(r, a, axis, keep, out)
    return g


def finish(r, a, axis, keep, out):
    if keep:
        shape = list(a.shape)
        for x in (range(a.ndim) if axis is None else axis if _isinstance(axis, tuple) else (axis,)):
            shape[x] = 1
        o = rnp.empty(tuple(shape), dtype=object)
        o[...] = r.view(rnp.ndarray).reshape(shape) if _isinstance(r, rnp.ndarray) else r
        r = snp.wrap(o)
    if _given(out):
        out[...] = r
        return out
    return r


def method(f):
    def g(self, axis=None, *args, **kw):
        return f(self, axis, *args, **kw)
    return g


# -- selections and sets ------------------------------------------------------

def extract(condition, arr):
    return snp.asarr(arr).ravel()[snp.nonzero(snp.asarr(condition).ravel())[0]]


def union1d(a, b):
    return snp.unique(snp.append_(snp.asarr(a).ravel(), snp.asarr(b).ravel()))


def setdiff1d(a, b, assume_unique=False):
    a = snp.asarr(a).ravel() if assume_unique else snp.unique(a)
    return extract(snp.in1d(a, b, invert=True), a)


def setxor1d(a, b, assume_unique=False):
    a, b = snp.unique(a), snp.unique(b)
    return union1d(setdiff1d(a, b), setdiff1d(b, a))


def select(condlist, choicelist, default=0):
    r = default
    for c, v in list(zip(condlist, choicelist))[::-1]:
        r = snp.where3(c, v, r)
    return r


def piecewise(x, condlist, funclist, *args, **kw):
    x = snp.asarr(x)
    condlist = [snp.asarr(c) for c in condlist]
    rest = list(funclist[len(condlist):])
    val = lambda f: f(x, *args, **kw) if callable(f) else f
    r = val(rest[0]) if rest else 0
    for c, f in zip(condlist, funclist):
        r = snp.where3(c, val(f), r)
    return r


def choose(a, choices, out=None, mode='raise'):
    a = snp.asarr(a)
    r = choices[-1]
    for k in range(len(choices) - 2, -1, -1):
        r = snp.where3(a == k, choices[k], r)
    return r


def putmask(a, mask, values):
    v = snp.asarr(values)
    if v.size not in (1, a.size):
        snp.E().unsupported('putmask with repeated values')
    a[...] = snp.where3(mask, v.reshape(a.shape) if v.size != 1 or v.ndim else v, a)


def copyto(dst, src, casting='same_kind', where=True):
    dst[...] = src if where is True else snp.where3(where, snp.asarr(src), dst)


def place(a, mask, vals):
    k = snp.nonzero(snp.asarr(mask).ravel())[0]
    vals = list(snp.asarr(vals).ravel())
    for n, i in enumerate(k):
        a.reshape(-1)[int(i)] = vals[n % len(vals)]


def put(a, ind, v, mode='raise'):
    ind, v = snp.asarr(ind).ravel(), snp.asarr(v).ravel()
    for n, i in enumerate(ind):
        idx = rnp.unravel_index(int(i) % a.size, a.shape)
        a[idx] = v[n % v.size]


def put_along_axis(a, indices, values, axis):
    E = snp.E()
    if _isinstance(a, rnp.ndarray) and not (_isinstance(indices, SArr) and indices.dtype.kind == 'O'):
        rnp.put_along_axis(snp.unwrap(a), snp.unwrap(snp.asarr(indices)), snp.unwrap(values), axis)
        return
    E.unsupported('put_along_axis')


def fill_diagonal(a, val, wrap=False):
    for k in range(builtins.min(a.shape)):
        a[(k,) * a.ndim] = val


# -- sums --------------------------------------------------------------------

def product(a, axis=None, **k):
    return snp.prod(a, axis, **k)


def cumprod(a, axis=None, dtype=None, out=None):
    a = snp.asarr(a)
    if axis is None:
        a, axis = a.ravel(), 0
    return rnp.multiply.accumulate(a, axis=axis)


def ptp(a, axis=None, **k):
    return snp.amax(a, axis) - snp.amin(a, axis)


def ediff1d(ary, to_end=None, to_begin=None):
    r = snp.diff(snp.asarr(ary).ravel())
    parts = ([snp.asarr(to_begin).ravel()] if to_begin is not None else []) + [r] + ([snp.asarr(to_end).ravel()] if to_end is not None else [])
    return snp.concatenate(parts) if len(parts) > 1 else r


def bincount(x, weights=None, minlength=0):
    x = snp.asarr(x)
    idx = [int(i) for i in x]
    if any(i < 0 for i in idx):
        raise ValueError("'list' argument must have no negative elements")
    n = builtins.max([int(minlength)] + [i + 1 for i in idx])
    if weights is None:
        return snp.wrap(rnp.bincount(rnp.array(idx, dtype=int), minlength=n))
    w = snp.asarr(weights)
    if w.shape != x.shape:
        raise ValueError('The weights and list don\'t have the same length.')
    out = snp.zeros(n)
    for i, v in zip(idx, w):
        out[i] = out[i] + v
    return out


def histogram(a, bins=10, range=None, weights=None, density=None, **k):
    a = snp.asarr(a).ravel()
    if density:
        snp.E().unsupported('histogram density')
    if not _isinstance(bins, (list, tuple, rnp.ndarray)):
        lo, hi = (snp.amin(a), snp.amax(a)) if range is None else range
        if range is None and bool(lo == hi):
            lo, hi = lo - SymReal(Fraction(1, 2)), hi + SymReal(Fraction(1, 2))
        bins = snp.linspace(lo, hi, int(bins) + 1)
    edges = snp.asarr(bins)
    n = edges.size - 1
    w = None if weights is None else snp.asarr(weights).ravel()
    out = snp.zeros(n) if w is not None else rnp.zeros(n, dtype=int).view(SArr)
    for i, v in enumerate(a):
        for b in builtins.range(n):
            if bool(v >= edges[b]) and (bool(v < edges[b + 1]) or (b == n - 1 and bool(v == edges[n]))):
                out[b] = out[b] + (w[i] if w is not None else 1)
                break
    return out, edges


def convolve(a, v, mode='full'):
    a, v = list(snp.asarr(a)), list(snp.asarr(v))
    if len(v) > len(a):
        a, v = v, a
    if not v:
        raise ValueError('v cannot be empty')
    full = []
    for k in range(len(a) + len(v) - 1):
        s = None
        for j in range(len(v)):
            if 0 <= k - j < len(a):
                t = a[k - j] * v[j]
                s = t if s is None else s + t
        full.append(s)
    n, m = len(a), len(v)
    if mode in ('valid', 0):
        full = full[m - 1:n]
    elif mode in ('same', 1):
        b = (m - 1) // 2
        full = full[b:b + n]
    return snp.array(full)


def correlate(a, v, mode='valid'):
    a, v = snp.asarr(a), snp.asarr(v)
    if v.size > a.size:
        snp.E().unsupported('correlate with the longer array last')
    return convolve(a, v[::-1], mode)


def interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        snp.E().unsupported('interp with a period')
    xp, fp = snp.asarr(xp), snp.asarr(fp)
    n = xp.size

    def one(v):
        if bool(v < xp[0]):
            return SymReal.of(fp[0] if left is None else left)
        if bool(v > xp[n - 1]):
            return SymReal.of(fp[n - 1] if right is None else right)
        for k in range(n - 1):
            if bool(v < xp[k + 1]):
                return SymReal.of(fp[k] + (fp[k + 1] - fp[k]) * (v - xp[k]) / (xp[k + 1] - xp[k]))
        return SymReal.of(fp[n - 1])
    if _isinstance(x, (list, tuple, rnp.ndarray)):
        x = snp.asarr(x)
        return snp.array([one(v) for v in x.ravel()]).reshape(x.shape)
    return one(SymReal.of(x))


def _percentile(scale):
    def f(a, q, axis=None, **k):
        if axis is not None or k.get('method', k.get('interpolation', 'linear')) != 'linear':
            snp.E().unsupported('percentile options')
        s = snp.sort(snp.asarr(a).ravel())

        def one(p):
            p = SymReal.of(p)
            if not p.const:
                snp.E().unsupported('symbolic percentile')
            pos = p.n / scale * (s.size - 1)
            k0 = int(pos)
            if k0 + 1 >= s.size:
                return SymReal.of(s[s.size - 1])
            return SymReal.of(s[k0]) + (SymReal.of(s[k0 + 1]) - SymReal.of(s[k0])) * SymReal(pos - k0)
        if _isinstance(q, (list, tuple, rnp.ndarray)):
            return snp.array([one(p) for p in q])
        return one(q)
    return f


# -- order -------------------------------------------------------------------

def partition(a, kth, axis=-1, **k):
    # a sorted array is partitioned at every position
    return snp.sort(a, axis=axis)


def argpartition(a, kth, axis=-1, **k):
    return snp.argsort(a, axis=axis)


def unique_axis(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    a = snp.asarr(ar)
    if axis is None or a.ndim == 1:
        return snp._unique(a, return_index, return_inverse, return_counts)
    if a.ndim != 2 or axis not in (0, -2):
        snp.E().unsupported('unique along an axis')
    if return_index or return_inverse or return_counts:
        snp.E().unsupported('unique rows with indices')
    order = snp.lexsort([a[:, c] for c in range(a.shape[1] - 1, -1, -1)])
    rows = []
    for i in order:
        i = int(i)
        if not rows or any(snp._cmp_scalar(x, y) for x, y in zip(a[i], a[rows[-1]])):
            rows.append(i)
    return a[rows]


# -- elementwise functions of Python -----------------------------------------

def _frompy(f, nout=1):
    def g(*args, **kw):
        arrs = [snp.asarr(x).view(rnp.ndarray) if _isinstance(x, (list, tuple, rnp.ndarray)) else x for x in args]
        if not any(_isinstance(x, rnp.ndarray) for x in arrs):
            return f(*args, **kw)
        bs = rnp.broadcast_arrays(*[x if _isinstance(x, rnp.ndarray) else _box(x) for x in arrs])
        vals = [f(*[snp._c(b[i]) for b in bs], **kw) for i in rnp.ndindex(*bs[0].shape)]
        if not vals:
            snp.E().unsupported('vectorized function of nothing')
        return snp.array(vals).reshape(bs[0].shape)
    return g


def _box(x):
    o = rnp.empty((), dtype=object)
    o[()] = x
    return o


class vectorize(object):
    def __init__(self, pyfunc, otypes=None, doc=None, excluded=None, cache=False, signature=None):
        if signature is not None or excluded:
            snp.E().unsupported('vectorize options')
        self.f, self.otypes = pyfunc, otypes

    def __call__(self, *args, **kw):
        r = _frompy(self.f)(*args, **kw)
        if self.otypes and _isinstance(r, rnp.ndarray):
            r = r.astype(self.otypes[0])
        return r


def frompyfunc(f, nin, nout, **k):
    if nout != 1:
        snp.E().unsupported('frompyfunc with several outputs')
    return _frompy(f)


def fromiter(it, dtype=float, count=-1, **k):
    vals = list(it)
    if count >= 0:
        vals = vals[:count]
    return snp.array(vals, dtype=dtype) if vals else snp.empty((0,))


def fromfunction(f, shape, dtype=float, **k):
    idx = [snp.wrap(x).astype(dtype) for x in rnp.indices(shape)]
    return f(*idx, **k)


def apply_along_axis(f, axis, arr, *args, **kw):
    a = snp.asarr(arr)
    m = rnp.moveaxis(a.view(rnp.ndarray), axis, -1)
    out = [f(m[i].view(SArr), *args, **kw) for i in rnp.ndindex(*m.shape[:-1])]
    if out and _isinstance(out[0], rnp.ndarray):
        r = snp.array([list(o) for o in out])
        r = r.reshape(m.shape[:-1] + (r.shape[-1],))
        return rnp.moveaxis(r.view(rnp.ndarray), -1, axis).view(SArr)
    return snp.array(out).reshape(m.shape[:-1])


def array_equiv(a, b):
    a, b = snp.asarr(a), snp.asarr(b)
    try:
        x, y = rnp.broadcast_arrays(snp.unwrap(a), snp.unwrap(b))
    except ValueError:
        return False
    return snp.array_equal(snp.wrap(rnp.array(x)), snp.wrap(rnp.array(y)))


def iterable(x):
    try:
        iter(x)
    except TypeError:
        return False
    return True


def real(x): return x


def angle(z, deg=False):
    snp.E().unsupported('angle')


# -- ufunc methods -----------------------------------------------------------

def at(self, a, indices, b=None):
    if b is None:
        snp.E().unsupported('ufunc.at of one array')
    if _isinstance(indices, tuple):
        cols = [snp.asarr(i).ravel() for i in indices]
        keys = [tuple(int(c[k]) for c in cols) for k in range(cols[0].size)]
    else:
        i = snp.asarr(indices)
        if i.dtype.kind == 'b':
            i = snp.nonzero(i)[0]
        keys = [int(k) for k in i.ravel()]
    scalar = not _isinstance(b, (list, tuple, rnp.ndarray))
    vals = None if scalar else snp.asarr(b)
    for n, k in enumerate(keys):
        v = b if scalar else vals[n] if vals.ndim and vals.shape[0] == len(keys) else vals if vals.ndim == 0 else vals[0] if vals.shape[0] == 1 else vals
        a[k] = self(a[k], v)


def reduceat(self, a, indices, axis=0, **k):
    a = snp.asarr(a)
    idx = [int(i) for i in snp.asarr(indices)]
    m = rnp.moveaxis(a.view(rnp.ndarray), axis, 0).view(SArr)
    out = []
    for n, i in enumerate(idx):
        j = idx[n + 1] if n + 1 < len(idx) else m.shape[0]
        out.append(self.reduce(m[i:j], axis=0) if j > i else m[i])
    r = snp.array([snp.unwrap(o) if _isinstance(o, rnp.ndarray) else o for o in out])
    return rnp.moveaxis(r.view(rnp.ndarray), 0, axis).view(SArr)


def _sign(x):
    return snp.ite(snp.to_b(x < 0), SymReal(Fraction(-1)), SymReal(Fraction(1)))


def _divmod(a, b, **k):
    m = snp._Ufunc
    return m(rnp.floor_divide)(a, b), m(rnp.mod)(a, b)


def _modf(a, **k):
    whole = snp._Ufunc(rnp.trunc)(a)
    return a - whole, whole


UFUNCS = {rnp.divmod: _divmod, rnp.modf: _modf, rnp.matmul: lambda a, b: snp.dot(a, b)}
_E = snp.ELEM_UFUNC
_num2 = lambda f: rnp.frompyfunc(lambda a, b: f(SymReal.of(a).as_np(), SymReal.of(b).as_np()), 2, 1)
_E[rnp.fmod] = _num2(lambda a, b: a - b * (a / b).trunc())
_E[rnp.copysign] = _num2(lambda a, b: abs(a) * _sign(b))
_E[rnp.heaviside] = _num2(lambda a, b: snp.ite(snp.to_b(a < 0), SymReal(Fraction(0)), snp.ite(snp.to_b(a > 0), SymReal(Fraction(1)), b)))


def vdot(a, b):
    return snp.dot(snp.asarr(a).ravel(), snp.asarr(b).ravel())


def einsum(spec, *ops, **k):
    """explicit loops over all indices"""
    if not _isinstance(spec, str) or '.' in spec:
        snp.E().unsupported('einsum')
    spec = spec.replace(' ', '')
    ops = [snp.asarr(o) for o in ops]
    lhs, _, rhs = spec.partition('->')
    terms = lhs.split(',')
    if '->' not in spec:
        rhs = ''.join(sorted(c for c in set(lhs) - {','} if lhs.count(c) == 1))
    dims = {}
    for t, o in zip(terms, ops):
        for c, n in zip(t, o.shape):
            dims[c] = n
    inner = [c for c in dims if c not in rhs]
    out = snp.zeros(tuple(dims[c] for c in rhs))
    for i in rnp.ndindex(*[dims[c] for c in rhs]):
        at_ = dict(zip(rhs, i))
        total = None
        for j in rnp.ndindex(*[dims[c] for c in inner]):
            at_.update(zip(inner, j))
            v = None
            for t, o in zip(terms, ops):
                x = o[tuple(at_[c] for c in t)]
                v = x if v is None else v * x
            total = v if total is None else total + v
        if total is not None:
            out[i] = total
    return out if rhs else out[()]


def tensordot(a, b, axes=2):
    a, b = snp.asarr(a), snp.asarr(b)
    if _isinstance(axes, int):
        axes = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    ax, bx = ([x] if _isinstance(x, int) else list(x) for x in axes)
    la = [chr(97 + k) for k in range(a.ndim)]
    lb = [chr(110 + k) for k in range(b.ndim)]
    for p, q in zip(ax, bx):
        lb[q] = la[p]
    rhs = [c for k, c in enumerate(la) if k not in [x % a.ndim for x in ax]] + [c for k, c in enumerate(lb) if k not in [x % b.ndim for x in bx]]
    return einsum('%s,%s->%s' % (''.join(la), ''.join(lb), ''.join(rhs)), a, b)


def fromarrays(arrays, dtype=None, shape=None, formats=None, names=None, **k):
    if dtype is None:
        names = names.split(',') if _isinstance(names, str) else names
        dt = rnp.dtype([(n.strip(), snp.asarr(a).dtype) for n, a in zip(names, arrays)])
    else:
        dt = rnp.dtype(snp.map_dtype(dtype))
    out = rnp.empty(snp.asarr(arrays[0]).shape, dtype=dt).view(SArr)
    for n, a in zip(dt.names, arrays):
        out[n] = a
    return out


# -- masked arrays -------------------------------------------------------------

class MArr(object):
    """numpy.ma.MaskedArray; the mask is decided"""
    __array_priority__ = 2000

    def __init__(self, data, mask=False, fill_value=None, **k):
        if _isinstance(data, MArr):
            mask = snp.asarr(data.mask) | snp.asarr(mask) if mask is not False else data.mask
            data = data.data
        self.data = snp.asarr(data).copy()
        m = snp.asarr(mask)
        if m.dtype.kind == 'O':
            m = rnp.array([bool(SymBool(snp.truth(x))) for x in m.view(rnp.ndarray).ravel()], dtype=bool).reshape(m.shape)
        if m.dtype.names:
            snp.E().unsupported('masks of records')
        m = rnp.array(snp.unwrap(m), dtype=bool)
        if m.shape not in ((), self.data.shape):
            raise snp.rnp.ma.MaskError('Mask and data not compatible: data size is %i, mask size is %i.' % (self.data.size, m.size))
        self.mask = rnp.array(rnp.broadcast_to(m, self.data.shape)).view(SArr)
        self.fill_value = 1e20 if fill_value is None else fill_value

    shape = property(lambda s: s.data.shape)
    size = property(lambda s: s.data.size)
    ndim = property(lambda s: s.data.ndim)
    dtype = property(lambda s: s.data.dtype)
    T = property(lambda s: MArr(s.data.T, s.mask.T))

    def __len__(self): return len(self.data)
    def __iter__(self): return (self[k] for k in range(len(self)))

    def __getitem__(self, ix):
        if _isinstance(ix, MArr):
            ix = ix.data
        d = self.data[ix]
        if _isinstance(ix, str):
            return MArr(d, self.mask)
        m = self.mask[ix]
        if _isinstance(d, rnp.ndarray):
            return MArr(d, m)
        return rnp.ma.masked if bool(m) else d

    def __setitem__(self, ix, v):
        if _isinstance(ix, MArr):
            ix = ix.data
        if v is rnp.ma.masked:
            self.mask[ix] = True
            return
        self.data[ix] = v.data if _isinstance(v, MArr) else v
        self.mask[ix] = v.mask if _isinstance(v, MArr) else False

    def compressed(self): return self.data.ravel()[~self.mask.ravel()]
    def count(self, axis=None): return int((~self.mask).sum()) if axis is None else (~self.mask).sum(axis=axis)
    def copy(self): return MArr(self.data, self.mask)
    def ravel(self, *a): return MArr(self.data.ravel(*a), self.mask.ravel(*a))
    def reshape(self, *a): return MArr(self.data.reshape(*a), self.mask.reshape(*a))
    def transpose(self, *a): return MArr(self.data.transpose(*a), self.mask.transpose(*a))

    def filled(self, fill_value=None):
        return snp.where3(self.mask, self.fill_value if fill_value is None else fill_value, self.data)

    def _red(self, name, axis=None, **k):
        if axis is not None:
            snp.E().unsupported('masked reductions along an axis')
        v = self.compressed()
        if v.size == 0:
            return rnp.ma.masked
        return getattr(v, name)()

    def tolist(self):
        return [None if v is rnp.ma.masked else v for v in self] if self.ndim == 1 else snp.E().unsupported('masked tolist')


for _n in ('sum', 'mean', 'min', 'max', 'std', 'var', 'prod', 'any', 'all', 'ptp'):
    setattr(MArr, _n, (lambda n: lambda self, axis=None, **k: self._red(n, axis, **k))(_n))


def _mop(name):
    def f(self, o):
        od, om = (o.data, o.mask) if _isinstance(o, MArr) else (o, False)
        r = getattr(self.data, name)(od)
        if r is NotImplemented:
            return r
        m = self.mask | om
        if 'truediv' in name:
            den = od if name == '__truediv__' else self.data
            m = m | snp.asarr(den == 0)
            r = snp.where3(m, self.data, r)
        return MArr(r, m)
    return f


for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv', 'rtruediv', 'pow', 'lt', 'le', 'gt', 'ge', 'eq', 'ne', 'and', 'or'):
    setattr(MArr, '__%s__' % _n, _mop('__%s__' % _n))
MArr.__neg__ = lambda s: MArr(-s.data, s.mask)
MArr.__invert__ = lambda s: MArr(~s.data, s.mask)
MArr.__hash__ = None


def make_ma(m):
    import types
    ns = types.SimpleNamespace(MaskedArray=MArr, masked=rnp.ma.masked, nomask=False, MaskError=rnp.ma.MaskError)

    def masked_array(data, mask=False, dtype=None, copy=False, fill_value=None, **k):
        return MArr(data, mask, fill_value)
    ns.array = ns.masked_array = ns.asarray = masked_array
    ns.masked_where = lambda c, a, copy=True: MArr(a, c)
    for n, f in dict(less=lambda a, v: a < v, greater=lambda a, v: a > v, less_equal=lambda a, v: a <= v, greater_equal=lambda a, v: a >= v,
                     equal=lambda a, v: a == v, not_equal=lambda a, v: a != v).items():
        setattr(ns, 'masked_' + n, (lambda f: lambda a, v, copy=True: MArr(a, f(snp.asarr(a), v)))(f))
    ns.masked_invalid = lambda a, copy=True: MArr(a, ~snp._Ufunc(rnp.isfinite)(snp.asarr(a)))
    ns.getmaskarray = ns.getmask = lambda a: a.mask if _isinstance(a, MArr) else rnp.zeros(snp.asarr(a).shape, dtype=bool).view(SArr)
    ns.getdata = lambda a: a.data if _isinstance(a, MArr) else snp.asarr(a)
    ns.is_masked = lambda a: _isinstance(a, MArr) and bool(a.mask.any())
    ns.isMaskedArray = ns.isMA = lambda a: _isinstance(a, MArr)
    ns.filled = lambda a, v=None: a.filled(v) if _isinstance(a, MArr) else a
    ns.compressed = lambda a: a.compressed() if _isinstance(a, MArr) else snp.asarr(a).ravel()
    for n in ('sum', 'mean', 'min', 'max', 'std', 'var', 'count', 'prod', 'any', 'all'):
        setattr(ns, n, (lambda n: lambda a, *x, **k: getattr(a if _isinstance(a, MArr) else MArr(a), n)(*x, **k))(n))
    ns.average = lambda a, axis=None, weights=None: (MArr(a) * weights).sum() / (MArr(weights, MArr(a).mask)).sum() if weights is not None else MArr(a).mean()
    return ns


def install():
    F, C = snp.FUNCS, snp.CREATE
    for name, names in (('sum', ('sum',)), ('prod', ('prod', 'product')), ('mean', ('mean',)), ('amin', ('amin', 'min')),
                        ('amax', ('amax', 'max')), ('all', ('all', 'alltrue')), ('any', ('any', 'sometrue')), ('std', ('std',)),
                        ('var', ('var',)), ('median', ('median',))):
        f = reduction(name, product if name == 'prod' else F[names[0]])
        for n in names:
            F[n] = f
        for n in names:
            if n in ('amin', 'amax', 'product', 'alltrue', 'sometrue', 'median'):
                continue
            if name == 'prod':
                f = reduction(name, SArr.prod)
            setattr(SArr, n, method(f))
    snp._unique = snp.unique
    F['unique'] = unique_axis
    F.update({
        'extract': extract, 'union1d': union1d, 'setdiff1d': setdiff1d, 'setxor1d': setxor1d, 'select': select, 'piecewise': piecewise,
        'choose': choose, 'putmask': putmask, 'place': place, 'put': put, 'put_along_axis': put_along_axis, 'fill_diagonal': fill_diagonal,
        'cumprod': cumprod, 'cumproduct': cumprod, 'ptp': ptp, 'ediff1d': ediff1d, 'bincount': bincount, 'histogram': histogram,
        'vdot': vdot, 'einsum': einsum, 'tensordot': tensordot, 'trace': lambda a, **k: snp.sum_(rnp.diagonal(snp.unwrap(snp.asarr(a))).view(SArr)),
        'convolve': convolve, 'correlate': correlate, 'interp': interp, 'percentile': _percentile(100), 'quantile': _percentile(1),
        'partition': partition, 'argpartition': argpartition, 'msort': lambda a: snp.sort(a, axis=0), 'array_equiv': array_equiv,
        'real': real, 'nanstd': snp._nan_free('std', snp.std), 'nanvar': snp._nan_free('var', snp.var),
        'nanmedian': snp._nan_free('median', snp.median), 'nanargmin': snp._nan_free('argmin', snp.argmin),
        'nanargmax': snp._nan_free('argmax', snp.argmax), 'asfarray': lambda a, dtype=float: snp.asarr(a).astype(float),
    })
    C.update({'vectorize': vectorize, 'frompyfunc': frompyfunc, 'fromiter': fromiter, 'fromfunction': fromfunction, 'iterable': iterable,
              'apply_along_axis': apply_along_axis, 'asfortranarray': snp.asarr, 'asarray_chkfinite': snp.asarr, 'require': lambda a, *r, **k: snp.asarr(a),
              'copyto': copyto})
    for n in ('broadcast_shapes', 'diag_indices', 'diag_indices_from', 'diagflat', 'tril_indices', 'triu_indices', 'mask_indices', 'dsplit',
              'shares_memory', 'may_share_memory', 'trace'):
        snp.PASS.add(n)
    for n in ('copyto', 'einsum', 'tensordot', 'trace'):
        snp.PASS.discard(n)
    SArr.put = lambda self, ind, v, mode='raise': put(self, ind, v)
    SArr.partition = lambda self, kth, axis=-1, **k: self.sort(axis=axis)
    SArr.argpartition = lambda self, kth, axis=-1, **k: argpartition(self, kth, axis)
    SArr.cumprod = lambda self, axis=None, dtype=None, out=None: cumprod(self, axis)
    snp._Ufunc.at, snp._Ufunc.reduceat = at, reduceat
