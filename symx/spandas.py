"""The part of pandas the code uses (and some more of it, as it may be
rewritten), over symbolic arrays."""

import types
from fractions import Fraction

import numpy as rnp

from . import core, snp
from .core import SymReal, SymBool, b_not, to_b


def _arr(x):
    return snp.asarr(list(x) if not isinstance(x, rnp.ndarray) else x)


def _unsup(what):
    core.ENGINE.unsupported('pandas.' + what)


NAN = SymReal(Fraction(0), nan=True)


def _isnan(x):
    if x is None:
        return True
    x = SymReal.of(x)
    return x is not None and bool(SymBool(x.nan))


def _same(x, y):
    """whether two labels are the same"""
    if isinstance(x, (str, tuple, type(None))) or isinstance(y, (str, tuple, type(None))):
        return type(x) is type(y) and x == y
    return x is y or bool(SymBool(to_b(SymReal.of(x) == SymReal.of(y))))


def _same_labels(a, b):
    return a is b or (len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b)))


class Index(snp.SArr):
    """labels of a series: cannot be changed in place"""
    @property
    def values(self):
        return self.view(snp.SArr)

    def to_numpy(self, *a, **k):
        return self.values

    def tolist(self):
        return list(self.values)
    to_list = tolist

    def __setitem__(self, k, v):
        raise TypeError('Index does not support mutable operations')

    def __iadd__(self, o): return _index(self.values + o)
    def __isub__(self, o): return _index(self.values - o)
    def __imul__(self, o): return _index(self.values * o)
    def __itruediv__(self, o): return _index(self.values / o)


def _index(x):
    return _arr(x).copy().view(Index)


class Series(object):
    def __init__(self, data=(), index=None, name=None, dtype=None, copy=False):
        if isinstance(data, Series):
            if index is not None and not _same_labels(data.index, index):
                data = data.reindex(index)
            index = data.index if index is None else index
            name = data.name if name is None else name
            data = data.values
        elif isinstance(data, dict):
            if index is not None:
                _unsup('Series of a dict with an index')
            index, data = list(data.keys()), list(data.values())
        elif isinstance(data, (int, float, SymReal, core.SymInt)) and index is not None:
            data = [data] * len(index)
        self.values = _arr(data)
        if copy:
            self.values = self.values.copy()
        if dtype is not None:
            self.values = self.values.astype(dtype)
        self.index = index if index is not None else rnp.arange(len(self.values))
        if len(self.index) != len(self.values):
            raise ValueError('Length of values (%d) does not match length of index (%d)'
                             % (len(self.values), len(self.index)))
        self.name = name

    @property
    def index(self):
        return self._index

    @index.setter
    def index(self, v):
        self._index = _index(v)

    def _new(self, values, index=None):
        return Series(values, self.index if index is None else index, self.name)

    def __len__(self):
        return len(self.values)

    def __iter__(self):
        return iter(self.values)

    def __contains__(self, k):
        return any(_same(x, k) for x in self.index)

    def keys(self): return self.index

    def items(self):
        return list(zip(self.index, self.values))
    iteritems = items

    def copy(self, deep=True):
        return self._new(self.values.copy(), self.index.copy())

    def view(self, *a):
        return self._new(self.values, self.index)

    def to_numpy(self, *a, **k):
        return self.values
    array = property(to_numpy)

    def astype(self, dtype, **k):
        return self._new(self.values.astype(dtype))

    def rename(self, name=None, **k):
        r = self.copy()
        r.name = name
        return r

    def to_frame(self, name=None):
        return DataFrame._make([[v] for v in self.values], list(self.index), [name or self.name or 0])

    def _op(self, o, f):
        name = self.name
        if isinstance(o, Series):
            if not _same_labels(self.index, o.index):
                _unsup('operations of series with different labels')
            name = self.name if self.name == o.name else None
            o = o.values
        r = self._new(f(self.values, o))
        r.name = name
        return r

    def __add__(self, o): return self._op(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._op(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._op(o, lambda a, b: b - a)
    def __mul__(self, o): return self._op(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._op(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._op(o, lambda a, b: b / a)
    def __pow__(self, o): return self._op(o, lambda a, b: a ** b)
    def __rpow__(self, o): return self._op(o, lambda a, b: b ** a)
    def __neg__(self): return self._new(-self.values)
    def __lt__(self, o): return self._op(o, lambda a, b: a < b)
    def __le__(self, o): return self._op(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._op(o, lambda a, b: a > b)
    def __ge__(self, o): return self._op(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._op(o, lambda a, b: a == b)
    def __ne__(self, o): return self._op(o, lambda a, b: a != b)
    __hash__ = None

    def __and__(self, o): return self._op(o, lambda a, b: a & b)
    def __or__(self, o): return self._op(o, lambda a, b: a | b)
    __rand__, __ror__ = __and__, __or__
    def __invert__(self): return self._new(~self.values)

    add, sub, mul, div, truediv, pow = __add__, __sub__, __mul__, __truediv__, __truediv__, __pow__
    lt, le, gt, ge, eq, ne = __lt__, __le__, __gt__, __ge__, __eq__, __ne__

    def abs(self):
        return self._new(abs(self.values))
    __abs__ = abs

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method != '__call__':
            return NotImplemented
        first = [x for x in inputs if isinstance(x, Series)][0]
        for x in inputs:
            if isinstance(x, Series) and not _same_labels(first.index, x.index):
                _unsup('operations of series with different labels')
        f = getattr(snp.make_module(), ufunc.__name__)
        return first._new(f(*[x.values if isinstance(x, Series) else x for x in inputs], **kw))

    @property
    def size(self): return len(self.values)

    @property
    def shape(self): return self.values.shape

    @property
    def empty(self): return len(self.values) == 0

    def _reduce(self, f, skipna):
        v = self.values
        if skipna:
            v = v[[i for i, x in enumerate(v) if not _isnan(x)]]
        if len(v) == 0:
            return NAN
        return f(v)

    def min(self, axis=None, skipna=True): return self._reduce(snp.amin, skipna)
    def max(self, axis=None, skipna=True): return self._reduce(snp.amax, skipna)
    def mean(self, axis=None, skipna=True): return self._reduce(snp.mean, skipna)
    def median(self, axis=None, skipna=True): return self._reduce(snp.make_module().median, skipna)

    def sum(self, axis=None, skipna=True):
        r = self._reduce(snp.sum_, skipna)
        return 0 if r is NAN else r

    def count(self):
        return len([x for x in self.values if not _isnan(x)])

    def idxmin(self, *a, **k):
        return self.index[self._argx(snp.argmin)]

    def idxmax(self, *a, **k):
        return self.index[self._argx(snp.argmax)]

    def _argx(self, f):
        if any(_isnan(x) for x in self.values):
            _unsup('idxmin with missing values')
        return f(self.values)

    def argmin(self, *a, **k): return self._argx(snp.argmin)
    def argmax(self, *a, **k): return self._argx(snp.argmax)

    def dropna(self, *a, **k):
        keep = [i for i, x in enumerate(self.values) if not _isnan(x)]
        return self._new(self.values[keep], self.index[keep])

    def fillna(self, value=None, **k):
        return self._new([value if _isnan(x) else x for x in self.values])

    def sort_index(self, ascending=True, **k):
        o = list(snp.argsort(self.index.values, kind='stable') if ascending else
                 snp.argsort(-self.index.values, kind='stable'))
        return self._new(self.values[o], self.index[o])

    def sort_values(self, ascending=True, **k):
        if any(_isnan(x) for x in self.values):
            _unsup('sort_values with missing values')
        o = list(snp.argsort(self.values if ascending else -self.values, kind='stable'))
        return self._new(self.values[o], self.index[o])

    def append(self, o, ignore_index=False):
        os = list(o) if isinstance(o, (list, tuple)) else [o]
        return concat([self] + os, ignore_index=ignore_index)

    def reindex(self, index=None, **k):
        if index is None or k:
            _unsup('reindex of this form')
        out = []
        for l in index:
            for x, v in zip(self.index, self.values):
                if _same(x, l):
                    out.append(v)
                    break
            else:
                out.append(NAN)
        return self._new(out, index)

    def isnull(self):
        return self._new(snp.asarr([SymBool(SymReal.of(x).nan) for x in self.values]))

    def notnull(self):
        return self._new(snp.asarr([SymBool(b_not(SymReal.of(x).nan)) for x in self.values]))
    notna = notnull
    isna = isnull

    def any(self, *a, **k): return snp.any_(self.values)
    def all(self, *a, **k): return snp.all_(self.values)

    def between(self, left, right, inclusive='both'):
        lo = self.values >= left if inclusive in ('both', 'left') else self.values > left
        hi = self.values <= right if inclusive in ('both', 'right') else self.values < right
        return self._new(lo & hi)

    def apply(self, f, *a, **k):
        return self._new([f(x, *a, **k) for x in self.values])
    map = apply

    def _np(name):
        def f(self, *a, **k):
            if a or k:
                _unsup('Series.%s of this form' % name)
            return self._new(getattr(snp.make_module(), name)(self.values))
        return f

    cumsum = _np('cumsum')

    def diff(self, periods=1):
        if periods != 1:
            _unsup('Series.diff of this form')
        v = self.values
        return self._new([NAN] + [v[i] - v[i - 1] for i in range(1, len(v))])

    def clip(self, lower=None, upper=None):
        return self._new(self.values.clip(lower, upper))

    def round(self, decimals=0):
        return self._new(self.values.round(decimals))

    def head(self, n=5): return self.iloc[:n]
    def tail(self, n=5): return self.iloc[-n:] if n else self.iloc[:0]

    def __getitem__(self, k):
        if isinstance(k, (slice, rnp.ndarray)):
            return self._new(self.values[k], self.index[k])
        if isinstance(k, Series):
            if not _same_labels(self.index, k.index):
                _unsup('selection with other labels')
            return self._new(self.values[k.values], self.index[k.values])
        if isinstance(k, list):
            if all(isinstance(x, (bool, rnp.bool_, SymBool)) for x in k):
                return self[snp.asarr(k)]
            return self.loc[k]
        for i, x in enumerate(self.index):
            if _same(x, k):
                return self.values[i]
        raise KeyError(k)

    def get(self, k, default=None):
        try:
            return self[k]
        except KeyError:
            return default

    def __setitem__(self, k, v):
        if isinstance(k, Series):
            k = k.values
        if isinstance(k, (slice, rnp.ndarray)):
            self.values[k] = v.values if isinstance(v, Series) else v
            return
        for i, x in enumerate(self.index):
            if _same(x, k):
                self.values[i] = v
                return
        _unsup('enlarging a series')

    def __array__(self, dtype=None):
        return self.values

    def tolist(self): return list(self.values)
    to_list = tolist

    def to_dict(self): return dict(self.items())

    def to_string(self, *a, **k):
        if a or k:
            _unsup('Series.to_string of this form')
        return '\n'.join('%s %s' % (i, v) for i, v in zip(self.index, self.values))

    @property
    def iloc(self):
        return _Iloc(self)
    iat = iloc

    @property
    def loc(self):
        return _Loc(self)
    at = loc

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        _unsup('Series.' + n)


class _Iloc(object):
    def __init__(self, s):
        self.s = s

    def __getitem__(self, k):
        s = self.s
        if isinstance(k, Series):
            k = k.values
        if isinstance(k, (slice, rnp.ndarray, list)):
            return s._new(s.values[k], s.index[k])
        return s.values[k]

    def __setitem__(self, k, v):
        self.s.values[k] = v.values if isinstance(v, Series) else v


class _Loc(object):
    def __init__(self, s):
        self.s = s

    def __getitem__(self, k):
        if isinstance(k, list) and not all(isinstance(x, (bool, rnp.bool_, SymBool)) for x in k):
            return self.s._new([self.s[x] for x in k], k)
        if isinstance(k, slice):
            if k != slice(None):
                _unsup('loc with a range of labels')
            return self.s.copy()
        return self.s[k]

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            _unsup('loc with a range of labels')
        self.s[k] = v


def _union(indexes):
    """labels in order of appearance"""
    labels = []
    for ix in indexes:
        for x in ix:
            if not any(_same(x, l) for l in labels):
                labels.append(x)
    return labels


class DataFrame(object):
    def __init__(self, data=None, index=None, columns=None, dtype=None, copy=False):
        if isinstance(data, DataFrame):
            self._set([list(r) for r in data.rows], list(data.labels), list(data.columns))
            return
        if isinstance(data, dict):
            if columns is not None:
                _unsup('DataFrame of a dict with columns')
            cols = list(data.values())
            if cols and all(isinstance(c, Series) for c in cols):
                labels = list(cols[0].index)
                if not all(_same_labels(labels, c.index) for c in cols):
                    labels = list(_index(_union(c.index for c in cols)).values)
                    labels = [labels[i] for i in snp.argsort(_arr(labels), kind='stable')]
                    cols = [c.reindex(labels) for c in cols]
                if index is not None:
                    _unsup('DataFrame with an index')
                index = labels
            else:
                cols = [c.values if isinstance(c, Series) else _arr(c) for c in cols]
            n = len(cols[0]) if cols else 0
            if any(len(c) != n for c in cols):
                raise ValueError('All arrays must be of the same length')
            cols = [c.values if isinstance(c, Series) else c for c in cols]
            self._set([[c[i] for c in cols] for i in range(n)],
                      list(index) if index is not None else list(range(n)), list(data.keys()))
            return
        if isinstance(data, rnp.ndarray) and data.ndim == 2:
            n, m = data.shape
            self._set([[data[i, j] for j in range(m)] for i in range(n)],
                      list(index) if index is not None else list(range(n)),
                      list(columns) if columns is not None else list(range(m)))
            return
        data = list(data if data is not None else [])
        if not all(isinstance(d, Series) for d in data) or index is not None or columns is not None:
            _unsup('DataFrame of this kind')
        labels = _union(d.index for d in data)
        names = [d.name for d in data]
        self._set([list(d.reindex(labels).values) for d in data],
                  [n if n is not None else i for i, n in enumerate(names)], labels)

    def _set(self, rows, labels, columns):
        self.rows, self.labels, self.columns = rows, labels, columns

    @staticmethod
    def _make(rows, labels, columns):
        r = DataFrame()
        r._set(rows, labels, columns)
        return r

    @property
    def index(self): return _index(self.labels)

    @index.setter
    def index(self, v): self.labels = list(v)

    @property
    def T(self):
        return DataFrame._make([[r[j] for r in self.rows] for j in range(len(self.columns))],
                               self.columns, self.labels)

    def transpose(self): return self.T

    @property
    def values(self):
        a = rnp.empty(self.shape, dtype=object)
        for i, r in enumerate(self.rows):
            for j, v in enumerate(r):
                a[i, j] = snp.elem(v)
        return a.view(snp.SArr)

    def to_numpy(self, *a, **k): return self.values

    @property
    def shape(self): return (len(self.labels), len(self.columns))

    @property
    def size(self): return len(self.labels) * len(self.columns)

    @property
    def empty(self): return self.size == 0

    def __len__(self): return len(self.labels)
    def __iter__(self): return iter(self.columns)

    def copy(self, deep=True):
        return DataFrame._make([list(r) for r in self.rows], list(self.labels), list(self.columns))

    def _row(self, i): return Series(self.rows[i], self.columns, self.labels[i])
    def _col(self, j): return Series([r[j] for r in self.rows], self.labels, self.columns[j])

    def __getitem__(self, k):
        if isinstance(k, Series):
            k = k.values
        if isinstance(k, rnp.ndarray) and k.ndim == 1:
            inds = list(snp.asarr(rnp.arange(len(self)))[k])
            return DataFrame._make([self.rows[i] for i in inds], [self.labels[i] for i in inds], self.columns)
        if isinstance(k, list) and k and not any(isinstance(x, (bool, rnp.bool_, SymBool)) for x in k):
            return _FLoc(self)[:, k]
        if isinstance(k, (slice, list, rnp.ndarray)):
            _unsup('selection of a frame of this form')
        for j, c in enumerate(self.columns):
            if _same(c, k):
                return self._col(j)
        raise KeyError(k)

    def items(self): return [(c, self._col(j)) for j, c in enumerate(self.columns)]
    iteritems = items
    def iterrows(self): return iter([(l, self._row(i)) for i, l in enumerate(self.labels)])

    def _along(self, axis, f):
        if axis in (1, 'columns'):
            return Series([f(self._row(i)) for i in range(len(self.labels))], self.labels)
        return Series([f(self._col(j)) for j in range(len(self.columns))], self.columns)

    def _red(name):
        def f(self, axis=0, skipna=True, **k):
            return self._along(axis, lambda s: getattr(s, name)(skipna=skipna))
        return f

    mean, min, max, sum, median = _red('mean'), _red('min'), _red('max'), _red('sum'), _red('median')

    def count(self, axis=0): return self._along(axis, lambda s: s.count())
    def any(self, axis=0): return self._along(axis, lambda s: s.any())
    def all(self, axis=0): return self._along(axis, lambda s: s.all())
    def apply(self, f, axis=0): return self._along(axis, f)

    def _map(self, f):
        return DataFrame._make([[f(v) for v in r] for r in self.rows], self.labels, self.columns)

    def isnull(self): return self._map(lambda v: SymBool(SymReal.of(v).nan))
    def notnull(self): return self._map(lambda v: SymBool(b_not(SymReal.of(v).nan)))
    isna, notna = isnull, notnull

    def fillna(self, value): return self._map(lambda v: value if _isnan(v) else v)

    def dropna(self, axis=0, how='any', **k):
        if k:
            _unsup('dropna of this form')
        if axis in (1, 'columns'):
            return self.T.dropna(0, how).T
        f = any if how == 'any' else all
        keep = [i for i, r in enumerate(self.rows) if not f([_isnan(v) for v in r])]
        return DataFrame._make([self.rows[i] for i in keep], [self.labels[i] for i in keep], self.columns)

    def sort_index(self, axis=0, ascending=True):
        if axis != 0:
            _unsup('sort_index of this form')
        o = list(snp.argsort(_arr(self.labels) if ascending else -_arr(self.labels), kind='stable'))
        return DataFrame._make([self.rows[i] for i in o], [self.labels[i] for i in o], self.columns)

    @property
    def iloc(self): return _FIloc(self)

    @property
    def loc(self): return _FLoc(self)

    @property
    def iat(self): return _FIloc(self)

    @property
    def at(self): return _FLoc(self)

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        _unsup('DataFrame.' + n)


class _FIloc(object):
    def __init__(self, f):
        self.f = f

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2:
            r, c = k
            if r == slice(None) and isinstance(c, int):
                return self.f._col(c)
            if isinstance(r, int) and isinstance(c, int):
                return self.f.rows[r][c]
            if isinstance(r, int) and c == slice(None):
                return self.f._row(r)
        elif isinstance(k, int):
            return self.f._row(k)
        _unsup('iloc of this form')


class _FLoc(object):
    """frame.loc: one label or a list of labels (or a mask) of rows, of columns, or both"""

    def __init__(self, f):
        self.f = f

    @staticmethod
    def _find(labels, k):
        if isinstance(k, Series):
            k = k.values
        if isinstance(k, slice):
            if k != slice(None):
                _unsup('loc with a range of labels')
            return list(range(len(labels)))
        if isinstance(k, (list, rnp.ndarray)):
            k = list(k)
            if k and all(isinstance(x, (bool, rnp.bool_, SymBool)) for x in k):
                return [i for i, x in enumerate(k) if bool(x)]
            out = []
            for x in k:
                i = _FLoc._find(labels, x)
                out += i if isinstance(i, list) else [i]
            return out
        found = [i for i, l in enumerate(labels) if _same(l, k)]
        if not found:
            raise KeyError(k)
        return found[0] if len(found) == 1 else found

    def __getitem__(self, k):
        r, c = k if isinstance(k, tuple) and len(k) == 2 else (k, slice(None))
        r, c = self._find(self.f.labels, r), self._find(self.f.columns, c)
        f = self.f
        if not isinstance(r, list) and not isinstance(c, list):
            return f.rows[r][c]
        if not isinstance(r, list):
            return Series([f.rows[r][j] for j in c], [f.columns[j] for j in c], f.labels[r])
        if not isinstance(c, list):
            return Series([f.rows[i][c] for i in r], [f.labels[i] for i in r], f.columns[c])
        return DataFrame._make([[f.rows[i][j] for j in c] for i in r], [f.labels[i] for i in r], [f.columns[j] for j in c])


def concat(objs, axis=0, join='outer', ignore_index=False, keys=None, sort=False, **k):
    if isinstance(objs, dict):
        keys, objs = list(objs.keys()), list(objs.values())
    objs = [o for o in objs if o is not None]
    if not objs:
        raise ValueError('No objects to concatenate')
    if k or join != 'outer' or not all(isinstance(o, Series) for o in objs):
        _unsup('concat of this form')
    if axis in (0, 'index'):
        if keys is not None:
            _unsup('concat with keys')
        values = snp.concatenate([o.values for o in objs])
        names = [o.name for o in objs]
        name = names[0] if all(n == names[0] for n in names) else None
        if ignore_index:
            return Series(values, None, name)
        return Series(values, snp.concatenate([o.index.values for o in objs]), name)
    labels = list(objs[0].index)
    if not all(_same_labels(labels, o.index) for o in objs):
        for o in objs:
            if len(_union([o.index])) != len(o):
                raise ValueError('cannot reindex on an axis with duplicate labels')
        labels = _union(o.index for o in objs)
        if sort:
            labels = [labels[i] for i in snp.argsort(_arr(labels), kind='stable')]
        objs = [o.reindex(labels) for o in objs]
    if keys is None:
        names = [o.name for o in objs]
        free = iter(range(len(objs)))
        keys = list(range(len(objs))) if all(n is None for n in names) else [
            n if n is not None else next(free) for n in names]
    return DataFrame._make([[o.values[i] for o in objs] for i in range(len(labels))], labels, list(keys))


def isnull(x):
    if isinstance(x, (Series, DataFrame)):
        return x.isnull()
    if isinstance(x, rnp.ndarray):
        return snp.make_module().isnan(x)
    return SymBool(SymReal.of(x).nan) if x is not None else True


def notnull(x):
    if isinstance(x, (Series, DataFrame)):
        return x.notnull()
    r = isnull(x)
    return ~r if isinstance(r, (rnp.ndarray, SymBool)) else not r


def make_module():
    m = types.ModuleType('pandas')
    m.Series = Series
    m.DataFrame = DataFrame
    m.Index = m.Float64Index = _index
    m.concat = concat
    m.isnull = m.isna = isnull
    m.notnull = m.notna = notnull
    m.__getattr__ = lambda n: core.ENGINE.unsupported('pandas.' + n) if not n.startswith('__') else _attr(n)
    return m


def _attr(n):
    raise AttributeError(n)
