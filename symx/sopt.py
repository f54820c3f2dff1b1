"""scipy.optimize for residuals which are affine in the parameters: the least
squares solution is that of the normal equations, whatever the method."""

import types
from fractions import Fraction

from . import core, snp
from .core import SymReal


class _Poison(object):
    def __init__(self, what):
        self._what = what

    def _no(self, *a, **k):
        core.ENGINE.unsupported(self._what)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        core.ENGINE.unsupported(self._what)

    __getitem__ = __iter__ = __len__ = __array__ = __float__ = __add__ = __mul__ = _no


def _vec(x):
    return list(snp.asarr(x).ravel())


def affine(f, n):
    """residual at zero and columns of the derivative"""
    def at(*p):
        return _vec(f(snp.array([SymReal(Fraction(v)) for v in p])))
    zero = at(*[0] * n)
    units = [at(*[1 if i == j else 0 for i in range(n)]) for j in range(n)]
    cols = [[b - a for a, b in zip(zero, u)] for u in units]
    for probe in ((2,) + (0,) * (n - 1), tuple(range(1, n + 1)), tuple(-3 for _ in range(n))):
        got = at(*probe)
        for i, r in enumerate(got):
            want = zero[i]
            for p, c in zip(probe, cols):
                want = want + p * c[i]
            d = SymReal.of(r) - want
            if core.ENGINE.entailed(core.to_b(d == 0)) is not True:
                core.ENGINE.unsupported('least squares of a function which is not linear in its parameters')
    return zero, cols


def _dot(a, b):
    r = SymReal(Fraction(0))
    for x, y in zip(a, b):
        r = r + x * y
    return r


def solve(zero, cols):
    n = len(cols)
    A = [[_dot(a, b) for b in cols] for a in cols]
    y = [-_dot(a, zero) for a in cols]
    if n == 1:
        det, num = A[0][0], [y[0]]
    elif n == 2:
        det = A[0][0] * A[1][1] - A[0][1] * A[1][0]
        num = [y[0] * A[1][1] - A[0][1] * y[1], A[0][0] * y[1] - y[0] * A[1][0]]
    else:
        core.ENGINE.unsupported('least squares with %d parameters' % n)
    if bool(det == 0):
        core.ENGINE.unsupported('least squares without a unique solution')
    return snp.array([x / det for x in num])


def leastsq(func, x0, args=(), Dfun=None, full_output=False, **k):
    args = args if isinstance(args, tuple) else (args,)
    n = len(_vec(x0))
    zero, cols = affine(lambda p: func(p, *args), n)
    if n > len(zero):
        raise TypeError('Improper input: func input vector length N=%d must not exceed func output vector length M=%d'
                        % (n, len(zero)))
    x = solve(zero, cols)
    if full_output:
        return x, _Poison('covariance of a fit'), _Poison('details of a fit'), _Poison('message of a fit'), 1
    return x, 1


def least_squares(fun, x0, jac='2-point', bounds=None, method='trf', args=(), kwargs=None, loss='linear', **k):
    if bounds is not None or loss != 'linear':
        core.ENGINE.unsupported('least squares of this kind')
    n = len(_vec(x0))
    zero, cols = affine(lambda p: fun(p, *args, **(kwargs or {})), n)
    r = types.SimpleNamespace(x=solve(zero, cols), success=True, status=1)
    return r


def curve_fit(f, xdata, ydata, p0=None, sigma=None, **k):
    if sigma is not None or k.get('bounds') is not None:
        core.ENGINE.unsupported('curve_fit of this kind')
    n = len(_vec(p0)) if p0 is not None else f.__code__.co_argcount - 1
    y = snp.asarr(ydata)
    zero, cols = affine(lambda p: f(xdata, *_vec(p)) - y, n)
    if n > len(zero):
        raise TypeError('The number of func parameters=%d must not exceed the number of data points=%d' % (n, len(zero)))
    return solve(zero, cols), _Poison('covariance of a fit')


def lstsq(a, b, rcond=None):
    a, b = snp.asarr(a), snp.asarr(b)
    if a.ndim != 2 or b.ndim != 1:
        core.ENGINE.unsupported('lstsq of this form')
    cols = [list(a[:, j]) for j in range(a.shape[1])]
    return solve([-x for x in b], cols), _Poison('lstsq'), _Poison('lstsq'), _Poison('lstsq')


def make_module():
    m = types.ModuleType('scipy.optimize')
    m.leastsq, m.least_squares, m.curve_fit = leastsq, least_squares, curve_fit

    def missing(n):
        if n.startswith('__'):
            raise AttributeError(n)
        core.ENGINE.unsupported('scipy.optimize.' + n)
    m.__getattr__ = missing
    return m
