#!/opt/venv/bin/python
"""Compares the numpy of the engine with numpy itself, on constants and on symbols which are fixed by assumptions.

Development aid: /opt/venv/bin/python -B -W ignore tools/numpytest.py [-v]
"""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import numpy as rnp  # noqa: E402
import z3  # noqa: E402
from fractions import Fraction  # noqa: E402
from symx import core, snp  # noqa: E402
from symx.core import Engine, SymReal, SymBool, SymInt  # noqa: E402

CASES = r'''
np.sum(a); np.sum(a, where=m); np.sum(a, initial=3); np.sum(A, axis=0, keepdims=True); np.max(a, initial=100); np.min(a, initial=0.5, where=m)
np.max(A, axis=1); np.amax(A, axis=(0, 1)); a.sum(where=m); a.max(initial=-1); A.mean(axis=0, keepdims=True); np.mean(a, where=m)
np.prod(a); np.product(a); a.prod(initial=2); np.all(m); np.any(A > 4, axis=0); np.all(A > 0, axis=1, keepdims=True); np.std(A, axis=0, keepdims=True)
np.extract(m, a); np.union1d(a, b); np.setdiff1d(a, b); np.setxor1d(a, b); np.select([a > 3, a > 2], [a, -a], 7); np.piecewise(a, [a > 3], [lambda v: v * 2, lambda v: -v])
np.choose(k, [a, b, a + b]); np.cumprod(a); a.cumprod(); np.ptp(a); np.ptp(A, axis=0); np.ediff1d(a); np.ediff1d(a, to_begin=0)
np.bincount(k); np.bincount(k, weights=a); np.bincount(k, minlength=9); np.histogram(a, bins=[0, 2, 4, 9], weights=b)[0]; np.histogram(a, bins=3)[0]; np.histogram(a, bins=3)[1]
np.convolve(a, [1, 2]); np.convolve(a, b[:2], 'valid'); np.convolve(a, np.ones(3), 'same'); np.correlate(a, b[:2]); np.interp([1.5, 3], np.sort(a), b); np.interp(0., np.sort(a), b)
np.percentile(a, 50); np.quantile(a, [0.25, 0.5]); np.sort(np.partition(a, 2)); np.unique(B, axis=0); np.unique(a, return_index=True)[1]; np.unique(b, return_inverse=True)[1]; np.unique(b, return_counts=True)[1]
np.vectorize(lambda v: v * 2 if v > 3 else 0.)(a); np.frompyfunc(lambda x, y: x + y, 2, 1)(a, b).astype(float); np.fromiter((v * 2 for v in a), dtype=float); np.fromfunction(lambda i, j: i + 2 * j, (2, 3))
np.apply_along_axis(np.sum, 0, A); np.apply_along_axis(lambda r: r[::-1], 1, A); np.array_equiv(a, a); np.iterable(a); np.real(a)
np.maximum.reduce(a); np.add.reduceat(a, [0, 2]); np.add.reduceat(A, [0, 2], axis=1); np.add.accumulate(a); np.add.outer(a, b); np.subtract.outer(a, b)
at(np.add, a, [0, 0, 2], b[:3]); at(np.add, a, [1, 1], 2.); at(np.maximum, a, k, b); at(np.add, A, ([0, 1], [1, 1]), b[:2])
setter(np.putmask, a, a > 3, 0.); setter(np.place, a, m, [9., 8.]); setter(np.put, a, [0, 2], [5., 6.]); setter(np.copyto, a, b, where=m); setter(np.fill_diagonal, A, 0.)
np.diag(A); np.trace(A); np.tril(A); np.diagonal(A); np.broadcast_shapes((2, 1), (3,)); np.broadcast_to(a, (2, 5)); np.rot90(A); np.roll(a, 2); np.roll(A, 1, axis=0); np.flip(A, 1); np.pad(a, 1); np.pad(a, (1, 2), mode='edge'); np.pad(A, ((0, 0), (1, 1)), mode='wrap')
np.r_[a, b]; np.c_[a, b]; np.r_[0, a]; np.stack([a, b], axis=1); np.column_stack((a, b)); np.vstack([a, b]); np.hstack((a, b)); np.dstack((a, b)); np.block([a, b]); np.concatenate([A, A], axis=1)
np.array_split(a, 2)[0]; np.split(A, [1], axis=1)[1]; np.take(a, [1, 1]); np.take(A, [0], axis=1); np.delete(a, 1); np.insert(a, 1, 9.); np.repeat(a, 2); np.repeat(a, [1, 0, 2, 1, 1]); np.tile(a, 2)
np.digitize(a, [2, 4]); np.searchsorted(np.sort(a), 3.); np.searchsorted(np.sort(a), b, side='right'); np.flatnonzero(a > 2); np.argwhere(A > 3); np.nonzero(a > 2)[0]; np.count_nonzero(a > 2); np.count_nonzero(A > 2, axis=0)
np.argsort(a); np.argsort(-a, kind='stable'); np.lexsort((a, b)); np.argmax(a); np.argmin(A, axis=1); np.nanargmax(a); np.nanstd(a); np.nanmedian(a); np.median(a); np.nansum(a); np.nanmax(a)
np.where(a > 2, a, b); np.where(a > 2)[0]; np.isin(a, b); np.in1d(a, [2., 5.]); np.isclose(a, b); np.allclose(a, a + 1e-12); np.array_equal(a, b)
np.diff(a); np.diff(A, axis=0); np.gradient(a); np.gradient(a, .5); np.gradient(A, 1., 2.)[1]; np.trapz(a, b); np.dot(a, b); np.inner(a, b); np.outer(a, b); A @ A.T; np.matmul(A, A.T); np.vdot(a, b)
np.hypot(a, b); np.sqrt(a * a); np.abs(-a); np.fabs(-a); np.square(a); np.power(a, 2); a ** 2; np.sign(a - 3); np.floor(a / 2); np.ceil(a / 2); np.rint(a / 4); np.trunc(-a / 2); np.fix(a / 2); np.mod(a, 2); np.fmod(a, 2); np.remainder(-a, 2); a // 2; a % 2; np.floor_divide(a, 2); np.divmod(a, 2)[0]; np.modf(a / 2)[0]; np.reciprocal(a); np.negative(a); np.positive(a); np.copysign(a, -b); np.heaviside(a - 3, .5); np.float_power(a, 2)
np.minimum(a, b); np.fmax(a, b); np.clip(a, 2, 3); a.clip(2); np.around(a / 3, 2); np.round(a / 3, 1); np.nan_to_num(a); np.logical_and(a > 2, b > 2); (a > 2) & (b > 2); ~(a > 2); np.logical_not(m); np.logical_xor(a > 2, b > 2); np.greater(a, b); np.equal(a, b); np.not_equal(a, b); np.less_equal(a, 3)
np.divide(a, b, out=np.zeros(5), where=b > 2); np.divide(a, b - 2, out=np.zeros_like(a), where=b != 2); np.true_divide(a, b); np.multiply(a, b); np.subtract(a, 1)
np.average(a, weights=b); np.average(A, axis=0, weights=[1, 2]); np.average(a, weights=b, returned=True)[1]; np.cumsum(a); np.cumsum(A, axis=1); np.ravel(A, order='F'); A.flatten('F'); A.T; A.ravel(); A.reshape(3, 2); A.reshape(-1); A.reshape((3, -1)); A[:, ::-1]; A[..., 0]; A[None].shape; A.size; A.ndim; A.shape; A.swapaxes(0, 1); A.transpose(1, 0); np.transpose(A); np.moveaxis(A, 0, 1); np.squeeze(A[None]); np.expand_dims(a, 0).shape
np.meshgrid(a, b)[0]; np.meshgrid(a, b, indexing='ij')[1]; np.linspace(0, 1, 5); np.linspace(a[0], a[1], 3); np.arange(5); np.arange(0., 1., .25); np.arange(0, 3) * a[0]; np.zeros((2, 2)); np.full(3, a[0]); np.full_like(a, 2.); np.ones_like(a); np.eye(2); np.identity(2); np.indices((2, 2)); np.indices((int(a[0]), k[2])); np.mgrid[0:3]; np.mgrid[0:a[0]:1, 0:2]; np.mgrid[0:1:3j, 0:int(a[1])]; np.ogrid[0:2, 0:3][1]; np.mgrid[:2, 1:3][1] * a[0]; np.unravel_index(3, (2, 2)); np.ravel_multi_index(([0, 1], [1, 1]), (2, 2)); np.ix_([0], [1])[0].shape
a.tolist(); list(a); [v for v in a]; sum(a); max(a); min(a); sorted(a); a.argmax(); a.argsort(); a.copy(); a.astype(int); k.astype(float); a.mean(); a.std(); a.var(); a.min(); a.any(); a.dot(b); a.nonzero()[0].size; a[m]; a[k % 5]; a[[0, 1]]; a[-1]; a[1:3]; a[::2]; float(a[0]); int(a[0]); round(a[0] / 3, 2); abs(-a[0]); a[0] // 2; divmod(a[0], 2); a.take([0, 1]); a.repeat(2); a.compress(m); np.compress(m, a); A.diagonal(); a.item(0); A.item(1); len(a); bool(a[0] > 1); np.sort(a).searchsorted(3.); a.round(0)
R['x']; R[['x', 'y']]['y']; np.sort(R, order=['y', 'x'])['x']; np.argsort(R, order='y'); R[R['x'] > 2]['y']; R.copy()['x']; R[0]['x']; R['x'].sum(); len(R); R.dtype.names; np.lexsort((R['x'], R['y'])); np.append(R, R)['x']; np.concatenate([R, R])['y']; np.unique(R['x']); R.reshape(5, 1)['x']; R.view()['x']
np.nansum(np.array([a[0], np.nan, a[1]])); np.nanmean(np.array([a[0], np.nan, a[1]])); np.nanmin(np.array([a[0], np.nan, a[1]])); np.nanargmax(np.array([a[0], np.nan, a[1]])); np.nanmean(np.array([[a[0], np.nan], [a[1], a[2]]]), axis=1); np.nanmedian(np.array([np.nan, a[0], a[1]])); np.nansum(np.array([np.nan]));np.max(np.array([a[0], np.nan, a[1]])); np.min(np.array([np.nan, a[0]])); np.maximum(np.array([a[0], np.nan, a[1]]), a[2]); np.minimum(a[2], np.array([a[0], np.nan, a[1]])); np.fmax(np.array([a[0], np.nan, a[1]]), a[2]); np.fmin(np.array([np.nan, np.nan]), np.array([a[0], np.nan])); np.clip(np.array([a[0], np.nan, a[1]]), 2, 3); np.sort(np.array([a[0], np.nan, a[1]])); np.argsort(np.array([a[0], np.nan, a[1]])); np.argmax(np.array([a[0], np.nan, a[1]])); np.argmin(np.array([a[0], np.nan, a[1]])); np.median(np.array([a[0], np.nan, a[1]])); np.mean(np.array([a[0], np.nan, a[1]])); np.array([a[0], np.nan, a[1]]) > 1; np.array([a[0], np.nan, a[1]]) != np.nan; np.where(np.array([a[0], np.nan]) > 0, 1, 2); np.cumsum(np.array([a[0], np.nan, a[1]])); np.array([a[0], np.nan, a[1]]) * 0; np.sqrt(np.array([a[0], np.nan])); np.abs(np.array([np.nan, -a[0]])); np.isin(np.array([a[0], np.nan]), a); np.unique(np.array([a[0], np.nan, a[0]])); np.any(np.isnan(np.array([a[0], np.nan]))); np.std(np.array([a[0], np.nan])); np.count_nonzero(np.array([a[0], np.nan, 0.])); np.nonzero(np.array([0., np.nan]))[0]; np.allclose(np.array([np.nan]), np.array([np.nan])); np.array_equal(np.array([np.nan]), np.array([np.nan])); np.searchsorted(np.array([1., 2.]), np.nan); np.sign(np.array([np.nan, a[0]])); np.floor(np.array([np.nan, a[0]])); np.ma.masked_invalid(np.array([a[0], np.nan])).sum(); np.ma.array(a, mask=a > 2)[a > 1].min(); np.dot(np.array([a[0], np.nan]), b[:2]); np.average(np.array([a[0], np.nan]), weights=[1, 0]); np.diff(np.array([a[0], np.nan, a[1]])); np.histogram(np.array([1., 2., 3.]), weights=np.array([a[0], np.nan, 1.]), bins=3)[0]; np.ptp(np.array([a[0], np.nan])); np.lexsort((np.array([a[0], np.nan, a[1]]),)); np.power(np.array([a[0], np.nan]), 0); np.isfinite(a); np.isnan(a); np.isinf(a); np.deg2rad(a * 0); np.degrees(a * 0); np.arctan2(a * 0, a); np.cos(a * 0); np.inf;  np.float64(2.5); np.sum([a[0], b[0]]); np.mean([a[0], 2]); np.max([a[0], b[0]]); np.array([a, b]); np.array([a[0], 1, 2.5]); np.asarray([[a[0]], [b[0]]]); np.array(list(zip(a, b))); np.array([(x, y) for x, y in zip(a, b)], dtype=[('p', float), ('q', float)])['q']; np.rec.fromarrays([a, b], names='x,y')['y']; np.core.records.fromarrays([a, b], names='x,y')['x']
np.einsum('ij->i', A); np.einsum('ij,ij->j', A, A); np.tensordot(A, A, axes=([0, 1], [0, 1])); np.linalg.norm(a * 0 + 2); np.linalg.norm(A[:, :2] * 0 + 1, axis=1); np.polyfit(a, 2 * a + 1, 1); np.polyval([1, 2], a); np.cross([a[0], 0, 0], [0, b[0], 0]); np.kron(a[:2], b[:2]); np.sum(A, axis=-1); np.sum(list(a)); np.sum(A * a[:3], axis=1); np.ma.masked_where(a > 3, a).sum(); np.ma.array(a, mask=m).mean(); np.ma.masked_less(a, 3).compressed(); np.ma.masked_array(a, m).filled(0)
'''


def build(np, lit, sym):
    a = np.array([lit(v) for v in (3, 1, 4, 2.5, 5)])
    b = np.array([lit(v) for v in (2, 7, 1, 2, 5)])
    A = np.array([[lit(v) for v in (1, 5, 2)], [lit(v) for v in (6, 3, 4)]])
    B = np.array([[lit(v) for v in r] for r in ((1, 2), (0, 5), (1, 2))])
    R = np.zeros(5, dtype=[('x', float), ('y', float)])
    R['x'], R['y'] = a, b
    m = np.array([True, False, True, True, False])
    k = np.array([0, 2, 1, 1, 0])

    def at(uf, x, *args):
        x = x.copy()
        uf.at(x, *args)
        return x

    def setter(f, x, *args, **kw):
        x = x.copy()
        f(x, *args, **kw)
        return x
    return dict(np=np, a=a, b=b, A=A, B=B, R=R, m=m, k=k, at=at, setter=setter)


def plain(x, e):
    if isinstance(x, (list, tuple)):
        return [plain(v, e) for v in x]
    if isinstance(x, rnp.ndarray):
        if x.dtype.names:
            return [[plain(v[n], e) for n in x.dtype.names] for v in x.ravel()]
        return [list(x.shape)] + [plain(v, e) for v in x.view(rnp.ndarray).ravel()]
    if isinstance(x, SymReal):
        if any(bool(SymBool(c)) for c in (x.nan, x.pinf, x.ninf)):
            return 'nan' if bool(SymBool(x.nan)) else 'inf' if bool(SymBool(x.pinf)) else '-inf'
        if isinstance(x.n, Fraction) and x.d is None:
            return round(float(x.n), 9)
        e.solver.check()
        v = e.solver.model().eval(x.z(), model_completion=True)
        return round(float(v.as_fraction()) if z3.is_rational_value(v) else float(v.approx(15).as_fraction()), 9)
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, SymInt):
        return float(int(x))
    if isinstance(x, (bool, rnp.bool_)):
        return bool(x)
    if isinstance(x, (int, float, rnp.integer, rnp.floating, Fraction)):
        return round(float(x), 9) if abs(x) < float('inf') else '%s' % float(x)
    return repr(x)


def main():
    cases = [c.strip() for l in CASES.splitlines() for c in split(l) if c.strip()]
    bad = unsup = 0
    for mode in ('const', 'sym'):
        for c in cases:
            want = run(c, rnp, float, None)
            e = Engine()
            core.set_engine(e)
            cache = {}

            def lit(v):
                if mode == 'const':
                    return SymReal(Fraction(v)).as_np() if hasattr(SymReal, 'as_np') else SymReal(Fraction(v))
                k = len(cache)
                z = z3.Real('v%d' % k)
                cache[k] = z
                e.solver.add(z == z3.RealVal(str(Fraction(v))))
                e.pc.append(z == z3.RealVal(str(Fraction(v))))
                return SymReal(z).as_np()
            try:
                np = snp.make_module()
                from symx import fs, harness, loader
                e.fs = fs.FileSystem()
                env = build(np, lit, e)
                env['__builtins__'] = loader.Loader(harness.REPO).builtins
                got = plain(eval(c, env), e)
            except core.Control as x:
                got = ('UNSUPPORTED', str(x) or type(x).__name__)
            except Exception as x:
                got = ('EXC', '%s: %s' % (type(x).__name__, x))
            core.set_engine(None)
            if got != want:
                if isinstance(got, tuple) and got[0] == 'UNSUPPORTED':
                    unsup += 1
                    if mode == 'const' or '-v' in sys.argv:
                        print('%-5s unsup %s: %s' % (mode, c, got[1]))
                else:
                    bad += 1
                    print('%-5s DIFF  %s\n    want %s\n    got  %s' % (mode, c, str(want)[:200], str(got)[:200]))
    print(len(cases), 'expressions', bad, 'differ', unsup, 'unsupported')
    return 1 if bad else 0


def split(l):
    out, depth, cur = [], 0, ''
    for ch in l:
        depth += ch in '([{'
        depth -= ch in ')]}'
        if ch == ';' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    return out + [cur]


def run(c, np, lit, e):
    try:
        return plain(eval(c, build(np, lit, e)), e)
    except Exception as x:
        return ('EXC', '%s: %s' % (type(x).__name__, x))


sys.exit(main())
