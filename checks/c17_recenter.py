"""C17: recentring and cutting of flow maps."""
from symx.runner import Config, again
from checks.common import cell_order

ID = 'C17'
IMPORTS = ('strata.average',)
BOUNDS = ('recenter_maps on 1..3 maps of 2x2..4x2 (quick) / 5x2 bins with a symbolic common origin in [-50, 50] and symbolic '
          'recentring values up to a bin outside of the maps, symbolic field values; one set of 11x2 bins with a spacing '
          'and origin without exact binary representation; cut_system on up to 4 bins at symbolic positions')
OUTSIDE = 'maps of different sizes or grids; recentring values exactly half-way between two bins; no common range'


def recenter(env, n, nx, ny, spacing, order='x', origin=None, reach=1, labels=('M', 'U')):
    f = env.mod('strata.average').recenter_maps
    dx, dy = (env.const(s) for s in spacing)
    if origin:
        x0, y0 = (env.const(o) for o in origin)
    else:
        x0, y0 = env.real('x0', -50, 50), env.real('y0', -50, 50)
    cells = [(i, j) for i in range(nx) for j in range(ny)]
    if order == 'y':
        cells = [(i, j) for j in range(ny) for i in range(nx)]
    elif order == 'shuffle':
        step = next(s for s in (5, 7, 11, 13) if len(cells) % s)
        cells = [cells[(step * k + 1) % len(cells)] for k in range(len(cells))]
    elif order != 'x':
        cells = cell_order(order, nx, ny)
    maps, vals, steps, rs = [], [], [], []
    for q in range(n):
        v = dict((l, env.reals('%s%d' % (l, q), len(cells)) if not origin else
                  [env.const(k + 100 * q) for k in range(len(cells))]) for l in labels)
        # the value lies nearest to the column s
        s = env.choice('column%d' % q, range(-reach, nx + reach))
        off = env.real('offset%d' % q, '-0.499', '0.499') if not origin else env.const(0)
        rs.append(x0 + (env.lit(s) + off) * dx if not origin else env.const(env.frac(origin[0]) + s * env.frac(spacing[0])))
        steps.append(s)
        vals.append(v)
        m = dict((l, env.arr(v[l])) for l in labels)
        m['X'] = env.arr([x0 + env.lit(i) * dx for i, j in cells])
        m['Y'] = env.arr([y0 + env.lit(j) * dy for i, j in cells])
        maps.append(m)
    lo, hi = max(-s for s in steps), nx - 1 + min(-s for s in steps)
    if hi <= lo:
        # fewer than two common columns: the spacing is undefined
        return
    got, info = f(maps, list(rs))
    env.check(len(got) == n, 'every map is returned')
    for q in range(n):
        keep = [k for k, (i, j) in enumerate(cells) if lo <= i - steps[q] <= hi]
        env.check(sorted(got[q]) == sorted(labels + ('X', 'Y')), 'all fields')
        for l in got[q]:
            env.check(len(got[q][l]) == len(keep), 'the common part of the maps is kept: ' + l)
        for p, k in enumerate(keep):
            i, j = cells[k]
            env.check_eq(got[q]['X'][p], x0 + env.lit(i - steps[q]) * dx, 'moved by a whole number of bins')
            env.check_eq(got[q]['Y'][p], y0 + env.lit(j) * dy, 'not moved along y')
            for l in labels:
                env.check_eq(got[q][l][p], vals[q][l][k], 'values move with their bins: ' + l)
    env.check(tuple(info['shape']) == (hi - lo + 1, ny), 'shape of the common grid')
    env.check(info['num_bins'] == (hi - lo + 1) * ny, 'number of bins of the common grid')
    for a, b, l in zip(info['spacing'], (dx, dy), 'xy'):
        env.check_eq(a, b, 'spacing of the common grid along ' + l)
    env.check_eq(info['origin'][0], x0 + env.lit(lo) * dx, 'origin of the common grid along x')
    env.check_eq(info['origin'][1], y0, 'origin of the common grid along y')


def refused(env):
    f = env.mod('strata.average').recenter_maps
    def maps(n):
        return [dict((l, env.arr([env.const(0), env.const(1)])) for l in 'XYM') for _ in range(n)]
    env.check(env.raises(IndexError, lambda: f(maps(2), [env.const(1)])) is not None, 'a value for each map')
    env.check(env.raises(IndexError, lambda: f(maps(1), [env.const(1)] * 2)) is not None, 'a map for each value')
    env.check(env.raises(TypeError, lambda: f(maps(2), [env.const(1), None])) is not None, 'values must be numbers')


def cut(env, n, xs, ys, labels=('X', 'Y', 'U', 'M')):
    f = env.mod('strata.average').cut_system
    v = dict((l, env.reals(l, n)) for l in labels)
    lim = {}
    for a, kind in (('x', xs), ('y', ys)):
        lim[a] = tuple(env.real(a + m) if m in kind else None for m in ('min', 'max'))
    got = f(dict((l, env.arr(v[l])) for l in labels), lim['x'], lim['y'])
    keep = []
    for k in range(n):
        c = []
        for a, l in (('x', 'X'), ('y', 'Y')):
            if lim[a][0] is not None:
                c.append(v[l][k] >= lim[a][0])
            if lim[a][1] is not None:
                c.append(v[l][k] <= lim[a][1])
        if not c or env.fork(env.and_(*c)):
            keep.append(k)
    env.check(sorted(got) == sorted(labels), 'all fields')
    for l in labels:
        env.check(len(got[l]) == len(keep), 'bins within the limits: ' + l)
        for p, k in enumerate(keep):
            env.check_eq(got[l][p], v[l][k], 'value of ' + l)


def configs(tier):
    A, B, C = ('0.5', '0.25'), ('0.3', '0.7'), ('1', '2')
    out = [Config('one', recenter, dict(n=1, nx=3, ny=2, spacing=A)),
           Config('two', recenter, dict(n=2, nx=3, ny=2, spacing=C)),
           Config('two-y', recenter, dict(n=2, nx=4, ny=2, spacing=B, order='y', reach=0)),
           Config('two-shuffle', recenter, dict(n=2, nx=3, ny=3, spacing=A, order='shuffle', labels=('M',))),
           Config('two-mirror', recenter, dict(n=2, nx=3, ny=2, spacing=B, order='mirror', reach=0, labels=('M',))),
           Config('one-flip', recenter, dict(n=1, nx=3, ny=2, spacing=A, order='flip')),
           Config('three', recenter, dict(n=3, nx=3, ny=2, spacing=A, reach=0, labels=('M',))),
           Config('inexact', recenter, dict(n=2, nx=11, ny=2, spacing=('0.05', '0.1'), origin=('1.3', '0.7'), reach=0), witness=200),
           Config('refused', refused)]
    both = ('min', 'max')
    for nm, xs, ys in (('none', (), ()), ('x', both, ()), ('y', (), both), ('min', ('min',), ('min',)),
                       ('max', ('max',), ('max',)), ('all', both, both)):
        out.append(Config('cut-' + nm, cut, dict(n=2 if nm == 'all' else 3, xs=xs, ys=ys)))
    if tier == 'thorough':
        out += [Config('two-wide', recenter, dict(n=2, nx=5, ny=2, spacing=B, order='shuffle')),
                Config('three-wide', recenter, dict(n=3, nx=4, ny=2, spacing=C, reach=0)),
                Config('cut-4', cut, dict(n=4, xs=both, ys=('min',)))]
    return again(out, 'two', ('two-y', 'two'), ('cut-x', 'cut-y'), ('cut-none', 'cut-all'))
