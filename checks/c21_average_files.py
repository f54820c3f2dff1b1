"""C21: averaging a series of files."""
from symx.runner import Config, again

ID = 'C21'
IMPORTS = ('strata.average', 'strata.dataformats.write', 'strata.dataformats.read')
BOUNDS = ('strata.average.average on series of 2..4 gmx (or simple) files of up to 4x4 bins, group sizes 1..3, rolling or '
          'not, with every combination of cutting (symbolic limits), recentring (symbolic masses), combining and '
          'supersampling by 2; symbolic values of one or two bins in [-10, 10] with weights in [0, 10] in every file, the '
          'other bins constant')
OUTSIDE = 'larger maps and series; single precision rounding of the files (C01)'
FIELDS = ('N', 'T', 'M', 'U', 'V')


def bins(env, q, nx, ny, sym, mass=None, light=False):
    """values of the bins of file q"""
    out = {}
    for i in range(nx):
        for j in range(ny):
            v = {}
            for f, l in enumerate(FIELDS):
                if (i, j) in sym:
                    v[l] = env.real('%s%d[%d,%d]' % (l, q, i, j), 0 if l in 'NM' else -10, 10)
                else:
                    v[l] = env.const((3 * i + 5 * j + f + q) % 7 + 1 if l != 'M' or not light else 1)
            if mass is not None:
                v['M'] = mass(i, j)
            if (i, j) in sym and mass is None:
                # a bin without mass is not stored
                empty = env.fork(v['M'] == 0)
                if empty:
                    v = dict((l, env.const(0)) for l in FIELDS)
                else:
                    env.assume(v['M'] >= env.lit('0.01'))
                    env.assume(v['N'] >= env.lit('0.01'))
            out[(i, j)] = v
    return out


def totals(env, maps):
    """additive quantities of the mean over maps (which have the same bins)"""
    n = len(maps)
    out = {}
    for k in maps[0]:
        vs = [m[k] for m in maps]
        out[k] = {'N': env.sum([v['N'] for v in vs]) / n, 'M': env.sum([v['M'] for v in vs]) / n,
                  'U': env.sum([v['M'] * v['U'] for v in vs]) / n, 'V': env.sum([v['M'] * v['V'] for v in vs]) / n,
                  'T': env.sum([v['N'] * v['T'] for v in vs]) / n}
    return out


def add(env, vs, n=1):
    return dict((l, env.sum([v[l] for v in vs]) / n) for l in FIELDS)


def recentred(env, maps, how, cols, dx, x0, h=None):
    """column of every map which is moved to the first one"""
    steps = []
    for m in maps:
        if how == 'com':
            tot = env.sum([m[k]['M'] for k in m])
            for s in range(cols):
                d = env.sum([m[k]['M'] * (k[0] - s) for k in m])
                if s == cols - 1 or env.fork(2 * d <= tot):
                    env.assume(env.and_(2 * d < tot, -2 * d < tot))
                    break
            steps.append(s)
        else:
            # outermost heavy columns of the layer
            heavy = [i for i in range(cols) if env.fork(m[(i, h)]['M'] > 5)]
            steps.append(heavy[0] if how == 'left' else heavy[-1])
    return steps


def pipeline(env, nfiles, group, nx=3, ny=2, rolling=False, begin=None, end=None, cut=(), recenter=None, combine=None,
             supersample=None, sym=((0, 0), (2, 1)), kind='gmx', floor=None, layer=0, spacing=('0.5', '0.25'),
             origin=('1', '-2'), lims=None):
    env.exact_f32()
    write = env.mod('strata.dataformats.write').write
    read = env.mod('strata.dataformats.read').read_data_file
    dx, dy = (env.const(s) for s in spacing)
    x0, y0 = (env.const(s) for s in origin)
    half = env.lit('0.5')
    cells = [(i, j) for i in range(nx) for j in range(ny)]
    series = []
    for q in range(nfiles):
        mass = None
        if recenter in ('left', 'right'):
            # a pair of heavy bins in each layer, somewhere
            p = env.choice('drop%d' % q, range(nx - 1))
            mass = lambda i, j, q=q, p=p: (env.real('heavy%d' % q, 6, 9) if i in (p, p + 1) and j == layer else
                                           env.const(8) if i in (0, 1) and j != layer else env.const(0))
        m = bins(env, q, nx, ny, () if mass else sym, mass, recenter == 'com')
        if mass:
            m = dict((k, v if env.fork(v['M'] > 0) else dict((l, env.const(0)) for l in FIELDS)) for k, v in m.items())
        if recenter == 'com':
            for k in m:
                env.assume(m[k]['M'] >= 1)
        series.append(m)
        data = dict([('X', env.arr([x0 + dx * (i + half) for i, j in cells])),
                     ('Y', env.arr([y0 + dy * (j + half) for i, j in cells]))]
                    + [(l, env.arr([m[k][l] for k in cells])) for l in FIELDS])
        write('in/f%05d.dat' % (q + 1), data, {'shape': (nx, ny), 'spacing': (dx, dy), 'origin': (x0, y0),
                                               'num_bins': nx * ny}, ftype=kind)
    before = dict((p, env.read_raw(p)) for p in env.listing())
    kw = {'quiet': True}
    lim = {}
    for a, hi in (('x', nx), ('y', ny)):
        if a in cut:
            c0, d = (x0, dx) if a == 'x' else (y0, dy)
            lim[a] = [c0 + d * env.real(a + 'min', 0, '1.4'), c0 + d * env.real(a + 'max', hi - 1 + env.frac('0.1'), hi)]
            kw[a + 'lim'] = tuple(lim[a])
            if a == 'y' and begin:
                kw['ylim'] = (None, lim[a][1])
                lim[a][0] = None
    if 'Y' in cut:
        # fixed limits
        lim['y'] = [y0 + dy * env.lit('0.7'), y0 + dy * ny]
        kw['ylim'] = tuple(lim['y'])
    for a in lims or ():
        # fixed limits, or none
        lim[a] = [v if v is None else env.const(v) for v in lims[a]]
        kw[a + 'lim'] = tuple(lim[a])
    for k, v in (('rolling', rolling), ('begin', begin), ('end', end), ('recenter', recenter), ('combine', combine),
                 ('supersample', supersample), ('floor', floor)):
        if v:
            kw[k] = env.const(v) if k == 'floor' else v
    if recenter in ('left', 'right'):
        kw['cutoff'] = env.const(5)
    env.mod('strata.average').average('in/f', 'out/a', group, **kw)
    # the groups
    nums = [k for k in range(1, nfiles + 1) if k >= (begin or 1) and (end is None or k <= end)]
    jobs = []
    k = 0
    while k + group <= len(nums):
        g = nums[k:k + group]
        jobs.append((g, g[0] if rolling else -(-g[0] // group)))
        k += 1 if rolling else group
    env.check(env.listing() == sorted(list(before) + ['out/a%05d.dat' % o for _, o in jobs]), 'an output for each group')
    for p in before:
        env.check(env.read_raw(p) == before[p], 'inputs are left alone')
    # cutting is the same for all maps
    keep = cells
    for a, ax in (('x', 0), ('y', 1)):
        if a in lim:
            c0, d = (x0, dx) if a == 'x' else (y0, dy)
            ok = {}
            for q in range((nx, ny)[ax]):
                pos = c0 + d * (q + half)
                ok[q] = (lim[a][0] is None or env.fork(pos >= lim[a][0])) and (lim[a][1] is None or env.fork(pos <= lim[a][1]))
            keep = [c for c in keep if ok[c[ax]]]
    i0, j0 = min(c[0] for c in keep), min(c[1] for c in keep)
    cx, cy = max(c[0] for c in keep) - i0 + 1, max(c[1] for c in keep) - j0 + 1
    for g, o in jobs:
        maps = [dict(((i - i0, j - j0), series[q - 1][(i, j)]) for i, j in keep) for q in g]
        first, ncol = 0, cx
        if recenter:
            steps = recentred(env, maps, recenter, cx, dx, x0, layer - j0)
            first, last = max(-s for s in steps), min(cx - 1 - s for s in steps)
            ncol = last - first + 1
            if ncol < 1:
                # nothing in common
                continue
            maps = [dict(((i, j), m[(i + first + s, j)]) for i in range(ncol) for j in range(cy))
                    for m, s in zip(maps, steps)]
        t = totals(env, maps)
        sx, sy, mx, my = dx, dy, ncol, cy
        if combine:
            a, b = combine
            mx, my = mx // a, my // b
            t = dict(((i, j), add(env, [t[(a * i + p, b * j + q)] for p in range(a) for q in range(b)]))
                     for i in range(mx) for j in range(my))
            sx, sy = sx * a, sy * b
        if supersample:
            f = supersample
            fine = {}
            for i in range(mx * f):
                for j in range(my * f):
                    near = [(p // f, q // f) for p in range(max(0, i - f + 1), min(mx * f, i + f))
                            for q in range(max(0, j - f + 1), min(my * f, j + f))]
                    fine[(i, j)] = add(env, [t[c] for c in near], len(near))
            t, mx, my, sx, sy = fine, mx * f, my * f, sx / f, sy / f
        data, info, meta = read('out/a%05d.dat' % o)
        env.check(tuple(info['shape']) == (mx, my), 'shape of the output')
        env.check_eq(info['spacing'][0], sx, 'spacing of the output')
        env.check_eq(info['spacing'][1], sy, 'spacing of the output')
        env.check(len(data['M']) == mx * my, 'bins of the output')
        if len(data['M']) != mx * my:
            continue
        ox, oy = x0 + dx * (i0 + first), y0 + dy * j0
        for k, (i, j) in enumerate((i, j) for i in range(mx) for j in range(my)):
            v = t[(i, j)]
            env.check_eq(data['X'][k], ox + sx * (i + half), 'bins stay where they are along x', tol='0.0001')
            env.check_eq(data['Y'][k], oy + sy * (j + half), 'bins stay where they are along y', tol='0.0001')
            full = v['M'] > 0
            env.check_eq(data['M'][k], v['M'], 'mass', tol='0.0005')
            env.check_eq(data['N'][k], env.ite(full, v['N'], 0), 'number', tol='0.0005')
            for l, w in (('U', 'M'), ('V', 'M'), ('T', 'N')):
                env.check_eq(data[l][k] * v[w], env.ite(full, v[l], 0), 'weighted mean of ' + l, tol='0.001')


def refused(env):
    f = env.mod('strata.average').average
    env.check(env.raises(ValueError, lambda: f('a', 'b', 1, xlim=3)) is not None, 'limits are pairs')
    f('a', 'b', 1, quiet=True)
    env.check(env.listing() == [], 'no output without input')


def mixed(env, kinds):
    """maps in several formats have no common output format"""
    write = env.mod('strata.dataformats.write').write
    v = [env.real('v%d' % c, 1, 10) for c in range(2)]
    for q, kind in enumerate(kinds):
        data = dict([('X', env.arr([env.lit('0.25'), env.lit('0.75')])), ('Y', env.arr([env.lit('0.25')] * 2))]
                    + [(l, env.arr(v)) for l in FIELDS])
        write('in/f%05d.dat' % (q + 1), data, {'shape': (2, 1), 'spacing': (env.lit('0.5'), env.lit('0.5')),
                                               'origin': (env.lit('0'), env.lit('0')), 'num_bins': 2}, ftype=kind)
    before = env.listing()
    f = env.mod('strata.average').average
    env.check(env.raises(Exception, lambda: f('in/f', 'out/a', len(kinds), quiet=True)) is not None, 'mixed formats are refused')
    env.check(env.listing() == before, 'no output from mixed formats')


def configs(tier):
    P = lambda name, **k: Config(name, pipeline, k)
    out = [P('plain', nfiles=3, group=2), P('single', nfiles=2, group=1, nx=2), P('three', nfiles=3, group=3, sym=((0, 0),)),
           P('rolling', nfiles=4, group=2, rolling=True, sym=((1, 0),)),
           P('begin', nfiles=4, group=2, begin=2, cut='y', ny=3, sym=((1, 0),)),
           P('end', nfiles=4, group=2, end=3, nx=2, sym=((1, 1),)),
           P('simple', nfiles=2, group=2, kind='simple', sym=((1, 0),)),
           P('cut', nfiles=2, group=2, nx=3, ny=3, cut='xy', sym=((1, 1),)),
           P('cut-zero-low', nfiles=1, group=1, nx=3, ny=2, lims={'x': ('0', None)}, origin=('-0.5', '1'), sym=((2, 1),)),
           P('cut-zero-right', nfiles=1, group=1, nx=3, ny=2, lims={'x': (None, '0')}, origin=('-1', '1'), sym=((1, 1),)),
           P('cut-zero-bottom', nfiles=1, group=1, nx=2, ny=3, lims={'y': ('0', None)}, origin=('-1', '-0.25'), sym=((1, 2),)),
           P('cut-zero-top', nfiles=1, group=1, nx=2, ny=3, lims={'x': (None, None), 'y': (None, '0')}, origin=('-1', '-0.5'), sym=((1, 0),)),
           P('cut-zero-both', nfiles=2, group=2, nx=3, ny=3, lims={'x': ('-0.75', '0'), 'y': ('0', '2')}, origin=('-1', '-0.25'), sym=((1, 2),)),
           P('decimals', nfiles=2, group=2, nx=3, ny=2, spacing=('0.123456', '0.2501'), origin=('0.00005', '-3.14159'), sym=((1, 1),)),
           P('combine', nfiles=2, group=2, nx=4, ny=2, combine=(2, 1)),
           P('combine-rest', nfiles=2, group=1, nx=3, ny=4, combine=(2, 2), sym=((1, 0), (2, 3)), spacing=('1', '0.125')),
           P('combine-simple', nfiles=1, group=1, nx=2, ny=4, combine=(1, 2), sym=((1, 0),), kind='simple'),
           P('supersample', nfiles=2, group=2, nx=2, ny=2, supersample=2, sym=((1, 0),)),
           P('supersample-wide', nfiles=1, group=1, nx=3, ny=2, supersample=2, sym=((1, 1),)),
           P('com', nfiles=2, group=2, nx=3, ny=2, recenter='com', sym=((0, 0),)),
           P('left', nfiles=2, group=2, nx=4, ny=2, recenter='left'),
           P('right', nfiles=2, group=2, nx=4, ny=2, recenter='right'),
           P('left-floor', nfiles=2, group=2, nx=4, ny=3, recenter='left', layer=1, floor='-1.75'),
           P('right-floor', nfiles=2, group=2, nx=4, ny=3, recenter='right', layer=1, floor='-1.75', cut='x'),
           P('left-floor-zero', nfiles=2, group=2, nx=4, ny=3, recenter='left', layer=1, floor='0', origin=('1', '-0.25')),
           P('cut-combine', nfiles=2, group=2, nx=4, ny=2, cut='x', combine=(2, 1), sym=((2, 0),)),
           P('combine-supersample', nfiles=2, group=2, nx=4, ny=2, combine=(2, 2), supersample=2, sym=((1, 0),)),
           P('com-combine', nfiles=2, group=2, nx=3, ny=2, recenter='com', combine=(1, 2), sym=((0, 0),)),
           P('cut-com', nfiles=2, group=2, nx=3, ny=3, recenter='com', cut='Y', sym=((0, 1),)),
           Config('refused', refused), Config('mixed', mixed, dict(kinds=('simple', 'gmx'))),
           Config('mixed-last', mixed, dict(kinds=('gmx', 'gmx', 'simple')))]
    if tier == 'thorough':
        out += [P('all', nfiles=2, group=2, nx=5, ny=4, recenter='com', cut='Y', combine=(1, 2), supersample=2,
                  sym=((0, 2),)),
                P('plain-4', nfiles=4, group=2, sym=((0, 0), (2, 1))),
                P('rolling-3', nfiles=4, group=3, rolling=True, begin=2, end=4),
                P('left-3', nfiles=3, group=3, nx=4, ny=2, recenter='left')]
    return again(out, 'plain', ('plain', 'cut'), ('plain', 'supersample'), ('com', 'left'), ('single', 'combine'), ('simple', 'cut-combine'))
