"""C16: geometry of interface files: area, length, contact angles and averages."""
from symx.runner import Config, again

ID = 'C16'
IMPORTS = ('strata.interface.view', 'strata.interface.sample', 'strata.interface.angle')
BOUNDS = ('interfaces of 1..4 layers (8 points) with symbolic positions in [-100, 100] and symbolic increasing heights, '
          'series of 1..4 files; averages over groups of 1..3 files (rolling or not) which share some of their layers')
OUTSIDE = ('odd numbers of points; interfaces whose layers repeat a height; circular segment '
           'fits of interfaces which are no segments; heights half-way between two layers')


def heights(env, n, name='h', fixed=None):
    if fixed:
        return [env.const(f) for f in fixed]
    ys = [env.const(0)]
    for k in range(1, n):
        ys.append(env.real('%s%d' % (name, k), 0, 100))
        env.assume(ys[k] >= ys[k - 1] + env.lit('0.01'))
    return ys


def edges(env, n, q=0, lo=-100, hi=100):
    xl, xr = env.reals('left%d' % q, n, lo, hi), env.reals('right%d' % q, n, lo, hi)
    for a, b in zip(xl, xr):
        env.assume(a < b)
    return xl, xr


def points(xl, xr, ys):
    return list(zip(xl, ys)) + list(zip(xr[::-1], ys[::-1]))


def put(env, path, pts, head='# Interface\n# x y\n', spec='%r'):
    env.write_text(path, head + ''.join('%s %s\n' % (env.fmt(spec, x), env.fmt(spec, y)) for x, y in pts))


def shoelace(env, pts):
    s = []
    for (x0, y0), (x1, y1) in zip(pts, pts[1:] + pts[:1]):
        s.append(x0 * y1 - x1 * y0)
    # connected clockwise
    return env.sum(s) / -2


def length(env, pts, got, what):
    """got is the sum of the distances between consecutive points"""
    ds = []
    for k, ((x0, y0), (x1, y1)) in enumerate(zip(pts, pts[1:])):
        ds.append(env.np.hypot(x1 - x0, y1 - y0))
    env.check_eq(got, env.sum(ds), what)


def area(env, n):
    f = env.mod('strata.interface.sample').get_area_of_interface
    ys = heights(env, n)
    # ordered by height, the layers may be anywhere
    y0 = env.real('base', -10, 10)
    ys = [y0 + y for y in ys]
    xl, xr = edges(env, n)
    pts = points(xl, xr, ys)
    got = f(env.arr([p[0] for p in pts]), env.arr([p[1] for p in pts]))
    env.check_eq(got, shoelace(env, pts), 'area enclosed by the interface')


def bad(env, n):
    f = env.mod('strata.interface.sample').get_area_of_interface
    ys = heights(env, n)
    xl, xr = edges(env, n)
    pts = points(xl, xr, ys)
    off = env.reals('off', n, -1, 1)
    pts = pts[:n] + [(x, y + o) for (x, y), o in zip(pts[n:], off)]
    k = env.choice('bad', range(n))
    env.assume(env.or_(off[k] > env.lit('0.1'), off[k] < env.lit('-0.1')))
    env.assume(ys[-1] < 50)
    env.check(env.raises(TypeError, lambda: f(env.arr([p[0] for p in pts]), env.arr([p[1] for p in pts]))) is not None,
              'sides with different heights are refused')


def lengths(env, n, flat=False):
    f = env.mod('strata.interface.sample').calc_length
    ys = heights(env, n, fixed=None if n < 3 else [0, 1, '2.5', 4][:n] if not flat else [0, 0, 1, 1, 1][:n])
    xl, xr = edges(env, n)
    pts = points(xl, xr, ys)
    got = f(env.arr([p[0] for p in pts]), env.arr([p[1] for p in pts]))
    length(env, pts, got, 'length of the interface')


def samples(env, variable, nfiles, n=2, begin=None, end=None, wrong=None, save=True):
    f = env.mod('strata.interface.sample').sample_interfaces
    all_pts = []
    for q in range(nfiles):
        ys = heights(env, n, 'h%d_' % q) if variable == 'area' else [env.const(y) for y in (0, 1, '2.5')[:n]]
        pts = points(*(edges(env, n, q) + (ys,)))
        if q == wrong:
            pts[-1] = (pts[-1][0], pts[-1][1] - 1)
        all_pts.append(pts)
        put(env, 'in/i%05d.xvg' % (q + 1), pts)
    before = dict((p, env.read_raw(p)) for p in env.listing())
    dt = env.real('dt', '0.1', 10)
    kw = {'delta_t': dt, 'quiet': True, 'show': False}
    if begin:
        kw['begin'] = begin
    if end:
        kw['end'] = end
    if save:
        kw['save_xvg'] = 'out/s.xvg'
    times, got = f('in/i', variable, **kw)
    use = [q for q in range(nfiles) if q + 1 >= (begin or 1) and (end is None or q + 1 <= end)]
    want = [(i, q) for i, q in enumerate(use) if not (q == wrong and variable == 'area')]
    env.check(len(times) == len(want) and len(got) == len(want), 'a sample for every valid file')
    if len(times) != len(want) or len(got) != len(want):
        return
    for k, (i, q) in enumerate(want):
        env.check_eq(times[k], dt * i, 'times follow the files')
        if variable == 'area':
            env.check_eq(got[k], shoelace(env, all_pts[q]), 'area of every file')
        else:
            length(env, all_pts[q], got[k], 'length of every file')
    env.check(env.listing() == sorted(list(before) + (['out/s.xvg'] if save else [])), 'files')
    for p in before:
        env.check(env.read_raw(p) == before[p], 'inputs are left alone')
    if save:
        rows = env.read_text_table('out/s.xvg')
        env.check(len(rows) == len(want), 'a row for every sample')
        for r, t, v in zip(rows, times, got):
            env.check(len(r) == 2, 'two columns')
            env.check_eq(r[0], t, 'saved time', tol='0.00051')
            env.check_eq(r[1], v, 'saved sample', tol='0.00051')
        header(env, 'out/s.xvg', dt)


def header(env, path, dt):
    head = [l for l in env.text(path).splitlines() if l.startswith('#')]
    env.check('#   Delta-t: %s' % env.fmt('%r', dt) in head, 'the header reports the time step')


def unknown(env):
    f = env.mod('strata.interface.sample').sample_interfaces
    put(env, 'in/i00001.xvg', points([env.const(0)] * 2, [env.const(1)] * 2, [env.const(0), env.const(1)]))
    env.check(env.raises(ValueError, lambda: f('in/i', 'mass', quiet=True, show=False)) is not None, 'unknown variable')


def angles(env, n, nfiles=1, save=False, begin=None, fit=False, sizes=('1.5',), lo=2, hi=178, upright=()):
    """contact angles at a height above the base"""
    f = env.mod('strata.interface.angle').interface_contact_angle
    want = []
    for q in range(nfiles):
        # the base may be at any height
        base = env.real('base%d' % q, -50, 50)
        # the layer nearest to the height, seen from the base
        if q in upright:
            left, xa, ya, right, xb, yb = [env.const(v) for v in (90, 0, sizes[q % len(sizes)]) * 2]
        else:
            left, xa, ya = env.polar('left%d' % q, sizes[q % len(sizes)], lo, hi)
            kind = env.choice('right%d' % q, ('same', 'other', 'upright'))
            yb = ya
            right, xb = {'same': (left, xa), 'other': (180 - left, -xa), 'upright': (env.const(90), env.const(0))}[kind]
        best = env.choice('nearest%d' % q, range(1, n))
        off = env.reals('above%d' % q, n - 1 - best, '0.1', 10)
        for a, b in zip(off, off[1:]):
            env.assume(a < b)
        if q == 0:
            height = env.real('height', '0.01', 20)
        ys = [[env.const(0)] + [y * k / best for k in range(1, best)] + [y] + [y + o for o in off] for y in (ya, yb)]
        for k in range(n):
            if k != best:
                env.assume(env.abs(ys[0][k] - height) > env.abs(ya - height) + env.lit('1e-6'))
        ys = [[base + y for y in side] for side in ys]
        (xl, xr) = edges(env, n, q, -10, 10)
        xl[best], xr[best] = xl[0] + xa, xr[0] - xb
        put(env, 'in/i%05d.xvg' % (q + 1), list(zip(xl, ys[0])) + list(zip(xr, ys[1]))[::-1])
        want.append((left, right))
    before = dict((p, env.read_raw(p)) for p in env.listing())
    dt = env.const('2.5') if nfiles == 1 else env.real('dt', '0.1', 10)
    kw = {'height': height, 'delta_t': dt, 'quiet': True, 'show': False, 'fit': fit}
    if begin:
        kw['begin'] = begin
    if save:
        kw['save_xvg'] = 'out/a.xvg'
    times, got = f('in/i', **kw)
    want = want[(begin or 1) - 1:]
    for l in ('left', 'right', 'measured'):
        env.check(len(got[l]) == len(want), 'an angle for every file: ' + l)
        if len(got[l]) != len(want):
            return
    env.check(len(got['fit']) == (len(want) if fit else 0), 'fitted angles')
    env.check(len(times) == len(want), 'times')
    if fit:
        _, only = f('in/i', fit=True, quiet=True, show=False, **({'begin': begin} if begin else {}))
        env.check(only['measured'] == [] and len(only['fit']) == len(want), 'only fitted angles')
    for k, (left, right) in enumerate(want):
        env.check_eq(times[k], dt * k, 'times')
        env.check_eq(got['left'][k], left, 'left contact angle is that inside of the droplet')
        env.check_eq(got['right'][k], right, 'right contact angle is that inside of the droplet')
        env.check_eq(got['measured'][k] * 2, left + right, 'mean of both sides')
        if fit:
            env.check_eq(got['fit'][k], only['fit'][k], 'fitted angle')
    env.check(env.listing() == sorted(list(before) + (['out/a.xvg'] if save else [])), 'files')
    for p in before:
        env.check(env.read_raw(p) == before[p], 'inputs are left alone')
    if save:
        rows = env.read_text_table('out/a.xvg')
        env.check(len(rows) == len(want), 'a row for every file')
        for k, r in enumerate(rows):
            cols = [times[k], got['measured'][k], got['left'][k], got['right'][k]] + ([got['fit'][k]] if fit else [])
            env.check(len(r) == len(cols), 'columns')
            for a, b in zip(r, cols):
                env.check_eq(a, b, 'saved value', tol='0.00051')
        header(env, 'out/a.xvg', dt)


def no_angle(env, sizes, save=True, fit=False):
    """no layer above the base is nearer to the height than the base itself: the angle is undefined"""
    f = env.mod('strata.interface.angle').interface_contact_angle
    height = env.real('height', 0, 5)
    want = []
    for q, n in enumerate(sizes):
        base = env.real('base%d' % q, -50, 50)
        ys = [base]
        for k in range(1, n):
            ys.append(base + env.real('y%d_%d' % (q, k), '0.1', 40) if k == 1 else ys[-1] + env.real('y%d_%d' % (q, k), '0.1', 40))
        xl, xr = edges(env, n, q, -10, 10)
        put(env, 'in/i%05d.xvg' % (q + 1), points(xl, xr, ys))
        undefined = n == 1 or env.fork(height < (ys[1] - base) * env.lit('0.499'))
        if not undefined:
            # upright sides
            if n > 1:
                xl[1], xr[1] = xl[0], xr[0]
                put(env, 'in/i%05d.xvg' % (q + 1), points(xl, xr, ys))
            env.assume(height > (ys[1] - base) * env.lit('0.501'))
            for a, b in zip(ys[1:], ys[2:]):
                env.assume(env.abs(b - base - height) > env.abs(ys[1] - base - height) + env.lit('1e-6'))
        want.append(not undefined)
    dt = env.real('dt', '0.1', 10)
    kw = dict(height=height, delta_t=dt, quiet=True, show=False, fit=fit)
    if save:
        kw['save_xvg'] = 'out/a.xvg'
    times, got = f('in/i', **kw)
    env.check(len(times) == len(sizes), 'a time for every file')
    for l in ('left', 'right', 'measured'):
        env.check(len(got[l]) == len(sizes), 'an angle for every file: ' + l)
        if len(times) != len(sizes) or len(got[l]) != len(sizes):
            return
    env.check(len(got['fit']) == (len(sizes) if fit else 0), 'fitted angles')
    for q, defined in enumerate(want):
        env.check_eq(times[q], dt * q, 'times')
        for l in ('left', 'right', 'measured'):
            if defined:
                env.check_eq(got[l][q], 90, 'the angle of an upright side: ' + l)
            else:
                env.check(env.isnan(got[l][q]), 'an undefined angle: ' + l)
    if save:
        rows = env.read_text_table('out/a.xvg')
        env.check(len(rows) == len(sizes), 'a row for every file')
        for q, r in enumerate(rows):
            env.check(len(r) == 4 + bool(fit), 'columns')
            env.check_eq(r[0], dt * q, 'saved time', tol='0.00051')
            for v in r[1:4]:
                env.check_eq(v, 90 if want[q] else 0, 'saved angle, 0 if undefined', tol='0.00051')


def one_angle(env):
    """one side reaches the height, the other does not: only its angle is undefined, and so is the mean"""
    f = env.mod('strata.interface.angle').interface_contact_angle
    height, base = env.real('height', 1, 5), env.real('base', -50, 50)
    low, high = height * env.real('low', '0.6', '1.4'), height * env.real('high', '2.1', 3)
    side = env.choice('side', ('left', 'right'))
    x0, x1 = env.real('x0', -10, 0), env.real('x1', '0.1', 10)
    yl, yr = (low, high) if side == 'left' else (high, low)
    put(env, 'in/i00001.xvg', [(x0, base), (x0, base + yl), (x1, base + yr), (x1, base)])
    times, got = f('in/i', height=height, quiet=True, show=False, save_xvg='out/a.xvg')
    other = 'right' if side == 'left' else 'left'
    env.check(len(times) == 1 and len(got['left']) == 1 and len(got['right']) == 1 and len(got['measured']) == 1, 'one angle')
    env.check_eq(got[side][0], 90, 'the angle of an upright side')
    env.check(env.isnan(got[other][0]), 'an undefined angle')
    env.check(env.isnan(got['measured'][0]), 'the mean of an undefined angle')
    rows = env.read_text_table('out/a.xvg')
    env.check(len(rows) == 1 and len(rows[0]) == 4, 'a row')
    for v, w in zip(rows[0], (0, 0, 90, 0) if side == 'left' else (0, 0, 0, 90)):
        env.check_eq(v, w, 'saved angle, 0 if undefined', tol='0.00051')


def segment(env, n, uneven=False):
    """a circular segment: base (+-x, 0), top height y, with tan(angle / 2) = y / x

    if the sides end at different heights their mean is the height of the top"""
    f = env.mod('strata.interface.angle').interface_contact_angle
    half, x, y = env.polar('half', 1, 1, 89)
    size, mid = env.choice('size', (1, 4)), env.real('centre', -10, 10)
    size = env.const(size)
    k = env.reals('inner', n - 2, '0.1', '0.9')
    base = env.real('base', -50, 50)
    ys = [base] + [base + y * size * s for s in k] + [base + y * size]
    for a, b in zip(k, k[1:]):
        env.assume(a < b)
    # only the base and the top matter
    w = env.reals('width', n - 1, 0, 20)
    xl = [mid - x * size] + [mid - a for a in w]
    xr = [mid + x * size] + [mid + a for a in w]
    pts = points(xl, xr, ys)
    if uneven:
        d = env.real('uneven', '-0.5', '0.5') * y * size
        for a in ys[:-1]:
            env.assume(a < ys[-1] - env.abs(d))
        pts[n - 1], pts[n] = (xl[-1], ys[-1] + d), (xr[-1], ys[-1] - d)
    put(env, 'in/i00001.xvg', pts)
    times, got = f('in/i', fit=True, quiet=True, show=False)
    env.check(len(times) == 1 and len(got['fit']) == 1 and got['measured'] == [], 'one angle')
    env.check_eq(times[0], 0, 'time')
    env.check_eq(got['fit'][0], 2 * half, 'contact angle of the circular segment')


def view(env, layers, average=1, save=False, begin=None, end=None, skip=None, dy='0.5'):
    """layers: (first, number) of the layers of every file"""
    f = env.mod('strata.interface.view').view_interfaces
    spec, series = '%r', []
    for q, (first, n) in enumerate(layers):
        ys = [env.const(env.frac(dy) * (first + k)) for k in range(n)]
        xl, xr = env.reals('left%d' % q, n, -100, 100), env.reals('right%d' % q, n, -100, 100)
        if q == skip:
            env.write_text('in/i%05d.xvg' % (q + 1), '# no interface\n1 2\n3\n')
        else:
            put(env, 'in/i%05d.xvg' % (q + 1), points(xl, xr, ys), spec=spec)
        series.append(dict((first + k, (xl[k], xr[k])) for k in range(n)))
    before = dict((p, env.read_raw(p)) for p in env.listing())
    kw = {'quiet': True, 'show': False}
    for a, b in (('begin', begin), ('end', end), ('save_xvg', 'out/v' if save else None)):
        if b:
            kw[a] = b
    xs, ys = f('in/i', average, **kw)
    nums = [q for q in range(1, len(layers) + 1) if q >= (begin or 1) and (end is None or q <= end)]
    groups = [nums[k:k + average] for k in range(0, len(nums) - average + 1, average)]
    groups = [g for g in groups if skip is None or skip + 1 not in g]
    env.check(len(xs) == len(groups) and len(ys) == len(groups), 'an interface for every group')
    if len(xs) != len(groups) or len(ys) != len(groups):
        return
    out = ['out/v%05d.xvg' % (-(-g[0] // average)) for g in groups] if save else []
    env.check(env.listing() == sorted(list(before) + out), 'an output for every group')
    for p in before:
        env.check(env.read_raw(p) == before[p], 'inputs are left alone')
    for k, g in enumerate(groups):
        common = sorted(set.intersection(*[set(series[q - 1]) for q in g]))
        want = []
        for side in (0, 1):
            for l in common if side == 0 else common[::-1]:
                want.append((env.sum([series[q - 1][l][side] for q in g]) / len(g), env.const(env.frac(dy) * l)))
        env.check(len(xs[k]) == len(want) and len(ys[k]) == len(want), 'layers which all files have')
        if len(xs[k]) != len(want) or len(ys[k]) != len(want):
            continue
        for p, (x, y) in enumerate(want):
            env.check_eq(xs[k][p], x, 'mean position along x')
            env.check_eq(ys[k][p], y, 'height')
        if save:
            rows = env.read_text_table(out[k])
            head = [l for l in env.text(out[k]).splitlines() if l.startswith('#')]
            at = [h for h in head if h.startswith("#   '")]
            env.check(at == ["#   'in/i%05d.xvg'" % q for q in g], 'the header names the interfaces of the group')
            env.check(len(rows) == len(want), 'saved interface')
            for r, (x, y) in zip(rows, want):
                env.check_eq(r[0], x, 'saved position', tol='0.00051')
                env.check_eq(r[1], y, 'saved height', tol='0.00051')


def split(env, n, nfiles=2):
    """edges of interfaces and their union"""
    m = env.mod('strata.interface.view')
    xs, ys, ref = [], [], []
    for q in range(nfiles):
        h = [env.const(q + k) for k in range(n)]
        xl, xr = env.reals('left%d' % q, n), env.reals('right%d' % q, n)
        pts = points(xl, xr, h)
        xs.append(env.arr([p[0] for p in pts]))
        ys.append(env.arr([p[1] for p in pts]))
        ref.append((xl, xr, h))
    left, right = m.all_coords_to_edges(xs, ys)
    env.check(len(left) == nfiles and len(right) == nfiles, 'both edges of every interface')
    for q, (xl, xr, h) in enumerate(ref):
        env.check_eq_all(list(left[q]), xl, 'left edge')
        env.check_eq_all(list(left[q].index), h, 'heights of the left edge')
        env.check_eq_all(list(right[q]), xr[::-1], 'right edge')
        env.check_eq_all(list(right[q].index), h[::-1], 'heights of the right edge')
        s = m.stitch_edge_series(left[q], right[q])
        env.check_eq_all(list(s), xl + xr[::-1], 'edges stitched together')
        env.check_eq_all(list(s.index), h + h[::-1], 'heights stitched together')
    # both edges of every interface by height; layers which an interface does not have are missing
    both = m.combine_interfaces(xs, ys)
    env.check(len(both) == 2, 'left and right edges')
    layers = sorted(set(q + k for q in range(nfiles) for k in range(n)))
    for side, frame in enumerate(both):
        env.check(tuple(frame.shape) == (len(layers), nfiles), 'every layer of every interface, once')
        for y in layers:
            row = frame.loc[y]
            for q, (xl, xr, h) in enumerate(ref):
                if 0 <= y - q < n:
                    env.check_eq(row.iloc[q], (xl, xr)[side][y - q], 'edge at its height')
                else:
                    env.check(env.isnan(row.iloc[q]), 'no edge at this height')


def configs(tier):
    out = [Config('area-%d' % n, area, dict(n=n)) for n in (1, 2, 3, 4)]
    out += [Config('bad-sides', bad, dict(n=2)), Config('length-2', lengths, dict(n=2)),
            Config('length-flat', lengths, dict(n=4, flat=True)), Config('length-3', lengths, dict(n=3)),
            Config('areas', samples, dict(variable='area', nfiles=3)),
            Config('areas-wrong', samples, dict(variable='area', nfiles=3, wrong=1)),
            Config('areas-begin', samples, dict(variable='area', nfiles=4, begin=2, end=3, save=False)),
            Config('lengths', samples, dict(variable='length', nfiles=2)),
            Config('unknown', unknown, {}),
            Config('angle-2', angles, dict(n=2)), Config('angle-3', angles, dict(n=3)),
            Config('angle-4', angles, dict(n=4, sizes=('2',))),
            Config('angle-fit', angles, dict(n=2, fit=True, save=True)),
            Config('angle-files', angles, dict(n=2, nfiles=3, begin=2, save=True, upright=(0, 1), sizes=('1', '0.5'))),
            Config('segment-2', segment, dict(n=2)), Config('segment-4', segment, dict(n=4)),
            Config('segment-uneven', segment, dict(n=3, uneven=True)),
            Config('no-angle', no_angle, dict(sizes=(2, 1))), Config('no-angle-3', no_angle, dict(sizes=(3,), save=False)),
            Config('one-angle', one_angle, {}), Config('no-angle-fit', no_angle, dict(sizes=(2,), fit=True)),
            Config('view', view, dict(layers=((0, 2), (0, 3)))),
            Config('view-save', view, dict(layers=((0, 2), (0, 3)), save=True)),
            Config('view-thin', view, dict(layers=((3, 3), (3, 3), (3, 2)), average=2, dy='0.125', save=True)),
            Config('view-average', view, dict(layers=((0, 3), (0, 3), (0, 2)), average=3, save=True)),
            Config('view-partly', view, dict(layers=((0, 3), (1, 3)), average=2)),
            Config('view-shrinking', view, dict(layers=((0, 4), (0, 2), (0, 3), (0, 3)), average=2, save=True)),
            Config('view-disjoint', view, dict(layers=((0, 2), (2, 2)), average=2)),
            Config('view-begin', view, dict(layers=((0, 2),) * 5, average=2, begin=2, end=4, save=True)),
            Config('view-skip', view, dict(layers=((0, 2),) * 3, skip=1)),
            Config('split', split, dict(n=2)), Config('split-3', split, dict(n=3, nfiles=3)),
            Config('split-1', split, dict(n=2, nfiles=1))]
    if tier == 'thorough':
        out += [Config('area-6', area, dict(n=6)), Config('length-4', lengths, dict(n=4)),
                Config('view-long', view, dict(layers=((0, 5), (0, 6), (1, 5)), average=3, save=True)),
                Config('angle-5', angles, dict(n=5)), Config('angle-files-3', angles, dict(n=2, nfiles=2, save=True, fit=True, upright=(0,)))]
    return again(out, 'area-2', ('areas', 'areas-wrong'), ('lengths', 'areas'), ('angle-2', 'no-angle'), ('no-angle', 'angle-2'), ('view', 'view-average'), ('view-save', 'view-save'),
                 ('split', 'split-3'))
