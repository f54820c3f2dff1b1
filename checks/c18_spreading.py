"""C18: the spreading radius per time since impact is collected, combined and saved."""
from symx.runner import Config, again

ID = 'C18'
IMPORTS = ('strata.spreading.collect', 'strata.spreading.view', 'strata.spreading.fit', 'strata.dataformats.write')
BOUNDS = ('2..5 gmx maps of 6x2..6x3 bins with symbolic mass, droplets of 2..3 bins which drift over the boundary, arrive, '
          'vanish and return; every impact map, time step, first time; 1..3 series of 1..4 symbolic values')
OUTSIDE = ('droplets which move half a box between maps, files with other numbers of digits, values which are equally near to '
           'the radius of synchronisation; drawing figures; the least squares fit itself (C23)')


def write_maps(env, frames, nx, ny, spacing, origin, base='in/f'):
    """gmx maps; frames hold per layer the first and last (absolute) bin of the droplet and its mass"""
    env.exact_f32()
    write = env.mod('strata.dataformats.write').write
    dx, dy = (env.const(q) for q in spacing)
    x0, y0 = (env.const(q) for q in origin)
    half = env.lit('0.5')
    cells = [(i, j) for i in range(nx) for j in range(ny)]
    for q, layers in enumerate(frames):
        # a single light bin in the top row so that a map never is without mass
        mass = {(0, ny - 1): env.const(1)}
        for j, l, r, m in layers:
            for i in range(l, r + 1):
                mass[(i % nx, j)] = m
        data = dict([('X', env.arr([x0 + dx * (i + half) for i, j in cells])),
                     ('Y', env.arr([y0 + dy * (j + half) for i, j in cells])),
                     ('M', env.arr([mass.get(c, env.const(0)) for c in cells]))]
                    + [(l, env.arr([env.const(1)] * len(cells))) for l in 'NTUV'])
        write('%s%05d.dat' % (base, q + 1), data, {'shape': (nx, ny), 'spacing': (dx, dy), 'origin': (x0, y0),
                                                  'num_bins': nx * ny})


def lines(text):
    return [l.strip() for l in text.splitlines()]


def spread(env, kinds, nx=6, ny=2, spacing=('0.25', '0.5'), origin=('1', '-2'), floor=None, level=0, width=(2, 3),
           start=None, moves=(-1, 0, 1), dt=True, t0=True, begin=None, end=None, save=True, again=False, below=False,
           deny=False, radius=None, bins=None):
    """kinds: per map whether the droplet touches the layer `level`"""
    m = env.mod('strata.spreading.collect')
    half = env.lit('0.5')
    dx, x0 = env.const(spacing[0]), env.const(origin[0])
    pos, frames, edges = None, [], []
    for q, on in enumerate(kinds):
        layers = []
        if below:
            # something lies below the floor
            layers.append((0, 1, 3, env.const(7)))
        if on:
            w = env.choice('width%d' % q, width)
            if pos is None:
                pos = env.choice('start', range(nx) if start is None else start)
            else:
                pos += env.choice('move%d' % q, moves)
            heavy = env.real('heavy%d' % q, 5, 10)
            layers.append((level, pos, pos + w - 1, heavy))
            edges.append((pos, pos + w - 1))
        else:
            edges.append(None)
        if level + 1 < ny:
            # the droplet above the layer
            layers.append((level + 1, 1, 4, env.real('above%d' % q, 5, 10)) if floor is not None else
                          (level + 1, 0, 0, env.const(1)))
        frames.append(layers)
    use = list(range((begin or 1) - 1, min(end or len(kinds), len(kinds))))
    # followed only if one edge crosses at a time and none of them moves half the box, between maps that are read
    prev = None
    for q in use:
        if edges[q] is None:
            continue
        if prev is not None:
            if sum(abs(b // nx - a // nx) for a, b in zip(prev, edges[q])) > 1:
                return
            if any(2 * abs(b - a) >= nx for a, b in zip(prev, edges[q])):
                return
        prev = edges[q]
    write_maps(env, frames, nx, ny, spacing, origin)
    before = dict((p, env.read_raw(p)) for p in env.listing())
    kw = {'quiet': True, 'cutoff': env.const(3)}
    step, first = 1, 0
    if dt:
        step = kw['dt'] = env.real('dt', 0, 100)
        env.assume(step > 0)
    if t0:
        first = kw['t0'] = env.real('t0', -100, 100)
    if floor is not None:
        kw['floor'] = env.const(floor)
    if begin:
        kw['begin'] = begin
    if end:
        kw['end'] = end
    if radius:
        kw['cutoff_radius'] = env.const(radius)
    if bins is not None:
        kw['cutoff_bins'] = bins
    found = [(k, q) for k, q in enumerate(use) if edges[q] is not None]
    want = []
    for k, q in found:
        n = edges[found[0][1]][0] // nx
        l, r = ((e - n * nx + half) * dx + x0 for e in edges[q])
        want.append((first + step * (k - found[0][0]), (r - l) * half, l, r))
    outs = ['out/a.xvg'] + (['out/b.xvg'] if again else [])
    if deny:
        env.deny('out/a.xvg', PermissionError)
    for path in outs:
        opts = dict(kw, save=path) if save else dict(kw)
        got = m.collect('in/f', **opts)
        env.check(len(got) == len(want), 'a value for every map with spreading')
        if len(got) == len(want):
            for k, (t, rad, l, r) in enumerate(want):
                env.check_eq(got['t'][k], t, 'time since the impact', tol='1e-3')
                env.check_eq(got['r'][k], rad, 'spreading radius', tol='1e-3')
    for p in before:
        env.check(env.read_raw(p) == before[p], 'inputs are left alone')
    new = [p for p in env.listing() if p not in before]
    if not save or deny:
        env.check(new == [], 'no output is written')
        return
    env.check(new == outs, 'the output is written')
    for path in new:
        rows = env.read_text_table(path)
        env.check(len(rows) == len(want), 'a row for every map with spreading')
        for g, w in zip(rows, want):
            env.check(len(g) == 4, 'time, radius and both edges')
            for a, b, what in zip(g, w, ('time', 'radius', 'left edge', 'right edge')):
                env.check_eq(a, b, 'saved ' + what, tol='0.00051')
        text = lines(env.text(path))
        head = [l for l in text if l.startswith('#')]
        for label, value in (('Floor', kw.get('floor')), ('Delta-t', kw.get('dt', env.const(1))),
                             ('Mass cut-off', kw['cutoff']), ('Radius cut-off', kw.get('cutoff_radius', env.const(1))),
                             ('Required # of bins', kw.get('cutoff_bins', 1))):
            env.check('#   %s: %s' % (label, env.fmt('%r', value) if value is not None else None) in head,
                      'the header reports the ' + label)
        env.check(text[:len(head)] == head, 'the header comes first')
        if want:
            k, q = found[0]
            env.check('#   File: %r' % ('f%05d.dat' % (q + 1)) in head, 'the map of the impact is reported')
            env.check('#   Time: %s ps' % env.fmt('%.3f', step * k) in head, 'the time of the impact is reported')
            env.check('# Time (ps) Radius (nm) Left (nm) Right (nm)' in head, 'the columns are named')


def series(env, name, n, lo=-100, hi=100, times=None):
    """a Series of n values at ascending times"""
    ts = [env.real('%st%d' % (name, k), -100, 100) for k in range(n)] if times is None else [env.const(t) for t in times]
    if times is None:
        for a, b in zip(ts, ts[1:]):
            env.assume(b > a)
    vs = [env.real('%sv%d' % (name, k), lo, hi) for k in range(n)]
    return ts, vs


def combine(env, sizes, sync=False, tau=None, R=None, empty=False, sign=False):
    """tau, R: None, 'one' factor or 'each' of the series"""
    m = env.mod('strata.spreading.view')
    data, raw = [], []
    for k, n in enumerate(sizes):
        ts, vs = series(env, 's%d' % k, n)
        data.append(env.pdseries(vs, ts, 'name %d' % k))
        raw.append((ts, vs))
    kw, factor = {}, {}
    for opt, kind in (('tau', tau), ('R', R)):
        if kind == 'one':
            f = env.real(opt, -10 if sign else 0, 10)
            env.assume(f != 0)
            kw[opt] = f
            factor[opt] = [f] * len(sizes)
        elif kind == 'each':
            fs = [env.real('%s%d' % (opt, k), 0, 10) for k in range(len(sizes))]
            for f in fs:
                env.assume(f > 0)
            kw[opt] = fs
            factor[opt] = fs
        else:
            factor[opt] = [env.const(1)] * len(sizes)
    want = [([t / factor['tau'][k] for t in ts], [v / factor['R'][k] for v in vs]) for k, (ts, vs) in enumerate(raw)]
    if sync:
        radius = kw['sync_radius'] = env.real('radius', -100, 100)
        near = []
        for ts, vs in want:
            # the value nearest to the radius, of which there is one
            ds = [env.abs(v - radius) for v in vs]
            for a in range(len(ds)):
                for b in range(a):
                    env.assume(env.not_(ds[a] == ds[b]))
            low = env.min(ds)
            near.append(env.sum([env.ite(d == low, t, env.const(0)) for d, t in zip(ds, ts)]))
        base = env.min(near)
        want = [([t - s + base for t in ts], vs) for (ts, vs), s in zip(want, near)]
    got = m.combine_spreading_data(data, **kw)
    env.check(len(got) == len(sizes), 'every series')
    for k, (g, (ts, vs)) in enumerate(zip(got, want)):
        env.check(g.name == 'name %d' % k, 'names are kept')
        env.check(len(g) == len(ts), 'every value')
        if len(g) != len(ts):
            continue
        for q in range(len(ts)):
            env.check_eq(list(g.index)[q], ts[q], 'scaled and synchronised time')
            env.check_eq(list(g.values)[q], vs[q], 'scaled radius')
    for d, (ts, vs) in zip(data, raw):
        for q in range(len(ts)):
            env.check_eq(list(d.index)[q], ts[q], 'times of the input are left alone')
            env.check_eq(list(d.values)[q], vs[q], 'radii of the input are left alone')


def refused(env, count, tau):
    """factors which do not match the series"""
    m = env.mod('strata.spreading.view')
    data = [env.pdseries(*(series(env, 's%d' % k, 2)[::-1] + ('n',))) for k in range(count)]
    env.check(env.raises(TypeError, lambda: m.combine_spreading_data(data, tau=[env.const(2)] * tau)) is not None, 'factors are refused')


def reading(env, columns, plain=True, gap=False, missing=(), spec='%.3f', tol='0.00051', zero=False):
    """files of columns are read as a series per column, missing files are skipped, all are saved again"""
    m = env.mod('strata.spreading.view')
    want = []
    names = []
    for k, (rows, cols) in enumerate(columns):
        path = 'in/s%d.xvg' % k
        ts = [env.real('f%dt%d' % (k, q), -100, 100) for q in range(rows)]
        vs = [[env.const(0) if zero and (q + c) % 2 else env.real('f%dv%d_%d' % (k, q, c), -100, 100) for c in range(cols)] for q in range(rows)]
        rowtext = ['%s %s' % (env.fmt(spec, t), ' '.join('nan' if (k, q, c) in missing else env.fmt(spec, v) for c, v in enumerate(row)))
                   for q, (t, row) in enumerate(zip(ts, vs))]
        if plain:
            text = '# comment\n# another 1 2 3\n' + '\n'.join(rowtext) + '\n'
        else:
            text = '# comment\n@with g0\n@target G0.S0\n@type xy\n' + '\n'.join(rowtext) + '\n'
        env.write_text(path, text)
        names.append(path)
        for c in range(cols):
            # values which are missing are left out
            keep = [q for q in range(rows) if (k, q, c) not in missing]
            want.append(('%s.%d' % (path, c + 1), [ts[q] for q in keep], [vs[q][c] for q in keep]))
    if gap:
        names.insert(1, 'in/none.xvg')

    def same(got, want, name=True):
        env.check(len(got) == len(want), 'a series per column')
        for g, (n, ts, vs) in zip(got, want):
            if name:
                env.check(g.name == n, 'series are named by file and column')
            env.check(len(g) == len(ts), 'every value')
            if len(g) != len(ts):
                continue
            for q in range(len(ts)):
                env.check_eq(list(g.index)[q], ts[q], 'time', tol=tol)
                env.check_eq(list(g.values)[q], vs[q], 'radius', tol=tol)
    got = m.read_spreading_data(*names)
    same(got, want)
    env.check(m.view_spreading(names, show=False, save_xvg='out/all.xvg', quiet=True) is None, 'nothing is returned')
    env.check(env.exists('out/all.xvg'), 'the data is saved')
    same(m.read_spreading_data('out/all.xvg'), want, name=False)
    for n, _, _ in want:
        env.check(n in env.text('out/all.xvg'), 'the series are listed')
    # the data sets of xmgrace: one per series, in order, apart from each other
    lines = [l.split() for l in env.text('out/all.xvg').splitlines() if l.strip() and not l.startswith('#')]
    form = [['@with', 'g0']] + [['@', 's%d' % k, 'comment', '"%s"' % n] for k, (n, _, _) in enumerate(want)]
    for k, (n, ts, _) in enumerate(want):
        form += [['@target', 'G0.S%d' % k], ['@type', 'xy']] + [None] * len(ts) + ([['&']] if k + 1 < len(want) else [])
    env.check(len(lines) == len(form) and all(f == l if f else len(l) == 2 and l[0][0] not in '@&' for l, f in zip(lines, form)),
              'a data set per series')


def fitted(env, n, lims, a=None, k=1):
    """the fitted curve a t^k on the times within the limits"""
    m = env.mod('strata.spreading.fit')
    ts, vs = series(env, 's', n)
    amp = env.real('a', 0, 10)
    lo = env.real('lo', -100, 100) if lims[0] else None
    hi = env.real('hi', -100, 100) if lims[1] else None
    s = env.pdseries(vs, ts, 'name')
    inside = [env.and_(lo is None or t >= lo, hi is None or t <= hi) for t in ts]
    some = env.fork(env.or_(*inside))
    keep = [t for t, i in zip(ts, inside) if not some or env.fork(i)]
    got = m.get_fitted_data([(amp, k)], [s], (lo, hi))
    env.check(len(got) == 1, 'a curve per series')
    env.check(len(got[0]) == len(keep), 'the curve covers the times within the limits')
    if len(got[0]) == len(keep):
        for q, t in enumerate(keep):
            env.check_eq(list(got[0].index)[q], t, 'times of the curve')
            env.check_eq(list(got[0].values)[q], amp * t ** k, 'value of the curve')
    for q in range(n):
        env.check_eq(list(s.values)[q], vs[q], 'the data is left alone')


def configs(tier):
    T, F = True, False
    out = [Config('spread', spread, dict(kinds=(T, T), start=(0, 4))),
           Config('spread-impact', spread, dict(kinds=(F, T, T), start=(2, 5), width=(2,))),
           Config('spread-late', spread, dict(kinds=(F, F, F, T), start=(2,), width=(2,))),
           Config('spread-gap', spread, dict(kinds=(T, F, T), start=(1,), width=(3,))),
           Config('spread-gaps', spread, dict(kinds=(F, T, F, F, T, T), start=(1,), width=(2,), moves=(0, 1))),
           Config('spread-again', spread, dict(kinds=(F, T), start=(1,), again=True)),
           Config('spread-begin', spread, dict(kinds=(T, F, T, T, T), begin=2, end=4, start=(1, 5), width=(2,))),
           Config('spread-defaults', spread, dict(kinds=(F, T, T), dt=False, t0=False, start=(1,))),
           Config('spread-nosave', spread, dict(kinds=(F, T, T), save=False, start=(1,), width=(2,))),
           Config('spread-denied', spread, dict(kinds=(F, T, T), deny=True, start=(1,), width=(2,))),
           Config('spread-never', spread, dict(kinds=(F, F))),
           Config('spread-centred', spread, dict(kinds=(T,) * 3, start=(4,), width=(2,), origin=('-0.75', '0'))),
           Config('spread-zero-left', spread, dict(kinds=(T, T), start=(2,), width=(2,), origin=('-0.625', '0'))),
           Config('spread-zero-right', spread, dict(kinds=(T, T), start=(1,), width=(2,), origin=('-0.625', '-1'), floor='-1')),
           Config('spread-floor', spread, dict(kinds=(F, T, T), ny=3, level=1, floor='-1.5', below=True, start=(1, 4), width=(2,))),
           Config('spread-floor-zero', spread, dict(kinds=(F, T, T), ny=3, level=1, floor='0', below=True, start=(1, 4), width=(2,), origin=('1', '-0.5'))),
           Config('spread-floor-row-zero', spread, dict(kinds=(F, T, T), ny=3, level=1, floor='-0.25', below=True, start=(1,), width=(2,), origin=('1', '-0.75'))),
           Config('spread-floor-low', spread, dict(kinds=(F, T), ny=2, floor='-2.5', start=(3,))),
           Config('spread-radius', spread, dict(kinds=(F, T, T), start=(1,), width=(2,), radius='0.3', bins=1)),
           Config('spread-lone', spread, dict(kinds=(F, T, T), start=(1,), width=(1,), radius='0.2', bins=0)),
           Config('combine-plain', combine, dict(sizes=(2, 1))),
           Config('combine-sync', combine, dict(sizes=(3, 2), sync=True)),
           Config('combine-sync-three', combine, dict(sizes=(2, 2, 1), sync=True)),
           Config('combine-tau', combine, dict(sizes=(2, 2), tau='one')),
           Config('combine-each', combine, dict(sizes=(2, 2, 1), tau='each', R='each')),
           Config('combine-sign', combine, dict(sizes=(2, 1), tau='one', R='one', sign=True)),
           Config('combine-R', combine, dict(sizes=(2, 1), R='each')),
           Config('combine-all', combine, dict(sizes=(2, 2), sync=True, tau='each', R='one')),
           Config('refused', refused, dict(count=2, tau=3)),
           Config('reading', reading, dict(columns=((2, 1), (3, 2)))),
           Config('reading-one', reading, dict(columns=((1, 1), (1, 3), (2, 1)))),
           Config('reading-xvg', reading, dict(columns=((2, 1), (2, 3)), plain=False)),
           Config('reading-missing', reading, dict(columns=((3, 2), (2, 1)), missing=((0, 1, 0), (0, 2, 1), (1, 0, 0)), zero=True)),
           Config('reading-missing-xvg', reading, dict(columns=((3, 2),), missing=((0, 0, 0),), plain=False, zero=True)),
           Config('reading-digits', reading, dict(columns=((2, 2),), spec='%.5f', tol='0.0000051')),
           Config('reading-gap', reading, dict(columns=((2, 1), (1, 2)), gap=True)),
           Config('fitted', fitted, dict(n=3, lims=(False, False))),
           Config('fitted-from', fitted, dict(n=3, lims=(True, False))),
           Config('fitted-within', fitted, dict(n=3, lims=(True, True), k=2))]
    if tier == 'thorough':
        out += [Config('spread-long', spread, dict(kinds=(F, T, T, F, T, T), start=(0, 4), width=(2,))),
                Config('spread-wide', spread, dict(kinds=(T, T, T), nx=8, width=(3, 4))),
                Config('combine-long', combine, dict(sizes=(4, 3), sync=True, tau='one')),
                Config('reading-long', reading, dict(columns=((4, 2), (3, 3), (1, 1))))]
    return again(out, 'spread', ('spread', 'spread-impact'), ('spread-defaults', 'spread-floor'), ('combine-plain', 'combine-all'), ('combine-sync', 'combine-tau'),
                 ('reading', 'reading-xvg'), ('reading-one', 'reading'), ('fitted', 'fitted-from'))
