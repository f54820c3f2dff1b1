"""C22: figures show the data of the files."""
from symx.runner import Config, again

ID = 'C22'
IMPORTS = ('strata.view_flowmap', 'strata.interface.view', 'strata.interface.sample', 'strata.interface.angle', 'strata.spreading.view',
           'strata.dataformats.write', 'droplets.flowfield')
BOUNDS = ('1..2 maps of 3x3 (quick) or 4x4 bins in any order with symbolic flow, temperature or mass of some bins, cutoffs and '
          'limits; 1..3 interfaces of 2..3 layers and 1..2 spreading files of up to 3 rows with every number symbolic')
OUTSIDE = ('what matplotlib makes of the arguments it is given (only the calls which draw are recorded); maps without '
           'bins to draw (stream lines: fewer than two rows or columns)')
ASSUMPTIONS = ['the calls of pyplot and of axes are recorded, on the real code they also reach matplotlib']
LABELS = ('M', 'N', 'T', 'U', 'V')


def order_of(n, order, nx, ny):
    if order == 'y':
        return [i * ny + j for j in range(ny) for i in range(nx)]
    if order == 'any':
        step = next(s for s in (7, 5, 11, 13) if n % s)
        return [(step * k + 2) % n for k in range(n)]
    return list(range(n))


def write_maps(env, count, nx, ny, spacing, origin, sym, ftype='gmx', order='x', mass=None):
    """values of the bins of every map; sym: {label: bins which are symbolic}; mass: the bin of every map with all of its mass"""
    env.exact_f32()
    write = env.mod('strata.dataformats.write').write
    dx, dy = (env.const(s) for s in spacing)
    x0, y0 = (env.const(s) for s in origin)
    cells = [(i, j) for i in range(nx) for j in range(ny)]
    cells = [cells[k] for k in order_of(nx * ny, order, nx, ny)]
    files, maps = [], []
    for q in range(count):
        vals = {}
        for i, j in cells:
            n = 5 * i + 3 * j + 2 * q
            v = {'M': env.const(1 + n * n % 11), 'N': env.const(1 + n * 3 % 7), 'T': env.const(n * n % 13 - 4), 'U': env.const(n * 2 % 9 - 4),
                 'V': env.const(n * n % 5 - 2)}
            if mass:
                v['M'] = env.const(2 if mass[q] == (i, j) else 0)
            for l, where in sym.items():
                if (i, j) in where:
                    v[l] = env.real('%s%d_%d_%d' % (l, q, i, j), 1 if l in 'MN' else -10, 10)
            vals[(i, j)] = v
        data = dict([('X', env.arr([x0 + dx * (i + env.lit('0.5')) for i, j in cells])),
                     ('Y', env.arr([y0 + dy * (j + env.lit('0.5')) for i, j in cells]))]
                    + [(l, env.arr([vals[c][l] for c in cells])) for l in LABELS])
        fn = 'in/f%05d.dat' % (q + 1)
        write(fn, data, {'shape': (nx, ny), 'spacing': (dx, dy), 'origin': (x0, y0), 'num_bins': nx * ny}, ftype=ftype)
        files.append(fn)
        maps.append(vals)
    return files, maps


def slope(env, f, k, n, h):
    if k == 0:
        return (f(1) - f(0)) / h
    if k == n - 1:
        return (f(n - 1) - f(n - 2)) / h
    return (f(k + 1) - f(k - 1)) / (2 * h)


def derived(env, vals, label, nx, ny, spacing, c):
    """(value, whether it is the square)"""
    i, j = c
    if label in LABELS:
        return vals[c][label], False
    if label == 'flow':
        return vals[c]['U'] * vals[c]['U'] + vals[c]['V'] * vals[c]['V'], True
    dx, dy = (env.const(s) for s in spacing)
    gx = slope(env, lambda k: vals[(k, j)]['M'], i, nx, dx)
    gy = slope(env, lambda k: vals[(i, k)]['M'], j, ny, dy)
    if label == 'grad_rho_x':
        return gx, False
    if label == 'grad_rho_y':
        return gy, False
    if label == 'evaporation':
        return vals[c]['U'] * gx + vals[c]['V'] * gy, False
    raise KeyError(label)


def dissipation(env, vals, nx, ny, spacing):
    """by the function which samples it, for a map in y-major order"""
    FlowData = env.mod('droplets.flow').FlowData
    dx, dy = (env.const(s) for s in spacing)
    cells = [(i, j) for j in range(ny) for i in range(nx)]
    flow = FlowData(('X', env.arr([dx * i for i, j in cells])), ('Y', env.arr([dy * j for i, j in cells])),
                    *[(l, env.arr([vals[c][l] for c in cells])) for l in LABELS],
                    info={'shape': (nx, ny), 'spacing': (dx, dy), 'origin': (env.const(0), env.const(0)), 'num_bins': nx * ny})
    got = env.mod('droplets.sample').sample_viscous_dissipation(flow, env.lit('8.77e-4'), weight_label='M').ravel()
    return dict((c, got[k]) for k, c in enumerate(cells))


def missing(env, values, a, b):
    """(whether there is no value at a place of a grid, the value)"""
    mask = getattr(values, 'mask', None)
    if mask is not None and len(getattr(mask, 'shape', ())) == 2:
        if bool(mask[a, b]):
            return True, None
        values = values.data
    v = values[a, b]
    return env.isnan(v), v


def passes(env, vals, label, cutoff, nx, ny, spacing, c):
    if label == 'None':
        return True
    if label == 'visc':
        return env.fork(dissipation(env, vals, nx, ny, spacing)[c] >= cutoff)
    v, squared = derived(env, vals, label, nx, ny, spacing, c)
    if squared:
        return env.fork(env.or_(cutoff <= 0, v >= cutoff * cutoff))
    return env.fork(v >= cutoff)


def around(env, got, vals, c, nx, ny, spacing):
    """the flow around the center of mass, in clockwise direction"""
    tot = env.sum([vals[q]['M'] for q in sorted(vals)])
    x, y = (env.const(d) * (c[k] - env.sum([vals[q]['M'] * q[k] for q in sorted(vals)]) / tot) for k, d in enumerate(spacing))
    if env.fork(x * x + y * y == 0):
        return
    flow = vals[c]['U'] * y - vals[c]['V'] * x
    env.check_eq(got * got * (x * x + y * y), flow * flow, 'flow around the center of mass')
    env.check(got * flow >= 0, 'direction of the flow around the center of mass')


def bin_at(env, x, y, nx, ny, spacing, origin):
    at = []
    for v, n, d, o in ((x, nx, spacing[0], origin[0]), (y, ny, spacing[1], origin[1])):
        at.append(None)
        for k in range(n):
            c = env.frac(o) + env.frac(d) * (k + env.frac('0.5'))
            if env.fork(env.abs(env.num(v) - env.const(c)) < env.const(env.frac(d) / 100)):
                at[-1] = k
    return tuple(at)


def compare(env, got, want, label):
    v, squared = want
    if squared:
        env.check(got >= 0, label)
        got = got * got
    env.check_eq(got, v, 'value of the bin: ' + label)


def common_options(env, opts):
    kw = dict(opts)
    return kw


def figures(env, count, opts):
    """every figure is saved, shown and cleared"""
    if opts.get('save_fig'):
        saved = env.drawn('savefig')
        env.check([d[1][0] for d in saved] == [opts['save_fig']] * count, 'figures are saved')
        if 'dpi' in opts:
            env.check(all(d[2].get('dpi') == opts['dpi'] for d in saved), 'figures are saved with this resolution')
    else:
        env.check(env.drawn('savefig') == [], 'nothing is saved')
    env.check(len(env.drawn('show')) == (count if opts.get('show', True) else 0), 'figures are shown')
    for o in ('title', 'xlabel', 'ylabel'):
        env.check([d[1][0] for d in env.drawn(o)] == [opts.get(o, '')] * count, o + ' of the figures')
    for o in ('xlim', 'ylim'):
        env.check([d[1][0] for d in env.drawn(o)] == [opts.get(o)] * count, o + ' of the figures')
    if opts.get('axis'):
        env.check([d[1][0] for d in env.drawn('axis')] == [opts['axis']] * count, 'axis scaling of the figures')
    dims = opts.get('dims')
    made = [d[2] for d in env.drawn('figure')]
    env.check(len(made) == count, 'a figure for every file')
    for d in made:
        env.check((d.get('figsize') is not None) == (dims is not None), 'size of the figures')
        if dims and d.get('figsize') is not None:
            for dpi in [d.get('dpi')] + [s[2].get('dpi') for s in env.drawn('savefig')]:
                env.check(dpi is not None and all(abs(a * dpi - b) < 1e-6 for a, b in zip(d['figsize'], dims)), 'size of the figures in pixels')
    decorations(env, count, opts)


def decorations(env, count, opts):
    if opts.get('save_fig'):
        env.check(all(bool(d[2].get('transparent')) == bool(opts.get('transparent')) for d in env.drawn('savefig')), 'background of the figures')
    if opts.get('colormap'):
        env.check(env.colour_maps() == [opts['colormap']] * count, 'colour map of the figures')
    env.check(len(env.drawn('colorbar')) == (count if opts.get('colorbar') else 0), 'colour bar of the figures')
    for o, n in (('cbarlabel', 'set_label'), ('cbarticks', 'set_ticks'), ('cbarticklabels', 'set_ticklabels')):
        if opts.get('colorbar') and (opts.get(o) or n != 'set_label'):
            got = env.drawn(n)
            env.check(len(got) == (count if opts.get(o) else 0) and all(d[1][0] == opts[o] for d in got), 'colour bar of the figures: ' + o)
    env.check(len(env.drawn('legend')) == (count if opts.get('legend') else 0), 'legend of the figures')
    off = len(env.drawn('set_axis_off'))
    if opts.get('noaxis', False) is not None:
        env.check(off >= count if opts.get('noaxis') else off == 0, 'axes of the figures')
    log = ['log'] * (count if opts.get('loglog') else 0)
    env.check([d[1][0] for d in env.drawn('xscale')] == log and [d[1][0] for d in env.drawn('yscale')] == log, 'logarithmic axes')
    env.check(len(env.drawn('clf')) >= (count if opts.get('clf', True) else 0), 'figures are cleared')


def boxes(env, coords, bins, limits, cells):
    """the histogram draws every bin in a box of its own, next to those of its neighbours"""
    bins = list(bins) if isinstance(bins, (tuple, list)) and len(bins) == 2 else [bins, bins]
    for k, (xs, n) in enumerate(zip(coords, bins)):
        if isinstance(n, int):
            lo, hi = limits[k] if limits is not None and limits[k] is not None else (env.min(xs), env.max(xs))
            if env.fork(lo == hi):
                lo, hi = lo - env.lit('0.5'), hi + env.lit('0.5')
            edges = [lo + (hi - lo) * q / n for q in range(n + 1)]
        else:
            edges = list(n)
        at = []
        for x in xs:
            env.check(env.and_(x >= edges[0], x <= edges[-1]), 'all bins are within the histogram')
            at.append(sum(1 for e in edges[1:-1] if env.fork(x >= e)))
        env.check(len(set(a - c[k] for a, c in zip(at, cells))) == 1, 'bins are drawn in boxes of the histogram, without gaps')


def heights(env, label='M', count=1, nx=3, ny=3, spacing=('0.25', '0.5'), origin=('1', '-2'), sym=(), cutoff=None, cutoff_label=None,
            clim=None, vlim=None, opts=(), ftype='gmx', order='x', default=False):
    files, maps = write_maps(env, count, nx, ny, spacing, origin, dict(sym), ftype, order)
    before = dict((p, env.read_raw(p)) for p in env.listing())
    opts = dict(opts)
    kw = dict(opts)
    if not default:
        kw.update(label=label, type='height')
    if cutoff:
        kw['cutoff'] = env.real('cutoff', *cutoff)
        if cutoff_label:
            kw['cutoff_label'] = cutoff_label
    lims = {}
    for n, lim in (('clim', clim), ('vlim', vlim)):
        lims[n] = tuple(None if not v else env.real('%s%d' % (n, k), -10, 10) for k, v in enumerate(lim or (False, False)))
        if lim is not None:
            kw[n] = lims[n]
    env.mkdir('fig')
    env.record_drawing()
    env.mod('strata.view_flowmap').view_flowmap_2d(*files, **kw)
    for p in before:
        env.check(env.read_raw(p) == before[p], 'inputs are left alone')
    calls = env.drawn('hist2d')
    env.check(len(calls) == count, 'a map is drawn for every file')
    if len(calls) != count:
        return
    for vals, (_, args, kwargs) in zip(maps, calls):
        cells = sorted(vals)
        if cutoff:
            cells = [c for c in cells if passes(env, vals, cutoff_label or 'M', kw['cutoff'], nx, ny, spacing, c)]
            if not cells:
                env.assume(False)
        visc = dissipation(env, vals, nx, ny, spacing) if label == 'visc_diss' else None
        xs, ys, ws = args[0], args[1], kwargs['weights']
        seen = []
        env.check(len(xs) == len(cells) and len(ys) == len(cells) and len(ws) == len(cells), 'all bins are drawn')
        for k in range(len(xs)):
            c = bin_at(env, xs[k], ys[k], nx, ny, spacing, origin)
            env.check(c in cells and c not in seen, 'bins are drawn once, where they are')
            seen.append(c)
            if c in vals:
                compare(env, ws[k], (visc[c], False) if visc else derived(env, vals, label, nx, ny, spacing, c), label)
        if len(seen) == len(xs) and all(c in vals for c in seen):
            boxes(env, (xs, ys), kwargs.get('bins', args[2] if len(args) > 2 else 10), kwargs.get('range'), seen)
        for n, pre in (('clim', 'c'), ('vlim', 'v')):
            for k, end in enumerate(('min', 'max')):
                got, want = kwargs.get(pre + end), lims[n][k]
                if want is None:
                    env.check(got is None, 'no limit ' + pre + end)
                else:
                    env.check(got is not None, 'limit ' + pre + end)
                    if got is not None:
                        env.check_eq(got, want, 'limit ' + pre + end)
    figures(env, count, dict({'noaxis': None, 'axis': 'scaled'}, **opts))


def contours(env, label='M', count=1, nx=3, ny=3, spacing=('0.25', '0.5'), origin=('1', '-2'), sym=(), vlim=None, levels=False,
             filled=False, opts=(), ftype='gmx', order='x', num=None, colours=None, cutoff=None, cutoff_label=None):
    files, maps = write_maps(env, count, nx, ny, spacing, origin, dict(sym), ftype, order)
    opts = dict(opts)
    kw = dict(opts, label=label, type='contour')
    if cutoff:
        kw['cutoff'] = env.real('cutoff', *cutoff)
        if cutoff_label:
            kw['cutoff_label'] = cutoff_label
    lims = tuple(None if not v else env.real('vlim%d' % k, -10, 10) for k, v in enumerate(vlim or (False, False)))
    if vlim is not None:
        kw['vlim'] = lims
        if None not in lims:
            env.assume(lims[0] < lims[1])
    if levels:
        kw['contour_levels'] = [env.real('level0', -10, 0), env.real('level1', 1, 10)]
    for n, v in (('filled', filled), ('num_contours', num), ('contour_colours', colours)):
        if v:
            kw[n] = v
    env.mkdir('fig')
    env.record_drawing()
    env.mod('strata.view_flowmap').view_flowmap_2d(*files, **kw)
    name = 'contourf' if filled else 'contour'
    calls = env.drawn('contour', 'contourf')
    env.check([d[0] for d in calls] == [name] * count, 'a contour map is drawn for every file')
    if len(calls) != count:
        return
    for vals, (_, args, kwargs) in zip(maps, calls):
        xs, ys, cs = args[:3]
        env.check(tuple(cs.shape) in ((nx, ny), (ny, nx)), 'shape of the grid')
        env.check(tuple(xs.shape) == tuple(cs.shape) and tuple(ys.shape) == tuple(cs.shape), 'shape of the coordinates')
        visc = dissipation(env, vals, nx, ny, spacing) if label == 'visc_diss' else None
        at = {}
        for a in range(cs.shape[0]):
            for b in range(cs.shape[1]):
                c = bin_at(env, xs[a, b], ys[a, b], nx, ny, spacing, origin)
                env.check(c in vals and c not in at, 'bins are drawn once, where they are')
                at[c] = (a, b)
                if c not in vals:
                    continue
                want = (visc[c], False) if visc else derived(env, vals, label, nx, ny, spacing, c)
                if cutoff and not passes(env, vals, cutoff_label or 'M', kw['cutoff'], nx, ny, spacing, c):
                    env.check(missing(env, cs, a, b)[0], 'bins below the cutoff are not drawn')
                    continue
                if vlim and not levels:
                    v = want[0]
                    if lims[0] is not None:
                        v = env.max([v, lims[0]])
                    if lims[1] is not None:
                        v = env.min([v, lims[1]])
                    want = (v, want[1])
                gone, got = missing(env, cs, a, b)
                env.check(env.not_(gone), 'all other bins are drawn')
                if not env.fork(gone):
                    compare(env, got, want, label)
        # neighbours in the map are neighbours in the grid
        for (i, j), (a, b) in at.items():
            for o in ((i + 1, j), (i, j + 1)):
                if o in at:
                    env.check(abs(at[o][0] - a) + abs(at[o][1] - b) == 1, 'the grid is that of the map')
        env.check(args[3] == (num or 10), 'number of contours')
        got = kwargs.get('levels')
        env.check((got is not None) == levels, 'levels of contours')
        if levels and got is not None:
            env.check_eq_all(list(got), kw['contour_levels'], 'levels of contours')
        env.check(kwargs.get('colors') == colours, 'colours of contours')
    figures(env, count, dict({'noaxis': None, 'axis': 'scaled'}, **opts))


def arrows(env, colour=None, count=1, nx=3, ny=3, spacing=('0.25', '0.5'), origin=('1', '-2'), sym=(), cutoff=None, cutoff_label=None,
           xlim=None, ylim=None, vlim=None, opts=(), labels=None, ftype='gmx', order='x', pivot=None, scale=None, mass=None):
    files, maps = write_maps(env, count, nx, ny, spacing, origin, dict(sym), ftype, order, mass)
    opts = dict(opts)
    kw = dict(opts)
    if cutoff:
        kw['cutoff'] = env.real('cutoff', *cutoff)
        if cutoff_label:
            kw['cutoff_label'] = cutoff_label
    for n, v in (('colour', colour), ('labels', labels), ('pivot', pivot), ('scale', scale)):
        if v:
            kw[n] = v
    lims = {}
    for n, lim in (('xlim', xlim), ('ylim', ylim), ('vlim', vlim)):
        lims[n] = tuple(None if not v else env.real('%s%d' % (n, k), -10, 10) for k, v in enumerate(lim or (False, False)))
        if lim is not None:
            kw[n] = lims[n]
    env.mkdir('fig')
    env.record_drawing()
    env.mod('strata.view_flowmap').view_flowfields(*files, **kw)
    calls = env.drawn('quiver')
    env.check(len(calls) == count, 'a flow field is drawn for every file')
    if len(calls) != count:
        return
    a, b = labels or ('U', 'V')
    for vals, (_, args, kwargs) in zip(maps, calls):
        cells = []
        visc = dissipation(env, vals, nx, ny, spacing) if colour == 'visc' else None
        for c in sorted(vals):
            v = vals[c]
            ok = [env.or_(v[a] != 0, v[b] != 0)]
            for k, n in enumerate(('xlim', 'ylim')):
                x = env.const(env.frac(origin[k]) + env.frac(spacing[k]) * (c[k] + env.frac('0.5')))
                ok += [] if lims[n][0] is None else [x >= lims[n][0]]
                ok += [] if lims[n][1] is None else [x <= lims[n][1]]
            if cutoff:
                ok.append(v[cutoff_label or 'M'] >= kw['cutoff'])
            if env.fork(env.and_(*ok)):
                cells.append(c)
        if not cells:
            env.assume(False)
        xs, ys, us, vs, ws = args
        env.check(all(len(q) == len(cells) for q in (xs, ys, us, vs, ws)), 'bins with flow are drawn')
        seen = []
        for k in range(len(xs)):
            c = bin_at(env, xs[k], ys[k], nx, ny, spacing, origin)
            env.check(c in cells and c not in seen, 'bins with flow within the limits are drawn once, where they are')
            seen.append(c)
            if c in vals:
                env.check_eq(us[k], vals[c][a], 'flow along x')
                env.check_eq(vs[k], vals[c][b], 'flow along y')
                if colour == 'radial':
                    around(env, ws[k], vals, c, nx, ny, spacing)
                    continue
                if colour == 'visc':
                    want = (visc[c], False)
                else:
                    want = derived(env, vals, colour, nx, ny, spacing, c) if colour not in (None, 'None') else (env.const(1), False)
                compare(env, ws[k], want, 'colour')
        env.check(kwargs.get('pivot') == (pivot or 'middle'), 'pivot of the arrows')
        env.check(kwargs.get('scale') == (scale or 1), 'scale of the arrows')
        got = kwargs.get('clim')
        env.check(len(got) == 2, 'limits of the colours')
        for g, w in zip(got, lims['vlim']):
            env.check((g is None) == (w is None), 'limits of the colours')
            if g is not None and w is not None:
                env.check_eq(g, w, 'limits of the colours')
    figures(env, count, dict(opts, axis=opts.get('axis', 'scaled'), **dict((n, lims[n]) for n in ('xlim', 'ylim') if n in kw)))


def streamlines(env, colour=None, count=1, nx=3, ny=3, spacing=('0.25', '0.5'), origin=('1', '-2'), sym=(), cutoff=None,
                cutoff_label=None, xlim=None, ylim=None, opts=(), labels=None, ftype='gmx', order='x', mass=None):
    files, maps = write_maps(env, count, nx, ny, spacing, origin, dict(sym), ftype, order, mass)
    opts = dict(opts)
    kw = dict(opts, streamlines=True)
    if cutoff:
        kw['cutoff'] = env.real('cutoff', *cutoff)
        if cutoff_label:
            kw['cutoff_label'] = cutoff_label
    for n, v in (('colour', colour), ('labels', labels)):
        if v:
            kw[n] = v
    lims = {}
    for n, lim in (('xlim', xlim), ('ylim', ylim)):
        lims[n] = tuple(None if not v else env.real('%s%d' % (n, k), -10, 10) for k, v in enumerate(lim or (False, False)))
        if lim is not None:
            kw[n] = lims[n]
    inside = []
    for vals in maps:
        cells = []
        for c in sorted(vals):
            ok = [vals[c][cutoff_label or 'M'] >= kw['cutoff']] if cutoff else []
            for k, n in enumerate(('xlim', 'ylim')):
                x = env.const(env.frac(origin[k]) + env.frac(spacing[k]) * (c[k] + env.frac('0.5')))
                ok += [] if lims[n][0] is None else [x >= lims[n][0]]
                ok += [] if lims[n][1] is None else [x <= lims[n][1]]
            if env.fork(env.and_(*ok)):
                cells.append(c)
        inside.append(cells)
        if any(len(set(c[k] for c in cells)) < 2 for k in (0, 1)):
            env.assume(False)
    env.mkdir('fig')
    env.record_drawing()
    env.mod('strata.view_flowmap').view_flowfields(*files, **kw)
    calls = env.drawn('streamplot')
    env.check(len(calls) == count, 'stream lines are drawn for every file')
    if len(calls) != count:
        return
    a, b = labels or ('U', 'V')
    for vals, cells, (_, args, kwargs) in zip(maps, inside, calls):
        xs, ys, us, vs = list(args[:4]) + [kwargs[n] for n in ('x', 'y', 'u', 'v')[len(args):]]
        ws, width = kwargs.get('color'), kwargs.get('linewidth')
        if not env.fork(env.and_(len(xs.shape) == 1, len(ys.shape) == 1)):
            xs, ys = xs[0], ys[:, 0]
        shape = (len(ys), len(xs))
        env.check(tuple(us.shape) == shape and tuple(vs.shape) == shape, 'shape of the grid of the stream lines')
        if (tuple(us.shape), tuple(vs.shape)) != (shape, shape):
            continue
        env.check((ws is None) == (colour in (None, 'None')), 'stream lines are coloured')
        visc = dissipation(env, vals, nx, ny, spacing) if colour == 'visc' else None
        seen, mass = set(), []
        for p in range(shape[0]):
            for q in range(shape[1]):
                c = bin_at(env, xs[q], ys[p], nx, ny, spacing, origin)
                env.check(c in vals and c not in seen, 'bins are on the grid once, where they are')
                if c not in vals:
                    continue
                seen.add(c)
                gone = [missing(env, f, p, q)[0] for f in (us, vs)]
                env.check(env.iff(env.or_(*gone), c not in cells), 'there is flow in the bins within the limits')
                if c not in cells or env.fork(env.or_(*gone)):
                    continue
                env.check_eq(missing(env, us, p, q)[1], vals[c][a], 'flow along x')
                env.check_eq(missing(env, vs, p, q)[1], vals[c][b], 'flow along y')
                if ws is not None and colour not in (None, 'None'):
                    got = missing(env, ws, p, q)[1]
                    if colour == 'radial':
                        around(env, got, vals, c, nx, ny, spacing)
                    else:
                        compare(env, got, (visc[c], False) if visc else derived(env, vals, colour, nx, ny, spacing, c), 'colour')
                env.check(len(getattr(width, 'shape', ())) == 2, 'lines are as wide as the mass')
                if len(getattr(width, 'shape', ())) == 2:
                    mass.append((missing(env, width, p, q)[1], vals[c]['M']))
        env.check(seen >= set(cells), 'all bins within the limits are on the grid')
        for w, m in mass[1:]:
            env.check_eq(w * mass[0][1], mass[0][0] * m, 'lines are as wide as the mass')
    figures(env, count, dict(opts, axis=opts.get('axis', 'scaled'), **dict((n, lims[n]) for n in ('xlim', 'ylim') if n in kw)))


def curve(env, call, xs, ys, what):
    _, args, kwargs = call
    gx, gy = list(args[0]), list(args[1])
    env.check(len(gx) == len(xs) and len(gy) == len(ys), 'points of ' + what)
    if len(gx) == len(xs) and len(gy) == len(ys):
        env.check_eq_all(gx, xs, 'points of %s along x' % what)
        env.check_eq_all(gy, ys, 'points of %s along y' % what)


def put(env, path, rows, head='# a\n'):
    env.write_text(path, head + ''.join(' '.join(env.fmt('%r', v) for v in r) + '\n' for r in rows))


def interface_points(env, q, n, heights=None):
    ys = heights[:n] if heights else [env.real('h%d_0' % q, -10, 10)]
    for k in range(len(ys), n):
        ys.append(env.real('h%d_%d' % (q, k), -10, 50))
        env.assume(ys[k] >= ys[k - 1] + env.lit('0.01'))
    xl, xr = env.reals('left%d' % q, n, -100, 0), env.reals('right%d' % q, n, 1, 100)
    return list(zip(xl, ys)) + list(zip(xr[::-1], ys[::-1]))


def interfaces(env, sizes, average=1, begin=None, save=True, opts=(), bad=None, extfig=None):
    points = []
    for q, n in enumerate(sizes):
        # averaged interfaces have their layers at the same heights
        points.append(interface_points(env, q, n, [p[1] for p in points[0][:n]] if q and average > 1 else None))
        if q == bad:
            env.write_text('in/i%05d.xvg' % (q + 1), '# a\n1 2\n3\n')
        else:
            put(env, 'in/i%05d.xvg' % (q + 1), points[-1])
    opts = dict(opts)
    kw = dict(opts, quiet=True)
    if average > 1:
        kw['average'] = average
    if begin:
        kw['begin'] = begin
    if save:
        kw['save_fig'] = 'fig/a'
    if extfig:
        kw['extfig'] = extfig
    env.mkdir('fig')
    env.record_drawing()
    xs, ys = env.mod('strata.interface.view').view_interfaces('in/i', **kw)
    first = (begin or 1) - 1
    use = list(range(first, len(sizes)))
    groups = [use[k:k + average] for k in range(0, len(use) - average + 1, average)]
    start = -(-(begin or 1) // average)
    calls, saved = env.drawn('plot'), [d[1][0] for d in env.drawn('savefig')]
    want = [(k, g) for k, g in enumerate(groups) if bad not in g]
    env.check(len(calls) == len(want), 'an interface is drawn for every group')
    env.check(saved == (['fig/a%05d%s' % (start + k, extfig or '.png') for k, _ in want] if save else []), 'figures are numbered as the groups')
    if len(calls) != len(want):
        return
    for call, (k, g), x, y in zip(calls, want, xs, ys):
        n = len(points[g[0]])
        curve(env, call, [env.sum([points[q][k][0] for q in g]) / len(g) for k in range(n)], [points[g[0]][k][1] for k in range(n)], 'the interface')


def interface_samples(env, sizes, variable, save=False):
    for q, n in enumerate(sizes):
        put(env, 'in/i%05d.xvg' % (q + 1), interface_points(env, q, n))
    kw = {'quiet': True}
    dt = env.real('dt', '0.01', 10)
    if save:
        kw['save_fig'] = 'fig/a.png'
    m = env.mod('strata.interface.sample')
    env.mkdir('fig')
    env.record_drawing()
    got = m.sample_interfaces('in/i', variable, delta_t=dt, **kw)
    calls = env.drawn('plot')
    env.check(len(calls) == 1, 'the samples are drawn')
    f = m.get_area_of_interface if variable == 'area' else m.calc_length
    want = []
    for q in range(len(sizes)):
        xs, ys = env.np.genfromtxt('in/i%05d.xvg' % (q + 1), unpack=True) if not env.symbolic else m.read_interface_file('in/i%05d.xvg' % (q + 1))
        want.append(f(xs, ys))
    if calls:
        curve(env, calls[0], [dt * q for q in range(len(sizes))], want, 'the samples')
    env.check([d[1][0] for d in env.drawn('savefig')] == (['fig/a.png'] if save else []), 'the figure is saved')


def angles(env, count, fit=False, height=False, opts=(), drawn=True):
    for q in range(count):
        put(env, 'in/i%05d.xvg' % (q + 1), [(env.const(-4 + q), env.const(0)), (env.const(-2), env.const(2)), (env.const(2), env.const(2)),
                                            (env.const(4 + q), env.const(0))])
    dt = env.real('dt', '0.01', 10)
    kw = dict(opts, quiet=True)
    if fit:
        kw['fit'] = True
    if height:
        kw['height'] = env.const(2)
    env.mkdir('fig')
    env.record_drawing()
    times, got = env.mod('strata.interface.angle').interface_contact_angle('in/i', delta_t=dt, **kw)
    keys = [k for k, on in (('fit', fit), ('measured', height)) if on] if drawn else []
    calls = env.drawn('plot')
    env.check([d[2].get('label') for d in calls] == keys, 'the angles are drawn')
    for k, call in zip(keys, calls):
        env.check(len(got[k]) == count, 'an angle for every interface')
        curve(env, call, [dt * q for q in range(count)], got[k], 'the angles')
    env.check([d[1][0] for d in env.drawn('savefig')] == ([kw['save_fig']] if drawn and 'save_fig' in kw else []), 'the figure is saved')
    if drawn:
        decorations(env, 1, dict({'legend': fit or height}, **kw))


def spreading(env, shapes, scale=False, opts=(), drawn=True):
    """shapes: rows and columns of the radii of every file"""
    series, files = [], []
    for q, (n, cols) in enumerate(shapes):
        times = [env.real('t%d_0' % q, 0, 10)]
        for k in range(1, n):
            times.append(env.real('t%d_%d' % (q, k), 0, 100))
            env.assume(times[k] > times[k - 1] + env.lit('0.01'))
        rs = [env.reals('r%d_%d' % (q, c), n, 1, 100) for c in range(cols)]
        put(env, 'in/s%d.xvg' % q, [[times[k]] + [r[k] for r in rs] for k in range(n)])
        files.append('in/s%d.xvg' % q)
        series += [(times, r) for r in rs]
    kw = dict(opts)
    tau = R = env.const(1)
    if scale:
        kw['tau'], kw['R'] = tau, R = env.real('tau', '0.1', 10), env.real('R', '0.1', 10)
    env.mkdir('fig')
    env.record_drawing()
    env.mod('strata.spreading.view').view_spreading(files, **kw)
    calls = env.drawn('plot')
    env.check(len(calls) == (len(series) if drawn else 0), 'every curve is drawn')
    if drawn and len(calls) == len(series):
        for call, (t, r) in zip(calls, series):
            curve(env, call, [v / tau for v in t], [v / R for v in r], 'the curve')
    env.check([d[1][0] for d in env.drawn('savefig')] == ([kw['save_fig']] if 'save_fig' in kw else []), 'the figure is saved')
    if drawn:
        decorations(env, 1, kw)


def field(env, nx=3, ny=2, names=None):
    """the quiver graph of a record of data"""
    rs = dict((l, env.reals(l, nx * ny, -10, 10)) for l in ('A', 'U', 'Y', 'X', 'V', 'B'))
    FlowData = env.mod('droplets.flow').FlowData
    data = FlowData(*[(l, env.arr(v)) for l, v in rs.items()]).data
    env.record_drawing()
    draw = env.mod('droplets.flowfield').draw_flowfield
    draw(data, fields=names) if names else draw(data)
    calls = env.drawn('quiver')
    env.check(len(calls) == 1, 'the field is drawn')
    for call in calls:
        env.check(len(call[1]) == 4, 'positions and flow are drawn')
        for l, a in zip(names or ('X', 'Y', 'U', 'V'), call[1]):
            env.check_eq_all(list(a), rs[l], 'drawn values of ' + l)


def configs(tier):
    uv = {'U': ((0, 0), (1, 2)), 'V': ((0, 0), (2, 1))}
    m = {'M': ((0, 0), (1, 1), (2, 0))}
    t = {'T': ((0, 1), (1, 1), (2, 2))}
    full = {'show': False, 'save_fig': 'a.png', 'dpi': 100, 'title': 'A title', 'xlabel': 'x', 'ylabel': 'y', 'xlim': (0, 2), 'ylim': (-2, 0)}
    H = lambda n, **k: Config('height-' + n, heights, k)
    K = lambda n, **k: Config('contour-' + n, contours, k)
    A = lambda n, **k: Config('arrows-' + n, arrows, k)
    out = [H('default', sym=m, default=True), H('T', label='T', sym=t, count=2), H('flow', label='flow', sym=uv, count=2, opts=full),
           H('visc', label='visc_diss', sym={'U': ((1, 1),)}, count=2), H('evaporation', label='evaporation', sym={'M': ((1, 1),), 'U': ((0, 0), (1, 0))}, count=2),
           H('grad-x', label='grad_rho_x', sym=m), H('grad-y', label='grad_rho_y', sym=m, count=2),
           H('cutoff', label='T', sym=m, cutoff=(1, 10), count=2), H('cutoff-flow', label='evaporation', sym={'U': ((0, 0), (1, 1))}, cutoff=(-3, 3), cutoff_label='U'),
           H('cutoff-column', label='T', sym={'M': ((0, 0), (0, 1), (0, 2))}, cutoff=(1, 10)), H('cutoff-row', label='M', sym={'M': ((0, 3), (1, 3), (0, 2), (1, 2))}, nx=2, ny=4, cutoff=(1, 10)),
           H('cutoff-visc', label='visc_diss', sym={'T': ((0, 0), (1, 1))}, cutoff=(-2, 4), cutoff_label='T', count=2),
           H('clim', label='M', sym=m, clim=(True, False), vlim=(False, True)), H('vlim', label='M', sym=m, clim=(False, True), vlim=(True, True)),
           H('order', label='U', sym=uv, ftype='simple', order='any'), H('size', nx=2, ny=4, sym=m, label='V', opts={'dims': (300, 450), 'dpi': 100, 'save_fig': 'a.png', 'show': False})]
    out += [K('M', sym=m, count=2, opts=full), K('wide', sym={'M': ((3, 1), (0, 0))}, nx=4, ny=2), K('T', label='T', sym=t, filled=True), K('flow', label='flow', sym=uv, count=2),
            K('evaporation', label='evaporation', sym={'M': ((1, 1),), 'U': ((0, 0), (1, 0))}, nx=3, ny=4, count=2),
            K('grad', label='grad_rho_x', sym={'M': ((1, 1), (0, 0))}, nx=4, ny=2),
            K('visc', label='visc_diss', sym={'U': ((1, 1),)}, nx=4, ny=3, count=2),
            K('order', label='U', sym=uv, ftype='simple', order='any'), K('order-y', label='T', sym=t, ftype='simple', order='y', nx=4, ny=3),
            K('vlim', label='T', sym=t, vlim=(True, True)), K('vmin', label='M', sym=m, vlim=(True, False), num=4),
            K('vmin-flow', label='U', sym=uv, vlim=(True, False)), K('vmax-flow', label='U', sym=uv, vlim=(False, True), count=2),
            K('levels', label='T', sym=t, vlim=(True, True), levels=True, colours=['k', 'r']), K('filled', sym=m, filled=True, levels=True)]
    out += [A('plain', sym=uv), A('M', sym=m, colour='M', count=2, opts=dict((k, full[k]) for k in full if 'lim' not in k)), A('flow', sym=uv, colour='flow', count=2),
            A('cutoff', sym=m, colour='T', cutoff=(1, 10), count=2), A('cutoff-T', sym=t, colour='N', cutoff=(-5, 5), cutoff_label='T'),
            A('evaporation', sym={'M': ((1, 1),), 'U': ((0, 0), (1, 0))}, colour='evaporation', nx=3, ny=4, count=2), A('none', sym=uv, colour='None'),
            A('visc', sym={'U': ((1, 1),)}, colour='visc', count=2, nx=4, opts={'dims': (450, 300)}),
            A('radial', sym={'U': ((0, 0), (1, 1)), 'V': ((1, 0), (1, 1))}, colour='radial', count=2, nx=2, ny=2, spacing=('3', '4'), mass=((0, 0), (1, 1)), ftype='simple'),
            A('negative', sym={'U': ((1, 1),)}, origin=('-0.375', '-0.75'), xlim=(True, True), ylim=(False, True)),
            A('xlim', sym=uv, xlim=(True, False), ylim=(False, True)), A('ylim', sym=uv, xlim=(False, True), ylim=(True, False), vlim=(True, True), pivot='tip', scale=3),
            A('labels', sym={'T': ((0, 0),), 'U': ((1, 1),)}, labels=('T', 'U')), A('order', sym=uv, ftype='simple', order='any', colour='V')]
    out += [Config('interfaces', interfaces, dict(sizes=(2, 1, 3))), Config('interfaces-begin', interfaces, dict(sizes=(2, 2, 3), begin=2)),
            Config('interfaces-average', interfaces, dict(sizes=(2, 2, 2, 2), average=2, extfig='.pdf')),
            Config('interfaces-average-begin', interfaces, dict(sizes=(2, 2, 2, 2, 2), average=2, begin=4)),
            Config('interfaces-bad', interfaces, dict(sizes=(2, 2, 2), bad=1)), Config('interfaces-shown', interfaces, dict(sizes=(2, 2), save=False)),
            Config('area', interface_samples, dict(sizes=(2, 3), variable='area', save=True)), Config('length', interface_samples, dict(sizes=(2, 2), variable='length')),
            Config('angles', angles, dict(count=2, fit=True, height=True, opts={'save_fig': 'fig/a.png'})), Config('angles-fit', angles, dict(count=3, fit=True)),
            Config('angles-height', angles, dict(count=1, height=True, opts={'show': False}, drawn=False)),
            Config('spreading', spreading, dict(shapes=((3, 1), (2, 2)))), Config('spreading-scaled', spreading, dict(shapes=((2, 3),), scale=True, opts={'save_fig': 'fig/a.png', 'show': False})),
            Config('spreading-hidden', spreading, dict(shapes=((2, 1),), opts={'show': False}, drawn=False)),
            Config('spreading-loglog', spreading, dict(shapes=((3, 2),), opts={'loglog': True}))]
    S = lambda n, **k: Config('lines-' + n, streamlines, k)
    out += [S('plain', sym=uv), S('M', sym=m, colour='M', count=2, opts=dict((k, full[k]) for k in full if 'lim' not in k)),
            S('cutoff', sym=m, colour='T', cutoff=(1, 10), count=2), S('cutoff-T', sym=t, colour='None', cutoff=(-5, 5), cutoff_label='T', nx=4),
            S('xlim', sym=uv, xlim=(True, False), ylim=(False, True), nx=4, ny=4), S('ylim', sym=uv, xlim=(False, True), ylim=(True, False)),
            S('zero', origin=('-0.5', '-1.5'), sym=uv, xlim=(True, True), ylim=(True, True), colour='V', nx=4, ny=4),
            S('zero-bottom', origin=('-0.5', '-0.75'), sym=uv, ylim=(True, False), colour='V', nx=3, ny=4),
            S('cut-column', sym={'M': ((0, 0), (0, 1), (1, 1), (2, 2))}, cutoff=(1, 10), ylim=(False, True), xlim=(True, False)),
            S('flow', sym=uv, colour='flow', spacing=('0.1', '0.3'), nx=4), S('evaporation', sym={'M': ((1, 1),), 'U': ((0, 0), (1, 0))}, colour='evaporation', nx=3, ny=4, cutoff=(1, 10)),
            S('labels', sym={'T': ((0, 0),), 'U': ((1, 1),)}, labels=('T', 'U'), opts={'dims': (450, 300)}),
            S('order', sym=uv, ftype='simple', order='any', colour='V', origin=('-2', '1')), S('visc', sym={'U': ((1, 1),)}, colour='visc', count=2, nx=4),
            S('bar', sym=m, colour='N', opts={'colorbar': True, 'colormap': 'jet'}, count=2)]
    out += [K('cutoff', sym=m, cutoff=(1, 10), count=2), K('cutoff-T', sym=t, label='U', cutoff=(-5, 5), cutoff_label='T', vlim=(True, True), filled=True),
            K('cutoff-flow', sym={'U': ((0, 0), (1, 2))}, label='M', cutoff=(-1, 8), cutoff_label='flow', nx=2, ny=3),
            H('cut-by-flow', sym={'U': ((0, 0), (1, 2))}, cutoff=(-1, 8), cutoff_label='flow', count=2, nx=2), H('cut-by-visc', label='T', sym={'T': ((1, 1),)}, cutoff=(0, 1), cutoff_label='visc'),
            H('cut-by-none', label='T', sym=t, cutoff=(0, 9), cutoff_label='None')]
    bar = {'colorbar': True, 'colormap': 'jet', 'cbarlabel': 'Mass', 'cbarticks': [2.0, 5.0], 'cbarticklabels': ['low', 'high']}
    out += [H('bar', sym=m, count=2, opts=bar), A('bar', sym=m, colour='M', opts={'colorbar': True, 'noaxis': True}),
            K('bare', sym=m, opts={'noaxis': True, 'transparent': True, 'save_fig': 'a.png', 'clf': False, 'show': False}),
            H('log', sym=m, opts={'noaxis': False, 'loglog': True, 'colorbar': True, 'cbarlabel': 'Mass'}),
            Config('spreading-legend', spreading, dict(shapes=((2, 2),), opts={'legend': True, 'title': 'x'})),
            Config('angles-legend', angles, dict(count=2, fit=True, opts={'legend': False})),
            Config('field', field), Config('field-labels', field, dict(names=('A', 'B', 'V', 'U'), nx=2))]
    if tier == 'thorough':
        every = tuple((i, j) for i in range(4) for j in range(4))
        out += [H('large', label='evaporation', sym={'M': every, 'U': every, 'V': every}, nx=4, ny=4), K('large', label='flow', sym={'U': every, 'V': every}, nx=4, ny=4),
                A('large', sym={'U': every[:4], 'V': every[2:6], 'T': every}, nx=4, ny=4, colour='T'),
                H('cutoff-large', label='T', sym={'M': every[:7]}, nx=4, ny=4, cutoff=(1, 10)),
                Config('spreading-large', spreading, dict(shapes=((4, 2), (4, 2), (3, 1)), scale=True))]
    return again(out, 'height-default', ('height-default', 'height-flow'), ('height-visc', 'height-T'), ('contour-M', 'contour-T'), ('contour-M', 'contour-levels'), ('arrows-plain', 'arrows-M'),
                 ('arrows-plain', 'lines-cutoff'), ('lines-plain', 'arrows-xlim'), ('interfaces', 'interfaces-average'), ('area', 'length'), ('angles', 'angles-fit'),
                 ('spreading', 'spreading-scaled'), 'contour-M')
