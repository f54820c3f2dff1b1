"""C19: averages, sums, flow angles and slip lengths sampled from maps."""
from symx.runner import Config, again
from checks.c14_gradients import derivative

ID = 'C19'
IMPORTS = ('strata.sample_average', 'droplets.sample', 'strata.dataformats.write')
BOUNDS = ('sample_value on 1..4 bins, sample_slip_length on 1..3 columns of 2..4 bins, sample_average_files on 1..3 files of up to '
          '3x3 bins; every sampled value, cutoff, time step, floor and viscosity symbolic')
OUTSIDE = 'larger maps; averages of no bins at all; columns with the same flow at every height'
LABELS = ('U', 'V', 'M', 'N', 'T')


def spread_of(env, got, vals, n):
    """got is the standard deviation of vals"""
    mean = env.sum(vals) / n
    env.check(got >= 0, 'standard deviation')
    env.check_eq(got * got * n, env.sum([(v - mean) * (v - mean) for v in vals]), 'standard deviation')


def value(env, n, label='T', cutoff=None, cutoff_label=None, total=False, zero=False):
    """cutoff: None, 'value' (symbolic) or 'mid' (the default)"""
    m = env.mod('strata.sample_average')
    FlowData = env.mod('droplets.flow').FlowData
    vals = dict((l, env.reals(l, n, 0 if l in 'NM' else -100, 100)) for l in ('U', 'V', 'M', label if label in LABELS else 'T'))
    flow = FlowData(*[(l, env.arr(vals[l])) for l in vals])
    cut = env.real('cut', -100, 100) if cutoff == 'value' else None
    keep = list(range(n))
    if cutoff_label in vals:
        w = vals[cutoff_label]
        lim = cut if cut is not None else (env.max(w) + env.min(w)) / 2
        keep = [k for k in range(n) if env.fork(w[k] >= lim)]
    env.assume(len(keep) > 0 or total)
    got, std = m.sample_value(flow, label, cut, cutoff_label, total, env.const(1))
    if label == 'inertial_energy':
        q = [(vals['U'][k] * vals['U'][k] + vals['V'][k] * vals['V'][k]) * vals['M'][k] / 2 for k in keep]
    else:
        q = [vals[label][k] for k in keep]
    env.check_eq(got if total else got * len(keep), env.sum(q) if q else 0, 'sum' if total else 'mean of the bins')
    if total:
        env.check(std is None, 'a sum has no deviation')
    else:
        spread_of(env, std, q, len(keep))
    for l in vals:
        for k in range(n):
            env.check_eq(flow.data[l][k], vals[l][k], 'the map is left alone')


def angle(env, n, cutoff=False):
    """the angle of the flow of all mass"""
    m = env.mod('strata.sample_average')
    FlowData = env.mod('droplets.flow').FlowData
    mass = env.reals('M', n, '0.001', 100)
    # the total flow points in a direction of the oracle; all but the last bin flow freely
    ang, c, s = env.polar('flow', 3, -179, 180)
    us, vs = env.reals('U', n - 1, -100, 100), env.reals('V', n - 1, -100, 100)
    cut = env.real('cut', 0, 100) if cutoff else None
    keep = [k for k in range(n - 1) if not cutoff or env.fork(mass[k] >= cut)]
    if cutoff:
        env.assume(mass[n - 1] >= cut)
    us = list(us) + [(c - env.sum([us[k] * mass[k] for k in keep] or [env.const(0)])) / mass[n - 1]]
    vs = list(vs) + [(s - env.sum([vs[k] * mass[k] for k in keep] or [env.const(0)])) / mass[n - 1]]
    flow = FlowData(('U', env.arr(us)), ('V', env.arr(vs)), ('M', env.arr(mass)))
    got, std = m.sample_value(flow, 'flow_angle', cut, 'M' if cutoff else None, False, env.const(1))
    env.check(std is None, 'the angle has no deviation')
    env.check_eq(got, ang, 'angle of the mass flow', tol='1e-6')
    env.check(env.raises(ValueError, lambda: m.sample_value(flow, 'flow_angle', cut, None, True, env.const(1))) is not None,
              'angles are not summed')


def slip(env, heights, spacing='0.5', fixed=True):
    """linear profiles u = g (y + b) over heights[k] bins, where fixed tells to shift it off a line"""
    m = env.mod('strata.sample_average')
    FlowData = env.mod('droplets.flow').FlowData
    nx, ny = len(heights), heights[0]
    dy, y0 = env.const(spacing), env.real('y0', -10, 10)
    floor = env.real('floor', -10, 10)
    ys, us, xs, want = [], [], [], []
    for i in range(nx):
        if fixed:
            g, b = env.real('g%d' % i, '0.01', 10), env.real('b%d' % i, -10, 10)
            col = [g * (y0 + j * dy + b) for j in range(ny)]
            want.append(b + floor)
        else:
            col = env.reals('u%d' % i, ny, -10, 10)
            n = ny
            su, sy = env.sum(col), env.sum([y0 + j * dy for j in range(ny)])
            suu = env.sum([u * u for u in col])
            suy = env.sum([u * (y0 + j * dy) for j, u in enumerate(col)])
            den = n * suu - su * su
            env.assume(den > env.lit('0.01'))
            want.append((den, floor * den - (sy * suu - su * suy)))
        xs += [env.const(i)] * ny
        ys += [y0 + j * dy for j in range(ny)]
        us += list(col)
    flow = FlowData(('X', env.arr(xs)), ('Y', env.arr(ys)), ('U', env.arr(us)), ('V', env.arr(us)),
                    info={'shape': (nx, ny), 'spacing': (env.const(1), dy), 'origin': (env.const(0), y0)})
    got, std = m.sample_slip_length(flow, floor=floor)
    if fixed:
        env.check_eq(got * nx, env.sum(want), 'mean distance from the floor to where the flow vanishes')
        spread_of(env, std, want, nx)
    else:
        # floor - intercept of the line of least squares
        (den, num), = want
        env.check_eq(got * den, num, 'distance to where the fitted flow vanishes')
        env.check_eq(std, 0, 'one column has no deviation')
    for k in range(nx * ny):
        env.check_eq(flow.data['U'][k], us[k], 'the map is left alone')


def write_map(env, path, nx, ny, spacing, origin, vals, simple=False):
    dx, dy = (env.const(q) for q in spacing)
    x0, y0 = (env.const(q) for q in origin)
    half = env.lit('0.5')
    cells = [(i, j) for i in range(nx) for j in range(ny)]
    data = dict([('X', env.arr([x0 + dx * (i + half) for i, j in cells])),
                 ('Y', env.arr([y0 + dy * (j + half) for i, j in cells]))]
                + [(l, env.arr([vals[l][c] for c in cells])) for l in LABELS])
    write = env.mod('strata.dataformats.write').write
    if simple:
        write(path, data, ftype='simple')
    else:
        write(path, data, {'shape': (nx, ny), 'spacing': (dx, dy), 'origin': (x0, y0), 'num_bins': nx * ny})


def numbers(k):
    """a fixed irregular sequence"""
    return str(((k * 37 + 11) % 29) - 9)


def files(env, count, nx, ny, labels, free='M', only=None, opts=(), cutoff_label=None, cut=None, spacing=('0.5', '0.25'),
          origin=('-1', '0'), total=False, begin=None, end=None, lims=None, output=True, deny=False, empty=None, simple=False):
    """free: label with symbolic values, in the bins `only`; lims: limits as numbers of bins (x0, x1, y0, y1)"""
    env.exact_f32()
    m = env.mod('strata.sample_average')
    dx, dy = (env.const(q) for q in spacing)
    x0, y0 = (env.const(q) for q in origin)
    cells = [(i, j) for i in range(nx) for j in range(ny)]
    maps = []
    for q in range(count):
        vals = dict((l, {}) for l in LABELS)
        for k, c in enumerate(cells):
            for b, l in enumerate(LABELS):
                x = env.const(numbers(7 * k + 5 * b + 13 * q))
                if l in 'MN':
                    x = env.const(1 + (3 * k + 5 * q + b) % 7)
                if l == free and (only is None or c in only):
                    x = env.real('%s%d_%d_%d' % (l, q, c[0], c[1]), 1 if l in 'MN' else -10, 10)
                if empty == c:
                    x = env.const(0)
                vals[l][c] = x
        maps.append(vals)
        write_map(env, 'in/f%05d.dat' % (q + 1), nx, ny, spacing, origin, vals, simple)
    before = dict((p, env.read_raw(p)) for p in env.listing())
    kw = {'quiet': True, 'verbose': False}
    step = env.const(1)
    if 'dt' in opts:
        step = kw['dt'] = env.real('dt', '0.01', 100)
    mu = env.lit('0.000877')
    if 'viscosity' in opts:
        mu = kw['viscosity'] = env.real('mu', 0, 10)
    floor = env.const(0)
    if 'floor' in opts:
        floor = kw['slip_floor'] = env.real('floor', -10, 10)
    if cutoff_label:
        kw['cutoff_label'] = cutoff_label
    if cut:
        cut = kw['cutoff'] = env.real('cut', 1, 10)
    if total:
        kw['sum'] = True
    if begin:
        kw['begin'] = begin
    if end:
        kw['end'] = end
    use = list(range((begin or 1) - 1, min(end or count, count)))
    sub = cells
    if lims:
        ax, bx, ay, by = lims
        if (ax, bx) != (None, None):
            kw['xlim'] = (x0 + ax * dx if ax is not None else None, x0 + bx * dx if bx is not None else None)
        if (ay, by) != (None, None):
            kw['ylim'] = (y0 + ay * dy if ay is not None else None, y0 + by * dy if by is not None else None)
        sub = [(i, j) for i, j in cells if (ax is None or i >= ax) and (bx is None or i < bx)
               and (ay is None or j >= ay) and (by is None or j < by)]
    if output:
        kw['output'] = 'out/a.xvg'
    if deny:
        env.deny('out/a.xvg', PermissionError)
    want = []
    for q in use:
        vals = maps[q]
        row = []
        for label in labels:
            keep = sub
            if cutoff_label in LABELS and label != 'slip_length':
                w = [vals[cutoff_label][c] for c in sub]
                lim = cut if cut is not None else (env.max(w) + env.min(w)) / 2
                keep = [c for c in sub if env.fork(vals[cutoff_label][c] >= lim)]
                if not keep and not total:
                    env.assume(False)
            if label == 'slip_length':
                each = []
                cols = sorted(set(i for i, _ in sub))
                for i in cols:
                    rows = [c for c in sub if c[0] == i]
                    u = [vals['U'][c] for c in rows]
                    y = [y0 + dy * (j + env.lit('0.5')) for _, j in rows]
                    n = len(rows)
                    mu_, my = env.sum(u) / n, env.sum(y) / n
                    slope = env.sum([(a - mu_) * (b - my) for a, b in zip(u, y)]) / env.sum([(a - mu_) * (a - mu_) for a in u])
                    each.append(floor - my + slope * mu_)
                row.append((label, each, False))
            elif label == 'flow_angle':
                row.append((label, [(vals['U'][c] * vals['M'][c], vals['V'][c] * vals['M'][c]) for c in keep], None))
            else:
                row.append((label, [sample(env, vals, label, c, sub, dx, dy, mu) for c in keep], total))
        want.append(row)
    got = m.sample_average_files('in/f', list(labels), **kw)
    env.check(got is not None and len(got) == 2, 'times and values')
    times, samples = got
    env.check(len(times) == len(use), 'a time for every map')
    for k in range(min(len(times), len(use))):
        env.check_eq(times[k], step * k, 'time of the map')
    env.check(len(samples) == len(labels), 'values for every label')
    expect = []
    for k in range(len(use)):
        line = [step * k]
        for b, (label, q, tot) in enumerate(want[k]):
            env.check(len(samples[b]) == len(use), 'a value for every map')
            v = samples[b][k]
            n = len(q)
            if label == 'flow_angle':
                # the unit vector of the angle is along the mass flow
                su, sv = env.sum([a for a, _ in q]), env.sum([b_ for _, b_ in q])
                want_angle = env.np.degrees(env.np.arctan2(sv, su))
                env.check_eq(v, want_angle, 'angle of the mass flow')
                line.append(v)
            elif tot:
                env.check_eq(v, env.sum(q) if q else 0, 'sum of ' + label)
                line.append(v)
            else:
                mean = env.sum(q) / n
                env.check_eq(v, mean, 'mean of ' + label)
                line += [v, env.sum([(x - mean) * (x - mean) for x in q]) / n]
        expect.append(line)
    for p in before:
        env.check(env.read_raw(p) == before[p], 'inputs are left alone')
    new = [p for p in env.listing() if p not in before]
    if not output or deny:
        env.check(new == [], 'no output is written')
        return
    env.check(new == ['out/a.xvg'], 'the output is written')
    rows = env.read_text_table('out/a.xvg')
    env.check(len(rows) == len(use), 'a row for every map')
    for row, line in zip(rows, expect):
        env.check(len(row) == len(line), 'time, values and deviations')
        if len(row) != len(line):
            continue
        env.check_eq(row[0], line[0], 'saved time', tol='0.00051')
        pos = 1
        for label, q, tot in want[0]:
            env.check(env.abs(row[pos] - line[pos]) <= env.abs(line[pos]) * env.lit('1e-5') + env.lit('1e-5'), 'saved ' + label)
            pos += 1
            if label != 'flow_angle' and not tot:
                # squares of the deviation
                d = row[pos]
                env.check(env.and_(d >= 0, env.abs(d * d - line[pos]) <= line[pos] * env.lit('3e-5') + env.lit('1e-5')),
                          'saved deviation of ' + label)
                pos += 1
    head = [l for l in env.text('out/a.xvg').splitlines() if l.startswith('#')]
    env.check('#   Delta-t: %s' % env.fmt('%r', kw.get('dt', 1.)) in head, 'the header reports the time step')


def sample(env, vals, label, c, sub, dx, dy, mu):
    i, j = c
    if label == 'inertial_energy':
        return (vals['U'][c] * vals['U'][c] + vals['V'][c] * vals['V'][c]) * vals['M'][c] / 2
    if label != 'visc_diss':
        return vals[label][c]
    xs, ys = sorted(set(a for a, _ in sub)), sorted(set(b for _, b in sub))
    d = {}
    for l in 'UV':
        d[l + 'x'] = derivative(env, lambda k: vals[l][(xs[k], j)], xs.index(i), len(xs), dx, 2)
        d[l + 'y'] = derivative(env, lambda k: vals[l][(i, ys[k])], ys.index(j), len(ys), dy, 2)
    div, sh = d['Ux'] + d['Vy'], d['Vx'] + d['Uy']
    return 2 * mu * (d['Ux'] * d['Ux'] + d['Vy'] * d['Vy']) - 2 * mu * div * div / 3 + mu * sh * sh


def bad(env, labels, **kw):
    """labels which are not in the maps end the sampling without a result"""
    vals = dict((l, {(i, j): env.const(1 + i + 2 * j) for i in range(2) for j in range(2)}) for l in LABELS)
    write_map(env, 'in/f00001.dat', 2, 2, ('1', '1'), ('0', '0'), vals)
    got = env.mod('strata.sample_average').sample_average_files('in/f', labels, quiet=True, verbose=False, **kw)
    env.check(got is None, 'nothing is returned')


def configs(tier):
    out = [Config('value', value, dict(n=3)), Config('value-one', value, dict(n=1)),
           Config('value-sum', value, dict(n=3, total=True)),
           Config('value-cut', value, dict(n=3, label='N', cutoff='value', cutoff_label='M')),
           Config('value-mid', value, dict(n=3, cutoff_label='M')),
           Config('value-mid-sum', value, dict(n=2, cutoff_label='M', total=True)),
           Config('value-mid-signed', value, dict(n=3, cutoff_label='U')),
           Config('value-cut-signed', value, dict(n=2, cutoff='value', cutoff_label='V', total=True)),
           Config('value-own', value, dict(n=3, label='M', cutoff='value', cutoff_label='M')),
           Config('value-nolabel', value, dict(n=2, cutoff='value')),
           Config('value-missing', value, dict(n=2, cutoff='value', cutoff_label='none')),
           Config('value-missing-mid', value, dict(n=2, cutoff_label='none', total=True)),
           Config('energy', value, dict(n=2, label='inertial_energy')),
           Config('energy-cut', value, dict(n=2, label='inertial_energy', cutoff='value', cutoff_label='M', total=True)),
           Config('angle', angle, dict(n=2)), Config('angle-cut', angle, dict(n=3, cutoff=True)),
           Config('slip-1', slip, dict(heights=(3,))), Config('slip-2', slip, dict(heights=(2, 2))),
           Config('slip-3', slip, dict(heights=(3, 3, 3), spacing='0.3')),
           Config('slip-fit', slip, dict(heights=(3,), fixed=False))]
    corners = [(0, 1), (2, 0), (1, 1)]
    out += [Config('files', files, dict(count=2, nx=2, ny=2, labels=('T',), free='T', only=[(0, 0), (1, 0)], opts=('dt',))),
            Config('files-two', files, dict(count=2, nx=2, ny=2, labels=('U', 'M'), free='U', only=[(0, 1)], cutoff_label='M', cut=True)),
            Config('files-sum', files, dict(count=2, nx=2, ny=1, labels=('N', 'T'), free='T', total=True, opts=('dt',))),
            Config('files-mid', files, dict(count=1, nx=2, ny=2, labels=('T',), free='M', cutoff_label='M', only=[(0, 1), (1, 0)])),
            Config('files-begin', files, dict(count=4, nx=2, ny=1, labels=('M',), free='M', begin=2, end=3, only=[(0, 0)])),
            Config('files-lims', files, dict(count=1, nx=3, ny=3, labels=('V',), free='V', only=[(0, 0), (1, 1), (2, 0), (1, 2)], lims=(1, 3, None, 2))),
            Config('files-xlim', files, dict(count=1, nx=3, ny=2, labels=('T',), free='T', only=[(0, 0), (1, 1)], lims=(None, 2, None, None))),
            Config('files-ylim', files, dict(count=1, nx=2, ny=3, labels=('T',), free='T', only=[(0, 0), (1, 2)], lims=(None, None, 1, None))),
            Config('files-empty', files, dict(count=1, nx=2, ny=2, labels=('M', 'T'), free='T', only=[(0, 0), (1, 1)], empty=(1, 0))),
            Config('files-simple', files, dict(count=2, nx=2, ny=2, labels=('T', 'N'), free='T', only=[(0, 1)], simple=True)),
            Config('files-energy', files, dict(count=1, nx=2, ny=2, labels=('inertial_energy', 'U'), free='M', only=[(0, 1), (1, 1)])),
            Config('files-visc', files, dict(count=1, nx=3, ny=3, labels=('visc_diss',), free='M', only=corners, opts=('viscosity',),
                                             cutoff_label='M', cut=True, total=True)),
            Config('files-visc-lims', files, dict(count=1, nx=4, ny=4, labels=('visc_diss',), free='U', only=[(2, 1)],
                                                  lims=(1, None, 0, 3), total=True)),
            Config('files-visc-slip', files, dict(count=1, nx=3, ny=4, labels=('visc_diss', 'slip_length'), free='M', only=[],
                                                  opts=('floor',), output=False)),
            Config('files-slip', files, dict(count=2, nx=2, ny=3, labels=('slip_length', 'M'), free='M', only=[(0, 0)], opts=('floor',))),
            Config('files-slip-lims', files, dict(count=1, nx=3, ny=4, labels=('slip_length',), free='M', only=[], lims=(0, 2, 1, None))),
            Config('files-angle', files, dict(count=2, nx=2, ny=2, labels=('flow_angle', 'T'), free='M', only=[(0, 1), (1, 1)],
                                              cutoff_label='M', cut=True)),
            Config('files-denied', files, dict(count=1, nx=2, ny=1, labels=('M',), free='M', deny=True)),
            Config('files-noout', files, dict(count=2, nx=2, ny=1, labels=('M',), free='M', output=False)),
            Config('files-missing-cut', files, dict(count=1, nx=2, ny=1, labels=('M',), free='M', cutoff_label='none')),
            Config('bad', bad, dict(labels=['none'])), Config('bad-second', bad, dict(labels=['M', 'none'])),
            Config('bad-angle', bad, dict(labels=['flow_angle'], sum=True))]
    if tier == 'thorough':
        out += [Config('value-wide', value, dict(n=5, cutoff_label='M')),
                Config('value-cut-wide', value, dict(n=5, cutoff='value', cutoff_label='M')),
                Config('angle-wide', angle, dict(n=4, cutoff=True)),
                Config('slip-4', slip, dict(heights=(4, 4, 4, 4), spacing='0.7')),
                Config('files-long', files, dict(count=4, nx=3, ny=2, labels=('T', 'M'), free='M', cutoff_label='M', cut=True,
                                                 only=[(0, 0), (2, 1)], opts=('dt',))),
                Config('files-visc-wide', files, dict(count=2, nx=4, ny=3, labels=('visc_diss', 'T'), free='M', only=corners,
                                                      opts=('viscosity',), cutoff_label='M', cut=True))]
    return again(out, 'value-one', ('value', 'value-cut'), ('value-mid', 'value-sum'), ('angle', 'angle-cut'), ('files', 'files-sum'), ('files', 'files-lims'), ('files-visc', 'files-slip'),
                 ('files-mid', 'files-mid'))
