"""C20: contact lines extracted and sampled from files."""
import contextlib

from symx.runner import Config, again

ID = 'C20'
IMPORTS = ('strata.contact_line_analysis', 'strata.dataformats.write', 'strata.dataformats.read')
BOUNDS = ('1..4 gmx maps of up to 8x3 bins with droplets of given outlines, mass, numbers, temperature and flow of bins next to '
          'the contact lines symbolic; fused edges and combined maps of 1..3 bins per edge with every value symbolic')
OUTSIDE = ('groups of maps none of which has a droplet; larger maps; the position of averaged edges within the bin they fall in; rounding of coordinates by more than 0.000001; '
           'bins which only one of two overlapping edges has filled are not averaged with the empty bin of the other')
LABELS = ('M', 'N', 'T', 'U', 'V')


def number(k, top=11):
    return 1 + (k * 7 + 3) % top


def write_maps(env, frames, nx, ny, spacing, origin, sym, mlow=20, ext='.dat'):
    """frames: per map {row: (first, last)} of the droplet; sym(q, i, j): labels which are symbolic in this bin"""
    write = env.mod('strata.dataformats.write').write
    dx, dy = (env.const(s) for s in spacing)
    x0, y0 = (env.const(s) for s in origin)
    half = env.lit('0.5')
    maps = []
    for q, rows in enumerate(frames):
        vals = {}
        for i in range(nx):
            for j in range(ny):
                filled = j in rows and rows[j][0] <= i <= rows[j][1]
                s = sym(q, i, j)
                n = i * 5 + j * 3 + q * 2
                v = {'M': env.const(20 + number(n)) if filled else env.const(number(n + 1, 4)),
                     'N': env.const(number(n + 4)), 'T': env.const(number(n + 2)), 'U': env.const(number(n, 7) - 4),
                     'V': env.const(number(n + 1, 9) - 5)}
                for l in s:
                    lo, hi = {'M': (mlow, 40) if filled else (0, 4), 'N': (1, 10)}.get(l, (-10, 10))
                    v[l] = env.real('%s%d_%d_%d' % (l, q, i, j), lo, hi)
                vals[(i, j)] = v
        maps.append(vals)
        cells = [(i, j) for i in range(nx) for j in range(ny)]
        data = dict([('X', env.arr([x0 + dx * (i + half) for i, j in cells])),
                     ('Y', env.arr([y0 + dy * (j + half) for i, j in cells]))]
                    + [(l, env.arr([vals[c][l] for c in cells])) for l in LABELS])
        write('in/f%05d%s' % (q + 1, ext), data, {'shape': (nx, ny), 'spacing': (dx, dy), 'origin': (x0, y0),
                                                 'num_bins': nx * ny})
    return maps


def regions(rows, nx, area, eheight, floor):
    """the bins of both edges: (columns, rows) or None"""
    js = [j for j in sorted(rows) if floor is None or j >= floor]
    if not js:
        return None
    js = [j for j in js if j - js[0] <= area[1]]
    k = 0
    while k + 1 < len(js) and js[k + 1] - js[0] <= eheight:
        k += 1
    out = []
    for side in (0, 1):
        ends = [rows[j][side] for j in js]
        inner = ends[k] + area[0] * (1 - 2 * side)
        lo, hi = max(min(ends + [inner]), 0), min(max(ends + [inner]), nx - 1)
        out.append((lo, hi, js[0], js[-1]))
    return out


def averaged(env, maps, group, found, side):
    """{(column, row) relative to the innermost bottom bin: values}, exact means of the bins"""
    rel, count = {}, 0
    for q in group:
        if found[q] is None:
            continue
        count += 1
        lo, hi, j0, j1 = found[q][side]
        ref = hi if side == 0 else lo
        for i in range(lo, hi + 1):
            for j in range(j0, j1 + 1):
                rel.setdefault((i - ref, j - j0), []).append(maps[q][(i, j)])
    out = {}
    for c, vs in rel.items():
        m, n = env.sum([v['M'] for v in vs]), env.sum([v['N'] for v in vs])
        # sums over the maps: quotients are only taken where they are compared
        out[c] = {'M': m / count, 'N': n / count,
                  'U': env.sum([v['U'] * v['M'] for v in vs]) / m if len(vs) > 1 else vs[0]['U'],
                  'V': env.sum([v['V'] * v['M'] for v in vs]) / m if len(vs) > 1 else vs[0]['V'],
                  'T': env.sum([v['T'] * v['N'] for v in vs]) / n if len(vs) > 1 else vs[0]['T']}
    return out


def position(env, found, group, side, spacing, origin):
    """mean distance of the innermost bin from zero, in bins (a fraction)"""
    dx, x0 = env.frac(spacing[0]), env.frac(origin[0])
    at = [((found[q][side][1 - side] + env.frac('0.5')) * dx + x0) / dx for q in group if found[q] is not None]
    return sum(at) / len(at)


def groups_of(use, average, rolling):
    if rolling:
        return [use[k:k + average] for k in range(len(use) - average + 1)]
    return [use[k:k + average] for k in range(0, len(use) - average + 1, average)]


@contextlib.contextmanager
def inexact(env, noise, nx, ny):
    """coordinates of the maps which are read are off by a little, column by column"""
    if not noise or not hasattr(env.mod("strata.contact_line_analysis"), "read_data_file"):
        yield
        return
    m = env.mod('strata.contact_line_analysis')
    real = m.read_data_file
    off = [env.real('off%d' % i, '-' + noise, noise) for i in range(nx)]

    def read(*args, **kwargs):
        data, *rest = real(*args, **kwargs)
        data['X'] = data['X'] + env.arr([off[i] for i in range(nx) for j in range(ny)])
        return (data,) + tuple(rest)
    m.read_data_file = read
    try:
        yield
    finally:
        m.read_data_file = real


def options(env, area, eheight, floor, spacing, origin):
    dx, dy = (env.frac(s) for s in spacing)
    kw = {'quiet': True, 'cutoff': env.const(15), 'cutoff_bins': 1, 'cutoff_radius': env.const(max(dx, dy) * env.frac('1.1')),
          'extract_area': (env.const((area[0] + env.frac('0.1')) * dx), env.const((area[1] + env.frac('0.1')) * dy))}
    if eheight:
        kw['extract_height'] = env.const((eheight + env.frac('0.1')) * dy)
    if floor is not None:
        kw['floor'] = env.const(env.frac(origin[1]) + floor * dy)
    return kw


def extract(env, frames, nx=7, ny=2, spacing=('0.25', '0.5'), origin=('1', '-2'), area=(1, 1), eheight=0, average=1,
            rolling=False, recenter=False, fuse=False, floor=None, begin=None, end=None, sym=(), labels=('M', 'U', 'T'), quiet=True, ext=None,
            noise=None):
    """sym: (side, column, row) relative to the innermost bottom bin of each map"""
    env.exact_f32()
    read = env.mod('strata.dataformats.read').read_data_file
    found = [regions(rows, nx, area, eheight, floor) for rows in frames]

    def symbolic(q, i, j):
        if found[q] is None:
            return ()
        return labels if any((i, j) == (found[q][s][1 - s] + a, found[q][s][2] + b) for s, a, b in sym) else ()
    maps = write_maps(env, frames, nx, ny, spacing, origin, symbolic, ext=ext or '.dat')
    before = dict((p, env.read_raw(p)) for p in env.listing())
    kw = options(env, area, eheight, floor, spacing, origin)
    kw['quiet'] = quiet
    if average > 1 or rolling:
        kw['average'] = average
    for k, v in (('rolling', rolling), ('recenter', recenter), ('fuse', fuse), ('begin', begin), ('end', end), ('ext', ext)):
        if v:
            kw[k] = v
    with inexact(env, noise, nx, ny):
        env.mod('strata.contact_line_analysis').extract_contact_line_bins('in/f', 'out/c', **kw)
    use = list(range((begin or 1) - 1, min(end or len(frames), len(frames))))
    groups = groups_of(use, average, rolling)
    for p in before:
        env.check(env.read_raw(p) == before[p], 'inputs are left alone')
    names = ['out/c%05d%s' % (k + (begin or 1), ext or '.dat') for k in range(len(groups))]
    env.check(env.listing() == sorted(list(before) + names), 'a map for every group')
    dx, dy = (env.frac(s) for s in spacing)
    for name, group in zip(names, groups):
        edges = [averaged(env, maps, group, found, s) for s in (0, 1)]
        at = [position(env, found, group, s, spacing, origin) for s in (0, 1)]
        if recenter:
            d = (at[1] - at[0]) / 2
            at = [-d, d]
        if fuse:
            at = None
        data, info, _ = read(name)
        env.check_eq(info['spacing'][0], env.const(dx), 'spacing')
        env.check_eq(info['spacing'][1], env.const(dy), 'spacing')
        got = {}
        for k in range(len(data['X'])):
            # bins on a grid of whole numbers
            bx, by = env.num(data['X'][k]) / env.const(dx), env.num(data['Y'][k]) / env.const(dy)
            found_at = None
            for i in range(-4 * nx, 4 * nx):
                shift = env.frac(i) + (env.frac('0.5') if not fuse else env.frac('0.5'))
                if env.fork(env.abs(bx - env.const(shift)) < env.lit('0.01')):
                    found_at = i
                    break
            row = None
            for j in range(-1, ny + 1):
                if env.fork(env.abs(by - env.const(env.frac(j) + env.frac('0.5'))) < env.lit('0.01')):
                    row = j
                    break
            env.check(found_at is not None and row is not None, 'the bins lie on the grid')
            got[(found_at, row)] = dict((l, data[l][k]) for l in LABELS)
        if fuse:
            refs = [(-1, 0)]
            # the outermost bins next to each other
            right0 = min(a for a, _ in edges[1])
            refs = [(-1 - max(a for a, _ in edges[0]), -right0)]
        else:
            refs = []
            for kl in near(at[0]):
                for kr in near(at[1]):
                    # whole numbers of bins between the edges stay as they are
                    if at[1] - at[0] not in range(-nx, nx + 1) or kr - kl == at[1] - at[0]:
                        refs.append((kl, kr))
        # which of the grid positions has been chosen, when the mean lies between two
        alts = []
        for kl, kr in refs:
            want = combined(env, edges, (kl, kr))
            alts.append((kl, kr, want))
        ok = [w for w in alts if set(w[2]) <= set(got)
              and all(c in w[2] or not filled(env, got[c]) for c in got)]
        env.check(len(ok) > 0, 'exactly the bins of the contact lines, where they are')
        if not ok:
            continue
        want = ok[0][2]
        for c, v in want.items():
            for l in LABELS:
                env.check_eq(got[c][l], v[l], 'value of the bin: ' + l, tol='1e-3')


def near(x):
    """grid columns whose bin holds x, in bins; two at a boundary"""
    k = x.numerator // x.denominator
    return [k] if x != k else [k, k - 1]


def filled(env, v):
    return env.fork(env.num(v['M']) != 0)


def combined(env, edges, refs):
    out = {}
    for s in (0, 1):
        for (a, b), v in edges[s].items():
            out.setdefault((refs[s] + a, b), []).append(v)
    res = {}
    for c, vs in out.items():
        if len(vs) == 1:
            res[c] = vs[0]
        else:
            l, r = vs
            m, n = l['M'] + r['M'], l['N'] + r['N']
            res[c] = {'M': m / 2, 'N': n / 2, 'U': (l['U'] * l['M'] + r['U'] * r['M']) / m,
                      'V': (l['V'] * l['M'] + r['V'] * r['M']) / m, 'T': (l['T'] * l['N'] + r['T'] * r['N']) / n}
    return res


def combine(env, left, right, ny=1, spacing=('0.5', '0.25'), free=('M', 'N', 'T', 'U', 'V'), zero=False):
    """left, right: (first column, number of columns); every value symbolic, zero values included"""
    m = env.mod('strata.contact_line_analysis')
    FlowData = env.mod('droplets.flow').FlowData
    dx, dy = (env.const(s) for s in spacing)
    half = env.lit('0.5')
    flows, vals = [], []
    for s, (c0, n) in enumerate((left, right)):
        cells = [(c0 + i, j) for j in range(ny) for i in range(n)]
        v = dict((c, dict((l, env.real('%s%s_%d_%d' % (l, 'lr'[s], c[0] - c0, c[1]), '0.001' if l in 'MN' and not zero else
                                       (0 if l in 'MN' else -100), 100)) for l in LABELS)) for c in cells)
        if zero:
            # an empty bin holds nothing
            for c in cells:
                if not env.fork(env.or_(v[c]['M'] != 0, v[c]['N'] != 0)):
                    v[c] = dict((l, env.const(0)) for l in LABELS)
                else:
                    env.assume(env.and_(v[c]['M'] > env.lit('0.001'), v[c]['N'] > env.lit('0.001')))
        vals.append(v)
        flows.append(FlowData(('X', env.arr([dx * (i + half) for i, j in cells])), ('Y', env.arr([dy * (j + half) for i, j in cells])),
                              *[(l, env.arr([v[c][l] for c in cells])) for l in LABELS],
                              info={'shape': (n, ny), 'spacing': (dx, dy), 'num_bins': n * ny}))
    got = m.combine_flow_data(flows, (dx, dy))
    lo, hi = min(left[0], right[0]), max(sum(left), sum(right))
    order = [(i, j) for i in range(lo, hi) for j in range(ny)]
    env.check(tuple(got.shape) == (hi - lo, ny), 'shape of the combined map')
    env.check(len(got.data['X']) == len(order), 'bins of the combined map')
    if len(got.data['X']) != len(order):
        return
    for k, c in enumerate(order):
        vs = [v[c] for v in vals if c in v and not (zero and is_empty(env, v[c]))]
        for l in LABELS:
            x = got.data[l][k]
            if not vs:
                env.check_eq(x, 0, 'bins outside of the edges are empty')
            elif len(vs) == 1:
                env.check_eq(x, vs[0][l], 'bins of one edge are kept: ' + l)
            elif l in 'MN':
                env.check_eq(2 * x, vs[0][l] + vs[1][l], 'shared bins hold the mean: ' + l)
            else:
                w = 'N' if l == 'T' else 'M'
                env.check_eq(x * (vs[0][w] + vs[1][w]), vs[0][l] * vs[0][w] + vs[1][l] * vs[1][w],
                             'shared bins hold the weighted mean: ' + l)
    for s in (0, 1):
        for k, c in enumerate(vals[s]):
            for l in LABELS:
                env.check_eq(flows[s].data[l][k], vals[s][c][l], 'the edges are left alone')


def is_empty(env, v):
    return not env.fork(env.num(v['M']) != 0)


def fuse(env, n, ny=1):
    m = env.mod('strata.contact_line_analysis')
    FlowData = env.mod('droplets.flow').FlowData
    dx = env.real('dx', '0.01', 10)
    edges, xs = [], []
    for s in (0, 1):
        x = env.reals('X%s' % 'lr'[s], n, -100, 100)
        xs.append(x)
        edges.append(FlowData(('X', env.arr(x)), ('Y', env.arr([env.const(0)] * n)), ('M', env.arr([env.const(1)] * n))))
    m.fuse_edges(edges, (dx, env.const(1)))
    l, r = env.max(xs[0]), env.min(xs[1])
    for k in range(n):
        env.check_eq(edges[0].data['X'][k], xs[0][k] - l - dx / 2, 'the left edge ends half a bin left of zero')
        env.check_eq(edges[1].data['X'][k], xs[1][k] - r + dx / 2, 'the right edge begins half a bin right of zero')


def sampled(env, frames, labels, nx=7, ny=2, spacing=('0.25', '0.5'), origin=('1', '-2'), area=(1, 1), eheight=0, average=1,
            rolling=False, recenter=False, floor=None, begin=None, end=None, sym=(), free=('M',), total=False, cutoff=15, dt=True,
            save=True, deny=False, mlow=20, default=False, ext=None):
    env.exact_f32()
    found = [regions(rows, nx, area, eheight, floor) for rows in frames]

    def symbolic(q, i, j):
        if found[q] is None:
            return ()
        return free if any((i, j) == (found[q][s][1 - s] + a, found[q][s][2] + b) for s, a, b in sym) else ()
    maps = write_maps(env, frames, nx, ny, spacing, origin, symbolic, mlow, ext or '.dat')
    before = dict((p, env.read_raw(p)) for p in env.listing())
    kw = options(env, area, eheight, floor, spacing, origin)
    if default:
        kw.pop('extract_area')
    kw['cutoff'] = env.const(cutoff)
    step = env.const(1)
    if dt:
        step = kw['dt'] = env.real('dt', '0.01', 10)
    for k, v in (('average', average if average > 1 else 0), ('rolling', rolling), ('recenter', recenter), ('begin', begin),
                 ('end', end), ('ext', ext), ('sum', total), ('save', 'out/a.xvg' if save else None)):
        if v:
            kw[k] = v
    if deny:
        env.deny('out/a.xvg', PermissionError)
    times, samples = env.mod('strata.contact_line_analysis').sample_contact_line_edges('in/f', list(labels), **kw)
    for p in before:
        env.check(env.read_raw(p) == before[p], 'inputs are left alone')
    use = list(range((begin or 1) - 1, min(end or len(frames), len(frames))))
    groups = groups_of(use, average, rolling)
    env.check(len(times) == len(groups), 'a time for every group')
    env.check(len(samples) == len(labels) and all(len(s) == len(groups) for s in samples), 'a sample for every label and group')
    if len(times) != len(groups) or any(len(s) != len(groups) for s in samples):
        return
    expect = []
    for k, group in enumerate(groups):
        mid = average // 2 + (k if rolling else k * average)
        env.check_eq(times[k], step * mid, 'time of the middle of the group')
        line = [step * mid]
        for b, label in enumerate(labels):
            per, dev = [], []
            for s in (0, 1):
                cells = averaged(env, maps, group, found, s)
                keep = [c for c in sorted(cells) if env.fork(cells[c]['M'] >= cutoff)]
                if label == 'inertial_energy':
                    q = [(cells[c]['U'] * cells[c]['U'] + cells[c]['V'] * cells[c]['V']) * cells[c]['M'] / 2 for c in keep]
                else:
                    # velocities are radial: the left edge is mirrored
                    q = [cells[c][label] * (-1 if label == 'U' and s == 0 else 1) for c in keep]
                if not q and not total:
                    env.assume(False)
                t = env.sum(q) if q else env.const(0)
                per.append(t if total else t / len(q))
                if not total:
                    dev.append(env.sum([(v - per[-1]) * (v - per[-1]) for v in q]) / len(q))
            std = samples[b][k][1]
            if total:
                env.check(std is None, 'a sum has no deviation')
            elif not sym:
                # twice the mean is the sum of two roots
                d = 4 * std * std - dev[0] - dev[1]
                env.check(env.and_(std >= 0, d >= -env.lit('1e-6')), 'mean deviation of both edges: ' + label)
                env.check_eq(d * d, 4 * dev[0] * dev[1], 'mean deviation of both edges: ' + label, tol='1e-4')
            want = per[0] + per[1] if total else (per[0] + per[1]) / 2
            env.check_eq(samples[b][k][0], want, ('sum' if total else 'mean') + ' over both edges: ' + label, tol='1e-4')
            line.append(want)
        expect.append(line)
    new = [p for p in env.listing() if p not in before]
    if not save or deny:
        env.check(new == [], 'no output is written')
        return
    env.check(new == ['out/a.xvg'], 'the output is written')
    rows = env.read_text_table('out/a.xvg')
    env.check(len(rows) == len(expect), 'a row for every group')
    for row, line in zip(rows, expect):
        env.check(len(row) == len(line), 'a column for every label')
        for c, (a, b) in enumerate(zip(row, line)):
            env.check(env.abs(a - b) <= env.abs(b) * env.lit('1e-5') + env.lit('0.00051' if c == 0 else '1e-4'), 'saved values')
    head = [l for l in env.text('out/a.xvg').splitlines() if l.startswith('#')]
    env.check('#   Delta-t: %s' % env.fmt('%r', kw.get('dt', 1.)) in head, 'the header reports the time step')


def configs(tier):
    # outlines of droplets
    cap = {0: (1, 5), 1: (2, 4)}
    moved = {0: (2, 5), 1: (2, 4)}
    wide = {0: (0, 6), 1: (1, 5)}
    flat = {0: (1, 5)}
    narrow = {0: (2, 4), 1: (2, 3)}
    over = {0: (2, 4), 1: (1, 5)}
    one = ((0, 0, 0), (1, 0, 0))
    up = ((0, 0, 0), (1, 0, 1))
    out = [Config('extract', extract, dict(frames=[cap], sym=one)),
           Config('extract-two', extract, dict(frames=[cap, moved], sym=one)),
           Config('extract-origin', extract, dict(frames=[cap], sym=one, origin=('-0.875', '0'))),
           Config('extract-off', extract, dict(frames=[cap], sym=one, origin=('0.1875', '0.1'))),
           Config('extract-fine', extract, dict(frames=[cap], sym=one, spacing=('1', '0.25'))),
           Config('extract-coarse', extract, dict(frames=[cap], sym=up, spacing=('0.25', '2'))),
           Config('extract-row', extract, dict(frames=[flat], ny=1, area=(0, 0), sym=one)),
           Config('extract-bottom', extract, dict(frames=[cap, wide], area=(2, 0), sym=one)),
           Config('extract-height', extract, dict(frames=[over], area=(0, 1), eheight=1, sym=one)),
           Config('extract-floor', extract, dict(frames=[{0: (0, 6), 1: (1, 5), 2: (2, 4)}], ny=3, floor=1, sym=one)),
           Config('extract-floor-zero', extract, dict(frames=[{0: (0, 6), 1: (1, 5), 2: (2, 4)}], ny=3, floor=1, sym=one, origin=('1', '-0.5'))),
           Config('extract-overlap', extract, dict(frames=[narrow], area=(2, 0), sym=one)),
           Config('extract-begin', extract, dict(frames=[cap, moved, wide], begin=2, sym=one)),
           Config('extract-average', extract, dict(frames=[cap, moved], average=2, sym=one)),
           Config('extract-average-zero', extract, dict(frames=[cap, moved], average=2, origin=('-0.625', '0'), area=(1, 0))),
           Config('extract-average-rest', extract, dict(frames=[cap, moved, wide], average=2, area=(1, 0), sym=one)),
           Config('extract-rolling', extract, dict(frames=[cap, moved, wide], average=2, rolling=True, area=(1, 0), sym=one)),
           Config('extract-empty', extract, dict(frames=[cap, {}], average=2, sym=one)),
           Config('extract-empty-first', extract, dict(frames=[{}, moved, cap], average=3, area=(0, 1), sym=one)),
           Config('extract-recenter', extract, dict(frames=[cap, moved], recenter=True, sym=one)),
           Config('extract-recenter-overlap', extract, dict(frames=[narrow], area=(2, 1), recenter=True, sym=one)),
           Config('extract-noise', extract, dict(frames=[cap], area=(0, 1), noise='0.000001')),
           Config('extract-noise-origin', extract, dict(frames=[cap], area=(0, 1), origin=('-0.875', '0'), noise='0.000001')),
           Config('extract-recenter-noise', extract, dict(frames=[cap], area=(0, 1), recenter=True, noise='0.000001')),
           Config('extract-recenter-noise-2', extract, dict(frames=[cap, moved], area=(1, 0), average=2, recenter=True, noise='0.000001')),
           Config('extract-fuse', extract, dict(frames=[cap, moved], fuse=True, sym=one)),
           Config('extract-fuse-average', extract, dict(frames=[cap, moved], fuse=True, average=2, area=(2, 1), sym=one)),
           Config('extract-empty-rolling', extract, dict(frames=[{}, moved, {}, cap], average=2, rolling=True, area=(1, 0), sym=one)),
           Config('extract-ext', extract, dict(frames=[cap, moved, wide], average=2, rolling=True, area=(1, 0), sym=one, ext='.map')),
           Config('extract-loud', extract, dict(frames=[cap, moved], average=2, quiet=False))]
    out += [Config('combine-apart', combine, dict(left=(0, 2), right=(3, 1))),
            Config('combine-shared', combine, dict(left=(0, 2), right=(1, 2))),
            Config('combine-inside', combine, dict(left=(-2, 3), right=(-1, 1), ny=2)),
            Config('combine-zero', combine, dict(left=(0, 2), right=(1, 1), zero=True)),
            Config('fuse-2', fuse, dict(n=2)), Config('fuse-3', fuse, dict(n=3))]
    out += [Config('sample', sampled, dict(frames=[cap, moved], labels=('M',), sym=one)),
            Config('sample-floor-zero', sampled, dict(frames=[{0: (0, 6), 1: (1, 5), 2: (2, 4)}], ny=3, floor=1, labels=('M',), sym=one, origin=('1', '-0.5'))),
            Config('sample-deviation', sampled, dict(frames=[cap, moved], labels=('M', 'T', 'U'))),
            Config('sample-default', sampled, dict(frames=[cap], labels=('T', 'U'), sym=one, free=('T', 'U'), default=True, area=(0, 0), dt=False)),
            Config('sample-radial', sampled, dict(frames=[cap, moved], labels=('U', 'V'), sym=one, free=('U', 'V'))),
            Config('sample-cut', sampled, dict(frames=[cap], labels=('T', 'M'), sym=one, free=('M', 'T'), mlow=5)),
            Config('sample-average', sampled, dict(frames=[cap, moved, wide], labels=('U',), average=2, sym=one, free=('M',), area=(1, 0))),
            Config('sample-rolling', sampled, dict(frames=[cap, moved, wide], labels=('M',), average=2, rolling=True, sym=one)),
            Config('sample-sum', sampled, dict(frames=[cap, moved], labels=('M', 'N'), total=True, sym=one)),
            Config('sample-rolling-3', sampled, dict(frames=[cap, moved, wide, cap], labels=('V',), average=3, rolling=True, sym=one,
                                                     free=('V',), area=(1, 0), ext='.map')),
            Config('sample-average-3', sampled, dict(frames=[cap, moved, wide, cap, wide, cap, moved], labels=('T',), average=3, sym=one,
                                                     free=('T',), area=(1, 0))),
            Config('sample-empty', sampled, dict(frames=[{}, moved, {}, cap], labels=('N', 'U'), average=2, rolling=True, sym=one,
                                                 free=('U',), area=(1, 0))),
            Config('sample-sum-T', sampled, dict(frames=[cap], labels=('U', 'T', 'V'), total=True, sym=one, free=('U', 'T'))),
            Config('sample-energy', sampled, dict(frames=[cap], labels=('inertial_energy',), total=True, sym=one, area=(0, 1))),
            Config('sample-begin', sampled, dict(frames=[cap, moved, wide], labels=('M',), begin=2, sym=one, area=(0, 0), recenter=True)),
            Config('sample-denied', sampled, dict(frames=[cap], labels=('M',), sym=one, deny=True)),
            Config('sample-nosave', sampled, dict(frames=[cap], labels=('M',), sym=one, save=False))]
    if tier == 'thorough':
        out += [Config('extract-long', extract, dict(frames=[cap, moved, wide, narrow], average=2, rolling=True, sym=up)),
                Config('extract-tall', extract, dict(frames=[{0: (2, 6), 1: (1, 7), 2: (2, 5)}, {0: (1, 6), 1: (1, 6), 2: (3, 4)}], nx=9, ny=3,
                                                     area=(2, 2), eheight=1, average=2, sym=up)),
                Config('combine-wide', combine, dict(left=(0, 3), right=(1, 3), ny=2)),
                Config('combine-zero-wide', combine, dict(left=(0, 2), right=(0, 2), zero=True)),
                Config('sample-long', sampled, dict(frames=[cap, moved, wide, cap], labels=('U', 'T'), average=3, rolling=True, sym=one,
                                                    free=('M', 'N'), area=(1, 0)))]
    return again(out, 'extract', ('extract', 'extract-recenter'), ('extract', 'extract-average'), ('combine-apart', 'combine-shared'), ('sample-default', 'sample-sum'), 'sample-default')
