"""C08: droplet edges are followed over the periodic boundary."""
from symx.runner import Config, again

ID = 'C08'
IMPORTS = ('strata.spreading.collect', 'strata.interface.collect')
BOUNDS = ('histories of 2..4 (quick) / 6 (thorough) frames with symbolic true positions of both edges, symbolic box width and '
          'origin; interfaces of 1..4 layers per frame which appear and disappear at top and bottom, each layer moving on '
          'its own; collected from gmx files of up to 8x4 bins')
OUTSIDE = ('edges which move half a box or more between frames, both edges crossing at once, droplets wider than the box, '
           'interfaces with gaps between their layers')


def history(env, name, box, x0, steps, first=None, near=None):
    """true positions (left, right) per frame and the images they are seen in; the left edge begins in the
    box, unless it is near the edges `near` (true positions and images) of another layer"""
    out = []
    for k in range(steps):
        l, r = env.real('%sl%d' % (name, k), -400, 400), env.real('%sr%d' % (name, k), -400, 400)
        env.assume(env.and_(r >= l, r - l < box))
        if k == 0 and near is None:
            a, b = 0, env.choice('%sb0' % name, (0, 1))
        else:
            pl, pr, pa, pb = out[-1] if k else near
            env.assume(env.and_(2 * (l - pl) < box, 2 * (pl - l) < box, 2 * (r - pr) < box, 2 * (pr - r) < box))
            a, b = env.choice('%scross%d' % (name, k), [(pa + p, pb + q) for p, q in
                                                        ((0, 0), (1, 0), (-1, 0), (0, 1), (0, -1))
                                                        if 0 <= pb + q - pa - p <= 1])
        for x, n in ((l, a), (r, b)):
            env.assume(env.and_(x - n * box >= x0, x - n * box < x0 + box))
        out.append((l, r, a, b))
    return out


def edges(env, steps, box=None, origin=None):
    m = env.mod('strata.spreading.collect')
    w = env.const(box) if box else env.real('box', 1, 100)
    x0 = env.const(origin) if origin is not None else env.real('x0', -100, 100)
    hist = history(env, '', w, x0, steps)
    info = m.init_periodic_info()
    for k, (l, r, a, b) in enumerate(hist):
        seen = l - a * w, r - b * w
        info = m.check_and_update_periodic_info(info, w, *seen)
        got = m.add_pbc_multipliers_to_edges(info, w, *seen)
        env.check(len(got) == 2, 'both edges')
        env.check_eq(got[0], l, 'absolute position of the left edge')
        env.check_eq(got[1], r, 'absolute position of the right edge')


def layers(env, frames, dy='0.5', y0=None, box='10', origin=None, fixed=False, noise=None):
    """frames: (first, number) of the layers of every frame"""
    m = env.mod('strata.interface.collect')
    w = env.const(box) if box else env.real('box', 1, 100)
    x0 = env.const(origin) if origin is not None else env.real('x0', -100, 100)
    yb = env.const(y0) if y0 is not None else env.real('y0', -10, 10)
    d = env.frac(dy)
    last = None
    info, index = None, None
    for q, (first, n) in enumerate(frames):
        now = {}
        for j in range(first, first + n):
            near = None
            if last is not None:
                # followed from the layer at this height or the nearest one
                near = last[min(max(j, min(last)), max(last))]
            if fixed:
                # every second layer crosses the boundary in the second frame
                now[j] = (near or (x0 + 5, x0 + env.lit('9.8'), 0, 0))
                if q == 1:
                    now[j] = (x0 + 5, x0 + env.lit('10.2'), 0, 1) if j % 2 else (x0 + 5, x0 + env.lit('9.7'), 0, 0)
            else:
                now[j] = history(env, 'y%d_%d' % (j, q), w, x0, 1, near=near)[0]
        js = sorted(now)
        ys = [yb + j * d if y0 is None else env.const(env.frac(y0) + j * d) for j in js]
        if noise:
            # heights which are inexact, by much less than a layer and in every frame alike
            ys = [y + env.real('noise%d' % j, '-' + noise, noise) for y, j in zip(ys, js)]
        seen = [(now[j][0] - now[j][2] * w, now[j][1] - now[j][3] * w) for j in js]
        got, info, index = m.update_interface_with_pbc_info(
            env.arr(ys), env.arr([s[0] for s in seen]), env.arr([s[1] for s in seen]), w, info, index)
        env.check(len(got['X']) == 2 * n and len(got['Y']) == 2 * n, 'both edges of every layer')
        want = [(now[j][0], y) for j, y in zip(js, ys)] + [(now[j][1], y) for j, y in zip(js, ys)][::-1]
        for p, (x, y) in enumerate(want):
            env.check_eq(got['X'][p], x, 'absolute position of the interface')
            env.check_eq(got['Y'][p], y, 'height of the interface')
        last = now


def files(env, frames, nx=6, width=(2, 3), recenter=None, spacing=('0.25', '0.5'), origin=('1', '-2'), begin=None,
          start=None, moves=(-1, 0, 1), ext=None, radius=None, bins=None, lims=None, cutoff='3', end=None):
    """interfaces collected from gmx files of droplets which drift, layer j being shifted by j bins"""
    env.exact_f32()
    write = env.mod('strata.dataformats.write').write
    dx, dy = (env.const(q) for q in spacing)
    x0, y0 = (env.const(q) for q in origin)
    half = env.lit('0.5')
    pos, seen = None, []
    ny = max(f + n for f, n in frames)
    for q, (first, n) in enumerate(frames):
        w = env.choice('width%d' % q, width)
        if pos is None:
            pos = env.choice('start', range(nx) if start is None else start)
        else:
            pos += env.choice('move%d' % q, moves)
        rows = {}
        for j in range(first, first + n):
            rows[j] = (pos + j, pos + j + w - 1)
        allrows = rows
        if lims:
            # only the layers within the limits
            rows = dict((j, r) for j, r in rows.items() if (lims[0] is None or j >= lims[0]) and (lims[1] is None or j <= lims[1]))
        seen.append(rows)
        heavy = env.real('heavy%d' % q, 5, 10)
        mass = dict(((i % nx, j), heavy if i < r else env.const(6)) for j, (l, r) in allrows.items() for i in range(l, r + 1))
        cells = [(i, j) for i in range(nx) for j in range(ny)]
        data = dict([('X', env.arr([x0 + dx * (i + half) for i, j in cells])),
                     ('Y', env.arr([y0 + dy * (j + half) for i, j in cells])),
                     ('M', env.arr([mass.get(c, env.const(0)) for c in cells]))]
                    + [(l, env.arr([env.const(1)] * len(cells))) for l in 'NTUV'])
        write('in/f%05d.dat' % (q + 1), data, {'shape': (nx, ny), 'spacing': (dx, dy), 'origin': (x0, y0),
                                               'num_bins': nx * ny})
        if q:
            # one edge of a layer crosses at a time
            for j in rows:
                k = min(max(j, min(seen[-2])), max(seen[-2]))
                cross = [b // nx - a // nx for a, b in zip(seen[-2][k], rows[j])]
                if abs(cross[0]) + abs(cross[1]) > 1:
                    return
                if any(2 * abs(b - a) >= nx for a, b in zip(seen[-2][k], rows[j])):
                    return
    before = dict((p, env.read_raw(p)) for p in env.listing())
    kw = {'quiet': True}
    if cutoff:
        kw['cutoff'] = env.const(cutoff)
    if radius:
        kw['cutoff_radius'] = env.const(radius)
    if bins is not None:
        kw['cutoff_bins'] = bins
    if lims:
        # a limit is the height of a layer or lies between two of them
        kw['ylims'] = tuple(y0 + dy * (l + half) + e * dy * env.choice('limit', (env.lit('0.25'), env.lit('0.4'))) if l is not None else None
                            for l, e in zip(lims, (-1, 1)))
    if begin:
        kw['begin'] = begin
    if end:
        kw['end'] = end
    if recenter:
        kw['recenter'] = recenter
    if ext:
        kw['outext'] = ext
    env.mod('strata.interface.collect').collect_interfaces('in/f', 'out/i', **kw)
    use = list(range((begin or 1) - 1, end or len(frames)))
    name = 'out/i%05d' + (ext or '.xvg')
    env.check(env.listing() == sorted(list(before) + [name % (q + 1) for q in use]), 'an interface for every map')
    for p in before:
        env.check(env.read_raw(p) == before[p], 'inputs are left alone')
    shift = {}
    for k, q in enumerate(use):
        rows = seen[q]
        js = sorted(rows)
        now = {}
        for j in js:
            # every layer is followed from the box its left edge was found in first
            if k == 0:
                now[j] = rows[j][0] // nx
            else:
                now[j] = shift[min(max(j, min(shift)), max(shift))]
        shift = now
        want = [((rows[j][0] - now[j] * nx + half) * dx + x0, j) for j in js] \
            + [((rows[j][1] - now[j] * nx + half) * dx + x0, j) for j in js[::-1]]
        off = 0
        if recenter == 'zero':
            off = (want[0][0] + want[-1][0]) * half
        elif recenter == 'com':
            if any(l < 0 or r >= nx for l, r in rows.values()):
                continue
            cell = [(i, env.real('heavy%d' % q, 5, 10) if i < r else env.lit(6)) for l, r in rows.values()
                    for i in range(l, r + 1)]
            tot = env.sum([m for _, m in cell])
            off = env.sum([m * (x0 + dx * (i + half)) for i, m in cell]) / tot
        head = [l for l in env.text(name % (q + 1)).splitlines() if l.startswith('#')]
        env.check("#   'in/f%05d.dat'" % (q + 1) in head, 'the header names the input')
        for what, v in (('Recenter', recenter), ('Mass cut-off', kw.get('cutoff')), ('Radius cut-off', kw.get('cutoff_radius')),
                        ('Required # of bins', kw.get('cutoff_bins', 1))):
            env.check('#   %s: %s' % (what, env.fmt('%r', v) if v is not None else None) in head, 'the header reports: ' + what)
        got = env.read_text_table(name % (q + 1))
        env.check(len(got) == len(want), 'both edges of every layer')
        if len(got) != len(want):
            continue
        for g, (x, j) in zip(got, want):
            env.check(len(g) == 2, 'two columns')
            env.check_eq(g[0], x - off, 'absolute position', tol='0.00051')
            env.check_eq(g[1], (j - js[0]) * dy, 'height over the bottom layer', tol='0.00051')


def configs(tier):
    out = [Config('edges-%d' % k, edges, dict(steps=k)) for k in (1, 2, 3)]
    out += [Config('edges-box', edges, dict(steps=4, box='10', origin='0')),
            Config('edges-centred', edges, dict(steps=3, box='10', origin='-5')),
            Config('layers-same', layers, dict(frames=((0, 2), (0, 2)))),
            Config('layers-fixed-origin', layers, dict(frames=((0, 2), (0, 2)), origin='0')),
            Config('layers-grow', layers, dict(frames=((0, 2), (0, 3)))),
            Config('layers-shrink', layers, dict(frames=((0, 3), (0, 2)))),
            Config('layers-fall', layers, dict(frames=((1, 2), (0, 3)))),
            Config('layers-rise', layers, dict(frames=((0, 2), (1, 2)), y0='1')),
            Config('layers-leave', layers, dict(frames=((0, 2), (3, 2)))),
            Config('layers-arrive', layers, dict(frames=((3, 2), (0, 2)))),
            Config('layers-noise', layers, dict(frames=((0, 3), (0, 3)), y0='1', noise='0.0000001', dy='0.5')),
            Config('layers-noise-grow', layers, dict(frames=((1, 2), (0, 3)), y0='1', noise='0.0000001', dy='0.5')),
            Config('layers-noise-shrink', layers, dict(frames=((0, 3), (1, 2)), y0='1', noise='0.0000001', dy='0.5')),
            Config('layers-noise-top', layers, dict(frames=((0, 3), (0, 2)), y0='1', noise='0.0000001', dy='0.5')),
            Config('layers-inexact', layers, dict(frames=((0, 9), (0, 9), (1, 7), (0, 8), (3, 5), (2, 9)), dy='0.05', y0='0.55', fixed=True)),
            ]
    out += [Config('files', files, dict(frames=((0, 2),) * 3)),
            Config('files-grow', files, dict(frames=((1, 1), (0, 2), (0, 3)), width=(2,))),
            Config('files-shrink', files, dict(frames=((0, 3), (1, 2), (2, 1)), width=(3,))),
            Config('files-begin', files, dict(frames=((0, 2),) * 3, begin=2, width=(3,), ext='.txt')),
            Config('files-centred', files, dict(frames=((0, 2),) * 4, width=(3,), start=(3,), origin=('-1.5', '0'))),
            Config('files-zero', files, dict(frames=((0, 2),) * 2, recenter='zero', width=(2,))),
            Config('files-lone', files, dict(frames=((0, 2),) * 3, width=(1,), radius='0.2', bins=0)),
            Config('files-near', files, dict(frames=((0, 2), (0, 3)), width=(2, 3), radius='0.3', start=(1, 5))),
            Config('files-bins', files, dict(frames=((0, 3),) * 2, width=(3,), radius='0.3', bins=1, start=(0, 4))),
            Config('files-cutoff', files, dict(frames=((0, 2),) * 2, cutoff=None, start=(0, 4))),
            Config('files-limits', files, dict(frames=((0, 3),) * 2, lims=(1, 1), width=(2,), start=(0, 3))),
            Config('files-above', files, dict(frames=((0, 3),) * 2, lims=(1, None), width=(3,), start=(2, 5))),
            Config('files-below', files, dict(frames=((0, 3),) * 3, lims=(None, 1), width=(2,), start=(4,), end=2)),
            Config('files-com', files, dict(frames=((0, 2),) * 2, recenter='com', start=(1, 2)))]
    if tier == 'thorough':
        out += [Config('edges-6', edges, dict(steps=6, box='10')),
                Config('layers-long', layers, dict(frames=((0, 2), (0, 3), (1, 2)), y0='1')),
                Config('layers-wide', layers, dict(frames=((1, 2), (0, 4)), y0='1')),
                Config('files-long', files, dict(frames=((0, 2),) * 4, nx=8, width=(3, 4), start=(5,))),
                Config('files-both', files, dict(frames=((1, 2), (0, 3), (1, 3), (2, 1)), nx=7, width=(2,), start=(0, 6)))]
    return again(out, ('edges-2', 'edges-3'), 'edges-2', 'layers-same', ('layers-same', 'layers-grow'), ('files-near', 'files'), ('files-near', 'files-limits'), ('files-zero', 'files-shrink'))
