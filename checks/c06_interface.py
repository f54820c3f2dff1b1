"""C06: interface search from the outside and inwards."""
from symx.runner import Config, again
from checks.interface_common import build, droplet

ID = 'C06'
IMPORTS = ('droplets.interface',)
BOUNDS = ('droplets.interface.get_interface, default search, on regular maps of 6..9 (quick) / 12 (thorough) cells in '
          'any record order; every field value and the origin symbolic; cutoff absent or symbolic; radius default or '
          '0.6..2.3 cells; 0..8 neighbours; symbolic height limits')
OUTSIDE = 'larger maps; irregular cells; rounding of coordinates by more than 0.000001; radii less than 0.1 % below a distance of cells'


def search(env, nx, ny, spacing, radius=None, bins=1, cutoff=True, order='y', limits=False, names=('X', 'Y'), origin=None, noise=None):
    get_interface = env.mod('droplets.interface').get_interface
    flow, pos, vals, (x0, y0, dx, dy) = build(env, nx, ny, spacing, order, origin, names=names, noise=noise)
    kw = {}
    if cutoff:
        c = kw['cutoff'] = env.real('cutoff', 0)
    else:
        lo, hi = env.min(vals), env.max(vals)
        c = (lo + hi) * env.lit('0.5')
    if names != ('X', 'Y'):
        kw['coord_labels'] = names
    if radius is not None:
        kw['cutoff_radius'] = env.const(radius)
    if bins != 1:
        kw['cutoff_bins'] = bins
    within = dict((j, True) for j in range(ny))
    if limits:
        a, b = env.real('ymin', -200, 200), env.real('ymax', -200, 200)
        kw['ylims'] = {'both': (a, b), 'low': (a, None), 'high': (None, b)}[limits]
        for j in range(ny):
            y = y0 + j * dy
            within[j] = env.and_(y >= a if limits != 'high' else True, y <= b if limits != 'low' else True)
    rad = radius if radius is not None else min(env.frac(s) for s, n in zip(spacing, (nx, ny)) if n > 1)
    inside = droplet(env, pos, vals, c, spacing, rad, bins)
    found = [tuple(int(q) for q in e) for e in get_interface(flow, 'M', **kw)]
    if not cutoff and env.fork(lo == hi):
        env.check(found == [], 'a homogeneous system has no interface')
        return
    rows = [pos[l][1] for l, r in found]
    env.check(all(len(e) == 2 for e in found), 'two indices per layer')
    env.check(all(pos[l][1] == pos[r][1] for l, r in found), 'both edges lie in one layer')
    env.check(all(p < q for p, q in zip(rows, rows[1:])), 'layers come bottom to top, once each')
    for j in range(ny):
        cells = [inside[(i, j)] for i in range(nx)]
        hit = env.and_(within[j], env.or_(*cells))
        env.check(env.iff(hit, j in rows), 'a layer is yielded exactly when it has droplet cells within the limits')
        if j in rows:
            l, r = found[rows.index(j)]
            i, k = pos[l][0], pos[r][0]
            env.check(env.and_(cells[i], env.not_(env.or_(*(cells[:i] + [False])))), 'left edge is the outermost droplet cell')
            env.check(env.and_(cells[k], env.not_(env.or_(*(cells[k + 1:] + [False])))), 'right edge is the outermost droplet cell')
    env.check_eq_all(flow.data['M'], vals, 'the map is unchanged')


def configs(tier):
    A, B, C = ('0.5', '0.25'), ('0.25', '0.5'), ('1', '1')
    out = [
        Config('default', search, dict(nx=3, ny=2, spacing=C, cutoff=False)),
        Config('default-flat', search, dict(nx=4, ny=1, spacing=A, cutoff=False)),
        Config('default-wide-cells', search, dict(nx=3, ny=2, spacing=A, order='x')),
        Config('default-tall-cells', search, dict(nx=2, ny=3, spacing=B)),
        Config('radius-diagonal', search, dict(nx=3, ny=3, spacing=C, radius='1.5', bins=3)),
        Config('many-neighbours', search, dict(nx=3, ny=3, spacing=C, radius='1.5', bins=6, order='shuffle')),
        Config('all-neighbours', search, dict(nx=3, ny=3, spacing=C, radius='1.5', bins=8)),
        Config('radius-two', search, dict(nx=4, ny=2, spacing=C, radius='1.25', bins=2, order='shuffle')),
        Config('radius-wide', search, dict(nx=5, ny=1, spacing=C, radius='2.25', bins=2, order='reverse')),
        Config('radius-aniso', search, dict(nx=3, ny=2, spacing=A, radius='0.55', bins=1, order='x')),
        Config('no-neighbours', search, dict(nx=3, ny=2, spacing=C, bins=0, order='shuffle')),
        Config('radius-zero', search, dict(nx=2, ny=2, spacing=C, radius='0')),
        Config('radius-zero-alone', search, dict(nx=2, ny=2, spacing=C, radius='0', bins=0)),
        Config('limits-both', search, dict(nx=2, ny=3, spacing=C, limits='both')),
        Config('limits-low', search, dict(nx=2, ny=3, spacing=B, limits='low', order='x', bins=0)),
        Config('limits-high', search, dict(nx=3, ny=2, spacing=B, limits='high', radius='0.75')),
    ]
    out += [Config('mirror', search, dict(nx=3, ny=2, spacing=C, order='mirror')), Config('flip', search, dict(nx=2, ny=3, spacing=A, order='flip', bins=0)),
            Config('swap', search, dict(nx=3, ny=2, spacing=B, order='swap', bins=0))]
    out.append(Config('coord-labels', search, dict(nx=3, ny=2, spacing=B, names=('cx', 'cy'), order='x')))
    # coordinates which are large next to the cells, and cells which are small
    out += [Config('far', search, dict(nx=3, ny=2, spacing=C, origin='far', order='x')),
            Config('far-limits', search, dict(nx=2, ny=3, spacing=A, origin='far', limits='both', bins=0)),
            Config('fine', search, dict(nx=3, ny=2, spacing=('0.0009765625', '0.00048828125'), origin='zero', order='shuffle'))]
    # coordinates which are rounded
    N = '0.000001'
    out += [Config('noise-default', search, dict(nx=3, ny=2, spacing=C, origin='zero', noise=N)),
            Config('noise-default-row', search, dict(nx=4, ny=1, spacing=A, origin='zero', noise=N, order='reverse')),
            Config('noise-default-wide-cells', search, dict(nx=2, ny=3, spacing=A, origin='zero', noise=N, order='x')),
            Config('noise-radius', search, dict(nx=3, ny=2, spacing=A, origin='zero', noise=N, radius='0.5', bins=2, order='shuffle'))]
    if tier == 'thorough':
        out += [
            Config('default-3x3', search, dict(nx=3, ny=3, spacing=C, cutoff=False)),
            Config('radius-4x3', search, dict(nx=4, ny=3, spacing=A, radius='0.6', bins=2)),
            Config('radius-3x4', search, dict(nx=3, ny=4, spacing=B, radius='0.6', bins=3, order='shuffle')),
            Config('limits-4x2', search, dict(nx=4, ny=2, spacing=C, limits='both', radius='1.5', bins=2)),
        ]
    return again(out, 'default-flat', ('default', 'radius-two'), ('radius-zero-alone', 'many-neighbours'), ('default-flat', 'limits-both'), ('default-flat', 'coord-labels'))
