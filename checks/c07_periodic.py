"""C07: interface search by the longest filled stretch, periodic along x."""
from symx.runner import Config, again
from checks.interface_common import build, droplet

ID = 'C07'
IMPORTS = ('droplets.interface',)
BOUNDS = ('get_interface(search_longest_connected=True) on regular maps of 4..9 (quick) / 12 (thorough) cells in any '
          'record order; origin, field values and cutoff symbolic; radius below half the box; 0..2 neighbours')
OUTSIDE = 'larger maps; radius of half the box or more; which of several equally long stretches is returned'


def search(env, nx, ny, spacing, radius=None, bins=1, cutoff=True, order='y', limits=False, origin=None, names=('X', 'Y'), noise=None):
    get_interface = env.mod('droplets.interface').get_interface
    flow, pos, vals, (x0, y0, dx, dy) = build(env, nx, ny, spacing, order, origin, names, noise=noise)
    kw = {'search_longest_connected': True}
    if cutoff:
        c = kw['cutoff'] = env.real('cutoff', 0)
    else:
        lo, hi = env.min(vals), env.max(vals)
        c = (lo + hi) * env.lit('0.5')
        env.assume(lo < hi)
    if names != ('X', 'Y'):
        kw['coord_labels'] = names
    if radius is not None:
        kw['cutoff_radius'] = env.const(radius)
    if bins != 1:
        kw['cutoff_bins'] = bins
    within = dict((j, True) for j in range(ny))
    if limits:
        a, b = env.real('ymin', -200, 200), env.real('ymax', -200, 200)
        kw['ylims'] = (a, b)
        for j in range(ny):
            y = y0 + j * dy
            within[j] = env.and_(y >= a, y <= b)
    rad = radius if radius is not None else min(env.frac(s) for s, n in zip(spacing, (nx, ny)) if n > 1)
    inside = droplet(env, pos, vals, c, spacing, rad, bins, box=nx)
    found = [tuple(int(q) for q in e) for e in get_interface(flow, 'M', **kw)]
    env.check(all(len(e) == 2 for e in found), 'two indices per layer')
    env.check(all(0 <= q < len(pos) for e in found for q in e), 'indices are records of the map')
    rows = [pos[l][1] for l, r in found]
    env.check(all(pos[l][1] == pos[r][1] for l, r in found), 'both edges lie in one layer')
    env.check(all(p < q for p, q in zip(rows, rows[1:])), 'layers come bottom to top, once each')
    for j in range(ny):
        cells = [inside[(i, j)] for i in range(nx)]
        hit = env.and_(within[j], env.or_(*cells))
        env.check(env.iff(hit, j in rows), 'a layer is yielded exactly when it has droplet cells within the limits')
        if j not in rows:
            continue
        l, r = found[rows.index(j)]
        i, k = pos[l][0], pos[r][0]
        n = (k - i) % nx + 1
        run = [cells[(i + q) % nx] for q in range(n)]
        env.check(env.and_(*run), 'all cells from the left to the right edge are filled')
        if n == nx:
            env.check((i, k) == (0, nx - 1), 'a filled layer is returned as a whole')
        else:
            env.check(env.not_(env.or_(cells[(i - 1) % nx], cells[(k + 1) % nx])), 'the stretch ends at its edges')
        # no longer stretch anywhere in the periodic layer
        for s in range(nx):
            if n + 1 <= nx:
                env.check(env.not_(env.and_(*[cells[(s + q) % nx] for q in range(n + 1)])),
                          'no longer filled stretch exists in the periodic layer')
    env.check_eq_all(flow.data['M'], vals, 'the map is unchanged')


def missing(env):
    """shape and spacing are required"""
    get_interface = env.mod('droplets.interface').get_interface
    FlowData = env.mod('droplets.flow').FlowData
    flow, pos, vals, (x0, y0, dx, dy) = build(env, 2, 1, ('1', '1'))
    for info in ({}, {'shape': (2, 1)}, {'spacing': (dx, dy)}):
        f = FlowData(*[(l, flow.data[l]) for l in ('X', 'Y', 'M')], info=info)
        err = env.raises(ValueError, lambda: list(get_interface(f, 'M', cutoff=env.const(1), cutoff_radius=env.const(1),
                                                                search_longest_connected=True)))
        env.check(err is not None, 'ValueError without shape or spacing')


def configs(tier):
    A, B, C = ('0.5', '0.25'), ('0.25', '0.5'), ('1', '1')
    out = [
        Config('missing', missing),
        Config('row5', search, dict(nx=5, ny=1, spacing=C, bins=1)),
        Config('row7', search, dict(nx=7, ny=1, spacing=A, bins=0, radius='0.6')),
        Config('row5-default', search, dict(nx=4, ny=1, spacing=C, cutoff=False)),
        Config('row6-two', search, dict(nx=6, ny=1, spacing=C, radius='1.2', bins=2)),
        Config('row5-unsorted', search, dict(nx=5, ny=1, spacing=C, bins=0, order='shuffle')),
        Config('row4-reversed', search, dict(nx=4, ny=1, spacing=C, bins=1, order='reverse')),
        Config('two-rows', search, dict(nx=4, ny=2, spacing=C, radius='1.2', bins=2)),
        Config('two-rows-diagonal', search, dict(nx=4, ny=2, spacing=C, radius='1.5', bins=3, order='x')),
        Config('far', search, dict(nx=4, ny=2, spacing=('1', '1'), origin='far', order='x')),
        Config('fine', search, dict(nx=4, ny=2, spacing=('0.0009765625', '0.00048828125'), origin='zero', order='x')),
        Config('two-rows-aniso', search, dict(nx=3, ny=2, spacing=B, radius='0.3', bins=1, order='x', origin=('0', '0'))),
        Config('two-rows-default-radius', search, dict(nx=3, ny=2, spacing=A, order='x', origin=('0.25', '0.125'))),
        Config('three-rows', search, dict(nx=3, ny=3, spacing=C, bins=0, order='x')),
        Config('limits', search, dict(nx=3, ny=2, spacing=C, bins=0, limits=True, order='shuffle')),
    ]
    out += [Config('mirror', search, dict(nx=4, ny=1, spacing=C, order='mirror')), Config('flip', search, dict(nx=3, ny=2, spacing=A, order='flip', bins=0)),
            Config('snake', search, dict(nx=3, ny=2, spacing=B, order='snake', bins=0))]
    out.append(Config('coord-labels', search, dict(nx=3, ny=2, spacing=B, names=('cx', 'cy'), order='x')))
    # coordinates which are rounded
    N = '0.000001'
    out += [Config('noise-default', search, dict(nx=4, ny=1, spacing=C, origin='zero', noise=N)),
            Config('noise-default-rows', search, dict(nx=3, ny=2, spacing=C, origin='zero', noise=N, order='x')),
            Config('noise-radius', search, dict(nx=5, ny=1, spacing=C, origin='zero', noise=N, radius='2', bins=3))]
    if tier == 'thorough':
        out += [
            Config('row9', search, dict(nx=9, ny=1, spacing=A, bins=1)),
            Config('row8-two', search, dict(nx=8, ny=1, spacing=C, radius='2.2', bins=3, order='shuffle')),
            Config('two-rows-5', search, dict(nx=5, ny=2, spacing=C, radius='1.5', bins=3, order='shuffle')),
            Config('three-rows-4', search, dict(nx=4, ny=3, spacing=C, radius='1.2', bins=2, order='x')),
        ]
    return again(out, 'row5', ('row5-default', 'row6-two'), ('row4-reversed', 'two-rows'), ('row5', 'limits'))
