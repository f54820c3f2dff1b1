"""C15: the dynamic contact angle."""
from symx.runner import Config, again
from checks.interface_common import build, droplet, interface_rows, within

ID = 'C15'
IMPORTS = ('droplets.interface',)
BOUNDS = ('droplets.interface.get_contact_angle on regular maps of up to 4x3 (quick) / 4x4 (thorough) cells with every '
          'field value, the origin, the height, the floor and the cutoff symbolic; settings of the search: neighbours, longest stretch, none')
OUTSIDE = 'larger maps; heights less than 0.0002 below a layer; numeric accuracy of arctan2 (modelled by the unit vector of the angle)'


def angle(env, nx, ny, spacing, floor=False, radius='1.1', bins=0, order='y', names=('X', 'Y'), origin=None, by=None, noise=None, reach=None):
    f = env.mod('droplets.interface').get_contact_angle
    flow, pos, vals, (x0, y0, dx, dy) = build(env, nx, ny, spacing, order, origin, names=names, noise=noise)
    x = dict((p[0], env.num(v)) for p, v in zip(pos, flow.data[names[0]]))
    y = dict((p[1], env.num(v)) for p, v in zip(pos, flow.data[names[1]]))
    c = env.real('cutoff', 0)
    height = env.real('height', 0, 10) if reach is None else reach * dy
    inside = None if by is not None else droplet(env, pos, vals, c, spacing, radius, bins)
    args = {'cutoff': c, 'cutoff_radius': env.const(radius), 'cutoff_bins': bins}
    j0 = 0
    if names != ('X', 'Y'):
        args['coord_labels'] = names
    if floor:
        # the floor lies closest to row j0
        j0 = env.choice('jfloor', range(ny))
        off = env.real('floor', -5 if j0 == 0 else '-0.45', 5 if j0 == ny - 1 else '0.45')
        args['floor'] = y0 + j0 * dy + off * dy
    if by is not None:
        # edges of the interface search with the same settings (which is C06 and C07)
        args = dict(by, **({'floor': args['floor']} if floor else {}))
        found = interface_rows(env, flow, pos, dict(by))
    got = f(flow, height, 'M', **args)
    env.check(len(got) == 2, 'a pair of angles')
    rows = {}
    if by is not None:
        rows = dict((j, (l, r)) for j, l, r in found if j >= j0)
    for j in range(j0, ny) if by is None else ():
        cells = [inside[(i, j)] for i in range(nx)]
        if env.fork(env.or_(*cells)):
            l = next(i for i in range(nx) if i == nx - 1 or env.fork(cells[i]))
            r = next(i for i in reversed(range(nx)) if i == 0 or env.fork(cells[i]))
            rows[j] = (l, r)
    none = not rows or (floor and j0 not in rows)
    top = None
    if not none:
        bottom = min(rows)
        for j in sorted(rows):
            if j > bottom and within(env, (j - bottom) * dy, height):
                top = j
    if top is None:
        env.check(got[0] is None and got[1] is None, 'no angle without two layers')
        return
    (l0, r0), (l1, r1) = rows[bottom], rows[top]
    h = y[top] - y[bottom]
    np = env.np
    env.check(got[0] is not None and got[1] is not None, 'an angle is found')
    if got[0] is None or got[1] is None:
        return
    env.check_eq(got[0], np.degrees(np.arctan2(h, x[l1] - x[l0])), 'left angle')
    env.check_eq(got[1], np.degrees(np.arctan2(h, x[r0] - x[r1])), 'right angle')


def configs(tier):
    A, B, C = ('0.5', '0.25'), ('0.25', '0.5'), ('1', '1')
    out = [
        Config('two-layers', angle, dict(nx=3, ny=2, spacing=C)),
        Config('three-layers', angle, dict(nx=2, ny=3, spacing=A)),
        Config('three-layers-wide', angle, dict(nx=3, ny=3, spacing=B, radius='0.3', bins=1, order='x')),
        Config('floor', angle, dict(nx=2, ny=3, spacing=B, floor=True, order='x', names=('cx', 'cy'))),
        Config('floor-wide', angle, dict(nx=3, ny=2, spacing=C, floor=True, bins=1)),
        Config('mirror', angle, dict(nx=3, ny=2, spacing=B, order='mirror')),
        Config('flip', angle, dict(nx=3, ny=2, spacing=C, order='flip', floor=True)),
        Config('one-layer', angle, dict(nx=3, ny=1, spacing=C)),
    ]
    out += [Config('longest', angle, dict(nx=3, ny=2, spacing=A, by={'search_longest_connected': True, 'cutoff': 1., 'cutoff_bins': 0}, order='x')),
            Config('longest-floor', angle, dict(nx=3, ny=2, spacing=A, by={'search_longest_connected': True, 'cutoff': 1., 'cutoff_bins': 0}, floor=True, order='mirror')),
            Config('defaults', angle, dict(nx=3, ny=2, spacing=B, by={}))]
    out += [Config('far', angle, dict(nx=3, ny=2, spacing=A, origin='far', order='x')),
            Config('far-floor', angle, dict(nx=2, ny=3, spacing=C, origin='far', floor=True)),
            Config('fine', angle, dict(nx=2, ny=3, spacing=('0.0009765625', '0.00048828125'), origin='zero', radius='0.002', order='shuffle'))]
    # heights of whole layers, coordinates which are rounded
    N = '0.000001'
    out += [Config('noise-height', angle, dict(nx=2, ny=3, spacing=A, origin='zero', noise=N, reach=2)),
            Config('noise-height-one', angle, dict(nx=2, ny=3, spacing=C, origin='zero', noise=N, reach=1, order='x'))]
    if tier == 'thorough':
        out += [Config('longest-4x2', angle, dict(nx=4, ny=2, spacing=A, by={'search_longest_connected': True, 'cutoff': 1., 'cutoff_bins': 0}, order='x')),
                Config('longest-3x3', angle, dict(nx=3, ny=3, spacing=A, by={'search_longest_connected': True, 'cutoff': 1., 'cutoff_bins': 0}, floor=True)),
                Config('three-layers-4', angle, dict(nx=4, ny=3, spacing=A, radius='0.5')),
                Config('floor-3x3', angle, dict(nx=3, ny=3, spacing=A, floor=True, radius='0.5')),
                Config('four-layers', angle, dict(nx=2, ny=4, spacing=B))]
    return again(out, 'two-layers', ('two-layers', 'floor'), ('two-layers', 'three-layers'))
