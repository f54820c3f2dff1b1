"""C10: contact line cells and their adjustment."""
from symx.runner import Config, again
from checks.interface_common import build, droplet, interface_rows, within

ID = 'C10'
IMPORTS = ('droplets.contact_line',)
BOUNDS = ('get_contact_line_cells and adjust_cell_coordinates on regular maps of up to 4x3 and 3x4 cells (in the largest of the quick '
          'ones some of the cells are known to be filled), in any record order; field values, origin, cutoff, area and height symbolic; '
          'settings of the search: neighbours, longest stretch, height limits, none')
OUTSIDE = 'larger maps; areas which end less than 0.0002 before a cell; negative areas and heights'


def extract(env, nx, ny, spacing, bins=0, radius='1.1', order='y', at=False, names=('X', 'Y'), cutoff=True,
            full=(), origin=None, by=None, noise=None, area=None):
    f = env.mod('droplets.contact_line').get_contact_line_cells
    flow, pos, vals, (x0, y0, dx, dy) = build(env, nx, ny, spacing, order, origin, names=names, noise=noise)
    kw = {'cutoff_bins': bins, 'cutoff_radius': env.const(radius)}
    if cutoff:
        c = kw['cutoff'] = env.real('cutoff', 0)
    if names != ('X', 'Y'):
        kw['coord_labels'] = names
    for k, p in enumerate(pos):
        if p in full:
            env.assume(vals[k] >= c)
    he = 0
    if area is None:
        w, h = env.real('width', 0, 10), env.real('height', 0, 10)
        if at:
            he = kw['extract_height'] = env.real('eheight', 0, 10)
    else:
        # whole cells
        w, h, he = area[0] * dx, area[1] * dy, area[2] * dy
        kw['extract_height'] = he
    inside = None if by is not None else droplet(env, pos, vals, c, spacing, radius, bins)
    if by is not None:
        # edges of the interface search with the same settings (which is C06 and C07)
        kw = dict(by, **({'extract_height': he} if at else {}))
        edges = interface_rows(env, flow, pos, dict(by))
    xy = [[env.num(v) for v in flow.data[l]] for l in names]
    got = f(flow, 'M', extract_area=(w, h), **kw)
    env.check(len(got) == 2, 'two sides')
    rows = list(edges) if by is not None else []
    for j in range(ny) if by is None else ():
        cells = [inside[(i, j)] for i in range(nx)]
        if env.fork(env.or_(*cells)):
            l = next(i for i in range(nx) if i == nx - 1 or env.fork(cells[i]))
            r = next(i for i in reversed(range(nx)) if i == 0 or env.fork(cells[i]))
            rows.append((j, l, r))
    rows = [t for t in rows if t is rows[0] or t[0] == rows[0][0] or within(env, (t[0] - rows[0][0]) * dy, h)]
    if not rows:
        env.check(len(got[0]) == 0 and len(got[1]) == 0, 'no cells without an interface')
        return
    k = 0
    while k + 1 < len(rows) and within(env, (rows[k + 1][0] - rows[0][0]) * dy, he):
        k += 1
    for side, cells in enumerate(got):
        xs = [x0 + t[1 + side] * dx for t in rows]
        inner = xs[k] + w if side == 0 else xs[k] - w
        lo, hi = env.min(xs + [inner]), env.max(xs + [inner])
        keep = [n for n, (i, j) in enumerate(pos) if rows[0][0] <= j <= rows[-1][0]
                and within(env, lo, x0 + i * dx) and within(env, x0 + i * dx, hi)]
        nm = ('left', 'right')[side]
        env.check(len(cells) == len(keep), 'exactly the cells of the %s area' % nm)
        if len(cells) == len(keep):
            for n, q in enumerate(keep):
                env.check_eq(cells[names[0]][n], xy[0][q], 'X of the %s cells' % nm)
                env.check_eq(cells[names[1]][n], xy[1][q], 'Y of the %s cells' % nm)
                env.check_eq(cells['M'][n], vals[q], 'values of the %s cells' % nm)
        # the cells are a copy
        if len(cells):
            cells['M'][0] = cells['M'][0] + 1
    env.check_eq_all(flow.data['M'], vals, 'the map is unchanged')
    for l, v in zip(names, xy):
        env.check_eq_all(flow.data[l], v, 'the map is unchanged')


def adjust(env, n, direction, names=('X', 'Y')):
    f = env.mod('droplets.contact_line').adjust_cell_coordinates
    FlowData = env.mod('droplets.flow').FlowData
    xs, ys, ms = env.reals('X', n), env.reals('Y', n), env.reals('M', n)
    cells = FlowData((names[0], env.arr(xs)), (names[1], env.arr(ys)), ('M', env.arr(ms))).data
    kw = {} if names == ('X', 'Y') else {'coord_labels': names}
    if n:
        env.check(env.raises(KeyError, lambda: f(cells, 'up', **kw)) is not None, 'other directions are refused')
    adj, new = f(cells, direction, **kw)
    if n == 0:
        env.check(len(new) == 0, 'no cells')
        env.check_eq(adj[0], 0, 'adjustment without cells')
        env.check_eq(adj[1], 0, 'adjustment without cells')
        return
    x0 = env.min(xs) if direction == 'right' else env.max(xs)
    y0 = env.min(ys)
    env.check_eq(adj[0], x0, 'adjustment along x')
    env.check_eq(adj[1], y0, 'adjustment along y')
    env.check(len(new) == n, 'number of cells')
    env.check_eq_all(new[names[0]], [x - x0 for x in xs], 'adjusted X')
    env.check_eq_all(new[names[1]], [y - y0 for y in ys], 'adjusted Y')
    env.check_eq_all(new['M'], ms, 'values')
    env.check_eq_all(cells[names[0]], xs, 'input X is unchanged')
    env.check_eq_all(cells[names[1]], ys, 'input Y is unchanged')


def configs(tier):
    A, B, C = ('0.5', '0.25'), ('0.25', '0.5'), ('1', '1')
    out = [
        Config('row', extract, dict(nx=4, ny=1, spacing=C)),
        Config('two-rows', extract, dict(nx=3, ny=2, spacing=A, order='x')),
        Config('at-height', extract, dict(nx=3, ny=2, spacing=B, at=True, order='shuffle', names=('cx', 'cy'))),
        Config('three-rows', extract, dict(nx=2, ny=3, spacing=A, at=True)),
        Config('mirror', extract, dict(nx=3, ny=2, spacing=C, order='mirror', at=True)),
        Config('longest', extract, dict(nx=3, ny=2, spacing=C, by={'search_longest_connected': True, 'cutoff': 1., 'cutoff_bins': 0}, at=True)),
        Config('limits', extract, dict(nx=2, ny=3, spacing=A, by={'ylims': (0.2, None), 'cutoff': 1., 'cutoff_bins': 0}, origin='zero', order='x')),
        Config('defaults', extract, dict(nx=3, ny=2, spacing=A, by={}, order='x', full=(), cutoff=False)),
        Config('far', extract, dict(nx=3, ny=2, spacing=A, origin='far', order='x')),
        Config('fine', extract, dict(nx=3, ny=2, spacing=('0.0009765625', '0.00048828125'), origin='zero', radius='0.002')),
        # areas of whole cells, coordinates which are rounded
        Config('noise-area', extract, dict(nx=4, ny=1, spacing=C, origin='zero', noise='0.000001', area=(2, 1, 0))),
        Config('noise-heights', extract, dict(nx=2, ny=3, spacing=A, origin='zero', noise='0.000001', area=(1, 2, 1), order='x')),
        Config('noise-wide', extract, dict(nx=3, ny=2, spacing=B, origin='zero', noise='0.000001', area=(1, 1, 1), order='shuffle')),
        Config('flip', extract, dict(nx=3, ny=2, spacing=A, order='flip')),
        Config('neighbours', extract, dict(nx=3, ny=2, spacing=C, bins=1)),
        # (columns that are known to belong to the droplet keep the number of shapes small)
        Config('leaning', extract, dict(nx=3, ny=3, spacing=C, at=True, order='shuffle',
                                        full=[(2, j) for j in range(3)] + [(0, 0), (1, 1)])),
        Config('leaning-right', extract, dict(nx=3, ny=4, spacing=A, at=True, order='x',
                                              full=[(i, j) for j in range(4) for i in (0, 1)] + [(2, 0), (2, 1)])),
    ] + [Config('adjust-%s-%d' % (d, n), adjust, dict(n=n, direction=d, names=nm))
         for d in ('left', 'right') for n, nm in ((0, ('X', 'Y')), (1, ('X', 'Y')), (4, ('cx', 'cy')))]
    if tier == 'thorough':
        out += [Config('longest-4x2', extract, dict(nx=4, ny=2, spacing=C, by={'search_longest_connected': True, 'cutoff': 1., 'cutoff_bins': 0}, at=True)),
                Config('three-by-three', extract, dict(nx=3, ny=3, spacing=C, at=True)),
                Config('four-rows', extract, dict(nx=2, ny=4, spacing=B, at=True)),
                Config('four-wide', extract, dict(nx=4, ny=2, spacing=A, at=True, bins=1))]
    return again(out, 'row', ('row', 'two-rows'), ('two-rows', 'mirror'), ('adjust-left-1', 'adjust-right-1'), ('adjust-right-4', 'adjust-left-4'))
