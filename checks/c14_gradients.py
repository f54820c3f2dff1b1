"""C14: fields derived from gradients and flow."""
from symx.runner import Config, again
from checks.common import cell_order, index_order, flow_map, cell

ID = 'C14'
IMPORTS = ('droplets.sample', 'strata.view_flowmap')
BOUNDS = ('sample_viscous_dissipation on maps of 3x3..4x3 (quick) / 5x4 cells; add_viscous_dissipation, '
          'add_density_gradient, add_evaporation, add_absolute_flow, add_radial_flow on up to 4x3 cells; every field value, '
          'the origin and the viscosity symbolic, weights above 1e-3; spacings (0.5, 0.25), (0.3, 0.7), (1, 2); records in '
          'any order; get_quiver_data on 2 (quick) or 3 cells')
OUTSIDE = 'larger maps; cells without weight (their weighted dissipation is undefined); maps with fewer cells along an ' \
          'axis than the gradient needs'
SP = {'A': ('0.5', '0.25'), 'B': ('0.3', '0.7'), 'C': ('1', '2')}


def build(env, nx, ny, spacing, order='y', labels=('U', 'V', 'M'), names=None, wlo=None):
    FlowData = env.mod('droplets.flow').FlowData
    names = names or {}
    dx, dy = (env.const(s) for s in spacing)
    x0, y0 = env.real('x0', -50, 50), env.real('y0', -50, 50)
    cells, vals = flow_map(env, '', nx, ny, x0, y0, dx, dy, labels, lo={'M': wlo if wlo is not None else 0})
    n = nx * ny
    idx = list(range(n))
    if order == 'x':
        idx = [j * nx + i for i in range(nx) for j in range(ny)]
    elif order == 'shuffle':
        step = next(s for s in (7, 5, 11, 13) if n % s)
        idx = [(step * k + 2) % n for k in range(n)]
    elif cell_order(order, nx, ny):
        idx = index_order(order, nx, ny)
    flow = FlowData(*[(names.get(l, l), env.arr([vals[l][k] for k in idx])) for l in ('X',) + tuple(labels) + ('Y',)],
                    info={'shape': (nx, ny), 'spacing': (dx, dy), 'origin': (x0, y0), 'num_bins': n})
    return flow, vals, idx, (x0, y0, dx, dy)


def derivative(env, f, k, n, h, order):
    """difference quotient of the values f(0..n-1) at k"""
    if 0 < k < n - 1:
        return (f(k + 1) - f(k - 1)) / (2 * h)
    s = 1 if k == 0 else -1
    if order == 1:
        return s * (f(k + s) - f(k)) / h
    return s * (-3 * f(k) + 4 * f(k + s) - f(k + 2 * s)) / (2 * h)


def dissipation(env, nx, ny, spacing, order='y', weight=None, names=None, view=False):
    names = names or {}
    flow, vals, idx, (x0, y0, dx, dy) = build(env, nx, ny, spacing, order, names=names,
                                              wlo='0.001' if weight else None)
    mu = env.real('mu', 0, 10)
    kw = {}
    if names:
        kw = {'coord_labels': (names['X'], names['Y']), 'flow_labels': (names['U'], names['V'])}
    if weight:
        kw['weight_label'] = names.get(weight, weight)
    if view:
        env.mod('strata.view_flowmap').add_viscous_dissipation(flow, mu)
        got = flow.data['visc']
        env.check(len(got) == nx * ny, 'a value per cell')
        get = lambda i, j: got[j * nx + i]
    else:
        got = env.mod('droplets.sample').sample_viscous_dissipation(flow, mu, **kw)
        env.check(tuple(got.shape) == (ny, nx), 'a value per cell')
        get = lambda i, j: got[j][i]
    # the records are sorted to match
    for k, (i, j) in enumerate([(i, j) for j in range(ny) for i in range(nx)]):
        rec = flow.data[k]
        for l in vals:
            env.check_eq(rec[names.get(l, l)], vals[l][k], 'the records are sorted like the result: ' + l)
    w = lambda i, j: cell(vals, weight, i, j, nx, ny) if weight else 1
    q = {l: (lambda i, j, l=l: cell(vals, l, i, j, nx, ny) * w(i, j)) for l in 'UV'}
    for j in range(ny):
        for i in range(nx):
            d = {}
            for l in 'UV':
                d[l + 'x'] = derivative(env, lambda k: q[l](k, j), i, nx, dx, 2)
                d[l + 'y'] = derivative(env, lambda k: q[l](i, k), j, ny, dy, 2)
            div = d['Ux'] + d['Vy']
            sh = d['Vx'] + d['Uy']
            want = 2 * mu * (d['Ux'] * d['Ux'] + d['Vy'] * d['Vy']) - 2 * mu * div * div / 3 + mu * sh * sh
            env.check_eq(get(i, j) * w(i, j) * w(i, j), want, 'dissipation')


def refused(env):
    f = env.mod('droplets.sample').sample_viscous_dissipation
    FlowData = env.mod('droplets.flow').FlowData
    v = env.arr([env.const(k) for k in range(9)])
    for info in ({}, {'shape': (3, 3)}, {'spacing': (1., 1.)}):
        flow = FlowData(('X', v), ('Y', v), ('U', v), ('V', v), info=info)
        env.check(env.raises(ValueError, lambda: f(flow, 1.)) is not None, 'shape and spacing are required')


def gradient(env, nx, ny, spacing, order, kind):
    v = env.mod('strata.view_flowmap')
    flow, vals, idx, (x0, y0, dx, dy) = build(env, nx, ny, spacing, order)
    (v.add_density_gradient if kind == 'density' else v.add_evaporation)(flow)
    for k, (i, j) in enumerate([(i, j) for j in range(ny) for i in range(nx)]):
        rec = flow.data[k]
        for l in vals:
            env.check_eq(rec[l], vals[l][k], 'the records keep their values: ' + l)
        gx = derivative(env, lambda q: cell(vals, 'M', q, j, nx, ny), i, nx, dx, 1)
        gy = derivative(env, lambda q: cell(vals, 'M', i, q, nx, ny), j, ny, dy, 1)
        if kind == 'density':
            env.check_eq(rec['grad_rho_x'], gx, 'density gradient along x')
            env.check_eq(rec['grad_rho_y'], gy, 'density gradient along y')
        else:
            env.check_eq(rec['evaporation'], vals['U'][k] * gx + vals['V'][k] * gy, 'evaporation')


def fields(env, n, kind):
    v = env.mod('strata.view_flowmap')
    FlowData = env.mod('droplets.flow').FlowData
    vals = dict((l, env.reals(l, n)) for l in ('X', 'U', 'V', 'Y'))
    flow = FlowData(*[(l, env.arr(vals[l])) for l in vals])
    if kind == 'flow':
        new = v.add_absolute_flow(flow.data)
    else:
        x0, y0 = env.real('x0'), env.real('y0')
        new = v.add_radial_flow(flow.data, (x0, y0))
    for k in range(n):
        for l in vals:
            env.check_eq(new[l][k], vals[l][k], 'the records keep their values: ' + l)
        u, w = vals['U'][k], vals['V'][k]
        if kind == 'flow':
            g = new['flow'][k]
            env.check(g >= 0, 'absolute flow')
            env.check_eq(g * g, u * u + w * w, 'absolute flow')
        else:
            dx, dy = vals['X'][k] - x0, vals['Y'][k] - y0
            if env.fork(env.and_(dx == 0, dy == 0)):
                continue
            g = new['radial'][k]
            r = env.np.sqrt(dx * dx + dy * dy)
            env.check_eq(g * r, u * dy - w * dx, 'flow around the point, positive clockwise')


def quiver(env, n, limits, cutoff, colour, names=('X', 'Y', 'U', 'V', 'M')):
    f = env.mod('strata.view_flowmap').get_quiver_data
    FlowData = env.mod('droplets.flow').FlowData
    vals = dict((l, env.reals(l, n)) for l in names)
    data = FlowData(*[(l, env.arr(vals[l])) for l in names]).data
    lim = {}
    for ax in 'xy':
        lim[ax] = [None, None]
        if limits in ('both', 'min'):
            lim[ax][0] = env.real(ax + 'min')
        if limits in ('both', 'max'):
            lim[ax][1] = env.real(ax + 'max')
    cut = env.real('cut') if cutoff else None
    x, y, u, v, m = names
    got = list(f(data, [u, v], [x, y], colour, (m if cutoff != 'nolabel' else None, cut), tuple(lim['x']), tuple(lim['y'])))
    keep = []
    for k in range(n):
        c = [env.or_(vals[u][k] != 0, vals[v][k] != 0)]
        for ax, l in zip('xy', (x, y)):
            if lim[ax][0] is not None:
                c.append(vals[l][k] >= lim[ax][0])
            if lim[ax][1] is not None:
                c.append(vals[l][k] <= lim[ax][1])
        if cutoff and cutoff != 'nolabel':
            c.append(vals[m][k] >= cut)
        if env.fork(env.and_(*c)):
            keep.append(k)
    env.check(len(got) == 5, 'five arrays')
    for g, l in zip(got, (x, y, u, v, colour)):
        env.check(len(g) == len(keep), 'an entry for each cell with flow inside the limits')
        for q, k in enumerate(keep):
            env.check_eq(g[q], vals[l][k] if l else 1, 'value of the cell: %s' % l)


def configs(tier):
    A, B, C = (SP[k] for k in 'ABC')
    nm = {'X': 'cx', 'Y': 'cy', 'U': 'u', 'V': 'v', 'M': 'w'}
    out = [
        Config('dissipation-3x3', dissipation, dict(nx=3, ny=3, spacing=A)),
        Config('dissipation-4x3-x', dissipation, dict(nx=4, ny=3, spacing=B, order='x')),
        Config('dissipation-3x4-labels', dissipation, dict(nx=3, ny=4, spacing=C, order='shuffle', names=nm)),
        Config('dissipation-weight', dissipation, dict(nx=3, ny=3, spacing=A, order='shuffle', weight='M')),
        Config('dissipation-weight-labels', dissipation, dict(nx=4, ny=3, spacing=C, weight='M', names=nm)),
        Config('dissipation-view', dissipation, dict(nx=3, ny=3, spacing=B, order='x', weight='M', view=True)),
        Config('dissipation-mirror', dissipation, dict(nx=3, ny=4, spacing=A, order='mirror')),
        Config('dissipation-swap', dissipation, dict(nx=3, ny=3, spacing=C, order='swap', weight='M')),
        Config('refused', refused),
        Config('flow', fields, dict(n=3, kind='flow')), Config('radial', fields, dict(n=2, kind='radial')),
    ]
    for k in ('density', 'evaporation'):
        out += [Config(k + '-2x2', gradient, dict(nx=2, ny=2, spacing=A, order='y', kind=k)),
                Config(k + '-4x3', gradient, dict(nx=4, ny=3, spacing=C, order='x', kind=k)),
                Config(k + '-3x2', gradient, dict(nx=3, ny=2, spacing=B, order='shuffle', kind=k))]
    out += [Config('density-flip', gradient, dict(nx=3, ny=3, spacing=A, order='flip', kind='density')),
            Config('evaporation-mirror', gradient, dict(nx=3, ny=2, spacing=B, order='mirror', kind='evaporation'))]
    nq = 3 if tier == 'thorough' else 2
    out += [Config('quiver-all', quiver, dict(n=nq, limits=None, cutoff=None, colour=None)),
            Config('quiver-limits', quiver, dict(n=nq, limits='both', cutoff='cut', colour='M')),
            Config('quiver-lower', quiver, dict(n=nq, limits='min', cutoff='nolabel', colour='a', names='abcde')),
            Config('quiver-upper', quiver, dict(n=nq, limits='max', cutoff=None, colour='U'))]
    if tier == 'thorough':
        out += [Config('dissipation-5x4', dissipation, dict(nx=5, ny=4, spacing=A, order='x', weight='M')),
                Config('density-5x5', gradient, dict(nx=5, ny=5, spacing=B, order='shuffle', kind='density'))]
    return again(out, 'dissipation-3x3', ('dissipation-view', 'dissipation-4x3-x'), ('dissipation-3x3', 'dissipation-weight'), ('flow', 'radial'), ('density-2x2', 'density-4x3'),
                 ('evaporation-2x2', 'density-3x2'), ('quiver-all', 'quiver-limits'))
