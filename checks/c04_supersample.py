"""C04: supersampling."""
from symx.runner import Config, again
from checks.common import CHAINS, whole_map, flow_map, cancelling, cell, cell_order, index_order

ID = 'C04'
IMPORTS = ('droplets.resample',)
BOUNDS = ('supersample_flow_data on maps of up to 3x2 (quick) / 4x3 (thorough) bins, factors None, 1, 2, 3 (4); origin '
          'and field values symbolic; spacings (0.5, 0.25), (0.3, 0.7); cells in y-major, x-major or shuffled order')
OUTSIDE = 'larger maps and factors; maps which are not regular'


def supersample(env, shape, spacing, factor, order='y', weights=True, names=('X', 'Y'), signed=False,
                origin=False):
    f = env.mod('droplets.resample').supersample_flow_data
    FlowData = env.mod('droplets.flow').FlowData
    nx, ny = shape
    dx, dy = (env.const(s) for s in spacing)
    x0, y0 = env.real('x0', -100, 100), env.real('y0', -100, 100)
    cells, vals = flow_map(env, '', nx, ny, x0, y0, dx, dy, ('U', 'M', 'N'), order='y',
                           lo={'M': -1000, 'N': 0} if signed else None)
    if signed == 'none':
        vals['M'] = cancelling(env, nx * ny)
    idx = list(range(nx * ny))
    if order == 'x':
        idx = [j * nx + i for i in range(nx) for j in range(ny)]
    elif order == 'shuffle':
        idx = [(5 * k + 3) % (nx * ny) for k in idx]
    elif cell_order(order, nx, ny):
        idx = index_order(order, nx, ny)
    assert len(set(idx)) == nx * ny
    labels = ('U', 'X', 'Y', 'M', 'N')
    ren = {'X': names[0], 'Y': names[1]}
    kw = {} if names == ('X', 'Y') else {'coord_labels': names}
    flow = FlowData(*[(ren.get(l, l), env.arr([vals[l][k] for k in idx])) for l in labels],
                    info={'shape': (nx, ny), 'spacing': (dx, dy), 'num_bins': nx * ny,
                          'origin': (env.real('ox'), env.real('oy')) if origin else (x0, y0)})
    w = [('U', 'M')] if weights else []
    new = f(flow, factor, weights=w, **kw)
    for l in labels:
        env.check_eq_all(flow.data[ren.get(l, l)], [vals[l][k] for k in idx], 'input %s is unchanged' % l)
    env.check(new is not flow, 'a new object is returned')
    if factor in (None, 1):
        for l in labels:
            env.check_eq_all(new.data[ren.get(l, l)], [vals[l][k] for k in idx], 'copy of %s' % l)
        env.check(tuple(new.shape) == (nx, ny), 'shape')
        return
    n = factor
    mx, my = nx * n, ny * n
    env.check(tuple(new.shape) == (mx, my), 'shape')
    env.check(new.num_bins == mx * my, 'num_bins')
    env.check(len(new.data) == mx * my, 'number of cells')
    env.check_eq(new.spacing[0] * n, dx, 'dx')
    env.check_eq(new.spacing[1] * n, dy, 'dy')
    env.check_eq(new.origin[0], x0, 'origin x')
    env.check_eq(new.origin[1], y0, 'origin y')
    if len(new.data) != mx * my:
        return
    c = 0
    for j in range(my):
        for i in range(mx):
            rec = new.data[c]
            c += 1
            env.check_eq((rec[names[0]] - x0) * n, i * dx, 'X of the fine cell')
            env.check_eq((rec[names[1]] - y0) * n, j * dy, 'Y of the fine cell')
            near = [(a // n, b // n) for a in range(max(0, i - n + 1), min(mx, i + n))
                    for b in range(max(0, j - n + 1), min(my, j + n))]
            for l in ('U', 'M', 'N'):
                vs = [cell(vals, l, a, b, nx, ny) for a, b in near]
                if l == 'U' and weights:
                    ws = [cell(vals, 'M', a, b, nx, ny) for a, b in near]
                    tot = env.sum(ws)
                    if signed:
                        env.check_eq(rec[l] * tot, env.sum([p * q for p, q in zip(vs, ws)]), 'weighted mean of the neighbourhood',
                                     when=tot != 0)
                        if signed == 'none':
                            env.check_eq(rec[l], 0, 'zero without weight', when=tot == 0)
                        continue
                    env.check(env.finite(rec[l]), 'weighted mean is finite')
                    env.check_eq(env.ite(tot > 0, rec[l] * tot, rec[l]),
                                 env.ite(tot > 0, env.sum([p * q for p, q in zip(vs, ws)]), 0),
                                 'weighted mean of the neighbourhood')
                else:
                    env.check_eq(rec[l] * len(near), env.sum(vs), 'mean of %s in the neighbourhood' % l)


def chained(env, shape, factor, weights):
    """weights which are averaged themselves weight by their values in the map"""
    f = env.mod('droplets.resample').supersample_flow_data
    FlowData = env.mod('droplets.flow').FlowData
    nx, ny = shape
    d = env.const('0.5')
    cells, vals = flow_map(env, '', nx, ny, env.real('x0', -9, 9), env.real('y0', -9, 9), d, d, ('U', 'M', 'N'), order='y',
                           lo={'U': '0.5', 'M': '0.5', 'N': '0.5'})
    flow = FlowData(*[(l, env.arr(vals[l])) for l in ('X', 'Y', 'M', 'U', 'N')],
                    info={'shape': shape, 'spacing': (d, d), 'num_bins': nx * ny, 'origin': (d, d)})
    new = f(flow, factor, weights=CHAINS[weights])
    by, n = dict(CHAINS[weights]), factor
    mx, my = nx * n, ny * n
    env.check(len(new.data) == mx * my, 'number of cells')
    for l in vals:
        env.check_eq_all(flow.data[l], vals[l], 'input %s is unchanged' % l)
    for c, (i, j) in enumerate([(i, j) for j in range(my) for i in range(mx)]):
        if c >= len(new.data):
            break
        near = [(a // n, b // n) for a in range(max(0, i - n + 1), min(mx, i + n)) for b in range(max(0, j - n + 1), min(my, j + n))]
        for l in ('U', 'M', 'N'):
            vs = [cell(vals, l, a, b, nx, ny) for a, b in near]
            ws = [cell(vals, by[l], a, b, nx, ny) for a, b in near] if l in by else [1] * len(near)
            env.check_eq(new.data[l][c] * env.sum(ws), env.sum([p * q for p, q in zip(vs, ws)]), 'weighted mean of %s' % l)


def whole(env, shape, factor, floats):
    """maps of whole numbers, whose means and coordinates are not"""
    f = env.mod('droplets.resample').supersample_flow_data
    (nx, ny), n = shape, factor
    flow, vals = whole_map(env, nx, ny, 'UMN', floats)
    new = f(flow, factor, weights=[('U', 'M')])
    env.check(len(new.data) == nx * ny * n * n, 'number of cells')
    cells = [(i, j) for j in range(ny * n) for i in range(nx * n)][:len(new.data)]
    for c, (i, j) in enumerate(cells):
        near = [(a // n, b // n) for a in range(max(0, i - n + 1), min(nx * n, i + n))
                for b in range(max(0, j - n + 1), min(ny * n, j + n))]
        env.check_eq(new.data['X'][c] * n, i, 'X of the fine cell')
        env.check_eq(new.data['Y'][c] * n, j, 'Y of the fine cell')
        for l in 'UMN':
            vs = [cell(vals, l, a, b, nx, ny) for a, b in near]
            ws = [cell(vals, 'M', a, b, nx, ny) for a, b in near] if l == 'U' else [1] * len(near)
            env.check_eq(new.data[l][c] * env.sum(ws), env.sum([p * q for p, q in zip(vs, ws)]), 'mean of %s' % l, tol=env.const('0.000001'))


def configs(tier):
    A, B = ('0.5', '0.25'), ('0.3', '0.7')
    out = [
        Config('none', supersample, dict(shape=(2, 2), spacing=A, factor=None)),
        Config('one', supersample, dict(shape=(2, 2), spacing=B, factor=1, order='x')),
        Config('by-2-3x2', supersample, dict(shape=(3, 2), spacing=A, factor=2)),
        Config('by-2-2x3-x', supersample, dict(shape=(2, 3), spacing=B, factor=2, order='x')),
        Config('by-3-2x1', supersample, dict(shape=(2, 1), spacing=B, factor=3)),
        Config('by-2-2x2-shuffle', supersample, dict(shape=(2, 2), spacing=A, factor=2, order='shuffle',
                                                     weights=False, names=('cx', 'cy'))),
        Config('by-4-2x1', supersample, dict(shape=(2, 1), spacing=A, factor=4)),
        Config('by-5-1x2', supersample, dict(shape=(1, 2), spacing=B, factor=5, order='flip', weights=False)),
        Config('by-2-3x2-mirror', supersample, dict(shape=(3, 2), spacing=B, factor=2, order='mirror')),
        Config('by-2-2x2-signed', supersample, dict(shape=(2, 2), spacing=A, factor=2, signed=True)),
        Config('by-3-2x1-origin', supersample, dict(shape=(2, 1), spacing=A, factor=3, origin=True)),
        Config('by-2-2x2-swap', supersample, dict(shape=(2, 2), spacing=A, factor=2, order='swap')),
    ]
    out += [Config('by-2-3x1-cancel', supersample, dict(shape=(3, 1), spacing=A, factor=2, signed='none')),
            Config('by-2-2x2-cancel', supersample, dict(shape=(2, 2), spacing=B, factor=2, signed='none', order='x'))]
    out += [Config(w, chained, dict(shape=(2, 1), factor=2, weights=w)) for w in CHAINS]
    out += [Config('whole-%s' % (k or 'all'), whole, dict(shape=(2, 2), factor=2, floats=k)) for k in ('', 'U', 'M')]
    if tier == 'thorough':
        out += [Config('by-3-3x2', supersample, dict(shape=(3, 2), spacing=A, factor=3, order='x')),
                Config('by-2-4x3', supersample, dict(shape=(4, 3), spacing=B, factor=2)),
                Config('by-6-2x1', supersample, dict(shape=(2, 1), spacing=A, factor=6)),
                Config('by-2-3x3-snake', supersample, dict(shape=(3, 3), spacing=A, factor=2, order='snake')),
                Config('by-4-2x2', supersample, dict(shape=(2, 2), spacing=A, factor=4))]
    return again(out, ('by-2-3x2', 'by-3-2x1'), 'by-2-2x3-x', ('by-2-2x3-x', 'by-2-3x2'), ('by-2-2x2-shuffle', 'by-2-3x2'), ('none', 'one'))
