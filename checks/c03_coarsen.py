"""C03: combining bins conserves what they hold."""
from symx.runner import Config, again
from checks.common import CHAINS, whole_map, flow_map, cancelling, cell, cell_order, index_order

ID = 'C03'
IMPORTS = ('droplets.resample', 'strata.dataformats.simple.average')
BOUNDS = ('combine_bins and downsample_flow_data on maps of up to 5x4 (quick) / 6x6 (thorough) bins combined in blocks '
          'of 1..3 x 1..3; origin and all field values symbolic; spacings (0.5, 0.25), (0.3, 0.7), (1, 0.125), (0.001, 0.002); '
          'downsample limits symbolic or absent, input cells in y-major, x-major or shuffled order')
OUTSIDE = 'larger maps and blocks; maps whose cells are not on a regular grid'
WEIGHT = {'N': None, 'M': None, 'T': 'N', 'U': 'M', 'V': 'M'}


def check_block(env, got, vals, label, weight, cells, nx, ny, order, signed=False):
    vs = [cell(vals, label, i, j, nx, ny, order) for i, j in cells]
    if weight is None:
        env.check_eq(got, env.sum(vs), 'sum of %s in the block' % label)
        return
    ws = [cell(vals, weight, i, j, nx, ny, order) for i, j in cells]
    tot = env.sum(ws)
    num = env.sum([a * b for a, b in zip(vs, ws)])
    if signed:
        # weights of either sign
        env.check_eq(got * tot, num, '%s weighted mean of %s in the block' % (weight, label), when=tot != 0)
        if signed == 'none':
            env.check_eq(got, 0, '%s without %s is zero' % (label, weight), when=tot == 0)
        return
    env.check(env.finite(got), 'weighted mean of %s is finite' % label)
    env.check_eq(env.ite(tot > 0, got * tot, got), env.ite(tot > 0, num, 0),
                 '%s weighted mean of %s in the block' % (weight, label))


def combine(env, shape, spacing, block, module='strata.dataformats.simple.average'):
    f = env.mod(module).combine_bins
    nx, ny = shape
    bx, by = block
    dx, dy = (env.const(s) for s in spacing)
    x0, y0 = env.real('x0'), env.real('y0')
    cells, vals = flow_map(env, '', nx, ny, x0, y0, dx, dy, WEIGHT, order='x')
    data = dict((l, env.arr(v)) for l, v in vals.items())
    info = {'origin': [x0, y0], 'spacing': [dx, dy], 'shape': [nx, ny], 'num_bins': nx * ny}
    new, ni = f(data, info, bx, by)
    mx, my = nx // bx, ny // by
    env.check(list(ni['shape']) == [mx, my], 'shape')
    env.check(ni['num_bins'] == mx * my, 'num_bins')
    half = env.lit('0.5')
    o = [x0 + half * dx * (bx - 1), y0 + half * dy * (by - 1)]
    env.check_eq(ni['spacing'][0], dx * bx, 'dx')
    env.check_eq(ni['spacing'][1], dy * by, 'dy')
    env.check_eq(ni['origin'][0], o[0], 'origin x')
    env.check_eq(ni['origin'][1], o[1], 'origin y')
    env.check(set(new) == set(vals), 'labels')
    for l in vals:
        env.check(len(new[l]) == mx * my, 'length of ' + l)
    for c, (i, j) in enumerate([(i, j) for i in range(mx) for j in range(my)]):
        env.check_eq(new['X'][c], o[0] + i * bx * dx, 'X is the centre of the block')
        env.check_eq(new['Y'][c], o[1] + j * by * dy, 'Y is the centre of the block')
        blk = [(i * bx + a, j * by + b) for a in range(bx) for b in range(by)]
        for l, w in WEIGHT.items():
            check_block(env, new[l][c], vals, l, w, blk, nx, ny, 'x')
    for l in vals:
        env.check_eq_all(data[l], vals[l], 'input %s is unchanged' % l)
    env.check(list(info['shape']) == [nx, ny] and info['num_bins'] == nx * ny, 'input info is unchanged')
    env.check_eq_all(list(info['origin']) + list(info['spacing']), [x0, y0, dx, dy], 'input info is unchanged')


def downsample(env, shape, spacing, block, order='y', limits=(), names=('X', 'Y'), signed=False, origin=False, at=None):
    f = env.mod('droplets.resample').downsample_flow_data
    FlowData = env.mod('droplets.flow').FlowData
    nx, ny = shape
    bx, by = block
    dx, dy = (env.const(s) for s in spacing)
    x0, y0 = (env.const(c) for c in at) if at else (env.real('x0', -100, 100), env.real('y0', -100, 100))
    cells, vals = flow_map(env, '', nx, ny, x0, y0, dx, dy, ('U', 'M', 'N'), order='y',
                           lo={'M': -1000, 'N': 0} if signed else None)
    if signed == 'none':
        vals['M'] = cancelling(env, nx * ny)
    idx = list(range(nx * ny))
    if order == 'x':
        idx = [j * nx + i for i in range(nx) for j in range(ny)]
    elif order == 'shuffle':
        idx = [(7 * k + 3) % (nx * ny) for k in idx]
        assert len(set(idx)) == nx * ny
    elif cell_order(order, nx, ny):
        idx = index_order(order, nx, ny)
    ren = {'X': names[0], 'Y': names[1]}
    flow = FlowData(*[(ren.get(l, l), env.arr([vals[l][k] for k in idx])) for l in ('U', 'X', 'Y', 'M', 'N')],
                    info={'shape': (nx, ny), 'spacing': (dx, dy), 'num_bins': nx * ny,
                          'origin': (env.real('ox'), env.real('oy')) if origin else (x0, y0)})
    # limits: the range of columns and rows kept
    kw = {} if names == ('X', 'Y') else {'coord_labels': names}
    keep = {'x': [0, nx - 1], 'y': [0, ny - 1]}
    for ax, o, d, n in (('x', x0, dx, nx), ('y', y0, dy, ny)):
        lim = [None, None]
        if ax + 'min' in limits:
            a = env.choice(ax + 'min', range(0, n - 1))
            # a limit on the cell is inclusive
            lim[0] = o + a * d - env.real('e' + ax + 'min', '0.01', '0.99') * d
            if ax + 'minon' in limits:
                lim[0] = o + a * d
            keep[ax][0] = a
        if ax + 'max' in limits:
            b = env.choice(ax + 'max', range(keep[ax][0], n))
            lim[1] = o + b * d + env.real('e' + ax + 'max', '0.01', '0.99') * d
            if ax + 'maxon' in limits:
                lim[1] = o + b * d
            keep[ax][1] = b
        if limits:
            kw[ax + 'lim'] = tuple(lim)
    weights = [('U', 'M')]
    new = f(flow, (bx, by), weights=weights, **kw)
    env.check(weights == [('U', 'M')], 'the weights are left alone')
    (i0, i1), (j0, j1) = keep['x'], keep['y']
    mx, my = (i1 - i0 + 1) // bx, (j1 - j0 + 1) // by
    env.check(tuple(new.shape) == (mx, my), 'shape')
    env.check(new.num_bins == mx * my, 'num_bins')
    env.check(len(new.data) == mx * my, 'number of cells')
    half = env.lit('0.5')
    o = [x0 + i0 * dx + half * dx * (bx - 1), y0 + j0 * dy + half * dy * (by - 1)]
    env.check_eq(new.spacing[0], dx * bx, 'dx')
    env.check_eq(new.spacing[1], dy * by, 'dy')
    env.check_eq(new.origin[0], o[0], 'origin x')
    env.check_eq(new.origin[1], o[1], 'origin y')
    if len(new.data) != mx * my:
        return
    for c, (i, j) in enumerate([(i, j) for j in range(my) for i in range(mx)]):
        rec = new.data[c]
        env.check_eq(rec[names[0]], o[0] + i * bx * dx, 'X is the centre of the block')
        env.check_eq(rec[names[1]], o[1] + j * by * dy, 'Y is the centre of the block')
        blk = [(i0 + i * bx + a, j0 + j * by + b) for a in range(bx) for b in range(by)]
        for l, w in (('N', None), ('M', None), ('U', 'M')):
            check_block(env, rec[l], vals, l, w, blk, nx, ny, 'y', signed)
    for l in ('U', 'M', 'N'):
        env.check_eq_all(flow.data[l], [vals[l][k] for k in idx], 'input %s is unchanged' % l)


def chained(env, shape, block, weights):
    """weights which are averaged themselves weight by their values in the map"""
    f = env.mod('droplets.resample').downsample_flow_data
    FlowData = env.mod('droplets.flow').FlowData
    nx, ny = shape
    d = env.const('0.5')
    cells, vals = flow_map(env, '', nx, ny, env.real('x0', -9, 9), env.real('y0', -9, 9), d, d, ('U', 'M', 'N'), order='y',
                           lo={'U': '0.5', 'M': '0.5', 'N': '0.5'})
    flow = FlowData(*[(l, env.arr(vals[l])) for l in ('X', 'Y', 'M', 'U', 'N')],
                    info={'shape': shape, 'spacing': (d, d), 'num_bins': nx * ny, 'origin': (d, d)})
    new = f(flow, block, weights=CHAINS[weights])
    by, (bx, bz) = dict(CHAINS[weights]), block
    mx, my = nx // bx, ny // bz
    env.check(len(new.data) == mx * my, 'number of cells')
    for l in vals:
        env.check_eq_all(flow.data[l], vals[l], 'input %s is unchanged' % l)
    for c, (i, j) in enumerate([(i, j) for j in range(my) for i in range(mx)][:len(new.data)]):
        blk = [(i * bx + a, j * bz + b) for a in range(bx) for b in range(bz)]
        for l in ('U', 'M', 'N'):
            check_block(env, new.data[l][c], vals, l, by.get(l), blk, nx, ny, 'y')


def whole(env, shape, block, floats):
    """maps of whole numbers, whose means and coordinates are not"""
    f = env.mod('droplets.resample').downsample_flow_data
    (nx, ny), (bx, by) = shape, block
    flow, vals = whole_map(env, nx, ny, 'UMN', floats)
    new = f(flow, block, weights=[('U', 'M')])
    cells = [(i, j) for j in range(ny // by) for i in range(nx // bx)]
    env.check(len(new.data) == len(cells), 'number of cells')
    for c, (i, j) in enumerate(cells[:len(new.data)]):
        env.check_eq(new.data['X'][c] * 2, 2 * i * bx + bx - 1, 'X is the centre of the block')
        env.check_eq(new.data['Y'][c] * 2, 2 * j * by + by - 1, 'Y is the centre of the block')
        blk = [(i * bx + a, j * by + b) for a in range(bx) for b in range(by)]
        for l in 'UMN':
            vs = [cell(vals, l, a, b, nx, ny) for a, b in blk]
            ws = [cell(vals, 'M', a, b, nx, ny) for a, b in blk] if l == 'U' else [1] * len(blk)
            env.check_eq(new.data[l][c] * (env.sum(ws) if l == 'U' else 1), env.sum([p * q for p, q in zip(vs, ws)]),
                         'weighted mean or sum of %s in the block' % l, tol=env.const('0.000001'))


def configs(tier):
    A, B, C, D = ('0.5', '0.25'), ('0.3', '0.7'), ('1', '0.125'), ('0.0009765625', '0.001953125')
    out = []

    def comb(shape, spacing, block):
        out.append(Config('combine-%dx%d-by-%dx%d' % (shape + block), combine,
                          dict(shape=shape, spacing=spacing, block=block)))

    def down(shape, spacing, block, **k):
        out.append(Config('downsample-%dx%d-by-%dx%d-%s' % (shape + block + ('-'.join(
            [k.get('order', 'y')] + list(k.get('limits', ())) + ['cancel' if k.get(q) == 'none' else q for q in ('signed', 'origin') if k.get(q)]
            + ['fine'] * (spacing is D)),)), downsample,
            dict(shape=shape, spacing=spacing, block=block, **k)))
    comb((2, 2), A, (1, 1))
    comb((4, 2), B, (2, 1))
    comb((2, 5), A, (1, 2))
    comb((5, 4), A, (2, 3))
    comb((3, 5), B, (3, 2))
    comb((4, 4), C, (2, 2))
    down((4, 2), A, (2, 1))
    down((3, 4), B, (1, 2), order='x')
    down((5, 4), A, (2, 3), order='shuffle', names=('cx', 'cy'))
    down((4, 4), C, (2, 2), order='x')
    down((4, 2), A, (2, 1), order='mirror')
    down((3, 4), C, (1, 2), order='flip')
    down((4, 3), B, (2, 1), order='snake')
    down((2, 3), B, (1, 3), order='xflip')
    down((3, 2), B, (3, 1), order='swap')
    down((4, 2), A, (2, 1), signed=True, order='x')
    down((4, 2), A, (2, 1), origin=True)
    down((3, 2), A, (2, 2), limits=('xmin', 'xmax'))
    down((4, 3), A, (2, 1), limits=('xmin', 'ymin', 'xminon'))
    down((2, 4), A, (1, 2), limits=('ymin', 'ymax', 'ymaxon'), order='x')
    down((4, 2), B, (2, 1), signed='none', order='x')
    down((4, 2), A, (2, 2), signed='none')
    down((4, 4), D, (2, 2), at=('0.5', '3'))
    down((4, 3), D, (2, 1), limits=('xmin', 'ymax'), order='x')
    out += [Config(w, chained, dict(shape=(4, 2), block=(2, 2), weights=w)) for w in CHAINS]
    out += [Config('whole-%s' % (k or 'all'), whole, dict(shape=(4, 2), block=(2, 2), floats=k)) for k in ('', 'U', 'M')]
    if tier == 'thorough':
        comb((6, 6), B, (3, 2))
        comb((6, 6), C, (4, 5))
        down((6, 6), B, (2, 3), order='x')
        down((4, 4), A, (2, 2), limits=('xmin', 'xmax', 'ymin', 'ymax'), order='x')
        down((5, 4), C, (3, 1), limits=('xmin', 'xmax', 'ymin', 'ymax', 'xminon', 'xmaxon', 'yminon', 'ymaxon'))
    return again(out, ('combine-4x2-by-2x1', 'combine-2x5-by-1x2'), 'downsample-4x2-by-2x1-y', ('downsample-3x4-by-1x2-x', 'downsample-4x2-by-2x1-y'),
                 ('downsample-3x4-by-1x2-x', 'downsample-5x4-by-2x3-shuffle'), ('downsample-4x2-by-2x1-y', 'downsample-3x2-by-2x2-y-xmin-xmax'))
