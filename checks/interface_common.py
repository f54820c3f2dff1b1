"""Shared by the interface checks: maps and the droplet condition."""
from checks.common import cell_order


def build(env, nx, ny, spacing, order='y', origin=None, names=('X', 'Y'), hi=None, noise=None):
    """FlowData with symbolic field M; returns (flow, pos, vals) where pos[k] = (i, j)
    is the column and row of record k; noise: columns and rows are off by at most this, as rounded coordinates are"""
    FlowData = env.mod('droplets.flow').FlowData
    dx, dy = (env.const(s) for s in spacing)
    origin = {'far': ('1048576', '-2097152'), 'zero': ('0', '0')}.get(origin, origin)
    if origin is None:
        x0, y0 = env.real('x0', -100, 100), env.real('y0', -100, 100)
    else:
        x0, y0 = (env.const(o) for o in origin)
    pos = [(i, j) for j in range(ny) for i in range(nx)]
    if order == 'x':
        pos = [(i, j) for i in range(nx) for j in range(ny)]
    elif order == 'shuffle':
        n = nx * ny
        step = next(s for s in (7, 5, 3, 11, 13) if n % s)
        pos = [pos[(step * k + 2) % n] for k in range(n)]
    elif order == 'reverse':
        pos = pos[::-1]
    elif order != 'y':
        pos = cell_order(order, nx, ny)
    vals = env.reals('M', nx * ny, 0, hi)
    offx, offy = [0] * nx, [0] * ny
    if noise:
        offx = [env.real('offx%d' % i, '-' + noise, noise) for i in range(nx)]
        offy = [env.real('offy%d' % j, '-' + noise, noise) for j in range(ny)]
    X = [x0 + i * dx + offx[i] for i, j in pos]
    Y = [y0 + j * dy + offy[j] for i, j in pos]
    flow = FlowData((names[0], env.arr(X)), ('M', env.arr(vals)), (names[1], env.arr(Y)),
                    info={'shape': (nx, ny), 'spacing': (dx, dy), 'origin': (x0, y0), 'num_bins': nx * ny})
    return flow, pos, vals, (x0, y0, dx, dy)


def within(env, distance, limit):
    """distance <= limit; what is beyond it by less than the accuracy of coordinates is not of interest"""
    env.assume(env.or_(distance <= limit, distance >= limit + env.lit('0.0002')))
    return env.fork(distance <= limit)


def droplet(env, pos, vals, cutoff, spacing, radius, bins, box=None):
    """condition per (column, row): the cell holds enough and has enough filled neighbours"""
    dx, dy = (env.frac(s) for s in spacing)
    r = env.frac(radius)
    filled = dict((p, v >= cutoff) for p, v in zip(pos, vals))
    out = {}
    for (i, j) in pos:
        near = []
        for (a, b) in pos:
            if (a, b) == (i, j):
                continue
            d = abs(a - i)
            if box is not None:
                d = min(d, box - d)
            if (d * dx) ** 2 + ((b - j) * dy) ** 2 <= r * r:
                near.append(filled[(a, b)])
        if bins <= 0:
            out[(i, j)] = filled[(i, j)]
        else:
            out[(i, j)] = env.and_(filled[(i, j)], env.count(near) >= bins)
    return out


def interface_rows(env, flow, pos, kw):
    """rows of the interface of a map, from the bottom: (row, left column, right column)"""
    get_interface = env.mod('droplets.interface').get_interface
    out = []
    for l, r in get_interface(flow.copy(), 'M', **kw):
        (a, j), (b, k) = pos[int(l)], pos[int(r)]
        env.check(j == k, 'edges lie in one layer')
        out.append((j, a, b))
    return out
