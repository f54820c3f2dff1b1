"""Shared helpers of the harnesses."""


def flow_map(env, name, nx, ny, x0, y0, dx, dy, labels, order='y', lo=None):
    """Cells of a regular map in y-major ('y') or x-major ('x') order:
    (cell indices, dict of label -> list of symbolic values)"""
    cells = ([(i, j) for j in range(ny) for i in range(nx)] if order == 'y'
             else [(i, j) for i in range(nx) for j in range(ny)])
    vals = {'X': [x0 + i * dx for i, j in cells], 'Y': [y0 + j * dy for i, j in cells]}
    for l in labels:
        vals[l] = env.reals('%s%s' % (l, name), nx * ny, (lo or {}).get(l, 0 if l in 'NM' else None))
    return cells, vals


def cancelling(env, n):
    """weights of either sign, some of which cancel"""
    sets = ((1, -1, 2, -2), (1, 1, -1, -1), (1, -3, 1, 0), (0, 2, 0, -2), (-1, 2, 2, 0))
    pick = env.choice('weights', range(len(sets)))
    return [env.lit(str(sets[pick][k % 4])) for k in range(n)]


# weights which are averaged by weights of their own, or by themselves, in either order
CHAINS = {'chain': [('U', 'N'), ('N', 'M')], 'chain-back': [('N', 'M'), ('U', 'N')], 'chain-self': [('M', 'M'), ('U', 'M'), ('N', 'U')]}


def whole_map(env, nx, ny, labels, floats=()):
    """a map of whole numbers (but for the labels of floats), which is at (0, 0) with a spacing of 1: (flow data, values)"""
    FlowData = env.mod('droplets.flow').FlowData
    vals = {'X': [i for j in range(ny) for i in range(nx)], 'Y': [j for j in range(ny) for i in range(nx)]}
    for l in labels:
        if l in floats:
            vals[l] = env.reals(l, nx * ny, '0.5', 9)
        else:
            first = env.choice("whole" + l, (1, 2, 4))
            vals[l] = [first + q * q % 3 for q in range(nx * ny)]
    return FlowData(*[(l, env.arr(vals[l]) if l in floats else env.np.array(vals[l], dtype=int)) for l in vals],
                    info={'shape': (nx, ny), 'spacing': (1, 1), 'num_bins': nx * ny, 'origin': (0, 0)}), vals


def cell(vals, l, i, j, nx, ny, order='y'):
    return vals[l][j * nx + i] if order == 'y' else vals[l][i * ny + j]


def cell_order(order, nx, ny):
    """the cells (column, row) of a map in one of the less usual orders; None if the order is unknown"""
    if order == 'mirror':
        return [(i, j) for j in range(ny) for i in reversed(range(nx))]
    if order == 'flip':
        return [(i, j) for j in reversed(range(ny)) for i in range(nx)]
    if order == 'xflip':
        return [(i, j) for i in range(nx) for j in reversed(range(ny))]
    if order == 'snake':
        return [(i if j % 2 == 0 else nx - 1 - i, j) for j in range(ny) for i in range(nx)]
    if order == 'swap':
        # sorted up to the two last cells
        out = [(i, j) for j in range(ny) for i in range(nx)]
        out[-1], out[-2] = out[-2], out[-1]
        return out
    return None


def index_order(order, nx, ny):
    """the same as indices into the cells in y-major order"""
    return [j * nx + i for i, j in cell_order(order, nx, ny)]
