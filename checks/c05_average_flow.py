"""C05: averaging flow maps on their combined grid."""
from symx.runner import Config, again
from checks.common import CHAINS, whole_map, flow_map, cell

ID = 'C05'
IMPORTS = ('droplets.average', 'droplets.flow')
BOUNDS = ('droplets.average.average_flow_data on 1..3 maps of up to 3x2 (quick) cells whose origins differ by -2..2 '
          'columns and -1..1 rows (symbolic) plus up to 4 % of a cell of coordinate noise; spacings (0.5, 0.25), '
          '(0.3, 0.1), (0.25, 1); all values symbolic in [-1000, 1000], weights in [0, 1000] or of either sign')
OUTSIDE = 'larger maps; grids offset by a non-integer number of cells; non-rectangular input'


def average(env, shapes, spacing, weights=True, span=(2, 1), noise=True, exclude=False, empty=None,
            names=('X', 'Y'), signed=False, origin=False):
    mod = env.mod('droplets.average')
    FlowData = env.mod('droplets.flow').FlowData
    dx, dy = (env.const(s) for s in spacing)
    x0, y0 = env.real('x0', -100, 100), env.real('y0', -100, 100)
    labels = ('U', 'M', 'N')
    maps, flows = [], []
    lo = 0
    for k, (nx, ny) in enumerate(shapes):
        if k == 0:
            ox = oy = 0
            ex = ey = 0
        else:
            ox = env.choice('ox%d' % k, range(-span[0], span[0] + 1))
            oy = env.choice('oy%d' % k, range(-span[1], span[1] + 1))
            ex = ey = env.const(0)
            if noise:
                ex = env.real('ex%d' % k, '-0.04', '0.04') * dx
                ey = env.real('ey%d' % k, '-0.04', '0.04') * dy
        n = nx * ny
        vals = dict((l, env.reals('%s%d' % (l, k), n, 0 if l != 'U' and not (signed and l == 'M') else None)) for l in labels)
        cells = [(i, j) for j in range(ny) for i in range(nx)]
        X = [x0 + (ox + i) * dx + ex for i, j in cells]
        Y = [y0 + (oy + j) * dy + ey for i, j in cells]
        flows.append(FlowData((names[0], env.arr(X)), (names[1], env.arr(Y)), *[(l, env.arr(vals[l])) for l in labels],
                              info={'shape': (nx, ny), 'spacing': (dx, dy), 'num_bins': n,
                                    'origin': env.reals('o%d' % k, 2) if origin else (X[0], Y[0])}))
        maps.append((ox, oy, nx, ny, vals))
    if empty is not None:
        e = FlowData(*[(l, env.arr([])) for l in names + labels],
                     info={'shape': (0, 0), 'spacing': (dx, dy), 'num_bins': 0})
        flows.insert(empty, e)
    w = [('U', 'M')] if weights else []
    before = [list(f.data['U']) for f in flows]
    avg = mod.average_flow_data(flows, weights=w, exclude_empty_sets=exclude,
                                **({} if names == ('X', 'Y') else {'coord_labels': names}))
    imin, imax = min(m[0] for m in maps), max(m[0] + m[2] for m in maps) - 1
    jmin, jmax = min(m[1] for m in maps), max(m[1] + m[3] for m in maps) - 1
    nx, ny = imax - imin + 1, jmax - jmin + 1
    env.check(tuple(avg.shape) == (nx, ny), 'shape covers all maps')
    env.check(avg.num_bins == nx * ny, 'num_bins')
    env.check(len(avg.data) == nx * ny, 'number of cells')
    env.check_eq(avg.spacing[0], dx, 'dx')
    env.check_eq(avg.spacing[1], dy, 'dy')
    env.check(set(avg.data.dtype.names) == set(names + labels), 'labels')
    tx, ty = dx * env.const('0.1'), dy * env.const('0.1')
    env.check_eq(avg.origin[0], x0 + imin * dx, 'origin x', tol=tx)
    env.check_eq(avg.origin[1], y0 + jmin * dy, 'origin y', tol=ty)
    k = len(maps) + (1 if empty is not None and not exclude else 0)
    if len(avg.data) != nx * ny:
        return
    c = 0
    for j in range(jmin, jmax + 1):
        for i in range(imin, imax + 1):
            rec = avg.data[c]
            c += 1
            env.check_eq(rec[names[0]], x0 + i * dx, 'X of cell', tol=tx)
            env.check_eq(rec[names[1]], y0 + j * dy, 'Y of cell', tol=ty)
            src = [(m[4], (j - m[1]) * m[2] + (i - m[0])) for m in maps
                   if 0 <= i - m[0] < m[2] and 0 <= j - m[1] < m[3]]
            for l in labels:
                vs = [v[l][q] for v, q in src]
                if l == 'U' and weights:
                    ws = [v['M'][q] for v, q in src]
                    tot = env.sum(ws)
                    num = env.sum([a * b for a, b in zip(vs, ws)])
                    if signed:
                        env.check_eq(rec[l] * tot, num, 'weighted mean of %s' % l, when=tot != 0)
                        continue
                    env.check(env.finite(rec[l]), 'weighted mean is finite')
                    env.check_eq(env.ite(tot > 0, rec[l] * tot, rec[l]), env.ite(tot > 0, num, 0),
                                 'mass weighted mean of %s' % l)
                else:
                    env.check_eq(rec[l] * k, env.sum(vs), 'mean of %s' % l)
    for f, b in zip(flows, before):
        env.check_eq_all(f.data['U'], b, 'input is unchanged')


def whole(env, types):
    """maps of whole numbers: their mean is not"""
    mod = env.mod('droplets.average')
    FlowData = env.mod('droplets.flow').FlowData
    d = env.const(1)
    flows, vals = [], []
    for k, t in enumerate(types):
        make = (lambda n, lo: [env.choice('%s%d' % (n, k), (lo, 2, 3)) + q for q in range(2)]) if t is int else \
            (lambda n, lo: env.reals('%s%d' % (n, k), 2, lo, 9))
        v = {'U': make('U', -9), 'M': make('M', 1)}
        flows.append(FlowData(('X', env.np.array([0, 1], dtype=t)), ('Y', env.np.array([0, 0], dtype=t)), *[(l, env.np.array(v[l], dtype=int) if t is int else env.arr(v[l])) for l in v],
                              info={'shape': (2, 1), 'spacing': (d, d), 'num_bins': 2, 'origin': (d * 0, d * 0)}))
        vals.append(v)
    avg = mod.average_flow_data(flows, weights=[('U', 'M')])
    env.check(len(avg.data) == 2, 'number of cells')
    for q in range(min(2, len(avg.data))):
        tot = env.sum([v['M'][q] for v in vals])
        env.check_eq(avg.data['M'][q] * len(types), tot, 'mean of M')
        env.check_eq(avg.data['U'][q] * tot, env.sum([v['M'][q] * v['U'][q] for v in vals]), 'mass weighted mean of U')


def chained(env, weights, maps=2):
    """weights which are averaged themselves weight by their values in the maps"""
    mod = env.mod('droplets.average')
    FlowData = env.mod('droplets.flow').FlowData
    d = env.const(1)
    flows, vals = [], []
    for k in range(maps):
        v = dict((l, env.reals('%s%d' % (l, k), 2, '0.5', 9)) for l in 'UMN')
        flows.append(FlowData(('X', env.arr([d * k, d * (k + 1)])), ('Y', env.arr([d * 0, d * 0])), *[(l, env.arr(v[l])) for l in 'MUN'],
                              info={'shape': (2, 1), 'spacing': (d, d), 'num_bins': 2, 'origin': (d * k, d * 0)}))
        vals.append(v)
    avg = mod.average_flow_data(flows, weights=CHAINS[weights])
    by = dict(CHAINS[weights])
    env.check(len(avg.data) == maps + 1, 'number of cells')
    for c in range(min(maps + 1, len(avg.data))):
        src = [(v, c - k) for k, v in enumerate(vals) if 0 <= c - k < 2]
        for l in 'UMN':
            if l in by:
                ws = [v[by[l]][q] for v, q in src]
                env.check_eq(avg.data[l][c] * env.sum(ws), env.sum([v[l][q] * w for (v, q), w in zip(src, ws)]), 'weighted mean of %s' % l)
            else:
                env.check_eq(avg.data[l][c] * maps, env.sum([v[l][q] for v, q in src]), 'mean of %s' % l)


def refused(env):
    """maps without or with different spacing"""
    mod = env.mod('droplets.average')
    FlowData = env.mod('droplets.flow').FlowData
    v = env.arr(env.reals('v', 1))
    a, b = env.reals('d', 2, '0.01', 10)
    f1 = FlowData(('X', v), ('Y', v), ('M', v), info={'shape': (1, 1), 'spacing': (a, a)})
    f2 = FlowData(('X', v), ('Y', v), ('M', v), info={'shape': (1, 1), 'spacing': (a, b)})
    diff = env.abs(a - b)
    env.assume(env.or_(diff <= env.const('0.0000001') * b, diff >= env.const('0.01') * b))
    err = env.raises(ValueError, lambda: mod.average_flow_data([f1, f2]))
    env.check(env.iff(diff >= env.const('0.01') * b, err is not None), 'different spacings are refused')
    f3 = FlowData(('X', v), ('Y', v), ('M', v), info={'shape': (1, 1)})
    env.check(env.raises(ValueError, lambda: mod.average_flow_data([f3])) is not None, 'missing spacing is refused')
    env.check(env.raises(ValueError, lambda: mod.average_flow_data([])) is not None, 'no input is refused')
    env.check(env.raises(KeyError, lambda: mod.average_flow_data([f1], weights=[('Q', 'M')])) is not None,
              'unknown label is refused')


def records(env, k, n, names=('X', 'Y'), axis=0):
    """records on the same coordinates are averaged directly, others are refused"""
    average_data = env.mod('droplets.average').average_data
    FlowData = env.mod('droplets.flow').FlowData
    off = env.real('off', -2, 2)
    env.assume(env.or_(env.abs(off) <= env.const('0.0999'), env.abs(off) >= env.const('0.11')))
    data, vals = [], []
    for q in range(k):
        pos = [[env.const(c) for c in range(n)], [env.const(1 + 2 * c) for c in range(n)]]
        if q == k - 1:
            pos[axis][n - 1] = pos[axis][n - 1] + off
        v = {'U': env.reals('U%d' % q, n, -9, 9), 'M': env.reals('M%d' % q, n, 1, 9)}
        data.append(FlowData((names[0], env.arr(pos[0])), (names[1], env.arr(pos[1])), *[(l, env.arr(v[l])) for l in v]).data)
        vals.append(v)
    got = []
    err = env.raises(ValueError, lambda: got.append(average_data(data, weights=[('U', 'M')], coord_labels=names)))
    env.check(env.iff(err is not None, env.abs(off) >= env.const('0.11')), 'data on other coordinates is refused')
    for avg in got:
        env.check(len(avg) == n, 'number of cells')
        for c in range(min(n, len(avg))):
            tot = env.sum([v['M'][c] for v in vals])
            env.check_eq(avg[names[0]][c], data[0][names[0]][c], 'coordinates')
            env.check_eq(avg[names[1]][c], data[0][names[1]][c], 'coordinates')
            env.check_eq(avg['M'][c] * k, tot, 'mean of M')
            env.check_eq(avg['U'][c] * tot, env.sum([v['M'][c] * v['U'][c] for v in vals]), 'mass weighted mean of U')


def whole_records(env, floats):
    """records of whole numbers (those of the last map in some fields are not)"""
    average_data = env.mod('droplets.average').average_data
    maps = [whole_map(env, 2, 1, 'UM'), whole_map(env, 2, 1, 'UM', floats)]
    data = [f.data for f, v in maps]
    avg = average_data(data, weights=[('U', 'M')])
    env.check(len(avg) == 2, 'number of cells')
    for (f, v), d in zip(maps, data):
        for l in v:
            env.check_eq_all(d[l], v[l], 'input %s is unchanged' % l)
    for c in range(min(2, len(avg))):
        tot = env.sum([v['M'][c] for f, v in maps])
        env.check_eq(avg['X'][c], c, 'coordinates')
        env.check_eq(avg['M'][c] * 2, tot, 'mean of M', tol=env.const('0.000001'))
        env.check_eq(avg['U'][c] * tot, env.sum([v['M'][c] * v['U'][c] for f, v in maps]), 'mass weighted mean of U',
                     tol=env.const('0.000001'))


def no_records(env):
    """no data gives no data; data of other sizes is refused"""
    average_data = env.mod('droplets.average').average_data
    FlowData = env.mod('droplets.flow').FlowData
    env.check(len(average_data([])) == 0, 'no data')
    v = env.arr(env.reals('v', 3))
    data = [FlowData(('X', v[:n]), ('Y', v[:n]), ('M', v[:n])).data for n in (2, 3)]
    env.check(env.raises(ValueError, lambda: average_data(data)) is not None, 'data of other sizes is refused')


def configs(tier):
    out = [
        Config('one', average, dict(shapes=[(2, 3)], spacing=('0.5', '0.25'))),
        Config('two', average, dict(shapes=[(2, 2), (2, 1)], spacing=('0.5', '0.25'))),
        Config('two-arithmetic', average, dict(shapes=[(1, 2), (2, 2)], spacing=('0.3', '0.1'), weights=False)),
        Config('two-wide', average, dict(shapes=[(3, 2), (2, 2)], spacing=('0.25', '1'))),
        Config('three', average, dict(shapes=[(2, 1), (1, 2), (2, 2)], spacing=('0.3', '0.1'), span=(1, 1))),
        Config('coord-labels', average, dict(shapes=[(2, 1), (1, 2)], spacing=('0.5', '0.25'), span=(1, 1),
                                             names=('cx', 'cy'))),
        Config('empty-excluded', average, dict(shapes=[(2, 1), (2, 1)], spacing=('0.5', '0.25'), span=(1, 0),
                                               exclude=True, empty=1)),
        Config('empty-included', average, dict(shapes=[(2, 1), (2, 1)], spacing=('0.5', '0.25'), span=(1, 0),
                                               empty=1)),
        Config('single-excluded', average, dict(shapes=[(1, 1), (2, 1)], spacing=('0.5', '0.25'), span=(1, 0), exclude=True)),
        Config('singles', average, dict(shapes=[(1, 1), (1, 1)], spacing=('0.5', '0.25'), span=(2, 1))),
        Config('signed', average, dict(shapes=[(2, 1), (2, 1)], spacing=('0.5', '0.25'), span=(1, 0), signed=True)),
        Config('origins', average, dict(shapes=[(2, 1), (1, 2)], spacing=('0.5', '0.25'), span=(1, 1), origin=True)),
        Config('refused', refused), Config('whole', whole, dict(types=(int, int))), Config('whole-first', whole, dict(types=(int, float))),
    ]
    out += [Config('records', records, dict(k=2, n=2)), Config('records-y', records, dict(k=3, n=2, names=('cx', 'cy'), axis=1)), Config('no-records', no_records)]
    out += [Config('whole-records-%s' % (k or 'all'), whole_records, dict(floats=k)) for k in ('', 'U', 'M')]
    out += [Config(w, chained, dict(weights=w)) for w in CHAINS] + [Config('chain-three', chained, dict(weights='chain', maps=3))]
    again(out, 'two', ('two-arithmetic', 'two'), ('two', 'three'), ('singles', 'empty-excluded'), ('records', 'records-y'), ('records', 'two'))
    if tier == 'thorough':
        out += [Config('three-wide', average, dict(shapes=[(3, 3), (2, 3), (4, 2)], spacing=('0.3', '0.7'), span=(2, 2))),
                Config('two-large', average, dict(shapes=[(4, 5), (5, 4)], spacing=('0.25', '0.1'), span=(5, 5)))]
    return out
