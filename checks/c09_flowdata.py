"""C09: the FlowData container."""
from symx.runner import Config, again

ID = 'C09'
IMPORTS = ('droplets.flow',)
BOUNDS = ('droplets.flow.FlowData with 1..5 (quick) / 7 records and 2..4 labels, all values and limits symbolic; every sequence of 3 (quick) / 4 of '
          '13 operations on a map of 4 records; cut on '
          'grids of up to 3x2 (quick) / 4x3 cells with symbolic limits')
OUTSIDE = 'more records; integer and other data types than float; non-finite values'


def flow_of(env, n, labels=('X', 'Y', 'C'), info=True):
    FlowData = env.mod('droplets.flow').FlowData
    vals = dict((l, env.reals(l, n)) for l in labels)
    meta = {'shape': (n, 1), 'spacing': (env.const('0.5'), env.const('0.25')), 'origin': (env.real('ox'), env.real('oy')),
            'num_bins': n} if info else {}
    return FlowData(*[(l, env.arr(vals[l])) for l in labels], info=meta), vals, meta


def same(env, flow, vals, msg):
    for l in vals:
        env.check_eq_all(flow.data[l], vals[l], '%s: %s' % (msg, l))


def setup(env, n):
    """every way of giving the data stores the same records"""
    FlowData = env.mod('droplets.flow').FlowData
    labels = ('X', 'Y', 'C')
    vals = dict((l, env.reals(l, n)) for l in labels)
    arrs = dict((l, env.arr(v)) for l, v in vals.items())
    a = FlowData(*[(l, arrs[l]) for l in labels])
    b = FlowData(dict(arrs))
    c = FlowData({'X': arrs['X']}, ('Y', arrs['Y']), {'C': arrs['C']})
    d = FlowData(*[(l, vals[l]) for l in labels])
    for f, nm in ((a, 'tuples'), (b, 'dict'), (c, 'mixed'), (d, 'lists')):
        env.check(tuple(f.properties) == labels, 'labels from ' + nm)
        env.check(len(f.data) == n, 'records from ' + nm)
        same(env, f, vals, nm)
        env.check(f.shape == (None, None) and f.spacing == (None, None) and f.origin == (None, None)
                  and f.num_bins is None and f.size() is None, 'unset information')
        env.check_eq_all(f.get_data('C'), vals['C'], 'get_data')
        env.check(f.get_data('Q') is None, 'get_data of an unknown label')
    if n % 2 == 0:
        g = FlowData(*[(l, arrs[l].reshape(2, n // 2)) for l in labels])
        same(env, g, vals, '2D input')
    # data does not alias the input
    a.data['C'][0] = a.data['C'][0] + 1
    env.check_eq_all(arrs['C'], vals['C'], 'input is not aliased')
    err = env.raises(ValueError, lambda: FlowData(('X', arrs['X']), ('Y', env.arr(env.reals('Z', n + 2)))))
    env.check(err is not None, 'arrays of different size are refused')
    if n > 1:
        err = env.raises(ValueError, lambda: FlowData(('X', arrs['X']), ('Y', env.arr(env.reals('Z', 1)))))
        env.check(err is not None, 'a single value is not an array of equal size')
    err = env.raises(TypeError, lambda: FlowData([1, 2]))
    env.check(err is not None, 'other input is refused')


def info(env):
    FlowData = env.mod('droplets.flow').FlowData
    v = env.arr(env.reals('v', 2))
    nx, ny, nb = env.int('nx', 1, 50), env.int('ny', 1, 50), env.int('nb', 1, 99)
    ox, oy = env.reals('o', 2)
    dx, dy = env.reals('d', 2, '0.01', 10)
    f = FlowData(('X', v), ('Y', v), info={'shape': [nx, ny], 'origin': [ox, oy], 'spacing': [dx, dy], 'num_bins': nb})
    env.check(isinstance(f.shape, tuple) and isinstance(f.origin, tuple) and isinstance(f.spacing, tuple), 'tuples')
    for got, want, nm in ((f.shape, (nx, ny), 'shape'), (f.origin, (ox, oy), 'origin'), (f.spacing, (dx, dy), 'spacing')):
        env.check(len(got) == 2, nm)
        for a, b in zip(got, want):
            env.check_eq(a, b, nm)
    env.check_eq(f.num_bins, nb, 'num_bins')
    sx, sy = f.size()
    env.check_eq(sx, nx * dx, 'size x')
    env.check_eq(sy, ny * dy, 'size y')
    f.set_info({'shape': (ny, nx)})
    env.check_eq(f.shape[0], ny, 'shape after set_info')
    env.check(f.origin == (None, None) and f.spacing == (None, None) and f.num_bins is None, 'others are reset')
    for key, bad in (('shape', (1,)), ('shape', 'ab'), ('origin', (1,)), ('origin', ('a', 'b')), ('spacing', 3),
                     ('num_bins', (1, 2)), ('num_bins', 'x')):
        env.check(env.raises(ValueError, lambda: f.set_info({key: bad})) is not None, 'bad %s is refused' % key)
    env.check(env.raises(KeyError, lambda: f.set_info({'size': (1, 2)})) is not None, 'unknown information is refused')


def copy(env, n):
    flow, vals, meta = flow_of(env, n)
    new = flow.copy()
    same(env, new, vals, 'copy')
    env.check(tuple(new.properties) == tuple(flow.properties), 'labels of the copy')
    env.check(new.shape == flow.shape and new.num_bins == flow.num_bins, 'information of the copy')
    env.check_eq_all(list(new.spacing) + list(new.origin), list(flow.spacing) + list(flow.origin), 'information of the copy')
    d = env.real('delta')
    for l in vals:
        for i in range(n):
            new.data[l][i] = d
    new.spacing = (d, d)
    same(env, flow, vals, 'the original is independent of the copy')
    env.check_eq_all(flow.spacing, meta['spacing'], 'the original is independent of the copy')
    t = env.real('t')
    moved = flow.translate('C', t)
    env.check_eq_all(moved.data['C'], [v + t for v in vals['C']], 'translated data')
    for l in ('X', 'Y'):
        env.check_eq_all(moved.data[l], vals[l], 'other data is not translated')
    same(env, flow, vals, 'the original is not translated')
    env.check(moved.shape == flow.shape and moved.num_bins == flow.num_bins, 'information after translate')
    env.check_eq_all(list(moved.spacing) + list(moved.origin), list(flow.spacing) + list(flow.origin), 'information after translate')
    ts = env.reals('ts', n)
    moved = flow.translate('X', env.arr(ts))
    env.check_eq_all(moved.data['X'], [v + w for v, w in zip(vals['X'], ts)], 'translated by an array')
    env.check(env.raises(KeyError, lambda: flow.translate('Q', t)) is not None, 'unknown label is refused')
    env.check(env.raises(ValueError, lambda: flow.translate('X', env.arr(env.reals('w', n + 1)))) is not None,
              'an array of another size is refused')


def unset(env, n, given):
    """information which is not set is not made up"""
    FlowData = env.mod('droplets.flow').FlowData
    vals = dict((l, env.reals(l, n)) for l in 'XYC')
    known = {'shape': (n, 1), 'spacing': (env.real('dx', 0, 2), env.real('dy', 0, 2)), 'origin': (env.real('ox'), env.real('oy')),
             'num_bins': n + 1}
    flow = FlowData(*[(l, env.arr(vals[l])) for l in 'CXY'], info=dict((k, known[k]) for k in given))
    t = env.real('t')

    def told(f, keys, what):
        for k in ('shape', 'num_bins'):
            none = (None, None) if k == 'shape' else None
            env.check(getattr(f, k) == (known[k] if k in keys else none), '%s of %s' % (k, what))
        for k in ('spacing', 'origin'):
            got = getattr(f, k)
            if k in keys:
                env.check(None not in list(got), '%s of %s' % (k, what))
                if None not in list(got):
                    env.check_eq_all(list(got), list(known[k]), '%s of %s' % (k, what))
            else:
                env.check(got == (None, None), '%s of %s is unset' % (k, what))
        size = f.size()
        env.check((size is not None) == ('shape' in keys and 'spacing' in keys), 'size of ' + what)
        if size is not None:
            env.check_eq_all(list(size), [known['shape'][0] * known['spacing'][0], known['spacing'][1]], 'size of ' + what)
    told(flow, given, 'the map')
    told(flow.copy(), given, 'the copy')
    told(flow.translate('X', t), given, 'the translated map')
    new = flow.lims('C', None, None)
    env.check(new.num_bins == n, 'num_bins of the limited map')
    new.num_bins = known['num_bins']
    told(new, [k for k in given if k == 'spacing'] + ['num_bins'], 'the limited map')
    told(flow, given, 'the map afterwards')


def lims(env, n, which):
    flow, vals, meta = flow_of(env, n)
    a, b = env.real('a'), env.real('b')
    lo, hi = {'both': (a, b), 'low': (a, None), 'high': (None, b), 'none': (None, None)}[which]
    new = flow.lims('C', lo, hi)
    keep = [env.and_(True if lo is None else v >= lo, True if hi is None else v <= hi) for v in vals['C']]
    idx = [i for i in range(n) if env.fork(keep[i])]
    env.check(tuple(new.properties) == ('X', 'Y', 'C'), 'labels')
    env.check(len(new.data) == len(idx), 'exactly the records within the limits are kept')
    if len(new.data) == len(idx):
        for l in vals:
            env.check_eq_all(new.data[l], [vals[l][i] for i in idx], 'kept records are unchanged, in order: ' + l)
    env.check(new.num_bins == len(idx), 'num_bins is updated')
    env.check(new.shape == (None, None) and new.origin == (None, None), 'shape and origin are unset')
    env.check_eq_all(new.spacing, meta['spacing'], 'spacing is kept')
    same(env, flow, vals, 'the original is unchanged')
    env.check(flow.num_bins == n, 'the original is unchanged')
    env.check(env.raises(KeyError, lambda: flow.lims('Q', lo, hi)) is not None, 'unknown label is refused')
    env.check(env.raises(TypeError, lambda: flow.lims('C', 'a', hi)) is not None, 'bad limits are refused')


def cut(env, nx, ny, which, order='y', spacing=('0.5', '0.25'), edge=False):
    FlowData = env.mod('droplets.flow').FlowData
    dx, dy = (env.const(d) for d in spacing)
    x0, y0 = env.real('x0', -100, 100), env.real('y0', -100, 100)
    half = env.lit('0.5')
    # the origin is that of the first cell or its lower edge
    ox, oy = (x0 - half * dx, y0 - half * dy) if edge else (x0, y0)
    pos = [(i, j) for j in range(ny) for i in range(nx)]
    if order == 'x':
        pos = [(i, j) for i in range(nx) for j in range(ny)]
    vals = {'X': [x0 + i * dx for i, j in pos], 'Y': [y0 + j * dy for i, j in pos], 'C': env.reals('C', nx * ny)}
    flow = FlowData(*[(l, env.arr(vals[l])) for l in ('C', 'X', 'Y')],
                    info={'shape': (nx, ny), 'spacing': (dx, dy), 'origin': (ox, oy), 'num_bins': nx * ny})
    kw, keep = {}, {}
    for ax, o, d, n in (('x', x0, dx, nx), ('y', y0, dy, ny)):
        lo = hi = None
        if ax + '0' in which:
            lo = env.real(ax + 'lo', -110, 110)
        if ax + '1' in which:
            hi = env.real(ax + 'hi', -110, 110)
        if lo is not None or hi is not None:
            kw[ax + 'lim'] = (lo, hi)
        keep[ax] = [i for i in range(n) if env.fork(env.and_(True if lo is None else o + i * d >= lo,
                                                             True if hi is None else o + i * d <= hi))]
    new = flow.cut(**kw)
    idx = [k for k, (i, j) in enumerate(pos) if i in keep['x'] and j in keep['y']]
    env.check(len(new.data) == len(idx), 'exactly the cells within the limits are kept')
    if len(new.data) == len(idx):
        for l in vals:
            env.check_eq_all(new.data[l], [vals[l][k] for k in idx], 'kept cells are unchanged: ' + l)
    if idx:
        env.check(new.shape == (len(keep['x']), len(keep['y'])), 'shape')
    else:
        env.check(new.shape == (0, 0), 'shape of nothing')
        env.check(new.size() is not None, 'size of nothing')
        env.check_eq_all(list(new.size() or ()), [0, 0], 'size of nothing')
    env.check(new.num_bins == len(idx), 'num_bins')
    env.check_eq_all(new.spacing, (dx, dy), 'spacing')
    env.check_eq_all(new.origin, [kw.get('xlim', (None,))[0] if 'x0' in which else ox,
                                  kw.get('ylim', (None,))[0] if 'y0' in which else oy],
                     'origin is the lower limit or the one of the system')
    for l in vals:
        env.check_eq_all(flow.data[l], vals[l], 'the original is unchanged')
    env.check(flow.shape == (nx, ny), 'the original is unchanged')


def sort(env, n, labels=('X', 'Y'), order=None, others=()):
    """sort orders by (Y, X) and keeps records together"""
    FlowData = env.mod('droplets.flow').FlowData
    vals = {labels[0]: env.reals('X', n), labels[1]: env.reals('Y', n), 'C': [env.const(i) for i in range(n)]}
    vals.update((l, env.reals('other' + l, n)) for l in others)
    flow = FlowData(*[(l, env.arr(vals[l])) for l in order or vals])
    if labels == ('X', 'Y'):
        flow.sort()
    else:
        flow.sort(coord_labels=labels)
    seen = []
    for k in range(n):
        rec = flow.data[k]
        i = next(q for q in range(n) if q == n - 1 or env.fork(rec['C'] == q))
        seen.append(i)
        for l in vals:
            env.check_eq(rec[l], vals[l][i], 'records are kept together')
    env.check(sorted(seen) == list(range(n)), 'no record is lost or repeated')
    xl, yl = labels
    for k in range(n - 1):
        a, b = flow.data[k], flow.data[k + 1]
        env.check(env.or_(a[yl] < b[yl], env.and_(a[yl] == b[yl], a[xl] <= b[xl])), 'ordered by y, then x')


def indices(env, n, which):
    """indices of the records within limits of several fields; which: {label: (lower given, upper given)}"""
    FlowData = env.mod('droplets.flow').FlowData
    get = env.mod('droplets.data_utils').get_lim_indices
    labels = ('X', 'Y', 'C')
    vals = dict((l, env.reals(l, n)) for l in labels)
    data = FlowData(*[(l, env.arr(vals[l])) for l in labels]).data
    limits = dict((l, tuple(env.real('%s_%d' % (l, k)) if g else None for k, g in enumerate(given))) for l, given in which.items())
    want = []
    for k in range(n):
        ok = [vals[l][k] >= v[0] for l, v in limits.items() if v[0] is not None] + [vals[l][k] <= v[1] for l, v in limits.items() if v[1] is not None]
        if env.fork(env.and_(*ok)):
            want.append(k)
    got = data[get(data, limits)]
    env.check(len(got) == len(want), 'records within the limits')
    if len(got) == len(want):
        for l in labels:
            env.check_eq_all(got[l], [vals[l][k] for k in want], 'records within the limits')
    for l in labels:
        env.check_eq_all(data[l], vals[l], 'the data is left alone')


OPS = ('sort', 'sort-yx', 'set-data', 'set-data-T', 'shape', 'spacing', 'cell', 'swap', 'copy', 'translate', 'lims', 'info', 'cut')


def history(env, steps, first=None, ops=OPS):
    """any sequence of operations on a map leaves what the operations say"""
    FlowData = env.mod('droplets.flow').FlowData
    dx, dy = env.const('0.5'), env.const('0.25')
    cells = [(1, 0), (0, 1), (1, 1), (0, 0)]
    want = {'X': [env.const(env.frac('0.5') * (i + env.frac('0.5'))) for i, j in cells],
            'Y': [env.const(env.frac('0.25') * (j + env.frac('0.5'))) for i, j in cells], 'M': env.reals('M', 4)}
    order = list(cells)
    meta = {'shape': (2, 2), 'spacing': (dx, dy), 'origin': (env.const(0), env.const(0)), 'num_bins': 4}
    flow = FlowData(*[(l, env.arr(v)) for l, v in want.items()], info=dict(meta))
    old = []

    def check(f, want, meta, what):
        env.check(tuple(f.properties) == tuple(want), what + ': labels')
        if tuple(f.properties) != tuple(want):
            return
        for l, vals in want.items():
            env.check_eq_all(list(f.data[l]), vals, '%s: %s' % (what, l))
            env.check_eq_all(list(f.get_data(l)), vals, '%s: get_data of %s' % (what, l))
        env.check((f.get_data('T') is None) == ('T' not in want), what + ': get_data of a label')
        for n in ('shape', 'spacing', 'origin'):
            got = getattr(f, n)
            env.check(len(got) == 2, '%s: %s' % (what, n))
            for g, w in zip(got, meta[n]):
                env.check_eq(g, w, '%s: %s' % (what, n))
        env.check_eq(f.num_bins, meta['num_bins'], what + ': number of bins')
        if None in tuple(meta['shape']) + tuple(meta['spacing']):
            env.check(f.size() is None, what + ': no size')
        else:
            size = f.size()
            for k in (0, 1):
                env.check_eq(size[k], meta['shape'][k] * meta['spacing'][k], what + ': size')

    def permute(perm):
        for l in want:
            want[l] = [want[l][k] for k in perm]
        order[:] = [order[k] for k in perm]
    done = []
    for step in range(steps):
        op = first[step] if first and step < len(first) else env.choice('op%d' % step, ops)
        done.append(op)
        n = len(order)
        if op == 'sort':
            flow.sort()
            permute(sorted(range(n), key=lambda k: order[k][::-1]))
        elif op == 'sort-yx':
            flow.sort(coord_labels=('Y', 'X'))
            permute(sorted(range(n), key=lambda k: order[k]))
        elif op in ('set-data', 'set-data-T'):
            want = {'X': want['X'][::-1], 'Y': want['Y'][::-1], 'M': env.reals('M%d' % step, n)}
            if op == 'set-data-T':
                want['T'] = env.reals('T%d' % step, n)
            order.reverse()
            flow.set_data(*[(l, env.arr(v)) for l, v in want.items()])
        elif op == 'shape':
            meta['shape'] = (env.int('nx%d' % step, 1, 9), env.int('ny%d' % step, 1, 9))
            flow.shape = meta['shape']
        elif op == 'spacing':
            meta['spacing'] = (env.real('dx%d' % step, '0.01', 9), env.real('dy%d' % step, '0.01', 9))
            flow.spacing = meta['spacing']
        elif op == 'cell':
            if n:
                want['M'] = list(want['M'])
                want['M'][0] = env.real('m%d' % step)
                flow.data['M'][0] = want['M'][0]
        elif op == 'swap':
            # records are assigned in another order
            flow.data = flow.data[::-1].copy()
            permute(list(range(n))[::-1])
        elif op == 'copy':
            # the original is changed, the copy is kept
            other = flow.copy()
            if n:
                flow.data['M'][0] = flow.data['M'][0] + 1
            flow.shape = (7, 7)
            flow.spacing = (env.const(3), env.const(3))
            flow = other
        elif op == 'translate':
            by = env.real('by%d' % step)
            old.append((flow, dict((l, list(v)) for l, v in want.items()), dict(meta), 'translated map, before'))
            flow = flow.translate('M', by)
            want['M'] = [m + by for m in want['M']]
        elif op == 'lims':
            # the first column
            old.append((flow, dict((l, list(v)) for l, v in want.items()), dict(meta), 'limited map, before'))
            flow = flow.lims('X', None, env.const('0.5'))
            permute([k for k in range(n) if order[k][0] == 0])
            meta = {'shape': (None, None), 'origin': (None, None), 'spacing': meta['spacing'], 'num_bins': len(order)}
        elif op == 'info':
            meta = {'shape': (n, 1), 'spacing': (dx, dx), 'origin': (env.real('ox%d' % step), dy), 'num_bins': n}
            flow.set_info(dict(meta))
        elif op == 'cut' and None not in tuple(meta['shape']) + tuple(meta['origin']):
            old.append((flow, dict((l, list(v)) for l, v in want.items()), dict(meta), 'cut map, before'))
            top = env.const('0.25')
            flow = flow.cut(xlim=(env.const(0), env.const(1)), ylim=(env.const(0), top))
            permute([k for k in range(n) if order[k][1] == 0])
            nx, ny = (len(set(c[k] for c in order)) for k in (0, 1))
            meta = {'shape': (nx, ny), 'spacing': meta['spacing'], 'origin': (env.const(0), env.const(0)), 'num_bins': nx * ny}
        check(flow, want, meta, 'after ' + ', '.join(done))
    for f, w, m, what in old:
        check(f, w, m, what)


def configs(tier):
    out = [
        Config('setup-1', setup, dict(n=1)), Config('setup-4', setup, dict(n=4)),
        Config('info', info), Config('copy', copy, dict(n=3)),
        Config('lims-both', lims, dict(n=4, which='both')), Config('lims-low', lims, dict(n=3, which='low')),
        Config('lims-high', lims, dict(n=3, which='high')), Config('lims-none', lims, dict(n=2, which='none')),
        Config('cut-x', cut, dict(nx=3, ny=2, which=('x0', 'x1'))),
        Config('cut-xy', cut, dict(nx=2, ny=2, which=('x0', 'x1', 'y0', 'y1'), order='x')),
        Config('cut-low', cut, dict(nx=3, ny=2, which=('x0', 'y0'), order='x')),
        Config('cut-wide', cut, dict(nx=3, ny=2, which=('x0',), spacing=('3', '1.5'))),
        Config('cut-tall', cut, dict(nx=2, ny=3, which=('y1',), spacing=('1.5', '4'), order='x')),
        Config('cut-high', cut, dict(nx=2, ny=3, which=('x1', 'y1'))),
        Config('cut-edge', cut, dict(nx=3, ny=2, which=('x0', 'y1'), edge=True)),
        Config('cut-edge-none', cut, dict(nx=2, ny=2, which=(), edge=True, order='x')),
        Config('cut-none', cut, dict(nx=2, ny=2, which=())),
        Config('sort-4', sort, dict(n=4)),
        Config('sort-order', sort, dict(n=3, order=('C', 'Y', 'X'))), Config('sort-last', sort, dict(n=3, order=('Y', 'C', 'X'))),
        Config('unset', unset, dict(n=2, given=())), Config('unset-shape', unset, dict(n=2, given=('spacing', 'origin'))),
        Config('unset-others', unset, dict(n=2, given=('shape',))), Config('unset-origin', unset, dict(n=2, given=('shape', 'spacing', 'num_bins'))),
        Config('sort-labels', sort, dict(n=3, labels=('b', 'a'))),
        Config('sort-others', sort, dict(n=3, labels=('b', 'a'), others=('X', 'Y'))),
    ]
    out += [Config('indices-none', indices, dict(n=2, which={})), Config('indices-one', indices, dict(n=4, which={'Y': (True, True)})),
            Config('indices-two', indices, dict(n=3, which={'C': (True, False), 'X': (False, True)})),
            Config('indices-all', indices, dict(n=2, which={'Y': (True, False), 'X': (True, True), 'C': (False, True)})),
            Config('indices-open', indices, dict(n=2, which={'X': (False, False)}))]
    out += [Config('history-3', history, dict(steps=3), slice_s=5), Config('history-sorted', history, dict(steps=4, first=('sort',), ops=('sort-yx', 'sort', 'swap', 'cell', 'set-data')))]
    if tier == 'thorough':
        out += [Config('history-4', history, dict(steps=4), slice_s=20), Config('lims-7', lims, dict(n=7, which='both')), Config('sort-5', sort, dict(n=5)),
                Config('cut-4x3', cut, dict(nx=4, ny=3, which=('x0', 'x1', 'y0', 'y1')))]
    return again(out, 'copy', ('lims-none', 'lims-both'), ('cut-none', 'cut-xy'), ('sort-last', 'sort-labels'), ('unset', 'info'), ('setup-1', 'setup-4'))
