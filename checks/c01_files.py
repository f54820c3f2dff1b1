"""C01: flow maps survive being written to and read from files."""
from symx.runner import Config, again
from checks.common import cell_order

ID = 'C01'
IMPORTS = ('strata.dataformats.write', 'strata.dataformats.read', 'strata.convert', 'droplets.flow')
BOUNDS = ('grids of 1x1 to 3x3 bins (one larger sparse grid of 4x5), every field value of up to four bins symbolic in '
          '[-1000, 1000] and the rest constants, symbolic origin in [-100, 100], spacings 0.25 to 2; all formats; records '
          'in any order for the simple formats; truncation of a gmx file at any symbolic point of its data')
OUTSIDE = ('larger grids, other magnitudes, raw simple files whose first 512 bytes happen to be UTF-8 text without NUL; '
           'the rounding of the formats is bounded by their precision (relative 2**-24, six decimals), not reproduced')
ASSUMPTIONS = 'data which is not all zero does not look like text'

FIELDS = ('N', 'T', 'M', 'U', 'V')
# padding which moves the end of a written header to a multiple of 1024 bytes
HEAD = 101
EPS = '0.00000006'


def grid(nx, ny):
    return [(i, j) for i in range(nx) for j in range(ny)]


def values(env, nx, ny, sym, name=''):
    """values of the bins in x-major order, the first `sym` of them symbolic"""
    n = nx * ny
    out = {}
    for q, l in enumerate(FIELDS):
        lo = 0 if l in 'NM' else None
        out[l] = [env.real('%s%s[%d]' % (l, name, k), lo) if k < sym else env.const(str(1 + k * 0.5 + q))
                  for k in range(n)]
    return out


def near(env, got, want, msg, decimals=False, when=True):
    tol = env.abs(want) * env.lit(EPS) + env.lit('0.00000055' if decimals else '0.0000000001')
    env.check_eq(got, want, msg, tol=tol, when=when)


def frame(env, nx, ny, x0, y0, dx, dy):
    g = grid(nx, ny)
    return ([x0 + dx * i for i, j in g], [y0 + dy * j for i, j in g])


def compare(env, data, info, meta, nx, ny, xs, ys, vals, dx, dy, kind, order, module, ctol):
    """what was read is the map with bins at xs, ys"""
    env.check(meta['module'] is env.mod('strata.dataformats.%s.main' % module), 'the format is recognised')
    env.check(sorted(data) == sorted(('X', 'Y') + FIELDS), 'all fields')
    env.check(tuple(info['shape']) == (nx, ny), 'shape')
    env.check(info['num_bins'] == nx * ny, 'number of bins')
    if nx > 1 or kind == 'gmx':
        env.check_eq(info['spacing'][0], dx, 'spacing along x', tol=ctol)
    if ny > 1 or kind == 'gmx':
        env.check_eq(info['spacing'][1], dy, 'spacing along y', tol=ctol)
    for l in data:
        env.check(len(data[l]) == nx * ny, 'all bins: ' + l)
    for k in range(nx * ny):
        env.check_eq(data['X'][k], xs[k], 'x coordinate', tol=ctol)
        env.check_eq(data['Y'][k], ys[k], 'y coordinate', tol=ctol)
        empty = vals['M'][k] == 0
        for l in FIELDS:
            if kind == 'gmx':
                near(env, data[l][k], env.ite(empty, 0, vals[l][k]), 'value of ' + l)
            else:
                near(env, data[l][k], vals[l][k], 'value of ' + l, decimals=kind == 'simple_plain')


def roundtrip(env, ftype, nx, ny, spacing, sym, order='x', record=False, origin=None):
    write = env.mod('strata.dataformats.write').write
    read = env.mod('strata.dataformats.read')
    dx, dy = (env.const(s) for s in spacing)
    if origin is None:
        x0, y0 = env.real('x0', -100, 100), env.real('y0', -100, 100)
    else:
        x0, y0 = (env.const(s) for s in origin)
    kind = 'gmx' if ftype in (None, 'gmx', 'default') else ftype
    half = env.lit('0.5')
    # gmx: the origin is the corner of the grid, the bins lie at the mid points
    xs, ys = frame(env, nx, ny, x0 + dx * half, y0 + dy * half, dx, dy)
    vals = values(env, nx, ny, sym)
    n = nx * ny
    idx = list(range(n))
    if order == 'y':
        idx = [i * ny + j for j in range(ny) for i in range(nx)]
    elif order == 'reverse':
        idx = idx[::-1]
    elif order == 'shuffle':
        step = next(s for s in (5, 7, 11, 13) if n % s)
        idx = [(step * k + 2) % n for k in range(n)]
    elif order != 'x':
        idx = [i * ny + j for i, j in cell_order(order, nx, ny)]
    cols = [('X', [xs[k] for k in idx]), ('Y', [ys[k] for k in idx])] + [(l, [vals[l][k] for k in idx]) for l in FIELDS]
    if record == 'dict':
        flow = env.mod('droplets.flow').FlowData(*[(l, env.arr(v)) for l, v in cols[::-1]])
        data = env.mod('strata.dataformats.write').flowdata_to_dict(flow)
    elif record:
        data = env.mod('droplets.flow').FlowData(*[(l, env.arr(v)) for l, v in cols[::-1]]).data
    else:
        data = dict((l, env.arr(v)) for l, v in cols[::-1])
    info = {'shape': (nx, ny), 'spacing': (dx, dy), 'origin': (x0, y0), 'num_bins': n}
    kw = {} if ftype is None else {'ftype': ftype}
    write('out/map00001.dat', data, info, **kw)
    if not record:
        for l, v in cols:
            for k in range(n):
                env.check_eq(data[l][k], v[k], 'the written data is left alone')
    env.check(env.listing() == ['out/map00001.dat'], 'one file is written')
    before = env.read_raw('out/map00001.dat')
    got, ginfo, meta = read.read_data_file('out/map00001.dat')
    env.check(env.read_raw('out/map00001.dat') == before, 'reading leaves the file alone')
    env.check(meta['path'] == 'out/map00001.dat', 'path of the file')
    # gmx: six decimals of the origin and of the spacing, times the number of bins
    ctol = env.lit('0.00005') if kind != 'gmx' else env.lit('0.0000005') * (1 + max(nx, ny)) + env.lit('0.0000001')
    compare(env, got, ginfo, meta, nx, ny, xs, ys, vals, dx, dy, kind, order,
            'gmx_flow_version_1' if kind == 'gmx' else 'simple', ctol)
    # the origin: of the grid, as it was written, or of the bins
    env.check_eq(ginfo['origin'][0], x0 if kind == 'gmx' else xs[0], 'origin along x', tol=ctol)
    env.check_eq(ginfo['origin'][1], y0 if kind == 'gmx' else ys[0], 'origin along y', tol=ctol)


def convert(env, kinds, to, begin, end):
    """a series of maps of mixed formats is converted file by file"""
    write = env.mod('strata.dataformats.write').write
    read = env.mod('strata.dataformats.read')
    nx, ny = 2, 2
    half = env.lit('0.5')
    dx, dy = env.const('0.5'), env.const('0.25')
    maps, before = {}, {}
    for f, kind in enumerate(kinds):
        x0, y0 = env.const(f), env.const('1.5')
        vals = values(env, nx, ny, 1, str(f))
        xs, ys = frame(env, nx, ny, x0 + dx * half, y0 + dy * half, dx, dy)
        data = dict([('X', env.arr(xs)), ('Y', env.arr(ys))] + [(l, env.arr(vals[l])) for l in FIELDS])
        p = 'in/map_%05d.dat' % (f + 1)
        write(p, data, {'shape': (nx, ny), 'spacing': (dx, dy), 'origin': (x0, y0), 'num_bins': 4}, ftype=kind)
        before[p] = env.read_raw(p)
        maps[f + 1] = (xs, ys, vals, kind)
    kw = {} if to is None else {'ftype': to}
    if begin is not None:
        kw['begin'] = begin
    if end is not None:
        kw['end'] = end
    env.mod('strata.convert').convert('in/map_', 'new/c', quiet=True, **kw)
    want = [k for k in sorted(maps) if k >= (begin or 1) and (end is None or k <= end)]
    env.check(env.listing() == sorted(list(before) + ['new/c%05d.dat' % k for k in want]), 'one output file for each input')
    for p in before:
        env.check(env.read_raw(p) == before[p], 'inputs are left alone')
    kind = to or 'gmx'
    for k in want:
        xs, ys, vals, was = maps[k]
        got, info, meta = read.read_data_file('new/c%05d.dat' % k)
        env.check(meta['module'] is env.mod('strata.dataformats.%s.main' % (
            'gmx_flow_version_1' if kind == 'gmx' else 'simple')), 'the wanted format is written')
        env.check(tuple(info['shape']) == (nx, ny), 'shape')
        env.check_eq(info['spacing'][0], dx, 'spacing', tol=env.lit('0.0001'))
        env.check_eq(info['spacing'][1], dy, 'spacing', tol=env.lit('0.0001'))
        for q in range(nx * ny):
            if kind != 'gmx' or was == 'gmx':
                env.check_eq(got['X'][q], xs[q], 'x coordinate', tol=env.lit('0.0001'))
                env.check_eq(got['Y'][q], ys[q], 'y coordinate', tol=env.lit('0.0001'))
            # a missing bin reads as empty
            gone = vals['M'][q] == 0 if 'gmx' in (was, kind) else False
            faint = env.and_(vals['M'][q] > 0, vals['M'][q] < env.lit('0.00001')) if 'gmx' in (was, kind) else False
            for l in FIELDS:
                tol = env.abs(vals[l][q]) * env.lit('0.0000002') + env.lit('0.0000012')
                env.check_eq(got[l][q], env.ite(gone, 0, vals[l][q]), 'value of ' + l, tol=tol, when=env.not_(faint))


def sequence(env):
    """maps are read one after another in the given order"""
    write = env.mod('strata.dataformats.write').write
    read = env.mod('strata.dataformats.read')
    names = ['b.dat', 'a.dat', 'c.dat', 'a.dat']
    ms = {}
    for q, (p, kind) in enumerate((('a.dat', 'gmx'), ('b.dat', 'simple'), ('c.dat', 'simple_plain'))):
        v = env.real('M' + p, 1, 2)
        ms[p] = v
        xs, ys = frame(env, 2, 2, env.const('0.5'), env.const('0.5'), env.const(1), env.const(1))
        data = dict([('X', env.arr(xs)), ('Y', env.arr(ys))] + [(l, env.arr([v] * 4)) for l in FIELDS])
        write(p, data, {'shape': (2, 2), 'spacing': (env.const(1),) * 2, 'origin': (env.const(0),) * 2, 'num_bins': 4},
              ftype=kind)
    got = list(read.read_from_files(*names))
    env.check(len(got) == len(names), 'every file is read')
    for p, (data, info, meta) in zip(names, got):
        env.check(meta['path'] == p, 'in order')
        for k in range(4):
            near(env, data['M'][k], ms[p], 'value of M', decimals=p == 'c.dat')


def header(env, pad):
    """gmx files with other headers"""
    write = env.mod('strata.dataformats.write').write
    read = env.mod('strata.dataformats.read')
    vals = values(env, 2, 1, 1)
    env.assume(vals['M'][0] >= 1)
    dx, dy, x0, y0 = (env.const(v) for v in ('0.5', '2', '-1.25', '3'))
    half = env.lit('0.5')
    xs, ys = frame(env, 2, 1, x0 + dx * half, y0 + dy * half, dx, dy)
    data = dict([('X', env.arr(xs)), ('Y', env.arr(ys))] + [(l, env.arr(vals[l])) for l in FIELDS])
    write('a.dat', data, {'shape': (2, 1), 'spacing': (dx, dy), 'origin': (x0, y0), 'num_bins': 2})
    kind = env.choice('version', ('GMX_FLOW_1', 'GMX_FLOW_2'))
    env.replace_bytes('a.dat', 'FORMAT GMX_FLOW_1', 'FORMAT ' + kind)
    n = env.choice('padding', pad)
    if n:
        env.replace_bytes('a.dat', 'COMMENT', 'COMMENT' + ' ' * n)
    got, info, meta = read.read_data_file('a.dat')
    compare(env, got, info, meta, 2, 1, xs, ys, vals, dx, dy, 'gmx', 'x', 'gmx_flow_version_1', env.lit('0.000005'))


def columns(env, order):
    """plaintext maps name their columns, in any order"""
    read = env.mod('strata.dataformats.read')
    nx, ny = 2, 3
    dx, dy = env.const('0.5'), env.const('0.25')
    xs, ys = frame(env, nx, ny, env.const('10.5'), env.const('-0.25'), dx, dy)
    vals = values(env, nx, ny, 2)
    cols = dict(vals, X=xs, Y=ys)
    lines = [' '.join(order)]
    for k in range(nx * ny):
        lines.append(' '.join(env.fmt('%.6f', cols[l][k]) for l in order))
    env.write_text('a.dat', '\n'.join(lines) + '\n')
    got, info, meta = read.read_data_file('a.dat')
    compare(env, got, info, meta, nx, ny, xs, ys, vals, dx, dy, 'simple_plain', 'x', 'simple', env.lit('0.00005'))


def refused(env, what):
    write = env.mod('strata.dataformats.write').write
    info = {'shape': (2, 1), 'spacing': (env.const(1),) * 2, 'origin': (env.const(0),) * 2, 'num_bins': 2}
    data = dict([('X', env.arr([env.const('0.5'), env.const('1.5')])), ('Y', env.arr([env.const('0.5')] * 2))]
                + [(l, env.arr(env.reals(l, 2, 1))) for l in FIELDS])
    if what == 'ftype':
        env.check(env.raises(KeyError, lambda: write('a.dat', data, info, ftype='unknown')) is not None,
                  'unknown formats are refused')
        env.check(env.listing() == [], 'nothing is written')
    elif what == 'fields':
        l = env.choice('missing', ('X', 'Y') + FIELDS)
        kind = env.choice('kind', ('simple', 'simple_plain'))
        del data[l]
        env.check(env.raises(KeyError, lambda: write('a.dat', data, ftype=kind)) is not None, 'missing fields are refused')
        env.check(env.listing() == [], 'nothing is written')


def truncated(env, nx, ny, step):
    """a gmx file which was cut short is not taken for a map"""
    write = env.mod('strata.dataformats.write').write
    read = env.mod('strata.dataformats.read')
    vals = values(env, nx, ny, 2)
    for k in range(2):
        env.assume(vals['M'][k] >= 1)
    xs, ys = frame(env, nx, ny, env.const('0.5'), env.const('0.5'), env.const(1), env.const(1))
    data = dict([('X', env.arr(xs)), ('Y', env.arr(ys))] + [(l, env.arr(vals[l])) for l in FIELDS])
    write('a.dat', data, {'shape': (nx, ny), 'spacing': (env.const(1),) * 2, 'origin': (env.const(0),) * 2,
                          'num_bins': nx * ny})
    total = 36 * nx * ny
    lost = env.choice('bytes lost', list(range(1, total + 1, step)) + [total, total + 1, total + 200])
    env.cut_file('a.dat', lost)
    env.check(env.raises(Exception, lambda: read.read_data_file('a.dat')) is not None, 'a truncated file is refused')


def configs(tier):
    A, B, C = ('0.5', '0.25'), ('0.3', '0.7'), ('1', '2')
    O = ('-97.3', '0.15')
    out = []
    for f in ('gmx', 'simple', 'simple_plain'):
        out += [Config(f + '-2x2', roundtrip, dict(ftype=f, nx=2, ny=2, spacing=A, sym=2)),
                Config(f + '-3x2', roundtrip, dict(ftype=f, nx=3, ny=2, spacing=B, sym=3, origin=O)),
                Config(f + '-1x1', roundtrip, dict(ftype=f, nx=1, ny=1, spacing=C, sym=1)),
                Config(f + '-1x3', roundtrip, dict(ftype=f, nx=1, ny=3, spacing=A, sym=3, origin=O)),
                Config(f + '-3x1', roundtrip, dict(ftype=f, nx=3, ny=1, spacing=C, sym=2, origin=O)),
                Config(f + '-4x5', roundtrip, dict(ftype=f, nx=4, ny=5, spacing=C, sym=1, origin=('-3', '0.5')))]
    out += [Config('default-2x3', roundtrip, dict(ftype=None, nx=2, ny=3, spacing=C, sym=2)),
            Config('default-record', roundtrip, dict(ftype=None, nx=2, ny=2, spacing=A, sym=1, record=True)),
            Config('default-dict', roundtrip, dict(ftype='default', nx=2, ny=2, spacing=A, sym=1, record='dict'))]
    for f in ('simple', 'simple_plain'):
        for o in ('y', 'reverse', 'shuffle', 'mirror', 'xflip', 'swap'):
            out.append(Config('%s-order-%s' % (f, o), roundtrip, dict(ftype=f, nx=2, ny=3, spacing=A, sym=2, order=o, origin=O)))
        out.append(Config(f + '-record', roundtrip, dict(ftype=f, nx=3, ny=2, spacing=B, sym=1, order='shuffle', record=True, origin=O)))
        # coordinates and spacings which the formats do not hold exactly, and small bins
        for nm, s, q in (('thirds', ('1/3', '2/3'), ('1/6', '0')), ('small', ('0.05', '0.02'), ('0.6', '0.3'))):
            out.append(Config('%s-%s' % (f, nm), roundtrip, dict(ftype=f, nx=4, ny=3, spacing=s, sym=1, origin=q, order='shuffle')))
        out.append(Config(f + '-column', roundtrip, dict(ftype=f, nx=1, ny=4, spacing=A, sym=2, origin=O, order='shuffle')))
        out.append(Config(f + '-layer', roundtrip, dict(ftype=f, nx=4, ny=1, spacing=A, sym=2, origin=O, order='shuffle')))
    out.append(Config('gmx-decimals', roundtrip, dict(ftype='gmx', nx=2, ny=3, spacing=('0.123457', '1.000003'), sym=1, origin=('0.000013', '-7.654321'))))
    # raw data which looks like text
    out.append(Config('simple-textlike', roundtrip, dict(ftype='simple', nx=2, ny=2, spacing=('1', '1'), sym=4, origin=('0', '0'))))
    ks = ('gmx', 'simple', 'simple_plain')
    out += [Config('convert-' + str(t), convert, dict(kinds=ks, to=t, begin=None, end=None)) for t in (None,) + ks]
    out += [Config('convert-part', convert, dict(kinds=ks + ks[:1], to='simple', begin=2, end=3)),
            Config('header', header, dict(pad=list(range(0, 1100, 37)) + list(range(HEAD - 4, HEAD + 5)))),
            Config('columns', columns, dict(order=('V', 'U', 'T', 'Y', 'M', 'X', 'N'))),
            Config('columns-pipe', columns, dict(order=('X', 'Y', 'U', 'V', 'N', 'T', 'M'))),
            Config('sequence', sequence), Config('refused-ftype', refused, dict(what='ftype')),
            Config('refused-fields', refused, dict(what='fields')),
            Config('truncated', truncated, dict(nx=2, ny=2, step=9))]
    if tier == 'thorough':
        out += [Config('%s-%dx%d-deep' % (f, nx, ny), roundtrip, dict(ftype=f, nx=nx, ny=ny, spacing=s, sym=4, origin=o))
                for f in ks for nx, ny, s, o in ((2, 2, A, None), (3, 3, A, O), (2, 4, C, ('0', '55.125')), (3, 4, B, O))]
        out += [Config('truncated-3x2', truncated, dict(nx=3, ny=2, step=5))]
    return again(out, 'simple-2x2', 'gmx-2x2', ('simple_plain-2x2', 'simple-3x2'), ('simple-3x2', 'simple_plain-order-y'), ('gmx-1x3', 'gmx-4x5'), ('simple-2x2', 'gmx-3x2'),
                 ('simple-thirds', 'simple-small'), ('convert-None', 'convert-gmx'), ('convert-simple', 'convert-simple_plain'), ('sequence', 'truncated'))
