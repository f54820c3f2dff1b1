"""C24: the commands of the command line do what the functions do with the options which are given."""
import re
from symx.runner import Config, again

ID = 'C24'
IMPORTS = ('strata.average', 'strata.convert', 'strata.spreading.collect', 'strata.spreading.view', 'strata.spreading.fit',
           'strata.interface.collect', 'strata.interface.view', 'strata.interface.sample', 'strata.interface.angle',
           'strata.contact_line_analysis', 'strata.view_flowmap', 'strata.sample_average', 'strata.dataformats.write')
BOUNDS = ('every command with 2..4 maps of 6x3 bins, interfaces of 3..4 layers or 1..2 spreading files of 4 rows; numbers given '
          'to options symbolic, every option on its own or with others; bins at the edges of droplets with symbolic mass')
OUTSIDE = ('what the functions themselves do (the other properties); help texts and completion; parsing of the '
           'words of the command line by click itself (the installed package is executed, with symbolic numbers in its '
           'arguments)')
LABELS = ('M', 'N', 'T', 'U', 'V')
INF = float('inf')
NX, NY = 6, 3


def maps(env, count=3, ext='.dat', ftype='gmx', height=-2, first=1, plain=False):
    """droplets which move, of heavy bins; the mass of a bin at an edge is symbolic"""
    env.exact_f32()
    write = env.mod('strata.dataformats.write').write
    dx, dy = env.const('0.5'), env.const('0.25')
    half = env.lit('0.5')
    cells = [(i, j) for i in range(NX) for j in range(NY)]
    for q in range(count):
        vals = {}
        for i, j in cells:
            n = 5 * i + 3 * j + 2 * q
            inside = 1 + q % 2 <= i <= 4 - j + q % 2
            v = {'M': 20 + n % 11 if inside else 1 + n % 3, 'N': 1 + n * 3 % 7, 'T': n * n % 13 - 4, 'U': n * 2 % 9 - 4, 'V': n * n % 5 - 2}
            v = dict((l, env.const(x)) for l, x in v.items())
            if plain:
                pass
            elif (i, j) == (4 + q % 2, 0):
                v['M'] = env.real('M%d' % q, 5, 30)
            if (i, j) == (2, 1) and not plain:
                v['T'] = env.real('T%d' % q, -5, 5)
            vals[(i, j)] = v
        data = dict([('X', env.arr([env.const(1) + dx * (i + half) for i, j in cells])),
                     ('Y', env.arr([env.const(height) + dy * (j + half) for i, j in cells]))]
                    + [(l, env.arr([vals[c][l] for c in cells])) for l in LABELS])
        write('in/f%05d%s' % (q + first, ext), data, {'shape': (NX, NY), 'spacing': (dx, dy), 'num_bins': NX * NY,
                                                     'origin': (env.const(1), env.const(height))}, ftype=ftype)


def interfaces(env, count=3, ext='.xvg', first=1):
    """edges of drops of 4 layers"""
    for q in range(count):
        rows = []
        lefts = [env.const(1), env.real('l%d' % q, '1.1', '1.4'), env.const('1.75'), env.const(2)]
        rights = [env.const(5), env.const('4.75'), env.real('r%d' % q, '4.1', '4.4'), env.const(4)]
        for j, l in list(enumerate(lefts)) + list(enumerate(rights))[::-1]:
            rows.append('%s %s\n' % (env.fmt('%r', l), env.fmt('%r', env.const('0.25') * j)))
        env.write_text('in/f%05d%s' % (q + first, ext), '# interface\n' + ''.join(rows))


def spreads(env, count=2, ext=None):
    for q in range(count):
        rows = []
        for t in (0, 1, 10, 100):
            r = env.pow10(env.real('L%d_%d' % (q, t), 0, 1))
            rows.append('%d %s\n' % (t, env.fmt('%r', r)))
        env.write_text('in/s%d.xvg' % q, ''.join(rows))


FILES = {'begin': 1, 'end': INF, 'ext': '.dat'}
CUT = {'cutoff': None, 'cutoff_radius': 1., 'cutoff_bins': 1}
LIMS = {'xlim': (None, None), 'ylim': (None, None)}
FFLAG = {'begin': '-b', 'end': '-e', 'ext': '--ext'}
CFLAG = {'cutoff': '-co', 'cutoff_radius': '-cr', 'cutoff_bins': '-cb'}
LFLAG = {'xlim': '--xlim', 'ylim': '--ylim'}
TFLAG = dict(LFLAG, title='--title', xlabel='--xlabel', ylabel='--ylabel')
DFLAG = dict(TFLAG, show='--show', save_fig='-o', colorbar='--colourbar', colormap='-cmap', cbarlabel='--cbarlabel',
             cbarticks='--cbarticks', cbarticklabels='--cbarticklabels', transparent='--transparent', noaxis='--noaxis', dims='--dims',
             vlim='--vlim')
DRAW = dict(LIMS, show=True, save_fig=None, colormap='viridis', cbarlabel=None, cbarticks=None, cbarticklabels=None,
            transparent=False, noaxis=False, dims=None, vlim=(None, None), xlabel='x (nm)', ylabel='y (nm)')

# name: (module, function, positional arguments, defaults, flags, input)
COMMANDS = {
    'average': ('strata.average', 'average', ('in/f', '*OUT/f', 2),
                dict(FILES, combine=(None, None), supersample=None, recenter=None, rolling=False, floor=None, cutoff=0.,
                     cutoff_bins=1, cutoff_radius=1., **LIMS),
                dict(FFLAG, combine='--combine', supersample='--supersample', recenter='--recenter', rolling='--rolling',
                     floor='--floor', **dict(CFLAG, **LFLAG)), maps),
    'convert': ('strata.convert', 'convert', ('in/f', '*OUT/f'), dict(FILES, ftype='gmx'), dict(FFLAG, ftype='--ftype'), maps),
    'spreading collect': ('strata.spreading.collect', 'collect', ('in/f',),
                          dict(FILES, save='spread.xvg', dt=1., t0=0., **CUT),
                          dict(FFLAG, save='-o', dt='-dt', t0='-t0', **CFLAG), maps),
    'spreading view': ('strata.spreading.view', 'view_spreading', (('in/s0.xvg', 'in/s1.xvg'),),
                       dict(LIMS, tau=1., R=1., sync_radius=None, save_fig=None, save_xvg=None, show=True, loglog=False,
                            title='Droplet spreading', xlabel='Time (ps)', ylabel='Radius (nm)'),
                       dict(TFLAG, tau='-t', R='-r', sync_radius='-rs', save_fig='-o', save_xvg='-x', show='--show', loglog='--loglog'),
                       spreads),
    'spreading fit': ('strata.spreading.fit', 'fit_spreading_data', (('in/s0.xvg', 'in/s1.xvg'),),
                      dict(LIMS, lims=(None, None), out_lims=(None, None), save_fig=None, save_xvg=None, show=True, loglog=False,
                           legend=True, title='Droplet spreading with fit', xlabel='Time (ps)', ylabel='Radius (nm)'),
                      dict(TFLAG, lims='--lims', out_lims='--out_lims', save_fig='-o', save_xvg='-x', show='--show',
                           loglog='--loglog', legend='--legend'), spreads),
    'interface collect': ('strata.interface.collect', 'collect_interfaces', ('in/f', '*OUT/f'),
                          dict(FILES, recenter='zero', ylims=(None, None), **CUT),
                          dict(FFLAG, recenter='--recenter', ylims='--ylim', **CFLAG), maps),
    'interface view': ('strata.interface.view', 'view_interfaces', ('in/f',),
                       dict(FILES, average=1, save_fig=None, save_xvg='', show=True, title='Droplet interface', xlabel='x (nm)',
                            ylabel='y (nm)', extfig='.png', **dict(LIMS, ext='.xvg')),
                       dict(FFLAG, average='-av', save_fig='-o', save_xvg='-x', show='--show', extfig='--extfig', **TFLAG), interfaces),
    'interface sample': ('strata.interface.sample', 'sample_interfaces', ('in/f', 'area'),
                         dict(FILES, save_fig=None, save_xvg='', delta_t=1., show=True, title='Droplet interface', xlabel='t (ps)',
                              ylabel='A (nm^2)', extfig='.png', **dict(LIMS, ext='.xvg')),
                         dict(FFLAG, save_fig='-o', save_xvg='-x', delta_t='-dt', show='--show', extfig='--extfig', **TFLAG), interfaces),
    'interface angle': ('strata.interface.angle', 'interface_contact_angle', ('in/f',),
                        dict(FILES, fit=False, height=None, delta_t=1., save_fig=None, save_xvg=None, show=False,
                             title='Contact angles', xlabel='t (ps)', ylabel='angle (deg.)', **dict(LIMS, ext='.xvg')),
                        dict(FFLAG, fit='--fit', height='-h', delta_t='-dt', save_fig='-o', save_xvg='-x', show='--show', **TFLAG), interfaces),
    'contact-line collect': ('strata.contact_line_analysis', 'extract_contact_line_bins', ('in/f', '*OUT/f'),
                             dict(FILES, average=1, rolling=False, recenter=True, fuse=False, floor=None, extract_area=(1., 1.),
                                  extract_height=0., **CUT),
                             dict(FFLAG, average='-av', rolling='--rolling', recenter='--recenter', fuse='--fuse', floor='--floor',
                                  extract_area='-ea', extract_height='-eh', **CFLAG), maps),
    'contact-line sample': ('strata.contact_line_analysis', 'sample_contact_line_edges', ('in/f', ('M', 'T')),
                            dict(FILES, average=1, rolling=False, recenter=True, floor=None, extract_area=(0., 0.),
                                 extract_height=0., dt=1., sum=False, save=None, **CUT),
                            dict(FFLAG, average='-av', rolling='--rolling', recenter='--recenter', floor='--floor', sum='--process',
                                 extract_area='-ea', extract_height='-eh', dt='-dt', save='--save', **CFLAG), maps),
    'view contour': ('strata.view_flowmap', 'view_flowmap_2d', ('*in/f00001.dat', '*in/f00002.dat'),
                     dict(DRAW, type='contour', label='M', num_contours=10, contour_levels=None, contour_colours=None, filled=False,
                          colorbar=False, title='Droplet contours'),
                     dict(DFLAG, label='-l', num_contours='-n', contour_levels='-lv', contour_colours='-c', filled='--filled'), maps),
    'view height': ('strata.view_flowmap', 'view_flowmap_2d', ('*in/f00001.dat', '*in/f00002.dat'),
                    dict(DRAW, type='height', label='M', clim=(None, None), cutoff_label=None, cutoff=None, colorbar=True, dpi=150,
                         title='Droplet height map'),
                    dict(DFLAG, label='-l', clim='--clim', cutoff_label='-cl', cutoff='-co', dpi='--dpi', noaxis='--nodrawaxes'), maps),
    'view flow': ('strata.view_flowmap', 'view_flowfields', ('*in/f00001.dat', '*in/f00002.dat'),
                  dict(DRAW, cutoff_label='M', cutoff=None, colour='T', scale=1., width=0.0015, pivot='middle', streamlines=False,
                       colorbar=False, dpi=150, title='Droplet height map'),
                  dict(DFLAG, cutoff='-co', streamlines='--streamlines', colour='-cl', scale='--scale', width='--width', pivot='--pivot', dpi='--dpi'), maps),
    'sample': ('strata.sample_average', 'sample_average_files', ('in/f', ('T', 'M')),
               dict(FILES, output='sample.xvg', dt=1., sum=False, cutoff=None, cutoff_label=None, slip_floor=0., verbose=True, **LIMS),
               dict(FFLAG, output='-o', dt='-dt', sum='--process', cutoff='-co', cutoff_label='-cl', slip_floor='-fl', verbose='--show',
                    **LFLAG), maps),
}


def option(env, kw, flag, kind, args):
    """(words of the command line, value for the function); for the value IN is replaced by the folder"""
    if kind == 'real':
        v = env.real(kw, *args)
        return [flag, env.fmt('%r', v)], v
    if kind == 'int':
        v = env.int(kw, *args)
        return [flag, env.fmt('%d', v)], v
    if kind == 'reals':
        vs = [None if a is None else env.real('%s%d' % (kw, k), *a) for k, a in enumerate(args)]
        return [flag] + [('none', 'None')[k % 2] if v is None else env.fmt('%r', v) for k, v in enumerate(vs)], tuple(vs)
    if kind == 'ints':
        return [flag] + ['none' if a is None else '%d' % a for a in args], tuple(args)
    if kind == 'list':
        vs = [env.real('%s%d' % (kw, k), *a) for k, a in enumerate(args)]
        return [flag, ' '.join(env.fmt('%r', v) for v in vs)], vs
    if kind == 'words':
        return [flag, ' '.join(args)], list(args)
    if kind == 'flag':
        return [args[1] if len(args) > 1 else flag], args[0]
    if kind == 'value':
        return [flag, args[0]], args[1] if len(args) > 1 else args[0]
    if kind == 'default':
        return [], args[0]
    raise KeyError(kind)


def run(env, cmd, opts=(), args=None, count=None, extra=(), order=False, files=None, printed=None):
    module, function, pos, defaults, flags, write = COMMANDS[cmd]
    pos = tuple(env.real(*a[1:]) if isinstance(a, tuple) and a[0] == 'real' else a for a in (pos if args is None else args))
    write(env, **dict(dict(count=count) if count else {}, **(files or {})))
    before = dict((p, env.read_raw(p)) for p in env.listing())
    kw, words = dict(defaults), []
    for name, kind, *a in opts:
        w, v = option(env, name, flags.get(name, '--' + name), kind, a)
        words += w
        kw[name] = v
    for d in ('cli', 'api'):
        env.mkdir(d)

    def at(v, d):
        if isinstance(v, str):
            return v.replace('OUT/', d + '/')
        if isinstance(v, tuple):
            return tuple(at(x, d) for x in v)
        return v
    argv = cmd.split()
    front = []
    for p in pos:
        for x in (p if isinstance(p, tuple) else (p,)):
            front.append(at(x.lstrip('*') if isinstance(x, str) else x if isinstance(x, str) else env_word(env, x), 'cli'))
    options = [at(w, 'cli') for w in words] + list(extra)
    argv += options + front if order else front + options
    env.record_drawing()
    env.record_output()
    done = []
    wrong = (TypeError, ValueError, IndexError, KeyError, AttributeError)
    failed = env.raises(wrong, lambda: done.append(env.cli(argv)))
    text = env.printed()
    env.check(failed is not None or done == [0], 'the command succeeds')
    drawn, colours = everything(env), env.colour_maps()
    for p, raw in before.items():
        env.check(env.exists(p) and env.read_raw(p) == raw, 'input files are left alone')
    mine = dict((p, env.text(p) if p.endswith('.xvg') else None) for p in env.listing() if p not in before and not p.startswith('cli/'))
    for p in mine:
        env.remove(p)
    env.record_drawing()
    env.record_output()
    if 'floor' in kw and cmd == 'spreading collect':
        del kw['floor']
    kwargs = dict((k, at(v, 'api')) for k, v in kw.items())
    posargs = []
    for p in pos:
        posargs.append(at(p.lstrip('*') if isinstance(p, str) else tuple(p) if isinstance(p, tuple) else p, 'api'))
    if cmd == 'spreading collect':
        kwargs['floor'] = posargs.pop()
    if 'quiet' in QUIET.get(cmd, ()):
        kwargs['quiet'] = True
    also = env.raises(wrong, lambda: done.append(getattr(env.mod(module), function)(*posargs, **kwargs)))
    env.check((failed is None) == (also is None), 'the command fails as the function does')
    if failed is not None or also is not None:
        return
    got = done[-1]
    said = env.printed()
    theirs = dict((p, env.text(p) if p.endswith('.xvg') else None) for p in env.listing()
                  if p not in before and not p.startswith('cli/') and not p.startswith('api/'))
    env.check(sorted(mine) == sorted(theirs), 'files which are written here')
    for p in mine:
        if p in theirs and mine[p] is not None:
            same_text(env, mine[p], theirs[p], 'text of ' + p)
    a = sorted(p[4:] for p in env.listing() if p.startswith('cli/'))
    b = sorted(p[4:] for p in env.listing() if p.startswith('api/'))
    env.check(a == b, 'files which are written')
    if a == b:
        for p in a:
            if p.endswith(('.xvg', '.grace')):
                same_text(env, env.text('cli/' + p), env.text('api/' + p), 'text of a file')
            elif not p.endswith('.png') and not p.endswith('.pdf'):
                same_map(env, 'cli/' + p, 'api/' + p)
    other = everything(env)
    env.check(colours == env.colour_maps(), 'colour maps')
    env.check([d[0] for d in drawn] == [d[0] for d in other], 'what is drawn')
    if [d[0] for d in drawn] == [d[0] for d in other]:
        for x, y in zip(drawn, other):
            same(env, list(x[1]), list(y[1]), 'arguments of ' + x[0])
            same(env, x[2], y[2], 'keywords of ' + x[0])
    if printed is not None:
        printed(env, text, got, said)


QUIET = {'average': ('quiet',), 'convert': ('quiet',), 'spreading collect': ('quiet',), 'interface collect': ('quiet',),
         'interface view': ('quiet',), 'interface sample': ('quiet',), 'interface angle': ('quiet',),
         'contact-line collect': ('quiet',), 'contact-line sample': ('quiet',)}


def env_word(env, x):
    return '%d' % x if isinstance(x, int) else env.fmt('%r', x)


def everything(env):
    return list(env.drawn('plot', 'quiver', 'hist2d', 'contour', 'contourf', 'streamplot', 'set_axis_off', 'set_label', 'set_ticks',
                          'set_ticklabels', 'savefig', 'figure', 'clf', 'title', 'xlabel', 'ylabel', 'xlim', 'ylim', 'axis', 'show',
                          'legend', 'xscale', 'yscale', 'colorbar', 'loglog', 'semilogx', 'semilogy', 'scatter', 'errorbar'))


def same(env, a, b, what):
    if isinstance(a, str) or isinstance(b, str):
        env.check(isinstance(a, str) and isinstance(b, str), what)
        if isinstance(a, str) and isinstance(b, str) and a.replace('cli/', 'api/') != b:
            same_text(env, a, b, what)
    elif 'MaskedConstant' in (type(a).__name__, type(b).__name__):
        env.check(type(a).__name__ == type(b).__name__, what)
    elif a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
        env.check(a is b, what)
    elif isinstance(a, dict):
        env.check(sorted(a) == sorted(b), what)
        for k in a:
            if k in b:
                same(env, a[k], b[k], what)
    elif hasattr(a, 'index') and hasattr(a, 'values'):
        same(env, list(a.index), list(b.index), what)
        same(env, list(a.values), list(b.values), what)
    elif isinstance(a, (list, tuple)) or hasattr(a, 'dtype') and getattr(a, 'ndim', 0):
        env.check(len(a) == len(b), what)
        if len(a) == len(b):
            for x, y in zip(a, b):
                same(env, x, y, what)
    elif isinstance(a, (int, float)) or hasattr(a, 'dtype') or type(a).__name__.startswith('Sym'):
        same_number(env, env.num(a), env.num(b), what)


def same_number(env, a, b, what, tol=None):
    fa, fb = env.finite(a), env.finite(b)
    env.check(env.iff(fa, fb), what)
    env.check(env.iff(env.isnan(a), env.isnan(b)), what)
    env.check_eq(a, b, what, when=env.and_(fa, fb), tol=tol)


def same_text(env, a, b, what):
    """but for the names of folders and the time"""
    keep = lambda text: [l for l in text.replace('cli/', 'api/').splitlines() if not re.search(r'\d\d:\d\d', l)]
    a, b = keep(a), keep(b)
    env.check(len(a) == len(b), what)
    if len(a) == len(b):
        for x, y in zip(a, b):
            if x == y:
                continue
            u, v = x.split(), y.split()
            env.check(len(u) == len(v), what)
            for p, q in zip(u, v):
                if p != q:
                    try:
                        p, q = env.word(p), env.word(q)
                    except ValueError:
                        env.check(False, what)
                        break
                    same_number(env, p, q, what, '1e-3')


def same_map(env, p, q):
    read = env.mod('strata.dataformats.read').read_data_file
    (a, ai, _), (b, bi, _) = read(p), read(q)
    env.check(tuple(ai['shape']) == tuple(bi['shape']), 'shape of a map')
    for k in ('spacing', 'origin'):
        for x, y in zip(ai[k], bi[k]):
            env.check_eq(x, y, k + ' of a map')
    na, nb = len(a['X']), len(b['X'])
    env.check(na == nb, 'bins of a map')
    if na == nb:
        for l in ('X', 'Y') + LABELS:
            env.check_eq_all(list(a[l].ravel()), list(b[l].ravel()), '%s of a map' % l)


def errors(env, argv, files=()):
    """a command line which is not understood does nothing"""
    maps(env, 2)
    before = env.listing()
    raws = [env.read_raw(p) for p in before]
    code = env.cli([env_word(env, x) if not isinstance(x, str) else x for x in argv])
    env.check(code not in (0, None), 'an error is reported')
    env.check(env.listing() == before and [env.read_raw(p) for p in before] == raws, 'nothing is done')


def told(env, text, got, said):
    """the radius at every time is printed"""
    rows = [l.split() for l in text.splitlines()]
    rows = [r for r in rows if len(r) == 2 and not r[0].startswith('Time')]
    got = list(got)
    env.check(len(rows) == len(got), 'a line per time')
    if len(rows) == len(got):
        for r, g in zip(rows, got):
            for w, v in zip(r, g):
                env.check_eq(env.word(w), v, 'numbers which are printed', tol='1e-3')


def fits(env, text, got, said):
    rows = [l.split() for l in text.splitlines()]
    rows = [r for r in rows if len(r) == 2]
    env.check(len(rows) == len(got), 'a line per fit')
    if len(rows) == len(got):
        for r, g in zip(rows, got):
            for w, v in zip(r, g):
                env.check_eq(env.word(w), v, 'parameters which are printed', tol='1e-4')


def silent(env, text, got, said):
    env.check(not text.strip(), 'nothing is printed')


def repeated(env, text, got, said):
    env.check(len(text.split()) == len(said.split()), 'what is printed')
    if len(text.split()) == len(said.split()):
        same_text(env, text, said, 'what is printed')


def configs(tier):
    out = []

    def add(name, cmd, opts=(), **k):
        out.append(Config(name, run, dict(cmd=cmd, opts=tuple(opts), **k)))
    R = lambda kw, *a: (kw, 'real') + a
    some = [('begin', 'value', '2', 2), ('end', 'value', '3', 3)]
    ext = ('ext', 'value', '.map')
    # averages
    A = 'average'
    add('average', A)
    add('average-files', A, some + [ext], files=dict(ext='.map'), count=4)
    add('average-rolling', A, [('rolling', 'flag', True)], order=True)
    add('average-norolling', A, [('rolling', 'flag', False, '--norolling')], order=True)
    add('average-combine', A, [('combine', 'ints', 2, 1), ('xlim', 'reals', (1, 2), None)])
    add('average-supersample', A, [('supersample', 'value', '2', 2), ('ylim', 'reals', None, ('-1.8', 0))])
    for how in ('left', 'right', 'com'):
        add('average-' + how, A, [('recenter', 'value', how), R('cutoff', 6, 15), R('floor', '-2', '-1.5'),
                                  ('cutoff_bins', 'int', 0, 3), R('cutoff_radius', '0.3', '0.9')][:None if how != 'com' else 1], count=2)
    add('average-none', A, [('recenter', 'value', 'none', None)], count=2)
    C = 'convert'
    add('convert', C, some)
    for ft in ('gmx', 'simple', 'simple_plain'):
        add('convert-' + ft, C, [('ftype', 'value', ft), ext], files=dict(ext='.map'), order=True)
    # spreading
    S = 'spreading collect'
    height = dict(height=0)
    sp = ('in/f', ('real', 'floor', 0, '0.3'))
    add('spread', S, args=sp, files=height)
    add('spread-files', S, some + [ext, R('dt', '0.1', 3), R('t0', -5, 5)], files=dict(ext='.map', height=0), count=4, args=sp)
    add('spread-cutoff', S, [R('cutoff', 6, 15), ('cutoff_bins', 'int', 0, 3)], files=height, args=sp, order=True)
    add('spread-radius', S, [R('cutoff_radius', '0.3', '0.9'), ('cutoff_bins', 'value', '2', 2)], files=height, args=sp)
    add('spread-output', S, [('save', 'value', 'OUT/res.xvg')], files=height, args=sp)
    add('spread-none', S, [('save', 'flag', None, '--nooutput')], files=height, args=sp)
    add('spread-verbose', S, [('dt', 'value', '2.5', 2.5)], files=height, args=sp, extra=('-v',), printed=told)
    V = 'spreading view'
    add('series', V)
    add('series-scaled', V, [R('tau', '0.5', 3), R('R', '0.5', 3), ('save_xvg', 'value', 'OUT/a.xvg')], order=True)
    add('series-sync', V, [R('sync_radius', 2, 5), ('save_fig', 'value', 'OUT/a.png'), ('show', 'flag', False, '--noshow')])
    add('series-drawn', V, [('xlim', 'reals', (0, 1), None), ('ylim', 'reals', None, (5, 9)), ('loglog', 'flag', True),
                            ('title', 'value', 'a title'), ('xlabel', 'value', 'x'), ('ylabel', 'value', 'y')])
    F = 'spreading fit'
    add('fit', F, printed=fits)
    add('fit-limits', F, [('lims', 'reals', (0, '0.9'), None), ('out_lims', 'reals', None, (20, 80)), ('save_xvg', 'value', 'OUT/a.xvg')],
        extra=('--noprint',), printed=silent)
    add('fit-drawn', F, [('loglog', 'flag', True), ('legend', 'flag', False, '--nolegend'), ('save_fig', 'value', 'OUT/a.png'),
                         ('title', 'value', 'a title'), ('ylim', 'reals', (0, 1), (2, 3))], order=True)
    add('fit-hidden', F, [('show', 'flag', False, '--noshow'), ('xlim', 'reals', (0, 1), (2, 3))], extra=('--print',), printed=fits)
    # interfaces
    I = 'interface collect'
    add('interface', I, some, count=4)
    add('interface-com', I, [('recenter', 'value', 'com'), R('cutoff', 6, 15)], count=2)
    add('interface-off', I, [('recenter', 'value', 'off', None), ('ylims', 'reals', ('-1.9', '-1.8'), None)], count=2, order=True)
    add('interface-ylim', I, [('ylims', 'reals', None, ('-1.8', '-1.3')), ext], count=2, files=dict(ext='.map'))
    add('interface-bins', I, [('cutoff_bins', 'int', 0, 4), R('cutoff_radius', '0.3', '0.9')], count=1)
    W = 'interface view'
    add('profiles', W)
    add('profiles-files', W, some + [('ext', 'value', '.grace'), ('save_xvg', 'value', 'OUT/p')], count=4, files=dict(ext='.grace'))
    add('profiles-average', W, [('average', 'value', '2', 2), ('save_fig', 'value', 'OUT/p'), ('extfig', 'value', '.pdf')], count=4)
    add('profiles-hidden', W, [('show', 'flag', False, '--noshow'), ('save_xvg', 'value', 'OUT/p')], order=True)
    add('profiles-drawn', W, [('xlim', 'reals', (0, 1), (2, 3)), ('ylim', 'reals', (0, 1), None), ('title', 'value', 'a title'),
                              ('xlabel', 'value', 'x'), ('ylabel', 'value', 'y')])
    P = 'interface sample'
    add('sizes', P)
    add('sizes-length', P, [('ylabel', 'default', 'L (nm)')], args=('in/f', 'length'))
    add('sizes-label', P, [('ylabel', 'value', 'y')], args=('in/f', 'length'))
    add('sizes-files', P, some + [('ext', 'value', '.grace'), ('save_xvg', 'value', 'OUT/p.xvg'), R('delta_t', '0.5', 3)], count=4,
        files=dict(ext='.grace'))
    add('sizes-hidden', P, [('show', 'flag', False, '--noshow'), ('save_fig', 'value', 'OUT/p.png')], order=True)
    add('sizes-drawn', P, [('xlim', 'reals', (0, 1), (2, 3)), ('ylim', 'reals', (0, 1), None), ('title', 'value', 'a title'),
                           ('xlabel', 'value', 'x')])
    G = 'interface angle'
    add('angles-fit', G, [('fit', 'flag', True), ('save_xvg', 'value', 'OUT/p.xvg')] + some, count=4)
    add('angles-height', G, [R('height', '0.1', '0.4'), ('show', 'flag', True), R('delta_t', '0.5', 3)], count=2)
    add('angles-both', G, [('fit', 'flag', True), ('height', 'value', '0.25', 0.25), ('save_fig', 'value', 'OUT/p.png'),
                           ('ext', 'value', '.grace')], count=2, files=dict(ext='.grace'))
    add('angles-drawn', G, [('fit', 'flag', True), ('show', 'flag', True), ('xlim', 'reals', (0, 1), (2, 3)),
                            ('title', 'value', 'a title'), ('ylabel', 'value', 'y')], count=2, order=True)
    # contact lines
    L = 'contact-line collect'
    add('edges', L, some, count=4)
    add('edges-norecenter', L, [('recenter', 'flag', False, '--norecenter'), ('extract_area', 'reals', ('0.4', 2), (0, '0.6'))], count=2)
    add('edges-average', L, [('average', 'value', '2', 2), ('rolling', 'flag', True)])
    add('edges-fuse', L, [('fuse', 'flag', True), R('floor', '-1.9', '-1.6'), ext], files=dict(ext='.map'), count=2, order=True)
    add('edges-height', L, [R('extract_height', 0, '0.5'), R('cutoff', 6, 15)], count=2)
    add('edges-bins', L, [('cutoff_bins', 'int', 0, 4), R('cutoff_radius', '0.3', '0.9')], count=1)
    D = 'contact-line sample'
    add('edge-values', D, some, count=4)
    add('edge-values-sum', D, [('sum', 'value', 'sum', True), ('save', 'value', 'OUT/p.xvg'), R('dt', '0.5', 2)], count=2)
    add('edge-values-mean', D, [('sum', 'value', 'mean', False), ('extract_area', 'reals', ('0.4', 1), (0, '0.6')),
                                ('recenter', 'flag', False, '--norecenter'), ('save', 'value', 'OUT/p.xvg')], count=2, order=True,
        args=('in/f', ('T',)))
    add('edge-values-average', D, [('average', 'value', '2', 2), ('rolling', 'flag', True), ('save', 'value', 'OUT/p.xvg'),
                                   R('floor', '-1.9', '-1.6')])
    add('edge-values-height', D, [R('extract_height', 0, '0.5'), R('cutoff', 6, 15), ('save', 'value', 'OUT/p.xvg')], count=2)
    add('edge-values-bins', D, [('cutoff_bins', 'int', 0, 4), R('cutoff_radius', '0.3', '0.9'), ext], count=1, files=dict(ext='.map'))
    # figures
    drawn = [('xlim', 'reals', (1, '1.5'), None), ('ylim', 'reals', None, ('-1.6', '-1.3'))]
    bar = [('colorbar', 'flag', True, '--colourbar'), ('cbarlabel', 'value', 'bar'), ('cbarticks', 'list', (2, 3), (0, 1)),
           ('cbarticklabels', 'words', 'low', 'high')]
    for cmd, name in (('view contour', 'contour'), ('view height', 'height'), ('view flow', 'flow')):
        add(name, cmd, count=2)
        add(name + '-limits', cmd, drawn + [('vlim', 'reals', ('-1', 1), (10, 20)), ('title', 'value', 'a title')], count=2)
        add(name + '-saved', cmd, [('save_fig', 'value', 'OUT/p.png'), ('show', 'flag', False, '--noshow'),
                                   ('transparent', 'flag', True, '--transparent')], count=2, order=True)
        add(name + '-bar', cmd, bar + [('colormap', 'value', 'gray'), ('xlabel', 'value', 'x'), ('ylabel', 'value', 'y')], count=2)
        add(name + '-nobar', cmd, [('colorbar', 'flag', False, '--nocolourbar')], count=2)
        add(name + '-size', cmd, [('dims', 'ints', 400, 300)] + ([('dpi', 'value', '100', 100)] if name != 'contour' else []), count=2)
    add('contour-noaxis', 'view contour', [('noaxis', 'value', 'True', True), ('label', 'value', 'T')], count=2)
    add('contour-levels', 'view contour', [('contour_levels', 'list', (0, 1), (2, 3), (4, 5)), ('contour_colours', 'words', 'r', 'k', 'r')], count=2)
    add('contour-filled', 'view contour', [('num_contours', 'value', '4', 4), ('filled', 'flag', True), ('label', 'value', 'flow')], count=2)
    add('height-noaxis', 'view height', [('noaxis', 'flag', True, '--nodrawaxes'), ('label', 'value', 'U')], count=2)
    add('height-cutoff', 'view height', [('cutoff_label', 'value', 'T'), R('cutoff', -1, 3), ('clim', 'reals', (0, 4), None)], count=2)
    add('height-derived', 'view height', [('label', 'value', 'evaporation')], count=2)
    add('flow-noaxis', 'view flow', [('noaxis', 'value', 'true', True), ('colour', 'value', 'None', None)], count=2)
    add('flow-arrows', 'view flow', [R('scale', 1, 5), R('width', '0.001', '0.01'), ('pivot', 'value', 'tip'), ('colour', 'value', 'flow')], count=2)
    add('flow-cutoff', 'view flow', [R('cutoff', 2, 25), ('colour', 'value', 'M')], count=2)
    lines = ('streamlines', 'flag', True)
    add('lines', 'view flow', [lines], count=2)
    add('lines-cutoff', 'view flow', [lines, R('cutoff', 2, 25), ('colour', 'value', 'M')], count=2)
    add('lines-limits', 'view flow', [lines, ('colour', 'value', 'None', None)] + drawn, count=2)
    add('lines-size', 'view flow', [lines, ('dims', 'ints', 400, 300), ('dpi', 'value', '100', 100), ('colour', 'value', 'flow'), ('colormap', 'value', 'gray')], count=2)
    add('no-lines', 'view flow', [('streamlines', 'flag', False, '--nostreamlines')], count=2)
    # samples
    M = 'sample'
    add('means', M, some, count=4)
    add('means-sum', M, [('sum', 'value', 'sum', True), ('output', 'value', 'OUT/p.xvg'), R('dt', '0.5', 2)], count=2, order=True)
    add('means-cutoff', M, [('cutoff_label', 'value', 'M'), R('cutoff', 6, 25), ext, ('sum', 'value', 'mean', False)], count=2, files=dict(ext='.map'))
    add('means-limits', M, drawn + [('verbose', 'flag', False, '--noshow')], count=2, printed=silent)
    add('means-printed', M, [('verbose', 'flag', True, '--show')], count=2, printed=repeated)
    add('means-slip-floor', M, [], args=('in/f', ('slip_length',)), count=1, files=dict(height='0'))
    add('means-slip', M, [R('slip_floor', '-2', '-1.8')], args=('in/f', ('slip_length',)), count=1)
    # every choice
    for name, kw, choices in (('contour', 'label', 'NUV'), ('height', 'label', ('N', 'T', 'V', 'flow', 'visc_diss')),
                              ('flow', 'colour', ('N', 'U', 'V', 'T', 'visc', 'radial', 'evaporation'))):
        for c in choices:
            add('%s-of-%s' % (name, c), 'view ' + name, [(kw, 'value', c)], count=1, args=('*in/f00001.dat',), files=dict(plain=c == 'radial'))
    for c in ('M', 'N', 'U', 'V', 'flow', 'visc', 'None'):
        add('height-over-%s' % c, 'view height', [('cutoff_label', 'value', c), R('cutoff', 0, 20)], count=1, args=('*in/f00001.dat',))
    for c in ('tail', 'middle'):
        add('flow-%s' % c, 'view flow', [('pivot', 'value', c)], count=1, args=('*in/f00001.dat',))
    # limits at which bins lose their neighbours
    alone = R('cutoff', 20, 31)
    for how in ('left', 'right'):
        add('average-alone-' + how, A, [('recenter', 'value', how), alone], count=2)
    add('spread-alone', S, [alone], files=height, args=sp)
    add('interface-alone', I, [alone], count=1)
    add('edges-alone', L, [alone], count=1)
    add('edge-values-alone', D, [alone, ('save', 'value', 'OUT/p.xvg')], count=1)
    # zero is a number
    nil = lambda kw: (kw, 'value', '0', 0.)
    below = dict(height='-0.5')
    add('average-nil', A, [nil('cutoff'), nil('floor'), ('recenter', 'value', 'left'), ('xlim', 'reals', ('-1', 2), None), ('end', 'value', '0', 0),
                           ('begin', 'value', '0', 0)], args=('in/f', '*OUT/f', 1), files=dict(height='-0.5', first=0), count=2)
    add('average-nil-limits', A, [('ylim', 'reals', ('-0.2', 0), None), ('cutoff_bins', 'value', '0', 0), nil('cutoff_radius')], files=below, count=2)
    add('convert-nil', C, [('begin', 'value', '0', 0), ('end', 'value', '0', 0)], files=dict(first=0), count=2)
    add('convert-nil-end', C, [('end', 'value', '0', 0)], count=2)
    add('spread-nil', S, [nil('cutoff'), nil('t0'), nil('dt'), ('begin', 'value', '0', 0), ('end', 'value', '1', 1)], files=dict(height=0, first=0),
        args=('in/f', ('real', 'floor', 0, '0.2')))
    add('series-nil', V, [nil('sync_radius'), ('xlim', 'reals', ('-1', 1), ('-1', 1))])
    add('fit-nil', F, [('lims', 'reals', ('-1', '0.5'), None), ('out_lims', 'reals', ('-1', '0.5'), None)])
    add('interface-nil', I, [nil('cutoff'), ('recenter', 'value', 'off', None), ('ylims', 'reals', ('-0.2', '0.1'), None),
                             ('begin', 'value', '0', 0), ('end', 'value', '0', 0)], files=dict(height='-0.5', first=0), count=2)
    add('profiles-nil', W, [('begin', 'value', '0', 0), ('end', 'value', '0', 0), ('save_xvg', 'value', 'OUT/p')], files=dict(first=0), count=2)
    add('sizes-nil', P, [('begin', 'value', '0', 0), ('end', 'value', '0', 0), nil('delta_t'), ('save_xvg', 'value', 'OUT/p.xvg')], files=dict(first=0), count=2)
    add('angles-nil', G, [('begin', 'value', '0', 0), ('end', 'value', '0', 0), ('fit', 'flag', True), nil('delta_t'), ('save_xvg', 'value', 'OUT/p.xvg')],
        files=dict(first=0), count=2)
    add('edges-nil', L, [nil('cutoff'), nil('floor'), nil('extract_height'), ('extract_area', 'reals', (0, 1), (0, 1)), ('begin', 'value', '0', 0),
                         ('end', 'value', '0', 0)], files=dict(height='-0.25', first=0), count=2)
    add('edge-values-nil', D, [nil('cutoff'), nil('floor'), nil('dt'), ('begin', 'value', '0', 0), ('end', 'value', '0', 0),
                               ('save', 'value', 'OUT/p.xvg')], files=dict(height='-0.25', first=0), count=2)
    add('means-nil', M, [nil('cutoff'), ('cutoff_label', 'value', 'T'), nil('dt'), ('begin', 'value', '0', 0), ('end', 'value', '0', 0),
                         ('xlim', 'reals', (0, 2), None), ('ylim', 'reals', None, ('-0.3', '0.3'))], files=dict(height='-0.5', first=0), count=2)
    add('means-nil-slip', M, [nil('slip_floor')], args=('in/f', ('slip_length',)), files=dict(height='0'), count=1)
    for cmd, name in (('view height', 'height'), ('view flow', 'flow')):
        add(name + '-nil', cmd, ([('cutoff_label', 'value', 'T')] if name == 'height' else []) + [nil('cutoff')], count=1, args=('*in/f00001.dat',))
        add(name + '-nil-limits', cmd, [('vlim', 'reals', ('-1', 0), (0, 1)), ('xlim', 'reals', ('-0.5', '0.5'), None),
                                        ('ylim', 'reals', ('-0.3', '0.3'), None)], files=dict(height='-0.5'), count=1, args=('*in/f00001.dat',))
    add('contour-nil-limits', 'view contour', [('vlim', 'reals', ('-1', 0), (0, 1)), ('xlim', 'reals', ('-0.5', '0.5'), None)], count=1,
        args=('*in/f00001.dat',))
    # errors of usage
    for name, argv in (('unknown', ('average', 'in/f', 'x/f', '2', '--nothing', '1')), ('missing', ('average', 'in/f')),
                       ('group', ('average', 'in/f', 'x/f', '0')), ('word', ('average', 'in/f', 'x/f', 'two')),
                       ('format', ('convert', 'in/f', 'x/f', '--ftype', 'other')), ('file', ('view', 'height', 'in/f00009.dat')),
                       ('command', ('nothing', 'in/f')), ('nothing', ('spreading',)), ('labels', ('sample', 'in/f')),
                       ('pair', ('average', 'in/f', 'x/f', '2', '--xlim', '1')), ('number', ('average', 'in/f', 'x/f', '2', '--floor', 'low')),
                       ('variable', ('interface', 'sample', 'in/f', 'size')), ('begin', ('convert', 'in/f', 'x/f', '-b', '-1')),
                       ('no-number', ('average', 'in/f', 'x/f', '2', '--xlim', '1', 'never'))):
        out.append(Config('error-' + name, errors, dict(argv=argv)))
    # numbers of files which are no numbers of files, and files which do not exist, for every command
    lines = ((A, 'in/f', 'x/f', '2'), (C, 'in/f', 'x/f'), (S, 'in/f', '0'), (I, 'in/f', 'x/f'), (W, 'in/f'), (P, 'in/f', 'area'), (G, 'in/f'),
             (L, 'in/f', 'x/f'), (D, 'in/f', 'M'), (M, 'in/f', 'M'))
    for cmd, *args in lines:
        for opt in ('-b', '-e') + (('-av',) if cmd in (W, L, D) else ()):
            bad = ('0',) if opt == '-av' else ('-1',)
            out.append(Config('error-%s%s' % (cmd.replace(' ', '-'), opt), errors, dict(argv=tuple(cmd.split() + args) + (opt,) + bad)))
    for cmd, f in ((V, 'xvg'), (F, 'xvg'), ('view contour', 'dat'), ('view height', 'dat'), ('view flow', 'dat')):
        out.append(Config('error-%s-file' % cmd.replace(' ', '-'), errors, dict(argv=tuple(cmd.split()) + ('no.' + f,))))
    return again(out, ('average', 'average-combine'), ('average', 'average-left'), ('convert', 'convert-simple'), ('spread', 'spread-cutoff'), ('series', 'series-sync'), ('fit', 'fit-limits'),
                 ('interface', 'interface-bins'), ('profiles', 'profiles-average'), ('sizes', 'sizes-length'), ('angles-fit', 'angles-height'), ('edges', 'edges-fuse'),
                 ('edge-values', 'edge-values-sum'), ('contour', 'contour-levels'), ('height', 'height-limits'), ('flow', 'flow-limits'), ('lines', 'flow'), ('means', 'means-sum'),
                 ('means', 'means-cutoff'))
