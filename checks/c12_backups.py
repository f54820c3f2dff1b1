"""C12: output never overwrites files."""
from symx.runner import Config, again

ID = 'C12'
IMPORTS = ('strata.utils', 'strata.dataformats.write', 'strata.interface.collect', 'strata.interface.angle',
           'strata.interface.sample', 'strata.sample_average', 'strata.spreading.collect', 'strata.spreading.view',
           'strata.contact_line_analysis')
BOUNDS = ('strata.utils.prepare_path around a recording writer and around every writer of strata, with the output file, '
          'up to four backups of it and its directory each existing or not (symbolic), a writer which may fail, and '
          'up to 24 (quick) / 120 (thorough) numbered backups, histories of up to 4 (quick) / 5 (thorough) writes to two paths')
OUTSIDE = 'symbolic links, races with other processes, unwritable directories, the atomicity of rename'

DIRS = ('', 'out', 'a/b')


def layout(env, name, nbackups, others=()):
    """a symbolic state of the directory: {path: content}"""
    state = {}
    d, f = name.rsplit('/', 1) if '/' in name else ('', name)
    pre = d + '/' if d else ''
    if d and (d == 'out' or env.fork(env.bool('directory exists'))):
        env.mkdir(d)
        there = True
    else:
        there = not d
    if there:
        cand = [name] + ['%s#%s.%d#' % (pre, f, i) for i in range(1, nbackups + 1)]
        cand += [pre + o for o in ('#x%s.1#' % f, f + '.1', '#%s#' % f) + tuple(others)]
        for i, p in enumerate(cand):
            # the decoys are always there
            if i > nbackups or env.fork(env.bool('exists ' + p)):
                state[p] = 'old content of %s\n' % p
                env.write_text(p, state[p])
    return state, pre, f


def expect(env, state, name, pre, f):
    """the backup (if any) of an existing output file"""
    state = dict(state)
    if name in state:
        i = 1
        while '%s#%s.%d#' % (pre, f, i) in state:
            i += 1
        state['%s#%s.%d#' % (pre, f, i)] = state.pop(name)
    return state


def compare(env, state, msg):
    env.check(env.listing() == sorted(state), msg + ': files')
    for p in state:
        if state[p] is not None and p in env.listing():
            env.check(env.text(p) == state[p], msg + ': content of files')


def decorated(env, name, nbackups=4, fails=False, verbose=None, folder=False):
    u = env.mod('strata.utils')
    state, pre, f = layout(env, name, nbackups)
    taken = dict(state)
    if folder:
        # one of the names of the backups is that of a directory
        p = '%s#%s.%d#' % (pre, f, env.choice('folder', range(1, nbackups + 1)))
        if p in state:
            env.remove(p)
            del state[p]
        env.mkdir(p)
        taken = dict(state)
        taken[p] = None
    want = expect(env, taken, name, pre, f)
    if folder:
        del want[p]
    seen = []
    fail = fails and env.fork(env.bool('the writer fails'))

    @u.prepare_path
    def write(path, *args, **kwargs):
        seen.append((path, args, dict(kwargs)))
        env.check(env.listing() == sorted(want), 'the path is free when the writer starts')
        if fail:
            raise RuntimeError('disk is full')
        env.write_text(path, 'new')
        return 'result'
    kw = {'key': 3}
    if verbose is not None:
        kw['_pp_verbose'] = verbose
    if fail:
        env.check(env.raises(RuntimeError, lambda: write(name, 1, [2], **kw)) is not None, 'failures are passed on')
    else:
        env.check(write(name, 1, [2], **kw) == 'result', 'the result is passed on')
        want[name] = 'new'
    env.check(seen == [(name, (1, [2]), {'key': 3})], 'the arguments are passed on, once')
    compare(env, want, 'after the write')


def history(env, names, steps):
    """several writes in a row: nothing is ever lost"""
    u = env.mod('strata.utils')

    @u.prepare_path
    def write(path, text):
        env.write_text(path, text)
    state = {}
    for i in range(steps):
        name = env.choice('path%d' % i, names)
        pre, f = (name.rsplit('/', 1)[0] + '/', name.rsplit('/', 1)[1]) if '/' in name else ('', name)
        if env.fork(env.bool('delete%d' % i)) and i > 1:
            # a user removes an old backup in between
            b = '%s#%s.1#' % (pre, f)
            if b in state:
                env.remove(b)
                del state[b]
        write(name, 'version %d' % i, _pp_verbose=False)
        state = expect(env, state, name, pre, f)
        state[name] = 'version %d' % i
        compare(env, state, 'after every write')


def maps(env, n=1):
    return dict((l, env.arr([env.const(0) if l in 'XY' else env.const(1)] * n)) for l in ('X', 'Y', 'N', 'T', 'M', 'U', 'V'))


def writers(env):
    info = {'shape': (1, 1), 'spacing': (env.const(1), env.const(1)), 'origin': (env.const(0), env.const(0)),
            'num_bins': 1}

    def fmt(ftype):
        def f(path):
            w = env.mod('strata.dataformats.write').write
            if ftype in ('default', 'gmx'):
                return w(path, maps(env), info, **({} if ftype == 'default' else {'ftype': ftype}))
            return w(path, maps(env), ftype=ftype)
        return f

    def interface(path):
        c = env.mod('strata.interface.collect')
        c.write_interface_data(path, {'X': env.arr([env.const(1)]), 'Y': env.arr([env.const(2)])}, ['in'], {})

    def angle(path):
        m = env.mod('strata.interface.angle')
        m.write_angle_data(path, 'base', env.const(1), [env.const(1)], 
                           dict([(k, [env.const(1)]) for k in ('measured', 'left', 'right')], fit=[]))

    def isample(path):
        env.mod('strata.interface.sample').write_header(path, 'base', 'area', env.const(1), {})

    def average(path):
        env.mod('strata.sample_average').write_header(path, 'base', ['M'], None, 'M', {})

    def spreading(path):
        env.mod('strata.spreading.collect').write_header(path, 'base', {})

    def line(path):
        env.mod('strata.contact_line_analysis').write_header(path, 'base', ['M'], None, 'M', 1, False, {})
    return {'default': fmt('default'), 'gmx': fmt('gmx'), 'simple': fmt('simple'), 'simple_plain': fmt('simple_plain'),
            'interface': interface, 'interface-sample': isample, 'sample': average, 'spreading': spreading,
            'contact-line': line, 'angle': angle}


def writer(env, kind, name='out/f.dat'):
    state, pre, f = layout(env, name, 2)
    want = expect(env, state, name, pre, f)
    writers(env)[kind](name)
    want[name] = None
    compare(env, want, 'after the write')
    if env.exists(name):
        raw = env.read_raw(name)
        env.check(len(raw) > 0, 'something was written')
        old = 'old content of %s\n' % name
        env.check(bytes(c if isinstance(c, int) else 0 for c in raw)[:len(old)] != old.encode(),
                  'the old content is not part of the new file')


def numbered(env, most, name='out/f.dat'):
    """any number of backups is there already"""
    u = env.mod('strata.utils')
    env.mkdir('out')
    n = env.choice('backups', range(most + 1))
    state = {name: 'current'}
    for i in range(1, n + 1):
        state['out/#f.dat.%d#' % i] = 'backup %d' % i
    for p in state:
        env.write_text(p, state[p])

    @u.prepare_path
    def write(path):
        env.write_text(path, 'new')
    write(name, _pp_verbose=False)
    want = expect(env, state, name, 'out/', 'f.dat')
    want[name] = 'new'
    compare(env, want, 'after the write')


def configs(tier):
    out = []
    for i, name in enumerate(('f.dat', 'out/f.dat', 'a/b/f_00001.dat', 'noext')):
        out.append(Config('decorated-' + name, decorated, dict(name=name, fails=i % 2 == 1,
                                                               verbose=(None, False, True, None)[i])))
    out.append(Config('decorated-folder', decorated, dict(name='out/f.dat', nbackups=3, folder=True)))
    out.append(Config('history', history, dict(names=['f', 'g.x'], steps=4 if tier == 'quick' else 5)))
    out.append(Config('history-directory', history, dict(names=['a/f', 'f'], steps=3)))
    out.append(Config('numbered', numbered, dict(most=24 if tier == 'quick' else 120)))
    for k in ('default', 'gmx', 'simple', 'simple_plain', 'interface', 'interface-sample', 'sample', 'spreading',
              'contact-line', 'angle'):
        out.append(Config('writer-' + k, writer, dict(kind=k)))
    return again(out, ('decorated-f.dat', 'history'), ('writer-gmx', 'writer-default'), 'writer-simple', 'writer-interface', ('decorated-f.dat', 'decorated-out/f.dat'), 'writer-spreading')
