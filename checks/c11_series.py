"""C11: selecting, grouping and numbering files of a series."""
from symx.runner import Config, again

ID = 'C11'
IMPORTS = ('strata.utils',)
BOUNDS = ('strata.utils.gen_filenames, find_datamap_files, find_singles_to_singles, find_groups_to_singles and '
          'pop_fileopts with the first and last file number symbolic (0..200000), up to 11 (quick) / 21 (thorough) files '
          'from the first which each may or may not exist, groups of 1, 2, 3, 5 (also 4, 7, 10), rolling or not')
OUTSIDE = 'longer series; negative file numbers'


def setup(env, k, ext, prefix='dir/data_'):
    """symbolic existence of the files begin-1..begin+k-1"""
    b = env.int('begin', 0, 200000)
    ex = [env.bool('exists%d' % i) for i in range(k + 1)]

    def pred(n):
        return env.or_(*[env.and_(n == b + i - 1, e) for i, e in enumerate(ex)])
    env.mkdir('dir')
    env.series(prefix, ext, pred, b - 1, b + k - 1)
    # a decoy with another extension and one with another base are there too
    env.series(prefix, ext + 'x', lambda n: True, b, b + k)
    env.series(prefix + 'x', ext, lambda n: True, b, b + k)
    run = 0
    while run < k and env.fork(ex[run + 1]):
        run += 1
    return b, run


def last(env, b, k, which):
    """(the keyword, number of files up to the end)"""
    if which is None:
        return {}, k
    m = env.int('end', -1, k + 1)
    return {'end': b + m - 1}, m


def number(env, path, b, i, prefix, ext, msg):
    env.check(isinstance(path, str), msg)
    n = env.file_number(path, prefix, ext)
    env.check(n is not None, msg + ' is named base, five digit number and extension')
    if n is not None:
        env.check_eq(n, b + i, msg)


def singles(env, k, end=None, ext=None, output=False, outext=None):
    u = env.mod('strata.utils')
    e = ext or '.dat'
    prefix = 'dir/data_'
    b, run = setup(env, k, e)
    kw, m = last(env, b, k, end)
    kw['begin'] = b
    if ext:
        kw['ext'] = ext
    n = 0
    while n < run and env.fork(m > n):
        n += 1
    if not output:
        got = list(u.find_datamap_files(prefix, **kw))
        env.check(len(got) == n, 'the files from the first up to the first missing one or the end')
        for i, p in enumerate(got[:n]):
            number(env, p, b, i, prefix, e, 'file')
    else:
        if outext:
            kw['outext'] = outext
        got = list(u.find_singles_to_singles(prefix, 'dir/out_', **kw))
        env.check(len(got) == n, 'the files from the first up to the first missing one or the end')
        for i, (p, o) in enumerate(got[:n]):
            number(env, p, b, i, prefix, e, 'file')
            number(env, o, b, i, 'dir/out_', outext or e, 'output file')


def groups(env, k, group, rolling=False, end=None, ext=None, output=False, outext=None):
    u = env.mod('strata.utils')
    e = ext or '.dat'
    prefix = 'dir/data_'
    b, run = setup(env, k, e)
    kw, m = last(env, b, k, end)
    kw['begin'] = b
    if ext:
        kw['ext'] = ext
    if rolling:
        kw['rolling'] = True
    n = 0
    while n < run and env.fork(m > n):
        n += 1
    starts = list(range(0, n - group + 1, 1 if rolling else group))
    if output:
        if outext:
            kw['outext'] = outext
        got = list(u.find_groups_to_singles(prefix, 'dir/out_', group, **kw))
    else:
        got = [(g, None) for g in u.find_datamap_files(prefix, group=group, **kw)]
    env.check(len(got) == len(starts), 'complete groups, and no others')
    for s, (g, o) in zip(starts, got):
        env.check(len(g) == group, 'files of a group')
        for i, p in enumerate(g):
            number(env, p, b, s + i, prefix, e, 'file of a group')
        if output:
            num = env.file_number(o, 'dir/out_', outext or e)
            env.check(num is not None, 'output file is named base, five digit number and extension')
            if num is None:
                continue
            if rolling:
                env.check_eq(num, b + s, 'a rolling group is numbered as its first file')
            else:
                # ceil(first / group)
                env.check(env.and_(num * group >= b + s, (num - 1) * group < b + s),
                          'a group is numbered ceil(first file / group)')


def names(env, k, ext=None):
    u = env.mod('strata.utils')
    b = env.int('begin', 0, 200000)
    m = env.int('count', -1, k)
    kw = {'ext': ext} if ext else {}
    got = list(u.gen_filenames('out_', b + m - 1, begin=b, **kw))
    env.check_eq(len(got), env.ite(m < 0, 0, m), 'one name per number from begin to end')
    for i, p in enumerate(got):
        number(env, p, b, i, 'out_', ext or '.dat', 'name')
    gen = u.gen_filenames('out_', begin=b, **kw)
    for i in range(k + 2):
        number(env, next(gen), b, i, 'out_', ext or '.dat', 'name without an end')


def options(env):
    u = env.mod('strata.utils')
    b, e = env.int('begin', 0, 99), env.int('end', 0, 99)
    kw = {'begin': b, 'end': e, 'ext': '.a', 'outext': '.b', 'other': 1}
    f = u.pop_fileopts(kw)
    env.check_eq(f['begin'], b, 'begin')
    env.check_eq(f['end'], e, 'end')
    env.check(f['ext'] == '.a' and f['outext'] == '.b', 'extensions')
    env.check(kw.get('other') == 1 and 'begin' not in kw and 'end' not in kw and 'ext' not in kw, 'options are popped')
    f = u.pop_fileopts({})
    env.check_eq(f['begin'], 1, 'default begin')
    env.check(f['end'] > 10 ** 9 and f['ext'] == '.dat' and f['outext'] == '.dat', 'default options')
    f = u.pop_fileopts({'ext': '.q'})
    env.check(f['outext'] == '.q', 'outext defaults to ext')


def configs(tier):
    k = 8 if tier == 'quick' else 14
    out = [
        Config('names', names, dict(k=3)), Config('names-ext', names, dict(k=2, ext='.xvg')), Config('options', options),
        Config('singles', singles, dict(k=k)), Config('singles-end', singles, dict(k=4, end=True, ext='.tmp')),
        Config('singles-output', singles, dict(k=3, end=True, output=True)),
        Config('singles-outext', singles, dict(k=3, output=True, ext='.in', outext='.out')),
    ]
    for g in (1, 2, 3, 5) + ((4, 7, 10) if tier == 'thorough' else ()):
        for r in (False, True):
            nm = '%d%s' % (g, '-rolling' if r else '')
            out.append(Config('group-%s' % nm, groups, dict(k=max(k, 2 * g + 1), group=g, rolling=r)))
            out.append(Config('group-end-%s' % nm, groups, dict(k=g + 3, group=g, rolling=r, end=True, ext='.tmp')))
            out.append(Config('group-output-%s' % nm, groups, dict(k=2 * g + 1, group=g, rolling=r, output=True)))
            out.append(Config('group-outext-%s' % nm, groups, dict(k=g + 2, group=g, rolling=r, end=True, output=True,
                                                                   ext='.in', outext='.out')))
    return again(out, 'singles', ('group-2', 'group-3-rolling'), ('group-2-rolling', 'group-2'), ('singles', 'options'), ('singles-output', 'singles-outext'))
