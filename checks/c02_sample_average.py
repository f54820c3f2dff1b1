"""C02: the sample average of flow fields."""
from symx.runner import Config, again

ID = 'C02'
IMPORTS = ('strata.dataformats.simple.average', 'strata.dataformats.simple.main',
           'strata.dataformats.gmx_flow_version_1.main')
BOUNDS = ('strata.dataformats.simple.average.average_data on 0..4 (thorough 6) maps of 1..3 (thorough 6) bins; every '
          'coordinate and field value symbolic in [-1000, 1000], masses and numbers in [0, 1000]')
OUTSIDE = 'more maps or bins; non-finite values in the input'
LABELS = ('N', 'M', 'T', 'U', 'V')
WEIGHT = {'N': None, 'M': None, 'T': 'N', 'U': 'M', 'V': 'M'}


def make(env, k, n, shared=True):
    maps = []
    xs, ys = env.reals('X', n), env.reals('Y', n)
    for i in range(k):
        d = {'X': env.arr(xs), 'Y': env.arr(ys)}
        if not shared and i > 0:
            d = {'X': env.arr(env.reals('X%d' % i, n)), 'Y': env.arr(env.reals('Y%d' % i, n))}
        for l in LABELS:
            lo = 0 if l in 'NM' else None
            d[l] = env.arr(env.reals('%s%d' % (l, i), n, lo))
        maps.append(d)
    return xs, ys, maps


def average(env, k, n, module):
    f = env.mod(module).average_data
    xs, ys, maps = make(env, k, n)
    saved = [dict((l, list(d[l])) for l in d) for d in maps]
    avg = f(*maps)
    env.check(set(avg) == set(('X', 'Y') + LABELS), 'labels')
    env.check_eq_all(avg['X'], xs, 'X')
    env.check_eq_all(avg['Y'], ys, 'Y')
    for l in LABELS:
        env.check(len(avg[l]) == n, 'length of ' + l)
        for j in range(n):
            w = WEIGHT[l]
            vs = [d[l][j] for d in saved]
            if w is None:
                env.check_eq(avg[l][j] * k, env.sum(vs), 'mean of %s[%d]' % (l, j))
            else:
                ws = [d[w][j] for d in saved]
                tot = env.sum(ws)
                env.check(env.finite(avg[l][j]), '%s[%d] is finite' % (l, j))
                env.check_eq(env.ite(tot > 0, avg[l][j] * tot, avg[l][j]),
                             env.ite(tot > 0, env.sum([a * b for a, b in zip(vs, ws)]), 0),
                             'weighted mean of %s[%d]' % (l, j))
    for d, s in zip(maps, saved):
        env.check(set(d) == set(s), 'input labels are unchanged')
        for l in d:
            env.check_eq_all(d[l], s[l], 'input %s is unchanged' % l)


def mismatch(env, k, n):
    """Maps whose coordinates differ are refused, those within rounding are accepted."""
    f = env.mod('strata.dataformats.simple.average').average_data
    xs, ys, maps = make(env, k, n, shared=False)
    same, differ = [], []
    for d in maps[1:]:
        for l, ref in (('X', xs), ('Y', ys)):
            for a, b in zip(list(d[l]), ref):
                diff = env.abs(a - b)
                same.append(diff <= env.lit('0.0001'))
                differ.append(diff >= 1)
    same, differ = env.and_(*same), env.or_(*differ)
    env.assume(env.or_(same, differ))
    err = env.raises(ValueError, lambda: f(*maps))
    env.check(env.iff(differ, err is not None), 'ValueError exactly when coordinates differ')


def empty(env):
    env.check(env.mod('strata.dataformats.simple.average').average_data() == {}, 'no input gives no data')


def configs(tier):
    m = 'strata.dataformats.simple.average'
    out = [Config('empty', empty)]
    shapes = [(1, 2), (2, 2), (3, 1), (4, 3)]
    if tier == 'thorough':
        shapes += [(5, 4), (6, 6), (2, 9)]
    for k, n in shapes:
        out.append(Config('average-%dx%d' % (k, n), average, dict(k=k, n=n, module=m)))
    for name in ('strata.dataformats.simple.main', 'strata.dataformats.gmx_flow_version_1.main'):
        out.append(Config('average-%s' % name.split('.')[2], average, dict(k=2, n=2, module=name)))
    for k, n in [(2, 1), (2, 2), (3, 2), (5, 1)]:
        out.append(Config('mismatch-%dx%d' % (k, n), mismatch, dict(k=k, n=n)))
    return again(out, 'average-2x2', ('average-1x2', 'average-3x1'), ('mismatch-2x2', 'average-2x2'))
