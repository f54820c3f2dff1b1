"""C23: spreading data is fitted to power laws: the least squares fit on logarithmic axes, drawn and saved."""
from symx.runner import Config, again

ID = 'C23'
IMPORTS = ('strata.spreading.fit', 'strata.spreading.view')
BOUNDS = ('1..3 files of 2..5 rows and 1..2 columns; times fixed (powers of ten, with or without zero), radii symbolic over '
          'three decades; limits of the fit and of the curve symbolic')
OUTSIDE = ('series with fewer than two positive times within the limits, radii of zero; convergence of the numeric minimiser '
           '(the solution of the normal equations of the residual which is passed to it is taken); scientific number formats of '
           'pandas in saved curves')
ASSUMPTIONS = ('leastsq, least_squares, curve_fit and lstsq return the minimum of the sum of squares of their residual, which '
               'is affine in the parameters (verified)',)


def make(env, files, exact=False):
    """write files of columns; the series (name, times, log10 times, log10 radii) in order"""
    out = []
    for k, (times, cols) in enumerate(files):
        path = 'in/s%d1.xvg' % k
        ts = [env.const(t) for t in times]
        qs = [None if float(t) <= 0 else env.log10(env.const(t)) for t in times]
        logs = []
        for c in range(cols):
            if exact:
                A, K = env.real('A%d_%d' % (k, c), -1, 1), env.real('K%d_%d' % (k, c), 0, 1)
                logs.append([env.real('z%d_%d' % (k, c), -1, 1) if q is None else A + K * q for q in qs])
            else:
                logs.append([env.real('L%d_%d_%d' % (k, c, i), -1, 2) for i in range(len(ts))])
        rs = [[env.pow10(l) for l in ls] for ls in logs]
        env.write_text(path, '# a comment\n' + ''.join(
            '%s %s\n' % (t, ' '.join(env.fmt('%r', r[i]) for r in rs)) for i, t in enumerate(times)))
        for c in range(cols):
            out.append(('%s.%d' % (path, c + 1), ts, qs, logs[c], rs[c]))
    return ['in/s%d1.xvg' % k for k in range(len(files))], out


def limits(env, name, which, scale, first=-1):
    """limits in steps of the times, so that the solver picks which times are within"""
    lo = env.real(name + '_lo', first, scale) if which[0] else None
    hi = env.real(name + '_hi', -1, scale) if which[1] else None
    return lo, hi


def within(env, ts, lims):
    lo, hi = lims
    inside = [env.and_(lo is None or t >= lo, hi is None or t <= hi) for t in ts]
    some = env.fork(env.or_(*inside))
    return [q for q, i in enumerate(inside) if not some or env.fork(i)]


def fit(env, files, lims=(False, False), out=(False, False), exact=False, save=False, twice=False, opts=(), drawn=True, scale=120, first=-1):
    m = env.mod('strata.spreading.fit')
    names, series = make(env, files, exact)
    if twice:
        # series of the same name
        names, series = names * 2, series * 2
    lims, out = limits(env, 'fit', lims, scale, first), limits(env, 'out', out, scale, first)
    env.mkdir('fig')
    env.mkdir('res')
    kw = dict(opts)
    if lims != (None, None):
        kw['lims'] = lims
    if out != (None, None):
        kw['out_lims'] = out
    if save:
        kw['save_xvg'] = 'res/fit.xvg'
    keep = []
    for _, ts, qs, _, _ in series:
        kept = [q for q in within(env, ts, lims) if qs[q] is not None]
        env.assume(len(kept) > 1)
        keep.append(kept)
    shown = [within(env, ts, out) for _, ts, _, _, _ in series]
    before = dict((p, env.read_raw(p)) for p in env.listing())
    env.record_drawing()
    got = m.fit_spreading_data(names, **kw)
    env.check(len(got) == len(series), 'a fit per series')
    laws = []
    for (name, ts, qs, logs, rs), kept, (a, k) in zip(series, keep, got):
        la = env.log10(a)
        laws.append((la, k))
        rest = [logs[q] - (la + k * qs[q]) for q in kept]
        env.check_eq(env.sum(rest), env.lit(0), 'the deviations from the fit cancel', tol='1e-4')
        env.check_eq(env.sum([qs[q] * r for q, r in zip(kept, rest)]), env.lit(0), 'the deviations from the fit do not depend on time', tol='1e-4')
        if exact:
            for q in kept:
                env.check_eq(rest[kept.index(q)], env.lit(0), 'a power law is found', tol='1e-4')
    for p, raw in before.items():
        env.check(env.exists(p) and env.read_raw(p) == raw, 'input files are left alone')
    plots = env.drawn('plot')
    env.check(len(plots) == (2 * len(series) if drawn else 0), 'the data and the fit of every series are drawn')
    if drawn and len(plots) == 2 * len(series):
        for q, (name, ts, qs, logs, rs) in enumerate(series):
            data = [d for d in plots if d[2].get('label') == name]
            env.check(len(data) == 1 + bool(twice), 'the data is drawn under its name')
            if len(data) == 1 + bool(twice):
                points(env, data[0], ts, rs, range(len(ts)), 'the data')
            label = ' '.join([env.fmt('a=%.3f,', got[q][0]), env.fmt('k=%.3f', got[q][1])])
            curves = [d for d in plots if d[2].get('label') not in [t[0] for t in series]]
            env.check(len(curves) == len(series), 'a curve per series')
            if len(curves) == len(series):
                env.check(curves[q][2].get('label') == label, 'the fit is drawn with its parameters')
                law(env, list(curves[q][1][0]), list(curves[q][1][1]), series[q], shown[q], laws[q], 'the curve')
        env.check([d[1][0] for d in env.drawn('savefig')] == ([kw['save_fig']] if 'save_fig' in kw else []), 'the figure is saved')
        env.check(len(env.drawn('legend')) == (1 if kw.get('legend') else 0), 'legend of the figure')
        env.check([d[1][0] for d in env.drawn('xscale')] == (['log'] if kw.get('loglog') else []), 'logarithmic axes')
    env.check(env.exists('res/fit.xvg') == bool(save), 'the fit is saved')
    if save and env.exists('res/fit.xvg'):
        saved(env, m, series, shown, laws, got, lims, out)


def points(env, call, ts, rs, inds, what):
    xs, ys = list(call[1][0]), list(call[1][1])
    env.check(len(xs) == len(inds) == len(ys), 'points of ' + what)
    if len(xs) == len(inds) == len(ys):
        env.check_eq_all(xs, [ts[i] for i in inds], 'times of ' + what)
        env.check_eq_all(ys, [rs[i] for i in inds], 'values of ' + what)


def law(env, xs, ys, series, inds, params, what, tol='1e-4', ttol=None):
    """the points are those of the power law"""
    name, ts, qs, _, _ = series
    la, k = params
    env.check(len(xs) == len(inds) == len(ys), 'points of ' + what)
    if len(xs) == len(inds) == len(ys):
        for x, y, i in zip(xs, ys, inds):
            env.check_eq(x, ts[i], 'times of ' + what, tol=ttol or '1e-6')
            if qs[i] is not None:
                env.check(y > 0, 'values of ' + what)
                if env.fork(y > 0):
                    env.check_eq(env.log10(y), la + k * qs[i], 'values of ' + what, tol=tol)
            elif env.fork(k > env.lit('0.001')):
                env.check_eq(y, env.lit(0), 'values of %s at time zero' % what, tol='1e-4')


def saved(env, m, series, shown, laws, got, lims, out):
    text = env.text('res/fit.xvg')
    head = [l.rstrip() for l in text.splitlines() if l.startswith('#')]
    for what, (lo, hi) in (('Fit', lims), ('Draw', out)):
        env.check('#   %s limits: %s, %s' % (what, env.fmt('%r', lo), env.fmt('%r', hi)) in head, 'the limits are reported')
    for (name, _, _, _, _), (a, k) in zip(series, got):
        env.check("#   '%s %s %s'" % (name, env.fmt('a=%.3f,', a), env.fmt('k=%.3f', k)) in head, 'the parameters are reported')
    body = [l.split() for l in text.splitlines() if l.strip() and not l.startswith('#')]
    form = [['@with', 'g0']] + [['@', 's%d' % q, 'comment'] for q in range(len(series))]
    for q, inds in enumerate(shown):
        form += [['@target', 'G0.S%d' % q], ['@type', 'xy']] + [None] * len(inds) + ([['&']] if q + 1 < len(series) else [])
    env.check(len(body) == len(form) and all(l[:len(f)] == f if f else len(l) == 2 and l[0][0] not in '@&'
                                             for f, l in zip(form, body)), 'a data set per series')
    back = env.mod('strata.spreading.view').read_spreading_data('res/fit.xvg')
    env.check(len(back) == len(series), 'the saved curves are read')
    for s, g, inds, params in zip(series, back, shown, laws):
        law(env, list(g.index), list(g.values), s, inds, params, 'the saved curve', '1e-3', '1e-3')


T3, T4 = ('1', '10', '100'), ('0', '1', '10', '100')


def configs(tier):
    T, F = True, False
    out = [Config('all', fit, dict(files=((T3, 1),))),
           Config('zero', fit, dict(files=((T4, 1),))),
           Config('exact', fit, dict(files=((T4, 1),), exact=True)),
           Config('from', fit, dict(files=((T4, 1),), lims=(T, F))),
           Config('until', fit, dict(files=((T3, 1),), lims=(F, T))),
           Config('within', fit, dict(files=((('0.1', '1', '10', '100'), 1),), lims=(T, T), opts={'show': F}, drawn=F)),
           Config('curve-from', fit, dict(files=((T3, 1),), out=(T, F))),
           Config('curve-within', fit, dict(files=((T4, 1),), out=(T, T), save=True)),
           Config('files', fit, dict(files=((T3, 1), (('1', '10'), 2)), save=True)),
           Config('files-within', fit, dict(files=((T3, 1), (('0', '10', '100'), 1)), lims=(F, T))),
           # times before the impact, which have no power law
           Config('negative', fit, dict(files=((('-10', '-1', '0', '1', '10'), 1),), lims=(T, F), out=(T, F), first=0, scale=5)),
           Config('hidden', fit, dict(files=((T3, 1),), opts={'show': F}, drawn=F, save=True)),
           Config('save', fit, dict(files=((T3, 1),), lims=(T, T), out=(F, T), save=True)),
           Config('figure', fit, dict(files=((T3, 1),), opts={'save_fig': 'fig/a.png', 'legend': T, 'loglog': T})),
           Config('twice', fit, dict(files=((T3, 1),), twice=True, save=True)),
           Config('unordered', fit, dict(files=((('10', '1', '100', '0'), 1),), lims=(T, F))),
           ]
    if tier == 'thorough':
        T5 = ('0', '0.1', '1', '10', '100')
        out += [Config('long', fit, dict(files=((T5, 2),), lims=(T, T), out=(T, T), save=True)),
                Config('many', fit, dict(files=((T5, 1), (T3, 2), (T4, 1)), lims=(F, T), save=True)),
                Config('exact-many', fit, dict(files=((T5, 1), (T3, 2)), exact=True, lims=(T, F)))]
    return again(out, 'all', ('exact', 'all'), ('files', 'files-within'), ('files', 'negative'))
