"""C13: sampling of flow maps."""
from fractions import Fraction

from symx.runner import Config, again
from checks.common import whole_map

ID = 'C13'
IMPORTS = ('droplets.sample',)
BOUNDS = ('sample_center_of_mass, sample_inertial_energy, sample_flow_angle on 1..4 (quick) / 6 cells, every value '
          'symbolic; sample_per_angle_from on 1..2 (quick) / 3 cells at symbolic angles (to 1e-4 degrees of an edge of an '
          'interval) and distances 1..3 from a symbolic origin, intervals of 1..180 degrees (whole or in '
          'fractions), symbolic radii that may be exactly the distance of a point along an axis')
OUTSIDE = 'more cells; negative masses and weights of centres and intervals; angles closer than 1e-4 degrees to the upper end of an interval'
NAMES = (('X', 'Y'), ('cx', 'cy'))


def flow(env, labels, n, lo=None):
    FlowData = env.mod('droplets.flow').FlowData
    vals = dict((l, env.reals(l, n, (lo or {}).get(l))) for l in labels)
    return FlowData(*[(l, env.arr(vals[l])) for l in labels]), vals


def untouched(env, f, vals):
    for l in vals:
        env.check_eq_all(f.data[l], vals[l], 'the map is unchanged: ' + l)


def center(env, n, other=False):
    m = env.mod('droplets.sample')
    xl, yl, ml = ('q', 'p', 'w') if other else ('X', 'Y', 'M')
    f, v = flow(env, (xl, ml, yl), n, {ml: 0})
    tot = env.sum(v[ml])
    kw = dict(mass_label=ml, coord_labels=[xl, yl]) if other else {}
    if env.fork(tot == 0):
        env.check(env.raises(ZeroDivisionError, lambda: m.sample_center_of_mass(f, **kw)) is not None,
                  'no centre of mass without mass')
        return
    got = m.sample_center_of_mass(f, **kw)
    env.check(len(got) == 2, 'two coordinates')
    for g, l in zip(got, (xl, yl)):
        env.check_eq(g * tot, env.sum([a * b for a, b in zip(v[l], v[ml])]), 'centre of mass along ' + l)
    untouched(env, f, v)


def inertia(env, n, other=False):
    m = env.mod('droplets.sample')
    ul, vl, ml = ('q', 'p', 'w') if other else ('U', 'V', 'M')
    f, v = flow(env, (vl, ul, ml), n)
    kw = dict(mass_label=ml, flow_labels=[ul, vl]) if other else {}
    got = m.sample_inertial_energy(f, **kw)
    env.check_eq_all([g * 2 for g in got], [c * (a * a + b * b) for a, b, c in zip(v[ul], v[vl], v[ml])],
                     'inertial energy per cell')
    untouched(env, f, v)


def angle(env, n, other=False, mean=False, weight=False):
    m = env.mod('droplets.sample')
    np = env.np
    ul, vl, ml = ('q', 'p', 'w') if other else ('U', 'V', 'M')
    f, v = flow(env, (vl, ul, ml), n)
    kw = dict(flow_labels=[ul, vl]) if other else {}
    if mean:
        kw['mean'] = True
    if weight:
        kw['weight'] = ml
        # (a float zero has a sign, and a negative weight turns it)
        for a, x in zip(v[vl], v[ml]):
            env.assume(env.or_(a != 0, x >= 0))
    got = m.sample_flow_angle(f, **kw)
    us, vs = v[ul], v[vl]
    if mean and weight:
        us, vs = [a * w for a, w in zip(us, v[ml])], [a * w for a, w in zip(vs, v[ml])]
    if mean:
        env.check_eq(got, np.degrees(np.arctan2(env.sum(vs), env.sum(us))), 'angle of the mean flow')
        got = [got]
    else:
        env.check_eq_all(got, [np.degrees(np.arctan2(b, a)) for a, b in zip(us, vs)], 'angle of the flow per cell')
    for g in got:
        env.check(env.and_(g > -180, g <= 180), 'angles are within (-180, 180]')
    untouched(env, f, v)
    env.check(env.raises(ValueError, lambda: m.sample_flow_angle(f, flow_labels=['a', 'b'])) is not None,
              'unknown labels are refused')
    env.check(env.raises(ValueError, lambda: m.sample_flow_angle(f, flow_labels=[ul, vl], mean=True, weight='zz'))
              is not None, 'unknown weights are refused')


def whole(env, floats):
    """flow, or masses, of whole numbers"""
    m = env.mod('droplets.sample')
    np = env.np
    f, v = whole_map(env, 2, 1, 'UVM', floats)
    w = v['M']
    tot = env.sum(w)
    mom = [env.sum([a * b for a, b in zip(v[l], w)]) for l in 'UV']
    env.check_eq(m.sample_flow_angle(f, mean=True, weight='M'), np.degrees(np.arctan2(mom[1], mom[0])), 'angle of the mean flow')
    env.check_eq(m.sample_flow_angle(f, mean=True), np.degrees(np.arctan2(env.sum(v['V']), env.sum(v['U']))), 'angle of the mean flow')
    x, y = m.sample_center_of_mass(f)
    env.check_eq(x * tot, w[1], 'centre of mass', tol=env.const('0.000001'))
    env.check_eq(y * 1, 0, 'centre of mass')
    env.check_eq_all([g * 2 for g in m.sample_inertial_energy(f)], [c * (a * a + b * b) for a, b, c in zip(v['U'], v['V'], w)],
                     'inertial energy per cell')
    got = m.sample_per_angle_from(f, (-1, 0), 'U', weight='M', size=90)
    env.check_eq(got['U'][0] * tot, mom[0], 'mean along x', tol=env.const('0.000001'))
    untouched(env, f, v)


def per_angle(env, n, size=None, amin=None, amax=None, weight=False, radii=False, names=('X', 'Y'), dist=None,
              axes=False):
    m = env.mod('droplets.sample')
    FlowData = env.mod('droplets.flow').FlowData
    near = env.lit('0.0001')
    ox, oy = env.real('ox', -50, 50), env.real('oy', -50, 50)
    lo = Fraction(0 if amin is None else amin)
    hi = Fraction(360 if amax is None else amax)
    w = Fraction(1 if size is None else size)
    dist = dist or [1, 3, 2][:n]

    def steps(q, stop):
        out = []
        while q < stop:
            out.append(q)
            q += w
        return out

    edges = steps(max(lo, 0), min(hi, 360) + 2 * w)
    deg, xs, ys = [], [], []
    for i in range(n):
        if axes:
            # points along the axes are at exact angles and distances
            d, x, y = env.polar('deg%d' % i, dist[i], 0, 270)
            env.assume(env.or_(*[d == q for q in (0, 90, 180, 270)]))
        else:
            d, x, y = env.polar('deg%d' % i, dist[i], 0, '359.9999')
        # stay clear of rounding around the edges
        for q in edges:
            env.assume(env.or_(d >= env.lit(q), d <= env.lit(q) - near))
            if q % 90:
                env.assume(env.or_(d <= env.lit(q) - near, d >= env.lit(q) + near))
        env.assume(env.or_(d <= env.lit(hi), d >= env.lit(hi) + near))
        for q in (0, 90, 180, 270):
            # the float of an exact direction may be slightly off, so it is exactly on it or clear of it
            env.assume(env.or_(d <= q, d >= q + near))
            if q:
                env.assume(env.or_(d >= q, d <= q - near))
        deg.append(d)
        xs.append(ox + x)
        ys.append(oy + y)
    # the exact directions need an exact origin
    if axes or env.fork(env.bool('origin at zero')):
        env.assume(env.and_(ox == 0, oy == 0))
    else:
        for d in deg:
            for q in (0, 90, 180, 270):
                env.assume(env.or_(d <= q - near, d >= q + near))
    cs, ws = env.reals('C', n), env.reals('W', n, 0)
    f = FlowData((names[0], env.arr(xs)), ('C', env.arr(cs)), (names[1], env.arr(ys)), ('W', env.arr(ws)))
    kw = {}
    if names != ('X', 'Y'):
        kw['coord_labels'] = names
    if amin is not None:
        kw['amin'] = env.const(amin)
    if amax is not None:
        kw['amax'] = env.const(amax)
    if size is not None:
        kw['size'] = env.const(size)
    if weight:
        kw['weight'] = 'W'
    inside = [True] * n
    if radii:
        r0, r1 = env.real('rmin', 0, 4), env.real('rmax', 0, 4)
        for d in dist:
            for r in (r0, r1):
                if not axes:
                    env.assume(env.abs(r - d) >= env.lit('0.001'))
        if radii != 'max':
            kw['rmin'] = r0
        if radii != 'min':
            kw['rmax'] = r1
        inside = [env.and_(radii == 'max' or r0 <= d, radii == 'min' or r1 >= d) for d in dist]
    got = m.sample_per_angle_from(f, (ox, oy), 'C', **kw)
    a0, a1 = max(lo, 0), min(hi, 360 - w)
    want = steps(a0, a1 + w)
    env.check_eq_all(got['angle'], [env.lit(q) for q in want], 'angles of the intervals')
    if len(got) != len(want):
        return
    for k, q in enumerate(want):
        mem = [env.and_(i, d >= env.lit(q), d < env.lit(q + w), d >= env.lit(lo), d <= env.lit(hi))
               for i, d in zip(inside, deg)]
        tot = env.sum([env.ite(c, x if weight else 1, 0) for c, x in zip(mem, ws)])
        num = env.sum([env.ite(c, v * x if weight else v, 0) for c, v, x in zip(mem, cs, ws)])
        g = got['C'][k]
        env.check_eq(env.ite(tot > 0, g * tot, g), env.ite(tot > 0, num, 0), 'average of the interval at %s degrees' % q)
    for l, v in ((names[0], xs), (names[1], ys), ('C', cs), ('W', ws)):
        env.check_eq_all(f.data[l], v, 'the map is unchanged: ' + l)


def configs(tier):
    out = []
    for n in (1, 3) if tier == 'quick' else (1, 3, 6):
        for o in (False, True):
            t = '%d%s' % (n, '-labels' if o else '')
            out += [Config('center-' + t, center, dict(n=n, other=o)), Config('inertia-' + t, inertia, dict(n=n, other=o)),
                    Config('angle-' + t, angle, dict(n=min(n, 3), other=o)),
                    Config('angle-mean-' + t, angle, dict(n=n, other=o, mean=True)),
                    Config('angle-weight-' + t, angle, dict(n=n, other=o, mean=True, weight=True))]
    out += [
        Config('per-angle-90', per_angle, dict(n=2, size=90)),
        Config('per-angle-120-weight', per_angle, dict(n=2, size=120, weight=True, names=NAMES[1])),
        Config('per-angle-degree', per_angle, dict(n=1, amin=88, amax=92)),
        Config('per-angle-last-degree', per_angle, dict(n=1, amin=356)),
        Config('per-angle-limits', per_angle, dict(n=1, size=30, amin=120, amax=220)),
        Config('per-angle-beyond', per_angle, dict(n=1, size=60, amin=-10, amax=400)),
        Config('per-angle-radii', per_angle, dict(n=2, size=180, radii=True)),
        Config('per-angle-radii-exact', per_angle, dict(n=2, size=120, radii=True, axes=True)),
        Config('per-angle-rmin', per_angle, dict(n=2, size=90, radii='min', axes=True)),
        Config('per-angle-rmax', per_angle, dict(n=1, size=90, radii='max')),
        Config('per-angle-half', per_angle, dict(n=1, size=45, amin='22.5')),
        Config('per-angle-fraction', per_angle, dict(n=1, size='62.5', amin='10.25', amax='200.5', weight=True)),
    ]
    if tier == 'thorough':
        out += [Config('per-angle-45', per_angle, dict(n=2, size=45)),
                Config('per-angle-3', per_angle, dict(n=3, size=90, weight=True)),
                Config('per-angle-degrees', per_angle, dict(n=2, amin=178, amax=183))]
    out += [Config('whole-%s' % (k or 'all'), whole, dict(floats=k)) for k in ('', 'M', 'UV')]
    return again(out, 'center-3', ('center-1', 'center-3-labels'), ('inertia-1', 'inertia-3-labels'), ('angle-3', 'angle-weight-3'), ('angle-mean-1', 'angle-weight-1-labels'),
                 ('per-angle-90', 'per-angle-120-weight'), ('per-angle-90', 'per-angle-rmin'))
