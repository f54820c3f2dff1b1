"""Model of the transcendental functions.

An angle returned by arctan2/arccos/arcsin/arctan is a fresh real th with a
unit vector (c, s) = (cos th, sin th):
  * quadrant facts tie the sign and range of th to the signs of c and s;
  * pairwise facts between the angles of a path: equal vectors <=> equal
    angles, th is monotone in c on each half circle, mirrored vectors give
    mirrored angles.
These are true facts about the functions, so `unsat` is sound; a model may be
spurious, which the concrete replay decides. exp/log are uninterpreted with
the standard monotonicity and inverse facts.
"""

from fractions import Fraction

import z3

from . import core
from .core import SymReal, b_or, rv, to_b, ite

PI = Fraction('3.141592653589793')


def _pi():
    return rv(PI)


class Angle(object):
    __slots__ = ('th', 'c', 's')

    def __init__(self, th, c, s):
        self.th, self.c, self.s = th, c, s


def _facts(th, c, s):
    pi = _pi()
    return z3.And(
        c * c + s * s == 1, c <= 1, c >= -1, s <= 1, s >= -1,
        th > -pi, th <= pi,
        (s > 0) == z3.And(th > 0, th < pi),
        (s < 0) == (th < 0),
        z3.Implies(s == 0, z3.If(c > 0, th == 0, th == pi)),
        (c > 0) == z3.And(th < pi / 2, th > -pi / 2),
        z3.Implies(c == 0, z3.If(s > 0, th == pi / 2, th == -pi / 2)),
        z3.Implies(z3.And(c == s, s > 0), th == pi / 4),
        z3.Implies(z3.And(c == -s, s > 0), th == 3 * pi / 4),
    )


def _pair(a, b):
    pi = _pi()
    return z3.And(
        z3.Implies(z3.And(a.c == b.c, a.s == b.s), a.th == b.th),
        z3.Implies(a.th == b.th, z3.And(a.c == b.c, a.s == b.s)),
        z3.Implies(z3.And(a.s >= 0, b.s >= 0), z3.And((a.th < b.th) == (a.c > b.c))),
        z3.Implies(z3.And(a.s < 0, b.s < 0), (a.th < b.th) == (a.c < b.c)),
        z3.Implies(z3.And(a.c == b.c, a.s == -b.s, a.s != 0), a.th == -b.th),
        z3.Implies(z3.And(a.c == -b.c, a.s == b.s),
                   a.th == z3.If(a.s >= 0, pi - b.th, -pi - b.th)),
        z3.Implies(z3.And(a.c == -b.c, a.s == -b.s, a.s != 0),
                   a.th == z3.If(a.s > 0, b.th + pi, b.th - pi)),
    )


def _new_angle(e, key, ax):
    """ax(th, c, s) -> defining constraint"""
    if key in e.trigs:
        return e.trigs[key][1]
    th, c, s = e.fresh_real('th'), e.fresh_real('cos'), e.fresh_real('sin')
    a = Angle(th, c, s)
    cons = [_facts(th, c, s), ax(th, c, s)]
    for k, (_, o) in e.trigs.items():
        if isinstance(o, Angle):
            cons.append(_pair(a, o))
    con = z3.And(*cons)
    e.solver.add(con)
    e.pc.append(con)
    e.model = None
    e.abstracted = True
    e.trigs[key] = (ax, a)
    return a


def find(e, t):
    """Angle whose th is the term t"""
    i = t.get_id()
    for _, o in e.trigs.values():
        if isinstance(o, Angle) and o.th.get_id() == i:
            return o
    return None


def apply(e, f, *args):
    x = args[0]
    if f == 'arctan2':
        y, x = args
        return arctan2(e, y, x)
    if f == 'arctan':
        r = arctan2(e, SymReal(x.n, x.d), SymReal(Fraction(1)))
        if x.clean:
            return r
        h = SymReal(PI / 2)
        r = ite(x.pinf, h, ite(x.ninf, -h, r))
        return SymReal(r.n, r.d, b_or(x.nan, r.nan))
    if f in ('arccos', 'arcsin'):
        fin = SymReal(x.n, x.d)
        q = next((q for q, r in e.sqrts.values() if z3.is_expr(fin.d) and z3.is_expr(r.n) and r.n.eq(fin.d)), None)
        if q is not None:
            # |n / sqrt(q)| > 1
            n2 = SymReal(fin.n) * SymReal(fin.n)
            out = SymReal(z3.simplify((n2 - SymReal(q)).z(), som=True)) > 0
            out = to_b(out)
        else:
            out = to_b(abs(fin) > 1)
        k = e.entailed(out)
        out = out if k is None else k
        if out is False and q is not None and f == 'arccos':
            # the angle of the vector (n, sqrt(q - n^2))
            t = z3.simplify(fin.z(), som=True)
            tn, rt = z3.simplify(SymReal(fin.n).z(), som=True), fin.d
            rest = z3.simplify((SymReal(q) - n2).z(), som=True)
            a = _new_angle(e, ('arccos', t.get_id()), lambda th, c, s, t=t: z3.And(
                s >= 0, z3.Implies(rt > 0, z3.And(c * rt == tn, s * s * q == rest, (s == 0) == (rest == 0),
                                                  (c > 0) == (tn > 0), (c < 0) == (tn < 0)))))
            return SymReal(a.th, None, b_or(x.nan, x.pinf, x.ninf))
        if fin.const:
            c = {('arccos', 1): 0, ('arccos', -1): PI, ('arccos', 0): PI / 2,
                 ('arcsin', 0): 0, ('arcsin', 1): PI / 2, ('arcsin', -1): -PI / 2}.get((f, fin.n))
            if c is not None:
                return SymReal(Fraction(c), None, b_or(x.nan, x.pinf, x.ninf))
        t = z3.simplify(fin.z(), som=True)
        if f == 'arccos':
            a = _new_angle(e, ('arccos', t.get_id()), lambda th, c, s, t=t: z3.And(
                s >= 0, z3.Or(t > 1, t < -1, c == t)))
        else:
            a = _new_angle(e, ('arcsin', t.get_id()), lambda th, c, s, t=t: z3.And(
                c >= 0, th >= -_pi() / 2, z3.Or(t > 1, t < -1, s == t)))
        return SymReal(a.th, None, b_or(x.nan, x.pinf, x.ninf, out))
    if f in ('sin', 'cos'):
        if not x.clean:
            r = apply(e, f, SymReal(x.n, x.d))
            return SymReal(r.n, r.d, b_or(x.nan, x.pinf, x.ninf))
        if x.const and x.n == 0:
            return SymReal(Fraction(1 if f == 'cos' else 0))
        if x.const and x.n in (PI / 2, -PI / 2, PI, -PI):
            # angles of vectors along an axis
            c, s = {1: (0, 1), -1: (0, -1), 2: (-1, 0), -2: (-1, 0)}[int(x.n / (PI / 2))]
            return SymReal(Fraction(c if f == 'cos' else s))
        if x.d is None and z3.is_expr(x.n):
            a = find(e, x.n)
            if a is not None:
                return SymReal(a.c if f == 'cos' else a.s)
        t = z3.simplify(x.z(), som=True)
        a = find(e, t)
        if a is not None:
            return SymReal(a.c if f == 'cos' else a.s)
        key = ('circ', t.get_id())
        if key not in e.trigs:
            c, s = e.fresh_real('cos'), e.fresh_real('sin')
            con = c * c + s * s == 1
            e.solver.add(con)
            e.pc.append(con)
            e.model = None
            e.abstracted = True
            e.trigs[key] = (t, (c, s))
        c, s = e.trigs[key][1]
        return SymReal(c if f == 'cos' else s)
    if f == 'log10':
        return log10(e, x)
    if f == 'log':
        return log10(e, x) * LN10
    if f == 'log2':
        return log10(e, x) / LOG2
    if f == 'exp':
        return pow10(e, x / LN10)
    if f == 'exp2':
        return pow10(e, x * LOG2)
    e.unsupported('function %s' % f)


def arctan2(e, y, x):
    if not (y.clean and x.clean):
        r = arctan2(e, SymReal(y.n, y.d), SymReal(x.n, x.d))
        bad = b_or(y.nan, x.nan)
        k = e.entailed(b_or(y.pinf, y.ninf, x.pinf, x.ninf))
        if k is not False:
            e.unsupported('arctan2 of infinity')
        return SymReal(r.n, r.d, bad)
    if y.const and x.const and (y.n == 0 or x.n == 0):
        if y.n == 0:
            return SymReal(Fraction(0) if x.n >= 0 else PI)
        return SymReal(PI / 2 if y.n > 0 else -PI / 2)
    ty, tx = z3.simplify(y.z(), som=True), z3.simplify(x.z(), som=True)
    # the vector (x, y) is r * (c, s), r = |(x, y)| >= 0; arctan2(0, 0) = 0
    r = e.sqrt(SymReal(tx) * SymReal(tx) + SymReal(ty) * SymReal(ty)).z()
    a = _new_angle(e, ('arctan2', ty.get_id(), tx.get_id()),
                   lambda th, c, s, tx=tx, ty=ty, r=r: z3.And(
                       z3.Implies(z3.And(tx == 0, ty == 0), z3.And(c == 1, s == 0)),
                       c * r == tx, s * r == ty,
                       z3.Implies(z3.Or(tx != 0, ty != 0), r > 0),
                       z3.Implies(z3.Or(tx != 0, ty != 0), z3.And(
                           (c > 0) == (tx > 0), (c < 0) == (tx < 0),
                           (s > 0) == (ty > 0), (s < 0) == (ty < 0)))))
    return SymReal(a.th)


# Logarithms and powers. The logarithm of a positive number is a real of its
# own; products, quotients and powers have the sums, differences and multiples
# of the logarithms of their factors.

LN10 = Fraction('2.302585092994045684')
LOG2 = Fraction('0.30102999566398119521')


def _add(e, *cons):
    con = z3.And(*cons)
    e.solver.add(con)
    e.pc.append(con)
    e.model = None
    e.abstracted = True


def _logs(e):
    return e.logs, e.pows


def _register(e, p, t):
    """the number p has the logarithm t (z3 terms)"""
    logs, pows = _logs(e)
    cons = [p > 0, (p > 1) == (t > 0), (p == 1) == (t == 0), (p >= 10) == (t >= 1), (p <= rv(Fraction(1, 10))) == (t <= -1)]
    for p2, t2 in logs.values():
        cons += [(p < p2) == (t < t2), (p == p2) == (t == t2)]
    _add(e, *cons)
    logs[p.get_id()] = (p, t)
    pows[t.get_id()] = (t, p)


def _const_log(e, q):
    """of a positive fraction, as a SymReal"""
    import math
    q = Fraction(q)
    k = 0
    r = q
    while r >= 10:
        r, k = r / 10, k + 1
    while r < 1:
        r, k = r * 10, k - 1
    if r == 1:
        return SymReal(Fraction(k))
    return SymReal(Fraction(math.log10(r)) + k)


def known_log(e, t):
    """logarithm of a z3 term of known factors, or None"""
    logs, _ = _logs(e)
    if t.get_id() in logs:
        return SymReal(logs[t.get_id()][1])
    if z3.is_rational_value(t) and t.numerator_as_long() > 0:
        return _const_log(e, Fraction(t.numerator_as_long(), t.denominator_as_long()))
    if z3.is_mul(t):
        ls = [known_log(e, c) for c in t.children()]
        if any(l is None for l in ls):
            return None
        r = ls[0]
        for l in ls[1:]:
            r = r + l
        return r
    if z3.is_div(t):
        a, b = known_log(e, t.arg(0)), known_log(e, t.arg(1))
        return None if a is None or b is None else a - b
    if t.decl().kind() == z3.Z3_OP_POWER:
        a = known_log(e, t.arg(0))
        if a is not None and z3.is_rational_value(t.arg(1)):
            return a * SymReal(Fraction(t.arg(1).numerator_as_long(), t.arg(1).denominator_as_long()))
    return None


def log10(e, x):
    if x.const and x.clean:
        if x.n > 0:
            return _const_log(e, x.n)
        return SymReal(Fraction(0), None, x.n < 0, False, x.n == 0)
    fin = SymReal(x.n, x.d)
    t = z3.simplify(fin.z(), som=True)
    l = known_log(e, t)
    if l is None:
        l0 = known_log(e, SymReal(x.n).z()) if x.d is not None else None
        l1 = known_log(e, SymReal(x.d).z()) if x.d is not None else None
        if l0 is not None and l1 is not None:
            l = l0 - l1
    if l is not None:
        return l if x.clean else SymReal(l.n, l.d, b_or(x.nan, x.ninf), x.pinf)
    if not x.clean:
        e.unsupported('logarithm of infinity')
    if not bool(fin > 0):
        if bool(fin == 0):
            return SymReal(Fraction(0), None, False, False, True)
        return SymReal(Fraction(0), nan=True)
    v = e.fresh_real('log')
    _register(e, t, v)
    return SymReal(v)


def pow10(e, x):
    if not x.clean:
        e.unsupported('power of infinity')
    if x.const:
        if x.n.denominator == 1 and abs(x.n) < 300:
            return SymReal(Fraction(10) ** int(x.n))
        return SymReal(Fraction(10.0 ** float(x.n)))
    _, pows = _logs(e)
    t = z3.simplify(x.z(), som=True)
    if t.get_id() not in pows:
        _register(e, e.fresh_real('pow'), t)
    return SymReal(pows[t.get_id()][1])


def power(e, x, k):
    """x ** k for a symbolic exponent k"""
    if not x.clean or not k.clean:
        e.unsupported('power of infinity')
    if bool(x == 0):
        if bool(k > 0):
            return SymReal(Fraction(0))
        if bool(k == 0):
            return SymReal(Fraction(1))
        return SymReal(Fraction(0), pinf=True)
    if not bool(x > 0):
        e.unsupported('power of a negative number')
    return pow10(e, log10(e, x) * k)
