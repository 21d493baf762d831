"""Elementary functions over symbolic reals.

Trigonometric functions are uninterpreted functions of a canonical argument;
the identities used (all exact over the reals) are listed in ASSUMED.
"""
import math
from fractions import Fraction

import z3

from . import core
from .core import SR, SI, SB, SF, Sym, Unsupported, special

ASSUMED = [
    'cos/sin/arccos/sqrt are uninterpreted real functions; identities used: '
    '360-degree periodicity, sin(arccos c) = sqrt(1-c^2), cos(arccos c) = c',
]

R = z3.RealSort()
PIQ = Fraction(math.pi)
_uf = {}


def uf(name, n=1):
    f = _uf.get((name, n))
    if f is None:
        f = z3.Function(name, *([R] * n), R)
        _uf[(name, n)] = f
    return f


_som = {}
_somkeep = []


def som(t):
    """Canonical sum-of-monomials form."""
    k = t.get_id()
    r = _som.get(k)
    if r is None:
        r = z3.simplify(t, som=True, sort_sums=True, flat=True, hoist_ite=False)
        _som[k] = r
        _somkeep.append(t)
        _somkeep.append(r)
        _som[r.get_id()] = r
    return r


def numval(t):
    if z3.is_rational_value(t):
        return t.as_fraction()
    return None


_strip = {}


def strip360(t):
    """Canonical representative of a longitude modulo 360 degrees."""
    k = t.get_id()
    r = _strip.get(k)
    if r is None:
        r = _strip360(t)
        _strip[k] = r
        _somkeep.append(t)
        _somkeep.append(r)
    return r


def _strip360(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = t.children()
        a, b = strip360(a), strip360(b)
        if a.eq(b):
            return a
        return z3.If(c, a, b)
    s = som(t)
    if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_ITE and not s.eq(t):
        return strip360(s)
    v = numval(s)
    if v is not None:
        v = v - 360 * math.floor(v / 360)
        return z3.Q(v.numerator, v.denominator)
    if z3.is_add(s):
        ch = s.children()
        n = sum((numval(c) for c in ch if numval(c) is not None), Fraction(0))
        rest = [c for c in ch if numval(c) is None]
        n -= 360 * math.floor(n / 360)
        # an ite inside the sum that only shifts by multiples of 360
        out = []
        for c in rest:
            if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_ITE:
                c = strip360(c)
            out.append(c)
        u = z3.Sum(*out) if len(out) > 1 else out[0]
        if n:
            u = u + z3.Q(n.numerator, n.denominator)
        return som(u)
    return s


def _num(x):
    return not isinstance(x, Sym)


def keep(t):
    if core.CUR is not None:
        core.CUR.keep.append(t)
    return t


def _nonneg(r):
    c = core.CUR
    if c is not None and r.t.get_id() not in c.nonneg:
        c.keep.append(r.t)
        c.nonneg.add(r.t.get_id())
        c.axiom(r.t >= 0)
    return r


def _bounded(r, lo, hi):
    c = core.CUR
    if c is not None:
        c.keep.append(r.t)
        c.axiom(z3.And(r.t >= lo, r.t <= hi))
    return r


def toreal(x):
    if isinstance(x, (SI, SB)):
        return SR(core.real_term(x))
    return x


def radians(x):
    if _num(x):
        return math.radians(x)
    x = toreal(x)
    q = PIQ / 180
    return SR(x.t * z3.Q(q.numerator, q.denominator))


def degrees(x):
    if _num(x):
        return math.degrees(x)
    q = 180 / PIQ
    return SR(toreal(x).t * z3.Q(q.numerator, q.denominator))


def _isapp(t, name):
    return z3.is_app(t) and t.num_args() == 1 and t.decl().name() == name


def _deg(t):
    q = 180 / PIQ
    return strip360(som(t * z3.Q(q.numerator, q.denominator)))


def cos(x):
    if _num(x):
        return math.cos(x)
    t = toreal(x).t
    if _isapp(t, 'arccos'):
        return SR(t.arg(0))
    if _isapp(t, 'arcsin'):
        return sqrt(1.0 - SR(t.arg(0)) ** 2)
    d = _deg(t)
    v = numval(d)
    if v is not None:
        return math.cos(math.radians(float(v)))
    return SR(keep(uf('cosdeg')(d)))


def sin(x):
    if _num(x):
        return math.sin(x)
    t = toreal(x).t
    if _isapp(t, 'arcsin'):
        return SR(t.arg(0))
    if _isapp(t, 'arccos'):
        return sqrt(1.0 - SR(t.arg(0)) ** 2)
    d = _deg(t)
    v = numval(d)
    if v is not None:
        return math.sin(math.radians(float(v)))
    return SR(keep(uf('sindeg')(d)))


def tan(x):
    if _num(x):
        return math.tan(x)
    return sin(x) / cos(x)


def _gen(name, cf):
    def f(x):
        if _num(x):
            return cf(x)
        t = som(toreal(x).t)
        v = numval(t)
        if v is not None:
            return cf(float(v))
        return SR(keep(uf(name)(t)))
    return f


def arccos(x):
    if _num(x):
        try:
            return math.acos(x)
        except ValueError:
            return float('nan')
    t = som(toreal(x).t)
    v = numval(t)
    if v is not None:
        return arccos(float(v))
    return SR(keep(uf('arccos')(t)))


def arcsin(x):
    if _num(x):
        try:
            return math.asin(x)
        except ValueError:
            return float('nan')
    t = som(toreal(x).t)
    v = numval(t)
    if v is not None:
        return arcsin(float(v))
    return SR(keep(uf('arcsin')(t)))


arctan = _gen('arctan', math.atan)
exp = _gen('exp', math.exp)
log = _gen('log', math.log)
log10 = _gen('log10', math.log10)
sinh = _gen('sinh', math.sinh)
cosh = _gen('cosh', math.cosh)
tanh = _gen('tanh', math.tanh)


def arctan2(a, b):
    if _num(a) and _num(b):
        return math.atan2(a, b)
    return SR(keep(uf('arctan2', 2)(som(core.real_term(a)), som(core.real_term(b)))))


def _q(v):
    v = Fraction(v)
    return z3.Q(v.numerator, v.denominator)


def _primitive(t):
    """(c, u) with t = c*u, c > 0 the rational content of a sum of products (sums within products are not expanded)."""
    v = numval(t)
    if v is not None:
        return (abs(v), _q(1 if v > 0 else -1)) if v else (Fraction(1), t)
    if z3.is_mul(t):
        c, us = Fraction(1), []
        for a in t.children():
            ca, ua = _primitive(a)
            c *= ca
            us.append(ua)
        return (c, t) if c == 1 else (c, z3.Product(*us))
    if z3.is_add(t):
        ps = [_primitive(a) for a in t.children()]
        c = Fraction(math.gcd(*[p[0].numerator for p in ps]), math.lcm(*[p[0].denominator for p in ps]))
        if c == 1:
            return c, t
        return c, z3.Sum(*[u * _q(k / c) for k, u in ps])
    return Fraction(1), t


def _isroot(n):
    r = math.isqrt(n)
    return r if r * r == n else None


_sq = {}


def _square(t):
    """(k, u) with t = k*k*u: the rational content's square part taken out (sqrt(t) = k*sqrt(u))."""
    key = t.get_id()
    if key in _sq:
        return _sq[key]
    c, u = _primitive(t)
    r = (Fraction(1), t)
    if c != 1:
        # c = num/den = num*den/den^2
        g = c.numerator * c.denominator
        for s in range(1, 60):
            q = _isroot(g // s) if g % s == 0 else None
            if q is not None:
                k = Fraction(q, c.denominator)
                if k != 1:
                    r = (k, som(u * _q(c / (k * k))))
                break
    _sq[key] = r
    _somkeep.append(t)
    _somkeep.append(r[1])
    return r


def sqrt(x):
    if isinstance(x, SF):
        return x.sqrt()
    if _num(x):
        if special(x):
            return float('nan') if not x > 0 else x
        return math.sqrt(x) if x >= 0 else float('nan')
    t = som(toreal(x).t)
    v = numval(t)
    if v is not None:
        return sqrt(float(v))
    k, t = _square(t)
    r = _nonneg(SR(keep(uf('sqrt')(t))))
    return r if k == 1 else SR(r.t * z3.Q(k.numerator, k.denominator))


def floor(x):
    if _num(x):
        return float(math.floor(x)) if not special(x) else x
    if isinstance(x, SI):
        return SR(core.real_term(x))
    return SR(z3.ToReal(z3.ToInt(x.t)))


def ceil(x):
    if _num(x):
        return float(math.ceil(x)) if not special(x) else x
    if isinstance(x, SI):
        return SR(core.real_term(x))
    return SR(-z3.ToReal(z3.ToInt(-x.t)))


def trunc(x):
    if _num(x):
        return float(math.trunc(x)) if not special(x) else x
    if isinstance(x, SI):
        return SR(core.real_term(x))
    return SR(z3.If(x.t >= 0, z3.ToReal(z3.ToInt(x.t)), -z3.ToReal(z3.ToInt(-x.t))))


def sign(x):
    if _num(x):
        return float('nan') if special(x) and x != x else float((x > 0) - (x < 0))
    return core.ite(x > 0, 1.0, core.ite(x < 0, -1.0, 0.0)) if not isinstance(x > 0, bool) \
        else (1.0 if x > 0 else core.ite(x < 0, -1.0, 0.0))
