"""Symbolic numpy arrays: object arrays with a nominal element type.

Layout, views, strides, slicing, reshape, transposition and broadcasting are
real numpy's; only the element operations are symbolic.
"""
import math

import numpy as np
import z3

from . import core, fun
from .core import (SR, SI, SB, SF, Sym, Unsupported, MergeFail, NoMerge, truth, AND,
                   OR, NOT, ite, special)

F8 = np.dtype('f8')
I8 = np.dtype('i8')
B1 = np.dtype('?')
OB = np.dtype('O')


def base(a):
    return np.ndarray.view(a, np.ndarray) if isinstance(a, SymArray) else a


def wrap(o, nd):
    if not isinstance(o, np.ndarray):
        return out(o)
    r = np.ndarray.view(o, SymArray)
    r._nd = nd
    return r


def out(x):
    """An element as the code under check sees it."""
    if type(x) is float:
        return np.float64(x)
    return x


def py(x):
    """A scalar as an engine element."""
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return py(base(x)[()])
    return x


def kind_of(x):
    if isinstance(x, SymArray):
        return x._nd
    if isinstance(x, np.ndarray):
        return x.dtype
    if isinstance(x, np.generic):
        return x.dtype
    if isinstance(x, (bool, SB)):
        return B1
    if isinstance(x, (int, SI)):
        return I8
    if isinstance(x, (float, SR, SF)):
        return F8
    return OB


def join_kind(ks):
    best = B1
    for k in ks:
        if k.kind == 'O' or k.kind in 'USV':
            return OB
        if k.kind == 'f':
            best = F8
        elif k.kind in 'iu' and best.kind == 'b':
            best = I8
    return best


def f4round(x):
    if isinstance(x, SF):
        f = z3.fpToFP(z3.RNE(), x.fp(), z3.Float32())
        g = z3.simplify(z3.fpToFP(z3.RNE(), f, z3.Float64()))
        # keep the identity of the source value: rounding is a function of it
        return SF.from_fp(g)
    if isinstance(x, SR):
        t = x.t
        if fun._isapp(t, 'f4round'):
            return x
        return SR(fun.keep(fun.uf('f4round')(t)))
    with np.errstate(all='ignore'):
        return float(np.float32(x))


def elem(x, nd):
    """Convert a scalar for storage in an array of nominal type nd."""
    k = nd.kind
    if isinstance(x, np.generic):
        x = x.item()
    if isinstance(x, np.ndarray):
        x = py(x)
    if k == 'f':
        if type(x) is float:
            return x if nd.itemsize == 8 else f4round(x)
        if x is None:
            return float('nan')
        if isinstance(x, (SI, SB)):
            x = SR(core.real_term(x))
        elif not isinstance(x, Sym):
            x = float(x)
        return x if nd.itemsize == 8 else f4round(x)
    if k in 'iu':
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, int):
            return x
        if isinstance(x, SI):
            return x
        if isinstance(x, SB):
            return core.mkint(core.int_term(x))
        if isinstance(x, SR):
            return core.mkint(z3.If(x.t >= 0, z3.ToInt(x.t), -z3.ToInt(-x.t)))
        if isinstance(x, SF):
            raise Unsupported('double to int')
        return int(x)
    if k == 'b':
        return truth(x)
    return x


_elem_cache = {}


def elems(o, nd):
    """Convert an object array (or scalar) for nominal type nd."""
    if not isinstance(o, np.ndarray):
        return elem(o, nd)
    f = _elem_cache.get(nd)
    if f is None:
        f = np.frompyfunc(lambda x: elem(x, nd), 1, 1)
        _elem_cache[nd] = f
    if o.size == 0:
        return o.astype(object)
    r = f(o)
    if not isinstance(r, np.ndarray):
        z = np.empty((), object)
        z[()] = r
        return z
    return r


def toobj(x):
    """Base object array, or engine scalar."""
    if isinstance(x, SymArray):
        return base(x)
    if isinstance(x, np.ndarray):
        if x.dtype.kind == 'O':
            return x
        return x.astype(object)
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (list, tuple, range)):
        return base(mkarray(x))
    return x


def _plain(x):
    if isinstance(x, SymArray):
        return base(x)
    if isinstance(x, np.ndarray):
        return x.astype(object) if x.dtype.kind != 'O' else x
    if isinstance(x, (list, tuple)):
        return [_plain(v) for v in x]
    if isinstance(x, np.generic):
        return x.item()
    return x


def mkarray(data, dtype=None, copy=True):
    nd = None if dtype is None else np.dtype(dtype)
    if isinstance(data, SymArray):
        src = data._nd
        o = base(data).copy(order='K') if copy else base(data)
        if nd is not None and nd != src:
            return wrap(elems(o, nd), nd)
        return wrap(o, src)
    if isinstance(data, np.ndarray):
        k = nd or data.dtype
        if k.kind in 'OUSV':
            return np.array(data, dtype)
        return wrap(elems(data.astype(object, order='K'), k), k)
    if data is None or isinstance(data, (str, bytes, dict)):
        return np.array(data, dtype)
    if isinstance(data, (set, frozenset)):
        return np.array(data)
    if not isinstance(data, (list, tuple)) and hasattr(data, '__iter__') and not isinstance(data, Sym):
        if hasattr(data, '__array__') and not hasattr(data, '__next__'):
            return mkarray(np.asarray(data), dtype)
        if isinstance(data, range):
            data = list(data)
        else:
            return np.array(data, dtype)
    if isinstance(data, (list, tuple)):
        o = np.array(_plain(data), dtype=object)
        flat = o.ravel()
        if nd is None:
            nd = join_kind([kind_of(v) for v in flat]) if flat.size else F8
        if nd.kind == 'O' and flat.size:
            return np.array(data)
        return wrap(elems(o, nd), nd)
    o = np.empty((), object)
    o[()] = py(data)
    nd = nd or kind_of(data)
    return wrap(elems(o, nd), nd)


def full(shape, v, nd, order='C'):
    o = np.empty(shapeof(shape), object, order=order)
    o.fill(elem(v, nd))
    return fresh(wrap(o, nd))


def fresh(a):
    """Mark an array nobody else can see."""
    if core.CUR is not None and isinstance(a, SymArray):
        a._birth = core.CUR.gtop()
    return a


def shapeof(s):
    if isinstance(s, (int, SI, np.integer)):
        return (int(s),)
    if isinstance(s, float):
        raise TypeError("'float' object cannot be interpreted as an integer")
    r = []
    for v in (s.tolist() if isinstance(s, np.ndarray) else s):
        if isinstance(v, (float, SR)):
            raise TypeError("'float' object cannot be interpreted as an integer")
        r.append(int(v))
    return tuple(r)


# ---------------------------------------------------------------------------
# element operations

def _f_div(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        if not isinstance(b, Sym) and b == 0:
            if isinstance(a, SF):
                return a / b
            raise Unsupported('array division of a symbolic value by zero')
        return a / b
    with np.errstate(all='ignore'):
        return float(np.float64(a) / np.float64(b))


def _f_floordiv(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a // b
    with np.errstate(all='ignore'):
        return np.floor_divide(a, b).item()


def _f_mod(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a % b
    with np.errstate(all='ignore'):
        return np.remainder(a, b).item()


def _f_pow(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a ** b
    with np.errstate(all='ignore'):
        return np.power(a, b).item()


def _num2(op):
    def f(a, b):
        if type(a) is bool and type(b) is bool:
            return getattr(np, {'add': 'logical_or', 'mul': 'logical_and'}.get(op, op))(a, b).item()
        return {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b}[op]()
    return f


def _max(a, b):
    for x, y in ((a, b), (b, a)):
        if not isinstance(x, Sym) and special(x) and x != x:
            return x
    return ite_scalar(a >= b, a, b)


def _min(a, b):
    for x, y in ((a, b), (b, a)):
        if not isinstance(x, Sym) and special(x) and x != x:
            return x
    return ite_scalar(a <= b, a, b)


def _fmax(a, b):
    if not isinstance(a, Sym) and special(a) and a != a:
        return b
    if not isinstance(b, Sym) and special(b) and b != b:
        return a
    return _max(a, b)


def _fmin(a, b):
    if not isinstance(a, Sym) and special(a) and a != a:
        return b
    if not isinstance(b, Sym) and special(b) and b != b:
        return a
    return _min(a, b)


def ite_scalar(c, a, b):
    c = truth(c)
    if isinstance(c, bool):
        return a if c else b
    try:
        return ite(c, a, b)
    except NoMerge:
        return a if bool(c) else b


def _isnan(x):
    if isinstance(x, SF):
        return x.isnan()
    if isinstance(x, Sym):
        return False
    return x != x


def _isinf(x):
    if isinstance(x, SF):
        return x.isinf()
    if isinstance(x, Sym):
        return False
    return isinstance(x, float) and math.isinf(x)


def _round(x):
    if isinstance(x, Sym):
        if isinstance(x, (SI, SB)):
            return x
        return x.rint()
    return float(np.rint(x))


def _xor(a, b):
    a, b = truth(a), truth(b)
    if isinstance(a, bool) and isinstance(b, bool):
        return a != b
    return (SB(core.bool_term(a)) if isinstance(a, bool) else a) ^ b


def _bit(op, bop):
    def f(a, b):
        if isinstance(a, (bool, SB)) and isinstance(b, (bool, SB)):
            return bop(a, b)
        return op(int(a), int(b))
    return f


def _un(name):
    def f(x):
        return getattr(fun, name)(py(x))
    return f


def _eq(a, b):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a is b if (a is None or b is None) else a == b
    return a == b


UF = {
    # name: (function, result nominal kind; None = joined)
    'add': (_num2('add'), None), 'subtract': (_num2('sub'), None), 'multiply': (_num2('mul'), None),
    'divide': (_f_div, F8), 'true_divide': (_f_div, F8),
    'floor_divide': (_f_floordiv, None), 'remainder': (_f_mod, None), 'mod': (_f_mod, None),
    'power': (_f_pow, None), 'float_power': (_f_pow, F8),
    'negative': (lambda a: -a, None), 'positive': (lambda a: a, None),
    'absolute': (lambda a: abs(a), None), 'abs': (lambda a: abs(a), None),
    'fabs': (lambda a: abs(a), F8),
    'sqrt': (_un('sqrt'), F8), 'square': (lambda a: a * a, None),
    'reciprocal': (lambda a: _f_div(1.0, a), F8),
    'cos': (_un('cos'), F8), 'sin': (_un('sin'), F8), 'tan': (_un('tan'), F8),
    'arccos': (_un('arccos'), F8), 'arcsin': (_un('arcsin'), F8), 'arctan': (_un('arctan'), F8),
    'arctan2': (lambda a, b: fun.arctan2(a, b), F8),
    'exp': (_un('exp'), F8), 'log': (_un('log'), F8), 'log10': (_un('log10'), F8),
    'radians': (_un('radians'), F8), 'deg2rad': (_un('radians'), F8),
    'degrees': (_un('degrees'), F8), 'rad2deg': (_un('degrees'), F8),
    'hypot': (lambda a, b: fun.sqrt(a * a + b * b), F8),
    'floor': (_un('floor'), F8), 'ceil': (_un('ceil'), F8), 'trunc': (_un('trunc'), F8),
    'rint': (_round, F8), 'sign': (_un('sign'), None),
    'less': (lambda a, b: a < b, B1), 'less_equal': (lambda a, b: a <= b, B1),
    'greater': (lambda a, b: a > b, B1), 'greater_equal': (lambda a, b: a >= b, B1),
    'equal': (_eq, B1), 'not_equal': (lambda a, b: NOT(_eq(a, b)), B1),
    'logical_and': (lambda a, b: AND(a, b), B1), 'logical_or': (lambda a, b: OR(a, b), B1),
    'logical_not': (lambda a: NOT(a), B1), 'logical_xor': (_xor, B1),
    'bitwise_and': (_bit(lambda a, b: a & b, AND), None),
    'bitwise_or': (_bit(lambda a, b: a | b, OR), None),
    'bitwise_xor': (_bit(lambda a, b: a ^ b, _xor), None),
    'invert': (lambda a: NOT(a) if isinstance(a, (bool, SB)) else ~int(a), None),
    'maximum': (_max, None), 'minimum': (_min, None), 'fmax': (_fmax, None), 'fmin': (_fmin, None),
    'isnan': (_isnan, B1), 'isinf': (_isinf, B1),
    'isfinite': (lambda a: NOT(OR(_isnan(a), _isinf(a))), B1),
    'copysign': (lambda a, b: ite_scalar(b >= 0, abs(a), -abs(a)), F8),
    'divmod': (None, None), 'conjugate': (lambda a: a, None), 'conj': (lambda a: a, None),
    'fmod': (lambda a, b: a - b * fun.trunc(a / b), None),
}
_fp = {}


def _frompy(name):
    f = _fp.get(name)
    if f is None:
        g, _ = UF[name]
        f = (np.frompyfunc(g, g.__code__.co_argcount, 1), g)
        _fp[name] = f
    return f


def _exc(f, *a):
    try:
        return f(*a)
    except (MergeFail, NoMerge):
        raise


def apply_ufunc(name, args, kw=None):
    kw = dict(kw or {})
    if name not in UF or UF[name][0] is None:
        raise Unsupported('ufunc ' + name)
    outp = kw.pop('out', None)
    where = kw.pop('where', True)
    dtype = kw.pop('dtype', None)
    kw.pop('casting', None)
    order = kw.pop('order', None)
    kw.pop('subok', None)
    if kw:
        raise Unsupported('ufunc %s %s' % (name, sorted(kw)))
    nin = UF[name][0].__code__.co_argcount
    if len(args) == nin + 1:
        outp = args[-1]
        args = args[:-1]
    if isinstance(outp, tuple):
        outp = outp[0]
    rk = UF[name][1]
    kinds = [kind_of(a) if not isinstance(a, (list, tuple)) else kind_of(mkarray(a)) for a in args]
    if rk is None:
        rk = join_kind(kinds)
        if name == 'invert' and rk.kind == 'b':
            rk = B1
    if dtype is not None:
        rk = np.dtype(dtype)
    ins = [toobj(a) for a in args]
    pf, g = _frompy(name)
    arrs = [a for a in ins if isinstance(a, np.ndarray)]
    if not arrs:
        r = g(*[py(a) for a in ins])
    else:
        if rk.kind == 'f' and name in ('add', 'subtract', 'multiply', 'maximum', 'minimum'):
            pass
        r = pf(*ins)
    if where is not True:
        if outp is None:
            raise Unsupported('ufunc where without out')
        w, rr, oo = np.broadcast_arrays(toobj(where), np.asarray(r, object), base(outp))
        z = np.empty(oo.shape, object)
        for i in np.ndindex(*oo.shape):
            z[i] = ite_scalar(w[i], rr[i], oo[i])
        r = z
    if outp is not None:
        if isinstance(outp, SymArray):
            outp[...] = wrap(r, rk) if isinstance(r, np.ndarray) else r
            return outp
        raise Unsupported('ufunc out= on a plain array')
    if isinstance(r, np.ndarray):
        return wrap(r, rk)
    if rk.kind == 'f' and isinstance(r, (int, bool)):
        r = float(r)
    return out(r)


def _axes(nd, axis):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (int, np.integer)):
        axis = (axis,)
    return tuple(int(a) % nd for a in axis)


def reduce_(f, a, axis, keepdims, init, rk):
    """Fold f over the given axes of the base object array a."""
    a = np.asarray(a) if not isinstance(a, np.ndarray) else a
    ax = _axes(a.ndim, axis)
    rest = tuple(i for i in range(a.ndim) if i not in ax)
    t = np.transpose(a, rest + ax)
    shp = tuple(a.shape[i] for i in rest)
    n = 1
    for i in ax:
        n *= a.shape[i]
    t = t.reshape(shp + (n,))
    res = np.empty(shp, object)
    for idx in np.ndindex(*shp):
        col = t[idx]
        if n == 0:
            if init is _NOINIT:
                raise ValueError('zero-size array to reduction operation which has no identity')
            res[idx] = init
            continue
        acc = col[0] if init is _NOINIT else f(init, col[0])
        for v in col[1:]:
            acc = f(acc, v)
        res[idx] = acc
    if keepdims:
        res = res.reshape(tuple(1 if i in ax else a.shape[i] for i in range(a.ndim)))
        return wrap(res, rk)
    if res.ndim == 0:
        return out(res[()])
    return wrap(res, rk)


_NOINIT = object()


def _sumkind(k):
    return I8 if k.kind == 'b' else k


def _only(a, where, neutral):
    """Array with the neutral element where the mask is false."""
    if where is True:
        return toobj(a)
    o, w = np.broadcast_arrays(toobj(a), toobj(where))
    r = np.empty(o.shape, object)
    for i in np.ndindex(*o.shape):
        r[i] = ite_scalar(truth(w[i]), o[i], neutral)
    return r


def _given(r, out):
    if out is not None:
        out[...] = r
        return out
    return r


def red_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=0, where=True):
    k = _sumkind(kind_of(a))
    init = 0.0 if k.kind == 'f' else 0
    return _given(reduce_(lambda x, y: x + y, _only(a, where, init), axis, keepdims,
                          init if initial is None else initial if initial != 0 or k.kind != 'f' else init, k), out)


def red_prod(a, axis=None, dtype=None, out=None, keepdims=False, initial=1, where=True):
    k = _sumkind(kind_of(a))
    one = 1.0 if k.kind == 'f' else 1
    return _given(reduce_(lambda x, y: x * y, _only(a, where, one), axis, keepdims, initial * one, k), out)


def red_any(a, axis=None, out=None, keepdims=False, where=True):
    return _given(reduce_(lambda x, y: OR(x, y), _only(a, where, False), axis, keepdims, False, B1), out)


def red_all(a, axis=None, out=None, keepdims=False, where=True):
    return _given(reduce_(lambda x, y: AND(x, y), _only(a, where, True), axis, keepdims, True, B1), out)


def _extreme(f, a, axis, out, keepdims, initial, where):
    if initial is None or initial is np._NoValue:
        initial = _NOINIT
    if where is not True and initial is _NOINIT:
        raise ValueError('reduction operation does not have an identity, so to use a where mask one has to specify initial')
    return _given(reduce_(f, _only(a, where, initial), axis, keepdims, initial, kind_of(a)), out)


def red_max(a, axis=None, out=None, keepdims=False, initial=_NOINIT, where=True):
    return _extreme(_max, a, axis, out, keepdims, initial, where)


def red_min(a, axis=None, out=None, keepdims=False, initial=_NOINIT, where=True):
    return _extreme(_min, a, axis, out, keepdims, initial, where)


def _count(o, axis):
    if not isinstance(o, np.ndarray):
        return 1
    n = 1
    for i in _axes(o.ndim, axis):
        n *= o.shape[i]
    return n


def red_mean(a, axis=None, dtype=None, out=None, keepdims=False, where=True):
    if isinstance(a, (list, tuple)):
        a = mkarray(a)
    if where is not True:
        w = where if isinstance(where, np.ndarray) else mkarray(where)
        n = red_sum(wrap(np.broadcast_to(base(w), a.shape), B1), axis, keepdims=keepdims)
        return _given(apply_ufunc('divide', (red_sum(a, axis, keepdims=keepdims, where=w), n)), out)
    n = _count(toobj(a), axis)
    if n == 0:
        return np.float64('nan')
    return _given(apply_ufunc('divide', (red_sum(a, axis, keepdims=keepdims), n)), out)


def variance(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
    a = mkarray(a) if isinstance(a, (list, tuple)) else a
    d = a - red_mean(a, axis, keepdims=True)
    n = _count(toobj(a), axis) - ddof
    return _given(apply_ufunc('divide', (red_sum(d * d, axis, keepdims=keepdims), n)), out)


def deviation(*a, **k):
    o = k.pop('out', None)
    return _given(apply_ufunc('sqrt', (variance(*a, **k),)), o)


class _Key:
    """Order of elements; one path per outcome of an undecided comparison."""

    def __init__(self, v):
        self.v = v

    def __lt__(self, other):
        return bool(truth(self.v < other.v))


def sorted_(a, axis, arg):
    o = toobj(a)
    if axis is None:
        o, axis = o.ravel(), -1
    m = np.moveaxis(o, axis, -1)
    r = np.empty(m.shape, object)
    for i in np.ndindex(*m.shape[:-1]):
        k = sorted(range(m.shape[-1]), key=lambda j: _Key(m[i][j]))
        for n, j in enumerate(k):
            r[i + (n,)] = j if arg else m[i][j]
    return wrap(np.moveaxis(r, -1, axis), I8 if arg else kind_of(a))


def median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    if keepdims:
        raise Unsupported('median keepdims')
    s = sorted_(a, axis, False)
    n = s.shape[-1 if axis is None else axis]
    if n == 0:
        return np.float64('nan')
    m = s if axis is None else np.moveaxis(s, axis, -1)
    return _given(m[..., n // 2] if n % 2 else (m[..., n // 2 - 1] + m[..., n // 2]) / 2.0, out)


def matmul(a, b):
    a, b = (x if isinstance(x, np.ndarray) else mkarray(x) for x in (a, b))
    if not a.ndim or not b.ndim:
        raise ValueError('matmul: Input operand does not have enough dimensions')
    if a.ndim == 1 or b.ndim == 1 or a.ndim == b.ndim == 2:
        return dot(a, b)
    if a.shape[-1] != b.shape[-2]:
        raise ValueError('matmul: mismatch in core dimension')
    return red_sum(a[..., :, :, None] * b[..., None, :, :], -2)


def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    if axis is not None:
        axisa = axisb = axisc = axis
    k = join_kind([kind_of(a) if isinstance(a, np.ndarray) else F8, kind_of(b) if isinstance(b, np.ndarray) else F8])
    a, b = (base(x) if isinstance(x, np.ndarray) else base(mkarray(x)) for x in (a, b))
    a, b = np.moveaxis(a, axisa, -1), np.moveaxis(b, axisb, -1)
    if a.shape[-1] not in (2, 3) or b.shape[-1] not in (2, 3):
        raise ValueError('incompatible dimensions for cross product\n(dimension must be 2 or 3)')
    shape = np.broadcast_shapes(a.shape[:-1], b.shape[:-1])
    flat = a.shape[-1] == b.shape[-1] == 2
    r = np.empty(shape if flat else shape + (3,), object)
    aa, bb = np.broadcast_to(a, shape + a.shape[-1:]), np.broadcast_to(b, shape + b.shape[-1:])
    for i in np.ndindex(*shape):
        p, q = list(aa[i]), list(bb[i])
        p, q = p + [0.0] * (3 - len(p)), q + [0.0] * (3 - len(q))
        v = p[0] * q[1] - p[1] * q[0]
        if flat:
            r[i] = v
        else:
            r[i + (0,)], r[i + (1,)], r[i + (2,)] = p[1] * q[2] - p[2] * q[1], p[2] * q[0] - p[0] * q[2], v
    if flat:
        return wrap(r, k) if r.ndim else out(r[()])
    return wrap(np.moveaxis(r, -1, axisc), k)


def det(a):
    o = toobj(a)
    n = o.shape[-1]

    def d(m):
        if len(m) == 1:
            return m[0][0]
        r = 0.0
        for k in range(len(m)):
            t = m[0][k] * d([row[:k] + row[k + 1:] for row in m[1:]])
            r = r + t if k % 2 == 0 else r - t
        return r
    res = np.empty(o.shape[:-2], object)
    for i in np.ndindex(*res.shape):
        res[i] = d([list(row) for row in o[i]])
    return wrap(res, F8) if res.ndim else out(res[()])


def rounded(a, decimals=0, out=None):
    if isinstance(a, (list, tuple)):
        a = mkarray(a)
    s = 10.0 ** int(decimals)
    return _given(apply_ufunc('rint', (a,)) if decimals == 0 else apply_ufunc('rint', (a * s,)) / s, out)


def take_along_axis(a, indices, axis):
    o, ix = toobj(a), toobj(indices)
    if axis is None:
        o, ix, axis = o.ravel(), ix.ravel(), 0
    m, mi = np.moveaxis(o, axis, -1), np.moveaxis(ix, axis, -1)
    if m.shape[:-1] != mi.shape[:-1]:
        raise Unsupported('take_along_axis')
    n = m.shape[-1]
    res = np.empty(mi.shape, object)
    for i in np.ndindex(*mi.shape):
        k, row = mi[i], m[i[:-1]]
        if not isinstance(k, Sym):
            res[i] = row[int(k)]
            continue
        v = row[n - 1]
        for q in range(n - 1):
            v = ite_scalar(truth(k == q), row[q], v)
        res[i] = v
    return wrap(np.moveaxis(res, -1, axis), kind_of(a))


def searchsorted(a, v, side='left', sorter=None):
    if sorter is not None:
        raise Unsupported('searchsorted sorter')
    o = toobj(a)

    def one(x):
        n = 0
        for y in o:
            n = n + ite_scalar(truth(y < x if side == 'left' else y <= x), 1, 0)
        return n
    if not isinstance(v, (np.ndarray, list, tuple)):
        return one(v)
    w = toobj(v) if isinstance(v, np.ndarray) else toobj(mkarray(v))
    res = np.empty(w.shape, object)
    for i in np.ndindex(*w.shape):
        res[i] = one(w[i])
    return wrap(res, I8)


def select(condlist, choicelist, default=0):
    r = default
    for c, v in list(zip(condlist, choicelist))[::-1]:
        r = where(c, v, r)
    return r


def choose(a, choices, out=None, mode='raise'):
    r = choices[-1]
    for k in range(len(choices) - 2, -1, -1):
        r = where(apply_ufunc('equal', (a, k)), choices[k], r)
    return _given(r, out)


def putmask(a, mask, values):
    v = toobj(values)
    if isinstance(v, np.ndarray) and v.size != 1 and v.shape != a.shape:
        raise Unsupported('putmask')
    copyto(a, values, where=mask)


def red_arg(a, axis, better):
    o = toobj(a)
    if axis is None:
        col = o.ravel(order='C')
        if col.size == 0:
            raise ValueError('attempt to get argmin of an empty sequence')
        bi, bv = 0, col[0]
        for i in range(1, col.size):
            c = truth(better(col[i], bv))
            bi = ite_scalar(c, i, bi)
            bv = ite_scalar(c, col[i], bv)
        return bi
    ax = int(axis) % o.ndim
    m = np.moveaxis(o, ax, -1)
    res = np.empty(m.shape[:-1], object)
    for i in np.ndindex(*m.shape[:-1]):
        res[i] = red_arg(m[i], None, better)
    return wrap(res, I8)


def cumulative(f, a, axis, rk):
    o = toobj(a)
    if axis is None:
        o = o.ravel()
        axis = 0
    m = np.moveaxis(o, axis, 0)
    res = np.empty(m.shape, object)
    acc = None
    for i in range(m.shape[0]):
        acc = m[i] if acc is None else np.frompyfunc(f, 2, 1)(acc, m[i])
        res[i] = acc
    return wrap(np.moveaxis(res, 0, axis), rk)


def where(c, *xy):
    if not xy:
        return nonzero(c)
    x, y = xy
    rk = join_kind([kind_of(x) if not isinstance(x, (list, tuple)) else kind_of(mkarray(x)),
                    kind_of(y) if not isinstance(y, (list, tuple)) else kind_of(mkarray(y))])
    r = np.frompyfunc(lambda cc, a, b: ite_scalar(cc, a, b), 3, 1)(toobj(c), toobj(x), toobj(y))
    return wrap(r, rk) if isinstance(r, np.ndarray) else out(r)


def boolarray(a):
    """Concrete boolean mask of an array (forks on undecided elements)."""
    o = toobj(a)
    r = np.empty(o.shape, bool)
    for i in np.ndindex(*o.shape):
        r[i] = bool(truth(o[i]))
    return r


def nonzero(a):
    if not isinstance(a, np.ndarray):
        a = mkarray(a)
    m = boolarray(a)
    return tuple(wrap(i.astype(object), I8) for i in np.nonzero(m))


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        if isinstance(x, SF) or isinstance(y, SF):
            raise Unsupported('isclose on bit-precise doubles')
        sx, sy = special(x), special(y)
        if sx or sy:
            if sx and sy:
                return (x == y) or (equal_nan and x != x and y != y)
            return False
        return truth(abs(x - y) <= atol + rtol * abs(y))
    r = np.frompyfunc(f, 2, 1)(toobj(a), toobj(b))
    return wrap(r, B1) if isinstance(r, np.ndarray) else r


def array_equal(a, b, equal_nan=False):
    a, b = toobj(mkarray(a)), toobj(mkarray(b))
    if a.shape != b.shape:
        return False
    return red_all(wrap(np.frompyfunc(_eq, 2, 1)(a, b) if a.size else a, B1))


def norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2, 'fro'):
        raise Unsupported('norm ord')
    o = toobj(x)
    sq = np.frompyfunc(lambda v: v * v, 1, 1)(o)
    s = reduce_(lambda p, q: p + q, sq, axis, keepdims, 0.0, F8)
    return apply_ufunc('sqrt', (s,))


def diff(a, n=1, axis=-1):
    o = toobj(a)
    for _ in range(n):
        m = np.moveaxis(o, axis, -1)
        o = np.moveaxis(np.frompyfunc(lambda p, q: p - q, 2, 1)(m[..., 1:], m[..., :-1]), -1, axis)
    return wrap(o, kind_of(a))


def clip(a, a_min=None, a_max=None, out=None, **kw):
    r = a
    if a_min is not None:
        r = apply_ufunc('maximum', (r, a_min))
    if a_max is not None:
        r = apply_ufunc('minimum', (r, a_max))
    return r


def copyto(dst, src, casting='same_kind', where=True):
    if where is True:
        dst[...] = src
    else:
        d = base(dst)
        w, s = np.broadcast_to(toobj(where), d.shape), np.broadcast_to(toobj(src), d.shape)
        for i in np.ndindex(*d.shape):
            c = truth(w[i])
            dst[i] = ite_scalar(c, s[i], d[i])


def lin(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    div = (num - 1) if endpoint else num
    res = []
    for k in range(num):
        if k == 0:
            res.append(start)
        elif endpoint and k == num - 1:
            res.append(stop)
        else:
            res.append(apply_ufunc('add', (start, apply_ufunc('multiply', (
                apply_ufunc('subtract', (stop, start)), k / div)))))
    return mkarray(res, dtype or F8)


def dot(a, b, out=None):
    oa, ob = toobj(a), toobj(b)
    k = join_kind([kind_of(a), kind_of(b)])
    if not isinstance(oa, np.ndarray) or not isinstance(ob, np.ndarray) or oa.ndim == 0 or ob.ndim == 0:
        return apply_ufunc('multiply', (a, b))
    r = np.dot(oa, ob)
    return wrap(r, k) if isinstance(r, np.ndarray) else _out1(r)


def _out1(r):
    return out(r)


HANDLED = {
    'any': red_any, 'all': red_all, 'sum': red_sum, 'prod': red_prod, 'mean': red_mean,
    'average': None, 'amax': red_max, 'amin': red_min, 'max': red_max, 'min': red_min,
    'nanmax': red_max, 'nanmin': red_min, 'nansum': red_sum, 'nanmean': red_mean,
    'argmin': lambda a, axis=None, out=None: red_arg(a, axis, lambda x, y: x < y),
    'argmax': lambda a, axis=None, out=None: red_arg(a, axis, lambda x, y: x > y),
    'cumsum': lambda a, axis=None, dtype=None, out=None: cumulative(lambda p, q: p + q, a, axis, kind_of(a)),
    'cumprod': lambda a, axis=None, dtype=None, out=None: cumulative(lambda p, q: p * q, a, axis, kind_of(a)),
    'take': lambda *a, **k: take(*a, **k), 'where': where, 'nonzero': nonzero,
    'flatnonzero': lambda a: nonzero(np.ravel(base(a)))[0],
    'argwhere': lambda a: wrap(np.array([base(x) for x in nonzero(a)], dtype=object).T, I8),
    'count_nonzero': lambda a, axis=None: red_sum(
        apply_ufunc('not_equal', (a, 0)), axis),
    'isclose': isclose,
    'allclose': lambda a, b, rtol=1e-5, atol=1e-8, equal_nan=False:
        red_all(isclose(a, b, rtol, atol, equal_nan)) if isinstance(isclose(a, b, rtol, atol, equal_nan), np.ndarray)
        else isclose(a, b, rtol, atol, equal_nan),
    'array_equal': array_equal, 'norm': norm, 'diff': diff, 'clip': clip, 'copyto': copyto,
    'dot': dot, 'linspace': lin, 'unravel_index': lambda *a, **k: unravel_index(*a, **k),
    'ravel_multi_index': lambda *a, **k: ravel_multi_index(*a, **k),
    'ones_like': lambda a, dtype=None, order='K', subok=True, shape=None: full(shape if shape is not None else a.shape, 1, np.dtype(dtype) if dtype else kind_of(a)),
    'zeros_like': lambda a, dtype=None, order='K', subok=True, shape=None: full(shape if shape is not None else a.shape, 0, np.dtype(dtype) if dtype else kind_of(a)),
    'empty_like': lambda a, dtype=None, order='K', subok=True, shape=None: full(shape if shape is not None else a.shape, 0, np.dtype(dtype) if dtype else kind_of(a)),
    'full_like': lambda a, fill_value, dtype=None, order='K', subok=True, shape=None: full(shape if shape is not None else a.shape, fill_value, np.dtype(dtype) if dtype else kind_of(a)),
    'size': lambda a, axis=None: int(base(a).size) if axis is None else base(a).shape[axis],
    'shape': lambda a: base(a).shape, 'ndim': lambda a: base(a).ndim,
    'isscalar': lambda a: False,
    'copy': lambda a, order='K', subok=False: fresh(wrap(base(a).copy(order=order), kind_of(a))),
    'iscomplexobj': lambda a: False, 'isrealobj': lambda a: True,
    'result_type': None,
    'std': deviation, 'var': variance, 'median': median, 'unique': None, 'percentile': None,
    'sort': lambda a, axis=-1, kind=None, order=None: sorted_(a, axis, False),
    'argsort': lambda a, axis=-1, kind=None, order=None: sorted_(a, axis, True),
    'ptp': lambda a, axis=None, out=None, keepdims=False: red_max(a, axis, keepdims=keepdims) - red_min(a, axis, keepdims=keepdims),
    'matmul': matmul, 'cross': cross, 'det': det, 'round': rounded, 'around': rounded, 'round_': rounded, 'select': select, 'choose': choose,
    'putmask': putmask, 'nan_to_num': None, 'searchsorted': searchsorted, 'take_along_axis': take_along_axis, 'digitize': None, 'interp': None, 'isin': None,
    'in1d': None, 'histogram': None, 'unwrap': None, 'trim_zeros': None, 'partition': None, 'argpartition': None,
}


def unwrap_args(x, kinds):
    if isinstance(x, SymArray):
        kinds.append(x._nd)
        if x._nd.kind in 'iub' and all(type(v) in (int, bool) or isinstance(v, np.generic) for v in base(x).flat):
            return np.array(base(x), dtype=x._nd)       # indices, sizes, masks
        return base(x)
    if isinstance(x, np.ndarray):
        kinds.append(x.dtype)
        return x
    if isinstance(x, tuple):
        return tuple(unwrap_args(v, kinds) for v in x)
    if isinstance(x, list):
        return [unwrap_args(v, kinds) for v in x]
    if isinstance(x, dict):
        return {k: unwrap_args(v, kinds) for k, v in x.items()}
    if isinstance(x, SI):
        return int(x.__index__())       # one path per value
    return x


def take(a, indices, axis=None, out=None, mode='raise'):
    a = a if isinstance(a, SymArray) else mkarray(a)
    if axis is None:
        a, axis = a.ravel(), 0
    if mode != 'raise' or out is not None:
        raise Unsupported('numpy.take options')
    if axis < 0:
        axis += a.ndim
    return a[(slice(None),) * axis + (indices,)]


def any_true(c):
    return bool(red_any(c)) if isinstance(c, np.ndarray) else bool(c)


def unravel_index(indices, shape, order='C'):
    shape = shapeof(shape)
    out_ = []
    size = 1
    for n in shape:
        size *= n
    if any_true((indices < 0) | (indices >= size)):
        raise ValueError('index is out of bounds for array with size %d' % size)
    dims = shape[::-1] if order == 'C' else shape
    for n in dims:
        out_.append(indices % n)
        indices = indices // n
    return tuple(out_[::-1] if order == 'C' else out_)


def ravel_multi_index(multi_index, dims, mode='raise', order='C'):
    dims = shapeof(dims)
    pairs = list(zip(multi_index, dims))
    k = 0
    for i, n in (pairs if order == 'C' else pairs[::-1]):
        if mode == 'wrap':
            i = i % n
        elif mode == 'clip':
            i = clip(i, 0, n - 1)
        elif any_true((i < 0) | (i >= n)):
            raise ValueError('invalid entry in coordinates array')
        k = k * n + i
    return k


def rewrap(r, nd):
    if isinstance(r, np.ndarray) and r.dtype.kind == 'O':
        return wrap(r, nd)
    if isinstance(r, np.ndarray) and r.dtype.kind in 'fiub':
        return wrap(r.astype(object), r.dtype)
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(rewrap(v, nd) for v in r)
    if isinstance(r, list):
        return [rewrap(v, nd) for v in r]
    if isinstance(r, float):
        return out(r)
    return r


def call_numpy(func, args, kw):
    kinds = []
    a = unwrap_args(tuple(args), kinds)
    k = unwrap_args(dict(kw), kinds)
    r = func(*a, **k)
    return rewrap(r, join_kind(kinds) if kinds else F8)


MUTATING = {'put', 'place', 'fill_diagonal', 'put_along_axis'}


class SymArray(np.ndarray):
    __array_priority__ = 1000

    def __array_finalize__(self, obj):
        self._nd = getattr(obj, '_nd', F8)
        self._birth = None

    @property
    def dtype(self):
        return self._nd

    @property
    def itemsize(self):
        return self._nd.itemsize

    @property
    def nbytes(self):
        return self._nd.itemsize * self.size

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        name = ufunc.__name__
        if method == '__call__':
            if name == 'matmul':
                return _given(matmul(*inputs), (kw.get('out') or (None,))[0])
            return apply_ufunc(name, inputs, kw)
        if method == 'reduce':
            ax = kw.get('axis', 0)
            a = inputs[0] if isinstance(inputs[0], np.ndarray) else mkarray(inputs[0])
            t = {'add': red_sum, 'multiply': red_prod, 'logical_or': red_any, 'logical_and': red_all,
                 'maximum': red_max, 'minimum': red_min, 'fmax': red_max, 'fmin': red_min}.get(name)
            if t is None:
                raise Unsupported('reduce ' + name)
            more = {k: kw[k] for k in ('where', 'initial') if k in kw and kw[k] is not np._NoValue}
            o = kw.get('out')
            return t(a, axis=ax, keepdims=kw.get('keepdims', False), out=o[0] if isinstance(o, tuple) else o, **more)
        if method == 'accumulate':
            pf, g = _frompy(name)
            return cumulative(g, inputs[0], kw.get('axis', 0), kind_of(inputs[0]))
        if method == 'outer':
            a, b = (mkarray(x) if not isinstance(x, np.ndarray) else x for x in inputs)
            aa = a[(...,) + (None,) * b.ndim]
            return apply_ufunc(name, (aa, b), kw)
        raise Unsupported('ufunc method %s.%s' % (name, method))

    def __array_function__(self, func, types, args, kw):
        name = func.__name__
        h = HANDLED.get(name, 0)
        if h is None:
            raise Unsupported('numpy.' + name)
        if h:
            return h(*args, **kw)
        if name in MUTATING:
            raise Unsupported('numpy.' + name)
        return call_numpy(func, args, kw)

    # -- indexing
    def __getitem__(self, idx):
        idx, sym = conv_index(idx, self)
        b = base(self)
        if sym:
            r = sym_get(b, idx)
        else:
            r = b[idx]
        if isinstance(r, np.ndarray):
            r = wrap(r, self._nd)
            r._birth = self._birth
            return r
        return out(r)

    def __setitem__(self, idx, val):
        b = base(self)
        idx, sym = conv_index(idx, self)
        v = toobj(val)
        v = elems(v, self._nd)
        if isinstance(v, np.ndarray) and v.ndim == 0:
            v = v[()]
        g = core.CUR.guard() if core.CUR is not None else None
        if g is not None and self._birth == core.CUR.gids[-1]:
            g = None
        if sym:
            return sym_set(b, idx, v, g)
        if g is None:
            b[idx] = v
            return
        old = b[idx]
        site = core.CUR.guards[-1][1]
        try:
            if not isinstance(old, np.ndarray):
                b[idx] = ite(g, py(v), old, True)
                return
            if isinstance(v, np.ndarray):
                while v.ndim > old.ndim and v.shape[0] == 1:
                    v = v[0]
                v = np.broadcast_to(v, old.shape)
            else:
                z = np.empty(old.shape, object)
                z.fill(v)
                v = z
            new = np.empty(old.shape, object)
            for i in np.ndindex(*old.shape):
                new[i] = ite(g, v[i], old[i], True)
            b[idx] = new
        except NoMerge:
            raise MergeFail(site)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(self.shape[0]):
            yield self[i]

    def __contains__(self, x):
        return bool(red_any(apply_ufunc('equal', (self, x))))

    def __bool__(self):
        r = truth(self)
        return bool(r)

    def __float__(self):
        return float(self.item())

    def __int__(self):
        return int(self.item())

    def __index__(self):
        if self.ndim == 0 and self._nd.kind in 'iub':
            return int(self.item())
        raise TypeError('only integer scalar arrays can be converted to a scalar index')

    def __repr__(self):
        return 'SymArray%r' % (self.shape,)
    __str__ = __repr__

    def __format__(self, spec):
        if self.ndim == 0:
            return format(self.item(), spec)
        return repr(self)

    def __reduce__(self):
        raise Unsupported('pickling an array')

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    # -- methods
    def item(self, *a):
        b = base(self)
        if a:
            if len(a) == 1 and not isinstance(a[0], tuple):
                return b.ravel()[int(a[0])]
            return self[a if len(a) > 1 else a[0]]
        if b.size != 1:
            raise ValueError('can only convert an array of size 1 to a Python scalar')
        return b.reshape(())[()]

    def tolist(self):
        return base(self).tolist()

    def copy(self, order='C'):
        return fresh(wrap(base(self).copy(order=order), self._nd))

    def astype(self, dtype, order='K', casting='unsafe', subok=True, copy=True):
        nd = as_dtype(dtype)
        if nd == self._nd and not copy:
            return self
        return wrap(elems(base(self).copy(order=order), nd), nd)

    def view(self, *a, **k):
        t = a[0] if a else k.get('dtype', k.get('type'))
        if t is None or (isinstance(t, type) and issubclass(t, np.ndarray)):
            return np.ndarray.view(self)
        nd = as_dtype(t)
        if nd == self._nd:
            return np.ndarray.view(self)
        if nd.kind == self._nd.kind == 'f' and nd.itemsize == self._nd.itemsize:
            # same bytes, other byte order
            from . import stubs
            o = np.frompyfunc(stubs.swapped, 1, 1)(base(self))
            return wrap(o, nd)
        raise Unsupported('view as %r' % (t,))

    def byteswap(self, inplace=False):
        from . import stubs
        o = np.frompyfunc(stubs.swapped, 1, 1)(base(self))
        if inplace:
            self[...] = wrap(o, self._nd)
            return self
        return wrap(o, self._nd)

    def newbyteorder(self, new_order='S'):
        from . import stubs
        return wrap(np.frompyfunc(stubs.swapped, 1, 1)(base(self)), self._nd.newbyteorder(new_order))

    def fill(self, v):
        self[...] = v

    def any(self, *a, **k):
        return red_any(self, *a, **k)

    def all(self, *a, **k):
        return red_all(self, *a, **k)

    def sum(self, *a, **k):
        return red_sum(self, *a, **k)

    def prod(self, *a, **k):
        return red_prod(self, *a, **k)

    def mean(self, *a, **k):
        return red_mean(self, *a, **k)

    def min(self, *a, **k):
        return red_min(self, *a, **k)

    def max(self, *a, **k):
        return red_max(self, *a, **k)

    def ptp(self, *a, **k):
        return HANDLED['ptp'](self, *a, **k)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def argmin(self, axis=None, out=None):
        return HANDLED['argmin'](self, axis)

    def argmax(self, axis=None, out=None):
        return HANDLED['argmax'](self, axis)

    def cumsum(self, axis=None, dtype=None, out=None):
        return HANDLED['cumsum'](self, axis)

    def nonzero(self):
        return nonzero(self)

    def dot(self, o, out=None):
        return dot(self, o)

    def clip(self, a=None, b=None, out=None, **kw):
        return clip(self, kw.get('min', a), kw.get('max', b))

    def round(self, *a, **k):
        return rounded(self, *a, **k)

    def std(self, *a, **k):
        return deviation(self, *a, **k)

    def var(self, *a, **k):
        return variance(self, *a, **k)

    def argsort(self, axis=-1, kind=None, order=None):
        return sorted_(self, axis, True)

    def sort(self, axis=-1, kind=None, order=None):
        self[...] = sorted_(self, axis, False)

    def conj(self):
        return self

    def tobytes(self, order='C'):
        from . import stubs
        return stubs.VBytes(stubs.cells(self, order))
    tostring = tobytes

    def tofile(self, f, sep='', format='%s'):
        from . import stubs
        stubs.tofile(self, f, sep)

    def dump(self, *a):
        raise Unsupported('dump')


def as_dtype(d):
    from . import stubs
    return stubs.as_dtype(d)


def conv_index(idx, a):
    """(index usable on the base array, is it symbolic?)"""
    tup = idx if isinstance(idx, tuple) else (idx,)
    res = []
    sym = False
    for c in tup:
        if isinstance(c, SymArray):
            if c._nd.kind == 'b':
                c = boolarray(c)
            elif c._nd.kind in 'iu':
                o = base(c)
                if any(isinstance(v, Sym) for v in o.ravel()):
                    sym = True
                    c = o
                else:
                    c = np.array(o.tolist(), dtype=np.intp).reshape(o.shape)
            elif c.size == 0:
                c = np.zeros(c.shape, np.intp)
            else:
                raise IndexError('arrays used as indices must be of integer (or boolean) type')
        elif isinstance(c, (list,)):
            m = mkarray(c)
            if isinstance(m, SymArray):
                if not len(c):
                    c = np.zeros(0, np.intp)
                else:
                    (c,), s = conv_index((m,), a)
                    sym = sym or s
        elif isinstance(c, SI):
            t = z3.simplify(c.t)
            if z3.is_int_value(t):
                c = t.as_long()
            else:
                sym = True
        elif isinstance(c, SB):
            c = bool(c)
        elif isinstance(c, SR) or isinstance(c, float):
            raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) '
                             'and integer or boolean arrays are valid indices')
        elif isinstance(c, slice):
            if any(isinstance(v, Sym) for v in (c.start, c.stop, c.step)):
                c = slice(*[int(v) if isinstance(v, SI) else v for v in (c.start, c.stop, c.step)])
        res.append(c)
    r = tuple(res) if isinstance(idx, tuple) else res[0]
    return r, sym


def _norm(b, idx):
    tup = list(idx) if isinstance(idx, tuple) else [idx]
    if any(c is None or isinstance(c, slice) or c is Ellipsis for c in tup) or len(tup) < b.ndim:
        # mixed with slices: fork over the index values
        return None, tuple(_conc(c) for c in tup)
    return tup, None


def _conc(c):
    if isinstance(c, SI):
        return int(c)
    if isinstance(c, np.ndarray) and c.dtype.kind == 'O':
        return np.array([int(v) for v in c.ravel()], dtype=np.intp).reshape(c.shape)
    return c


def _cases(v, n):
    """[(condition, index)] for an index value v along an axis of length n."""
    if not isinstance(v, SI):
        v = int(v)
        if not -n <= v < n:
            raise IndexError('index %d is out of bounds for axis with size %d' % (v, n))
        return [(True, v % n)]
    ok = AND(v >= -n, v < n)
    if ok is False or (ok is not True and not core.CUR.decide(ok.t)):
        raise IndexError('index is out of bounds for axis with size %d' % n)
    neg = v < 0
    if isinstance(neg, SB) and core.CUR.check(neg.t, *[g for g, _ in core.CUR.guards]) == z3.unsat:
        neg = False
    res = []
    for k in range(n):
        c = (v == k) if neg is False else ((v == k - n) if neg is True else OR(v == k, v == k - n))
        if c is False:
            continue
        res.append((c, k))
    return res


def _pick(b, coords):
    if not coords:
        return b[()] if isinstance(b, np.ndarray) else b
    cs = _cases(coords[0], b.shape[0])
    if len(cs) == 1 and cs[0][0] is True:
        return _pick(b[cs[0][1]], coords[1:])
    r = _pick(b[cs[-1][1]], coords[1:])
    for c, k in reversed(cs[:-1]):
        r = ite_scalar(c, _pick(b[k], coords[1:]), r)
    return r


def sym_get(b, idx):
    tup, conc = _norm(b, idx)
    if tup is None:
        return b[conc]
    arrs = [c for c in tup if isinstance(c, np.ndarray)]
    if not arrs:
        return _pick(b, tup)
    bc = np.broadcast_arrays(*[c if isinstance(c, np.ndarray) else _box(c) for c in tup])
    res = np.empty(bc[0].shape, object)
    for i in np.ndindex(*res.shape):
        res[i] = _pick(b, [c[i] for c in bc])
    return res


def _box(v):
    z = np.empty((), object)
    z[()] = v
    return z


def stored_and(x, y):
    """Conjunction that does not take the guards in force as given."""
    if x is False or y is False:
        return False
    ts = [v.t for v in (x, y) if v is not True]
    if not ts:
        return True
    t = z3.simplify(z3.And(*ts)) if len(ts) > 1 else ts[0]
    if z3.is_false(t):
        return False
    core.CUR.keep.append(t)
    return SB(t)


def _put(b, coords, v, cond):
    cs = _cases(coords[0], b.shape[0])
    for c, k in cs:
        cc = stored_and(cond, c)
        if cc is False:
            continue
        if len(coords) == 1:
            try:
                b[k] = v if cc is True else ite(cc, v, b[k], True)
            except NoMerge:
                if core.CUR.guards:
                    raise MergeFail(core.CUR.guards[-1][1])
                if bool(cc):
                    b[k] = v
        else:
            _put(b[k], coords[1:], v, cc)


def sym_set(b, idx, v, g):
    cond = True if g is None else SB(g)
    tup, conc = _norm(b, idx)
    if tup is None:
        if g is not None:
            raise MergeFail(core.CUR.guards[-1][1])
        b[conc] = v
        return
    arrs = [c for c in tup if isinstance(c, np.ndarray)]
    if not arrs:
        _put(b, tup, py(v), cond)
        return
    bc = np.broadcast_arrays(*[c if isinstance(c, np.ndarray) else _box(c) for c in tup])
    if isinstance(v, np.ndarray):
        vv = np.broadcast_to(v, bc[0].shape)
    else:
        vv = np.broadcast_to(_box(v), bc[0].shape)
    for i in np.ndindex(*bc[0].shape):
        _put(b, [c[i] for c in bc], vv[i], cond)


def ite_array(c, a, b, store=False):
    """Merge two array-valued results."""
    if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
        if isinstance(a, np.ndarray) and a.ndim == 0 and not isinstance(b, np.ndarray) and b is not None:
            return ite(c, py(a), py(b), store)
        if isinstance(b, np.ndarray) and b.ndim == 0 and not isinstance(a, np.ndarray) and a is not None:
            return ite(c, py(a), py(b), store)
        raise NoMerge()
    if a.shape != b.shape:
        raise NoMerge()
    oa, ob = toobj(a), toobj(b)
    r = np.empty_like(oa)
    for i in np.ndindex(*oa.shape):
        r[i] = ite(c, oa[i], ob[i], store)
    return wrap(r, join_kind([kind_of(a), kind_of(b)]))
