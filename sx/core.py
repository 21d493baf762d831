"""Symbolic values, path exploration and state merging.

The code under check (the modules of /repo/simplegrid, re-read on every run) is
executed by the ordinary Python interpreter on symbolic values (z3 terms).  A
branch on a symbolic condition either merges both arms into if-then-else terms
(see loader.py) or forks the execution: the exploration then runs once per
feasible path, and the solver decides feasibility.
"""
import math
import re
import os
import sys
import time
from fractions import Fraction

Z3PATH = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if Z3PATH not in sys.path:
    sys.path.append(Z3PATH)
import z3  # noqa: E402

# terms are built through this context only; no parallel use inside a process
z3.set_param('verbose', 0)


class Unsupported(BaseException):
    """The engine cannot encode this operation (never a statement about the code)."""


class MergeFail(BaseException):
    """A merge site cannot be merged: rerun with that site forking instead."""

    def __init__(self, site):
        self.site = site


class Infeasible(BaseException):
    """The current path became infeasible (an assumption contradicts it)."""


class Found(BaseException):
    """A hinted input fails on the real code."""


class Budget(BaseException):
    """Exploration limits exceeded: inconclusive."""


class _Missing:
    def __repr__(self):
        return '<unbound>'


MISSING = _Missing()


class Ctx:
    """State of one symbolic execution (one path)."""

    def __init__(self, nomerge, prefix=(), timeout_ms=60000, stats=None):
        self.nomerge = nomerge
        self.prefix = list(prefix)
        self.trace = []
        self.pending = []
        self.guards = []          # stack of (z3 bool, site)
        self.gids = []            # a serial number per guard
        self.gserial = 0
        self.born = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.timeout_ms = timeout_ms
        self.linear = z3.Solver()     # the assertions without products of unknowns
        self.linear.set('timeout', min(timeout_ms, 20000))
        self.nl = {}
        self.values = []
        self.facts = {}           # term id -> bool, literals asserted on this path
        self.keep = []            # keeps terms alive so that ids stay unique
        self.positive = set()     # ids of real terms asserted > 0
        self.nonneg = set()
        self.pc = []
        self.axioms = []
        self.axiom_ids = set()
        self.stats = stats if stats is not None else {}
        self.memo = {}
        self.tokens = {}
        self.probe = None         # called before a long query, or when the instance takes long
        self.started = time.time()
        self.nondegenerate = True     # distinct grid points are a positive distance apart
        self.vfs = None

    # -- solver ----------------------------------------------------------
    def check(self, *extra, full=True):
        t0 = time.time()
        quick = min(2000, self.timeout_ms)
        self.solver.set('timeout', quick)
        r = self.solver.check(*extra)
        if r == z3.unknown and not any(self.nonlinear(x) for x in extra):
            # refuted by the linear assertions alone?
            if self.linear.check(*extra) == z3.unsat:
                r = z3.unsat
        if self.probe is not None and (r == z3.unknown and self.timeout_ms > quick and full or time.time() - self.started > 25):
            self.probe()
        if r == z3.unknown and self.timeout_ms > quick and full:
            self.solver.set('timeout', self.timeout_ms if full is True else full)
            r = self.solver.check(*extra)
        self.stats['solver_s'] = self.stats.get('solver_s', 0.0) + time.time() - t0
        self.stats['queries'] = self.stats.get('queries', 0) + 1
        if r == z3.unknown:
            self.stats['unknown'] = self.stats.get('unknown', 0) + 1
        return r

    def _assert(self, t):
        self.solver.add(t)
        if not self.nonlinear(t):
            self.linear.add(t)

    def nonlinear(self, t):
        """The term multiplies or divides unknowns."""
        memo = self.nl
        todo = [t]
        while todo:
            x = todo[-1]
            i = x.get_id()
            if i in memo:
                todo.pop()
                continue
            if z3.is_quantifier(x):
                memo[i] = (True, x)
                continue
            ch = x.children()
            late = [c for c in ch if c.get_id() not in memo]
            if late:
                todo.extend(late)
                continue
            todo.pop()
            k = x.decl().kind() if z3.is_app(x) else None
            v = any(memo[c.get_id()][0] for c in ch)
            if not v and k == z3.Z3_OP_MUL:
                v = sum(1 for c in ch if not z3.is_rational_value(c) and not z3.is_int_value(c)) > 1
            elif not v and k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM):
                v = not (z3.is_rational_value(ch[1]) or z3.is_int_value(ch[1]))
            elif k == z3.Z3_OP_POWER:
                v = True
            memo[i] = (v, x)
        return memo[t.get_id()][0]

    def axiom(self, t):
        """A fact about a stub's result: part of its documented contract."""
        i = t.get_id()
        if i in self.axiom_ids:
            return
        self.axiom_ids.add(i)
        self.keep.append(t)
        self.axioms.append(t)
        self._assert(t)

    def add(self, t):
        self.keep.append(t)
        self.pc.append(t)
        self._assert(t)
        self._fact(t, True)

    def _fact(self, t, v):
        self.keep.append(t)
        if z3.is_not(t):
            return self._fact(t.arg(0), not v)
        if z3.is_and(t) and v:
            for c in t.children():
                self._fact(c, True)
        if z3.is_or(t) and not v:
            for c in t.children():
                self._fact(c, False)
        self.facts[t.get_id()] = v

    def enter(self, t, site):
        self.gserial += 1
        self.guards.append((t, site))
        self.gids.append(self.gserial)

    def leave(self):
        self.guards.pop()
        self.gids.pop()

    def gtop(self):
        return self.gids[-1] if self.gids else 0

    def own(self, obj):
        """obj was created under the guards in force: only they see a change to it."""
        if not self.guards:
            return True
        b = self.born.get(id(obj))
        return b is not None and b[1] == self.gids[-1]

    def guard(self):
        if not self.guards:
            return None
        g = [x for x, _ in self.guards]
        return g[0] if len(g) == 1 else z3.And(*g)

    # -- decisions -------------------------------------------------------
    def known(self, t, guards=True):
        """True/False if the term is decided without a solver call, else None."""
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        v = self.facts.get(t.get_id())
        if v is not None:
            return v
        if z3.is_not(t):
            v = self.known(t.arg(0), guards)
            return None if v is None else not v
        for g, _ in self.guards if guards else ():
            if g.eq(t):
                return True
        return None

    def decide(self, t):
        v = self.known(t)
        if v is not None:
            return v
        t = z3.simplify(t)
        self.keep.append(t)
        v = self.known(t)
        if v is not None:
            return v
        if self.guards:
            # decided by the path condition and guards alone?
            gs = [g for g, _ in self.guards]
            if not self.nonlinear(t):
                # refuted by the linear assertions alone?
                ls = [g for g in gs if not self.nonlinear(g)]
                if self.linear.check(*ls, z3.Not(t)) == z3.unsat:
                    return True
                if self.linear.check(*ls, t) == z3.unsat:
                    return False
            if self.check(*gs, t) == z3.unsat:
                return False
            if self.check(*gs, z3.Not(t)) == z3.unsat:
                return True
            raise MergeFail(self.guards[-1][1])
        k = len(self.trace)
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            n = z3.Not(t)
            easy = None
            if self.stats.get('unknown') and not self.nonlinear(t):
                # the full query is costly here: one side may be refuted by the linear assertions
                easy = True if self.linear.check(n) == z3.unsat else False if self.linear.check(t) == z3.unsat else None
            can_t = z3.sat if easy is True else z3.unsat if easy is False else self.check(t, full=False)
            can_f = z3.unsat if easy is True else z3.sat if can_t == z3.unsat else self.check(n, full=False)
            if can_t == z3.unknown and can_f != z3.unsat:
                can_t = self.check(t, full=self.timeout_ms // 4)
            if can_f == z3.unknown and can_t != z3.unsat:
                can_f = self.check(n, full=self.timeout_ms // 4)
            if can_t != z3.unsat and can_f != z3.unsat:
                self.pending.append(self.trace + [False])
                v = True
                self.stats['forks'] = self.stats.get('forks', 0) + 1
            else:
                v = can_t != z3.unsat
        self.trace.append(v)
        self.add(t if v else z3.Not(t))
        return v

    def concretize(self, t):
        """Fork over the feasible values of an integer term."""
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        if self.values:
            # values already settled on this path
            u = z3.simplify(z3.substitute(t, *self.values))
            if z3.is_int_value(u):
                return u.as_long()
        if self.guards:
            gs = [g for g, _ in self.guards]
            if self.check(*gs) == z3.sat:
                v = self.solver.model().eval(t, model_completion=True)
                if self.check(*gs, t != v) == z3.unsat:
                    return v.as_long()
            raise MergeFail(self.guards[-1][1])
        gone = []
        for _ in range(400):
            k = len(self.trace)
            if k < len(self.prefix):
                # the value was chosen when this prefix was first explored
                tag, val = self.prefix[k]
                v = z3.IntVal(val)
                if tag == 'eq':
                    self.trace.append(('eq', val))
                    self.add(t == v)
                    self.values.append((t, v))
                    return val
                self.trace.append(('ne', val))
                self.add(t != v)
                gone.append(v)
                continue
            r = self.linear.check(*[t != v for v in gone])
            if r == z3.unsat:
                raise Infeasible()
            m = self.linear if r == z3.sat else self.solver
            if r != z3.sat and self.check() != z3.sat:
                raise Budget('no value for an index')
            val = m.model().eval(t, model_completion=True).as_long()
            v = z3.IntVal(val)
            if self.check(t != v, full=self.timeout_ms // 4) != z3.unsat:
                if self.check(t == v, full=self.timeout_ms // 4) == z3.unsat:
                    self.trace.append(('ne', val))
                    self.add(t != v)
                    gone.append(v)
                    continue
                self.pending.append(self.trace + [('ne', val)])
                self.stats['forks'] = self.stats.get('forks', 0) + 1
            self.trace.append(('eq', val))
            self.add(t == v)
            self.values.append((t, v))
            return val
        raise Budget('concretize')


CUR = None      # the current Ctx


def cur():
    return CUR


# ---------------------------------------------------------------------------
# values

SPEC = re.compile(r'(?:.?(?P<align>[<>=^]))?[-+ ]?z?#?0?(?P<width>\d+)?[_,]?(?:\.(?P<prec>\d+))?(?P<type>[a-zA-Z%])?$', re.DOTALL)


class Written:
    """A number written with a conversion that need not keep it: the nearest decimal of so many digits."""

    def __init__(self, x, kind, prec):
        self.x, self.kind, self.prec = x, kind, prec
        self.tag = '%s%d' % ({'e': 'p', 'f': 'q', 'g': 'r'}[kind], prec)

    @staticmethod
    def of(x, kind, prec):
        if isinstance(x, (SI, SB)):
            x = SR(real_term(x))
        if prec >= {'e': 16, 'g': 17, 'f': 10 ** 9}[kind]:
            return x
        return Written(x, kind, prec)

    def read(self):
        """The number read back from the text."""
        if not isinstance(self.x, SR):
            raise Unsupported('a bit-precise double written with %d digits' % self.prec)
        from . import fun
        t = self.x.t
        r = fun.keep(fun.uf('written_%s%d' % (self.kind, self.prec))(t))
        half = Fraction(1, 2) / Fraction(10) ** (self.prec if self.kind != 'g' else self.prec - 1)
        bound = realval(half) if self.kind == 'f' else realval(half) * z3.If(t >= 0, t, -t)
        CUR.axiom(z3.And(r - t <= bound, t - r <= bound))
        return SR(r)


class Sym:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return self.__format__('')

    def __str__(self):
        return self.__format__('')

    def __format__(self, spec):
        val, width, align = self, 0, None
        if spec:
            # a conversion Python rejects is rejected here, too
            format({'SI': 1, 'SB': True}.get(type(self).__name__, 1.5), spec)
            m = SPEC.match(spec)
            if m:
                width, align = int(m.group('width') or 0), m.group('align')
                if m.group('type') in list('eEfFgG'):
                    val = Written.of(self, m.group('type').lower(), int(m.group('prec') or 6))
        # the text of a floating-point number has a point or an exponent, an integer's has neither
        tok = '\u27e6s%s%d%s\u27e7' % (val.tag if isinstance(val, Written) else '', self.t.get_id(),
                                    '' if isinstance(val, (SI, SB)) else '.')
        if CUR is not None:
            CUR.tokens[tok] = val
            CUR.keep.append(self.t)
        return tok.ljust(width) if align == '<' else tok.center(width) if align == '^' else tok.rjust(width)

    def __hash__(self):
        return hash(self.t.get_id())

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _isarr(o):
    return hasattr(o, '__array_interface__') or type(o).__name__ in ('ndarray', 'SymArray')


def realval(x):
    if isinstance(x, Fraction):
        return z3.Q(x.numerator, x.denominator)
    if isinstance(x, int):
        return z3.RealVal(x)
    f = Fraction(float(x))
    return z3.Q(f.numerator, f.denominator)


def isnum(x):
    import numpy as np
    return isinstance(x, (bool, int, float, Fraction, np.number, np.bool_))


def real_term(x):
    """z3 Real term of a finite number or numeric Sym."""
    if isinstance(x, SR):
        return x.t
    if isinstance(x, SI):
        return z3.ToReal(x.t)
    if isinstance(x, SB):
        return z3.If(x.t, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, SF):
        raise Unsupported('SF used as real')
    return realval(x)


def int_term(x):
    if isinstance(x, SI):
        return x.t
    if isinstance(x, SB):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(int(x))


def bool_term(x):
    if isinstance(x, SB):
        return x.t
    return z3.BoolVal(bool(x))


def mkbool(t, guards=True):
    """SB, or a Python bool when the term is decided."""
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    if CUR is not None:
        v = CUR.known(t, guards)
        if v is not None:
            return v
        CUR.keep.append(t)
    return SB(t)


def truth(x):
    """bool or SB for the truth value of any value."""
    if isinstance(x, SB):
        return mkbool(x.t)
    if isinstance(x, SR):
        return x != 0
    if isinstance(x, SI):
        return x != 0
    if isinstance(x, SF):
        return mkbool(z3.simplify((x.t & z3.BitVecVal(0x7fffffffffffffff, 64)) != 0))
    from . import arr
    if isinstance(x, arr.SymArray):
        if x.size == 1:
            return truth(x.item())
        if x.size > 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')
        return False
    return bool(x)


def AND(*xs):
    ts = []
    for x in xs:
        x = truth(x)
        if x is False:
            return False
        if x is not True:
            ts.append(x.t)
    if not ts:
        return True
    return mkbool(ts[0] if len(ts) == 1 else z3.And(*ts))


def OR(*xs):
    ts = []
    for x in xs:
        x = truth(x)
        if x is True:
            return True
        if x is not False:
            ts.append(x.t)
    if not ts:
        return False
    return mkbool(ts[0] if len(ts) == 1 else z3.Or(*ts))


def NOT(x):
    x = truth(x)
    if isinstance(x, bool):
        return not x
    return mkbool(x.t.arg(0) if z3.is_not(x.t) else z3.Not(x.t))


def is_sym(x):
    return isinstance(x, Sym)


def special(x):
    """nan/inf among concrete floats."""
    return isinstance(x, float) and (math.isnan(x) or math.isinf(x))


def _wrap_const_real(t):
    return SR(t)


class SB(Sym):
    __slots__ = ()

    def __bool__(self):
        return CUR.decide(self.t)

    def __and__(self, o):
        if _isarr(o):
            return NotImplemented
        return AND(self, o)
    __rand__ = __and__

    def __or__(self, o):
        if _isarr(o):
            return NotImplemented
        return OR(self, o)
    __ror__ = __or__

    def __xor__(self, o):
        if _isarr(o):
            return NotImplemented
        return mkbool(z3.simplify(z3.Xor(self.t, bool_term(truth(o)))))
    __rxor__ = __xor__

    def __invert__(self):
        return NOT(self)

    def __eq__(self, o):
        if isinstance(o, (SB, bool)):
            return mkbool(z3.simplify(self.t == bool_term(o)))
        if o is None or isinstance(o, str):
            return False
        if _isarr(o):
            return NotImplemented
        return SI(int_term(self)) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else NOT(r)

    __hash__ = Sym.__hash__

    def _i(self):
        return SI(int_term(self))

    def __add__(self, o):
        return self._i() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __mul__(self, o):
        return self._i() * o
    __rmul__ = __mul__

    def __lt__(self, o):
        return self._i() < o

    def __gt__(self, o):
        return self._i() > o

    def __le__(self, o):
        return self._i() <= o

    def __ge__(self, o):
        return self._i() >= o

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def logical_not(self):
        return NOT(self)


def _cmp_special(op, a, b):
    """Comparison of a finite symbolic real a with a nan/inf b."""
    if math.isnan(b):
        return op == 'ne'
    pos = b > 0
    return {'lt': pos, 'le': pos, 'gt': not pos, 'ge': not pos, 'eq': False, 'ne': True}[op]


def arealike(t, depth=0):
    """A sum or product made of arccos / sqrt terms: the area of a cell."""
    if depth > 12 or not z3.is_app(t):
        return False
    k = t.decl().kind()
    if k == z3.Z3_OP_UNINTERPRETED:
        return t.decl().name() in ('arccos', 'arcsin', 'arctan', 'arctan2', 'sqrt', 'kernel')
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
        return any(arealike(c, depth + 1) for c in t.children())
    if k == z3.Z3_OP_ITE:
        return arealike(t.arg(1), depth + 1) and arealike(t.arg(2), depth + 1)
    return False


def zero_cond(t):
    """Condition for a term to be zero given that cell areas are not, or None."""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        a, b = zero_cond(t.arg(1)), zero_cond(t.arg(2))
        if a is None or b is None:
            return None
        return ite(SB(t.arg(0)), a, b)
    if z3.is_rational_value(t):
        return t.as_fraction() == 0
    if arealike(t):
        return False
    return None


class SR(Sym):
    """A finite real number (floating-point values abstracted as exact reals)."""
    __slots__ = ()

    def _bin(self, o, f, rev=False, name=''):
        if isinstance(o, SF):
            return NotImplemented
        if not (isnum(o) or isinstance(o, Sym)):
            return NotImplemented
        if special(o):
            if math.isnan(o):
                return float('nan')
            if name in ('add',):
                return float(o)
            if name == 'sub':
                return float(o) if rev else -float(o)
            raise Unsupported('arithmetic with inf')
        a, b = self.t, real_term(o)
        if rev:
            a, b = b, a
        return SR(f(a, b))

    def __add__(self, o):
        if isinstance(o, (int, float)) and o == 0:
            return self
        return self._bin(o, lambda a, b: a + b, name='add')
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (int, float)) and o == 0:
            return self
        return self._bin(o, lambda a, b: a - b, name='sub')

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True, name='sub')

    def __mul__(self, o):
        if isinstance(o, (int, float)):
            if o == 1:
                return self
            if o == 0:
                return 0.0
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (int, float)) and not isinstance(o, bool):
            if o == 0:
                raise ZeroDivisionError('float division by zero')
            if special(o):
                return float('nan') if math.isnan(o) else 0.0
            return SR(self.t * realval(1 / Fraction(o)))
        return self._bin(o, _div)

    def __rtruediv__(self, o):
        return self._bin(o, _div, True)

    def __floordiv__(self, o):
        return self._bin(o, lambda a, b: z3.ToReal(z3.ToInt(_div(a, b))))

    def __rfloordiv__(self, o):
        return self._bin(o, lambda a, b: z3.ToReal(z3.ToInt(_div(a, b))), True)

    def __mod__(self, o):
        return self._bin(o, lambda a, b: a - b * z3.ToReal(z3.ToInt(_div(a, b))))

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __rmod__(self, o):
        return self._bin(o, lambda a, b: a - b * z3.ToReal(z3.ToInt(_div(a, b))), True)

    def __pow__(self, o):
        if isinstance(o, SR):
            o = z3.simplify(o.t)
            if z3.is_rational_value(o):
                o = float(o.as_fraction())
        if isinstance(o, (int, float)) and float(o).is_integer() and 0 <= o <= 16:
            r = 1.0
            for _ in range(int(o)):
                r = self * r
            return r
        if o == 0.5:
            return self.sqrt()
        if isinstance(o, (int, float)) and o == -1:
            return 1.0 / self
        raise Unsupported('pow')

    def __neg__(self):
        return SR(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        if CUR is not None and (self.t.get_id() in CUR.nonneg):
            return self
        return SR(z3.If(self.t >= 0, self.t, -self.t))

    def _cmp(self, o, op):
        if o is None or isinstance(o, str):
            if op in ('eq', 'ne'):
                return op == 'ne'
            return NotImplemented
        if isinstance(o, SF) or not (isnum(o) or isinstance(o, Sym)):
            return NotImplemented
        if special(o):
            return _cmp_special(op, self, float(o))
        if isnum(o) and o == 0 and CUR is not None:
            i = self.t.get_id()
            if i in CUR.positive:
                return {'lt': False, 'le': False, 'gt': True, 'ge': True, 'eq': False, 'ne': True}[op]
            if i in CUR.nonneg:
                if op == 'lt':
                    return False
                if op == 'ge':
                    return True
            if CUR.nondegenerate and op in ('eq', 'ne'):
                z = zero_cond(self.t)
                if z is not None:
                    return z if op == 'eq' else NOT(z)
        a, b = self.t, real_term(o)
        if a.eq(b):
            return op in ('le', 'ge', 'eq')
        t = {'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: b < a,
             'ge': lambda: b <= a, 'eq': lambda: a == b,
             'ne': lambda: z3.Not(a == b)}[op]()
        v = CUR.known(t) if CUR is not None else None
        if v is not None:
            return v
        return mkbool(z3.simplify(t))

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __gt__(self, o):
        return self._cmp(o, 'gt')

    def __ge__(self, o):
        return self._cmp(o, 'ge')

    def __eq__(self, o):
        return self._cmp(o, 'eq')

    def __ne__(self, o):
        return self._cmp(o, 'ne')

    __hash__ = Sym.__hash__

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        t = z3.simplify(self.t)
        if z3.is_rational_value(t):
            return float(t.as_fraction())
        raise Unsupported('float() of a symbolic real')

    def __int__(self):
        return CUR.concretize(z3.If(self.t >= 0, z3.ToInt(self.t), -z3.ToInt(-self.t)))

    def __trunc__(self):
        return int(self)

    def __floor__(self):
        return SI(z3.ToInt(self.t))

    def rint(self):
        y = self.t + z3.Q(1, 2)
        f = z3.ToInt(y)
        return SR(z3.ToReal(z3.If(z3.And(z3.IsInt(y), f % 2 != 0), f - 1, f)))

    def __round__(self, n=None):
        if n is None:
            return SI(z3.ToInt(self.rint().t))
        return (self * 10.0 ** int(n)).rint() / 10.0 ** int(n)

    def item(self):
        return self

    @property
    def real(self):
        return self

    def is_integer(self):
        return mkbool(z3.simplify(z3.IsInt(self.t)))

    # elementary functions: see fun.py
    def sqrt(self):
        from . import fun
        return fun.sqrt(self)

    def conjugate(self):
        return self


_DIV_OBS = []


def _div(a, b):
    return a / b


class SI(Sym):
    """A Python int (unbounded)."""
    __slots__ = ()

    def _bin(self, o, f, rev=False):
        if isinstance(o, SR):
            return NotImplemented
        if isinstance(o, (SI, SB, bool, int)) or (isnum(o) and float(o).is_integer() and not isinstance(o, float)):
            a, b = self.t, int_term(o)
            if rev:
                a, b = b, a
            return mkint(f(a, b))
        return NotImplemented

    def _r(self):
        return SR(z3.ToReal(self.t))

    def __add__(self, o):
        if isinstance(o, (float, SR)) and not isinstance(o, bool):
            return self._r() + o
        return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (float, SR)):
            return self._r() - o
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        if isinstance(o, (float, SR)):
            return o - self._r()
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (float, SR)):
            return self._r() * o
        if isinstance(o, (list, tuple, str)):
            return o * int(self)
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._r() / o

    def __rtruediv__(self, o):
        return o / self._r()

    @staticmethod
    def _fdiv(a, b):
        # z3 integer division rounds so that the remainder is >= 0
        if z3.is_int_value(b) and b.as_long() > 0:
            return a / b
        if z3.is_int_value(b) and b.as_long() == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if CUR.decide(b == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        return z3.If(b > 0, a / b, (-a) / (-b))

    def __floordiv__(self, o):
        if isinstance(o, (float, SR)):
            return self._r() // o
        return self._bin(o, self._fdiv)

    def __rfloordiv__(self, o):
        return self._bin(o, self._fdiv, True)

    def __mod__(self, o):
        if isinstance(o, (float, SR)):
            return self._r() % o
        return self._bin(o, lambda a, b: a - b * self._fdiv(a, b))

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return self._bin(o, lambda a, b: a - b * self._fdiv(a, b), True)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 8:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        raise Unsupported('int pow')

    def __neg__(self):
        return mkint(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.t >= 0, self.t, -self.t))

    def _cmp(self, o, op):
        if o is None or isinstance(o, str):
            if op in ('eq', 'ne'):
                return op == 'ne'
            return NotImplemented
        if isinstance(o, SR) or (isinstance(o, float)):
            if special(o):
                return _cmp_special(op, self, o)
            return getattr(self._r(), '__%s__' % op)(o)
        if not (isinstance(o, (SI, SB, int)) or isnum(o)):
            return NotImplemented
        a, b = self.t, int_term(o)
        t = {'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: b < a,
             'ge': lambda: b <= a, 'eq': lambda: a == b,
             'ne': lambda: z3.Not(a == b)}[op]()
        return mkbool(z3.simplify(t))

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __gt__(self, o):
        return self._cmp(o, 'gt')

    def __ge__(self, o):
        return self._cmp(o, 'ge')

    def __eq__(self, o):
        return self._cmp(o, 'eq')

    def __ne__(self, o):
        return self._cmp(o, 'ne')

    def __hash__(self):
        return hash(int(self))

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        return CUR.concretize(self.t)

    def __int__(self):
        return CUR.concretize(self.t)

    def __float__(self):
        return float(CUR.concretize(self.t))

    def item(self):
        return self

    def bit_length(self):
        return int(self).bit_length()

    def __lshift__(self, o):
        return self * (2 ** int(o))

    def __rshift__(self, o):
        return self // (2 ** int(o))

    def __and__(self, o):
        if o == 1:
            return self % 2
        return int(self) & int(o)
    __rand__ = __and__


def mkint(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    if CUR is not None:
        CUR.keep.append(t)
    return SI(t)


class SF(Sym):
    """An IEEE-754 double given by its 64-bit pattern (bit-precise)."""
    __slots__ = ()

    def fp(self):
        return z3.fpBVToFP(self.t, z3.Float64())

    @staticmethod
    def from_fp(f):
        # to_ieee_bv picks one NaN pattern; arithmetic NaN payloads are not modelled
        return SF(z3.fpToIEEEBV(f))

    @staticmethod
    def of(x):
        import struct
        if isinstance(x, SF):
            return x
        if isinstance(x, (int, float)):
            return SF(z3.BitVecVal(int.from_bytes(struct.pack('>d', float(x)), 'big'), 64))
        import numpy as np
        if isinstance(x, np.number):
            return SF.of(float(x))
        raise Unsupported('mixing %s with a bit-precise double' % type(x).__name__)

    def _bin(self, o, f, rev=False):
        if not (isinstance(o, SF) or isnum(o)):
            return NotImplemented
        o = SF.of(o)
        a, b = (o, self) if rev else (self, o)
        return SF.from_fp(f(z3.RNE(), a.fp(), b.fp()))

    def __add__(self, o):
        return self._bin(o, z3.fpAdd)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, z3.fpSub)

    def __rsub__(self, o):
        return self._bin(o, z3.fpSub, True)

    def __mul__(self, o):
        return self._bin(o, z3.fpMul)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, z3.fpDiv)

    def __rtruediv__(self, o):
        return self._bin(o, z3.fpDiv, True)

    def __neg__(self):
        return SF(z3.simplify(self.t ^ z3.BitVecVal(1 << 63, 64)))

    def __abs__(self):
        return SF(z3.simplify(self.t & z3.BitVecVal((1 << 63) - 1, 64)))

    def _cmp(self, o, f):
        if o is None or isinstance(o, str):
            return False
        if not (isinstance(o, SF) or isnum(o)):
            return NotImplemented
        return mkbool(z3.simplify(f(self.fp(), SF.of(o).fp())))

    def __lt__(self, o):
        return self._cmp(o, z3.fpLT)

    def __le__(self, o):
        return self._cmp(o, z3.fpLEQ)

    def __gt__(self, o):
        return self._cmp(o, z3.fpGT)

    def __ge__(self, o):
        return self._cmp(o, z3.fpGEQ)

    def __eq__(self, o):
        return self._cmp(o, z3.fpEQ)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        r = self._cmp(o, z3.fpEQ)
        return r if r is NotImplemented else NOT(r)

    __hash__ = Sym.__hash__

    def __bool__(self):
        return bool(truth(self))

    def __float__(self):
        raise Unsupported('float() of a symbolic double')

    def item(self):
        return self

    def isnan(self):
        return mkbool(z3.simplify(z3.fpIsNaN(self.fp())))

    def isinf(self):
        return mkbool(z3.simplify(z3.fpIsInf(self.fp())))

    def sqrt(self):
        return SF.from_fp(z3.fpSqrt(z3.RNE(), self.fp()))

    def rint(self):
        return SF.from_fp(z3.fpRoundToIntegral(z3.RNE(), self.fp()))


# ---------------------------------------------------------------------------
# merging

def same(a, b):
    if a is b:
        return True
    if isinstance(a, Sym) and type(a) is type(b):
        return a.t.eq(b.t)
    if isinstance(a, float) and isinstance(b, float):
        return a == b and math.copysign(1, a) == math.copysign(1, b) or (a != a and b != b)
    if type(a) is type(b) and isinstance(a, (int, str, bytes, type(None), bool)):
        return a == b
    if isinstance(a, slice) and isinstance(b, slice):
        return same(a.start, b.start) and same(a.stop, b.stop) and same(a.step, b.step)
    return False


class NoMerge(Exception):
    pass


def ite(c, a, b, store=False):
    """c: z3 Bool or SB/bool; values of any mergeable kind.

    store: the result outlives the guards in force (they must not be taken as given)."""
    if isinstance(c, bool):
        return a if c else b
    ct = c.t if isinstance(c, SB) else c
    if CUR is not None:
        v = CUR.known(ct, not store)
        if v is not None:
            return a if v else b
    if same(a, b):
        return a
    if a is MISSING:
        return b
    if b is MISSING:
        return a
    from . import arr
    if isinstance(a, arr.SymArray) or isinstance(b, arr.SymArray):
        return arr.ite_array(ct, a, b, store)
    if isinstance(a, SF) or isinstance(b, SF):
        if isinstance(a, (SF, int, float)) and isinstance(b, (SF, int, float)):
            return SF(z3.If(ct, SF.of(a).t, SF.of(b).t))
        raise NoMerge()
    if isinstance(a, (bool, SB)) and isinstance(b, (bool, SB)):
        return mkbool(z3.simplify(z3.If(ct, bool_term(a), bool_term(b))), not store)
    if isinstance(a, (int, SI)) and isinstance(b, (int, SI)) \
            and not isinstance(a, bool) and not isinstance(b, bool):
        return mkint(z3.If(ct, int_term(a), int_term(b)))
    if isinstance(a, (int, float, SI, SR)) and isinstance(b, (int, float, SI, SR)):
        if special(a) or special(b):
            raise NoMerge()
        r = SR(z3.If(ct, real_term(a), real_term(b)))
        if CUR is not None:
            ok = True
            for v in (a, b):
                if isinstance(v, Sym):
                    ok = ok and (v.t.get_id() in CUR.nonneg)
                else:
                    ok = ok and v >= 0
            if ok:
                CUR.keep.append(r.t)
                CUR.nonneg.add(r.t.get_id())
        return r
    if isinstance(a, (tuple, list)) and type(a) is type(b) and len(a) == len(b):
        return type(a)(ite(ct, x, y, store) for x, y in zip(a, b))
    import numpy as np
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return arr.ite_array(ct, a, b, store)
    raise NoMerge()


# ---------------------------------------------------------------------------
# exploration

def explore(fn, stats, max_paths=2000, deadline=None, timeout_ms=60000, nomerge=None, reset=None):
    """Run fn(ctx) once per feasible path; yields (ctx, result)."""
    global CUR
    nomerge = nomerge if nomerge is not None else set()
    while True:
        stack = [[]]
        results = []
        try:
            while stack:
                if len(results) >= max_paths:
                    raise Budget('more than %d paths' % max_paths)
                if deadline is not None and time.time() > deadline:
                    raise Budget('time')
                prefix = stack.pop()
                ctx = Ctx(nomerge, prefix, timeout_ms, stats)
                CUR = ctx
                try:
                    r = fn(ctx)
                    results.append(r)
                    stats['paths'] = stats.get('paths', 0) + 1
                    stats['decisions'] = stats.get('decisions', 0) + len(ctx.trace)
                except Infeasible:
                    stats['infeasible'] = stats.get('infeasible', 0) + 1
                stack.extend(ctx.pending)
        except MergeFail as e:
            if e.site in nomerge:
                raise Unsupported('merge site %r fails although it forks' % (e.site,))
            nomerge.add(e.site)
            for k in ('paths', 'checks', 'obligations', 'discharged', 'trivial', 'decisions',
                      'witnesses', 'infeasible', 'forks'):
                stats.pop(k, None)
            if reset is not None:
                reset()
            continue
        finally:
            CUR = None
        return results
