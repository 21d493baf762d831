"""The two environments a property harness runs in.

A harness is one Python function h(E).  Under SymEnv its inputs are z3 terms and
E.check discharges the property with the solver; under RealEnv the same harness
runs the real code on concrete inputs (a solver counterexample being replayed).
"""
import contextlib
import io
import math
import os
import shutil
import struct
import sys
import tempfile
import warnings

NAMES = ('XC', 'YC', 'DXF', 'DYF', 'RAC', 'XG', 'YG', 'DXV', 'DYU', 'RAZ', 'DXC', 'DYC', 'RAW', 'RAS',
         'DXG', 'DYG')
# extra rows / columns of each field over the tracer cell counts (MITgcm mitgrid layout)
DI = dict(zip(NAMES, (0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 0, 1, 0, 0, 1)))
DJ = dict(zip(NAMES, (0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 0, 1, 0, 1, 1, 0)))


class Reject(BaseException):
    """A concrete input outside the assumptions of the harness."""


class Violated(BaseException):
    def __init__(self, msg):
        self.msg = msg


class Outcome:
    def __init__(self, value, exc):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    def raised(self, *types):
        return self.exc is not None and isinstance(self.exc, types)


def fieldshape(name, ni, nj):
    return ni + DI[name], nj + DJ[name]


class Base:
    sym = False

    def mod(self, name):
        raise NotImplementedError

    def path(self, *parts):
        p = os.path.join(self.root, *parts)
        return p

    def mkdir(self, *parts):
        p = self.path(*parts)
        os.makedirs(p, exist_ok=True)
        return p

    def call(self, fn, *a, **k):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                return Outcome(self._quiet(fn, a, k), None)
        except (Exception, SystemExit) as e:
            self._engine(e)
            if os.environ.get('SX_DEBUG'):
                import traceback
                traceback.print_exc(file=sys.__stderr__)
            return Outcome(None, e)

    def _engine(self, e):
        pass

    def cli(self, module, args):
        """Run the module's command-line entry point; args: list of (option, value|True|list)."""
        argv = [module]
        for o, v in args:
            if v is True:
                argv.append(o)
            elif isinstance(v, (list, tuple)):
                argv.append(o)
                argv.extend(self.text(x) for x in v)
            else:
                argv.append('%s=%s' % (o, self.text(v)))
        old = sys.argv
        sys.argv = argv
        err = io.StringIO()
        try:
            with contextlib.redirect_stderr(err):
                return self.call(self.mod(module).main)
        finally:
            sys.argv = old

    def text(self, v):
        return v if isinstance(v, str) else format(v, '') if self.sym and not isinstance(v, float) else repr(v)

    # arrays ---------------------------------------------------------------
    def arr(self, name, shape, hint=None, **k):
        np = self.np
        a = np.zeros(shape)
        for idx in self._ndindex(shape):
            h = None
            if hint is not None:
                h = hint(*idx)
            a[idx] = self.real('%s[%s]' % (name, ','.join(map(str, idx))), hint=h, **k)
        return a

    def f64arr(self, name, shape, hint=None):
        a = self.np.zeros(shape)
        for idx in self._ndindex(shape):
            a[idx] = self.f64('%s[%s]' % (name, ','.join(map(str, idx))),
                              hint=None if hint is None else hint(*idx))
        return a

    @staticmethod
    def _ndindex(shape):
        import numpy
        return numpy.ndindex(*shape)

    def fields(self, name, ni, nj, kind='real', hint=None, skip=()):
        """A dictionary of the 16 grid matrices of fresh values."""
        d = {}
        for n in NAMES:
            if n in skip:
                continue
            shp = fieldshape(n, ni, nj)
            h = None if hint is None else (lambda i, j, n=n: hint(n, i, j))
            d[n] = self.arr('%s.%s' % (name, n), shp, h) if kind == 'real' else \
                self.f64arr('%s.%s' % (name, n), shp, h)
        return d

    def degenerate(self):
        """Grid points may coincide in this harness."""

    _os = None

    def listing(self, p):
        """Directories are listed in the p-th permutation of their sorted entries from here on."""
        self._os = self._os or (os.listdir, os.scandir)
        listdir, scandir = self._os

        def order(names):
            names, out, k = sorted(names), [], p
            while names:
                k, r = divmod(k, len(names))
                out.append(names.pop(r))
            return out

        class Scan(list):
            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

            close = __exit__

        def scan(path='.'):
            with scandir(path) as it:
                d = {e.name: e for e in it}
            return Scan(d[n] for n in order(d))

        os.listdir = lambda path='.': order(listdir(path))
        os.scandir = scan

    def unlisting(self):
        if self._os:
            os.listdir, os.scandir = self._os
            self._os = None

    def shape_is(self, a, shape, msg):
        ok = hasattr(a, 'shape') and tuple(int(x) for x in a.shape) == tuple(shape)
        self.check(ok, '%s: shape is not %r' % (msg, tuple(shape)))
        return ok


# ---------------------------------------------------------------------------

class SymEnv(Base):
    sym = True

    def __init__(self, ctx, root, packages=None, variants=1):
        from . import core, stubs, loader
        self.core, self.stubs = core, stubs
        self.ctx = ctx
        self.root = tempfile.mkdtemp(dir=root)
        ctx.vfs = stubs.VFS(self.root)
        ctx.nondegenerate = True
        self.pkg = loader.Package()
        self.np = self.pkg.shims['numpy']
        self.inputs = []           # (name, kind, term)
        self.hints = {}            # name -> list of hint values
        self.names = {}
        self.violations = []
        self.nchecks = 0
        self.modifiers = []

    def close(self):
        self.unlisting()
        shutil.rmtree(self.root, ignore_errors=True)

    def mod(self, name):
        return self.pkg.load(name)

    def module_import(self, name):
        return self.pkg.load(name)

    def degenerate(self):
        self.ctx.nondegenerate = False

    def distinct(self, X, Y):
        pass                        # ctx.nondegenerate: distances between different points are positive

    def _engine(self, e):
        import z3
        from .core import Unsupported
        if isinstance(e, z3.Z3Exception) or isinstance(e, RecursionError):
            raise Unsupported('%s: %s' % (type(e).__name__, e))

    def _quiet(self, fn, a, k):
        self.ctx.memo['stdout'] = []
        return fn(*a, **k)

    @property
    def printed(self):
        """What the last call printed."""
        return ''.join(self.ctx.memo.get('stdout', ()))

    # inputs
    def _new(self, name, kind, t, hint):
        if name in self.names:
            raise ValueError('duplicate input ' + name)
        self.names[name] = t
        self.inputs.append((name, kind, t))
        if hint is not None:
            self.hints[name] = list(hint) if isinstance(hint, (list, tuple)) else [hint]

    def real(self, name, hint=None, lo=None, hi=None):
        import z3
        t = z3.Real(name)
        self._new(name, 'real', t, hint)
        if lo is not None:
            self.ctx.add(t >= self.core.realval(lo))
        if hi is not None:
            self.ctx.add(t <= self.core.realval(hi))
        return self.core.SR(t)

    def f64(self, name, hint=None):
        import z3
        t = z3.BitVec(name, 64)
        if hint is None:
            hint = [rnd64(name, k) for k in range(2)]
        self._new(name, 'f64', t, hint)
        return self.core.SF(t)

    def int(self, name, lo=None, hi=None, hint=None):
        import z3
        t = z3.Int(name)
        self._new(name, 'int', t, hint)
        if lo is not None:
            self.ctx.add(t >= lo)
        if hi is not None:
            self.ctx.add(t <= hi)
        return self.core.SI(t)

    def bool(self, name, hint=None):
        import z3
        t = z3.Bool(name)
        self._new(name, 'bool', t, hint)
        return self.core.SB(t)

    # logic
    def AND(self, *x):
        return self.core.AND(*x)

    def OR(self, *x):
        return self.core.OR(*x)

    def NOT(self, x):
        return self.core.NOT(x)

    def IMPL(self, a, b):
        return self.core.OR(self.core.NOT(a), b)

    def ite(self, c, a, b):
        from . import arr
        return arr.out(arr.ite_scalar(c, arr.py(a), arr.py(b)))

    def assume(self, c):
        c = self.core.truth(c)
        if c is True:
            return
        if c is False:
            raise self.core.Infeasible()
        self.ctx.add(c.t)

    def feasible(self):
        import z3
        return self.ctx.check() != z3.unsat

    # obligations
    def check(self, c, msg):
        import z3
        self.nchecks += 1
        st = self.ctx.stats
        st['obligations'] = st.get('obligations', 0) + 1
        c = self.core.truth(c)
        if c is True:
            st['discharged'] = st.get('discharged', 0) + 1
            st['trivial'] = st.get('trivial', 0) + 1
            return
        neg = z3.BoolVal(True) if c is False else z3.Not(c.t)
        r = self.ctx.check(neg)
        if r == z3.unsat:
            st['discharged'] = st.get('discharged', 0) + 1
            return
        if r == z3.unknown:
            if self.retry(neg):
                st['discharged'] = st.get('discharged', 0) + 1
                return
        model = self.ctx.solver.model() if r == z3.sat else None
        real = self.realise(neg)
        if real is not None:
            self.violations.append((msg, real, True))
        self.violations.append((msg, self.values(model) if model is not None else None, r == z3.sat))
        if c is False:
            raise StopPath()
        # later obligations are decided on the rest of the path
        try:
            self.ctx.add(c.t)
        except z3.Z3Exception:
            raise StopPath()
        if self.ctx.check() == z3.unsat:
            raise StopPath()

    def realise(self, neg):
        """Input values for a violation at which distances are known exactly.

        Distances are uninterpreted in the deciding query, so its model may assign them values no points have.
        This second query (it only proposes inputs to replay) keeps to pairs of points on one meridian, on the
        equator, or opposite to each other, where the distance is linear in the coordinates."""
        import z3
        dists = self.ctx.memo.get('dists', [])
        if not 1 <= len(dists) <= 24:
            return None
        extra = []
        for d, (x1, y1), (x2, y2), rad in dists:
            m = z3.Q(int(rad * math.pi / 180 * 10**6), 10**6)
            dx, dy = x1 - x2, y1 - y2
            dx, dy = z3.If(dx < 0, -dx, dx), z3.If(dy < 0, -dy, dy)
            extra.append(z3.Or(z3.And(x1 == x2, d == m * dy), z3.And(y1 == 0, y2 == 0, dx <= 180, d == m * dx),
                               z3.And(y1 == -y2, dx == 180, d == 180 * m)))
            extra += [y1 <= 90, y1 >= -90, y2 <= 90, y2 >= -90]
        if len(dists) <= 8:
            for k, p in enumerate(dists):
                for q in dists[:k]:
                    extra.append(z3.Or(p[0] == q[0], p[0] - q[0] >= 1, q[0] - p[0] >= 1))
        try:
            s = z3.Solver()
            s.set('timeout', 5000)
            s.add(*self.ctx.solver.assertions())
            s.add(neg, *extra)
            if s.check() == z3.sat:
                return self.values(s.model())
        except z3.Z3Exception:
            pass
        return None

    def retry(self, neg):
        """A second solver for queries z3 gives up on."""
        from . import second
        return second.unsat(self.ctx, neg)

    def values(self, model):
        import z3
        out = {}
        for name, kind, t in self.inputs:
            v = model.eval(t, model_completion=True)
            if kind == 'real':
                try:
                    out[name] = float(v.as_fraction())
                except Exception:
                    try:
                        out[name] = float(v.approx(20).as_fraction())
                    except Exception:
                        out[name] = 0.0
            elif kind == 'int':
                out[name] = v.as_long()
            elif kind == 'bool':
                out[name] = bool(z3.is_true(v))
            else:
                out[name] = 'x%016x' % v.as_long()
        return out

    def candidates(self, model_values):
        """Concrete inputs to replay: hinted variants, then the model's own values."""
        n = max([len(h) for h in self.hints.values()] or [0])
        out = []
        if model_values is not None:
            full = all(name in self.hints for name, _, _ in self.inputs)
            if not full or not n:
                out.append(dict(model_values))
        for k in range(n):
            v = dict(model_values or {}, _k=k)
            for name, kind, _ in self.inputs:
                if name in self.hints:
                    h = self.hints[name]
                    v[name] = jsonval(h[k % len(h)], kind)
                elif name not in v:
                    v[name] = {'real': 0.5, 'int': 1, 'bool': False, 'f64': 'x' + '0' * 16}[kind]
            out.append(v)
        if model_values is not None:
            out.append(dict(model_values))
        return out

    def _elems(self, a):
        from . import arr
        o = arr.toobj(a)
        return o

    def eqv(self, x, y, exact=False):
        """Equality of two elements as a condition (nan equals nan)."""
        import z3
        from . import fun
        core = self.core
        if core.same(x, y):
            return True
        SF = core.SF
        if isinstance(x, SF) or isinstance(y, SF):
            if x is None or y is None:
                return False
            if not isinstance(x, (SF, int, float)) or not isinstance(y, (SF, int, float)):
                return False
            return core.mkbool(z3.simplify(SF.of(x).t == SF.of(y).t))
        if core.special(x) or core.special(y):
            return False
        if isinstance(x, core.SR) or isinstance(y, core.SR):
            if not isinstance(x, (core.Sym, int, float)) or not isinstance(y, (core.Sym, int, float)):
                return False
            a, b = fun.som(core.real_term(x)), fun.som(core.real_term(y))
            if a.eq(b):
                return True
            return core.truth(core.SR(a) == core.SR(b))
        if isinstance(x, float) and isinstance(y, (int, float)) or isinstance(y, float) and isinstance(x, (int, float)):
            if exact:
                return x == y and math.copysign(1, x) == math.copysign(1, y)
            return abs(x - y) <= 1e-9 * max(abs(x), abs(y), 1e-12)
        r = x == y
        return core.truth(r)

    def eq(self, a, b, msg, rtol=1e-6, atol=0.0, exact=False, mod360=False):
        """Two scalars or arrays have the same shape and elements."""
        import numpy as np
        from . import arr, fun
        oa, ob = self._elems(a), self._elems(b)
        sa = oa.shape if isinstance(oa, np.ndarray) else ()
        sb = ob.shape if isinstance(ob, np.ndarray) else ()
        if sa != sb:
            return self.check(False, '%s: shape %r instead of %r' % (msg, sa, sb))
        conds = []
        it = np.ndindex(*sa) if sa else [()]
        for i in it:
            x = oa[i] if isinstance(oa, np.ndarray) else arr.py(oa)
            y = ob[i] if isinstance(ob, np.ndarray) else arr.py(ob)
            if mod360 and isinstance(x, self.core.Sym) and isinstance(y, self.core.Sym):
                x, y = (self.core.SR(fun.strip360(self.core.real_term(v))) for v in (x, y))
            conds.append(self.eqv(x, y, exact))
        bad = [c for c in conds if c is False]
        if bad:
            return self.check(False, msg)
        self.check(self.core.AND(*conds), msg)

    # files
    def filecells(self, p):
        c = self.ctx.vfs.get(p)
        if c is None:
            if not os.path.exists(p):
                return None
            with open(p, 'rb') as f:
                return self.stubs.bytecells(f.read())
        return c

    def filesize(self, p):
        c = self.filecells(p)
        return None if c is None else sum(x.size for x in c)

    def doubles(self, p):
        """The file's contents as big-endian doubles (independent of the code under check)."""
        import numpy as np
        c = self.filecells(p)
        if c is None:
            return None
        n = sum(x.size for x in c)
        vals = self.stubs.from_cells(self.stubs.cut(c, 0, n - n % 8), np.dtype('>f8'))
        return vals

    def filevalues(self, p, dt):
        """The file's contents as numbers of the given type."""
        import numpy as np
        c = self.filecells(p)
        if c is None:
            return None
        nd = np.dtype(dt)
        n = sum(x.size for x in c)
        return self.stubs.from_cells(self.stubs.cut(c, 0, n - n % nd.itemsize), nd)

    def putdoubles(self, p, vals, dt='>f8', tail=b''):
        import numpy as np
        from . import arr
        nd = np.dtype(dt)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        self.ctx.vfs.put(p, [self.stubs.Cell(arr.elem(v, nd), nd) for v in vals] + self.stubs.bytecells(tail))

    def putcsv(self, p, rows):
        import numpy as np
        from . import arr
        self.ctx.vfs.puttable(p, [[arr.py(v) for v in r] for r in rows])

    def puttext(self, p, s):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write(s)

    def open(self, p):
        return self.stubs.open_(p)

    # oracle
    @property
    def geod(self):
        return self.stubs.Geod(ellps='sphere')

    def ellipsoid(self, **kw):
        return self.stubs.Geod(**kw)

    def Regridder(self, *a, **k):
        return self.stubs.Regridder(*a, **k)

    def fn(self, name, *a):
        return self.fun1(name, *a)

    def math(self, name, *xs):
        from . import fun, arr
        xs = [arr.py(x) for x in xs]
        return arr.out(getattr(fun, name)(*xs))


class StopPath(BaseException):
    pass


def rnd64(name, k):
    """A fixed arbitrary double for an input: mostly ordinary values, some special."""
    import zlib
    h = zlib.crc32(('%s/%d' % (name, k)).encode())
    m = h % 11
    if k % 2 and m == 0:
        return 'x7ff8000000000123'
    if k % 2 and m == 1:
        return 'x8000000000000000'
    if k % 2 and m == 2:
        return 'xfff0000000000000'
    return ((h >> 4) % 100000 - 50000) / 64.0 + 0.01


def jsonval(v, kind):
    if kind == 'f64':
        if isinstance(v, str):
            return v
        return 'x%016x' % int.from_bytes(struct.pack('>d', float(v)), 'big')
    return v


# ---------------------------------------------------------------------------

class RealEnv(Base):
    def __init__(self, values, root, repo):
        import numpy
        self.np = numpy
        self.vals = values
        self.root = tempfile.mkdtemp(dir=root)
        self.repo = repo

    def close(self):
        self.unlisting()
        shutil.rmtree(self.root, ignore_errors=True)

    def mod(self, name):
        import importlib
        return importlib.import_module('simplegrid.' + name)

    def _quiet(self, fn, a, k):
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out):
                return fn(*a, **k)
        finally:
            self.printed = out.getvalue()

    def distinct(self, X, Y):
        """The assumption that grid points are different places."""
        import pyproj
        g = pyproj.Geod(ellps='sphere')
        p = list(zip(self.np.ravel(X).tolist(), self.np.ravel(Y).tolist()))
        for k, a in enumerate(p):
            for b in p[:k]:
                if not g.inv(*a, *b)[2] > 1e-3:
                    raise Reject()

    def _get(self, name, hint, default):
        """The value of an input; a hinted one if the encoding stopped before it was declared."""
        if name in self.vals:
            return self.vals[name]
        if isinstance(hint, (list, tuple)):
            return hint[self.vals.get('_k', 0) % len(hint)]
        return default if hint is None else hint

    def real(self, name, hint=None, lo=None, hi=None):
        v = float(self._get(name, hint, 0.5))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Reject()
        return v

    def f64(self, name, hint=None):
        v = jsonval(self._get(name, hint, rnd64(name, self.vals.get('_k', 0))), 'f64')
        return self.np.frombuffer(bytes.fromhex(v[1:]), '>f8')[0].astype('<f8')

    def int(self, name, lo=None, hi=None, hint=None):
        v = int(self._get(name, hint, 1))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Reject()
        return v

    def bool(self, name, hint=None):
        return bool(self._get(name, hint, False))

    def AND(self, *x):
        return all(bool(v) for v in x)

    def OR(self, *x):
        return any(bool(v) for v in x)

    def NOT(self, x):
        return not bool(x)

    def IMPL(self, a, b):
        return (not bool(a)) or bool(b)

    def ite(self, c, a, b):
        return a if bool(c) else b

    def assume(self, c):
        if not bool(c):
            raise Reject()

    known = ()

    def check(self, c, msg):
        if not bool(c):
            self.fail(msg)

    def fail(self, msg):
        if not any(msg.replace(' ', '_').startswith(k) for k in self.known):
            raise Violated(msg)

    def eq(self, a, b, msg, rtol=1e-6, atol=0.0, exact=False, mod360=False):
        np = self.np
        if a is None or b is None:
            return self.check(a is b, msg)
        if isinstance(a, str) or isinstance(b, str):
            return self.check(a == b, msg)
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return self.fail('%s: shape %r instead of %r' % (msg, a.shape, b.shape))
        if a.dtype.kind not in 'fiub' or b.dtype.kind not in 'fiub':
            return self.check(a.tolist() == b.tolist(), msg)
        if exact:
            x = np.ascontiguousarray(a.astype('>f8')).tobytes()
            y = np.ascontiguousarray(b.astype('>f8')).tobytes()
            return self.check(x == y, msg)
        a, b = a.astype(float), b.astype(float)
        if mod360:
            d = np.abs((a - b + 180.) % 360. - 180.)
            ok = d <= atol + rtol * np.maximum(np.abs(a), np.abs(b))
            ok |= np.isnan(a) & np.isnan(b)
        else:
            with np.errstate(all='ignore'):
                ok = np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))
            ok |= (np.isnan(a) & np.isnan(b)) | (a == b)
        if not ok.all():
            k = tuple(int(v) for v in np.argwhere(~ok)[0])
            self.fail('%s: element %r is %r instead of %r' % (msg, k, a[k].item(), b[k].item()))

    def filesize(self, p):
        return os.path.getsize(p) if os.path.exists(p) else None

    def doubles(self, p):
        if not os.path.exists(p):
            return None
        with open(p, 'rb') as f:
            b = f.read()
        return [v for v in self.np.frombuffer(b[:len(b) - len(b) % 8], '>f8').astype('<f8')]

    def filevalues(self, p, dt):
        if not os.path.exists(p):
            return None
        with open(p, 'rb') as f:
            b = f.read()
        nd = self.np.dtype(dt)
        return [v for v in self.np.frombuffer(b[:len(b) - len(b) % nd.itemsize], nd).astype('<f8')]

    def putdoubles(self, p, vals, dt='>f8', tail=b''):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        a = self.np.zeros(len(vals))
        for i, v in enumerate(vals):
            a[i] = v
        with open(p, 'wb') as f:
            f.write(a.astype(dt).tobytes() + tail)

    def putcsv(self, p, rows):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            for r in rows:
                f.write(','.join(repr(float(v)) for v in r) + '\n')

    def puttext(self, p, s):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write(s)

    def open(self, p):
        return open(p)

    @property
    def geod(self):
        import pyproj
        return pyproj.Geod(ellps='sphere')

    def ellipsoid(self, **kw):
        import pyproj
        return pyproj.Geod(**kw)

    def Regridder(self, *a, **k):
        import xesmf
        return xesmf.Regridder(*a, **k)

    def math(self, name, *xs):
        return getattr(self.np, name)(*xs)
