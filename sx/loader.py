"""Load the modules of /repo/simplegrid for symbolic execution.

The current source is re-read on every run and transformed syntactically:
operators that Python cannot overload (not, and, or, conditional expressions,
comparison chains) become calls, stores become guarded stores, and a
side-effect-free `if` is executed on both arms and merged into if-then-else
terms when its condition is symbolic.  Nothing else of the code is changed.
"""
import ast
import builtins
import os
import types

from . import core
from .core import MISSING, MergeFail, NoMerge, SB, Sym, truth, NOT

REPO = os.environ.get('SX_REPO', '/repo')
PKG = 'simplegrid'

MUT = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'sort', 'reverse', 'add',
       'discard', 'setdefault', 'popitem', 'write', 'writelines', 'tofile', 'close', 'seek', 'read',
       'readline', 'truncate', 'put', 'resize', 'appendleft', 'iternext', 'send', 'makedirs', 'mkdir'}


# ---------------------------------------------------------------------------
# run-time support (the name __sx in transformed code)

class RT:
    """Helpers called by transformed code."""

    @staticmethod
    def test(v):
        return truth(v)

    @staticmethod
    def issym(v):
        return isinstance(v, SB)

    @staticmethod
    def canmerge(site):
        return site not in core.CUR.nomerge

    @staticmethod
    def snap(env, names):
        return [env.get(n, MISSING) for n in names]

    @staticmethod
    def merge(c, site, a, b):
        try:
            return [core.ite(c, x, y) for x, y in zip(a, b)]
        except NoMerge:
            raise MergeFail(site)

    @staticmethod
    def not_(v):
        return NOT(v)

    @staticmethod
    def and_(a, fb, site):
        t = truth(a)
        if isinstance(t, bool):
            return fb() if t else a
        if site in core.CUR.nomerge:
            return fb() if bool(t) else a
        with Guard(t.t, site):
            b = fb()
        if _boolish(a) and _boolish(b):
            return core.AND(t, b)
        try:
            return core.ite(t, b, a)
        except NoMerge:
            raise MergeFail(site)

    @staticmethod
    def or_(a, fb, site):
        t = truth(a)
        if isinstance(t, bool):
            return a if t else fb()
        if site in core.CUR.nomerge:
            return a if bool(t) else fb()
        with Guard(core.bool_term(NOT(t)), site):
            b = fb()
        if _boolish(a) and _boolish(b):
            return core.OR(t, b)
        try:
            return core.ite(t, a, b)
        except NoMerge:
            raise MergeFail(site)

    @staticmethod
    def ifexp(c, fa, fb, site):
        t = truth(c)
        if isinstance(t, bool):
            return fa() if t else fb()
        if site in core.CUR.nomerge:
            return fa() if bool(t) else fb()
        with Guard(t.t, site):
            a = fa()
        with Guard(core.bool_term(NOT(t)), site):
            b = fb()
        try:
            return core.ite(t, a, b)
        except NoMerge:
            raise MergeFail(site)

    @staticmethod
    def setitem(obj, key, val):
        from . import arr
        if isinstance(obj, arr.SymArray) or core.CUR.own(obj):
            if isinstance(obj, arr.np.ndarray) and not isinstance(obj, arr.SymArray):
                val = arr.base(val) if isinstance(val, arr.SymArray) else val
                if isinstance(val, Sym):
                    raise core.Unsupported('symbolic value stored in a plain array')
            obj[key] = val
            return
        site = core.CUR.guards[-1][1]
        try:
            old = obj[key]
        except Exception:
            raise MergeFail(site)
        if not isinstance(obj, (dict, list)):
            raise MergeFail(site)
        try:
            obj[key] = core.ite(core.CUR.guard(), val, old, True)
        except NoMerge:
            raise MergeFail(site)

    @staticmethod
    def setattr_(obj, name, val):
        if core.CUR.guards:
            raise MergeFail(core.CUR.guards[-1][1])
        setattr(obj, name, val)

    @staticmethod
    def mut(obj, name):
        from . import arr
        if core.CUR.guards and not isinstance(obj, (str, types.ModuleType)) and not (
                isinstance(obj, arr.SymArray) and name in ('fill',)) and not core.CUR.own(obj):
            raise MergeFail(core.CUR.guards[-1][1])
        return getattr(obj, name)

    @staticmethod
    def joiner(sep):
        if isinstance(sep, (bytes, bytearray)):
            from . import stubs
            return lambda parts: stubs.join_bytes(sep, parts)
        return sep.join

    @staticmethod
    def aug(op, a, b):
        from . import arr
        if isinstance(a, arr.SymArray):
            r = OPS[op](a, b)
            a[...] = r
            return a
        if isinstance(a, (list, dict, set)) and not core.CUR.own(a):
            raise MergeFail(core.CUR.guards[-1][1])
        return IOPS[op](a, b)

    @staticmethod
    def mod(a, b):
        """a % b, where a may be a format string for symbolic numbers."""
        if not isinstance(a, str):
            return a % b
        vals = b if isinstance(b, tuple) else (b,)
        from . import arr
        vals = tuple(v.item() if isinstance(v, arr.SymArray) and v.ndim == 0 else v for v in vals)
        if not any(isinstance(v, Sym) for v in (b.values() if isinstance(b, dict) else vals)):
            return a % b
        todo = list(vals)

        def one(m):
            key, flags, width, prec, kind = m.groups()
            if kind == '%':
                return '%'
            if width == '*' or prec == '.*':
                raise core.Unsupported('%* of symbolic numbers')
            if key is not None:
                v = b[key[1:-1]]
            elif not todo:
                raise TypeError('not enough arguments for format string')
            else:
                v = todo.pop(0)
            if not isinstance(v, Sym) or kind in 'sra':
                return ('%' + flags + (width or '') + (prec or '') + kind) % (v,)
            if kind in 'diu':
                v, kind = core.SI(core.int_term(v)) if isinstance(v, (core.SI, SB)) else v.__trunc__(), 'd'
            return format(v, ('<' if '-' in flags else '>') + (width or '') + (prec or '') + kind)
        r = CONV.sub(one, a)
        if todo and not isinstance(b, dict):
            raise TypeError('not all arguments converted during string formatting')
        return r

    @staticmethod
    def push(c, site):
        core.CUR.enter(c.t if isinstance(c, SB) else core.bool_term(c), site)

    @staticmethod
    def pop():
        core.CUR.leave()

    @staticmethod
    def born(x):
        if core.CUR.guards:
            core.CUR.born[id(x)] = (x, core.CUR.gids[-1])
        return x

    @staticmethod
    def enter(mod, name):
        core.CUR.memo.setdefault('functions', set()).add(mod.split('.')[-1] + '.' + name)

    @staticmethod
    def fail(site):
        raise MergeFail(site)


def _boolish(x):
    return isinstance(x, (bool, SB)) or type(x).__name__ in ('bool_', 'bool')


class Guard:
    def __init__(self, t, site):
        self.t, self.site = t, site

    def __enter__(self):
        core.CUR.enter(self.t, self.site)

    def __exit__(self, et, ev, tb):
        core.CUR.leave()
        if et is not None and issubclass(et, Exception):
            raise MergeFail(self.site)
        return False


import operator  # noqa: E402
import re  # noqa: E402
CONV = re.compile(r'%(\([^)]*\))?([-+ #0]*)(\*|\d+)?(\.(?:\*|\d+))?[hlL]?([a-zA-Z%])')
OPS = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'Div': operator.truediv,
       'FloorDiv': operator.floordiv, 'Mod': operator.mod, 'Pow': operator.pow,
       'BitAnd': operator.and_, 'BitOr': operator.or_, 'BitXor': operator.xor,
       'LShift': operator.lshift, 'RShift': operator.rshift, 'MatMult': operator.matmul}
IOPS = {'Add': operator.iadd, 'Sub': operator.isub, 'Mult': operator.imul, 'Div': operator.itruediv,
        'FloorDiv': operator.ifloordiv, 'Mod': operator.imod, 'Pow': operator.ipow,
        'BitAnd': operator.iand, 'BitOr': operator.ior, 'BitXor': operator.ixor,
        'LShift': operator.ilshift, 'RShift': operator.irshift, 'MatMult': operator.imatmul}


# ---------------------------------------------------------------------------
# transformation

def _names_assigned(stmts):
    """Names bound by simple statements, or None when a statement is not simple."""
    names = []

    def target(t):
        if isinstance(t, ast.Name):
            if t.id not in names:
                names.append(t.id)
            return True
        if isinstance(t, (ast.Tuple, ast.List)):
            return all(target(e) for e in t.elts)
        if isinstance(t, ast.Starred):
            return target(t.value)
        if isinstance(t, ast.Subscript):
            return True
        return False

    def ok(s):
        for n in ast.walk(s):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)):
                return False
        if isinstance(s, ast.Assign):
            return all(target(t) for t in s.targets)
        if isinstance(s, ast.AugAssign):
            return target(s.target)
        if isinstance(s, ast.AnnAssign):
            return s.value is not None and target(s.target)
        if isinstance(s, (ast.Pass, ast.Expr)):
            return True
        if isinstance(s, ast.If):
            return all(ok(x) for x in s.body) and all(ok(x) for x in s.orelse)
        if isinstance(s, ast.For):
            if s.orelse or not target(s.target):
                return False
            for n in ast.walk(s):
                if isinstance(n, (ast.Break, ast.Continue, ast.Return, ast.Raise)):
                    return False
            return all(ok(x) for x in s.body)
        return False

    for s in stmts:
        if not ok(s):
            return None
    return names


def _name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def _rt(attr):
    return ast.Attribute(value=_name('__sx'), attr=attr, ctx=ast.Load())


def _call(attr, *args):
    return ast.Call(func=_rt(attr), args=list(args), keywords=[])


def _lam(e):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[],
                                         defaults=[]), body=e)


def _has(e, *types_):
    return any(isinstance(n, types_) for n in ast.walk(e))


class Transform(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.n = 0
        self.fn = ['<module>']
        self.classdepth = 0
        self.ctr = {}

    def site(self):
        self.n += 1
        return ast.Constant(value='%s:%s#%d' % (self.mod, self.fn[-1], self.n))

    def tmp(self, p):
        self.n += 1
        return '__%s%d' % (p, self.n)

    def visit_FunctionDef(self, node):
        self.fn.append(node.name)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        doc = node.body[:1] if ast.get_docstring(node, clean=False) is not None else []
        mark = ast.Expr(ast.Call(func=_rt('enter'), args=[_name('__name__'),
                                                          ast.Constant(value='.'.join(self.fn[1:]))], keywords=[]))
        node.body = doc + [mark] + self.block(node.body[len(doc):])
        node.returns = None
        for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs:
            a.annotation = None
        self.fn.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is None:
            return node
        return self.visit(ast.copy_location(ast.Assign(targets=[node.target], value=node.value), node))

    # statement lists: `if c: ...; continue` + rest  ==>  if c: ... else: rest
    def block(self, stmts, loop=False):
        if loop:
            stmts = self.decontinue(stmts)
        outl = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                outl.extend(r)
            elif r is not None:
                outl.append(r)
        return outl

    def decontinue(self, stmts):
        for k, s in enumerate(stmts):
            if isinstance(s, ast.If) and s.body and isinstance(s.body[-1], ast.Continue) \
                    and not s.orelse and k + 1 < len(stmts):
                if any(isinstance(n, (ast.Continue, ast.Break)) for b in s.body[:-1] for n in ast.walk(b)):
                    break
                rest = self.decontinue(stmts[k + 1:])
                new = ast.copy_location(ast.If(test=s.test, body=s.body[:-1] or [ast.Pass()],
                                               orelse=rest), s)
                return stmts[:k] + [new]
            if isinstance(s, ast.Continue):
                return stmts[:k] or [ast.Pass()]
        return stmts

    def visit_For(self, node):
        node.iter = self.visit(node.iter)
        pre = []
        if isinstance(node.target, ast.Subscript):
            node.target = self.visit(node.target)
        node.body = self.block(node.body, True) or [ast.Pass()]
        node.orelse = self.block(node.orelse)
        return pre + [node] if pre else node

    def visit_While(self, node):
        node.test = self.visit(node.test)
        node.body = self.block(node.body, True) or [ast.Pass()]
        node.orelse = self.block(node.orelse)
        return node

    def visit_With(self, node):
        for it in node.items:
            it.context_expr = self.visit(it.context_expr)
        node.body = self.block(node.body)
        return node

    def visit_Try(self, node):
        node.body = self.block(node.body)
        for h in node.handlers:
            if h.type is None or (isinstance(h.type, ast.Name) and h.type.id == 'BaseException'):
                h.type = _name('Exception')
            else:
                h.type = self.visit(h.type)
            h.body = self.block(h.body)
        node.orelse = self.block(node.orelse)
        node.finalbody = self.block(node.finalbody)
        return node

    def visit_If(self, node):
        names = _names_assigned(node.body + node.orelse)
        if names is not None and (
                any(isinstance(s, ast.Global) for s in ast.walk(node))):
            names = None
        test = self.visit(node.test)
        if names is None:
            node.test = test
            node.body = self.block(node.body)
            node.orelse = self.block(node.orelse)
            return node
        import copy
        body = self.block(copy.deepcopy(node.body))
        orelse = self.block(copy.deepcopy(node.orelse))
        body2 = copy.deepcopy(body)
        orelse2 = copy.deepcopy(orelse)
        # second copies must share sites with the first: they are the same source
        c, s0, s1 = self.tmp('c'), self.tmp('s'), self.tmp('t')
        site = self.site()
        nm = ast.Tuple(elts=[ast.Constant(value=n) for n in names], ctx=ast.Load())
        env = ast.Call(func=_name('__sxlocals'), args=[], keywords=[])
        tgt = [ast.Name(id=n, ctx=ast.Store()) for n in names]

        def assign(n, v):
            return ast.Assign(targets=[_name(n, ast.Store())], value=v)

        def unpack(v):
            if not names:
                return []
            return [ast.Assign(targets=[ast.Tuple(elts=[ast.Name(id=n, ctx=ast.Store()) for n in names],
                                                  ctx=ast.Store())], value=v)]

        def guarded(cond, stmts):
            return [ast.Expr(_call('push', cond, site)),
                    ast.Try(body=stmts or [ast.Pass()],
                            handlers=[ast.ExceptHandler(type=_name('Exception'), name=None,
                                                        body=[ast.Expr(_call('fail', site))])],
                            orelse=[], finalbody=[ast.Expr(_call('pop'))])]

        merged = [assign(s0, _call('snap', env, nm))]
        merged += guarded(_name(c), body2)
        merged += [assign(s1, _call('snap', env, nm))]
        merged += unpack(_name(s0))
        merged += guarded(_call('not_', _name(c)), orelse2)
        merged += unpack(_call('merge', _name(c), site, _name(s1), _call('snap', env, nm)))
        out = [assign(c, _call('test', test)),
               ast.If(test=ast.BoolOp(op=ast.And(), values=[_call('issym', _name(c)),
                                                            _call('canmerge', site)]),
                      body=merged,
                      orelse=[ast.If(test=_name(c), body=body or [ast.Pass()], orelse=orelse)])]
        for s in out:
            ast.copy_location(s, node)
        return out

    def visit_ListComp(self, node):
        return self.generic_visit(node)

    def visit_BoolOp(self, node):
        if _has(node, ast.NamedExpr, ast.Yield, ast.Await):
            return self.generic_visit(node)
        vals = [self.visit(v) for v in node.values]
        f = 'and_' if isinstance(node.op, ast.And) else 'or_'
        r = vals[-1]
        for v in reversed(vals[:-1]):
            r = _call(f, v, _lam(r), self.site())
        return ast.copy_location(r, node)

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(_call('not_', node.operand), node)
        return node

    def visit_IfExp(self, node):
        if _has(node, ast.NamedExpr, ast.Yield, ast.Await):
            return self.generic_visit(node)
        self.generic_visit(node)
        return ast.copy_location(_call('ifexp', node.test, _lam(node.body), _lam(node.orelse),
                                       self.site()), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            return node
        # a < b < c: operands are pure in this code base; evaluated once via a lambda chain
        vals = [node.left] + node.comparators
        if any(not isinstance(v, (ast.Name, ast.Constant, ast.Attribute)) for v in vals[1:-1]):
            if len(node.ops) == 2:
                p = '__m%d' % self.n
                self.n += 1
                lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=p)], kwonlyargs=[],
                                                    kw_defaults=[], defaults=[]),
                                 body=_call('and_', ast.Compare(left=vals[0], ops=[node.ops[0]],
                                                                comparators=[_name(p)]),
                                            _lam(ast.Compare(left=_name(p), ops=[node.ops[1]],
                                                             comparators=[vals[2]])), self.site()))
                return ast.copy_location(ast.Call(func=lam, args=[vals[1]], keywords=[]), node)
            return node
        r = None
        for k in reversed(range(len(node.ops))):
            c = ast.Compare(left=vals[k], ops=[node.ops[k]], comparators=[vals[k + 1]])
            r = c if r is None else _call('and_', c, _lam(r), self.site())
        return ast.copy_location(r, node)

    def _index(self, s):
        if isinstance(s, ast.Slice):
            none = ast.Constant(value=None)
            return ast.Call(func=_name('slice'), args=[s.lower or none, s.upper or none, s.step or none],
                            keywords=[])
        if isinstance(s, ast.Tuple):
            return ast.Tuple(elts=[self._index(e) for e in s.elts], ctx=ast.Load())
        return s

    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        if not _has_store_sub(node.targets):
            node.targets = [self.visit(t) for t in node.targets]
            return node
        v = self.tmp('v')
        out = [ast.Assign(targets=[_name(v, ast.Store())], value=node.value)]
        for t in node.targets:
            out += self.store(t, _name(v))
        for s in out:
            ast.copy_location(s, node)
        return out

    def store(self, t, val):
        if isinstance(t, ast.Subscript):
            obj = self.visit(t.value)
            if isinstance(obj, ast.Name):
                obj = _name(obj.id)
            return [ast.Expr(_call('setitem', obj, self._index(self.visit(t.slice)), val))]
        if isinstance(t, ast.Attribute):
            return [ast.Expr(_call('setattr_', self.visit(t.value), ast.Constant(value=t.attr), val))]
        if isinstance(t, (ast.Tuple, ast.List)):
            parts = [self.tmp('u') for _ in t.elts]
            if any(isinstance(e, ast.Starred) for e in t.elts):
                return [ast.Assign(targets=[t], value=val)]
            out = [ast.Assign(targets=[ast.Tuple(elts=[_name(p, ast.Store()) for p in parts],
                                                 ctx=ast.Store())], value=val)]
            for p, e in zip(parts, t.elts):
                out += self.store(e, _name(p))
            return out
        return [ast.Assign(targets=[t], value=val)]

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(_call('mod', node.left, node.right), node)
        return node

    def visit_AugAssign(self, node):
        op = ast.Constant(value=type(node.op).__name__)
        val = self.visit(node.value)
        t = node.target
        if isinstance(t, ast.Name):
            r = [ast.Assign(targets=[_name(t.id, ast.Store())],
                            value=_call('aug', op, _name(t.id), val))]
        elif isinstance(t, ast.Subscript):
            o, k = self.tmp('o'), self.tmp('k')
            obj = self.visit(t.value)
            r = [ast.Assign(targets=[_name(o, ast.Store())], value=obj),
                 ast.Assign(targets=[_name(k, ast.Store())], value=self._index(self.visit(t.slice))),
                 ast.Expr(_call('setitem', _name(o), _name(k),
                                _call('aug', op, ast.Subscript(value=_name(o), slice=_name(k),
                                                               ctx=ast.Load()), val)))]
        else:
            node.value = val
            return node
        for s in r:
            ast.copy_location(s, node)
        return r

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in MUT:
            node.func = ast.copy_location(_call('mut', f.value, ast.Constant(value=f.attr)), f)
        elif isinstance(f, ast.Attribute) and f.attr == 'join':
            node.func = ast.copy_location(_call('joiner', f.value), f)
        elif isinstance(f, ast.Name) and f.id == 'locals':
            node.func = _name('__sxlocals')
        elif isinstance(f, ast.Name) and f.id == 'next':
            node.func = _name('__sxnext')
        elif isinstance(f, ast.Name) and f.id in ('list', 'dict', 'set', 'sorted'):
            return ast.copy_location(_call('born', node), node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        return ast.copy_location(_call('born', node), node)

    visit_Set = visit_DictComp = visit_SetComp = visit_Dict

    def visit_List(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            return node
        return ast.copy_location(_call('born', node), node)

    def generic_block(self, node):
        return node

    def visit_ClassDef(self, node):
        # methods are transformed; class-level statements are left alone
        for i, s in enumerate(node.body):
            if isinstance(s, ast.FunctionDef):
                node.body[i] = self.visit(s)
        return node

    def visit_Module(self, node):
        node.body = self.block(node.body)
        return node


def _has_store_sub(targets):
    for t in targets:
        for n in ast.walk(t):
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                return True
    return False


_cache = {}


def compile_module(name):
    path = os.path.join(REPO, PKG, *name.split('.')) + '.py' if name else os.path.join(REPO, PKG, '__init__.py')
    with open(path, encoding='utf-8') as f:
        src = f.read()
    key = (path, src)
    code = _cache.get(key)
    if code is None:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(src, path)
            t = Transform(name or '__init__')
            tree = t.visit(tree)
            ast.fix_missing_locations(tree)
            # locals() is needed by name in merged regions
            for n in ast.walk(tree):
                if isinstance(n, ast.Name) and n.id == '__sxlocals':
                    n.id = 'locals'
                elif isinstance(n, ast.Name) and n.id == '__sxnext':
                    n.id = 'next'
            code = compile(tree, path, 'exec')
        _cache[key] = code
    return code, path


class Package:
    """One symbolic instance of the simplegrid package."""

    def __init__(self):
        from . import stubs
        self.shims = stubs.shims()
        self.mods = {}
        self.builtins = dict(vars(builtins))
        self.builtins.update(stubs.builtin_shims())
        self.builtins['__import__'] = self.import_
        self.used = set()
        self.pkg = None
        self.package()

    def package(self):
        if self.pkg is None:
            self.pkg = self._new('', PKG)
            self.pkg.__path__ = [os.path.join(REPO, PKG)]
            self._exec(self.pkg, '')
        return self.pkg

    def _new(self, name, full):
        m = types.ModuleType(full)
        m.__dict__['__builtins__'] = self.builtins
        m.__dict__['__sx'] = RT
        m.__package__ = PKG
        return m

    def _exec(self, m, name):
        code, path = compile_module(name)
        m.__file__ = path
        exec(code, m.__dict__)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path = os.path.join(REPO, PKG, name + '.py')
        if not os.path.exists(path):
            if os.path.isdir(os.path.join(REPO, PKG, name)):
                raise core.Unsupported('subpackage ' + name)
            raise ModuleNotFoundError('No module named %r' % (PKG + '.' + name))
        m = self._new(name, PKG + '.' + name)
        self.mods[name] = m
        try:
            self._exec(m, name)
        except BaseException:
            del self.mods[name]
            raise
        setattr(self.pkg, name, m)
        return m

    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0 or name == PKG or name.startswith(PKG + '.'):
            sub = name if level > 0 else name[len(PKG) + 1:]
            if sub:
                m = self.load(sub.split('.')[0])
                if level == 0 and not fromlist:
                    return self.pkg
                return m
            for f in fromlist or ():
                if f != '*' and not hasattr(self.pkg, f):
                    self.load(f)
            return self.pkg
        root = name.split('.')[0]
        if root in self.shims:
            top = self.shims[root]
            if fromlist:
                for part in name.split('.')[1:]:
                    top = getattr(top, part)
            return top
        return builtins.__import__(name, globals, locals, fromlist, level)
