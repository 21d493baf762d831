"""Environment of the code under check: numpy, pyproj, xesmf, files, builtins.

numpy structure operations are real numpy's; pyproj and xesmf are stubs given by
the contracts in ASSUMED; file contents are sequences of typed elements.
"""
import builtins
import io
import math
import os
import pathlib
import shutil
import struct
import sys
import tempfile
import types
from fractions import Fraction

import numpy as np
import z3

from . import core, fun, arr
from .core import SR, SI, SB, SF, Sym, Unsupported, MergeFail, truth, AND, OR, NOT
from .arr import SymArray, mkarray, wrap, base, F8, I8, B1, py, toobj

ASSUMED = [
    'pyproj.Geod.inv: distance is a function of both points, symmetric, 360-periodic in '
    'longitude, >= 0, 0 from a point to itself, > 0 between distinct grid points',
    'pyproj.Geod.npts: n points at fractions k/(n+1) of the great-circle arc, a function of the '
    'end points, direction-symmetric, longitude in [-180,180], sub-arcs compose on the sphere',
    'xesmf.Regridder: each output value is a function of its target point, the source points and '
    'the source values; with reuse_weights an existing weight file is used as it is',
    'numpy arithmetic on doubles in the grid computations is exact real arithmetic '
    '(file input and output is bit-precise)',
]


# ---------------------------------------------------------------------------
# element types

class _Meta(type):
    def __call__(cls, *a, **k):
        if len(a) == 1 and not k:
            return cls._conv(a[0])
        if not a:
            return cls._real()
        return cls._real(*a, **k)

    def __instancecheck__(cls, o):
        return isinstance(o, cls._real) or isinstance(o, cls._syms)

    def __subclasscheck__(cls, o):
        return issubclass(getattr(o, '_real', o), cls._real)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __getattr__(cls, n):
        return getattr(cls._real, n)


def _tofloat(x):
    if isinstance(x, (SR, SF)):
        return x
    if isinstance(x, (SI, SB)):
        return SR(core.real_term(x))
    if isinstance(x, SymArray):
        return _tofloat(x.item())
    if isinstance(x, str):
        v = core.CUR.tokens.get(x.strip()) if core.CUR is not None else None
        if v is not None:
            return _tofloat(v.read() if isinstance(v, core.Written) else v)
    return float(x)


def _toint(x, *a):
    if isinstance(x, SI):
        return x
    if isinstance(x, SB):
        return core.mkint(core.int_term(x))
    if isinstance(x, SR):
        return core.mkint(z3.If(x.t >= 0, z3.ToInt(x.t), -z3.ToInt(-x.t)))
    if isinstance(x, SymArray):
        return _toint(x.item())
    if isinstance(x, str):
        v = core.CUR.tokens.get(x.strip()) if core.CUR is not None else None
        if v is not None:
            if not isinstance(v, (SI, SB)):
                raise ValueError('invalid literal for int() with base 10')
            return _toint(v)
    return int(x, *a)


def _mk(name, real, conv, syms):
    return _Meta(name, (object,), {'_real': real, '_conv': staticmethod(conv), '_syms': syms,
                                   'dtype': np.dtype(real) if real in (float, int, bool) or
                                   issubclass(real, np.generic) else None})


symfloat = _mk('float', float, _tofloat, (SR, SF))
symint = _mk('int', int, _toint, (SI,))
symbool = _mk('bool', bool, truth, (SB,))


def _f64(x):
    if isinstance(x, (SymArray, np.ndarray, list, tuple)):
        return mkarray(x, F8)
    return arr.out(_tofloat(x))


def _f32(x):
    return arr.f4round(_tofloat(x))


def _i64(x):
    if isinstance(x, (SymArray, np.ndarray, list, tuple)):
        return mkarray(x, I8)
    return _toint(x)


symf64 = _mk('float64', np.float64, _f64, (SR, SF))
symf32 = _mk('float32', np.float32, _f32, ())
symi64 = _mk('int64', np.int64, _i64, (SI,))
symi32 = _mk('int32', np.int32, _i64, ())
symb1 = _mk('bool_', np.bool_, truth, (SB,))


def as_dtype(d):
    if d is None:
        return F8
    if isinstance(d, _Meta):
        return np.dtype(d._real)
    return np.dtype(d)


# ---------------------------------------------------------------------------
# files

def swapped(v):
    """The double whose bytes are those of v in reverse order."""
    if isinstance(v, SF):
        b = [z3.Extract(8 * i + 7, 8 * i, v.t) for i in range(8)]
        return SF(z3.simplify(z3.Concat(*b)))
    if isinstance(v, SR):
        if fun._isapp(v.t, 'bswap'):
            return SR(v.t.arg(0))
        return SR(fun.keep(fun.uf('bswap')(v.t)))
    return struct.unpack('<d', struct.pack('>d', float(v)))[0]


class Cell:
    __slots__ = ('v', 'nd')

    def __init__(self, v, nd):
        self.v, self.nd = v, nd

    @property
    def size(self):
        return self.nd.itemsize


BYTE = np.dtype('u1')


def _big(nd):
    bo = nd.byteorder
    return bo == '>' or (bo == '=' and sys.byteorder == 'big')


def cells(a, order='C'):
    o = base(a) if isinstance(a, SymArray) else a
    if o.dtype.kind != 'O':
        return [Cell(v, o.dtype) for v in o.astype(object).ravel(order=order)]
    return [Cell(v, a._nd) for v in o.ravel(order=order)]


def bytecells(b):
    return [Cell(x, BYTE) for x in b]


def cell_bytes(c):
    """List of 8-bit values (ints or z3 bit-vectors) of a cell in file order."""
    nd = c.nd
    if nd == BYTE:
        return [c.v]
    if isinstance(c.v, SF):
        if nd.itemsize == 8:
            b = [z3.simplify(z3.Extract(8 * i + 7, 8 * i, c.v.t)) for i in range(8)]
        else:
            t = z3.fpToIEEEBV(z3.fpToFP(z3.RNE(), c.v.fp(), z3.Float32()))
            b = [z3.simplify(z3.Extract(8 * i + 7, 8 * i, t)) for i in range(4)]
        return b[::-1] if _big(nd) else b
    if isinstance(c.v, Sym):
        raise Unsupported('bytes of an abstract real')
    return list(np.array(c.v, dtype=nd).tobytes())


def _aligned(cs, size):
    """The cells in runs that end where a value of that many bytes does."""
    out, run, n = [], [], 0
    for c in cs:
        run.append(c)
        n += c.size
        if n % size == 0:
            out.append(run)
            run, n = [], 0
    return out + ([run] if run else [])


def from_cells(cs, nd):
    """Values of type nd stored in consecutive cells."""
    if nd.kind == 'V':
        raise Unsupported('structured file type')
    out = []
    i, n = 0, len(cs)
    size = nd.itemsize
    if all(c.nd.itemsize == size and c.nd.kind == nd.kind for c in cs):
        for c in cs:
            if size == 1 or _big(c.nd) == _big(nd):
                v = c.v
            elif size == 8 and nd.kind == 'f':
                v = swapped(c.v)
            elif isinstance(c.v, Sym):
                v = _garbage()
            else:
                v = np.frombuffer(np.array(c.v, c.nd).tobytes(), nd)[0].item()
            out.append(v)
        return out
    groups = _aligned(cs, size)
    if len(groups) > 1:
        return [v for g in groups for v in from_cells(g, nd)]
    try:
        bs = [b for c in cs for b in cell_bytes(c)]
    except Unsupported:
        total = sum(c.size for c in cs)
        return [_garbage() for _ in range(total // size)]
    for k in range(len(bs) // size):
        ch = bs[k * size:(k + 1) * size]
        if all(isinstance(b, int) for b in ch):
            out.append(np.frombuffer(bytes(ch), nd)[0].item())
            continue
        if nd.kind != 'f':
            raise Unsupported('symbolic bytes read as %s' % nd)
        ch = [z3.BitVecVal(b, 8) if isinstance(b, int) else b for b in ch]
        if not _big(nd):
            ch = ch[::-1]
        t = z3.simplify(z3.Concat(*ch)) if len(ch) > 1 else ch[0]
        if size == 8:
            out.append(SF(t))
        else:
            f = z3.fpToFP(z3.RNE(), z3.fpBVToFP(t, z3.Float32()), z3.Float64())
            out.append(SF.from_fp(z3.simplify(f)))
    return out


def _garbage():
    return SR(z3.FreshReal('misread'))


class VBytes:
    def __init__(self, cs):
        self.cells = list(cs)

    def __len__(self):
        return sum(c.size for c in self.cells)

    def __add__(self, o):
        return VBytes(self.cells + (o.cells if isinstance(o, VBytes) else bytecells(o)))

    def __radd__(self, o):
        return VBytes(bytecells(o) + self.cells)

    def __getitem__(self, i):
        if isinstance(i, slice):
            start, stop, step = i.indices(len(self))
            if step == 1:
                return VBytes(cut(self.cells, start, stop))
        raise Unsupported('indexing symbolic bytes')

    def ljust(self, n, fill=b'\0'):
        k = n - len(self)
        return self + fill * k if k > 0 else self


class VByteArray(VBytes):
    def __init__(self, data=b''):
        if isinstance(data, int):
            data = bytes(data)
        super().__init__(data.cells if isinstance(data, VBytes) else bytecells(bytes(data)))

    def extend(self, o):
        _noguard()
        self.cells += VByteArray(o).cells

    def __iadd__(self, o):
        self.extend(o)
        return self

    def append(self, v):
        self.extend(bytes([v]))


def join_bytes(sep, parts):
    parts = list(parts)
    if not any(isinstance(p, VBytes) for p in parts):
        return sep.join(parts)
    out = []
    for k, p in enumerate(parts):
        out += (bytecells(sep) if k else []) + (p.cells if isinstance(p, VBytes) else bytecells(p))
    return VBytes(out)


class VBytesIO:
    """io.BytesIO, for writing from start to end."""

    def __init__(self, data=b''):
        self.buf, self.pos = VByteArray(data), 0

    def write(self, data):
        _noguard()
        cs = cells(data) if isinstance(data, SymArray) else VByteArray(data).cells
        n = sum(c.size for c in cs)
        if self.pos == len(self.buf):
            self.buf.cells += list(cs)
        else:
            old = self.buf.cells
            self.buf.cells = cut(old, 0, self.pos) + list(cs) + cut(old, self.pos + n, len(self.buf))
        self.pos += n
        return n

    def read(self, n=-1):
        end = len(self.buf) if n is None or n < 0 else min(len(self.buf), self.pos + n)
        r = VBytes(cut(self.buf.cells, self.pos, end))
        self.pos = end
        return r

    def seek(self, off, whence=0):
        self.pos = off + (0, self.pos, len(self.buf))[whence]
        return self.pos

    def tell(self):
        return self.pos

    def getvalue(self):
        return VBytes(self.buf.cells)

    getbuffer = getvalue

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class IoShim(types.ModuleType):
    def __init__(self):
        super().__init__('io')
        self.BytesIO = VBytesIO
        self.open = open_

    def __getattr__(self, n):
        return getattr(io, n)


def cut(cs, start, stop):
    """Cells covering bytes [start, stop)."""
    out, pos = [], 0
    for c in cs:
        a, b = pos, pos + c.size
        if a >= start and b <= stop:
            out.append(c)
        elif b > start and a < stop:
            bs = cell_bytes(c)
            for k in range(c.size):
                if start <= a + k < stop:
                    out.append(Cell(bs[k], BYTE))
        pos = b
    return out


def vfs():
    return core.CUR.vfs


class VFS:
    """Contents of data files, by real path; a placeholder of the right size is
    kept on disk (in a scratch directory) so that directory operations are real."""

    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.files = {}
        self.tables = {}

    def key(self, p):
        return os.path.realpath(os.fspath(p))

    def get(self, p):
        return self.files.get(self.key(p))

    def check(self, p):
        k = self.key(p)
        if not k.startswith(self.root + os.sep):
            raise Unsupported('write outside the scratch directory: %s' % p)
        return k

    def put(self, p, cs):
        k = self.check(p)
        self.files[k] = list(cs)
        self.tables.pop(k, None)
        self.place(k)

    def place(self, k):
        with open(k, 'wb') as f:
            f.truncate(sum(c.size for c in self.files[k]))

    def puttable(self, p, rows):
        k = self.check(p)
        self.tables[k] = rows
        with open(k, 'wb') as f:
            f.write(b'table')


    # operations on whole files: done on the placeholder and on the record

    def known(self, p):
        k = self.key(p)
        return k in self.files or k in self.tables

    def move(self, src, dst, real):
        _noguard()
        src, dst = os.fspath(src), os.fspath(dst)
        link = os.path.islink(src)
        a, b = self.check(src), self.check(os.path.dirname(os.path.abspath(dst)) + os.sep + 'x')
        target = os.path.join(os.path.dirname(b), os.path.basename(dst))
        r = real(src, dst)
        if real is shutil.move and r is not None and os.fspath(r) != dst:
            target = os.path.join(os.path.realpath(os.path.dirname(r)), os.path.basename(r))
        for d in (self.files, self.tables):
            d.pop(target, None)
            if not link:
                for k in [k for k in d if k == a or k.startswith(a + os.sep)]:
                    d[target + k[len(a):]] = d.pop(k)
        return r

    def copy(self, src, dst, real, **kw):
        _noguard()
        a = self.key(src)
        r = real(src, dst, **kw)
        b = self.check(r if r is not None else dst)
        for d in (self.files, self.tables):
            d.pop(b, None)
            if a in d:
                d[b] = list(d[a])
        return r

    def delete(self, p, real, *a, **k):
        _noguard()
        link = os.path.islink(p)
        key = self.check(os.path.join(os.path.dirname(os.path.abspath(p)), 'x')) and self.key(p)
        r = real(p, *a, **k)
        if not link:
            for d in (self.files, self.tables):
                for x in [x for x in d if x == key or x.startswith(key + os.sep)]:
                    del d[x]
        return r

    def truncate(self, p, n):
        _noguard()
        if isinstance(p, int):
            raise Unsupported('truncating a descriptor')
        h = VHandle(os.fspath(p), 'r+b')
        h.truncate(n)


class OsShim(types.ModuleType):
    """os, keeping the records of files in step."""

    def __init__(self):
        super().__init__('os')
        self.fds = {}

    def rename(self, src, dst):
        return vfs().move(src, dst, os.rename)

    def replace(self, src, dst):
        return vfs().move(src, dst, os.replace)

    renames = rename

    def remove(self, p):
        return vfs().delete(p, os.remove)

    unlink = remove

    def truncate(self, p, n):
        vfs().truncate(p, n)

    def link(self, src, dst):
        if vfs().known(src):
            raise Unsupported('hard link')
        _noguard()
        vfs().check(dst)
        os.link(src, dst)

    def fdopen(self, fd, mode='r', *a, **k):
        if fd in self.fds:
            os.close(fd)
            return VHandle(self.fds.pop(fd), mode)
        raise Unsupported('os.fdopen')

    def close(self, fd):
        self.fds.pop(fd, None)
        os.close(fd)

    def fsync(self, fd):
        pass

    def __getattr__(self, n):
        if n in ('open', 'write', 'read', 'pread', 'pwrite', 'ftruncate', 'system', 'popen', 'fork', 'kill', 'sendfile',
                 'execv', 'execvp', 'spawnl'):
            raise Unsupported('os.' + n)
        return getattr(os, n)


class ShutilShim(types.ModuleType):
    def __init__(self):
        super().__init__('shutil')

    def copyfile(self, s, d, **k):
        return vfs().copy(s, d, shutil.copyfile, **k)

    def copy(self, s, d, **k):
        return vfs().copy(s, d, shutil.copy, **k)

    def copy2(self, s, d, **k):
        return vfs().copy(s, d, shutil.copy2, **k)

    def move(self, s, d):
        return vfs().move(s, d, shutil.move)

    def rmtree(self, p, *a, **k):
        return vfs().delete(p, shutil.rmtree, *a, **k)

    def copyfileobj(self, s, d, length=0):
        d.write(s.read())

    def __getattr__(self, n):
        if n in ('copytree', 'unpack_archive', 'make_archive', 'chown'):
            raise Unsupported('shutil.' + n)
        return getattr(shutil, n)


class TempShim(types.ModuleType):
    def __init__(self, osshim):
        super().__init__('tempfile')
        self.os = osshim

    def mkstemp(self, suffix=None, prefix=None, dir=None, text=False):
        _noguard()
        fd, p = tempfile.mkstemp(suffix, prefix, dir or vfs().root)
        vfs().check(p)
        vfs().files[vfs().key(p)] = []
        self.os.fds[fd] = p
        return fd, p

    def mkdtemp(self, suffix=None, prefix=None, dir=None):
        _noguard()
        return tempfile.mkdtemp(suffix, prefix, dir or vfs().root)

    def TemporaryDirectory(self, suffix=None, prefix=None, dir=None, **k):
        _noguard()
        return tempfile.TemporaryDirectory(suffix, prefix, dir or vfs().root, **k)

    def NamedTemporaryFile(self, mode='w+b', buffering=-1, encoding=None, newline=None, suffix=None, prefix=None,
                           dir=None, delete=True, **k):
        fd, p = self.mkstemp(suffix, prefix, dir)
        self.os.close(fd)
        h = VHandle(p, mode)
        if delete and k.get('delete_on_close', True):
            shut = h.close

            def close():
                if not h.closed:
                    shut()
                    self.os.remove(p)
            h.close = close
        return h

    TemporaryFile = NamedTemporaryFile

    def __getattr__(self, n):
        if n in ('SpooledTemporaryFile', 'mktemp'):
            raise Unsupported('tempfile.' + n)
        return getattr(tempfile, n)


class VPath(pathlib.PosixPath):
    def open(self, mode='r', *a, **k):
        return open_(str(self), mode, *a, **k)

    def read_bytes(self):
        with self.open('rb') as f:
            return f.read()

    def read_text(self, *a, **k):
        with self.open('r') as f:
            return f.read()

    def write_bytes(self, data):
        with self.open('wb') as f:
            return f.write(data)

    def write_text(self, data, *a, **k):
        with self.open('w') as f:
            return f.write(data)

    def rename(self, target):
        vfs().move(self, target, os.rename)
        return type(self)(target)

    def replace(self, target):
        vfs().move(self, target, os.replace)
        return type(self)(target)

    def unlink(self, missing_ok=False):
        if missing_ok and not os.path.lexists(self):
            return
        vfs().delete(self, os.remove)


class PathShim(types.ModuleType):
    def __init__(self):
        super().__init__('pathlib')
        self.Path = self.PosixPath = VPath

    def __getattr__(self, n):
        return getattr(pathlib, n)


class VHandle:
    """An open file."""

    def __init__(self, path, mode):
        self.name = path
        self.mode = mode
        self.text = 'b' not in mode
        self.closed = False
        self.v = vfs()
        self.k = self.v.key(path)
        m = mode.replace('b', '').replace('t', '')
        self.writable_ = m in ('w', 'a', 'r+', 'w+', 'a+', 'x')
        if m in ('w', 'w+', 'x'):
            _noguard()
            self.v.check(path)
            if m == 'x' and os.path.exists(path):
                raise FileExistsError(path)
            open(path, 'wb').close()
            self.v.files[self.k] = []
            self.v.tables.pop(self.k, None)
            self.pos = 0
        else:
            if self.k not in self.v.files:
                if m in ('a', 'a+') and not os.path.exists(path):
                    _noguard()
                    self.v.check(path)
                    open(path, 'wb').close()
                    self.v.files[self.k] = []
                else:
                    with open(path, 'rb') as f:
                        self.v.files[self.k] = bytecells(f.read())
            self.pos = self.size() if m.startswith('a') else 0
        self.lines = None

    def size(self):
        return sum(c.size for c in self.v.files[self.k])

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def seek(self, off, whence=0):
        off = int(off)
        self.pos = off if whence == 0 else (self.pos + off if whence == 1 else self.size() + off)
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, n=None):
        _noguard()
        if not self.writable_:
            raise io.UnsupportedOperation('File not open for writing')
        n = self.pos if n is None else int(n)
        size = self.size()
        f = self.v.files[self.k]
        self.v.files[self.k] = cut(f, 0, n) if n <= size else list(f) + bytecells(bytes(n - size))
        if self.text:
            with open(self.k, 'r+b') as g:
                g.truncate(n)
        else:
            self.v.place(self.k)
        return n

    def putcells(self, cs):
        _noguard()
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        if not self.writable_:
            raise io.UnsupportedOperation('not writable')
        f = self.v.files[self.k]
        n = sum(c.size for c in cs)
        if 'a' in self.mode:
            self.pos = self.size()
        size = self.size()
        if self.pos > size:
            f.extend(bytecells(bytes(self.pos - size)))
            size = self.pos
        if self.pos == size:
            f.extend(cs)
        else:
            self.v.files[self.k] = cut(f, 0, self.pos) + list(cs) + cut(f, self.pos + n, size)
        self.pos += n
        if self.text:
            with open(self.k, 'wb') as g:
                g.write(bytes(c.v for c in self.v.files[self.k]))
        else:
            with open(self.k, 'r+b') as g:
                g.truncate(self.size())

    def write(self, data):
        if isinstance(data, VBytes):
            self.putcells(data.cells)
            return len(data)
        if isinstance(data, str):
            if not self.text:
                raise TypeError("a bytes-like object is required, not 'str'")
            data = data.encode()
        elif isinstance(data, SymArray):
            self.putcells(cells(data))
            return data.nbytes
        elif self.text:
            raise TypeError('write() argument must be str')
        self.putcells(bytecells(bytes(data)))
        return len(data)

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def takecells(self, n=-1):
        size = self.size()
        end = size if n is None or n < 0 else min(size, self.pos + n)
        r = cut(self.v.files[self.k], self.pos, end)
        self.pos = max(end, self.pos)
        return r

    def read(self, n=-1):
        cs = self.takecells(n)
        if all(c.nd == BYTE and isinstance(c.v, int) for c in cs):
            b = bytes(c.v for c in cs)
            return b.decode() if self.text else b
        if self.text:
            raise Unsupported('binary data read as text')
        return VBytes(cs)

    def readline(self):
        s = self.read()
        i = s.find('\n' if self.text else b'\n')
        if i >= 0:
            rest = s[i + 1:]
            self.pos -= len(rest.encode() if self.text else rest)
            s = s[:i + 1]
        return s

    def readlines(self):
        return self.read().splitlines(True)

    def __iter__(self):
        return self

    def __next__(self):
        s = self.readline()
        if not s:
            raise StopIteration
        return s


def _noguard():
    if core.CUR.guards:
        raise MergeFail(core.CUR.guards[-1][1])


def open_(file, mode='r', *a, **k):
    if isinstance(file, int):
        return core.CUR.osshim.fdopen(file, mode)
    v = vfs()
    key = v.key(file)
    if key in v.tables and 'r' in mode:
        rows = v.tables[key]
        return io.StringIO(''.join(','.join(format(x) if isinstance(x, Sym) else repr(x) for x in r) + '\n'
                                   for r in rows))
    if key in v.files or set(mode) & set('wax+'):
        return VHandle(os.fspath(file), mode)
    return open(file, mode, *a, **k)


def tofile(a, f, sep=''):
    if sep:
        raise Unsupported('tofile sep')
    _noguard()
    cs = cells(a, 'C')
    if isinstance(f, (str, os.PathLike)):
        h = VHandle(os.fspath(f), 'wb')
        h.putcells(cs)
    else:
        f.putcells(cs)


def np_fromfile(file, dtype=float, count=-1, sep='', offset=0, like=None):
    if sep:
        raise Unsupported('fromfile sep')
    nd = as_dtype(dtype)
    if isinstance(file, (str, os.PathLike)):
        h = VHandle(os.fspath(file), 'rb')
    else:
        h = file
    if offset:
        h.seek(offset, 1)
    n = -1 if count is None or count < 0 else int(count) * nd.itemsize
    cs = h.takecells(n)
    vals = from_cells(cs, nd)
    o = np.empty(len(vals), object)
    for i, v in enumerate(vals):
        o[i] = v
    return wrap(o, nd)


def np_frombuffer(buf, dtype=float, count=-1, offset=0, like=None):
    nd = as_dtype(dtype)
    cs = buf.cells if isinstance(buf, VBytes) else bytecells(bytes(buf))
    total = sum(c.size for c in cs)
    end = total if count is None or count < 0 else offset + count * nd.itemsize
    if end > total:
        raise ValueError('buffer is smaller than requested size')
    if (end - offset) % nd.itemsize:
        raise ValueError('buffer size must be a multiple of element size')
    vals = from_cells(cut(cs, offset, end), nd)
    o = np.empty(len(vals), object)
    for i, v in enumerate(vals):
        o[i] = v
    return wrap(o, nd)


def np_memmap(filename, dtype=np.uint8, mode='r+', offset=0, shape=None, order='C'):
    nd = as_dtype(dtype)
    if isinstance(shape, (int, SI)):
        shape = (int(shape),)
    if mode not in ('r', 'c', 'r+'):
        raise Unsupported('memmap mode ' + mode)
    n = -1
    if shape is not None:
        n = 1
        for s in shape:
            n *= int(s)
    h = VHandle(os.fspath(filename), 'rb')
    if n >= 0 and h.size() < offset + n * nd.itemsize:
        if mode == 'r':
            raise ValueError('mmap length is greater than file size')
        h.v.files[h.k] = list(h.v.files[h.k]) + bytecells(bytes(offset + n * nd.itemsize - h.size()))
    a = np_fromfile(h, nd, count=n, offset=offset)
    return a if shape is None else a.reshape(tuple(int(s) for s in shape), order=order)


def np_loadtxt(fname, dtype=float, comments='#', delimiter=None, converters=None, skiprows=0,
               usecols=None, unpack=False, ndmin=0, encoding=None, max_rows=None, **k):
    v = vfs()
    key = v.key(fname) if isinstance(fname, (str, os.PathLike)) else None
    if key is None or key not in v.tables:
        if key is not None and key in v.files:
            raise ValueError('could not convert string to float')
        return mkarray(np.loadtxt(fname, delimiter=delimiter, ndmin=ndmin))
    rows = v.tables[key]
    if delimiter != ',':
        raise ValueError('could not convert string to float')
    rows = rows[skiprows:]
    if max_rows is not None:
        rows = rows[:max_rows]
    if usecols is not None:
        rows = [[r[c] for c in ([usecols] if isinstance(usecols, int) else usecols)] for r in rows]
    a = mkarray([list(r) for r in rows], as_dtype(dtype))
    a = arr.call_numpy(np.squeeze, (a,), {}) if a.ndim > ndmin else a
    if a.ndim < ndmin:
        a = a.reshape((1,) * (ndmin - a.ndim) + a.shape)
    return a.T if unpack else a


def np_savetxt(fname, X, fmt='%.18e', delimiter=' ', newline='\n', header='', footer='', **k):
    if delimiter != ',':
        raise Unsupported('savetxt delimiter')
    vfs().puttable(fname, [list(r) for r in np.atleast_2d(toobj(X))])


# ---------------------------------------------------------------------------
# pyproj

class ArcPt:
    __slots__ = ('arc', 't')


def _point(lon, lat):
    return fun.strip360(core.real_term(lon)), fun.som(core.real_term(lat))


class Geod:
    """Stub of pyproj.Geod (see ASSUMED)."""

    def __init__(self, initstring=None, **kw):
        import pyproj
        if any(isinstance(v, Sym) for v in kw.values()):
            raise Unsupported('symbolic ellipsoid')
        self._g = pyproj.Geod(initstring, **{k: py(v) for k, v in kw.items()}) if initstring or kw \
            else pyproj.Geod()
        self.a, self.b, self.f, self.es, self.sphere = \
            self._g.a, self._g.b, self._g.f, self._g.es, self._g.sphere
        self.initstring = self._g.initstring
        self.tag = '' if (self.a, self.f) == (6370997.0, 0.0) else '_%r_%r' % (self.a, self.f)

    def __copy__(self):
        return self

    def __deepcopy__(self, m):
        return self

    def _arc(self, p, q):
        """(arc key, t of p, t of q): the registered arc holding both, or their own."""
        c = core.CUR
        tab = c.memo.setdefault('arcpts' + self.tag, {})
        if self.f == 0.0:
            kp, kq = (p[0].get_id(), p[1].get_id()), (q[0].get_id(), q[1].get_id())
            ap, aq = tab.get(kp), tab.get(kq)
            if ap and aq and ap[0] == aq[0]:
                return ap[0], ap[1], aq[1]
            if ap and kq in ap[0][1:3]:
                return ap[0], ap[1], Fraction(0 if kq == ap[0][1] else 1)
            if aq and kp in aq[0][1:3]:
                return aq[0], Fraction(0 if kp == aq[0][1] else 1), aq[1]
        kp, kq = (p[0].get_id(), p[1].get_id()), (q[0].get_id(), q[1].get_id())
        c.keep.extend(p)
        c.keep.extend(q)
        if kp <= kq:
            key = ('arc', kp, kq)
            c.memo.setdefault(key, (p, q))
            return key, Fraction(0), Fraction(1)
        key = ('arc', kq, kp)
        c.memo.setdefault(key, (q, p))
        return key, Fraction(1), Fraction(0)

    def _dist(self, p, q):
        if p[0].eq(q[0]) and p[1].eq(q[1]):
            return 0.0
        c = core.CUR
        key, s, t = self._arc(p, q)
        (a, b) = c.memo[key]
        d = fun.uf('D' + self.tag, 4)(a[0], a[1], b[0], b[1])
        i = d.get_id()
        if i not in c.nonneg:
            c.keep.append(d)
            c.nonneg.add(i)
            if self.f == 0.0:
                c.memo.setdefault('dists', []).append((d, a, b, self.a))
            if c.nondegenerate:
                c.positive.add(i)
                c.axiom(d > 0)
            else:
                c.axiom(d >= 0)
            c.axiom(d < 25000000)
        w = abs(t - s)
        if w == 1:
            return SR(d)
        r = SR(z3.simplify(d * z3.Q(w.numerator, w.denominator)))
        c.keep.append(r.t)
        c.nonneg.add(r.t.get_id())
        if c.nondegenerate:
            c.positive.add(r.t.get_id())
        return r

    def _inv1(self, lon1, lat1, lon2, lat2, rad):
        xs = [py(v) for v in (lon1, lat1, lon2, lat2)]
        if not any(isinstance(v, Sym) for v in xs):
            return self._g.inv(*xs, radians=rad)
        if any(not isinstance(v, Sym) and core.special(v) for v in xs):
            return (float('nan'),) * 3
        if rad:
            xs = [fun.degrees(v) for v in xs]
        p, q = _point(xs[0], xs[1]), _point(xs[2], xs[3])
        f = fun.uf('azimuth' + self.tag, 4)
        return (SR(fun.keep(f(*p, *q))), SR(fun.keep(f(*q, *p))), self._dist(p, q))

    def inv(self, lons1, lats1, lons2, lats2, radians=False, return_back_azimuth=True, inplace=False):
        args = [a.item() if isinstance(a, np.ndarray) and a.ndim == 0 else a
                for a in (lons1, lats1, lons2, lats2)]
        if not any(isinstance(a, (np.ndarray, list, tuple)) for a in args):
            r = self._inv1(*args, radians)
            return tuple(py(v) for v in r)
        obs = [toobj(a) for a in args]
        shp = obs[0].shape if isinstance(obs[0], np.ndarray) else ()
        if any((o.shape if isinstance(o, np.ndarray) else ()) != shp for o in obs):
            raise TypeError('Geod.inv: array lengths differ')
        res = [np.empty(shp, object) for _ in range(3)]
        for i in np.ndindex(*shp):
            for k, v in enumerate(self._inv1(*[o[i] for o in obs], radians)):
                res[k][i] = v
        res = [wrap(r, F8) for r in res]
        if isinstance(args[0], (list, tuple)):
            res = [type(args[0])(r.tolist()) for r in res]
        return tuple(res)

    def _pt(self, key, t):
        c = core.CUR
        (a, b) = c.memo[key]
        tt = z3.Q(t.numerator, t.denominator)
        lon = fun.uf('arclon' + self.tag, 5)(a[0], a[1], b[0], b[1], tt)
        lat = fun.uf('arclat' + self.tag, 5)(a[0], a[1], b[0], b[1], tt)
        c.keep.extend((lon, lat))
        c.axiom(z3.And(lon >= -180, lon <= 180, lat >= -90, lat <= 90))
        c.memo.setdefault('arcpts' + self.tag, {}).setdefault(
            (fun.strip360(lon).get_id(), fun.som(lat).get_id()), (key, t))
        return SR(lon), SR(lat)

    def _npts(self, lon1, lat1, lon2, lat2, npts, ii, ti, rad):
        xs = [py(v) for v in (lon1, lat1, lon2, lat2)]
        n = int(npts)
        if not any(isinstance(v, Sym) for v in xs):
            return list(self._g.npts(*xs, n, radians=rad, initial_idx=ii, terminus_idx=ti))
        if any(not isinstance(v, Sym) and core.special(v) for v in xs):
            raise Unsupported('npts of nan')
        if rad:
            xs = [fun.degrees(v) for v in xs]
        p, q = _point(xs[0], xs[1]), _point(xs[2], xs[3])
        if p[0].eq(q[0]) and p[1].eq(q[1]):
            raise Unsupported('npts of a degenerate arc')
        key, s, t = self._arc(p, q)
        den = n - 1 + ii + ti
        out = []
        for k in range(n):
            w = s + (t - s) * Fraction(k + ii, den)
            if w in (0, 1):
                a = core.CUR.memo[key][int(w)]
                x = fun.uf('wrap180')(a[0])
                core.CUR.axiom(z3.And(x >= -180, x <= 180))
                lon, lat = SR(fun.keep(x)), SR(a[1])
            else:
                lon, lat = self._pt(key, w)
            if rad:
                lon, lat = fun.radians(lon), fun.radians(lat)
            out.append((lon, lat))
        return out

    def npts(self, lon1, lat1, lon2, lat2, npts, radians=False, initial_idx=1, terminus_idx=1):
        return self._npts(lon1, lat1, lon2, lat2, npts, initial_idx, terminus_idx, radians)

    def inv_intermediate(self, lon1, lat1, lon2, lat2, npts=0, del_s=0, initial_idx=1, terminus_idx=1,
                         radians=False, flags=None, out_lons=None, out_lats=None, out_azis=None,
                         return_back_azimuth=None):
        if not npts or del_s:
            raise Unsupported('inv_intermediate del_s')
        pts = self._npts(lon1, lat1, lon2, lat2, npts, initial_idx, terminus_idx, radians)
        lons, lats = mkarray([p[0] for p in pts]), mkarray([p[1] for p in pts])
        d = self._inv1(lon1, lat1, lon2, lat2, radians)[2]
        return types.SimpleNamespace(npts=npts, lons=lons, lats=lats, dist=d,
                                     del_s=d / (npts - 1 + initial_idx + terminus_idx), azis=None)

    def line_lengths(self, lons, lats, radians=False):
        x, y = toobj(lons), toobj(lats)
        return mkarray([self._inv1(x[i], y[i], x[i + 1], y[i + 1], radians)[2] for i in range(len(x) - 1)])

    def line_length(self, lons, lats, radians=False):
        s = 0.0
        for v in self.line_lengths(lons, lats, radians):
            s = v + s
        return s

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('pyproj.Geod.' + n)


# ---------------------------------------------------------------------------
# xesmf

class Regridder:
    def __init__(self, ds_in, ds_out, method, filename=None, reuse_weights=False, weights=None,
                 periodic=False, **kw):
        def grid(ds):
            lon, lat = mkarray(ds['lon']), mkarray(ds['lat'])
            if lon.ndim != 2 or lon.shape != lat.shape:
                raise ValueError('lon and lat must be 2-d arrays of one shape')
            return base(lon).copy(), base(lat).copy()
        self.method = method
        self.gin, self.gout = grid(ds_in), grid(ds_out)
        self.shape_in, self.shape_out = self.gin[0].shape, self.gout[0].shape
        self.periodic = bool(periodic)
        store = core.CUR.memo.setdefault('weights', {})
        self.filename = filename if filename is not None else '%s_%dx%d_%dx%d.nc' % (
            (method,) + self.shape_in + self.shape_out)
        w = (self.gin, self.gout, method, self.periodic)
        if reuse_weights and self.filename in store:
            w = store[self.filename]
            if w[0][0].size != self.gin[0].size or w[1][0].size != self.gout[0].size:
                raise ValueError('weights do not match the grids')
        store[self.filename] = w
        self.w = w

    def __call__(self, indata, **kw):
        a = mkarray(indata)
        if a.shape[-2:] != self.shape_in:
            raise ValueError('The horizontal shape of input data is %r, different from that of the '
                             'regridder %r!' % (a.shape, self.shape_in))
        if a.ndim > 2:
            o = base(a)
            res = np.empty(a.shape[:-2] + self.shape_out, object)
            for i in np.ndindex(*a.shape[:-2]):
                res[i] = base(self(wrap(o[i], F8)))
            return wrap(res, F8)
        (ilon, ilat), (olon, olat), method, per = self.w
        src = [core.real_term(v) for v in list(ilon.ravel()) + list(ilat.ravel()) + list(base(a).ravel())]
        f = fun.uf('interp_%s_%s' % (method, per), 2 + len(src))
        res = np.empty(self.shape_out, object)
        flat = res.reshape(-1)
        for k, (x, y) in enumerate(zip(olon.ravel(), olat.ravel())):
            flat[k] = SR(fun.keep(f(core.real_term(x), core.real_term(y), *src)))
        return wrap(res, F8)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('xesmf.Regridder.' + n)


# ---------------------------------------------------------------------------
# numpy

class NDIter:
    """numpy.nditer over symbolic arrays, driven by a real nditer."""

    def __init__(self, op, flags=(), op_flags=None, op_dtypes=None, order='K', casting='safe',
                 op_axes=None, itershape=None, buffersize=0):
        ops = list(op) if isinstance(op, (list, tuple)) else [op]
        self.single = not isinstance(op, (list, tuple))
        self.nds = []
        bs = []
        for o in ops:
            if o is None:
                raise Unsupported('nditer output allocation')
            if not isinstance(o, SymArray):
                o = mkarray(o)
            self.nds.append(o._nd)
            bs.append(base(o))
        fl = [f for f in flags if f not in ('buffered', 'growinner', 'delay_bufalloc')]
        for f in ('refs_ok', 'zerosize_ok'):
            if f not in fl and (f != 'zerosize_ok' or True):
                fl.append(f)
        if 'zerosize_ok' not in flags and any(b.size == 0 for b in bs):
            raise ValueError('Iteration of zero-sized operands is not enabled')
        kw = dict(flags=fl, order=order)
        if op_flags is not None:
            of = op_flags
            if of and isinstance(of[0], str):
                of = [list(of)] * len(bs)
            kw['op_flags'] = [list(x) for x in of]
        if op_axes is not None:
            kw['op_axes'] = op_axes
        if itershape is not None:
            kw['itershape'] = itershape
        self._it = np.nditer(bs, **kw)
        self.ext = 'external_loop' in flags
        self._started = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def _w(self, k):
        return wrap(self._it[k], self.nds[k])

    def __getitem__(self, k):
        if isinstance(k, slice):
            return tuple(self._w(i) for i in range(*k.indices(len(self.nds))))
        return self._w(int(k) % len(self.nds))

    def __setitem__(self, k, v):
        self._w(int(k))[...] = v

    def __len__(self):
        return len(self.nds)

    def __iter__(self):
        return self

    def __next__(self):
        if self._started:
            self._it.iternext()
        self._started = True
        if self._it.finished:
            raise StopIteration
        return self.value

    @property
    def value(self):
        r = tuple(self._w(i) for i in range(len(self.nds)))
        return r[0] if self.single or len(r) == 1 else r

    def iternext(self):
        return self._it.iternext()

    @property
    def operands(self):
        return tuple(wrap(o, n) for o, n in zip(self._it.operands, self.nds))

    def close(self):
        pass

    def __getattr__(self, n):
        if n in ('finished', 'multi_index', 'index', 'iterindex', 'itersize', 'ndim', 'shape', 'nop',
                 'reset', 'iterrange', 'has_multi_index'):
            return getattr(self._it, n)
        raise AttributeError(n)


def _anysym(args, kw):
    st = list(args) + list(kw.values())
    while st:
        x = st.pop()
        if isinstance(x, (Sym, SymArray)):
            return True
        if isinstance(x, (list, tuple)):
            st.extend(x)
    return False


def _shape(kw, args, k):
    return kw


def _creator(fill):
    def f(shape, dtype=None, order='C', **k):
        nd = as_dtype(dtype)
        if nd.kind in 'OUSV':
            return np.full(arr.shapeof(shape), fill, nd)
        return arr.full(shape, fill, nd, order)
    return f


def uninitialised(a):
    """Fill a new array with values nothing is known about."""
    if isinstance(a, SymArray) and a._nd.kind == 'f':
        b = arr.base(a)
        for i in np.ndindex(*b.shape):
            b[i] = SR(z3.FreshReal('uninit'))
    return a


def np_empty(shape, dtype=None, order='C', **k):
    return uninitialised(_creator(0)(shape, dtype, order, **k))


def np_empty_like(a, dtype=None, order='K', subok=True, shape=None):
    r = np.zeros_like(a, dtype=dtype, shape=shape) if not isinstance(a, SymArray) else \
        arr.HANDLED['zeros_like'](a, dtype, order, subok, shape)
    return uninitialised(arr.rewrap(r, F8))


def np_full(shape, fill_value, dtype=None, order='C', **k):
    if dtype is None:
        if isinstance(fill_value, (list, tuple, np.ndarray)):
            m = mkarray(fill_value)
            r = arr.full(shape, 0, m._nd, order)
            r[...] = m
            return r
        nd = arr.kind_of(fill_value)
    else:
        nd = as_dtype(dtype)
    return arr.full(shape, fill_value, nd, order)


def np_array(obj, dtype=None, copy=True, order='K', subok=False, ndmin=0, like=None):
    a = mkarray(obj, None if dtype is None else as_dtype(dtype), copy)
    if isinstance(a, SymArray) and order in ('C', 'F', 'A'):
        a = wrap(np.asarray(base(a), order=order if order != 'A' else None), a._nd)
    while a.ndim < ndmin:
        a = a[None]
    return a


def np_asarray(a, dtype=None, order=None, like=None):
    if isinstance(a, SymArray) and (dtype is None or as_dtype(dtype) == a._nd) and order in (None, 'K', 'A'):
        return a
    return np_array(a, dtype, order=order or 'K')


def np_asfortranarray(a, dtype=None):
    m = np_asarray(a, dtype)
    return wrap(np.asfortranarray(base(m)), m._nd)


def np_ascontiguousarray(a, dtype=None):
    m = np_asarray(a, dtype)
    return wrap(np.ascontiguousarray(base(m)), m._nd)


def np_arange(*a, dtype=None, **k):
    if any(isinstance(py(x), (SR, float)) for x in a):
        a = [py(x) for x in a]
        if any(isinstance(x, SR) for x in a):
            raise Unsupported('arange of symbolic reals')
        return mkarray(np.arange(*a), None if dtype is None else as_dtype(dtype))
    return mkarray(list(range(*[int(x) for x in a])) or np.zeros(0, int),
                   None if dtype is None else as_dtype(dtype))


def np_linspace(*a, **k):
    if _anysym(a, k):
        return arr.lin(*a, **k)
    return mkarray(np.linspace(*a, **k))


def np_vectorize(pyfunc, otypes=None, signature=None, excluded=None, **k):
    if signature or excluded:
        raise Unsupported('vectorize signature')

    def f(*args):
        obs = [toobj(a) for a in args]
        bc = np.broadcast_arrays(*[o if isinstance(o, np.ndarray) else arr._box(o) for o in obs])
        outs = {}
        n = None
        for i in np.ndindex(*bc[0].shape):
            r = pyfunc(*[arr.out(b[i]) for b in bc])
            n = r if n is None else n
            outs[i] = r
        if isinstance(n, tuple):
            res = []
            for k2 in range(len(n)):
                z = np.empty(bc[0].shape, object)
                for i, v in outs.items():
                    z[i] = py(v[k2])
                res.append(wrap(z, arr.join_kind([arr.kind_of(v) for v in z.ravel()])))
            return tuple(res)
        z = np.empty(bc[0].shape, object)
        for i, v in outs.items():
            z[i] = py(v)
        return wrap(z, arr.join_kind([arr.kind_of(v) for v in z.ravel()]) if z.size else F8)
    return f


def np_ndenumerate(a):
    a = np_asarray(a)
    for i in np.ndindex(*a.shape):
        yield i, a[i]


def np_fromiter(it, dtype, count=-1):
    return mkarray(list(it), as_dtype(dtype))


def np_fromfunction(f, shape, dtype=float, **k):
    idx = np.indices(shape)
    return f(*[mkarray(i, as_dtype(dtype)) for i in idx], **k)


def np_average(a, axis=None, weights=None, returned=False):
    if weights is None:
        return arr.red_mean(a, axis)
    w = np_asarray(weights)
    return arr.apply_ufunc('divide', (arr.red_sum(arr.apply_ufunc('multiply', (a, w)), axis),
                                      arr.red_sum(w, axis)))


class _Stack:
    """numpy.r_ and numpy.c_ for sequences of arrays and numbers."""

    def __init__(self, which):
        self.which = which

    def __getitem__(self, items):
        items = items if isinstance(items, tuple) else (items,)
        if not _anysym(items, {}):
            return mkarray(np.r_[items] if self.which == 'r' else np.c_[items])
        if any(isinstance(x, (str, slice)) for x in items):
            raise Unsupported('numpy.%s_ with slices' % self.which)
        parts = [mkarray(x) if isinstance(x, (np.ndarray, list, tuple)) else mkarray([x]) for x in items]
        if self.which == 'c':
            parts = [x[:, None] if x.ndim == 1 else x for x in parts]
        return np.concatenate(parts, axis=0 if self.which == 'r' else -1)


def np_result_type(*a):
    def conv(x):
        if isinstance(x, SymArray):
            return x._nd
        if isinstance(x, Sym):
            return float if isinstance(x, (SR, core.SF)) else bool if isinstance(x, core.SB) else int
        return as_dtype(x) if isinstance(x, type) else x
    return np.result_type(*[conv(x) for x in a])


class NumpyShim(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')
        d = self.__dict__
        d.update(
            zeros=_creator(0), ones=_creator(1), empty=np_empty, empty_like=np_empty_like, full=np_full, array=np_array,
            asarray=np_asarray, asanyarray=np_asarray, asfortranarray=np_asfortranarray,
            ascontiguousarray=np_ascontiguousarray, arange=np_arange, linspace=np_linspace,
            fromfile=np_fromfile, frombuffer=np_frombuffer, memmap=np_memmap, loadtxt=np_loadtxt,
            genfromtxt=np_loadtxt, savetxt=np_savetxt, nditer=NDIter, vectorize=np_vectorize,
            ndenumerate=np_ndenumerate, fromiter=np_fromiter, fromfunction=np_fromfunction,
            average=np_average,
            float64=symf64, double=symf64, float_=symf64, float32=symf32, single=symf32,
            int64=symi64, int_=symi64, intp=symi64, int32=symi32, bool_=symb1,
            ndarray=np.ndarray, dtype=lambda *a, **k: (as_dtype(a[0]) if len(a) == 1 and not k
                                                       else np.dtype(*a, **k)),
            iterable=np.iterable, ndindex=np.ndindex, ix_=self._ix, array_equiv=arr.array_equal,
            abs=self._uf('absolute'), linalg=LinalgShim(self), save=self._no('save'), load=self._no('load'),
            savez=self._no('savez'), isscalar=lambda x: isinstance(x, Sym) or np.isscalar(x),
            round=self._round, around=self._round, errstate=np.errstate, random=self._no('random'),
            r_=_Stack('r'), c_=_Stack('c'), frompyfunc=lambda f, nin, nout=1, **k: np_vectorize(f) if nout == 1 else self._no('frompyfunc')(),
            require=lambda a, dtype=None, requirements=None: np_asarray(a, dtype), result_type=np_result_type,
            isneginf=lambda x: self._uf('logical_and')(self._uf('isinf')(mkarray(x)), self._uf('less')(mkarray(x), 0)),
            isposinf=lambda x: self._uf('logical_and')(self._uf('isinf')(mkarray(x)), self._uf('greater')(mkarray(x), 0)),
        )

    def _round(self, a, decimals=0, out=None):
        if _anysym((a,), {}):
            return arr.rounded(a, decimals, out)
        return mkarray(np.round(a, decimals)) if isinstance(a, np.ndarray) else np.round(a, decimals)

    def _no(self, n):
        def f(*a, **k):
            raise Unsupported('numpy.' + n)
        return f

    def _ix(self, *a):
        def conv(x):
            if isinstance(x, SymArray):
                x = base(x).tolist()
            if isinstance(x, (list, tuple)):
                x = [int(v) if isinstance(v, SI) else v for v in x]
            return np.array(x) if isinstance(x, (list, tuple)) and x else x
        return np.ix_(*[conv(x) for x in a])

    def _uf(self, name):
        real = getattr(np, name)

        def f(*args, **kw):
            return arr.apply_ufunc(name, args, kw)
        f.__name__ = name

        def reduce(a, axis=0, **kw):
            return mkarray(a).__array_ufunc__(real, 'reduce', mkarray(a), axis=axis, **kw)

        def accumulate(a, axis=0, **kw):
            return mkarray(a).__array_ufunc__(real, 'accumulate', mkarray(a), axis=axis, **kw)

        def outer(a, b, **kw):
            return mkarray(a).__array_ufunc__(real, 'outer', mkarray(a), mkarray(b), **kw)

        def reduceat(a, indices, axis=0, **kw):
            a = np.moveaxis(mkarray(a) if not isinstance(a, np.ndarray) else a, axis, 0)
            ix = [int(i) for i in indices]
            parts = [reduce(a[i:j], 0) if i < j else a[i] for i, j in zip(ix, ix[1:] + [a.shape[0]])]
            return np.moveaxis(np.stack([mkarray(p) for p in parts]), 0, axis)

        def at(*a):
            raise Unsupported('ufunc.at')
        f.reduce, f.accumulate, f.outer, f.reduceat, f.at = reduce, accumulate, outer, reduceat, at
        f.nin, f.nout = real.nin, real.nout
        return f

    def __getattr__(self, n):
        v = getattr(np, n)
        if isinstance(v, np.ufunc):
            if n in arr.UF:
                v = self._uf(n)
            elif n == 'matmul':
                v = arr.matmul
            else:
                def v(*a, _n=n, _r=getattr(np, n), **k):
                    if _anysym(a, k):
                        raise Unsupported('numpy.' + _n)
                    return _r(*a, **k)
        elif isinstance(v, type) and issubclass(v, np.generic):
            pass
        elif callable(v) and not isinstance(v, type):
            v = self._fn(n, v)
        self.__dict__[n] = v
        return v

    def _fn(self, n, real):
        def f(*a, **k):
            h = arr.HANDLED.get(n, 0)
            if h and (_anysym(a, k)):
                a = [mkarray(x) if isinstance(x, (list, tuple)) and n not in (
                    'linspace', 'copyto', 'ravel_multi_index', 'select', 'choose', 'putmask', 'cross', 'matmul', 'where', 'clip', 'array_equal', 'isclose', 'allclose') else x
                    for x in a[:1]] + list(a[1:])
                return h(*a, **k)
            if _anysym(a, k):
                if h is None:
                    raise Unsupported('numpy.' + n)
                if n in arr.MUTATING:
                    raise Unsupported('numpy.' + n)
                if n in ('size', 'shape', 'ndim'):
                    return real(*[mkarray(x) if isinstance(x, (list, tuple)) else x for x in a], **k)
                a = [mkarray(x) if _bare(x) and n not in _SEQ else x for x in a]
                return arr.call_numpy(real, a, k)
            r = real(*a, **k)
            return arr.rewrap(r, F8)
        f.__name__ = n
        return f


_SEQ = {'concatenate', 'stack', 'vstack', 'hstack', 'dstack', 'column_stack', 'block', 'array_split',
        'reshape', 'transpose', 'moveaxis', 'swapaxes', 'tile', 'repeat', 'pad', 'broadcast_to',
        'expand_dims', 'squeeze', 'roll', 'rot90', 'flip', 'meshgrid', 'ravel_multi_index', 'unravel_index',
        'apply_along_axis', 'einsum', 'row_stack', 'split', 'hsplit', 'vsplit', 'resize', 'delete', 'insert',
        'append', 'take', 'cross', 'matmul', 'piecewise', 'select', 'choose', 'tensordot'}


def _bare(x):
    return isinstance(x, (list, tuple)) and _anysym((x,), {})


class LinalgShim:
    def __init__(self, npshim):
        self.norm = arr.norm

    def det(self, a):
        return arr.det(a if isinstance(a, np.ndarray) else mkarray(a))

    def __getattr__(self, n):
        def f(*a, **k):
            if _anysym(a, k):
                raise Unsupported('numpy.linalg.' + n)
            return arr.rewrap(getattr(np.linalg, n)(*a, **k), F8)
        return f


# ---------------------------------------------------------------------------
# math, sys, builtins

class MathShim(types.ModuleType):
    def __init__(self):
        super().__init__('math')
        m = self.__dict__
        for n in ('cos', 'sin', 'tan', 'radians', 'degrees', 'sqrt', 'exp', 'log', 'log10'):
            m[n] = self._w(n, n)
        m['acos'], m['asin'], m['atan'] = self._w('arccos', 'acos'), self._w('arcsin', 'asin'), self._w('arctan', 'atan')
        m['atan2'] = lambda a, b: fun.arctan2(py(a), py(b))
        m['hypot'] = lambda *a: fun.sqrt(arr.red_sum([py(x) * py(x) for x in a])) if _anysym(a, {}) else math.hypot(*a)
        m['fabs'] = lambda x: abs(py(x)) if isinstance(py(x), Sym) else math.fabs(x)
        m['floor'] = lambda x: core.mkint(z3.ToInt(py(x).t)) if isinstance(py(x), SR) else (py(x) if isinstance(py(x), SI) else math.floor(x))
        m['ceil'] = lambda x: core.mkint(-z3.ToInt(-py(x).t)) if isinstance(py(x), SR) else (py(x) if isinstance(py(x), SI) else math.ceil(x))
        m['trunc'] = lambda x: _toint(py(x))
        m['isnan'] = lambda x: arr._isnan(py(x))
        m['isinf'] = lambda x: arr._isinf(py(x))
        m['isfinite'] = lambda x: NOT(OR(arr._isnan(py(x)), arr._isinf(py(x))))
        m['isclose'] = self.isclose
        m['fsum'] = lambda it: arr.red_sum(mkarray(list(it)))
        m['pow'] = lambda a, b: py(a) ** py(b)
        m['fmod'] = lambda a, b: self._fmod(py(a), py(b))
        m['copysign'] = lambda a, b: arr.ite_scalar(py(b) >= 0, abs(py(a)), -abs(py(a))) if _anysym((py(a), py(b)), {}) else math.copysign(a, b)

    def _fmod(self, a, b):
        if not _anysym((a, b), {}):
            return math.fmod(a, b)
        return a - b * fun.trunc(a / b)

    def isclose(self, a, b, *, rel_tol=1e-9, abs_tol=0.0):
        a, b = py(a), py(b)
        if not _anysym((a, b), {}):
            return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        m = arr._max(arr._max(abs(a), abs(b)) * rel_tol, abs_tol)
        return truth(abs(a - b) <= m)

    def _w(self, n, cn):
        f, cf = getattr(fun, n), getattr(math, cn)

        def g(x, *a):
            x = py(x)
            if isinstance(x, Sym):
                return f(x)
            return cf(x, *a)
        return g

    def dist(self, p, q):
        return self.hypot(*[py(a) - py(b) for a, b in zip(p, q)])

    def prod(self, it, *, start=1):
        for v in it:
            start = start * py(v)
        return start

    def sumprod(self, p, q):
        r = 0
        for a, b in zip(p, q):
            r = r + py(a) * py(b)
        return r

    def __getattr__(self, n):
        v = getattr(math, n)
        if callable(v):
            def g(*a, **k):
                if _anysym(a, k):
                    raise Unsupported('math.' + n)
                return v(*a, **k)
            return g
        return v


class NullOut:
    def write(self, s):
        return len(s) if isinstance(s, (str, bytes)) else 0

    def flush(self):
        pass

    def isatty(self):
        return False

    encoding = 'utf-8'


class SysShim(types.ModuleType):
    def __init__(self):
        super().__init__('sys')
        self.__dict__['stdout'] = NullOut()
        self.__dict__['stderr'] = NullOut()

    def __getattr__(self, n):
        return getattr(sys, n)


class ModShim(types.ModuleType):
    def __init__(self, name, **d):
        super().__init__(name)
        self.__dict__.update(d)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('%s.%s' % (self.__name__, n))


class StructShim(types.ModuleType):
    def __init__(self):
        super().__init__('struct')
        self.__dict__['pack'] = self.pack_
        self.__dict__['unpack'] = self.unpack_
        self.__dict__['unpack_from'] = self.unpack_from_
        self.__dict__['iter_unpack'] = self.iter_unpack_

    def pack_(self, fmt, *vals):
        if not _anysym(vals, {}):
            return struct.pack(fmt, *[py(v) for v in vals])
        bo, code = (fmt[0], fmt[1:]) if fmt[0] in '<>=!@' else ('=', fmt)
        code = code.lstrip('0123456789')
        if code not in ('d', 'f') and set(code) - set('d'):
            raise Unsupported('struct ' + fmt)
        nd = np.dtype({'!': '>', '@': '='}.get(bo, bo) + {'d': 'f8', 'f': 'f4'}[code[0]])
        return VBytes([Cell(arr.elem(v, nd), nd) for v in vals])

    def unpack_(self, fmt, b):
        if not isinstance(b, VBytes):
            return struct.unpack(fmt, b)
        bo, code = (fmt[0], fmt[1:]) if fmt[0] in '<>=!@' else ('=', fmt)
        code = code.lstrip('0123456789')
        nd = np.dtype({'!': '>', '@': '='}.get(bo, bo) + {'d': 'f8', 'f': 'f4'}[code[0]])
        return tuple(from_cells(b.cells, nd))

    def unpack_from_(self, fmt, b, offset=0):
        if not isinstance(b, VBytes):
            return struct.unpack_from(fmt, b, offset)
        return self.unpack_(fmt, b[offset:offset + struct.calcsize(fmt)])

    def iter_unpack_(self, fmt, b):
        if not isinstance(b, VBytes):
            return struct.iter_unpack(fmt, b)
        n = struct.calcsize(fmt)
        if len(b) % n:
            raise struct.error('iterative unpacking requires a buffer of a multiple of %d bytes' % n)
        return iter([self.unpack_(fmt, b[k:k + n]) for k in range(0, len(b), n)])

    def __getattr__(self, n):
        if n == 'Struct':
            raise Unsupported('struct.Struct')
        return getattr(struct, n)


def shims():
    npm = NumpyShim()
    osm = OsShim()
    core.CUR.osshim = osm
    return {
        'os': osm, 'shutil': ShutilShim(), 'tempfile': TempShim(osm), 'pathlib': PathShim(),
        'numpy': npm,
        'pyproj': ModShim('pyproj', Geod=Geod),
        'xesmf': ModShim('xesmf', Regridder=Regridder, __version__='stub'),
        'math': MathShim(), 'sys': SysShim(), 'struct': StructShim(), 'io': IoShim(),
    }


def b_any(it):
    if isinstance(it, SymArray) and it.ndim <= 1:
        return arr.red_any(it)
    return OR(*[truth(x) for x in it])


def b_all(it):
    return AND(*[truth(x) for x in it])


def _minmax(better, real):
    def f(*a, key=None, default=MergeFail, **k):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if not xs:
            if default is not MergeFail:
                return default
            return real([])
        ks = [key(x) if key else x for x in xs]
        if not _anysym(ks, {}):
            best = 0
            for i in range(1, len(xs)):
                if better(ks[i], ks[best]):
                    best = i
            return xs[best]
        bv, bk = xs[0], ks[0]
        for x, kk in zip(xs[1:], ks[1:]):
            c = truth(better(kk, bk))
            if isinstance(c, bool):
                if c:
                    bv, bk = x, kk
                continue
            try:
                nv, nk = core.ite(c, x, bv), core.ite(c, kk, bk)
            except core.NoMerge:
                nv, nk = (x, kk) if bool(c) else (bv, bk)
            bv, bk = nv, nk
        return bv
    return f


def b_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def b_print(*a, sep=' ', end='\n', file=None, flush=False):
    s = sep.join(str(x) for x in a) if sep is not None else ''
    if file is not None and not isinstance(file, NullOut):
        file.write(s + (end or ''))
    elif file is None and core.CUR is not None:
        core.CUR.memo.setdefault('stdout', []).append(s + ('\n' if end is None else end))


def b_next(it, *d):
    _noguard()
    return next(it, *d)


def b_abs(x):
    return abs(x)


def b_round(x, n=None):
    return round(py(x), n) if n is not None else round(py(x))


def builtin_shims():
    return dict(open=open_, print=b_print, any=b_any, all=b_all,
                min=_minmax(lambda a, b: a < b, min), max=_minmax(lambda a, b: a > b, max),
                sum=b_sum, float=symfloat, int=symint, bool=symbool, next=b_next, round=b_round,
                input=None, bytearray=VByteArray)
