"""Engine self-test: expressions evaluated with sx's numpy/math/struct and with the real ones must agree.

Not a check of the code under verification: it tests the stand-ins the checks rely on.  Each
expression is evaluated twice with the engine: on concrete values held in a SymArray, and on
symbolic values pinned to those numbers by the path condition (the result is then asked of the solver).
"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from sx import core, arr, stubs
import z3
import numpy as np

EXPR = '''
a@a.T | n.matmul(a,a.T) | n.dot(a,a.T) | a+b | a-b | a*b | a/(b+10) | -a | abs(a-b) | a**2 | a>b | (a>2)&(b<2) | n.where(a>b,a,b)
n.sum(a,where=a>1) | n.mean(a,axis=0,where=a>0.5) | n.max(a,initial=9) | a.max(where=a<4,initial=0) | a.sum() | a.sum(0) | a.mean() | a.mean(axis=1) | a.prod()
n.var(a) | n.median(a) | n.median(a,axis=0) | n.sort(a) | n.sort(a,axis=None) | n.argsort(a,axis=0) | n.ptp(a) | a.argmax() | a.argmin(axis=1) | a.min() | n.nanmax(a)
n.round(a*1.26,1) | n.select([a>3,a>1],[a,-a],7) | n.choose(n.array([0,1,0]),[a[0],a[1]]) | n.clip(a,1,3) | a.clip(1,3) | n.sign(a-2) | n.maximum(a,b) | n.minimum(a,b)
n.linalg.det(a[:,:2]) | n.einsum('ij,ij->i',a,a) | n.inner(a,a) | n.outer(a[0],a[1]) | n.vdot(a[0],a[1]) | n.tensordot(a,a,axes=([1],[1])) | n.trace(a[:,:2]) | n.cross(a[0],b[1])
n.pad(a,1) | n.pad(a,((0,1),(1,0)),'edge') | n.pad(a,1,'wrap') | n.unravel_index(4,(2,3)) | n.ravel_multi_index((1,2),(2,3)) | n.unravel_index(n.argmin(a),a.shape)
n.block([[a],[a]]) | n.vstack([a,b]) | n.hstack([a,b]) | n.dstack([a,b]) | n.stack([a,b],axis=1) | n.concatenate([a,b],axis=1) | n.column_stack([a[0],b[0]]) | n.append(a,b) | n.insert(a,1,7,axis=1) | n.delete(a,1,axis=1)
n.diff(a) | n.diff(a,axis=0) | n.cumsum(a,axis=1) | n.fmod(a,2) | n.add.reduce(a) | n.multiply.outer(a[0],b[0]) | n.add.reduceat(a[0],[0,2]) | n.subtract(a,b,out=n.zeros((2,3)))
n.vectorize(lambda x,y:x+y)(a,1.) | n.apply_along_axis(lambda r:r.sum(),1,a) | n.any(a>4,where=a<5) | n.roll(a,1,axis=0) | n.roll(a,2) | n.flip(a,1) | n.flipud(a) | n.fliplr(a) | n.rot90(a)
n.meshgrid(a[0],a[1])[0] | n.tile(a,(2,1)) | n.repeat(a,2,axis=1) | n.kron(a,n.ones((1,2))) | n.convolve(a[0],[1.,1.]) | n.split(a,3,axis=1)[1] | n.r_[a[0],a[1]] | n.c_[a[0],a[1]] | n.array_split(a,2)[0]
n.lib.stride_tricks.sliding_window_view(a,(2,2)) | a[:,::-1] | a[::2] | a[a>2] | a[[1,0]] | a[[0,1],[2,1]] | a[...,None] | a.T | a.ravel('F') | a.reshape(3,2,order='F') | a.reshape(-1) | a.flatten() | n.nonzero(a>2) | n.argwhere(a>2) | n.flatnonzero(a>2) | n.count_nonzero(a)
n.swapaxes(a,0,1) | n.moveaxis(a[None],0,2) | n.transpose(a) | n.squeeze(a[None]) | n.expand_dims(a,0) | n.atleast_3d(a) | n.broadcast_to(a[0],(2,3)) | n.ix_([0,1],[1,2])[1] | a[n.ix_([0,1],[1,2])] | n.take(a,[0,2],axis=1) | n.take_along_axis(a,n.argsort(b,axis=1),axis=1)
n.zeros_like(a) | n.ones((2,2)) | n.full((2,2),3.) | n.full_like(a,2.) | n.empty((0,2)) | n.arange(3.) | n.linspace(0,1,5) | n.eye(2) | n.identity(2) | n.diag(a[:,:2]) | n.array([a,b]) | n.asarray(a) | n.ascontiguousarray(a) | n.copy(a)
n.isclose(a,b) | n.allclose(a,a) | n.array_equal(a,b) | n.isfinite(a) | n.isnan(a) | n.all(a>=0) | n.logical_not(a) | n.logical_and(a>1,b>1) | (a==b).any() | a.all(axis=1) | n.searchsorted(n.array([1.,2.,3.]),2.5) | n.interp(0.5,[0.,1.],[2.,4.])
n.fromiter((x for x in [1.,2.]),float) | n.array([[1,2],[3,4]]).astype(float) | a.astype('>f8') | a.astype(int) | n.float64(3) | n.floor(a*1.3) | n.ceil(a*1.3) | n.trunc(a*1.3) | n.square(a) | n.average(a) | n.average(a,weights=b+1)
m.fsum([1.,2.]) | m.prod([2.,3.]) | m.hypot(3.,4.) | m.dist([0.,0.],[3.,4.]) | m.fabs(-2.) | m.floor(2.5) | m.isclose(1.,1.) | m.copysign(2.,-1.) | m.radians(0.) | m.degrees(0.) | m.trunc(2.7) | m.isnan(2.)
s.unpack('>2d',s.pack('>2d',1.,2.)) | s.unpack('>i',s.pack('>i',7)) | s.calcsize('>3d')
n.ndindex(2,2) | n.ndenumerate(a) | n.nditer(n.array([1.,2.])) | sorted(a.flat) | max(a[0]) | min(a.flat) | sum(a[0]) | a.tolist() | list(a.flat) | any(a[0]) | len(a)
n.indices((2,3))[1] | n.fromfunction(lambda i,j:i+2*j,(2,3)) | n.frompyfunc(lambda x,y:x+y,2,1)(a,b) | n.piecewise(a,[a<2,a>=2],[lambda x:-x,lambda x:x]) | n.nanargmin(a) | n.nanmin(a) | n.nanmean(a)
n.logical_or.reduce(a>4,axis=1) | n.logical_and.reduce(a>4,axis=None) | n.maximum.reduce(a) | n.minimum.reduce(a,axis=1) | n.add.accumulate(a,axis=1)
n.remainder(a,2) | n.mod(a,2.) | divmod(a[0,0],2.)[1] | a%2 | a//2 | n.floor_divide(a,2) | n.deg2rad(0*a) | n.rad2deg(0*a) | n.absolute(-a) | n.fabs(-a) | n.negative(a) | n.reciprocal(a+1) | n.power(a,2) | n.float_power(a,2)
n.extract(a>2,a) | n.compress([True,False,True],a,axis=1) | n.rollaxis(a,1) | n.atleast_2d(a[0]) | n.atleast_1d(a[0,0]) | n.ravel(a) | n.resize(a,(3,2)) | n.reshape(a,(3,2),order='F')
n.triu(a[:,:2]) | n.tril(a[:,:2]) | n.hsplit(a,3)[0] | n.vsplit(a,2)[1] | n.concatenate((a[0],b[0])) | n.require(a,float) | n.array(a,copy=True,order='F') | n.asfortranarray(a) | n.array(list(zip(a[0],b[0]))) | n.stack((a[:-1,:-1],a[1:,1:]),-1)
n.ediff1d(a[0]) | n.cumprod(a[0]) | n.array_equiv(a,a) | n.not_equal(a,b) | n.equal(a,b) | n.greater(a,b) | n.less_equal(a,b) | n.logical_xor(a>1,b>1) | n.isneginf(a) | n.isinf(a) | n.spacing(1.)
n.isscalar(a[0,0]) | n.ndim(a) | n.shape(a) | n.size(a) | n.size(a,1) | a.size | a.nbytes | a.itemsize | n.result_type(a,b)==n.dtype(float) | n.can_cast(int,float) | n.broadcast_arrays(a[0],b)[0] | n.broadcast_shapes((2,1),(1,3))
n.linalg.norm(a-a) | n.sqrt(n.square(0*a)) | n.dot(a[0],b[0]) | n.matmul(a,b.T) | a.dot(b.T) | n.einsum('ij,kj->ik',a,b) | n.einsum('ij->j',a) | n.sum((a,b),axis=0) | sum([a,b]) | n.mean([a,b],axis=0) | n.max([a,b]) | n.bitwise_and(a>1,b>1) | ~(a>1) | (a>1)^(b>1) | (a>1).sum() | (a>1).mean()
a.item(0) | a.item((1,1)) | a.take([0,1]) | a.repeat(2,0) | a.diagonal() | a.trace() | a.cumsum() | a.swapaxes(0,1) | a.transpose(1,0) | a.compress([True,False],axis=0) | a.nonzero()[0] | a.argsort()[0] | a.searchsorted if False else 0 | a.round(1) | a.conj() | a.real | a.std()*0 | a.view() | a.astype(float,copy=False) | a.astype('f8',order='F') | a.sum(keepdims=True) | a.max(0,keepdims=True) | a.min(axis=(0,1))
dict(zip('abc',a[0]))['b'] | [x for row in a for x in row] | list(map(lambda r:r.sum(),a)) | list(reversed(a[0])) | list(enumerate(a[0])) | a[0,-1] | a[-1][::-1] | a[slice(None),1] | a[n.s_[:,1:]] | a[n.newaxis].shape | a[:, None, :].shape | a.flat[3] | a[n.array([True,False])] | a[(a>1)&(b>1)]
m.pi | m.isfinite(1.) | m.nan!=m.nan | m.fmod(5.,3.) | m.ceil(2.1) | m.pow(2.,3.) | m.modf(2.5)[1] | m.gcd(4,6) | m.comb(4,2) | m.sqrt(4.) | m.nextafter(1.,1.)
'''

A = [[3., 1., 2.], [5., 4., 0.]]
B = [[1., 2., 2.], [0., 7., 3.]]


def plain(x):
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return plain(arr.base(x).tolist())
    if hasattr(x, '__next__') or type(x).__name__ in ('ndindex', 'ndenumerate', 'nditer'):
        return [plain(v) for v in x]
    if isinstance(x, np.generic):
        return x.item()
    return x


def same(x, y, prove):
    if isinstance(y, list):
        return isinstance(x, list) and len(x) == len(y) and all(same(p, q, prove) for p, q in zip(x, y))
    if isinstance(x, core.Sym):
        t = x.t
        if z3.is_bool(t):
            return prove(t == z3.BoolVal(bool(y)))
        if z3.is_int(t):
            return prove(t == int(y))
        d = t - z3.RealVal(float(y).as_integer_ratio()[0]) / z3.RealVal(float(y).as_integer_ratio()[1])
        return prove(z3.And(d < 1e-9, d > -1e-9))
    return abs(float(x) - float(y)) < 1e-9


def main():
    import math
    import struct
    n, m, s = stubs.NumpyShim(), stubs.MathShim(), stubs.StructShim()
    exprs = [e.strip() for line in EXPR.strip().splitlines() for e in (line.split(' | ') if ' | ' in line else [line])]
    bad = 0
    for e in exprs:
        want = plain(eval(e, dict(n=np, m=math, s=struct, a=np.array(A), b=np.array(B))))
        try:
            got = plain(eval(e, dict(n=n, m=m, s=s, a=n.array(A), b=n.array(B))))
            if not same(got, want, None):
                print('DIFFERS (concrete)', e, got, want)
                bad += 1
        except BaseException as x:
            print('FAILS (concrete)', e, type(x).__name__, str(x)[:120])
            bad += 1
        res = []

        def body(ctx):
            a, b = n.zeros((2, 3)), n.zeros((2, 3))
            for nm, X, V in (('a', a, A), ('b', b, B)):
                for i in range(2):
                    for j in range(3):
                        v = core.SR(z3.Real('%s%d%d' % (nm, i, j)))
                        ctx.axiom(v.t == V[i][j])
                        X[i, j] = v
            got = plain(eval(e, dict(n=n, m=m, s=s, a=a, b=b)))

            def prove(f):
                sol = z3.Solver()
                sol.set('timeout', 5000)
                sol.add(ctx.solver.assertions())
                sol.add(z3.Not(f))
                return sol.check() == z3.unsat
            res.append((same(got, want, prove), got))
        try:
            run(body)
            if not res or not all(r for r, _ in res):
                print('DIFFERS (symbolic)', e, [g for r, g in res if not r][:1], want)
                bad += 1
        except BaseException as x:
            print('FAILS (symbolic)', e, type(x).__name__, str(x)[:120])
            bad += 1
    print('%d expressions, %d problems' % (len(exprs), bad))
    return bad > 0


def run(body):
    core.explore(body, {}, max_paths=200)


if __name__ == '__main__':
    sys.exit(main())
