#!/usr/bin/env python3-vt
"""Compares the numpy model with numpy: every expression is evaluated with symbolic terms whose value is known."""
import math, os, sys
from fractions import Fraction
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy
import z3
from symx import core, loader, npshim, symenv
from symx.core import SymReal, SymInt, SymBool

A = numpy.array([[1.5, -2.0, 0.25], [3.0, 0.5, -1.25]])
B = numpy.array([[0.5, 2.0, 0.25], [1.0, -0.5, 4.0]])
V = numpy.array([3.0, -1.0, 2.0])
I = numpy.array([[1, 2, 2], [0, -3, 5]], dtype=numpy.int32)
J = numpy.array([2, 0, 1])
M = numpy.array([[True, False, True], [False, False, True]])
N = numpy.array([[True, True, False], [False, True, True]])
S = 1.75

EXPR = '''
A+B; A-B; A*B; A/B; A**2; -A; abs(A); A*2; 2*A; 1/B; A//B; A%B; I+1; I*2; I/2; I//2; I%2; I**2; I*A; I-M; M*N; M+N; M&N; M|N; M^N; ~M
M*2; M+1; M*A; A*M; A[M]; A[~M]; A[M & N]; I[M]; A[0]; A[:,1]; A[1,2]; A[...,0]; A[:,None,:]; A[J%2]; A[:,J]; A[[0,1],[2,0]]; V[::-1]; V[1:]; V[-1]; A.T; A.transpose(); A.ravel(); A.flatten(); A.reshape(3,2); A.reshape(-1); A.reshape((3,-1))
np.sum(A); np.sum(A,axis=0); np.sum(A,axis=1,keepdims=True); A.sum(axis=(0,1)); np.mean(A); A.mean(axis=0); np.mean(A,axis=1,keepdims=True); np.var(A); np.std(V); A.var(axis=0); np.var(V, ddof=1); np.min(A); np.max(A,axis=1); A.min(axis=0); A.max(); np.prod(V); np.average(V); np.average(V, weights=[1,2,3]); np.median(V); np.median(A)
np.any(M); np.all(M); M.any(axis=0); np.all(M,axis=1); M.sum(); np.sum(M,axis=0); np.count_nonzero(M); np.any(A>2); (A>2).all(); np.sum(A>0)
np.minimum(A,B); np.maximum(A,0.5); np.fmin(A,B); np.clip(A,-1,1); A.clip(0); np.abs(A); np.sign(A); np.sqrt(np.abs(A)); np.square(A); np.floor(A); np.ceil(A); np.trunc(A); np.fix(A); np.rint(V); np.round(A); A.astype(int); I.astype(float); np.hypot(A,B); np.negative(A)
A>B; A>=0.25; A==B; I==2; I!=2; np.equal(I,2); np.logical_and(M,N); np.logical_or(M,N); np.logical_not(M); np.logical_xor(M,N); np.isin(I,[2,5]); np.isclose(A,A+1e-12); np.allclose(A,A); np.array_equal(A,A); np.array_equal(A,B); np.isnan(A); np.isfinite(A)
np.where(M,A,B); np.where(A>0,A,0); np.where(M); np.nonzero(M); np.argwhere(M); np.flatnonzero(M); np.select([A>1,A<0],[A,B],7.0); np.choose(I%2,[A,B])
np.dot(A,V); A@V; A.dot(V); np.dot(V,V); A@B.T; np.matmul(A,B.T); np.outer(V,V); np.cross(V,V[::-1]); np.inner(V,V); np.einsum('ij,j->i',A,V); np.vdot(V,V); np.linalg.norm(V); np.linalg.norm(A,axis=1); np.eye(3)*S; np.diag(V); np.trace(A@B.T); np.tensordot(V,V,1) if False else 0
np.cumsum(V); np.cumsum(A,axis=1); np.cumsum(A,axis=0); np.cumsum(A); np.diff(V); np.diff(A,axis=0); np.diff(A); np.cumprod(V); np.ptp(V)
np.concatenate([A,B]); np.concatenate([V,[1.0]]); np.vstack([V,V]); np.hstack([V,V]); np.stack([V,V],axis=1); np.column_stack([V,V]); np.append(V,4.0); np.insert(V,1,9.0); np.tile(V,2); np.repeat(V,2); np.flip(V); np.roll(V,1); np.expand_dims(V,0); np.squeeze(V[None]); np.swapaxes(A,0,1); np.moveaxis(A,0,1); np.broadcast_to(V,(2,3)); np.r_[V,1.0]; np.c_[V,V]; np.r_[0.0,V]; np.take(V,[2,0]); np.delete(V,1)
np.zeros_like(A)+S; np.ones_like(I); np.full((2,2),S); np.full_like(A,S); np.zeros((2,2))+S; np.arange(3)*S; np.linspace(S,2*S,4); np.arange(0,S,0.5); np.array([S,1,2]); np.array([[S,1],[2,3]]); np.asarray(V,dtype=float); np.array(V,dtype=int); np.fromiter((x for x in V),dtype=float); np.meshgrid(V,J,indexing='ij')[0]; np.meshgrid(V,J)[1]
np.interp(S,[0,1,2],[3,5,9]); np.interp(V,[0,1,2],[3,5,9]); np.interp(5*S,[0,1,2],[3,5,9]); np.searchsorted([0,1,2],S); np.digitize(V,[0,1,2]); np.argmin(V); np.argmax(A); A.argmax(axis=1); np.argsort(V); np.sort(V); np.unique(I); np.unique(I,return_counts=True)[1]; len(V); A.shape; A.size; A.ndim; np.size(A); np.shape(A)
np.deg2rad(A)*180/np.pi; np.vectorize(lambda x: x*2 if x > 0 else -x)(A); np.apply_along_axis(lambda r: r[0]-r[1], 1, A); [x for x in V]; [tuple(i) for i,_ in np.ndenumerate(A)]; max(V); min(V); sum(V); sorted(V); list(zip(V,J)); np.add.reduce(A); np.maximum.reduce(A,axis=1); np.add.accumulate(V); np.subtract.outer(V,V); np.multiply(A,B,out=np.zeros_like(A)); np.nan_to_num(A)
int(S); round(S); math.floor(S); math.ceil(S); S//1; S%1; divmod(S,1)[1]; abs(-S); S**2; S**0.5 if False else 0; -S; S>1 and S<2; 1<S<2; bool(S); str(S) if False else 0; max(S,2.0); A.real; V.imag; V@A.T; min(S,1.0); I[0,0]+S; I[0,1]//2; I[1,1]//2; I[1,1]%2; -I[1,1]//2; int(A[0,1]); int(A[1,2]); A[I[0,0],I[0,1]]; V[I[0,1]]; range(I[0,1]); list(range(I[0,1])); [0]*I[0,1]
'''
STMT = '''
X=A.copy(); X[M]=0; R=X
X=A.copy(); X[M]=V; R=X
X=A.copy(); X[M]=B[M]; R=X
X=A.copy(); X[0]=V; R=X
X=A.copy(); X[:,1]=S; R=X
X=A.copy(); X[0,1]+=S; R=X
X=A.copy(); X+=B; R=X
X=A.copy(); X*=V; R=X
X=A.copy(); X[M]*=2; R=X
X=A.copy(); X[M]+=B[M]; R=X
X=A.copy(); X[...]=0; R=X
X=A.copy(); np.copyto(X,B,where=M); R=X
X=A.copy(); np.putmask(X,M,B); R=X
X=A.copy(); Y=X[0]; Y[1]=7.0; R=X
X=A.copy(); Y=X.T; Y[1,0]=7.0; R=X
X=A.copy(); Y=X.ravel(); Y[1]=7.0; R=X
X=A.copy(); Y=X.flatten(); Y[1]=7.0; R=X
X=A.copy(); Y=X.reshape(3,2); Y[0,1]=7.0; R=X
X=A.copy(); Y=np.asarray(X); Y[0,1]=7.0; R=X
X=A.copy(); Y=np.array(X); Y[0,1]=7.0; R=X
X=I.copy(); X[0]=[1.7,-1.7,2.0]; R=X
X=I.copy(); X[M]=2.9; R=X
X=np.zeros((2,3),dtype=np.int32); X[0,1]=S; R=X
X=np.zeros(3); X[J]=V; R=X
X=A.copy(); X.fill(S); R=X
X=A.copy(); X[A>0]=-1; R=X
X=V.copy(); X.sort(); R=X
X=A.copy(); X[:, J]=B; R=X
X=A.copy(); X.flat[1]=S; R=X
X=A.copy(); X[0], X[1] = X[1].copy(), X[0].copy(); R=X
X=A.copy(); np.maximum(X,B,out=X); R=X
X=A.copy(); X-=X.mean(); R=X
X=np.empty((2,3)); X[:]=A; R=X
'''


def sym(x):
    if isinstance(x, numpy.ndarray):
        k = {'f': 'f', 'i': 'i', 'b': 'b'}[x.dtype.kind]
        return npshim.mk([symc(e.item()) for e in x.ravel()], x.shape, k)
    return symc(x)


def symc(v):
    """a fresh variable that the path condition fixes to v"""
    c = core.cur()
    if isinstance(v, bool):
        t = c.fresh('b', 'c')
        c.add(t == v)
        return SymBool(t)
    if isinstance(v, int):
        t = c.fresh('i', 'c')
        c.add(t == v)
        return SymInt(t)
    t = c.fresh('r', 'c')
    c.add(t == core.rv(Fraction(v)))
    return SymReal(t)


def flat(r):
    if isinstance(r, npshim.SArr):
        return [('array', r.shape, r.dtype.kind)] + list(r.raw().ravel())
    if isinstance(r, numpy.ndarray):
        return [('array', r.shape, r.dtype.kind)] + r.ravel().tolist()
    if isinstance(r, range):
        r = list(r)
    if isinstance(r, (list, tuple)):
        return [('len', len(r))] + [y for e in r for y in flat(e)]
    if isinstance(r, numpy.generic):
        return [r.item()]
    return [r]


def kind(v):
    if isinstance(v, (bool, SymBool)):
        return 'b'
    return 'i' if isinstance(v, (int, SymInt)) else 'f'


def value(v, ctx):
    if not core.is_sym(v):
        return v
    r, m = ctx._check(ms=5000)
    assert r == z3.sat, r
    t = m.eval(v.t, model_completion=True)
    if isinstance(v, SymBool):
        return z3.is_true(t)
    return float(symenv.num_of(t))


def model(text, stmt):
    stack = [[]]
    ctx = core.Ctx(core.Stats(), [], {'fork_ms': 3000}, stack)
    core.Ctx.cur = ctx
    ld = loader.Loader()
    g = {'__builtins__': ld.builtins, 'np': ld.numpy, 'math': ld.math}
    g.update({k: sym(v) for k, v in INPUT.items()})
    stack.clear()
    if stmt:
        exec(text, g)
        r = g['R']
    else:
        r = eval(text, g)
    got = flat(r)
    return [value(x, ctx) if not isinstance(x, tuple) else x for x in got], [kind(x) for x in got], len(stack)


def real(text, stmt):
    g = {'np': numpy, 'math': math}
    g.update({k: numpy.array(v) if isinstance(v, numpy.ndarray) else v for k, v in INPUT.items()})
    if stmt:
        exec(text, g)
        r = g['R']
    else:
        r = eval(text, g)
    got = flat(r)
    return got, [kind(x) for x in got]


INPUT = dict(A=A, B=B, V=V, I=I, J=J, M=M, N=N, S=S)


def same(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return a == b
    if a != a or b != b:
        return a != a and b != b
    return a == b or abs(a - b) < 1e-9


def main():
    bad = forked = unsup = n = 0
    items = [(e.strip(), False) for l in EXPR.splitlines() for e in l.split(';') if e.strip()]
    items += [(l.strip(), True) for l in STMT.splitlines() if l.strip()]
    items = [(e, s) for e, s in items if len(sys.argv) < 2 or any(a in e for a in sys.argv[1:])]
    for text, stmt in items:
        n += 1
        want, wk = real(text, stmt)
        try:
            got, gk, forks = model(text, stmt)
        except core.Unsupported as e:
            unsup += 1
            print('UNSUPPORTED %s: %s' % (text, e))
            continue
        except Exception as e:
            bad += 1
            print('ERROR       %s: %s: %s' % (text, type(e).__name__, e))
            continue
        if len(got) != len(want) or not all(same(a, b) for a, b in zip(got, want)):
            bad += 1
            print('DIFFERENT   %s: %s instead of %s' % (text, got, want))
        elif gk != wk:
            bad += 1
            print('KIND        %s: %s instead of %s' % (text, gk, wk))
        if forks:
            forked += 1
            print('FORKS       %s' % text)
    print('%d expressions, %d different, %d not modelled' % (n, bad, unsup))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
