"""Compares the numpy stand-in (vc/shim.py) with numpy itself on several hundred expressions: the stand-in is run on
symbols, its result evaluated at random values.  Prints what differs or is not supported.  Not part of any check."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import numpy as np, random
from vc import shim, term as T, num as N
ld=shim.load_repo(); NP=shim.NP
rng=random.Random(1); ENV={}
def mk(shape,pre,k='C'):
    a=np.empty(shape,object)
    for i in np.ndindex(*shape):
        n=f'{pre}{"_".join(map(str,i))}'; a[i]=T.sym(n,k,'+' if k=='R' else ''); ENV[n]=rng.uniform(.1,1)+(1j*rng.uniform(-1,1) if k=='C' else 0)
    return NP.array(a) if shape else a[()]
sy=dict(A=mk((3,3),'A'),B=mk((3,3),'B'),v=mk((3,),'v'),w=mk((3,),'w'),X=mk((4,3,3),'X'),s=mk((),'s'),r=mk((3,),'r','R'),q=mk((),'q','R'),Z=mk((4,3),'Z'))
ev=N.Num(ENV)
T._decider[0]=lambda b: ev.b(b)
def num(x):
    if isinstance(x,T.Term): return complex(ev.ev(x))
    if isinstance(x,T.SBool): return ev.b(x)
    if isinstance(x,np.ndarray): return np.array([num(i) for i in x.flat]).reshape(x.shape) if x.dtype==object else x
    if isinstance(x,(list,tuple)): return [num(i) for i in x]
    return x
nu={k:(num(v) if isinstance(v,np.ndarray) else num(v)) for k,v in sy.items()}
nu['r']=nu['r'].real; nu['q']=nu['q'].real
import math,cmath,itertools,functools,operator
EX='''np.einsum('ij,jk->ik',A,B)
np.einsum('ij,j',A,v)
np.einsum('ij,ij->i',A,B)
np.einsum('kij,kj->ki',X,Z)
np.einsum('ii',A)
np.einsum('i,ij,j->ij',v,A,w)
np.einsum('i,ij,j->ij',v,A,w,optimize=True)
np.outer(v,w)
np.kron(A,B)
np.diag(v)
np.diag(A)
np.diagonal(A)
np.diagonal(X,axis1=1,axis2=2)
A.diagonal()
A.trace()
np.diagflat(v)
np.block([[A,B],[B,A]])
np.block([[np.eye(3),np.zeros((3,3))],[A,B]])
np.column_stack((v,w))
np.row_stack((v,w))
np.hstack((v,w))
np.hstack([A,np.zeros((3,2))])
np.vstack((v,w))
np.dstack((A,B))
np.concatenate((A,B),axis=1)
np.concatenate([v,[s]])
np.stack((A,B))
np.stack([v,w],axis=-1)
np.append(v,w)
np.append(v,s)
np.append(A,[v],axis=0)
np.insert(v,1,s)
np.insert(A,1,v,axis=0)
np.delete(A,1,axis=0)
np.delete(v,[0,1])
np.split(v,3)
np.array_split(v,2)
np.tile(v,2)
np.tile(A,(2,1,1))
np.repeat(v,2)
np.repeat(A[None],4,axis=0)
np.reshape(A,(9,))
A.reshape(-1)
A.reshape(3,1,3)
np.ravel(A)
A.ravel()
A.flatten()
np.transpose(X,(0,2,1))
X.transpose(0,2,1)
np.swapaxes(X,1,2)
X.swapaxes(-1,-2)
np.moveaxis(X,0,-1)
np.expand_dims(v,0)
np.squeeze(v[None])
np.atleast_1d(s)
np.atleast_2d(v)
np.atleast_3d(A)
np.broadcast_to(v,(4,3))
np.broadcast_arrays(v,A)
np.where(r>.5,v,w)
np.where(np.array([True,False,True]),v,w)
np.where(np.eye(3,dtype=bool),A,B)
np.where(np.eye(3)==1,A,0)
np.sum(A)
np.sum(A,axis=0)
A.sum(axis=1)
A.sum()
np.prod(v)
v.prod()
np.cumsum(v)
np.cumprod(v)
np.diff(v)
np.trace(A)
np.real(A)
np.abs(A)
np.absolute(v)
abs(A)
np.angle(v,deg=True)
np.sqrt(v)
np.power(v,2)
np.power(2,v)
v**2
v**-1
v**.5
np.exp(1j*v)
np.log10(v)
np.arctan2(r,r)
np.hypot(r,r)
np.reciprocal(v)
np.negative(v)
np.add(v,w)
np.subtract(v,w)
np.multiply(A,v)
np.divide(v,w)
np.true_divide(A,B)
np.add.outer(v,w)
np.multiply.outer(v,w)
np.subtract.outer(v,w)
np.add.reduce(v)
np.multiply.reduce(v)
np.conj(A).T
np.conjugate(v)
A.conj().T
A.T @ v
v @ A
v @ w
A @ B @ v
X @ B
X @ Z[:,:,None]
np.matmul(X,A)
np.dot(A,B)
np.dot(v,w)
np.dot(A,v)
A.dot(B)
A.dot(v)
np.inner(v,w)
np.vdot(v,w)
np.tensordot(A,B,axes=1)
np.tensordot(A,B,axes=([0],[1]))
np.cross(v,w)
np.linalg.inv(A)
np.linalg.inv(X)
np.linalg.solve(A,B)
np.linalg.solve(A,v)
np.linalg.solve(X,Z[:,:,None])
np.linalg.det(A)
np.linalg.pinv(A[:2])
np.linalg.norm(v)
np.linalg.norm(A)
np.linalg.multi_dot([A,B,v])
np.linalg.matrix_power(A,2)
np.linalg.matrix_power(A,-1)
np.linalg.lstsq(A,v,rcond=None)[0]
np.eye(3)*s
np.eye(3,dtype=complex)+A
np.identity(3)@A
np.full((3,3),s)
np.full_like(A,s)
np.zeros_like(A)+v
np.ones(3)*s
np.ones_like(v,dtype=complex)
np.zeros((3,3),dtype=complex)+A
np.triu(A)
np.tril(A,-1)
np.vander(v,3)
np.polyval([1,2,s],q)
np.polyval(v,s)
np.poly1d([1,2,3])(s)
np.interp(q,[0,1,2],[0,1,4])
np.copy(A)
np.asarray([s,1,2])
np.array([[s,1],[2,s]])
np.array([s,s],dtype=complex)
np.array([v,w])
np.ascontiguousarray(A)
np.asfarray(r)
np.asarray(A,dtype=complex)
np.asanyarray(v)
np.vectorize(lambda t:t*2)(v)
np.frompyfunc(lambda t:t*2,1,1)(v)
np.apply_along_axis(np.sum,0,A)
np.fromiter((x for x in v),dtype=complex)
np.fromiter(v,dtype=complex,count=3)
np.gradient(v)
np.trapz(v,r)
np.nan_to_num(v)
np.take(v,[0,2])
np.take(A,[0,2],axis=1)
v.take([0,2])
np.choose([0,1,0],[v,w])
np.select([np.array([True,False,True])],[v],w)
np.compress([True,False,True],v)
np.extract([True,False,True],v)
np.roll(v,1)
np.flip(v)
np.flipud(A)
np.fliplr(A)
np.rot90(A)
A[::-1]
A[:,[2,0]]
A[[0,1],[1,2]]
A[np.ix_([0,2],[1,2])]
A[np.arange(3),np.arange(3)]
A[np.newaxis]
A[...,0]
v[np.array([True,False,True])]
np.meshgrid(v,w)
np.max(r)
r.max()
np.amax(r)
r.min()
np.argmax(r)
r.argmax()
np.argmin(r)
np.maximum(r,.5)
np.minimum(r,r)
np.clip(r,.2,.5)
np.sort(r)
sorted(r)
np.argsort(r)
r.argsort()
np.searchsorted(np.array([0,.3,.6,1]),q)
np.isin(s,[1,2])
np.isclose(A,A)
np.allclose(v,w)
np.array_equal(A,A)
np.array_equal(A,B)
np.all(r>0)
(r>0).all()
np.any(r>5)
np.all(A==A)
np.count_nonzero(r>0)
np.nonzero(r>.5)
np.flatnonzero(r>.5)
np.argwhere(r>.5)
np.isnan(v)
np.isfinite(v).all()
np.isscalar(s)
np.iscomplexobj(A)
np.iscomplex(v)
np.isreal(r)
np.isrealobj(A)
np.ndim(A)
np.ndim(s)
np.shape(A)
np.shape(s)
np.size(A)
np.size(s)
A.ndim
A.size
A.tolist()
list(A)
len(A)
np.mean(A,axis=0)
A.mean()
np.average(v)
np.sign(r)
np.floor(q)
np.round(A,3) is not None
np.deg2rad(q)
np.radians(q)
np.square(v)
np.float_power(v,2)
np.exp2(q)
np.expm1(q)
np.log1p(q)
np.log2(q)
np.tanh(v)
np.tan(v)
np.cosh(v)
np.arcsin(q)
np.arccos(q)
np.arctan(q)
np.arctanh(v)
np.arcsinh(v)
np.arccosh(v)
np.sinc(q)
np.complex128(s)
complex(s)
float(q)
np.float64(q)
np.cdouble(s)
np.real_if_close(A)
np.iterable(A)
np.ndenumerate(A) is not None
[(i,t) for i,t in np.ndenumerate(v)]
[A[i] for i in np.ndindex(3,3)]
[x for x in np.nditer(v,flags=['refs_ok'])] is not None
math.sqrt(q)
math.log(q)
math.exp(q)
math.sin(q)
math.pi*q
cmath.exp(1j*q)
cmath.sqrt(s)
cmath.phase(s)
abs(s)
s.real
s.conjugate()
pow(s,2)
round(q,3) is not None
sum(v)
sum(list(v))
max(r)
min(r)
max(r,key=lambda t:-t)
functools.reduce(operator.mul,v)
functools.reduce(np.matmul,[A,B,A])
list(map(operator.add,v,w))
list(itertools.accumulate(v))
(A+B)[0,1]
-A
+A
A*s
s*A
s+A
1/A
A/s
2*A-1j*B
A-np.eye(3)
np.eye(3)-A
A==B
r<.5
(r<.5)&(r>.2)
~(r<.5)
np.logical_and(r<.5,r>.2)
np.logical_not(r<.5)
np.greater(r,.5)
np.less_equal(r,.5)
np.equal(r,r)
np.unique(np.array([1,2,2]))
np.cumsum(r)[-1]
A.copy()
A.astype(complex)
v.astype(complex)*2
A.real
A.imag
A.shape
A.conjugate()
np.bmat([[A,B]]).A
np.matrix(A)*np.matrix(B)
np.asmatrix(A).I
np.mat(A).H
A.item(0)
v.item(1)
A[0][1]
A.flat[3]
list(A.flat)
[*v]
dict(zip('abc',v))['b']
np.fmax(r,.5)
np.emath.sqrt(q)
np.ptp(r)
np.lib.scimath.sqrt(q)
np.pad(v,(1,1))
np.resize(v,(2,3))
np.trim_zeros(v)
np.ediff1d(v)
np.convolve(v,w)
np.histogram is not None
np.piecewise(r,[r<.5,r>=.5],[lambda t:t,lambda t:2*t])
np.nansum(v)
np.cov is not None
np.std(r)
np.var(r)
np.median(np.array([1,2,3.]))
np.linalg.eigvals is not None
A.__matmul__(B)
np.multiply(v[:,None],w[None,:])
np.subtract(np.eye(3),A)
np.add(A,B,out=np.zeros((3,3),dtype=complex))
np.multiply(A,2,out=A.copy())
np.linalg.solve((np.eye(3)-A),(np.eye(3)+A))
np.linalg.solve((np.eye(3)-A).T,(np.eye(3)+A).T).T
np.linalg.inv(np.eye(3)-A)@(np.eye(3)+A)
np.linalg.inv(np.diag(v))
np.diag(1/v)@A@np.diag(v)
np.fabs(q)
np.sum([A,B],axis=0)
np.sum(v*w for v,w in [(1,2)])
np.array([complex(1,2)])*s
np.array(list(map(abs,v)))
np.vstack([A,v])
np.vstack([A,v[None,:]])
np.c_[A,v]
np.r_[v,w]
np.r_['0,2',A,B]
np.s_[0:2]
np.linspace(0,q,3)
np.linspace(0,1,3)*q
np.arange(3)*q
np.geomspace(1,8,4)
np.logspace(0,2,3)
np.mod(5,3)
np.floor_divide(7,2)
np.prod([3,4])
np.unwrap(np.angle(v))
np.put_along_axis is not None
np.take_along_axis(A,np.array([[0],[1],[2]]),axis=1)
np.fill_diagonal(A.copy(),0)
np.errstate(divide='ignore') is not None
np.set_printoptions() is None
np.vsplit(np.arange(4).reshape(2,2),2)
np.lexsort((np.array([1,0]),))
np.rollaxis(X,2)
np.linalg.tensorsolve is not None
np.partition(np.array([2,1,3]),1)
np.divide(v,w,out=np.zeros_like(v),where=r<.5)
np.divide(v,w,out=np.zeros(3,dtype=complex),where=np.array([True,False,True]))
np.divide(1,r,where=r>0)
np.sqrt(v,out=np.zeros(3,dtype=complex))
np.sqrt(r,dtype=complex)
np.abs(v,where=True)
np.log10(r,where=r>.2,out=np.zeros(3))
np.maximum.reduce(r)
np.add.accumulate(v)
np.logical_and.reduce(r>0)
np.sum(v,where=np.array([True,False,True]))
np.max(r,initial=0)
max(r,default=0)
np.interp(r,[0,.5,1],[1,2,4])
np.argmax(np.abs(A),axis=0)
np.unravel_index(np.argmax(np.abs(A)),(3,3))
np.sort(r)[::-1]
np.argsort(-r)
np.lexsort((r,))
np.max(np.abs(A),axis=1)
np.abs(A).max()
np.sum(np.abs(v)**2)
np.linalg.norm(A,axis=1)
np.linalg.norm(A,'fro')
np.linalg.norm(v,ord=2)
np.unique(r)
np.unique(np.array([3,1,3]),return_index=True)
np.unique(np.array([3,1,3]),return_inverse=True)
np.searchsorted(np.sort(r),q)
np.array_equal(v,v)
np.where(np.isclose(r,q))
np.isclose(r,q).any()
any(np.isclose(t,q) for t in r)
np.min(np.abs(r-q))
np.abs(r-q).argmin()
np.real(v)+1j*np.imag(v)
np.abs(v)*np.exp(1j*np.angle(v))
np.array([abs(t) for t in v])
[complex(t) for t in v]
[float(t) for t in r]
[t.real for t in v]
np.array(v,copy=True)
np.array(v,ndmin=2)
np.array([1,2,3],dtype=complex)*s
np.array([[1,2],[3,4]],float)@np.array([s,q])
np.asarray(s)
np.array(s)
np.array(s).shape
np.asarray(q).ndim
np.asarray(s).item()
np.asarray(s)[()]
np.atleast_1d(q)*2
np.ones((3,))/np.sqrt(r)
np.zeros(3)+np.inf
np.isinf(np.array([1,np.inf]))
np.broadcast_to(q,(3,))
np.broadcast_to(A,(4,3,3))
np.einsum('...ij,...jk->...ik',X,A)
np.einsum('i,ij->ij',1/np.sqrt(r),A)
np.einsum(A,[0,1],B,[1,2],[0,2])
np.lib.stride_tricks is not None
(A.T*v).T
A*v[:,None]
A/v[None,:]
np.swapaxes(A,0,1)
[row for row in A]
A[1:,1:]-A[1:,:1]@A[:1,1:]/A[0,0]
np.zeros((0,3))
np.vstack((np.zeros((0,3)),v))
np.empty((0,))
np.r_[v,s]
np.r_[0,np.cumsum(r)]
np.linspace(0,1,5)
np.linspace(0,q,4,endpoint=False)
np.linspace(q,2*q,3,retstep=True)[0]
np.full(3,q)
np.nanmax(np.array([1,2.]))
s**2
s**.5
s**-1
2**q
q//1
q%1
divmod(7,2)
int(7.2)
abs(-q)
-s
s==s
s!=s
q<1
not q<1
q and 1
bool(q)
str(1)
hash(s) is not None
complex(q,q)
complex(s).conjugate()
'''.strip().split('\n')
bad=0; V="-v" in sys.argv
for e in EX:
    if V: print("..",e,flush=True)
    try: a=eval(e,dict(np=np,math=math,cmath=cmath,itertools=itertools,functools=functools,operator=operator,**nu))
    except Exception as x: a=('EXC',type(x).__name__)
    g=dict(np=NP,math=shim._mathmod(),cmath=shim._cmathmod(),itertools=itertools,functools=functools,operator=operator,**sy)
    mod=ld.mods['pyRFtk.rfBase'] if 'pyRFtk.rfBase' in ld.mods else None
    if mod: g['__builtins__']=mod.__dict__.get('__builtins__',__builtins__)
    try: b=eval(e,g)
    except BaseException as x: b=('EXC',type(x).__name__,str(x)[:80])
    if isinstance(b,tuple) and b and isinstance(b[0],str) and b[0]=='EXC':
        if not(isinstance(a,tuple) and a and isinstance(a[0],str) and a[0]=='EXC' and a[1]==b[1]): bad+=1; print('RAISES',e,b, 'real:',str(a)[:60].replace('\n',' '))
        continue
    if isinstance(a,tuple) and a and isinstance(a[0],str) and a[0]=='EXC': print('REAL RAISES',e,a); continue
    try:
        x,y=np.asarray(a),np.asarray(num(b) if not isinstance(b,dict) else b)
        if x.shape!=y.shape or not np.allclose(x.astype(complex),y.astype(complex)): bad+=1; print('DIFF',e,str(x)[:80].replace('\n',' '),'|',str(y)[:80].replace('\n',' '))
    except BaseException as z: 
        try:
            if a is not b and not a==b: print('CMP',e,type(a),type(b),repr(z)[:80])
        except BaseException: print('CMP?',e)
print(len(EX),bad)
