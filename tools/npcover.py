"""which numpy expressions the symbolic arrays understand (dev helper): each one on pinned symbolic values against numpy"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
import numpy as np

from symx import driver, loader

A = np.array([[3, 1, 2], [0, 5, 4]])
I = np.array([2, 0, 1, 2, 5])
F = np.array([[1.5, -2.0, 0.25], [3.0, 4.5, -1.0]])
V = np.array([0.5, 2.0, -1.5, 4.0])
S = np.array([[2.0, 1.0, 0.5], [0.5, 3.0, 1.0], [1.0, 0.25, 4.0]])
EXPRS = '''
np.ndim(A)|np.ndim(x)|np.ndim([x,x])|np.shape(A)|np.size(A)|A.size|A.shape|A.ndim|len(A)|A.T|A.reshape(-1)|A.reshape(3,2)|A.ravel()|A.flatten()|A.ravel(order='F')|A.reshape((3,2),order='F')
np.roll(I,1)|np.roll(A,1,axis=0)|np.flip(I)|np.flip(A,axis=1)|np.fliplr(A)|np.flipud(A)|I[::-1]|np.rot90(A)|np.moveaxis(A,0,1)|np.transpose(A)|np.swapaxes(A,0,1)|A.swapaxes(0,1)|A.transpose()|A.transpose(1,0)
np.expand_dims(I,0)|np.squeeze(A[:1])|A[:1].squeeze()|np.atleast_1d(x)|np.atleast_1d(I)|np.atleast_2d(I)|np.atleast_3d(A)|np.stack([I,I])|np.vstack([I,I])|np.hstack([I,I])|np.dstack([I,I])|np.column_stack([I,I])|np.concatenate([I,I])|np.concatenate((A,A),axis=1)|np.append(I,x)|np.append(I,I)|np.append(A,A,axis=0)
np.insert(I,1,x)|np.insert(I,0,7)|np.delete(I,1)|np.delete(I,[0,1])|np.split(I,[2])|np.array_split(I,2)|np.vsplit(A,2)|np.hsplit(A,3)|np.tile(I,2)|np.tile(A,(2,1))|np.repeat(I,2)|np.repeat(I,[1,2,0,1,1])|np.repeat(A,2,axis=0)|I.repeat(2)|np.broadcast_to(I,(2,5))|np.resize(I,(3,3))
np.triu(S)|np.tril(S)|np.diag(S)|np.diag(V)|np.diagonal(S)|np.trace(S)|S.trace()|S.diagonal()|np.meshgrid(I,I)|np.meshgrid(I,I,indexing='ij')|np.compress([1,0,1,0,0],I)|np.extract(I>1,I)|np.choose([0,1,0],[[x,x,x],[1,2,3]])|np.select([I>1,I>0],[I,-I],0)|np.where(I>1,I,0)|np.where(I>1)|np.where(I>1)[0]
np.nan_to_num(F)|np.isfinite(F)|np.isnan(F)|np.isinf(F)|np.sign(F)|np.abs(F)|np.absolute(F)|np.fabs(F)|abs(F)|-F|np.negative(F)|np.heaviside(V,0.5)|np.gradient(V)|np.trapezoid(V)|np.interp(0.5,[0.0,1.0],[2.0,4.0])|np.ptp(V)|np.median(V)|np.percentile(V,50)|np.quantile(V,0.25)|np.digitize(V,[0.0,1.0])|np.histogram(V,bins=[-2,0,5])[0]
np.einsum('ij,ij->i',F,F)|np.einsum('ij,jk->ik',F,S)|np.tensordot(F,S,axes=1)|np.kron(V,V)|np.linalg.det(S)|np.linalg.norm(V)|np.linalg.norm(F,axis=1)|np.linalg.inv(T)|np.linalg.solve(T,V[:3])|np.linalg.pinv(T)|np.linalg.matrix_power(S,2)|np.apply_along_axis(lambda v:v.sum(),1,F)|np.vectorize(lambda v:v+1)(F)
list(np.ndenumerate(I))|list(np.ndindex(2,2))|np.r_[I,I]|np.r_[0,I]|np.c_[I,I]|I[np.ix_([0,1])]|A[np.ix_([0,1],[2,0])]|np.nditer|np.sum(F)|np.sum(F,axis=0)|F.sum(axis=1)|F.sum(0)|np.sum(F,axis=1,keepdims=True)|np.sum(I>1)|(I>1).sum()|np.count_nonzero(I)|np.count_nonzero(I>1)|np.count_nonzero(A,axis=0)|np.prod(F)|np.prod(F,axis=0)|np.cumsum(I)|np.cumprod(I)|I.cumsum()|np.diff(I)|np.diff(A,axis=0)|np.ediff1d(I)
np.max(F)|np.min(F,axis=0)|np.amax(F)|np.amin(F)|np.nanmax(F)|np.nanmin(F)|np.nansum(F)|np.nanmean(F)|np.maximum(V,1.0)|np.minimum(V,1.0)|np.maximum.reduce(V)|np.minimum.reduce(F)|np.add.reduce(F)|np.multiply.reduce(V)|np.add.accumulate(I)|np.logical_or.reduce([I>1,I>0])|np.logical_and.reduce([I>1,I>0])|np.add.reduceat(I,[0,2])|np.add.outer(I,I)|np.multiply.outer(V,V)|np.subtract.outer(V,V)
np.argmax(V)|np.argmin(V)|np.argmax(F,axis=1)|V.argmax()|V.argmin()|np.argsort(V)|V.argsort()|np.argsort(I,kind='stable')|np.argsort(A,axis=1)|np.sort(V)|np.sort(A,axis=1)|np.sort(A,axis=0)|np.sort(I)[::-1]|np.lexsort((I,I))|np.unique(I)|np.unique(I,return_index=True)|np.unique(I,return_inverse=True)|np.unique(I,return_counts=True)|np.unique(A,axis=0)|np.partition(V,1)[1]
np.argwhere(I>1)|np.nonzero(I)|I.nonzero()|np.flatnonzero(I)|np.allclose(F,F)|np.isclose(F,F)|np.array_equal(I,I)|np.array_equiv(I,I)|np.isin(I,[1,2])|np.isin(I,I)|np.in1d(I,[1,2]) if hasattr(np,'in1d') else 0|np.any(I>1)|np.all(I>1)|(I>1).any()|(I>=0).all()|np.all(A>0,axis=1)|np.any(A>3,axis=0)|np.logical_not(I>1)|np.logical_and(I>1,I<3)|np.logical_or(I>1,I<1)|np.logical_xor(I>1,I<3)|~(I>1)|(I>1)&(I<3)|(I>1)|(I<1)|(I>1)^(I<3)|np.invert(I>1)
np.take(I,[0,1])|I.take([0,1])|np.take(A,[0],axis=1)|np.take_along_axis(A,np.argsort(A,axis=1),axis=1)|np.full_like(I,3)|np.full((2,2),x)|np.zeros_like(I)|np.ones_like(F)|np.empty_like(I).shape|np.full(3,x)|I@I|A@A.T|np.matmul(A,A.T)|np.dot(V,V)|V.dot(V)|np.vdot(V,V)|np.inner(V,V)|np.outer(V,V)|np.cross(F,F[::-1])|np.cross(F[0],F[1])
np.bincount(I)|np.bincount(I,minlength=8)|np.searchsorted([0,1,2,3],I)|np.searchsorted(np.sort(I),[1,2])|np.clip(I,1,3)|I.clip(1,3)|np.round(F)|np.rint(F)|np.floor(F)|np.ceil(F)|np.trunc(F)|np.around(F,1)|F.round()|np.intersect1d(I,[1,2])|np.setdiff1d(I,[1])|np.union1d(I,[7])|np.setxor1d(I,[1,9])
np.sqrt(F*F)|np.square(F)|np.power(F,2)|F**2|F**2.0|np.hypot(F,F)|np.reciprocal(F)|1/F|F/2|F//1|I//2|I%2|np.mod(I,2)|np.remainder(I,2)|np.floor_divide(I,2)|np.divmod(I,2)|divmod(I,2)|I<<1|I>>1|I&1|I|1|I^1|np.left_shift(I,1)|np.bitwise_and(I,1)|np.bitwise_or(I,1)|np.gcd(I,2)|np.exp(V)|np.log(F*F)|np.sin(V)|np.cos(V)|np.deg2rad(V)|np.radians(V)|np.arctan2(V,V)|np.copysign(F,-1.0)|np.true_divide(F,2)|np.divide(F,2)|np.multiply(F,F)|np.add(F,F)|np.subtract(F,F)|np.positive(F)|np.float_power(F,2)|np.cbrt(V)
np.equal(I,2)|np.not_equal(I,2)|np.less(I,2)|np.less_equal(I,2)|np.greater(I,2)|np.greater_equal(I,2)|I==2|I!=2|2<I|2==I|np.mean(F)|np.mean(F,axis=0)|F.mean(axis=1)|np.mean(I)|np.average(F)|np.average(F,axis=0)|np.average(V,weights=[1,2,3,4])|np.average(F,axis=1,weights=[1,2,3])|np.std(V)|np.var(V)|V.std()|V.var()|np.std(F,axis=0)|np.cov(F)|np.corrcoef(V,V)
I.astype(float)|I.astype('int32')|I.astype(np.int64)|F.astype(np.float32).astype(float)|I.astype(bool)|I.copy()|np.copy(I)|I.tolist()|list(I)|set(I.tolist())|sorted(I.tolist())|tuple(I)|max(I)|min(I)|sum(I)|sum(I.tolist())|I.item(0)|I[0].item()|int(I[0])|float(F[0,0])|bool(I[0])|any(I>1)|all(I>1)|enumerate(I)|list(zip(I,I))|list(map(int,I))|list(reversed(I))|2 in I|2 in I.tolist()|I.tolist().index(1)|I.tolist().count(2)|str(I.dtype)|I.dtype==int|I.dtype.kind|I.itemsize|I.nbytes|np.issubdtype(I.dtype,np.integer)|isinstance(I,np.ndarray)|isinstance(I[0],(int,np.integer))|np.isscalar(x)|np.iterable(I)|np.can_cast(I.dtype,float)|np.result_type(I,F)|np.dtype(I.dtype).itemsize
I[I>1]|I[[0,1]]|I[np.array([0,1])]|A[:,0]|A[0]|A[0,:]|A[:,[0,2]]|A[...,0]|A[None]|I[:,None]|I[np.newaxis]|A[[0,1],[0,2]]|A[I>9] if False else 0|I[-1]|I[1:3]|I[::2]|A[:, ::-1]|np.array([I,I])|np.array([x,x])|np.array([[x,1],[2,x]])|np.asarray([x])|np.array(I,dtype=float)|np.array(list(I))|np.fromiter((i for i in I),dtype=int)|np.fromiter(I,int)|np.array([*I,x])|np.asarray(I).dtype.kind|np.ascontiguousarray(A.T)|np.require(A)|np.asfortranarray(A)|np.array(A,order='F')|np.arange(5)[I-I]|np.arange(6)[I]|np.arange(12).reshape(6,2)[I]|np.eye(3)[I%3]|V[I%4]|np.zeros(3)+x|np.arange(3)+x|np.linspace(x,x+1,3)|np.linspace(0,x,3)|np.arange(x)|np.zeros(x)|np.zeros((x,2))|np.ones(x)|range(x)
np.may_share_memory(I,I)|np.shares_memory(I,I)|I.flags['C_CONTIGUOUS']|I.flags.writeable|I.base is None|I.view()|A.flat[0]|list(A.flat)|A.strides|np.unravel_index(3,(2,3))|np.ravel_multi_index(([0,1],[1,2]),(2,3))|np.polyval([1,2,3],V)|np.polyfit|np.vander(V,3)|np.convolve(V,[1,1])|np.correlate(V,V)|np.fft.fft(V)|np.abs(np.fft.fft(V))|np.fft.rfft(V)|np.fft.ifft(V)|np.fft.fftshift(V)|np.real(V)|np.imag(V)|V.real|np.conj(V)|np.hanning(4)*V|np.hamming(4)*V|np.array2string|np.put_along_axis|np.nanargmax(V)|np.i0|np.block([[A],[A]])|np.array_str|np.unwrap|np.geomspace(1,8,4)|np.identity(3)*x|np.tri(3)*x|np.triu_indices(3)|np.tril_indices(3)|np.diag_indices(3)|np.indices((2,2))|np.mgrid[0:2,0:2]|np.lib.stride_tricks.sliding_window_view(V,2)|np.emath|np.rollaxis(A,1)|np.trim_zeros(I)|np.iinfo(int).max|np.finfo(float).eps|np.inf|np.nan|np.pi|np.float64(x)|np.int64(x)|np.int32(x)|np.float32(x)|np.bool_(x)|np.isreal(V)|np.iscomplexobj(V)|np.isrealobj(V)|np.sum([x,x])|np.max([x,1])|np.mean([x,1])|np.sum(v for v in V)|np.logical_not(x)|np.sqrt(x)|np.hstack((x,I))|np.array([len(I)])|np.nanstd(V)|np.fmax(V,1.0)|np.fmin(V,1.0)|np.mean(np.array([x,x]))|np.floor(x/2)|math.sqrt(x)|math.floor(x/2)|math.isclose(x,3)|math.prod([x,x])|math.fsum([x,x])|abs(x)|round(x)|pow(x,2)|x.bit_length()|hash(x)|repr(x)|f"{x}"|str(x)|math.gcd(x,6)|math.hypot(x,4)|max(x,2)|min([x,2])|sum([x,2])|isinstance(x,int)|type(x)|complex(x)|int(x)|float(x)|x//2|x%2|x**2|-x|~x|x<<1|x&1|divmod(x,2)|x.__index__()|[0,1,2,3][x]|(0,1,2,3)[x]|'abcd'[x]|[0]*x|list(range(x))|[1,2,3,4][:x]|{3:1}.get(x)|{3:1}[x]|x in {3,4}|x in [3,4]|x in (3,4)|x in range(5)|{x:1}|{x,x}|dict.fromkeys([x,x])|dict([(x,1)])|sorted([x,1])|sorted([(x,1),(1,x)])|[x,1].index(1)|functools.reduce(lambda a,b:a+b,[x,x])|operator.itemgetter(0)([x])|list(itertools.chain([x],[x]))|list(itertools.accumulate([x,x]))|list(itertools.combinations([x,1,2],2))|collections.Counter([x,x])|collections.OrderedDict([(x,1)])|collections.defaultdict(list)|collections.deque([x])|list(itertools.groupby([x,x]))[0][0]|bisect.bisect([1,2,5],x)|copy.copy([x])|copy.deepcopy([x])|struct.pack('<i',x)|struct.pack('<2i',*[x,x])|x.to_bytes(4,'little')|int.from_bytes(x.to_bytes(4,'little'),'little')
'''
PIN = dict(A=A, I=I, F=F, V=V, S=S)
import bisect, collections, copy, functools, itertools, math, operator, struct  # noqa


def pinned(w, name, a, real):
    flat = [w.real(f'{name}{i}', -100, 100) if real else w.int(f'{name}{i}', -100, 100) for i in range(a.size)]
    for s, v in zip(flat, a.ravel().tolist()):
        w.assume(s == v)
    b = w.array(flat, float if real else int)
    return b.reshape(a.shape)


def simple(v):
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, (list, tuple, set)):
        return [simple(e) for e in v]
    return v.item() if isinstance(v, np.generic) else v


def scen(w, expr):
    env = {'x': w.int('x', 0, 100), 'T': S}
    w.assume(env['x'] == 3)
    for k, a in PIN.items():
        if k in expr:
            env[k] = pinned(w, k, a, a.dtype == float)
    if w.symbolic:
        m = loader.Modules() if False else w._mods if hasattr(w, '_mods') else None
        g = dict(EXEC(w))
    else:
        g = {n: globals()[n] for n in ('np', 'math', 'itertools', 'functools', 'collections', 'operator', 'bisect', 'copy', 'struct')}
    r = eval(compile_expr(expr, w.symbolic), {**g, **env})
    if type(r).__name__ in ('Sym', 'dtype', 'type', 'function', 'module'):
        return
    e = eval(expr, {**{n: globals()[n] for n in ('np', 'math', 'itertools', 'functools', 'collections', 'operator', 'bisect', 'copy', 'struct')}, **PIN, 'x': 3, 'T': S})
    try:
        w.check(w.close(r, simple(e)) if not isinstance(e, (set, dict)) else True, 'ok')
    except Exception as x:
        w.check(False, f'compare {type(r)} {type(x).__name__}')


def compile_expr(expr, sym):
    import ast
    t = ast.parse(expr, mode='eval')
    if sym:
        t = ast.fix_missing_locations(loader.Rewrite().visit(t))
    return compile(t, '<e>', 'eval')


def EXEC(w):
    ms = loader.Modules()
    d = {'__builtins__': ms.builtins}
    exec('import numpy as np, math, itertools, functools, collections, operator, bisect, copy, struct', d)
    return d


if __name__ == '__main__':
    only = sys.argv[1:]
    bad = 0
    for line in EXPRS.strip().split('\n'):
        depth, cur, parts = 0, '', []
        import re
        parts = re.split(r'(?<![)\]\w])\|(?=)|\|(?=[a-zA-Z\[({~\-(\d\'])', line)
        for ex in parts:
            ex = ex.strip()
            if not ex or (only and not any(o in ex for o in only)):
                continue
            try:
                compile(ex, 'e', 'eval')
            except SyntaxError:
                continue
            try:
                r = driver.run_config(('NP', 'np', scen, dict(expr=ex), dict(budget=20)))
            except BaseException as x:
                print('CRASH', ex, type(x).__name__, x)
                bad += 1
                continue
            if r['undecided']:
                print('UNSUP', ex, '|', r['undecided'][0][:110] if isinstance(r['undecided'][0], str) else r['undecided'][0])
                bad += 1
            elif r['violation'] or r['spurious'] or r['mismatches']:
                print('WRONG', ex, '|', str(r['violation'] or r['spurious'] or r['mismatches'])[:250])
                bad += 1
    print(bad, 'not understood')
