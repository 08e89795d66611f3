"""A stand-in for the part of PyTorch which the inference engine uses, on top of numpy.

Tensors share memory exactly as torch views do (slices, view, reshape of contiguous tensors, expand, transpose); operations compute with numpy and
follow the torch documentation. Where torch refuses (views of misaligned bytes, wrong shapes of out= and copy_), so does this."""
import math
import sys
import types
import numpy as np


class dtype:
    def __init__(self, name, np_):
        self.name, self.np = name, np.dtype(np_)
        self.itemsize = self.np.itemsize
        self.is_floating_point = self.np.kind == 'f'

    def __repr__(self):
        return 'torch.' + self.name


WANTED = set()      # names which were asked for but are not provided
DT = {n: dtype(n, p) for n, p in dict(float32='f4', float64='f8', float16='f2', int8='i1', uint8='u1', int16='i2', int32='i4', int64='i8', bool='?').items()}
OF = {d.np: d for d in DT.values()}


class Size(tuple):
    def numel(self):
        return int(np.prod(self, dtype=np.int64))


class device:
    def __init__(self, d='cpu', index=None):
        self.type, self.index = getattr(d, 'type', d), index

    def __eq__(self, o):
        return self.type == getattr(o, 'type', o)

    def __hash__(self):
        return hash(self.type)

    def __repr__(self):
        return "device(type='%s')" % self.type

    __str__ = lambda self: self.type


CPU = device()


def raw(x):
    return x.a if isinstance(x, Tensor) else x


def dims(d, nd):
    """normalized axes: None for all"""
    if d is None:
        return None
    d = (d,) if not isinstance(d, (tuple, list)) else tuple(d)
    if len(d) == 0:
        return None
    for x in d:
        if not -max(nd, 1) <= x < max(nd, 1):
            raise IndexError('Dimension out of range')
    d = tuple(x % max(nd, 1) for x in d)
    if len(set(d)) < len(d):
        raise RuntimeError('dim appears multiple times in the list of dims')
    return d if nd else ()


def shp(args):
    if len(args) == 1 and isinstance(args[0], (tuple, list)):
        args = args[0]
    return tuple(int(x.item()) if isinstance(x, Tensor) else int(x) for x in args)


def promote(f, *xs):
    """numpy values with the promotion of torch: tensors with dimensions decide over numbers and tensors without"""
    ts = [x for x in xs if isinstance(x, Tensor)]
    groups = [[t.a.dtype for t in ts if t.a.ndim], [t.a.dtype for t in ts if not t.a.ndim]]
    cat = lambda d: 'bif'.index('b' if d.kind == 'b' else 'f' if d.kind == 'f' else 'i')
    res = None
    for g in groups:
        for d in g:
            if res is None or (res is not None and g is groups[0]):
                res = d if res is None else np.promote_types(res, d)
            elif cat(d) > cat(res):
                res = d
    for x in xs:
        if not isinstance(x, Tensor):
            k = np.dtype('?') if isinstance(x, (bool, np.bool_)) else np.dtype('i8') if isinstance(x, (int, np.integer)) else np.dtype('f4')
            if res is None or cat(k) > cat(res):
                res = k
    with np.errstate(all='ignore'):
        return f(*[np.asarray(raw(x)).astype(res) for x in xs])


def wrap(a, d=None):
    a = np.asarray(a)
    if a.dtype not in OF:
        a = a.astype(np.float32)
    return Tensor(a if d is None else a.astype(d))


def put(out, v):
    """result of an operation, into out= if given"""
    v = np.asarray(raw(v))
    if v.dtype not in OF:
        v = v.astype(np.float32)
    if out is None:
        return Tensor(v)
    if out.a.shape != v.shape:
        raise RuntimeError('out= has the shape %s, the result %s' % (out.a.shape, v.shape))
    if v.dtype.kind == 'f' and out.a.dtype.kind != 'f' or v.dtype.kind in 'iu' and out.a.dtype.kind == 'b':
        raise RuntimeError("result type %s can't be cast to the desired output type %s" % (v.dtype, out.a.dtype))
    with np.errstate(all='ignore'):
        out.a[...] = v
    return out


class Tensor:
    __array_priority__ = 100

    def __init__(self, a):
        if isinstance(a, np.generic):
            a = np.asarray(a)
        assert isinstance(a, np.ndarray) and a.dtype in OF, a
        self.a = a

    shape = property(lambda s: Size(s.a.shape))
    dtype = property(lambda s: OF[s.a.dtype])
    device = property(lambda s: CPU)
    ndim = property(lambda s: s.a.ndim)
    is_cuda = False
    requires_grad = False

    def size(self, d=None):
        return self.shape if d is None else self.shape[d]

    def dim(self):
        return self.a.ndim

    def numel(self):
        return int(self.a.size)

    nelement = numel

    def element_size(self):
        return self.a.itemsize

    nbytes = property(lambda s: s.a.nbytes)

    def data_ptr(self):
        return self.a.__array_interface__['data'][0]

    def storage_offset(self):
        b = self.a
        while isinstance(b.base, np.ndarray):
            b = b.base
        return (self.data_ptr() - b.__array_interface__['data'][0]) // self.a.itemsize

    def stride(self, d=None):
        s = tuple(x // self.a.itemsize for x in self.a.strides)
        return s if d is None else s[d]

    def is_contiguous(self):
        return bool(self.a.flags['C_CONTIGUOUS'])

    def contiguous(self):
        return self if self.is_contiguous() else Tensor(np.ascontiguousarray(self.a))

    def clone(self):
        return Tensor(self.a.copy())

    def detach(self):
        return self

    def cpu(self):
        return self

    def numpy(self):
        return self.a

    def __array__(self, dtype=None, copy=None):
        return self.a if dtype is None else self.a.astype(dtype)

    def tolist(self):
        return self.a.tolist()

    def item(self):
        if self.a.size != 1:
            raise RuntimeError('a Tensor with %d elements cannot be converted to Scalar' % self.a.size)
        return self.a.reshape(-1)[0].item()

    def __float__(self):
        return float(self.item())

    def __int__(self):
        return int(self.item())

    __index__ = __int__

    def __bool__(self):
        return bool(self.item())

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        return (Tensor(np.asarray(x)) if np.ndim(x) == 0 else Tensor(x) for x in (self.a[i:i + 1].reshape(self.a.shape[1:]) for i in range(len(self.a))))

    def __repr__(self):
        return 'tensor(%s)' % (self.a,)

    # ---- views
    def view(self, *args, dtype=None):
        if len(args) == 1 and isinstance(args[0], globals()['dtype']):
            dtype = args[0]
        if dtype is not None:
            if dtype.itemsize != self.a.itemsize:
                if dtype.itemsize > self.a.itemsize:
                    r = dtype.itemsize // self.a.itemsize
                    if self.a.ndim == 0 or self.a.shape[-1] % r:
                        raise RuntimeError('self.size(-1) must be divisible by %d to view' % r)
                    if self.storage_offset() % r:
                        raise RuntimeError('self.storage_offset() must be divisible by %d to view' % r)
                if not self.is_contiguous():
                    raise RuntimeError('view of a tensor which is not contiguous')
            return Tensor(self.a.view(dtype.np))
        s = shp(args)
        if not self.is_contiguous():
            v = self.a.view()
            try:
                v.shape = s if -1 not in s else self.a.reshape(s).shape
            except AttributeError:
                raise RuntimeError('view size is not compatible with size and stride')
            return Tensor(v)
        return self.reshape(s)

    def view_as(self, o):
        return self.view(o.shape)

    def reshape(self, *args):
        s = shp(args)
        try:
            if 0 in self.a.shape and -1 in s and 0 in s:
                raise ValueError
            return Tensor(self.a.reshape(s))
        except ValueError:
            raise RuntimeError("shape '%s' is invalid for input of size %d" % (list(s), self.a.size))

    def flatten(self, start_dim=0, end_dim=-1):
        n = max(self.a.ndim, 1)
        s, e = start_dim % n, end_dim % n
        sh = self.a.shape or (1,)
        return self.reshape(sh[:s] + (int(np.prod(sh[s:e + 1], dtype=np.int64)),) + sh[e + 1:])

    def ravel(self):
        return self.flatten()

    @property
    def T(self):
        return Tensor(self.a.T)

    mT = property(lambda s: Tensor(np.swapaxes(s.a, -1, -2)))

    def t(self):
        return self.T

    def permute(self, *d):
        d = dims(d[0] if len(d) == 1 and isinstance(d[0], (tuple, list)) else d, self.a.ndim)
        if len(d or ()) != self.a.ndim:
            raise RuntimeError('permute: number of dimensions does not match')
        return Tensor(self.a.transpose(d))

    def transpose(self, x, y):
        return Tensor(np.swapaxes(self.a, x, y))

    swapaxes = transpose

    def unsqueeze(self, d):
        if not -self.a.ndim - 1 <= d <= self.a.ndim:
            raise IndexError('Dimension out of range')
        return Tensor(np.expand_dims(self.a, d))

    def squeeze(self, dim=None):
        if dim is None:
            return Tensor(self.a.squeeze())
        d = [x for x in dims(dim, self.a.ndim) or () if self.a.shape[x] == 1]
        return Tensor(self.a.squeeze(tuple(d)))

    def expand(self, *s):
        s = shp(s)
        k = len(s) - self.a.ndim
        s = tuple(self.a.shape[i - k] if x == -1 and i >= k else x for i, x in enumerate(s))
        if k < 0 or any(x not in (1, y) for x, y in zip(self.a.shape, s[k:])):
            raise RuntimeError('expand(%s): sizes of %s do not match' % (s, self.a.shape))
        return Tensor(np.broadcast_to(self.a, s))

    def expand_as(self, o):
        return self.expand(o.shape)

    def repeat(self, *s):
        s = shp(s)
        if len(s) < self.a.ndim:
            raise RuntimeError('repeat: fewer numbers than dimensions')
        return Tensor(np.tile(self.a, s))

    tile = repeat

    def repeat_interleave(self, n, dim=None):
        return Tensor(np.repeat(self.a, n, axis=dim))

    def narrow(self, d, start, length):
        return Tensor(self.a[(slice(None),) * (d % self.a.ndim) + (slice(start, start + length),)])

    def index(self, i):
        f = lambda x: x.a if isinstance(x, Tensor) else x
        i = tuple(map(f, i)) if isinstance(i, tuple) else f(i)
        for x in i if isinstance(i, tuple) else (i,):
            if isinstance(x, slice) and x.step is not None and x.step <= 0:
                raise ValueError('step must be greater than zero')
        return i

    def __getitem__(self, i):
        r = self.a[self.index(i)]
        return Tensor(r if isinstance(r, np.ndarray) else np.asarray(r))

    def __setitem__(self, i, v):
        self.a[self.index(i)] = raw(v)

    def split(self, n, dim=0):
        return split(self, n, dim)

    def chunk(self, n, dim=0):
        return chunk(self, n, dim)

    # ---- types
    def to(self, *args, device=None, dtype=None, **kw):
        for x in args:
            if isinstance(x, globals()['dtype']):
                dtype = x
            elif isinstance(x, Tensor):
                dtype = x.dtype
        if dtype is None or dtype.np == self.a.dtype:
            return self
        with np.errstate(all='ignore'):
            return Tensor(self.a.astype(dtype.np))

    type_as = lambda self, o: self.to(o.dtype)

    def type(self, d=None):
        return self.to(d)

    # ---- in place
    def scatter_(self, dim, index, src):
        if not isinstance(src, Tensor):
            src = Tensor(np.full(index.a.shape, src, self.a.dtype))
        if src.a.dtype != self.a.dtype:
            raise RuntimeError('scatter(): Expected self.dtype to be equal to src.dtype')
        np.put_along_axis(self.a, index.a, src.a, dim)
        return self

    def copy_(self, src, non_blocking=False):
        s = raw(src)
        try:
            s = np.broadcast_to(s, self.a.shape)
        except ValueError:
            raise RuntimeError('copy_: the shape %s does not match %s' % (np.shape(s), self.a.shape))
        with np.errstate(all='ignore'):
            self.a[...] = s
        return self

    def zero_(self):
        self.a[...] = 0
        return self

    def fill_(self, v):
        self.a[...] = raw(v)
        return self

    def masked_fill(self, m, v):
        r = self.clone()
        r.a[np.broadcast_to(raw(m), self.a.shape)] = v
        return r

    def __getattr__(self, name):
        f = FUNCS.get(name)
        if f is not None:
            return lambda *a, **k: f(self, *a, **k)
        if name.endswith('_') and not name.startswith('_') and name[:-1] in FUNCS:
            def inplace(*a, **k):
                r = FUNCS[name[:-1]](self, *a, **k)
                if r.a.shape != self.a.shape:
                    raise RuntimeError('output with shape %s does not match %s' % (self.a.shape, r.a.shape))
                put(self, r)
                return self
            return inplace
        if not name.startswith('_'):
            WANTED.add('Tensor.' + name)
        raise AttributeError('stand-in for torch: Tensor.%s' % name)


for _n, _d in dict(float='float32', double='float64', half='float16', long='int64', int='int32', short='int16', bool='bool', byte='uint8', char='int8').items():
    setattr(Tensor, _n, lambda self, _d=_d: self.to(DT[_d]))

FUNCS = {}


def fn(f):
    FUNCS[f.__name__.rstrip('_')] = f
    return f


def binary(name, f, truth=False, fl=False):
    def g(x, y, out=None, alpha=1, **k):
        if alpha != 1:
            y = promote(np.multiply, y, alpha) if not isinstance(y, Tensor) else Tensor(promote(np.multiply, y, alpha))
        r = promote(f, x, y)
        return put(out, r)
    FUNCS[name] = g


def truediv(x, y):
    if x.dtype.kind != 'f':
        x, y = x.astype(np.float32), y.astype(np.float32)
    return np.divide(x, y)


def div(x, y, rounding_mode=None, out=None):
    f = {None: truediv, 'floor': np.floor_divide, 'trunc': lambda a, b: np.trunc(truediv(a, b)).astype(a.dtype)}[rounding_mode]
    return put(out, promote(f, x, y))


FUNCS['div'] = FUNCS['divide'] = FUNCS['true_divide'] = div
for _n, _f in dict(add=np.add, sub=np.subtract, mul=np.multiply, maximum=np.maximum, minimum=np.minimum, remainder=np.mod, fmod=np.fmod, floor_divide=np.floor_divide, eq=np.equal, ne=np.not_equal,
                   lt=np.less, le=np.less_equal, gt=np.greater, ge=np.greater_equal, logical_and=np.logical_and, logical_or=np.logical_or, logical_xor=np.logical_xor,
                   bitwise_and=np.bitwise_and, bitwise_or=np.bitwise_or, bitwise_xor=np.bitwise_xor, atan2=np.arctan2).items():
    binary(_n, _f)
binary('pow', lambda x, y: np.power(x, y))
FUNCS.update(subtract=FUNCS['sub'], multiply=FUNCS['mul'], greater=FUNCS['gt'], less=FUNCS['lt'], greater_equal=FUNCS['ge'], less_equal=FUNCS['le'], not_equal=FUNCS['ne'])

erf_ = np.vectorize(math.erf, otypes=[np.float64])


def unary(name, f, keep=False):
    def g(x, out=None):
        a = x.a
        if not keep and a.dtype.kind != 'f':
            a = a.astype(np.float32)
        with np.errstate(all='ignore'):
            r = f(a)
        return put(out, np.asarray(r).astype(a.dtype, copy=False))
    FUNCS[name] = g


for _n, _f in dict(sqrt=np.sqrt, rsqrt=lambda a: 1 / np.sqrt(a), exp=np.exp, log=np.log, tanh=np.tanh, sin=np.sin, cos=np.cos, sigmoid=lambda a: 1 / (1 + np.exp(-a)), reciprocal=lambda a: 1 / a,
                   erf=lambda a: erf_(a).reshape(a.shape) if a.size else a, silu=lambda a: a / (1 + np.exp(-a)), log2=np.log2, expm1=np.expm1, log1p=np.log1p).items():
    unary(_n, _f)
for _n, _f in dict(neg=np.negative, abs=np.abs, relu=lambda a: np.maximum(a, 0), floor=np.floor, ceil=np.ceil, round=np.round, sign=np.sign, square=np.square, trunc=np.trunc).items():
    unary(_n, _f, True)
FUNCS['negative'], FUNCS['absolute'] = FUNCS['neg'], FUNCS['abs']
FUNCS['logical_not'] = lambda x, out=None: put(out, ~x.a.astype(bool))
FUNCS['isnan'] = lambda x: Tensor(np.isnan(x.a))
FUNCS['isinf'] = lambda x: Tensor(np.isinf(x.a))
FUNCS['isfinite'] = lambda x: Tensor(np.isfinite(x.a))


@fn
def clamp(x, min=None, max=None, out=None):
    r = x
    if min is not None:
        r = Tensor(promote(np.maximum, r, min))
    if max is not None:
        r = Tensor(promote(np.minimum, r, max))
    return put(out, r)


FUNCS['clip'] = clamp


@fn
def where(c, x=None, y=None, out=None):
    r = promote(lambda a, b: np.where(raw(c), a, b), x, y)
    return put(out, r)


def reduction(name, f, fl=False):
    def g(x, dim=None, keepdim=False, dtype=None, out=None):
        if isinstance(dim, Tensor):
            return FUNCS['maximum' if name == 'max' else 'minimum'](x, dim, out=out)
        if keepdim and dim is None and name not in ('amax', 'amin'):
            raise TypeError('%s() received an invalid combination of arguments: keepdim without dim' % name)
        a = x.a if dtype is None else x.a.astype(dtype.np)
        if fl and a.dtype.kind != 'f':
            raise RuntimeError('%s(): could not infer output dtype. Input dtype must be floating point' % name)
        if name in ('sum', 'prod') and a.dtype.kind in 'bui' and dtype is None:
            a = a.astype(np.int64)
        with np.errstate(all='ignore'):
            r = np.asarray(f(a, dims(dim, a.ndim), bool(keepdim)))
        return put(out, r.astype(a.dtype, copy=False))
    FUNCS[name] = g
    return g


for _n, _f, _fl in (('sum', lambda a, d, k: a.sum(axis=d, keepdims=k), False), ('mean', lambda a, d, k: a.mean(axis=d, keepdims=k), True), ('amax', lambda a, d, k: a.max(axis=d, keepdims=k), False),
                    ('amin', lambda a, d, k: a.min(axis=d, keepdims=k), False), ('prod', lambda a, d, k: a.prod(axis=d, keepdims=k), False)):
    reduction(_n, _f, _fl)


class pair(tuple):
    values = property(lambda s: s[0])
    indices = property(lambda s: s[1])


def extreme(name, arg):
    def g(x, dim=None, keepdim=False):
        if dim is None:
            return FUNCS['a' + name](x)
        if isinstance(dim, Tensor):
            return FUNCS[name + 'imum'](x, dim)
        return pair((FUNCS['a' + name](x, dim, keepdim), FUNCS['arg' + name](x, dim, keepdim)))
    FUNCS[name] = g
    FUNCS['arg' + name] = lambda x, dim=None, keepdim=False: Tensor(np.asarray(arg(x.a, axis=dim, keepdims=keepdim) if dim is not None else arg(x.a)).astype(np.int64))


extreme('max', np.argmax)
extreme('min', np.argmin)
FUNCS['all'] = lambda x, dim=None, keepdim=False: Tensor(np.asarray(x.a.all(axis=dims(dim, x.a.ndim), keepdims=keepdim)))
FUNCS['any'] = lambda x, dim=None, keepdim=False: Tensor(np.asarray(x.a.any(axis=dims(dim, x.a.ndim), keepdims=keepdim)))
FUNCS['norm'] = lambda x, p=2, dim=None, keepdim=False: Tensor(np.asarray((np.abs(x.a) ** p).sum(axis=dims(dim, x.a.ndim), keepdims=keepdim) ** (1 / p)).astype(x.a.dtype))
FUNCS['cumsum'] = lambda x, dim, out=None: put(out, np.cumsum(x.a, axis=dim))


@fn
def var(x, dim=None, unbiased=None, keepdim=False, correction=1, out=None):
    c = correction if unbiased is None else int(bool(unbiased))
    return put(out, x.a.var(axis=dims(dim, x.a.ndim), ddof=c, keepdims=keepdim))


@fn
def std(x, *a, **k):
    return FUNCS['sqrt'](var(x, *a, **k))


@fn
def matmul(x, y, out=None):
    if x.a.dtype != y.a.dtype:
        raise RuntimeError('expected m1 and m2 to have the same dtype')
    if x.a.ndim == 0 or y.a.ndim == 0:
        raise RuntimeError('both arguments to matmul need to be at least 1D')
    try:
        return put(out, np.matmul(x.a, y.a))
    except ValueError as e:
        raise RuntimeError(str(e))


@fn
def mm(x, y, out=None):
    if x.a.ndim != 2 or y.a.ndim != 2:
        raise RuntimeError('self must be a matrix')
    return matmul(x, y, out)


@fn
def bmm(x, y, out=None):
    if x.a.ndim != 3 or y.a.ndim != 3:
        raise RuntimeError('batch1 must be a 3D tensor')
    return matmul(x, y, out)


@fn
def addmm(c, x, y, beta=1, alpha=1, out=None):
    return put(out, beta * c.a + alpha * mm(x, y).a)


@fn
def cat(ts, dim=0, out=None, axis=None):
    a = [t.a for t in ts]
    d = np.result_type(*a)
    try:
        return put(out, np.concatenate(a, axis=dim if axis is None else axis).astype(d))
    except ValueError as e:
        raise RuntimeError(str(e))


FUNCS['concat'] = FUNCS['concatenate'] = cat


@fn
def stack(ts, dim=0, out=None):
    return put(out, np.stack([t.a for t in ts], axis=dim))


@fn
def index_select(x, dim, index, out=None):
    if index.a.ndim > 1 or index.a.dtype.kind != 'i':
        raise RuntimeError('index_select(): Index is supposed to be a vector of int32 or int64')
    i = index.a.reshape(-1)
    n = x.a.shape[dim]
    if i.size and not (0 <= i.min() and i.max() < n):
        raise IndexError('index out of range in self')
    return put(out, np.take(x.a, i, axis=dim))


@fn
def gather(x, dim, index, out=None):
    i, d = index.a, dim % max(x.a.ndim, 1)
    if i.dtype != np.int64 or i.ndim != x.a.ndim or any(i.shape[k] > x.a.shape[k] for k in range(i.ndim) if k != d):
        raise RuntimeError('gather(): wrong index')
    if i.size and not (0 <= i.min() and i.max() < x.a.shape[d]):
        raise RuntimeError('gather(): index out of bounds')
    sl = tuple(slice(None) if k == d else slice(0, i.shape[k]) for k in range(i.ndim))
    return put(out, np.take_along_axis(x.a[sl], i, axis=d))


@fn
def take_along_dim(x, index, dim=None, out=None):
    return put(out, np.take_along_axis(x.a, index.a, axis=dim))


@fn
def topk(x, k, dim=-1, largest=True, sorted=True, out=None):
    n = x.a.shape[dim] if x.a.ndim else 1
    if k > n:
        raise RuntimeError('selected index k out of range')
    key = -x.a if largest else x.a
    i = np.argsort(key, axis=dim, kind='stable')
    i = np.take(i, np.arange(k), axis=dim)
    return pair((Tensor(np.take_along_axis(x.a, i, axis=dim)), Tensor(i.astype(np.int64))))


@fn
def sort(x, dim=-1, descending=False, stable=False):
    i = np.argsort(-x.a if descending else x.a, axis=dim, kind='stable')
    return pair((Tensor(np.take_along_axis(x.a, i, axis=dim)), Tensor(i.astype(np.int64))))


FUNCS['argsort'] = lambda x, dim=-1, descending=False, stable=False: sort(x, dim, descending)[1]


@fn
def split(x, n, dim=0):
    size = x.a.shape[dim]
    if isinstance(n, int):
        n = [min(n, size - i) for i in range(0, max(size, 1), n)]
    if sum(n) != size:
        raise RuntimeError('split_with_sizes expects split_sizes to sum exactly to %d' % size)
    at = np.cumsum([0] + list(n))
    return tuple(x.narrow(dim, int(a), int(b - a)) for a, b in zip(at, at[1:]))


FUNCS['split_with_sizes'] = split


@fn
def chunk(x, n, dim=0):
    return split(x, max(1, -(-x.a.shape[dim] // n)), dim)


@fn
def tensor_split(x, n, dim=0):
    return tuple(Tensor(a) for a in np.array_split(x.a, n, axis=dim))


@fn
def triu(x, diagonal=0, out=None):
    return put(out, np.where(np.triu(np.ones(x.a.shape[-2:], bool), diagonal), x.a, np.zeros((), x.a.dtype)))


@fn
def tril(x, diagonal=0, out=None):
    return put(out, np.where(np.tril(np.ones(x.a.shape[-2:], bool), diagonal), x.a, np.zeros((), x.a.dtype)))


@fn
def flip(x, *d):
    return Tensor(np.flip(x.a, dims(d[0] if len(d) == 1 and isinstance(d[0], (list, tuple)) else d, x.a.ndim)).copy())


@fn
def roll(x, shifts, dims=None):
    return Tensor(np.roll(x.a, shifts, dims))


@fn
def allclose(x, y, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(np.allclose(x.a, y.a, rtol, atol, equal_nan))


@fn
def equal(x, y):
    return bool(np.array_equal(x.a, y.a))


@fn
def softmax(x, dim=None, dtype=None, out=None):
    a = x.a
    if a.dtype.kind != 'f':
        raise RuntimeError('softmax of %s' % a.dtype)
    with np.errstate(all='ignore'):
        e = np.exp(a - a.max(axis=dim, keepdims=True))
        return put(out, e / e.sum(axis=dim, keepdims=True))


@fn
def log_softmax(x, dim=None):
    return FUNCS['log'](softmax(x, dim))


@fn
def einsum(eq, *ts):
    return Tensor(np.einsum(eq, *[t.a for t in ts]))


for _m in ('permute', 'transpose', 'unsqueeze', 'squeeze', 'reshape', 'flatten', 'repeat_interleave', 'narrow', 'clone', 'swapaxes', 't', 'masked_fill', 'numel', 'tile'):
    FUNCS[_m] = lambda x, *a, _m=_m, **k: getattr(Tensor, _m)(x, *a, **k)
FUNCS['movedim'] = lambda x, s, d: Tensor(np.moveaxis(x.a, s, d))
FUNCS['broadcast_to'] = lambda x, s: x.expand(s)
FUNCS['unbind'] = lambda x, dim=0: tuple(Tensor(a) for a in np.moveaxis(x.a, dim, 0))

for _op, _n in dict(add='add', sub='sub', mul='mul', truediv='div', mod='remainder', pow='pow', floordiv='floor_divide', matmul='matmul', **{'and': 'bitwise_and', 'or': 'bitwise_or', 'xor': 'bitwise_xor'}).items():
    setattr(Tensor, '__%s__' % _op, lambda s, o, _n=_n: FUNCS[_n](s, o))
    setattr(Tensor, '__r%s__' % _op, lambda s, o, _n=_n: FUNCS[_n](o, s))
    setattr(Tensor, '__i%s__' % _op, lambda s, o, _n=_n: put(s, FUNCS[_n](s, o)))
for _n in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
    setattr(Tensor, '__%s__' % _n, lambda s, o, _n=_n: FUNCS[_n](s, o))
Tensor.__neg__ = lambda s: FUNCS['neg'](s)
Tensor.__abs__ = lambda s: FUNCS['abs'](s)
Tensor.__invert__ = lambda s: FUNCS['logical_not'](s)
Tensor.__hash__ = object.__hash__


# ---- creation
def of(d, default='float32'):
    return (d or DT[default]).np


def tensor(data, dtype=None, device=None, **k):
    if isinstance(data, Tensor):
        data = data.a
    a = np.array(data)
    if dtype is None and a.dtype == np.float64 and not isinstance(data, (np.ndarray, np.generic)):
        a = a.astype(np.float32)
    return Tensor(np.array(a.astype(dtype.np) if dtype else a))


def as_tensor(data, dtype=None, device=None):
    return data if isinstance(data, Tensor) and dtype is None else from_numpy(data) if isinstance(data, np.ndarray) and dtype is None else tensor(data, dtype)


def from_numpy(a):
    if a.dtype not in OF:
        raise TypeError("can't convert np.ndarray of type %s" % a.dtype)
    return Tensor(a)


def empty(*s, dtype=None, device=None, **k):
    s = shp(s)
    return Tensor(np.frombuffer(np.random.default_rng(7).bytes(int(np.prod(s, dtype=np.int64)) * of(dtype).itemsize), of(dtype)).reshape(s).copy() if of(dtype).kind != 'b' else np.ones(s, bool))


def full(s, v, dtype=None, device=None, **k):
    s = shp((s,)) if isinstance(s, (tuple, list)) else (int(s),)
    d = dtype.np if dtype else np.dtype('?') if isinstance(v, bool) else np.dtype('i8') if isinstance(v, int) else np.dtype('f4')
    return Tensor(np.full(s, raw(v), d))


def zeros(*s, dtype=None, device=None, **k):
    return Tensor(np.zeros(shp(s), of(dtype)))


def ones(*s, dtype=None, device=None, **k):
    return Tensor(np.ones(shp(s), of(dtype)))


def arange(*a, dtype=None, device=None, **k):
    a = [x.item() if isinstance(x, Tensor) else x for x in a]
    return Tensor(np.arange(*a).astype(dtype.np if dtype else np.int64 if all(isinstance(x, int) for x in a) else np.float32))


def linspace(a, b, n, dtype=None, device=None):
    return Tensor(np.linspace(a, b, n).astype(of(dtype)))


# ---- torch.nn.functional
def two(v):
    return tuple(int(x) for x in v) if isinstance(v, (tuple, list)) and len(v) == 2 else (int(v[0]),) * 2 if isinstance(v, (tuple, list)) else (int(v),) * 2


def windows(a, kernel, stride, dilation):
    """view [N, C, oh, ow, kh, kw]"""
    kh, kw = [(k - 1) * d + 1 for k, d in zip(kernel, dilation)]
    if a.shape[-2] < kh or a.shape[-1] < kw:
        raise RuntimeError('Calculated output size is too small')
    w = np.lib.stride_tricks.sliding_window_view(a, (kh, kw), axis=(-2, -1))
    return w[..., ::stride[0], ::stride[1], ::dilation[0], ::dilation[1]]


def conv2d(x, w, bias=None, stride=1, padding=0, dilation=1, groups=1):
    if x.a.ndim != 4 or w.a.ndim != 4:
        raise RuntimeError('Expected 3D (unbatched) or 4D (batched) input to conv2d')
    if x.a.dtype != w.a.dtype:
        raise RuntimeError('Input type and weight type should be the same')
    if x.a.shape[1] != w.a.shape[1] * groups or w.a.shape[0] % groups:
        raise RuntimeError('Given groups=%d, weight of size %s, input %s' % (groups, w.a.shape, x.a.shape))
    if padding == 'same' or padding == 'valid':
        k = [(a - 1) * b if padding == 'same' else 0 for a, b in zip(w.a.shape[2:], two(dilation))]
        pads = [(v // 2, v - v // 2) for v in k]
    else:
        pads = [(v, v) for v in two(padding)]
    if any(v[0] < 0 for v in pads):
        raise RuntimeError('negative padding is not supported')
    a = np.pad(x.a, [(0, 0), (0, 0)] + pads)
    v = windows(a, w.a.shape[2:], two(stride), two(dilation))
    n, m = x.a.shape[0], w.a.shape[0] // groups
    c = w.a.shape[1]
    out = np.concatenate([np.einsum('nchwij,mcij->nmhw', v[:, g * c:(g + 1) * c].astype(np.float64), w.a[g * m:(g + 1) * m].astype(np.float64)) for g in range(groups)], axis=1)
    if bias is not None:
        if bias.a.shape != (w.a.shape[0],):
            raise RuntimeError('expected bias to be 1-dimensional with %d elements' % w.a.shape[0])
        out = out + bias.a.astype(np.float64)[:, None, None]
    return Tensor(out.astype(x.a.dtype))


def conv1d(x, w, bias=None, stride=1, padding=0, dilation=1, groups=1):
    one = lambda v: v[0] if isinstance(v, (tuple, list)) else v
    return conv2d(x.unsqueeze(2), w.unsqueeze(2), bias, (1, one(stride)), (0, one(padding)), (1, one(dilation)), groups).squeeze(2)


def outsize(n, k, s, p, d, ceil):
    o = (n + 2 * p - d * (k - 1) - 1 + (s - 1 if ceil else 0)) // s + 1
    if ceil and (o - 1) * s >= n + p:
        o -= 1
    return o


def pooled(x, kernel, stride, padding, dilation, ceil, f, fill):
    if x.a.ndim not in (3, 4):
        raise RuntimeError('non-empty 3D or 4D (batch mode) tensor expected for input')
    kernel = two(kernel)
    stride = kernel if stride is None or stride == () or stride == [] else two(stride)
    padding, dilation = two(padding), two(dilation)
    if any(2 * p > k for p, k in zip(padding, kernel)):
        raise RuntimeError('pad should be at most half of effective kernel size')
    hw = x.a.shape[-2:]
    o = [outsize(n, k, s, p, d, ceil) for n, k, s, p, d in zip(hw, kernel, stride, padding, dilation)]
    if min(o) < 1:
        raise RuntimeError('Output size is too small')
    need = [(q - 1) * s + (k - 1) * d + 1 for q, s, k, d in zip(o, stride, kernel, dilation)]
    widths = [(0, 0)] * (x.a.ndim - 2) + [(p, max(0, t - n - p)) for p, t, n in zip(padding, need, hw)]
    a = np.pad(x.a.astype(np.float64), widths, constant_values=fill)
    v = windows(a, kernel, stride, dilation)[..., :o[0], :o[1], :, :]
    return v, kernel, stride, padding, hw, o


def max_pool2d(x, kernel_size, stride=None, padding=0, dilation=1, ceil_mode=False, return_indices=False):
    v = pooled(x, kernel_size, stride, padding, dilation, ceil_mode, None, -np.inf)[0]
    return Tensor(v.max(axis=(-2, -1)).astype(x.a.dtype))


def avg_pool2d(x, kernel_size, stride=None, padding=0, ceil_mode=False, count_include_pad=True, divisor_override=None):
    v, k, s, p, hw, o = pooled(x, kernel_size, stride, padding, 1, ceil_mode, None, 0)
    tot = v.sum(axis=(-2, -1))
    cnt = []
    for i in range(2):
        st = np.arange(o[i]) * s[i] - p[i]
        en = np.minimum(st + k[i], hw[i] + p[i])
        cnt.append(en - st if count_include_pad else np.minimum(en, hw[i]) - np.maximum(st, 0))
    den = divisor_override or np.outer(cnt[0], cnt[1])
    return Tensor((tot / den).astype(x.a.dtype))


def adaptive_avg_pool2d(x, size):
    o = [n if q is None else q for q, n in zip(size if isinstance(size, (tuple, list)) else (size, size), x.a.shape[-2:])]
    r = np.zeros(x.a.shape[:-2] + tuple(o), np.float64)
    for i in range(o[0]):
        for j in range(o[1]):
            h, w = x.a.shape[-2:]
            r[..., i, j] = x.a[..., i * h // o[0]:-(-(i + 1) * h // o[0]), j * w // o[1]:-(-(j + 1) * w // o[1])].astype(np.float64).mean(axis=(-2, -1))
    return Tensor(r.astype(x.a.dtype))


def batch_norm(x, running_mean, running_var, weight=None, bias=None, training=False, momentum=0.1, eps=1e-5):
    if training:
        raise NotImplementedError('training')
    sh = (1, -1) + (1,) * (x.a.ndim - 2)
    a = x.a.astype(np.float64)
    for t in (running_mean, running_var, weight, bias):
        if t is not None and t.a.shape != (a.shape[1],):
            raise RuntimeError('running_mean should contain %d elements not %s' % (a.shape[1], t.a.shape))
    r = (a - running_mean.a.reshape(sh)) / np.sqrt(running_var.a.reshape(sh).astype(np.float64) + eps)
    if weight is not None:
        r = r * weight.a.reshape(sh)
    if bias is not None:
        r = r + bias.a.reshape(sh)
    return Tensor(r.astype(x.a.dtype))


def layer_norm(x, normalized_shape, weight=None, bias=None, eps=1e-5):
    ax = tuple(range(x.a.ndim - len(normalized_shape), x.a.ndim))
    a = x.a.astype(np.float64)
    r = (a - a.mean(axis=ax, keepdims=True)) / np.sqrt(a.var(axis=ax, keepdims=True) + eps)
    return Tensor((r * (1 if weight is None else weight.a) + (0 if bias is None else bias.a)).astype(x.a.dtype))


def leaky_relu(x, negative_slope=0.01, inplace=False):
    return Tensor(np.where(x.a > 0, x.a, x.a * np.asarray(negative_slope, x.a.dtype)))


def elu(x, alpha=1.0, inplace=False):
    with np.errstate(all='ignore'):
        return Tensor(np.where(x.a > 0, x.a, alpha * np.expm1(x.a)).astype(x.a.dtype))


def gelu(x, approximate='none'):
    a = x.a.astype(np.float64)
    if approximate == 'tanh':
        r = 0.5 * a * (1 + np.tanh(np.sqrt(2 / np.pi) * (a + 0.044715 * a ** 3)))
    else:
        r = 0.5 * a * (1 + erf_(a / np.sqrt(2)).reshape(a.shape))
    return Tensor(r.astype(x.a.dtype))


def pad(x, pad, mode='constant', value=None):
    pad = [int(p) for p in pad]
    if len(pad) % 2 or len(pad) > 2 * x.a.ndim:
        raise RuntimeError('Padding length should be at most 2 times the input dimension')
    k = len(pad) // 2
    w = [(0, 0)] * (x.a.ndim - k) + [(pad[2 * i], pad[2 * i + 1]) for i in range(k)][::-1]
    if mode != 'constant':
        if not (x.a.ndim, k) in ((2, 1), (3, 1), (3, 2), (4, 2), (4, 3), (5, 3)):
            raise NotImplementedError('Only 2D, 3D, 4D, 5D padding with non-constant padding are supported for now')
        if min(pad) < 0:
            raise NotImplementedError('negative %s padding' % mode)
        if mode == 'reflect' and any(max(p) >= n for p, n in zip(w[-k:], x.a.shape[-k:])):
            raise RuntimeError('Padding size should be less than the corresponding input dimension')
        return Tensor(np.pad(x.a, w, mode={'reflect': 'reflect', 'replicate': 'edge', 'circular': 'wrap'}[mode]))
    a = x.a[tuple(slice(max(0, -b), n - max(0, -e)) for (b, e), n in zip(w, x.a.shape))]
    return Tensor(np.pad(a, [(max(b, 0), max(e, 0)) for b, e in w], constant_values=np.asarray(value or 0, x.a.dtype)))


def axis_map(n, o, mode, align, scale):
    """sample positions of an output axis"""
    i = np.arange(o, dtype=np.float64)
    s = scale if scale else n / o
    if mode == 'nearest':
        return np.minimum(np.floor(i * s).astype(np.int64), n - 1)
    if mode == 'nearest-exact':
        return np.minimum(np.floor((i + 0.5) * s).astype(np.int64), n - 1)
    if align:
        return i * ((n - 1) / (o - 1)) if o > 1 else i * 0
    return (i + 0.5) * s - 0.5


def interpolate(x, size=None, scale_factor=None, mode='nearest', align_corners=None, recompute_scale_factor=None, antialias=False):
    k = x.a.ndim - 2
    if k < 1:
        raise ValueError('input of interpolate needs batch and channel')
    sc = [None] * k
    if size is not None:
        size = [int(s) for s in (size if isinstance(size, (tuple, list)) else [size] * k)]
        if len(size) != k:
            raise ValueError('Input and output must have the same number of spatial dimensions')
    else:
        sf = scale_factor if isinstance(scale_factor, (tuple, list)) else [scale_factor] * k
        size = [int(math.floor(n * f)) for n, f in zip(x.a.shape[2:], sf)]
        sc = [None if recompute_scale_factor else 1 / f for f in sf]
    if mode in ('nearest', 'nearest-exact') and align_corners is not None:
        raise ValueError('align_corners option can only be set with the interpolating modes')
    if mode not in ('nearest', 'nearest-exact') and {1: ['linear'], 2: ['bilinear', 'bicubic'], 3: ['trilinear']}.get(k, []).count(mode) == 0:
        raise NotImplementedError('Got %dD input, but %s' % (x.a.ndim, mode))
    if antialias:
        raise NotImplementedError('antialias')
    a = x.a
    if mode.startswith('nearest'):
        for d in range(k):
            a = np.take(a, axis_map(a.shape[d + 2], size[d], mode, False, sc[d]), axis=d + 2)
        return Tensor(np.ascontiguousarray(a))
    a = a.astype(np.float64)
    for d in range(k):
        n = a.shape[d + 2]
        p = axis_map(n, size[d], mode, align_corners, sc[d])
        sh = [1] * a.ndim
        sh[d + 2] = -1
        if mode != 'bicubic':
            p = np.maximum(p, 0)
            i = np.minimum(np.floor(p).astype(np.int64), n - 1)
            f = (p - i).reshape(sh)
            a = np.take(a, i, axis=d + 2) * (1 - f) + np.take(a, np.minimum(i + 1, n - 1), axis=d + 2) * f
        else:
            i = np.floor(p).astype(np.int64)
            t, A = p - i, -0.75
            near = lambda u: ((A + 2) * u - (A + 3)) * u * u + 1
            far = lambda u: ((A * u - 5 * A) * u + 8 * A) * u - 4 * A
            ws = [far(t + 1), near(t), near(1 - t), far(2 - t)]
            a = sum(np.take(a, np.clip(i + q - 1, 0, n - 1), axis=d + 2) * ws[q].reshape(sh) for q in range(4))
    return Tensor(a.astype(x.a.dtype))


def linear(x, w, bias=None):
    r = matmul(x, w.T)
    return r if bias is None else FUNCS['add'](r, bias)


def hardtanh(x, min_val=-1.0, max_val=1.0, inplace=False):
    return clamp(x, min_val, max_val)


def embedding(i, w, **k):
    return Tensor(w.a[i.a])


def scaled_dot_product_attention(q, k, v, attn_mask=None, dropout_p=0.0, is_causal=False, scale=None, enable_gqa=False):
    s = matmul(q, k.transpose(-1, -2)).a * (scale or 1 / math.sqrt(q.a.shape[-1]))
    if is_causal:
        s = np.where(np.tril(np.ones(s.shape[-2:], bool)), s, -np.inf)
    if attn_mask is not None:
        s = np.where(attn_mask.a, s, -np.inf) if attn_mask.a.dtype == bool else s + attn_mask.a
    return matmul(softmax(Tensor(s.astype(q.a.dtype)), dim=-1), v)


class missing(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        WANTED.add(self.__name__ + '.' + name)
        raise AttributeError('stand-in for torch: %s.%s' % (self.__name__, name))


class no_grad:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        return f


def install():
    """torch, torch.nn and torch.nn.functional in sys.modules"""
    t, nn, F, xpu, cuda = (missing(n) for n in ('torch', 'torch.nn', 'torch.nn.functional', 'torch.xpu', 'torch.cuda'))
    for n, f in FUNCS.items():
        setattr(t, n, f)
    for n, d in DT.items():
        setattr(t, n, d)
    t.double, t.half, t.long, t.int, t.short, t.float = DT['float64'], DT['float16'], DT['int64'], DT['int32'], DT['int16'], DT['float32']
    g = globals()
    for n in ('Tensor', 'Size', 'device', 'dtype', 'tensor', 'as_tensor', 'from_numpy', 'empty', 'full', 'zeros', 'ones', 'arange', 'linspace', 'no_grad'):
        setattr(t, n, g[n])
    t.inference_mode = no_grad
    t.zeros_like = lambda x, dtype=None, **k: Tensor(np.zeros(x.a.shape, dtype.np if dtype else x.a.dtype))
    t.ones_like = lambda x, dtype=None, **k: Tensor(np.ones(x.a.shape, dtype.np if dtype else x.a.dtype))
    t.full_like = lambda x, v, dtype=None, **k: Tensor(np.full(x.a.shape, v, dtype.np if dtype else x.a.dtype))
    t.empty_like = lambda x, dtype=None, **k: empty(*x.a.shape, dtype=dtype or x.dtype)
    t.is_tensor = lambda x: isinstance(x, Tensor)
    t.numel = lambda x: x.numel()
    t.inf, t.nan, t.pi = float('inf'), float('nan'), math.pi
    for n in ('conv1d', 'conv2d', 'max_pool2d', 'avg_pool2d', 'adaptive_avg_pool2d', 'batch_norm', 'layer_norm', 'leaky_relu', 'elu', 'gelu', 'pad', 'interpolate', 'linear', 'hardtanh', 'embedding',
              'scaled_dot_product_attention'):
        setattr(F, n, g[n])
    for n in ('softmax', 'log_softmax', 'relu', 'sigmoid', 'tanh', 'silu'):
        setattr(F, n, lambda x, *a, _f=FUNCS[n], inplace=False, **k: _f(x, *a, **k))
    t.conv2d, t.max_pool2d, t.batch_norm, t.layer_norm = F.conv2d, F.max_pool2d, batch_norm, layer_norm
    xpu.synchronize = cuda.synchronize = lambda *a: None
    xpu.is_available = cuda.is_available = lambda: False
    t.nn, nn.functional, t.xpu, t.cuda = nn, F, xpu, cuda
    t.__version__ = 'stand-in'
    for m in (t, nn, F, xpu, cuda):
        sys.modules[m.__name__] = m
    return t
