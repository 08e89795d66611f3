"""C33: the inference engine computes what the model computes."""
import os
import sys
import types
import warnings
from hypothesis import strategies as st
from ..core import *
from ..om import *
from .. import faketorch
from onnx.reference.op_run import OpRun

PROPERTY = 'C33'
TECHNIQUE = 'stateful property-based testing: generated models and histories of forward calls, differential oracle = the ONNX reference evaluator; pools against a byte-array model; a stand-in for torch with numpy arithmetic'
LEVEL_NOTE = 'random search; torch is not installed, a stand-in which shares memory as torch views do computes instead'
RULE = ('Sub "pool": a generated layout and a history of reads, writes, fills and refused requests through views, every byte of the pool compared with a byte array. '
        'Sub "engine": a generated float32 model of the registered operators with declared dynamic dimensions, and a history of forward calls with sizes of the declared ranges; the outputs of every call must be those of '
        'the reference evaluator on the inputs of this call, and the inputs must be unmodified. '
        'Sub "attention": histories of the fused attention, rotary and normalization kernels against a direct numpy computation, prefill and decode steps with a cache against one pass over the whole sequence. '
        'Non-trivial: at least two calls with different sizes and three nodes (engine), a write and a refusal (pool), two steps (attention).')
ASSUMPTIONS = ['the stand-in follows the documentation of torch where the engine uses it', 'elements of one engine have one type, as the engine holds them']

REPO = os.environ.get('VP_REPO', '/repo')
torch = faketorch.install()
sys.path.insert(0, os.path.join(REPO, 'inference'))
import onnx_tool
import memory_pool
import infer
import kernels
F = sys.modules['torch.nn.functional']


class GatherElements(OpRun):
    """the one of the reference evaluator refuses indices which are smaller than the data"""
    op_domain = ''

    def _run(self, data, indices, axis=0):
        i = indices + (indices < 0) * data.shape[axis]
        return (np.take_along_axis(data[tuple(slice(0, n) if k != axis % data.ndim else slice(None) for k, n in enumerate(i.shape))], i, axis),)


# ---------------------------------------------------------------- engine
class MaxPool(OpRun):
    """two spatial dimensions, from the definition: the reference evaluator reads pads in another order and SAME as floor"""
    op_domain = ''

    def _run(self, x, auto_pad='NOTSET', ceil_mode=0, dilations=None, kernel_shape=None, pads=None, storage_order=0, strides=None):
        dil, st_, p = dilations or [1, 1], strides or [1, 1], pads or [0] * 4
        o, lo, hi = [], [], []
        for i in (0, 1):
            n, span = x.shape[2 + i], dil[i] * (kernel_shape[i] - 1) + 1
            if auto_pad in ('SAME_UPPER', 'SAME_LOWER'):
                q = -(-n // st_[i])
                t = max((q - 1) * st_[i] + span - n, 0)
                b = t // 2 if auto_pad == 'SAME_UPPER' else t - t // 2
                e = t - b
            else:
                b, e = (0, 0) if auto_pad == 'VALID' else (p[i], p[2 + i])
                q = (n + b + e - span + (st_[i] - 1 if ceil_mode else 0)) // st_[i] + 1
                if ceil_mode and (q - 1) * st_[i] >= n + b:
                    q -= 1
            if q < 1:
                raise ValueError('empty')
            o.append(q)
            lo.append(b)
            hi.append(max(0, (q - 1) * st_[i] + span - n - b))
        a = np.pad(x, [(0, 0), (0, 0), (lo[0], hi[0]), (lo[1], hi[1])], constant_values=-np.inf)
        r = np.full(x.shape[:2] + tuple(o), -np.inf, x.dtype)
        for i in range(kernel_shape[0]):
            for j in range(kernel_shape[1]):
                r = np.maximum(r, a[:, :, i * dil[0]:i * dil[0] + (o[0] - 1) * st_[0] + 1:st_[0], j * dil[1]:j * dil[1] + (o[1] - 1) * st_[1] + 1:st_[1]])
        return (r,)


def ev(d, env):
    """value of a dimension: an int, a variable, or (dim, function, arguments)"""
    if isinstance(d, int):
        return d
    if isinstance(d, str):
        return env[d]
    f, x = d[0], d[1:]
    if f == 'win':      # size, kernel, stride, total padding, dilation
        return (ev(x[0], env) + x[3] - (x[4] * (x[1] - 1) + 1)) // x[2] + 1
    if f == 'mul':
        return ev(x[0], env) * x[1]
    if f == 'add':
        return ev(x[0], env) + x[1]
    raise AssertionError(f)


class G:
    def __init__(self, draw):
        self.i = lambda a, b: draw(st.integers(a, b))
        self.rare = lambda n: draw(st.integers(0, n)) == n
        self.pick = lambda l: l[self.i(0, len(l) - 1)]
        self.nodes, self.inits, self.n, self.T = [], [], 0, []

    def fresh(self):
        self.n += 1
        return 't%d' % self.n

    def w(self, shape, lo=-2, hi=2, q=4):
        n = self.fresh()
        self.inits.append([n, 'f32', list(shape), {'seed': self.i(0, 999), 'lo': lo, 'hi': hi, 'q': q}])
        return n

    def ints(self, v):
        n = self.fresh()
        self.inits.append([n, 'i64', [len(v)] if isinstance(v, list) else [], {'v': v if isinstance(v, list) else [v]}])
        return n

    def scal(self, v):
        n = self.fresh()
        self.inits.append([n, 'f32', [], {'v': [v]}])
        return n

    def node(self, op, ins, shapes, attrs=None):
        o = [self.fresh() for _ in shapes]
        self.nodes.append(dict(op=op, name='n%d' % len(self.nodes), attrs=attrs or {}, **{'in': ins, 'out': o}))
        self.T += [(x, tuple(s)) for x, s in zip(o, shapes)]
        return o[0]

    def lo(self, d):
        return ev(d, self.min)

    def any(self, f=lambda s: True, small=True):
        """a tensor, recent ones more often"""
        c = [t for t in self.T if f(t[1])]
        if not c:
            return None
        k = self.i(0, len(c) - 1)
        return c[k] if self.i(0, 2) == 0 else c[max(k, len(c) - 1 - self.i(0, 3))]


def fixed(s):
    return all(isinstance(d, int) for d in s)


def o_unary(g):
    t = g.any()
    op = g.pick(['Relu', 'Sigmoid', 'Tanh', 'LeakyRelu', 'Neg', 'Erf', 'Identity', 'Sqrt', 'LeakyRelu'])
    at = {'alpha': ['f', g.i(1, 7) / 8]} if op == 'LeakyRelu' and g.i(0, 1) else {}
    g.node(op, [t[0]], [t[1]], at)


def o_clip(g):
    t = g.any()
    k = g.i(0, 3)
    lo, hi = -g.i(0, 6) / 4, g.i(1, 6) / 4
    ins = [t[0]] + [[], [g.scal(lo)], [g.scal(lo), g.scal(hi)], ['', g.scal(hi)]][k]
    g.node('Clip', ins, [t[1]])


def o_binary(g):
    t = g.any()
    op = g.pick(['Add', 'Sub', 'Mul', 'Div', 'Add', 'Mul', 'Mod'])
    s = t[1]
    k = g.i(0, 3)
    if k == 0:      # two tensors of one shape
        u = g.any(lambda x: x == s)
        g.node(op, [t[0], u[0]] if g.i(0, 1) else [u[0], t[0]], [s], {'fmod': 1} if op == 'Mod' else {})
        return
    if k == 1:      # one shape is contained in the other
        u = g.any(lambda x: len(x) <= len(s) and all(a == b or a == 1 for a, b in zip(x[::-1], s[::-1])))
        if u:
            g.node(op, [t[0], u[0]] if g.i(0, 1) else [u[0], t[0]], [s], {'fmod': 1} if op == 'Mod' else {})
            return
    r = g.i(0, len(s))
    c = [d if isinstance(d, int) and g.i(0, 2) else 1 for d in s[len(s) - r:]]
    w = g.w(c, 1, 8, 4)
    g.node(op, [t[0], w] if g.i(0, 2) else [w, t[0]], [s], {'fmod': 1} if op == 'Mod' else {})


def o_pow(g):
    t = g.any()
    g.node('Pow', [t[0], g.scal(float(g.pick([1, 2, 3])))], [t[1]])


def window(g, d, k, s, p, dil):
    return d if isinstance(d, str) and s == 1 and p == dil * (k - 1) else ('win', d, k, s, p, dil) if not isinstance(d, int) else ev(('win', d, k, s, p, dil), {})


def pads(g, k):
    """four paddings, each smaller than the kernel"""
    m = g.i(0, 3)
    if m == 0:
        return None
    if m == 1:
        return [(x - 1) // 2 for x in k] * 2
    if m == 2:
        p = [g.i(0, x - 1) for x in k]
        return p + p
    return [g.i(0, x - 1) for x in k + k]


def o_conv(g):
    t = g.any(lambda s: len(s) == 4 and isinstance(s[1], int))
    if not t:
        return
    s = t[1]
    grp = g.pick([x for x in (1, 1, 2, s[1]) if s[1] % x == 0])
    k = [g.i(1, 3), g.i(1, 3)]
    st_ = [g.i(1, 2), g.i(1, 2)]
    dil = [g.i(1, 2), g.i(1, 2)] if g.rare(3) else [1, 1]
    p = pads(g, k)
    auto = g.pick(['SAME_UPPER', 'SAME_LOWER', 'VALID']) if g.rare(5) else None
    if auto and any(a < b for a, b in zip(k, st_)):
        auto = 'VALID'    # the reference evaluator pads by a negative amount
    if auto:
        p = None
        if auto != 'VALID':
            dil = [1, 1]    # the reference evaluator ignores the dilations here
    q = p or [0] * 4
    if auto in (None, 'VALID') and any(g.lo(s[2 + i]) + q[i] + q[2 + i] < dil[i] * (k[i] - 1) + 1 for i in (0, 1)):
        return
    m = grp * g.i(1, 2)
    at = {}
    if g.i(0, 3):
        at['kernel_shape'] = k
    if st_ != [1, 1] or g.i(0, 1):
        at['strides'] = st_
    if dil != [1, 1] or g.i(0, 1):
        at['dilations'] = dil
    if grp != 1:
        at['group'] = grp
    if p:
        at['pads'] = p
    if auto:
        at['auto_pad'] = auto
        if auto != 'VALID':
            g.node('Conv', [t[0], g.w([m, s[1] // grp] + k)], [(s[0], m, window(g, s[2], 1, st_[0], 0, 1), window(g, s[3], 1, st_[1], 0, 1))], at)
            return
    ins = [t[0], g.w([m, s[1] // grp] + k)] + ([g.w([m])] if g.i(0, 1) else [])
    g.node('Conv', ins, [(s[0], m, window(g, s[2], k[0], st_[0], q[0] + q[2], dil[0]), window(g, s[3], k[1], st_[1], q[1] + q[3], dil[1]))], at)


def o_pool(g):
    t = g.any(lambda s: len(s) == 4)
    if not t:
        return
    s = t[1]
    op = g.pick(['MaxPool', 'AveragePool'])
    k = [g.i(1, 3), g.i(1, 3)]
    st_ = [g.i(1, 2), g.i(1, 2)] if g.i(0, 3) else None
    q = pads(g, k)
    if q and any(2 * x > k[i % 2] for i, x in enumerate(q)):
        q = None
    at = {'kernel_shape': k}
    if st_:
        at['strides'] = st_
    if q:
        at['pads'] = q
    if op == 'AveragePool' and g.i(0, 1):
        at['count_include_pad'] = g.i(0, 1)
    st_ = st_ or [1, 1]
    dil, up = [1, 1], [0, 0]
    form = g.pick(['auto', 'ceil', 'dilated']) if g.rare(4) else None
    if form == 'auto':
        at.pop('pads', None)
        q = None
        at['auto_pad'] = g.pick(['SAME_UPPER', 'SAME_LOWER', 'VALID'])
        if at['auto_pad'] != 'VALID':
            g.node(op, [t[0]], [(s[0], s[1], window(g, s[2], 1, st_[0], 0, 1), window(g, s[3], 1, st_[1], 0, 1))], at)
            return
    elif form == 'ceil' and all(a >= b for a, b in zip(k, st_)) and not q:
        at['ceil_mode'] = 1
        up = [v - 1 for v in st_]
    elif form == 'dilated' and op == 'MaxPool' and not q:
        dil = at['dilations'] = [g.i(1, 2), g.i(1, 2)]
    q = q or [0] * 4
    if any(g.lo(s[2 + i]) + q[i] + q[2 + i] < dil[i] * (k[i] - 1) + 1 for i in (0, 1)):
        return
    g.node(op, [t[0]], [(s[0], s[1], window(g, s[2], k[0], st_[0], q[0] + q[2] + up[0], dil[0]), window(g, s[3], k[1], st_[1], q[1] + q[3] + up[1], dil[1]))], at)


def o_gap(g):
    t = g.any(lambda s: len(s) == 4)
    if t:
        g.node('GlobalAveragePool', [t[0]], [t[1][:2] + (1, 1)])


def o_bn(g):
    t = g.any(lambda s: len(s) in (2, 3, 4) and isinstance(s[1], int))
    if t:
        c = [t[1][1]]
        g.node('BatchNormalization', [t[0], g.w(c), g.w(c), g.w(c), g.w(c, 1, 8, 4)], [t[1]], {'epsilon': ['f', 0.25]} if g.i(0, 1) else {})


def o_reshape(g):
    t = g.any(lambda s: len(s) >= 1)
    s = t[1]
    k = g.i(0, 2)
    if k == 0:      # keep the leading dims, flatten the fixed rest
        j = max([i + 1 for i, d in enumerate(s) if not isinstance(d, int)] + [0])
        n = int(np.prod([d for d in s[j:]], dtype=int)) if j < len(s) else None
        if j > 3 or n is None:
            return
        g.node('Reshape', [t[0], g.ints([0] * j + [g.pick([n, -1])])], [s[:j] + (n,)])
    elif k == 1:    # split one fixed dim
        c = [i for i, d in enumerate(s) if isinstance(d, int) and d % 2 == 0]
        if not c or len(s) > 4:
            return
        i = g.pick(c)
        new = s[:i] + (2, s[i] // 2) + s[i + 1:]
        dyn = [j for j, d in enumerate(new) if not isinstance(d, int)]
        if len(dyn) > 1 or (dyn and dyn[0] > i and False):
            if any(d > i for d in dyn[:-1]) or len([d for d in dyn if d > i]) > 1:
                return
        v = [(0 if j <= i and j < len(s) and new[j] == s[j] else -1) if not isinstance(d, int) else d for j, d in enumerate(new)]
        if v.count(-1) > 1:
            return
        g.node('Reshape', [t[0], g.ints(v)], [new])
    else:           # from the shape of a tensor, computed in the graph
        u = g.any(lambda x: x == s)
        sh = g.fresh()
        g.nodes.append(dict(op='Shape', name='n%d' % len(g.nodes), attrs={}, **{'in': [u[0]], 'out': [sh]}))
        g.node('Reshape', [t[0], sh], [s])


def o_transpose(g):
    t = g.any(lambda s: len(s) >= 2)
    if not t:
        return
    p = list(range(len(t[1])))
    if g.i(0, 3):
        for i in range(len(p) - 1, 0, -1):
            j = g.i(0, i)
            p[i], p[j] = p[j], p[i]
        g.node('Transpose', [t[0]], [[t[1][i] for i in p]], {'perm': p})
    else:
        g.node('Transpose', [t[0]], [t[1][::-1]])


def o_flatten(g):
    t = g.any(lambda s: len(s) >= 1 and sum(not isinstance(d, int) for d in s) <= 1)
    if not t:
        return
    s = t[1]
    ax = g.i(0, len(s))

    def prod(p):
        n = int(np.prod([d for d in p if isinstance(d, int)], dtype=int))
        v = [d for d in p if not isinstance(d, int)]
        return n if not v else v[0] if n == 1 else ('mul', v[0], n)
    at = {'axis': ax - len(s) if ax < len(s) and g.rare(4) else ax}
    if ax == 1 and g.i(0, 1):
        at = {}
    g.node('Flatten', [t[0]], [(prod(s[:ax]), prod(s[ax:]))], at)


def o_gemm(g):
    t = g.any(lambda s: len(s) == 2 and fixed(s[1:]))
    if not t:
        return
    m, k = t[1]
    n = g.i(1, 4)
    at = {}
    if g.i(0, 1):
        at['alpha'] = ['f', g.i(1, 6) / 4]
    if g.i(0, 1):
        at['beta'] = ['f', g.i(1, 6) / 4]
    tb = g.i(0, 1)
    if tb:
        at['transB'] = 1
    ta = g.rare(4) and fixed(t[1])
    if ta:
        at['transA'] = 1
        m, k = k, m
    want = (n, k) if tb else (k, n)
    u = g.any(lambda s: len(s) == 2 and fixed(s) and s[1 if tb else 0] == k) if g.rare(3) else None
    if u:
        n, b = u[1][0 if tb else 1], u[0]
    else:
        b = shared(g, want) or g.w(want)
    ins = [t[0], b]
    c = g.i(0, 3)
    if c:
        ins.append(g.w([[n], [1, n], [1]][c - 1]))
    g.node('Gemm', ins, [(m, n)], at)


def shared(g, shape):
    """a weight which another node uses already"""
    if not g.rare(3):
        return None
    c = [x[0] for x in g.inits if x[1] == 'f32' and list(x[2]) == list(shape)]
    return g.pick(c) if c else None


def o_matmul(g):
    t = g.any(lambda s: len(s) >= 2 and isinstance(s[-1], int))
    if not t:
        return
    s = t[1]
    if g.i(0, 2) == 0:
        u = g.any(lambda x: len(x) == len(s) and x[:-2] == s[:-2] and x[-2] == s[-1])
        if u:
            g.node('MatMul', [t[0], u[0]], [s[:-1] + u[1][-1:]])
            return
    n = g.pick([s[-1], g.i(1, 4)])
    g.node('MatMul', [t[0], shared(g, [s[-1], n]) or g.w([s[-1], n])], [s[:-1] + (n,)])


def o_concat(g):
    t = g.any(lambda s: len(s) >= 1)
    s = t[1]
    ax = g.pick([i for i, d in enumerate(s) if isinstance(d, int)] or [0])
    if not isinstance(s[ax], int):
        return
    c = [u for u in g.T if len(u[1]) == len(s) and all(a == b for i, (a, b) in enumerate(zip(u[1], s)) if i != ax) and isinstance(u[1][ax], int)]
    parts = [g.pick(c) for _ in range(g.i(1, 3))]
    n = sum(u[1][ax] for u in parts)
    if n > 24:
        return
    g.node('Concat', [u[0] for u in parts], [s[:ax] + (n,) + s[ax + 1:]], {'axis': ax - len(s) if g.rare(3) else ax})


def o_softmax(g):
    t = g.any(lambda s: len(s) >= 1)
    ax = g.i(-len(t[1]), len(t[1]) - 1)
    g.node('Softmax', [t[0]], [t[1]], {'axis': ax} if g.i(0, 2) else {})


def o_squeeze(g):
    t = g.any(lambda s: 1 in s and len(s) > 1)
    if not t:
        return
    s = t[1]
    ax = [i for i, d in enumerate(s) if d == 1]
    if g.i(0, 2) == 0 and not any(not isinstance(d, int) for d in s):
        g.node('Squeeze', [t[0]], [[d for d in s if d != 1]])
        return
    ax = ax[:g.i(1, len(ax))]
    g.node('Squeeze', [t[0], g.ints([a - len(s) if g.rare(3) else a for a in ax])], [[d for i, d in enumerate(s) if i not in ax]])


def o_unsqueeze(g):
    t = g.any(lambda s: len(s) < 4)
    if not t:
        return
    r = len(t[1]) + g.i(1, 2)
    if r > 5:
        return
    ax = []
    while len(ax) < r - len(t[1]):
        x = g.i(0, r - 1)
        if x not in ax:
            ax.append(x)
    s = list(t[1])
    for a in sorted(ax):
        s.insert(a, 1)
    g.node('Unsqueeze', [t[0], g.ints([a - r if g.rare(3) else a for a in ax])], [s])


def o_reduce(g):
    t = g.any(lambda s: len(s) >= 1)
    s = t[1]
    op = g.pick(['ReduceMean', 'ReduceSum', 'ReduceMax'])
    at = {}
    keep = 1
    if g.i(0, 1):
        keep = at['keepdims'] = g.i(0, 1)
    if g.rare(4):
        ax = list(range(len(s)))
        ins = [t[0]]
    else:
        ax = sorted({g.i(0, len(s) - 1) for _ in range(g.i(1, 2))})
        ins = [t[0], g.ints([a - len(s) if g.rare(3) else a for a in ax])]
    g.node(op, ins, [[1 if i in ax else d for i, d in enumerate(s) if keep or i not in ax]], at)


def o_slice(g):
    t = g.any(lambda s: len(s) >= 1 and any(isinstance(d, int) for d in s))
    if not t:
        return
    s = list(t[1])
    ax = g.pick([i for i, d in enumerate(s) if isinstance(d, int)])
    n = s[ax]
    a = g.i(0, n - 1)
    b = g.i(a + 1, n)
    step = g.i(1, 2)
    a0 = a - n if g.rare(3) else a
    b0 = g.pick([2 ** 63 - 1, n + 5]) if b == n and g.i(0, 1) else b - n if b < n and g.rare(3) else b
    s[ax] = len(range(a, b, step))
    ins = [t[0], g.ints([a0]), g.ints([b0])]
    if ax or g.i(0, 1) or step != 1:
        ins.append(g.ints([ax - len(s) if g.rare(3) else ax]))
        if step != 1 or g.i(0, 1):
            ins.append(g.ints([step]))
    g.node('Slice', ins, [s])


def o_pad(g):
    t = g.any(lambda s: len(s) == 4)
    if not t:
        return
    s = t[1]
    p = [0] * 8
    for i in range(4):
        if g.i(0, 2) == 0 or i > 1:
            p[i], p[i + 4] = g.i(0, 2), g.i(0, 2)
    ins = [t[0], g.ints(p)]
    if g.i(0, 1):
        ins.append(g.scal(g.i(-3, 3) / 2))
    mode = g.pick(['constant', None, 'edge', 'reflect'])
    if mode in ('edge', 'reflect'):
        p[0] = p[4] = p[1] = p[5] = 0
        if any(g.lo(s[i]) <= 2 for i in (2, 3)):
            mode = None
        else:
            ins = [t[0], g.ints(p)]
    g.node('Pad', ins, [[d if not p[i] + p[i + 4] else d + p[i] + p[i + 4] if isinstance(d, int) else ('add', d, p[i] + p[i + 4]) for i, d in enumerate(s)]], {'mode': mode} if mode else {})


def o_split(g):
    t = g.any(lambda s: any(isinstance(d, int) and d > 1 for d in s))
    if not t:
        return
    s = t[1]
    ax = g.pick([i for i, d in enumerate(s) if isinstance(d, int) and d > 1])
    a = g.i(1, s[ax] - 1)
    ins, sizes = [t[0], g.ints([a, s[ax] - a])], [a, s[ax] - a]
    if s[ax] % 2 == 0 and g.i(0, 1):
        ins, sizes = [t[0]], [s[ax] // 2] * 2
    at = {'axis': ax - len(s) if g.rare(3) else ax}
    if ax == 0 and g.i(0, 1):
        at = {}
    g.node('Split', ins, [s[:ax] + (n,) + s[ax + 1:] for n in sizes], dict(at, num_outputs=2) if len(ins) == 1 else at)


def o_expand(g):
    t = g.any(lambda s: fixed(s) and 1 in s)
    if not t:
        return
    s = [g.i(1, 3) if d == 1 else d for d in t[1]]
    if int(np.prod(s)) > 400:
        return
    g.node('Expand', [t[0], g.ints([1 if g.rare(3) and a == b else b for a, b in zip(t[1], s)])], [s])


def o_tile(g):
    t = g.any(lambda s: len(s) >= 1)
    s = t[1]
    r = [g.i(1, 2) if isinstance(d, int) and d < 9 else 1 for d in s]
    g.node('Tile', [t[0], g.ints(r)], [[d * x if isinstance(d, int) else d for d, x in zip(s, r)]])


def o_gather(g):
    t = g.any(lambda s: any(isinstance(d, int) for d in s))
    if not t:
        return
    s = t[1]
    ax = g.pick([i for i, d in enumerate(s) if isinstance(d, int)])
    k = g.pick([[], [2], [3], [2, 2], [1, 2]])
    if len(s) + len(k) > 5:
        return
    n = g.fresh()
    lo = -s[ax] if g.rare(3) else 0
    g.inits.append([n, 'i64', k, {'v': [g.i(lo, s[ax] - 1) for _ in range(int(np.prod(k, dtype=int)))]}])
    g.node('Gather', [t[0], n], [s[:ax] + tuple(k) + s[ax + 1:]], {'axis': ax - len(s) if g.rare(3) else ax} if ax or g.i(0, 1) else {})


def o_compare(g):
    """a comparison and the selection which uses it"""
    t = g.any()
    u = g.any(lambda x: x == t[1])
    op = g.pick(['Greater', 'Less', 'Equal'])
    b = g.fresh()
    other = u[0] if g.i(0, 1) else g.scal(g.i(-2, 2) / 4)
    g.nodes.append(dict(op=op, name='n%d' % len(g.nodes), attrs={}, **{'in': [t[0], other], 'out': [b]}))
    v = g.any(lambda x: x == t[1])
    if g.i(0, 2) == 0:
        g.node('Cast', [b], [t[1]], {'to': TP.FLOAT})
    else:
        g.later.append(lambda: g.node('Where', [b, t[0], v[0] if g.i(0, 1) else g.scal(0.5)], [t[1]]))


def o_topk(g):
    t = g.any(lambda s: len(s) >= 1 and isinstance(s[-1], int) and s[-1] > 1)
    if not t:
        return
    s = t[1]
    k = g.i(1, s[-1])
    o = g.fresh(), g.fresh()
    g.nodes.append(dict(op='TopK', name='n%d' % len(g.nodes), attrs={'axis': -1, 'largest': g.i(0, 1)}, **{'in': [t[0], g.ints([k])], 'out': list(o)}))
    g.T.append((o[0], s[:-1] + (k,)))


def o_ln(g):
    t = g.any(lambda s: len(s) >= 2 and isinstance(s[-1], int) and s[-1] > 1)
    if t:
        c = [t[1][-1]]
        g.node('LayerNormalization', [t[0], g.w(c)] + ([g.w(c)] if g.i(0, 1) else []), [t[1]], {'epsilon': ['f', 0.25]} if g.i(0, 1) else {})


def o_resize(g):
    """spatial resizing in the forms exporters write"""
    t = g.any(lambda s: len(s) == 4)
    if not t:
        return
    s = t[1]
    mode = g.pick(['nearest', 'nearest', 'linear', 'cubic'])
    at = {'mode': mode} if mode != 'nearest' or g.i(0, 1) else {}
    f = [g.pick([2, 1, 3, 0.5, 1.5]) for _ in range(2)]
    f = [x if isinstance(d, int) and d * x == int(d * x) or x == int(x) else 2 for d, x in zip(s[2:], f)]
    o = [int(d * x) if isinstance(d, int) else ('mul', d, int(x)) if x == int(x) else d for d, x in zip(s[2:], f)]
    sizes = fixed(s) and g.i(0, 1)
    if sizes:
        o = [g.i(1, 9) for _ in range(2)]
    if any(g.lo(d) > 12 or g.lo(d) < 2 for d in o):
        return
    if mode == 'nearest':
        k = g.i(0, 3)
        if k == 0 and not sizes and all(x == int(x) for x in f):
            pass                                            # half_pixel, round_prefer_floor: for whole factors the same
        else:
            at.update(coordinate_transformation_mode='asymmetric', nearest_mode='floor')
            if k == 1:
                at['coordinate_transformation_mode'] = g.pick(['half_pixel', 'pytorch_half_pixel', 'asymmetric'])
                at['nearest_mode'] = g.pick(['round_prefer_floor', 'round_prefer_ceil', 'floor', 'ceil'])
    else:
        k = g.pick([None, 'half_pixel', 'pytorch_half_pixel', 'align_corners'])
        if k:
            at['coordinate_transformation_mode'] = k
        if mode == 'cubic':
            at['cubic_coeff_a'] = ['f', -0.75]
    if sizes:
        ins = [t[0], '', '', g.ints(list(s[:2]) + o)]
    else:
        n = g.fresh()
        g.inits.append([n, 'f32', [4], {'v': [1.0, 1.0] + [float(x) for x in f]}])
        ins = [t[0], '', n]
    g.node('Resize', ins, [list(s[:2]) + o], at)


def o_gatherel(g):
    t = g.any(lambda s: len(s) >= 1 and fixed(s))
    if not t:
        return
    s = t[1]
    ax = g.i(0, len(s) - 1)
    o = [g.i(1, d) if i != ax else g.i(1, d + 2) for i, d in enumerate(s)]
    n = g.fresh()
    lo = -s[ax] if g.rare(2) else 0
    g.inits.append([n, 'i64', o, {'v': [g.i(lo, s[ax] - 1) for _ in range(int(np.prod(o)))]}])
    g.node('GatherElements', [t[0], n], [o], {'axis': ax - len(s) if g.rare(3) else ax} if ax or g.i(0, 1) else {})


def o_detect(g):
    """positions of the largest elements, as detection heads use them"""
    t = g.any(lambda s: len(s) >= 1 and isinstance(s[-1], int) and 2 <= s[-1] <= 12)
    if not t:
        return
    s = t[1]
    n, r = s[-1], len(s)
    step = g.fresh()
    g.inits.append([step, 'f32', [n], {'v': [(7 * i + 3) % n / 64 for i in range(n)]}])
    x = g.node('Add', [t[0], step], [s])
    k = g.i(1, n)
    o = g.fresh(), g.fresh()
    g.nodes.append(dict(op='TopK', name='n%d' % len(g.nodes), attrs={'axis': g.pick([-1, r - 1]), 'largest': g.i(0, 1)}, distinct=1, **{'in': [x, g.ints([k])], 'out': list(o)}))
    g.T.append((o[0], s[:-1] + (k,)))
    u = s[:-1] + (k,)
    i = o[1]
    hid = lambda op, ins, at={}: (g.nodes.append(dict(op=op, name='n%d' % len(g.nodes), attrs=dict(at), **{'in': ins, 'out': [g.fresh()]})), g.nodes[-1]['out'][0])[1]
    c = g.i(1, 4)
    w = g.i(0, 4)
    if w == 1:
        i = hid('Mod', [i, g.ints([c])], {'fmod': 0} if g.i(0, 1) else {})
    elif w == 2:
        i = hid('Div', [i, g.ints(c if g.i(0, 1) else [c])])
    elif w == 3:
        i = hid('Add', [hid('Mul', [i, g.ints([0])]), g.ints(g.i(0, n - 1))])
    v = g.i(0, 3)
    if v == 0:
        g.node('Cast', [i], [u], {'to': TP.FLOAT})
    elif v == 1:
        y = g.any(lambda q: q == s)
        g.node('GatherElements', [y[0], i], [u], {'axis': g.pick([-1, r - 1])})
    elif v == 2 and r < 4:
        y = g.w([n, 3])
        g.node('Gather', [y, i], [u + (3,)], {'axis': 0} if g.i(0, 1) else {})
    elif v == 3 and r < 4:
        m = g.i(1, 3)
        j = hid('Unsqueeze', [i, g.ints([-1])])
        j = hid('Tile', [j, g.ints([1] * r + [m])]) if g.i(0, 1) or not fixed(u) else hid('Expand', [j, g.ints([1] * r + [m])])
        y = g.w([n, m])
        if fixed(s):
            a = g.node('Expand', [y, g.ints(list(s) + [m])], [s + (m,)])
            g.node('GatherElements', [a, j], [u + (m,)], {'axis': g.pick([-2, r - 1])})
        else:
            g.node('Cast', [j], [u + (m,)], {'to': TP.FLOAT})


def o_casts(g):
    t = g.any()
    i = g.fresh()
    g.nodes.append(dict(op='Cast', name='n%d' % len(g.nodes), attrs={'to': g.pick([TP.INT64, TP.INT32, TP.INT64, TP.BOOL, TP.INT8, TP.INT16])}, **{'in': [t[0]], 'out': [i]}))
    g.node('Cast', [i], [t[1]], {'to': TP.FLOAT})


def o_shape(g):
    """the sizes of a tensor as values"""
    t = g.any(lambda s: len(s) >= 1)
    n = len(t[1])
    i, j = g.fresh(), g.fresh()
    g.nodes.append(dict(op='Shape', name='n%d' % len(g.nodes), attrs={}, **{'in': [t[0]], 'out': [i]}))
    k = g.i(0, n - 1)
    g.nodes.append(dict(op='Gather', name='n%d' % len(g.nodes), attrs={'axis': 0}, **{'in': [i, g.ints([k]) if g.i(0, 1) else g.ints(k)], 'out': [j]}))
    f = g.fresh()
    g.nodes.append(dict(op='Cast', name='n%d' % len(g.nodes), attrs={'to': TP.FLOAT}, **{'in': [j], 'out': [f]}))
    g.node('Mul', [t[0], f] if g.i(0, 1) else [f, t[0]], [t[1]])


def o_gelu(g):
    t = g.any()
    g.node('Gelu', [t[0]], [t[1]], g.pick([{}, {'approximate': 'none'}, {'approximate': 'tanh'}]))


OPS = dict(unary=o_unary, clip=o_clip, binary=o_binary, pow=o_pow, conv=o_conv, pool=o_pool, gap=o_gap, bn=o_bn, reshape=o_reshape, transpose=o_transpose, flatten=o_flatten, gemm=o_gemm, matmul=o_matmul,
           concat=o_concat, softmax=o_softmax, squeeze=o_squeeze, unsqueeze=o_unsqueeze, reduce=o_reduce, slice=o_slice, pad=o_pad, split=o_split, expand=o_expand, tile=o_tile, gather=o_gather,
           compare=o_compare, topk=o_topk, ln=o_ln, resize=o_resize, gatherel=o_gatherel, detect=o_detect, casts=o_casts, shape=o_shape, gelu=o_gelu)
PICK = os.environ.get('C33_OPS', '').split(',') if os.environ.get('C33_OPS') else list(OPS)


@st.composite
def models(draw):
    g = G(draw)
    g.later = []
    names = ['b', 'h', 'w', 'n']
    g.rng = {'b': [1, g.pick([3, 2, 1])], 'h': [4, g.i(6, 9)], 'w': [4, g.pick([7, 5, 9])], 'n': [2, g.i(3, 6)]}
    g.min = {k: v[0] for k, v in g.rng.items()}
    ins = []
    forms = [('b', 3, 'h', 'w'), ('b', 4), ('b', 'n', 4), (2, 3, 4), ('b', 2, 'h', 5), ('n', 3), (1, 4, 'h', 'w'), ('b', 'n'), ('h', 2, 3)]
    for k in range(g.pick([1, 1, 1, 2, 2, 3])):
        s = g.pick(forms)
        ins.append(['x%d' % k, list(s)])
        g.T.append(('x%d' % k, tuple(s)))
    for _ in range(g.i(3, 12)):
        OPS[PICK[g.i(0, 10 ** 6) % len(PICK)]](g)
        if g.later and g.i(0, 1):
            g.later.pop()()
    for f in g.later:
        f()
    if not g.nodes:
        t = g.T[0]
        g.node('Relu', [t[0]], [t[1]])
    used = {x for n in g.nodes for x in n['in']}
    made = [t for n in g.nodes for t in n['out'] if t in dict(g.T)]
    outs = [t for t in made if t not in used] or made[-1:]
    outs += [t for t in made if t in used and g.rare(5)]
    vs = sorted({d for _, s in ins for d in s if isinstance(d, str)})
    calls = [{'sizes': {v: g.pick([g.rng[v][1], g.rng[v][0], g.i(*g.rng[v])]) if k % 2 == 0 else g.pick([g.rng[v][0], g.i(*g.rng[v])]) for v in vs},
              'seed': g.i(0, 99), 'same': g.rare(3), 'mode': g.pick([0, 0, 0, 1, 2])} for k in range(g.i(2, 4))]
    for i in range(1, len(calls)):
        if calls[i]['same']:
            calls[i]['sizes'] = calls[i - 1]['sizes']
    if vs and g.rare(3):        # beyond the declared range
        c = calls[g.i(0, len(calls) - 1)]
        v = g.pick(vs)
        c['sizes'] = dict(c['sizes'], **{v: g.rng[v][1] + g.i(1, 3)})
    return dict(ranks={n['out'][0]: len(dict(g.T)[n['out'][0]]) for n in g.nodes if n['op'] == 'Unsqueeze' and n['out'][0] in dict(g.T)}, opset=20 if any(n['op'] == 'Gelu' for n in g.nodes) else g.pick([18, 18, 20, 12, 13, 17]), nodes=g.nodes, inits=g.inits, ins=ins, outs=outs, range={v: g.rng[v] for v in vs}, calls=calls, order=g.i(0, 3), dtype=g.pick(['float32', 'float32', 'float32', 'float64']))


def attribute(k, v):
    if isinstance(v, list) and v and v[0] == 'f':
        v = v[1]
    return k, v


def older(case):
    """the nodes as versions before 13 and 18 write them"""
    v = case['opset']
    init = {n: d for n, _, _, d in case['inits']}
    out, gone = [], set()
    for n in case['nodes']:
        n = dict(n, attrs=dict(n['attrs']))
        op = n['op']
        if v < 13 and op == 'Softmax' or v < 14 and op == 'BatchNormalization' or v < 17 and op == 'LayerNormalization':
            raise Skip('not in this version')
        to = 'split' if op == 'Split' else 'axes'
        if (v < 13 and op in ('Squeeze', 'Unsqueeze', 'ReduceSum', 'Split') or v < 18 and op in ('ReduceMean', 'ReduceMax')) and len(n['in']) > 1:
            v2 = init[n['in'][1]]['v']
            if op == 'Unsqueeze':       # the reference evaluator takes them one after the other
                r = case['ranks'].get(n['out'][0])
                v2 = sorted(x % r for x in v2) if r else v2
            n['attrs'][to] = v2
            gone.add(n['in'][1])
            n['in'] = n['in'][:1]
        if v < 18:
            n['attrs'].pop('num_outputs', None)
        out.append(n)
    return dict(case, nodes=out, inits=[i for i in case['inits'] if i[0] not in gone])


def model(case):
    if case['opset'] < 18:
        case = older(case)
    nodes = [onnx.helper.make_node(n['op'], n['in'], n['out'], name=n['name'], **dict(attribute(k, v) for k, v in n['attrs'].items())) for n in case['nodes']]
    ini = [onnx.numpy_helper.from_array(arr(d, s, v), n) for n, d, s, v in case['inits']]
    I = [onnx.helper.make_tensor_value_info(n, TP.FLOAT, s) for n, s in case['ins']]
    O = [onnx.helper.make_tensor_value_info(n, TP.FLOAT, None) for n in case['outs']]
    return onnx.helper.make_model(onnx.helper.make_graph(nodes, 'g', I, O, ini), opset_imports=[onnx.helper.make_opsetid('', case['opset'])], ir_version=8)


def near(a, b):
    """equal up to rounding; everything is float32"""
    a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
    with np.errstate(all='ignore'):
        return (np.isnan(a) & np.isnan(b)) | (a == b) | (np.abs(a - b) <= 1e-3 + 1e-3 * np.abs(b))


def check_engine(case):
    m = model(case)
    feeds = []
    for c in case['calls']:
        r = np.random.default_rng(c['seed'])
        feeds.append({n: (r.integers(-8, 9, [ev(d, c['sizes']) for d in s]) / np.float32(4)).astype(np.float32) for n, s in case['ins']})
    refs = []
    alln = [o for n in m.graph.node for o in n.output]
    full = onnx.ModelProto()
    full.CopyFrom(m)
    have = set(case['outs'])
    full.graph.output.extend(onnx.helper.make_tensor_value_info(t, TP.FLOAT, None) for t in alln if t not in have)
    ev_ = ReferenceEvaluator(full, new_ops=[GatherElements, MaxPool])
    for f in feeds:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            try:
                o = ev_.run(None, f)
            except Exception as e:
                raise Skip('the reference refuses: %s' % e)
        by = dict(zip([x.name for x in full.graph.output], o))
        for n in case['nodes']:
            for t in n['in'] + n['out']:
                v = by.get(t)
                if v is not None and v.dtype.kind == 'f' and not (np.all(np.isfinite(v)) and np.all(np.abs(v) < 1e4)):
                    raise Skip('values out of range')
            if n.get('distinct'):
                v = by[n['in'][0]]
                if any(len(np.unique(r)) < v.shape[-1] for r in v.reshape(-1, v.shape[-1])):
                    raise Skip('a tie')
            if n['op'] == 'Cast' and n['attrs']['to'] in (TP.INT64, TP.INT32, TP.BOOL, TP.INT8, TP.INT16):
                v = by.get(n['in'][0])
                v = f[n['in'][0]] if v is None else v
                if not np.array_equal(v * 64, np.round(v * 64)):
                    raise Skip('a cast of rounded values')
                if n['attrs']['to'] == TP.INT8 and np.any(np.abs(v) > 127):
                    raise Skip('a cast out of range')
            if n['op'] in ('Greater', 'Less', 'Equal', 'Mod', 'TopK', 'Sqrt'):
                for t in n['in']:
                    v = by.get(t)
                    if v is not None and v.dtype.kind == 'f' and not np.array_equal(v * 64, np.round(v * 64)):
                        raise Skip('a comparison of rounded values')
            if n['op'] == 'Div':
                v = by.get(n['in'][1])
                if v is None:
                    v = f.get(n['in'][1])
                if v is not None and np.any(np.abs(v) < 1e-2):
                    raise Skip('a division by a small number')
        refs.append([by[t] for t in case['outs']])
    with scratch() as d:
        p = os.path.join(d, 'm.onnx')
        onnx.save(m, p)
        with sut('building the engine'):
            e = infer.GraphInfer(p, {n: tuple(s) for n, s in case['ins']}, {k: tuple(v) for k, v in case['range'].items()}, **({'dtype': torch.float64} if case['dtype'] == 'float64' else {}))
    over = 0
    for k, (c, f, want) in enumerate(zip(case['calls'], feeds, refs)):
        names = list(f)
        if case['order'] == 1:
            names = names[::-1]
        given = {n: torch.from_numpy(f[n].astype(case['dtype'])) for n in names}
        if any(n > case['range'][v][1] for v, n in c['sizes'].items()):
            over = 1
            try:        # refused, or right
                with np.errstate(all='ignore'):
                    got = e.forward(given, profile=c['mode'] == 1, debug=c['mode'] == 2)
            except Exception:
                continue
        else:
            with sut('call %d with the sizes %s' % (k, c['sizes'])):
                with np.errstate(all='ignore'):
                    got = e.forward(given, profile=c['mode'] == 1, debug=c['mode'] == 2)
        got.pop('__profile__', None)
        for n in names:
            require(np.array_equal(given[n].numpy(), f[n]), 'call %d changed the input %s', k, n)
        require(set(got) == set(case['outs']), 'call %d returns the outputs %s, the model has %s', k, sorted(got), sorted(case['outs']))
        for t, w in zip(case['outs'], want):
            g = got[t].numpy()
            require(list(g.shape) == list(w.shape), 'call %d with the sizes %s: output %s has the shape %s, not %s', k, c['sizes'], t, list(g.shape), list(w.shape))
            d = ~near(g, w)
            require(not d.any(), 'call %d with the sizes %s: output %s is %s, not %s', k, c['sizes'], t, np.ravel(g[d])[:6].tolist(), np.ravel(w[d])[:6].tolist())
    return Info(len(case['nodes']) > 2 and len({repr(sorted(c['sizes'].items())) for c in case['calls']}) > 1, sorted({n['op'] for n in case['nodes']}) + ['beyond the range'] * over + ['float64'] * (case['dtype'] == 'float64'))


# ---------------------------------------------------------------- a pool planned for a model
def check_planned(case):
    m = model(case)
    dt = case['dtype']
    with scratch() as d:
        p = os.path.join(d, 'm.onnx')
        onnx.save(m, p)
        with sut('planning the pool'):
            pool, engine = memory_pool.create_memory_pool_from_model(p, {n: tuple(s) for n, s in case['ins']}, {k: tuple(v) for k, v in case['range'].items()}, dtype=torch.float64 if dt == 'float64' else torch.float32)
    names = list(pool.keys())
    used = {x for n in case['nodes'] for x in n['in']}
    for n, _ in case['ins']:
        require(n in pool or n not in used, 'the pool lacks the input %s', n)
    for t in case['outs']:
        require(t in pool, 'the pool lacks the output %s', t)
    for k, c in enumerate(case['calls']):
        if any(n > case['range'][v][1] for v, n in c['sizes'].items()):
            continue
        with sut('updating the sizes %s' % c['sizes']):
            for v, n in c['sizes'].items():
                engine.update_variable(v, n)
        for n, s in case['ins']:
            if n not in used:
                continue
            shape = [ev(x, c['sizes']) for x in s]
            with sut('a view of the input %s %s at the sizes %s' % (n, shape, c['sizes'])):
                got = engine.get_tensorshape(n)
                t = pool.get(n, shape=shape)
            require([int(x) for x in got] == shape, 'sizes %s: the shape of input %s is %s, not %s', c['sizes'], n, got, shape)
            require(list(t.shape) == shape and str(t.dtype) == 'torch.' + dt, 'view of %s: %s %s', n, list(t.shape), t.dtype)
        for n in names:
            with sut('a view of %s at the sizes %s' % (n, c['sizes'])):
                shape = [int(x) for x in engine.get_tensorshape(n)]
                t = pool.get(n, shape=shape)
            require(list(t.shape) == shape, 'view of %s has the shape %s, not %s', n, list(t.shape), shape)
    return Info(len(names) > 2 and len(case['calls']) > 1, [dt])


# ---------------------------------------------------------------- pool
@st.composite
def pools(draw):
    i = lambda a, b: draw(st.integers(a, b))
    dt = draw(st.sampled_from(['float32', 'float32', 'float16', 'float64']))
    e = {'float32': 4, 'float16': 2, 'float64': 8}[dt]
    total = i(1, 40) * e
    lay = []
    for k in range(i(1, 6)):
        o = i(0, total // e - 1)
        lay.append(['t%d' % k, o * e, i(1, total // e - o) * e])
    bad = draw(st.sampled_from([None] * 6 + ['off', 'size', 'end']))
    ops = [[draw(st.sampled_from(['write', 'fill', 'fill', 'read', 'shape', 'batch', 'zero', 'view', 'refuse'])), i(0, 5), i(0, 99), i(0, 7), i(0, 3)] for _ in range(i(1, 14))]
    return dict(dtype=dt, total=total, layout=lay, bad=bad, ops=ops)


def split(n, k):
    """a shape of at most n elements"""
    return [[n], [1, n], [n // 2, 2], [max(n // 3, 1), 1, min(3, n)], [n, 1], [max(1, n - 1)], [1, max(n // 2, 1), min(n, 2), 1], [1, 2, max(n // 2, 1), 1] if n > 1 else [1, 1, n]][k % 8]


def check_pool(case):
    dt = getattr(torch, case['dtype'])
    npd = np.dtype(case['dtype'])
    e = npd.itemsize
    lay = {n: [o, s] for n, o, s in case['layout']}
    if case['bad']:
        n = case['layout'][-1][0]
        lay[n] = {'off': [-e, lay[n][1]], 'size': [lay[n][0], 0], 'end': [lay[n][0], case['total'] - lay[n][0] + 1]}[case['bad']]
        try:
            memory_pool.MemoryPool(lay, case['total'], dtype=dt)
        except ValueError:
            return Info(True, ['refused layout'])
        raise Violation('the layout %s is accepted for a pool of %d bytes' % (lay, case['total']))
    plan = {n: list(v) for n, v in lay.items()}
    with sut('building a pool'):
        p = memory_pool.MemoryPool(lay, case['total'], dtype=dt)
        p.zero_()
    ref = np.zeros(case['total'], np.uint8)
    views = []
    wrote = refused = 0

    def same(what):
        got = p.pool.numpy()
        require(np.array_equal(got, ref), 'after %s the pool has the bytes %s, not %s', what, got.tolist()[:64], ref.tolist()[:64])
    names = list(lay)
    for op, k, seed, sh, form in case['ops']:
        n = names[k % len(names)]
        o, size = plan[n]
        cnt = size // e
        data = (np.random.default_rng(seed).integers(-50, 50, max(cnt, 1)) / 4).astype(npd)
        if op == 'zero':
            with sut('zero_'):
                p.zero_()
            ref[:] = 0
            same('zero_')
            continue
        if op == 'refuse':
            try:
                if form == 0:
                    p.get('missing')
                elif form == 1:
                    p.get(n, [cnt + 1])
                elif form == 2:
                    p.get_batch(n, cnt, [2])
                else:
                    p['missing']
            except (KeyError, ValueError):
                refused += 1
            else:
                raise Violation('%s of %d elements: a request for %s is not refused' % (n, cnt, 'a missing tensor' if form in (0, 3) else 'more elements'))
            same('a refused request')
            continue
        if op == 'fill':
            extra = np.concatenate([data, data])[:cnt + form] if form < 2 else data.reshape(split(cnt, 4)) if form == 2 else data.astype(np.float64)
            val = extra if form % 2 else torch.from_numpy(np.ascontiguousarray(extra))
            with sut('filling %s' % n):
                p.fill_tensor(n, val)
            ref[o:o + size] = data.view(np.uint8)
            wrote += 1
            same('filling %s' % n)
            continue
        shape = split(cnt, sh)
        m = int(np.prod(shape))
        with sut('reading %s with the shape %s' % (n, shape)):
            if op == 'batch':
                v = p.get_batch(n, shape[0], shape[1:] or None)
            elif op in ('shape', 'write', 'view'):
                v = p.get(n, shape)
            else:
                v, m, shape = p[n], cnt, [cnt]
        require(list(v.shape) == shape and v.dtype == dt, 'the view of %s has the shape %s and type %s, asked for %s', n, list(v.shape), v.dtype, shape)
        views.append((n, v, o, m))
        if op == 'write':
            w = data[:m].reshape(shape)
            with sut('writing %s' % n):
                v.copy_(torch.from_numpy(w))
            ref[o:o + m * e] = np.ascontiguousarray(w).reshape(-1).view(np.uint8)
            wrote += 1
            same('writing %s through a view' % n)
        for vn, vv, vo, vm in views:
            x = np.ascontiguousarray(vv.numpy()).reshape(-1).view(np.uint8)
            require(np.array_equal(x, ref[vo:vo + vm * e]), 'a view of %s shows %s, the pool has %s there', vn, x.tolist()[:32], ref[vo:vo + vm * e].tolist()[:32])
    require(len(p) == len(plan) and list(p.keys()) == names and all(n in p for n in names) and 'missing' not in p and p.compress_size == case['total'] and {k: list(v) for k, v in p.items()} == plan,
            'the pool reports the layout %s of %s bytes', dict(p.items()), p.compress_size)
    return Info(wrote > 0 and refused > 0, ['written'] * (wrote > 0))


# ---------------------------------------------------------------- attention
@st.composite
def attention(draw):
    i = lambda a, b: draw(st.integers(a, b))
    kv = i(1, 2)
    return dict(batch=i(1, 2), kv=kv, heads=kv * i(1, 3), dim=2 * i(1, 3), layers=i(1, 2), layer=i(0, 1), steps=[i(1, 4)] + [i(1, 3) for _ in range(i(0, 4))], room=i(0, 3), wide=i(0, 2), cache=i(0, 3) > 0,
                seed=i(0, 999), rank=draw(st.sampled_from([3, 3, 4])), table=draw(st.sampled_from([3, 4])), bias=i(0, 1), form=draw(st.sampled_from(['rms', 'layer'])), past=draw(st.sampled_from([0, 1, 2])), jump=draw(st.sampled_from([False, True])),
                eps=i(1, 4) / 8)


def rope(x, pos, cos, sin, heads, dim):
    """x [B, S, heads * dim], the halves of each head rotated by the angle of the position"""
    y = x.reshape(x.shape[:2] + (heads, dim)).astype(np.float64)
    c, s = cos[pos][:, :, None], sin[pos][:, :, None]
    h = dim // 2
    return np.concatenate([y[..., :h] * c - y[..., h:] * s, y[..., :h] * s + y[..., h:] * c], -1).reshape(x.shape)


def attend(q, k, v, heads, kv, dim, past):
    """q of the positions past.., k and v of all positions"""
    B, S = q.shape[:2]
    q = q.reshape(B, S, heads, dim).astype(np.float64)
    k = np.repeat(k.reshape(B, -1, kv, dim), heads // kv, 2).astype(np.float64)
    v = np.repeat(v.reshape(B, -1, kv, dim), heads // kv, 2).astype(np.float64)
    out = np.zeros((B, S, heads, dim))
    for t in range(S):
        w = np.einsum('bhd,bthd->bht', q[:, t], k[:, :past + t + 1]) / np.sqrt(dim)
        w = np.exp(w - w.max(-1, keepdims=True))
        out[:, t] = np.einsum('bht,bthd->bhd', w / w.sum(-1, keepdims=True), v[:, :past + t + 1])
    return out.reshape(B, S, -1)


def run(op, ins, shape, attrs):
    o = torch.from_numpy(np.full(shape, 777, np.float32))
    with sut('the kernel %s' % op):
        kernels.KernelRegistry.get(op).run([None if x is None else x if isinstance(x, torch.Tensor) else torch.from_numpy(np.ascontiguousarray(x)) for x in ins], [o], attrs)
    return o.numpy()


def check_attention(c):
    B, kv, N, D, L = c['batch'], c['kv'], c['heads'], c['dim'], c['layers']
    li = c['layer'] % L
    r = np.random.default_rng(c['seed'])
    rnd = lambda *s: (r.integers(-8, 9, s) / np.float32(4)).astype(np.float32)
    T = sum(c['steps'])
    q, k, v = rnd(B, T, N * D), rnd(B, T, kv * D), rnd(B, T, kv * D)
    ang = np.arange(T + 2)[:, None] / (2.0 ** np.arange(D // 2))[None]
    cos, sin = np.cos(ang).astype(np.float32), np.sin(ang).astype(np.float32)
    lead = (1,) * (c['table'] - 2)
    context = T + c['room']
    store = rnd(B, 2 * L, context, kv * D + c['wide'])
    cache = torch.from_numpy(store.copy())
    expect = store.copy()
    w, b = rnd(D), rnd(D)
    done = 0
    heads4 = lambda x, n: np.ascontiguousarray(x.reshape(B, x.shape[1], n, D).transpose(0, 2, 1, 3))
    steps = c['steps'] if c['cache'] else [T]
    for S in steps:
        sl = slice(done, done + S)
        pos = np.tile(np.arange(done, done + S), (B, 1))
        if c['past'] == 2:
            pos = (pos + np.arange(B)[:, None]) % (T + 2)
        if c['jump']:
            pos = r.integers(0, T + 2, (B, S))
        qr = {}
        for name, x, n in (('q', q, N), ('k', k, kv)):
            x = x[:, sl]
            want = rope(x, pos, cos, sin, n, D)
            if c['rank'] == 4:
                got = run('Rope', [heads4(x, n), cos.reshape(lead + cos.shape), sin.reshape(lead + sin.shape), pos], (B, n, S, D), {})
                got = got.transpose(0, 2, 1, 3).reshape(x.shape)
            else:
                got = run('Rope', [x, cos.reshape(lead + cos.shape), sin.reshape(lead + sin.shape), pos.astype(np.float32)], x.shape, {})
            require(near(got, want).all(), 'rotation of %s at the positions %s: %s, not %s', name, pos.tolist(), np.ravel(got)[:6].tolist(), np.ravel(want)[:6].tolist())
            # per-head normalization
            xx = x.reshape(B, S, n, D).astype(np.float64)
            if c['form'] == 'rms':
                wn = xx / np.sqrt((xx ** 2).mean(-1, keepdims=True) + c['eps']) * w
            else:
                wn = (xx - xx.mean(-1, keepdims=True)) / np.sqrt(xx.var(-1, keepdims=True) + c['eps']) * w + (b if c['bias'] else 0)
            got = run('LayerNormalization', [x, w] + [b] * (c['bias'] and c['form'] == 'layer'), x.shape, {'type': c['form'], 'epsilon': c['eps']})
            require(near(got, wn.reshape(x.shape)).all(), 'normalization of %s in heads of %d: %s, not %s', c['form'], D, np.ravel(got)[:6].tolist(), np.ravel(wn)[:6].tolist())
            if c['jump'] and c['form'] == 'rms':
                got = run('LayerNormalization', [x, w[:1]], x.shape, {'type': 'rms', 'epsilon': c['eps']})
                require(near(got, x / np.sqrt(x.astype(np.float64) ** 2 + c['eps']) * w[0]).all(), 'normalization in heads of one: %s', np.ravel(got)[:6].tolist())
        at = {'head_num': N, 'kv_head_num': kv, 'layer_i': li, 'head_size': D}
        want = attend(q[:, sl], k[:, :done + S], v[:, :done + S], N, kv, D, done)
        if c['cache']:
            n_past = np.array([done], np.float32) if c['past'] == 0 else np.array(done) if c['past'] == 1 else np.full((B, 2), done, np.float32)
            got = run('SDPA', [q[:, sl], k[:, sl], v[:, sl], n_past, cache], (B, S, N * D), at)
            expect[:, 2 * li, sl, :kv * D] = k[:, sl]
            expect[:, 2 * li + 1, sl, :kv * D] = v[:, sl]
            require(np.array_equal(cache.numpy(), expect), 'the cache of layer %d after %d positions is %s, not %s', li, done + S, np.ravel(cache.numpy())[:24].tolist(), np.ravel(expect)[:24].tolist())
        elif c['rank'] == 4:
            got = run('SDPA', [heads4(q, N), heads4(k, kv), heads4(v, kv)], (B, S, N * D), at)
        else:
            got = run('SDPA', [q[:, sl], k[:, sl], v[:, sl]], (B, S, N * D), at)
        require(near(got, want).all(), 'attention of %d positions after %d: %s, not %s', S, done, np.ravel(got)[:6].tolist(), np.ravel(want)[:6].tolist())
        done += S
    # the fused operators of GPT2
    x, w, b = rnd(B, 3, D), rnd(D), rnd(D)
    d = x.astype(np.float64)
    for op, ins, want, at in (('Layernrom', [x, w, b], (d - d.mean(-1, keepdims=True)) / np.sqrt(d.var(-1, keepdims=True) + 1e-5) * w + b, {'ReduceMean0_axes': [-1]}),
                              ('Mad', [x, w, b], d * w + b, {}), ('Silu', [x], d / (1 + np.exp(-d)), {}),
                              ('Gelu', [x], 0.5 * d * (1 + np.tanh(np.sqrt(2 / np.pi) * (d + 0.044715 * d ** 3))), {})):
        got = run(op, ins, x.shape, at)
        require(near(got, want).all() if op != 'Gelu' else np.abs(got - want).max() < 5e-3, '%s gives %s, not %s', op, np.ravel(got)[:6].tolist(), np.ravel(want)[:6].tolist())
    emb = rnd(T + 1, 4)
    past = c['seed'] % (T + 1)
    n = T + 1 - past
    got = run('RangeGather', [np.array(n), None, None, None, emb, np.array([past])], (n, 4), {})
    require(np.array_equal(got, emb[past:past + n]), 'position embedding of %d positions after %d is wrong', n, past)
    return Info(len(steps) > 1, ['cache'] * c['cache'] + ['grouped'] * (kv < N))


def provided(fn):
    """a case which needs a part of torch the stand-in lacks is skipped"""
    def g(case):
        faketorch.WANTED.clear()
        try:
            return fn(case)
        except Violation as v:
            if faketorch.WANTED or 'unexpected keyword argument' in str(v):
                raise Skip('not provided by the stand-in for torch: %s' % ', '.join(sorted(faketorch.WANTED) or [str(v)[-60:]]))
            raise
    return g


SUBS = [Sub('planned', models, provided(check_planned), 2000, 20000), Sub('engine', models, provided(check_engine), 12000, 120000), Sub('pool', pools, provided(check_pool), 6000, 80000), Sub('attention', attention, provided(check_attention), 4000, 60000)]
