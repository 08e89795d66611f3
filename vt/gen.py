"""Random valid ONNX graphs, built block by block with the shape of every tensor known for several
assignments of the symbolic input dimensions at once (so that each graph is valid at all of them).

graph(draw, cfg) -> case dict:
  spec    JSON model spec (see om.build); inputs carry symbolic dims as strings
  assign  list of {var: value}
  seeds   {input name: data descriptor}
  meta    {'blocks': [...], 'const': [names of tensors computed from constants only]}
"""
import math
import numpy as np
from .om import *
from .core import *

UNARY = ['Relu', 'Sigmoid', 'Tanh', 'Abs', 'Neg', 'LeakyRelu', 'Elu', 'HardSigmoid', 'HardSwish', 'Erf', 'Softplus',
         'Clip', 'Identity', 'Sqrt', 'Reciprocal', 'Exp', 'Sin', 'Cos', 'Log', 'Gelu_']
EXACT_UNARY = {'Relu', 'Abs', 'Neg', 'Identity', 'Clip'}


class T:
    __slots__ = ('name', 'dt', 'sh', 'const', 'val', 'bits', 'uses', 'lo')

    def __init__(self, name, dt, sh, const=False, val=None, bits=None):
        self.name, self.dt, self.sh, self.const, self.val, self.bits = name, dt, [list(s) for s in sh], const, val, bits
        self.uses = 0

    def rank(self):
        return len(self.sh[0])

    def fixed(self, i):
        """dimension i, if it is the same under all assignments"""
        v = self.sh[0][i]
        return v if all(s[i] == v for s in self.sh) else None

    def allfixed(self):
        return all(s == self.sh[0] for s in self.sh)

    def size(self):
        return max(int(np.prod(s)) if s else 1 for s in self.sh)


class B:
    def __init__(self, draw, st, K, cfg):
        self.draw, self.st, self.K, self.cfg = draw, st, K, cfg
        self.ts, self.nodes, self.inits, self.inputs = [], [], [], []
        self.initmap = {}
        self.cnt = 0
        self.seeds = {}
        self.blocks = []
        self.style = self.pick(['t%d', 't%d', '%d', 'a/b.%d:0'])
        self.opset = cfg.get('opset') or self.pick([17, 17, 19])

    # ---- drawing
    def i(self, lo, hi):
        return self.draw(self.st.integers(lo, hi)) if hi > lo else lo

    def pick(self, l):
        return l[self.i(0, len(l) - 1)]

    def flip(self, one_in=2):
        return self.i(0, one_in - 1) == 0

    # ---- tensors
    def fresh(self):
        self.cnt += 1
        return self.style % self.cnt

    def add(self, t):
        self.ts.append(t)
        return t

    def init(self, dt, shape, data, bits=None, val=None, share=True):
        key = canon([dt, shape, data])
        if val is None and 'v' in data and dt == 'i64' and len(shape) <= 1:
            val = [data['v'] if shape else data['v'][0]] * self.K
        if share and key in self.initmap and self.cfg.get('share', True):
            return self.initmap[key]
        n = self.fresh() if not self.flip(3) else 'w.' + self.fresh()
        if (self.cfg.get('const_nodes', True) and self.flip(8)) or (self.cfg.get('shape_const_nodes') and 'v' in data):
            self.nodes.append(dict(op='Constant', name='', **{'in': []}, out=[n], attrs={'value': {'tensor': [dt, list(shape), data]}}))
        else:
            self.inits.append([n, dt, list(shape), data, self.flip(4)])
        t = T(n, dt, [shape] * self.K, True, val, bits)
        self.initmap[key] = t
        return t

    def ints(self, vals):
        return self.init('i64', [len(vals)], {'v': list(vals)}, bits=0, val=[list(vals)] * self.K)

    def scalar_int(self, v):
        return self.init('i64', [], {'v': [v]}, bits=0, val=[v] * self.K)

    def scalar(self, dt, v):
        return self.init(dt, [], {'v': [v]}, bits=6)

    def weight(self, dt, shape, lo=-2, hi=2, q=4, seed=None):
        return self.init(dt, shape, {'seed': self.i(0, 9999) if seed is None else seed, 'lo': lo, 'hi': hi, 'q': q},
                         bits=max(2, int(math.log2(max(abs(lo), abs(hi), 1))) + 2 + int(math.log2(q))), share=False)

    # ---- nodes
    def node(self, op, ins, outs, attrs=None, name=None):
        """outs: list of (dtype, per-assignment shapes, val, bits) or None (absent output)."""
        names = [t.name if t is not None else '' for t in ins]
        while names and names[-1] == '':
            names.pop()
        r, on = [], []
        const = all(t.const for t in ins if t is not None) and op not in ()
        for o in outs:
            if o is None:
                on.append(''); r.append(None); continue
            dt, sh, val, bits = (tuple(o) + (None, None))[:4]
            n = self.fresh()
            on.append(n)
            t = T(n, dt, sh, const, val, bits)
            r.append(self.add(t))
        while on and on[-1] == '':
            on.pop()
        for t in ins:
            if t is not None:
                t.uses += 1
        self.nodes.append(dict(op=op, name='', **{'in': names}, out=on, attrs=attrs or {}))
        return r[0] if len(r) == 1 else r

    def reduce(self, op, x, axes, outs, attrs=None):
        attrs = dict(attrs or {})
        if op == 'ReduceSum' or self.opset >= 18:
            return self.node(op, [x, self.ints(axes)], outs, attrs)
        return self.node(op, [x], outs, dict(attrs, axes=axes))

    def choose(self, pred=None, recent=True, dyn=None):
        c = [t for t in self.ts if (pred is None or pred(t)) and t.size() <= self.cfg.get('maxsize', 4000)
             and (dyn is None or (not t.const) == dyn)]
        if not c:
            return None
        if recent and not self.flip(3):
            # prefer unconsumed, then recent tensors
            u = [t for t in c if t.uses == 0]
            c = u or c[-4:]
            return c[self.i(0, len(c) - 1)]
        return c[self.i(0, len(c) - 1)]


def isf(t):
    return t.dt in FLOATS


def f32(t):
    return t.dt == 'f32'


def nonzero_dims(t):
    return all(d > 0 for s in t.sh for d in s)


def bshape(b, x, y):
    r = []
    for k in range(b.K):
        try:
            r.append(list(np.broadcast_shapes(tuple(x.sh[k]), tuple(y.sh[k]))))
        except ValueError:
            return None
    # the same dims must broadcast for every assignment in the same way: (1 vs n) patterns fixed
    return r


def mx(*bits):
    return None if any(b is None for b in bits) else max(bits)


# ------------------------------------------------------------------ blocks: return True when something was added
def k_unary(b):
    x = b.choose(f32)
    if x is None:
        return
    op = b.pick(UNARY)
    attrs = {}
    ins = [x]
    if op == 'Gelu_':
        # the exported erf form
        d = b.node('Div', [x, b.scalar('f32', 2.0)], [('f32', x.sh)])
        e = b.node('Erf', [d], [('f32', x.sh)])
        a = b.node('Add', [e, b.scalar('f32', 1.0)], [('f32', x.sh)])
        m = b.node('Mul', [x, a], [('f32', x.sh)])
        b.node('Mul', [m, b.scalar('f32', 0.5)], [('f32', x.sh)])
        return True
    if op in ('Sqrt', 'Log', 'Reciprocal'):
        x = b.node('Abs', [x], [('f32', x.sh, None, x.bits)])
        if op != 'Sqrt':
            x = b.node('Add', [x, b.scalar('f32', 1.0)], [('f32', x.sh)])
        ins = [x]
    if op == 'Exp':
        x = b.node('Tanh', [x], [('f32', x.sh)])
        ins = [x]
    if op in ('LeakyRelu', 'Elu') and b.flip():
        attrs['alpha'] = b.pick([0.1, 0.5, 1.5])
    if op == 'HardSigmoid' and b.flip():
        attrs = {'alpha': 0.25, 'beta': 0.375}
    if op == 'Clip':
        v = b.i(0, 2)
        ins = [x, b.scalar('f32', b.pick([-1.0, 0.0])) if v != 1 else None, b.scalar('f32', b.pick([1.0, 6.0])) if v else None]
    b.node(op, ins, [('f32', x.sh, None, x.bits if op in EXACT_UNARY else None)], attrs)
    return True


def k_binary(b):
    x = b.choose(lambda t: t.dt in ('f32', 'i64') and t.val is None)
    if x is None:
        return
    op = b.pick(['Add', 'Mul', 'Sub', 'Add', 'Mul', 'Div', 'Max', 'Min', 'Pow', 'Mod'])
    if op == 'Pow' and x.dt != 'f32':
        op = 'Add'
    if op == 'Mod' and x.dt != 'i64':
        op = 'Mul'
    y = None
    how = b.i(0, 3)
    if op in ('Pow', 'Div', 'Mod'):
        y = b.init(x.dt, b.pick([[], [1]]), {'v': [b.pick([2.0, 3.0] if op == 'Pow' else [2, 4])]}, bits=3)
    elif how <= 1:
        c = [t for t in b.ts if t.dt == x.dt and t is not x and t.val is None and bshape(b, x, t) is not None]
        if c:
            y = c[b.i(0, len(c) - 1)]
    if y is None:
        shape = []
        if x.rank():
            cut = b.i(0, x.rank())
            for i in range(cut, x.rank()):
                f = x.fixed(i)
                shape.append(f if f is not None and not b.flip(3) else 1)
        y = b.weight(x.dt, shape)
    if b.flip(4) and op not in ('Pow', 'Div', 'Mod', 'Sub'):
        x, y = y, x
    sh = bshape(b, x, y)
    if sh is None or max(int(np.prod(s)) for s in sh) > b.cfg.get('maxsize', 4000):
        return
    bits = None
    if x.bits is not None and y.bits is not None and op not in ('Div', 'Pow'):
        bits = x.bits + y.bits if op == 'Mul' else max(x.bits, y.bits) + (1 if op in ('Add', 'Sub') else 0)
        if bits > 20:
            bits = None
    if x.dt == 'i64' and bits is None:
        bits = 30 if op in ('Div', 'Mod') else None
        if bits is None:
            return
    b.node(op, [x, y], [(x.dt, sh, None, bits)])
    return True


def k_variadic(b):
    x = b.choose(f32)
    if x is None:
        return
    c = [t for t in b.ts if t.dt == 'f32' and t is not x and bshape(b, x, t) == x.sh]
    n = min(len(c), b.i(0, 2))
    ins = [x] + [c[b.i(0, len(c) - 1)] for _ in range(n)]
    op = b.pick(['Sum', 'Max', 'Min'])
    b.node(op, ins, [('f32', x.sh)])
    return True


def k_where(b):
    x = b.choose(lambda t: t.dt == 'f32' and t.bits is not None)
    if x is None:
        return
    op = b.pick(['Greater', 'Less', 'GreaterOrEqual', 'LessOrEqual', 'Equal'])
    c = b.node(op, [x, b.scalar('f32', b.pick([0.0, 0.5]))], [('bool', x.sh, None, 1)])
    if b.flip(3):
        c = b.node('Not', [c], [('bool', x.sh, None, 1)])
    if b.flip(3):
        c = b.node(b.pick(['And', 'Or']), [c, c], [('bool', x.sh, None, 1)])
    v = b.i(0, 2)
    if v == 0:
        b.node('Cast', [c], [('f32', x.sh, None, 1)], {'to': TP.FLOAT})
    elif v == 1:
        b.node('Where', [c, x, b.scalar('f32', -1.0)], [('f32', x.sh, None, x.bits)])
    else:
        cs = [t for t in b.ts if t.dt == 'f32' and t.sh == x.sh]
        b.node('Where', [c, cs[b.i(0, len(cs) - 1)], x], [('f32', x.sh)])
    return True


def conv_out(n, k, s, p0, p1, d, ceil=False):
    e = (k - 1) * d + 1
    v = (n + p0 + p1 - e) / s + 1
    return int(math.ceil(v) if ceil else math.floor(v))


def pool_params(b, x, r, pool=False):
    """kernel, strides, pads, dilations with a positive result under all assignments"""
    k = [b.pick([1, 3, 2, 3]) for _ in range(r)]
    s = [b.pick([1, 2, 1])] * r if not b.flip(4) else [b.pick([1, 2]) for _ in range(r)]
    d = [1] * r if pool or b.flip() else [b.pick([1, 2])] * r
    if pool or b.flip():
        z = b.i(0, 1) if not pool or (r == 2 and k[0] == k[1] and all(min(s[2:]) > 2 for s in x.sh)) else 0
        p0, p1 = [(v - 1) // 2 * z for v in k], [(v - 1) // 2 * z for v in k]
    else:
        p0 = [b.i(0, max(0, kk - 1)) for kk in k]
        p1 = [b.i(0, max(0, kk - 1)) for kk in k]
    for i in range(r):
        lim = min(sh[2 + i] for sh in x.sh)
        if conv_out(lim, k[i], 1, p0[i], p1[i], d[i]) < 1 or (pool and lim < k[i]):
            k[i], d[i], p0[i], p1[i] = 1, 1, 0, 0
    sh = [[conv_out(x.sh[a][2 + i], k[i], s[i], p0[i], p1[i], d[i]) for i in range(r)] for a in range(b.K)]
    return k, s, p0, p1, d, sh


def image(t):
    return t.dt == 'f32' and t.rank() in (3, 4) and t.fixed(1) is not None and 1 <= t.fixed(1) <= 16 and nonzero_dims(t)


def k_conv(b):
    x = b.choose(image, dyn=True)
    if x is None:
        return
    r = x.rank() - 2
    c = x.fixed(1)
    k, s, p0, p1, d, sp = pool_params(b, x, r)
    g = b.pick([1, 1, 1, c] + [v for v in (2,) if c % 2 == 0])
    m = g * b.i(1, 3) if g > 1 else b.i(1, 6)
    if m > 12:
        g, m = 1, b.i(1, 6)
    w = b.weight('f32', [m, c // g] + k, -1, 1, 4)
    ins = [x, w]
    if b.flip():
        ins.append(b.weight('f32', [m]))
    attrs = {}
    if not b.flip(3) or g > 1:
        attrs['group'] = g
    if not b.flip(3):
        attrs['kernel_shape'] = k
    if any(v != 1 for v in s) or b.flip():
        attrs['strides'] = s
    if any(v for v in p0 + p1) or b.flip():
        attrs['pads'] = p0 + p1
    if any(v != 1 for v in d) or b.flip():
        attrs['dilations'] = d
    y = b.node('Conv', ins, [('f32', [[x.sh[a][0], m] + sp[a] for a in range(b.K)])], attrs)
    v = b.i(0, 3)
    if v >= 2:
        y = bn(b, y)
    if v in (1, 3):
        b.node(b.pick(['Relu', 'LeakyRelu', 'Sigmoid', 'HardSwish']), [y], [('f32', y.sh)])
    return True


def bn(b, y):
    c = y.fixed(1)
    ins = [y, b.weight('f32', [c], 0.5, 2), b.weight('f32', [c]), b.weight('f32', [c]), b.weight('f32', [c], 0.5, 2)]
    return b.node('BatchNormalization', ins, [('f32', y.sh)], {'epsilon': b.pick([1e-5, 1e-3])} if b.flip() else {})


def k_bn(b):
    x = b.choose(lambda t: image(t) or (t.dt == 'f32' and t.rank() == 2 and t.fixed(1) and nonzero_dims(t)))
    if x is None:
        return
    if b.flip() or x.rank() == 2:
        bn(b, x)
    else:
        c = x.fixed(1)
        b.node('InstanceNormalization', [x, b.weight('f32', [c]), b.weight('f32', [c])], [('f32', x.sh)])
    return True


def k_pool(b):
    x = b.choose(image, dyn=True)
    if x is None:
        return
    r = x.rank() - 2
    op = b.pick(['MaxPool', 'AveragePool', 'GlobalAveragePool', 'MaxPool'])
    if op == 'GlobalAveragePool':
        b.node(op, [x], [('f32', [s[:2] + [1] * r for s in x.sh])])
        return True
    k, s, p0, p1, d, sp = pool_params(b, x, r, pool=True)
    attrs = {'kernel_shape': k}
    if any(v != 1 for v in s) or b.flip():
        attrs['strides'] = s
    if any(p0 + p1):
        attrs['pads'] = p0 + p1
    if op == 'AveragePool' and b.flip():
        attrs['count_include_pad'] = 1
    b.node(op, [x], [('f32', [x.sh[a][:2] + sp[a] for a in range(b.K)], None, x.bits if op == 'MaxPool' else None)], attrs)
    return True


def k_convt(b):
    x = b.choose(lambda t: image(t) and t.size() < 800, dyn=True)
    if x is None:
        return
    r = x.rank() - 2
    c, m, s, k = x.fixed(1), b.i(1, 3), b.pick([1, 2]), b.pick([2, 3, 1])
    sh = [[x.sh[a][0], m] + [(v - 1) * s + k for v in x.sh[a][2:]] for a in range(b.K)]
    b.node('ConvTranspose', [x, b.weight('f32', [c, m] + [k] * r, -1, 1)], [('f32', sh)], {'strides': [s] * r, 'kernel_shape': [k] * r})
    return True


def k_resize(b):
    x = b.choose(lambda t: image(t) and t.rank() == 4 and t.size() < 1500, dyn=True)
    if x is None:
        return
    how = b.i(0, 2)
    mode = b.pick(['nearest', 'linear'])
    attrs = {'mode': mode, 'coordinate_transformation_mode': 'asymmetric'}
    if mode == 'nearest':
        attrs['nearest_mode'] = 'floor'
    if how == 0:
        sc = b.pick([1.0, 2.0])
        s = b.init('f32', [4], {'v': [1.0, 1.0, sc, 2.0]})
        sh = [[v[0], v[1], int(v[2] * sc), v[3] * 2] for v in x.sh]
        b.node('Resize', [x, b.init('f32', [0], {'v': []}) if b.flip() else None, s], [('f32', sh)], attrs)
        return True
    if 'shape' not in b.cfg['blocks']:
        return
    y = b.node('Shape', [x], [('i64', [[4]] * b.K, [list(v) for v in x.sh], 10)])
    hd = b.node('Slice', [y, b.ints([0]), b.ints([2]), b.ints([0])], [('i64', [[2]] * b.K, [v[:2] for v in x.sh], 10)])
    if how == 1:
        tl = b.ints([b.i(2, 9), b.i(2, 9)])
        tv = tl.val
    else:
        t2 = b.node('Slice', [y, b.ints([2]), b.ints([4]), b.ints([0])], [('i64', [[2]] * b.K, [v[2:] for v in x.sh], 10)])
        m = b.pick([2, 1, 3])
        if b.flip():
            tl = b.node('Mul', [t2, b.scalar_int(m)], [('i64', [[2]] * b.K, [[a * m for a in v[2:]] for v in x.sh], 12)])
        else:
            cf = b.node('Cast', [t2], [('f32', [[2]] * b.K, None, 12)], {'to': TP.FLOAT})
            cm = b.node('Mul', [cf, b.scalar('f32', float(m))], [('f32', [[2]] * b.K, None, 14)])
            cc = b.node('Floor', [cm], [('f32', [[2]] * b.K, None, 14)])
            tl = b.node('Cast', [cc], [('i64', [[2]] * b.K, [[a * m for a in v[2:]] for v in x.sh], 12)], {'to': TP.INT64})
        tv = [[a * m for a in v[2:]] for v in x.sh]
    out = [x.sh[a][:2] + list(tv[a]) for a in range(b.K)]
    sz = b.node('Concat', [hd, tl], [('i64', [[4]] * b.K, out, 10)], {'axis': 0})
    b.node('Resize', [x, None, None, sz], [('f32', out)], attrs)
    return True


def k_matmul(b):
    x = b.choose(lambda t: t.dt == 'f32' and t.rank() >= 1 and t.fixed(-1) is not None and 1 <= t.fixed(-1) <= 64 and nonzero_dims(t))
    if x is None:
        return
    kk = x.fixed(x.rank() - 1)
    n = b.i(1, 6)
    v = b.i(0, 3)
    if v == 0 and x.rank() == 2:
        tb = b.i(0, 1)
        w = b.weight('f32', [n, kk] if tb else [kk, n], -1, 1)
        ins = [x, w]
        if b.flip():
            ins.append(b.weight('f32', b.pick([[n], [1, n], []])))
        attrs = {'transB': 1} if tb else {}
        if b.flip(3):
            attrs['alpha'] = 0.5
        b.node('Gemm', ins, [('f32', [[s[0], n] for s in x.sh])], attrs)
        return True
    if v == 1 and x.rank() >= 2:
        # x @ transpose(x)
        p = list(range(x.rank())); p[-1], p[-2] = p[-2], p[-1]
        y = b.node('Transpose', [x], [('f32', [[s[i] for i in p] for s in x.sh], None, x.bits)], {'perm': p})
        b.node('MatMul', [x, y], [('f32', [s[:-1] + [s[-2]] for s in x.sh])])
        return True
    w = b.weight('f32', [kk, n], -1, 1)
    y = b.node('MatMul', [x, w], [('f32', [s[:-1] + [n] for s in x.sh])])
    if b.flip():
        b.node('Add', [y, b.weight('f32', [n])] if b.flip() else [b.weight('f32', [n]), y], [('f32', y.sh)])
    return True


def k_layernorm(b):
    x = b.choose(lambda t: t.dt == 'f32' and t.rank() >= 2 and t.fixed(t.rank() - 1) is not None and nonzero_dims(t), dyn=True)
    if x is None:
        return
    d = x.fixed(x.rank() - 1)
    v = b.i(0, 2)
    if v == 0:
        ins = [x, b.weight('f32', [d])]
        if b.flip():
            ins.append(b.weight('f32', [d]))
        b.node('LayerNormalization', ins, [('f32', x.sh)], {'axis': -1} if b.flip() else {})
    elif v == 1:
        b.node('Softmax', [x], [('f32', x.sh)], {'axis': b.pick([-1, x.rank() - 1, 1])})
    else:
        m = b.reduce('ReduceMean', x, [-1], [('f32', [s[:-1] + [1] for s in x.sh])])
        z = b.node('Sub', [x, m], [('f32', x.sh)])
        q = b.node('Mul', [z, z], [('f32', x.sh)])
        vv = b.reduce('ReduceMean', q, [-1], [('f32', m.sh)])
        e = b.node('Add', [vv, b.scalar('f32', 0.001)], [('f32', m.sh)])
        sq = b.node('Sqrt', [e], [('f32', m.sh)])
        b.node('Div', [z, sq], [('f32', x.sh)])
    return True


def k_transpose(b):
    x = b.choose(lambda t: t.rank() >= 2 and t.val is None)
    if x is None:
        return
    if b.flip(4):
        b.node('Transpose', [x], [(x.dt, [s[::-1] for s in x.sh], None, x.bits)])
        return True
    p = list(b.draw(b.st.permutations(range(x.rank()))))
    b.node('Transpose', [x], [(x.dt, [[s[i] for i in p] for s in x.sh], None, x.bits)], {'perm': p})
    return True


def k_concat(b):
    x = b.choose(lambda t: t.rank() >= 1 and t.val is None)
    if x is None:
        return
    ax = b.i(0, x.rank() - 1)
    c = [t for t in b.ts if t.dt == x.dt and t.rank() == x.rank() and t.val is None and
         all(t.sh[k][j] == x.sh[k][j] for k in range(b.K) for j in range(x.rank()) if j != ax)]
    ins = [x] + [c[b.i(0, len(c) - 1)] for _ in range(b.i(1, 2))]
    if b.flip(4) and all(x.fixed(j) is not None for j in range(x.rank()) if j != ax):
        s = list(x.sh[0]); s[ax] = 2
        ins.append(b.weight(x.dt, s))
    sh = [[sum(t.sh[k][j] for t in ins) if j == ax else x.sh[k][j] for j in range(x.rank())] for k in range(b.K)]
    b.node('Concat', ins, [(x.dt, sh, None, mx(*[t.bits for t in ins]))], {'axis': b.pick([ax, ax - x.rank()])})
    return True


def k_split(b):
    x = b.choose(lambda t: t.rank() >= 1 and t.val is None and any(t.fixed(i) is not None and t.fixed(i) >= 2 for i in range(t.rank())))
    if x is None:
        return
    axs = [i for i in range(x.rank()) if x.fixed(i) is not None and x.fixed(i) >= 2]
    ax = b.pick(axs)
    n = x.fixed(ax)
    a1 = b.i(1, n - 1)
    parts = [a1, n - a1]
    attrs = {}
    if n % 2 == 0 and b.flip():
        parts = [n // 2] * 2
        ins = [x]
        if b.opset >= 18:
            attrs['num_outputs'] = 2
    else:
        ins = [x, b.ints(parts)]
    outs = [(x.dt, [s[:ax] + [p] + s[ax + 1:] for s in x.sh], None, x.bits) for p in parts]
    attrs['axis'] = b.pick([ax, ax - x.rank()])
    b.node('Split', ins, outs, attrs)
    return True


def k_slice(b):
    x = b.choose(lambda t: t.rank() >= 1 and t.val is None and nonzero_dims(t))
    if x is None:
        return
    ax = b.i(0, x.rank() - 1)
    lo, hi = b.pick([0, 1, -2, -1]), b.pick([1, 2, 3, 10 ** 9, -1])
    step = b.pick([1, 1, 2])
    sh = []
    for s in x.sh:
        n = len(range(s[ax])[lo:hi:step])
        if n == 0 or abs(lo) > s[ax]:
            return
        sh.append(s[:ax] + [n] + s[ax + 1:])
    ins = [x, b.ints([lo]), b.ints([hi]), b.ints([b.pick([ax, ax - x.rank()])])]
    if step != 1 or b.flip():
        ins.append(b.ints([step]))
    b.node('Slice', ins, [(x.dt, sh, None, x.bits)])
    return True


def k_unsqueeze(b):
    x = b.choose(lambda t: t.val is None and t.rank() <= 4)
    if x is None:
        return
    if b.flip() and x.rank() and any(x.fixed(i) == 1 for i in range(x.rank())):
        ax = b.pick([i for i in range(x.rank()) if x.fixed(i) == 1])
        b.node('Squeeze', [x, b.ints([b.pick([ax, ax - x.rank()])])], [(x.dt, [s[:ax] + s[ax + 1:] for s in x.sh], None, x.bits)])
        return True
    ax = b.i(0, x.rank())
    b.node('Unsqueeze', [x, b.ints([b.pick([ax, ax - x.rank() - 1])])], [(x.dt, [s[:ax] + [1] + s[ax:] for s in x.sh], None, x.bits)])
    return True


def k_reshape(b):
    x = b.choose(lambda t: t.rank() >= 1 and t.val is None and nonzero_dims(t))
    if x is None:
        return
    v = b.i(0, 3)
    if v == 0:
        ax = b.i(0, x.rank())
        sh = [[int(np.prod(s[:ax])) if ax else 1, int(np.prod(s[ax:])) if ax < x.rank() else 1] for s in x.sh]
        b.node('Flatten', [x], [(x.dt, sh, None, x.bits)], {'axis': ax} if ax != 1 or b.flip() else {})
        return True
    # keep the first `keep` dims by 0, the rest -1; optionally split a fixed last dim
    keep = b.i(0, x.rank() - 1)
    tgt = [0] * keep + [-1]
    sh = [s[:keep] + [int(np.prod(s[keep:]))] for s in x.sh]
    if v == 2 and x.fixed(x.rank() - 1) is not None:
        n = x.fixed(x.rank() - 1)
        f = b.pick([d for d in range(1, n + 1) if n % d == 0])
        tgt = [0] * (x.rank() - 1) + [n // f, f]
        sh = [s[:-1] + [n // f, f] for s in x.sh]
    b.node('Reshape', [x, b.ints(tgt)], [(x.dt, sh, None, x.bits)])
    return True


def k_gather(b):
    x = b.choose(lambda t: t.rank() >= 1 and t.val is None and nonzero_dims(t))
    if x is None:
        return
    ax = b.i(0, x.rank() - 1)
    v = b.i(0, 2)
    if v == 0:
        idx = b.scalar_int(b.pick([0, -1]))
        sh = [s[:ax] + s[ax + 1:] for s in x.sh]
    else:
        m = min(s[ax] for s in x.sh)
        l = [b.i(-m, m - 1) for _ in range(b.i(1, 3))]
        idx = b.init('i64', [len(l)] if v == 1 else [1, len(l)], {'v': l}, bits=4)
        sh = [s[:ax] + idx.sh[0] + s[ax + 1:] for s in x.sh]
    b.node('Gather', [x, idx], [(x.dt, sh, None, x.bits)], {'axis': ax} if ax or b.flip() else {})
    return True


def k_embed(b):
    """token ids -> table rows"""
    x = b.choose(lambda t: t.dt == 'i64' and t.val is None and t.bits is not None and t.bits <= 4 and not t.const)
    if x is None:
        return
    d = b.i(1, 5)
    m = b.node('Mod', [x, b.scalar_int(7)], [('i64', x.sh, None, 3)])
    b.node('Gather', [b.weight('f32', [7, d]), m], [('f32', [s + [d] for s in x.sh], None, 5)])
    return True


def k_pad(b):
    x = b.choose(lambda t: t.dt == 'f32' and t.rank() >= 1 and t.size() < 1500)
    if x is None:
        return
    r = x.rank()
    p0 = [b.i(0, 2) for _ in range(r)]
    p1 = [b.i(0, 1) for _ in range(r)]
    ins = [x, b.ints(p0 + p1)]
    if b.flip():
        ins.append(b.scalar('f32', b.pick([0.0, 1.0])))
    b.node('Pad', ins, [('f32', [[p0[i] + s[i] + p1[i] for i in range(r)] for s in x.sh], None, mx(x.bits, 2))],
           {'mode': 'constant'} if b.flip() else {})
    return True


def k_tile(b):
    x = b.choose(lambda t: t.rank() >= 1 and t.val is None and t.size() < 800)
    if x is None:
        return
    r = [b.i(1, 2) for _ in range(x.rank())]
    if b.flip():
        b.node('Tile', [x, b.ints(r)], [(x.dt, [[a * c for a, c in zip(s, r)] for s in x.sh], None, x.bits)])
    else:
        tgt = [b.i(2, 3)] + [1] * x.rank()
        b.node('Expand', [x, b.ints(tgt)], [(x.dt, [[tgt[0]] + s for s in x.sh], None, x.bits)])
    return True


def k_reduce(b):
    x = b.choose(lambda t: t.dt == 'f32' and t.rank() >= 1 and nonzero_dims(t))
    if x is None:
        return
    op = b.pick(['ReduceMean', 'ReduceSum', 'ReduceMax', 'ReduceMin', 'ReduceL2', 'ReduceProd_'])
    if op == 'ReduceProd_':
        op = 'ReduceMax'
    ax = b.i(0, x.rank() - 1)
    kd = b.i(0, 1)
    attrs = {'keepdims': kd} if not (kd and b.flip()) else {}
    a = [b.pick([ax, ax - x.rank()])]
    sh = [s[:ax] + ([1] if kd else []) + s[ax + 1:] for s in x.sh]
    b.reduce(op, x, a, [('f32', sh, None, x.bits if op in ('ReduceMax', 'ReduceMin') else None)], attrs)
    return True


def k_argmax(b):
    x = b.choose(lambda t: t.dt == 'f32' and t.rank() >= 1 and nonzero_dims(t) and t.bits is not None)
    if x is None:
        return
    ax = b.i(0, x.rank() - 1)
    kd = b.i(0, 1)
    b.node('ArgMax', [x], [('i64', [s[:ax] + ([1] if kd else []) + s[ax + 1:] for s in x.sh], None, 4)], {'axis': ax, 'keepdims': kd})
    return True


def k_topk(b):
    x = b.choose(lambda t: t.dt == 'f32' and t.rank() >= 1 and nonzero_dims(t) and t.bits is not None, dyn=True)
    if x is None:
        return
    ax = b.i(0, x.rank() - 1)
    m = min(s[ax] for s in x.sh)
    k = b.i(1, min(m, 3))
    sh = [s[:ax] + [k] + s[ax + 1:] for s in x.sh]
    outs = [('f32', sh, None, x.bits), ('i64', sh, None, 4)]
    b.node('TopK', [x, b.ints([k])], outs, {'axis': ax} if ax != x.rank() - 1 or b.flip() else {})
    return True


def k_dropout(b):
    x = b.choose(f32)
    if x is None:
        return
    v = b.i(0, 2)
    ins = [x]
    if v == 1:
        ins.append(b.scalar('f32', 0.25))
    b.node('Dropout', ins, [('f32', x.sh, None, x.bits)] + ([('bool', x.sh, None, 1)] if v == 2 else []))
    return True


def k_lstm(b):
    x = b.choose(lambda t: t.dt == 'f32' and t.rank() == 3 and t.fixed(2) is not None and nonzero_dims(t) and t.size() < 600, dyn=True)
    if x is None:
        return
    d, h = x.fixed(2), b.i(1, 3)
    ins = [x, b.weight('f32', [1, 4 * h, d], -1, 1), b.weight('f32', [1, 4 * h, h], -1, 1)]
    if b.flip():
        ins.append(b.weight('f32', [1, 8 * h], -1, 1))
    which = b.i(0, 3)
    Y = ('f32', [[s[0], 1, s[1], h] for s in x.sh])
    H = ('f32', [[1, s[1], h] for s in x.sh])
    outs = {0: [Y], 1: [None, H], 2: [Y, H, H], 3: [None, None, H]}[which]
    b.node('LSTM', ins, outs, {'hidden_size': h})
    return True


def k_cast(b):
    x = b.choose(lambda t: t.val is None and t.bits is not None and t.dt in ('f32', 'i64', 'bool'))
    if x is None:
        return
    to = b.pick(['f32', 'i64', 'i32', 'f64'] if x.dt != 'f32' else ['f32', 'f64'])
    y = b.node('Cast', [x], [(to, x.sh, None, x.bits)], {'to': ptdt(to)})
    if to in ('i32', 'f64'):
        b.node('Cast', [y], [('f32', x.sh, None, x.bits)], {'to': TP.FLOAT})
    return True


# ---- shape subgraphs
def dim_of(b, x, ax, scalar=False):
    """tensor holding dimension ax of x, shape [1] (or scalar)"""
    v = b.i(0, 6) if not scalar else 0
    vals = [sh[ax] for sh in x.sh]
    axv = b.pick([ax, ax - x.rank()])
    one = ('i64', [[1]] * b.K, [[q] for q in vals], 10)
    if v == 6:
        if b.opset >= 15:
            at = {'start': axv}
            if ax + 1 < x.rank():
                at['end'] = b.pick([ax + 1, ax + 1 - x.rank()])
            return b.node('Shape', [x], [one], at)
        v = 0
    s = b.node('Shape', [x], [('i64', [[x.rank()]] * b.K, [list(v) for v in x.sh], 10)])
    if v == 3 and x.rank() > 1:     # cut into single dimensions, or around this one
        if b.flip():
            return b.node('Split', [s, b.ints([1] * x.rank())], [('i64', [[1]] * b.K, [[sh[i]] for sh in x.sh], 10) for i in range(x.rank())], {'axis': 0} if b.flip() else {})[ax]
        cut = [n for n in (ax, 1, x.rank() - ax - 1) if n]
        outs = []
        for i, n in enumerate(cut):
            o = sum(cut[:i])
            outs.append(('i64', [[n]] * b.K, [list(sh[o:o + n]) for sh in x.sh], 10))
        return b.node('Split', [s, b.ints(cut)], outs, {'axis': b.pick([0, -1])})[1 if ax else 0]
    if v == 4:
        g = b.node('Slice', [s, b.ints([axv]), b.ints([ax + 1]), b.ints([0])], [one])
        z = b.node('Squeeze', [g, b.ints([0])] if b.flip() else [g], [('i64', [[]] * b.K, vals, 10)])
        if b.flip():
            return b.node('Reshape', [z, b.ints([1])], [one])
        return b.node('Unsqueeze', [z, b.ints([b.pick([0, -1])])], [one])
    if v == 5:
        g = b.node('Gather', [s, b.ints([axv, axv])], [('i64', [[2]] * b.K, [[q, q] for q in vals], 10)])
        return b.reduce(b.pick(['ReduceMax', 'ReduceMin']), g, [0], [one], {'keepdims': 1} if b.flip() else {})
    if scalar:
        return b.node('Gather', [s, b.scalar_int(axv)], [('i64', [[]] * b.K, vals, 10)], {'axis': 0} if b.flip() else {})
    if v == 0:
        g = b.node('Gather', [s, b.scalar_int(axv)], [('i64', [[]] * b.K, vals, 10)], {'axis': 0})
        return b.node('Unsqueeze', [g, b.ints([0])], [('i64', [[1]] * b.K, [[q] for q in vals], 10)])
    if v == 1:
        return b.node('Gather', [s, b.ints([axv])], [('i64', [[1]] * b.K, [[q] for q in vals], 10)])
    return b.node('Slice', [s, b.ints([ax]), b.ints([ax + 1]), b.ints([0])][:4 if b.flip() else 3], [('i64', [[1]] * b.K, [[q] for q in vals], 10)])


def arith(b, t):
    """integer arithmetic on a [1] shape value"""
    v = b.i(0, 9)
    if v == 0 or b.cfg.get('pure_dims'):
        return t
    c = b.pick([1, 2, 3])
    out = lambda f: ('i64', [[1]] * b.K, [[f(q[0])] for q in t.val], 10)
    if v == 5 and all(q[0] % c for q in t.val):
        return b.node('Mod', [t, b.ints([c])], [out(lambda q: q % c)])
    if v == 6:
        op = b.pick(['Max', 'Min'])
        return b.node(op, b.pick([[t, b.ints([c])], [b.ints([c]), t]]), [out(lambda q: max(q, c) if op == 'Max' else min(q, c))])
    if v == 7:     # scaled as a float and rounded, as exporters do for Resize
        fl = ('f32', [[1]] * b.K, None, 8)
        k, op = b.pick([0.5, 1.5]), b.pick(['Floor', 'Ceil'])
        f = lambda q: int(math.floor(q * k)) if op == 'Floor' else int(math.ceil(q * k))
        if any(f(q[0]) < 1 for q in t.val):
            return t
        y = b.node('Mul', [b.node('Cast', [t], [fl], {'to': TP.FLOAT}), b.scalar('f32', k)], [fl])
        return b.node('Cast', [b.node(op, [y], [fl])], [out(f)], {'to': TP.INT64})
    if v == 8:
        g = b.node('Greater', [t, b.ints([c])], [('bool', [[1]] * b.K, None, 1)])
        return b.node('Where', [g, t, b.ints([c])], [out(lambda q: max(q, c))])
    if v == 9:
        return b.node('Abs', [b.node('Neg', [t], [out(lambda q: -q)])], [out(lambda q: q)])
    if v > 4:
        return t
    cst = b.ints([c]) if b.flip() else b.scalar_int(c)
    op = {1: 'Add', 2: 'Mul', 3: 'Div', 4: 'Sub'}[v]
    f = {'Add': lambda q: q + c, 'Mul': lambda q: q * c, 'Div': lambda q: q // c, 'Sub': lambda q: q - c}[op]
    vals = [[f(q[0])] for q in t.val]
    if any(q[0] < 1 or q[0] > 40 for q in vals):
        return t
    return b.node(op, [t, cst], [('i64', [[1]] * b.K, vals, 10)])


def k_shape_reshape(b):
    x = b.choose(lambda t: t.rank() >= 1 and t.val is None and nonzero_dims(t), dyn=True)
    if x is None:
        return
    keep = [i for i in range(x.rank()) if not b.flip(3)][:3]
    parts = [dim_of(b, x, i) for i in keep]
    minus = b.ints([-1])
    order = parts + [minus]
    if b.flip(3):
        order = [minus] + parts
    shp = []
    for k in range(b.K):
        dims = [t.val[k][0] for t in order]
        tot = int(np.prod(x.sh[k]))
        known = int(np.prod([d for d in dims if d != -1]))
        shp.append([d if d != -1 else tot // known for d in dims])
    vals = [[t.val[k][0] for t in order] for k in range(b.K)]
    if len(order) == 1:
        sh = order[0]
    else:
        sh = b.node('Concat', order, [('i64', [[len(order)]] * b.K, vals, 10)], {'axis': 0})
    b.node('Reshape', [x, sh], [(x.dt, shp, None, x.bits)])
    return True


def k_shape_fill(b):
    x = b.choose(lambda t: t.rank() >= 1 and t.val is None and nonzero_dims(t), dyn=True)
    if x is None:
        return
    v = b.i(0, 6)
    if v == 0:     # ConstantOfShape(Shape(x)) + x
        s = b.node('Shape', [x], [('i64', [[x.rank()]] * b.K, [list(q) for q in x.sh], 10)])
        c = b.node('ConstantOfShape', [s], [('f32', x.sh, None, 3)], {'value': {'tensor': ['f32', [1], {'v': [1.5]}]}} if b.flip() else {})
        if x.dt == 'f32':
            b.node('Add', [c, x], [('f32', x.sh, None, None if x.bits is None or x.bits > 18 else x.bits + 2)])
        return True
    if v == 1:     # Range over a dimension
        ax = b.i(0, x.rank() - 1)
        n = dim_of(b, x, ax, scalar=True)
        r = b.node('Range', [b.scalar_int(0), n, b.scalar_int(1)], [('i64', [[q] for q in n.val], None, 6)])
        w = b.i(0, 2)
        if w == 0:
            b.node('Gather', [x, r], [(x.dt, x.sh, None, x.bits)], {'axis': ax})
        elif w == 1:
            b.node('Cast', [r], [('f32', r.sh, None, 6)], {'to': TP.FLOAT})
        return True
    if v == 2:     # Expand to a computed shape
        parts = [arith(b, dim_of(b, x, b.i(0, x.rank() - 1)))] + [dim_of(b, x, i) for i in range(x.rank())]
        vals = [[t.val[k][0] for t in parts] for k in range(b.K)]
        if max(int(np.prod(q)) for q in vals) > 2000:
            return
        sh = b.node('Concat', parts, [('i64', [[len(parts)]] * b.K, vals, 10)], {'axis': 0})
        if b.flip():   # exporter pattern Where(Equal(shape, -1), ones, shape)
            ss = b.node('Shape', [sh], [('i64', [[1]] * b.K, [[len(parts)]] * b.K, 10)])
            ones = b.node('ConstantOfShape', [ss], [('i64', [[len(parts)]] * b.K, [[1] * len(parts)] * b.K, 10)],
                          {'value': {'tensor': ['i64', [1], {'v': [1]}]}})
            mm = b.node('Mul', [ones, b.scalar_int(-1)], [('i64', [[len(parts)]] * b.K, [[-1] * len(parts)] * b.K, 10)])
            eq = b.node('Equal', [sh, mm], [('bool', [[len(parts)]] * b.K, [[0] * len(parts)] * b.K, 1)])
            sh = b.node('Where', [eq, ones, sh], [('i64', [[len(parts)]] * b.K, vals, 10)])
        b.node('Expand', [x, sh], [(x.dt, vals, None, x.bits)])
        return True
    if v == 3:     # Slice up to a computed end
        ax = b.i(0, x.rank() - 1)
        if min(s[ax] for s in x.sh) < 2:
            return
        e = dim_of(b, x, ax)
        w = b.i(0, 1)
        if w:
            e = b.node('Div', [e, b.ints([2])], [('i64', [[1]] * b.K, [[q[0] // 2] for q in e.val], 10)])
        else:
            e = b.node('Sub', [e, b.ints([1])], [('i64', [[1]] * b.K, [[q[0] - 1] for q in e.val], 10)])
        sh = [s[:ax] + [e.val[k][0]] + s[ax + 1:] for k, s in enumerate(x.sh)]
        y = b.node('Slice', [x, b.ints([0]), e, b.ints([ax])], [(x.dt, sh, None, x.bits)])
        if y.dt == 'f32' and b.flip():     # the same computed value also used as data
            c = b.node('Cast', [e], [('f32', e.sh, None, 6)], {'to': TP.FLOAT})
            b.node('Mul', [y, c], [('f32', y.sh)])
        return True
    if v == 4 and x.dt == 'f32':     # scale by a dimension (shape value used as data)
        d = dim_of(b, x, b.i(0, x.rank() - 1), scalar=b.flip())
        c = b.node('Cast', [d], [('f32', d.sh, None, 6)], {'to': TP.FLOAT})
        q = b.node('Sqrt', [c], [('f32', d.sh)])
        b.node('Div', [x, q], [('f32', x.sh)])
        return True
    if v == 6:     # one tensor is the data and the shape of a node
        d = dim_of(b, x, x.rank() - 1)
        y = b.node(b.pick(['Expand', 'Tile']), [d, d], [('i64', [[q[0]] for q in d.val], None, 6)])
        if x.dt == 'f32' and b.flip():
            c = b.node('Cast', [y], [('f32', y.sh, None, 6)], {'to': TP.FLOAT})
            b.node('Mul', [x, c], [('f32', x.sh)])
        return True
    if v == 5:     # Tile by computed repeats
        if x.size() > 500:
            return
        ax = b.i(0, x.rank() - 1)
        reps = [b.ints([1])] * x.rank()
        d = dim_of(b, x, ax)
        vals = [[d.val[k][0] if i == b.cfg.get('_', 0) else 1 for i in range(x.rank())] for k in range(b.K)]
        reps[0] = d
        if max(v[0] for v in vals) > 12:
            return
        sh = b.node('Concat', reps, [('i64', [[x.rank()]] * b.K, vals, 10)], {'axis': 0}) if len(reps) > 1 else d
        b.node('Tile', [x, sh], [(x.dt, [[a * c for a, c in zip(x.sh[k], vals[k])] for k in range(b.K)], None, x.bits)])
        return True


def k_const(b):
    """a chain of nodes on constants only, joined to the data path"""
    x = b.choose(lambda t: t.dt == 'f32', dyn=True)
    if x is None:
        return
    c = b.weight('f32', [b.i(1, 4), b.i(1, 4)])
    b.ts.append(c)
    for _ in range(b.i(1, 3)):
        v = b.i(0, 5)
        if v == 0:
            c = b.node('Transpose', [c], [('f32', [s[::-1] for s in c.sh], None, c.bits)])
        elif v == 1:
            c = b.node('Mul', [c, b.scalar('f32', 0.5)], [('f32', c.sh)])
        elif v == 2:
            c = b.node('Concat', [c, c], [('f32', [s[:-1] + [2 * s[-1]] for s in c.sh])], {'axis': -1})
        elif v == 3:
            c = b.node('Reshape', [c, b.ints([1, -1])], [('f32', [[1, int(np.prod(s))] for s in c.sh])])
        elif v == 4:
            n = c.fixed(1)
            if n >= 2:
                ls = [1, n - 1]
                c = b.node('Split', [c, b.ints(ls)], [('f32', [[s[0], q] for s in c.sh]) for q in ls], {'axis': 1})[b.i(0, 1)]
        else:
            c = b.node(b.pick(['Relu', 'Neg', 'Sqrt_'][:2]), [c], [('f32', c.sh)])
    s = b.node('ReduceMean', [c], [('f32', [[]] * b.K)], {'keepdims': 0})
    b.node('Add', [x, s], [('f32', x.sh)])
    return True


def k_dequant(b):
    if b.opset < 19:
        return
    x = b.choose(lambda t: t.dt == 'f32' and t.rank() >= 1 and t.fixed(t.rank() - 1) is not None and nonzero_dims(t) and t.fixed(t.rank() - 1) <= 32)
    if x is None:
        return
    kk, n = x.fixed(x.rank() - 1), b.i(1, 4)
    q = b.init('i8', [kk, n], {'seed': b.i(0, 999), 'lo': -8, 'hi': 7}, share=False)
    if b.flip():
        d = b.node('DequantizeLinear', [q, b.weight('f32', [n], 0.25, 1), b.init('i8', [n], {'seed': 1, 'lo': -2, 'hi': 2}, share=False)],
                   [('f32', [[kk, n]] * b.K)], {'axis': 1} if b.flip() else {})
    else:
        d = b.node('DequantizeLinear', [q, b.scalar('f32', 0.25)], [('f32', [[kk, n]] * b.K)])
    d.const = False
    b.node('MatMul', [x, d], [('f32', [s[:-1] + [n] for s in x.sh])])
    return True


def k_noise(b):
    """a random generator, whose result is multiplied by zero: it must not be evaluated when loading"""
    x = b.choose(lambda t: t.dt == 'f32', dyn=True)
    if x is None:
        return
    c = b.weight('f32', [b.i(1, 4), b.i(1, 4)])
    mark = len(b.ts)
    if b.flip():
        r = b.node('RandomUniformLike', [c], [('f32', c.sh)], b.pick([{}, {'low': -1.0, 'high': 2.0}]))
    else:
        r = b.node('RandomNormalLike', [c], [('f32', c.sh)], b.pick([{}, {'mean': 1.0}]))
    r.const = False
    z = b.node('Mul', [r, b.scalar('f32', 0.0)], [('f32', c.sh)])
    del b.ts[mark:]     # no graph outputs
    if b.flip():
        z = b.reduce('ReduceMax', z, [0, 1], [('f32', [[]] * b.K)], {'keepdims': 0})
    else:
        z = b.node('ReduceMean', [z], [('f32', [[]] * b.K)], {'keepdims': 0})
    b.node('Add', [x, z], [('f32', x.sh)])
    return True


def k_residual(b):
    """diamond: two paths from one tensor joined again"""
    x = b.choose(f32, dyn=True)
    if x is None:
        return
    a = b.node(b.pick(['Relu', 'Sigmoid', 'Tanh']), [x], [('f32', x.sh)])
    if b.flip():
        a = b.node('Mul', [a, b.scalar('f32', 0.5)], [('f32', x.sh)])
    b.node(b.pick(['Add', 'Mul']), [a, x] if b.flip() else [x, a], [('f32', x.sh)])
    return True


def k_if(b):
    """If over a computed condition; the branches capture outer tensors and weights"""
    x = b.choose(lambda t: t.dt == 'f32' and t.bits is not None and nonzero_dims(t), dyn=True)
    if x is None:
        return
    src = b.choose(lambda t: t.dt == 'f32' and t.bits is not None and nonzero_dims(t), dyn=True) if b.flip() else x
    how = b.i(0, 2)
    if how == 0 or src.rank() == 0:
        m = b.node('ReduceMax', [src], [('f32', [[]] * b.K, None, src.bits)], {'keepdims': 0})
        cond = b.node('Greater', [m, b.scalar('f32', b.pick([0.0, 2.5, -9.0]))], [('bool', [[]] * b.K, None, 1)])
    elif how == 1:
        d = dim_of(b, src, b.i(0, src.rank() - 1), scalar=True)
        cond = b.node(b.pick(['Greater', 'Equal', 'Less']), [d, b.scalar_int(b.pick([1, 3, 6]))], [('bool', [[]] * b.K, None, 1)])
    else:
        n = 'cond_in%d' % len(b.inputs)
        b.inputs.append([n, 'bool', []])
        b.seeds[n] = {'seed': b.i(0, 99)}
        cond = b.add(T(n, 'bool', [[]] * b.K))
    if b.flip(4):
        cond = b.node('Not', [cond], [('bool', [[]] * b.K, None, 1)])
    nout = 1 if not b.flip(4) else 2
    names = {}
    branches = {}
    caps = [x]
    shared = b.weight('f32', [])
    extra = [t for t in b.ts if t.dt == 'f32' and t.sh == x.sh and t is not x]
    if b.opset < 0:
        return
    for br in ('then_branch', 'else_branch'):
        nodes, inits, outs = [], [], []
        pre = br[:4] + '_' + str(b.cnt) + '_'
        style = b.pick(['named', 'unnamed', 'same'])
        for oi in range(nout):
            cur = x.name
            L = b.i(1, 2)
            for j in range(L):
                op = b.pick(['Relu', 'Neg', 'Add', 'Mul', 'AddX', 'Tanh'])
                o = pre + 'o%d_%d' % (oi, j)
                ins = [cur]
                if op == 'Add':
                    if b.flip():
                        ins.append(shared.name); shared.uses += 1
                    else:
                        w = pre + 'w%d_%d' % (oi, j)
                        if b.flip():
                            inits.append([w, 'f32', [], {'v': [b.pick([1.5, -2.0])]}])
                        else:
                            nodes.append({'op': 'Constant', 'name': '' if style == 'unnamed' else pre + 'c%d_%d' % (oi, j), 'in': [], 'out': [w],
                                          'attrs': {'value': {'tensor': ['f32', [], {'v': [b.pick([1.5, -2.0])]}]}}})
                        ins.append(w)
                elif op in ('Mul', 'AddX'):
                    y = b.pick(extra) if extra else x
                    op = {'AddX': 'Add'}.get(op, op)
                    y.uses += 1
                    ins.append(y.name)
                nm = {'named': pre + 'n%d_%d' % (oi, j), 'unnamed': '', 'same': 'branch_node_%d_%d' % (oi, j)}[style]
                nodes.append({'op': op, 'name': nm, 'in': ins, 'out': [o], 'attrs': {}})
                cur = o
            outs.append([cur, 'f32', [None] * x.rank()])
        branches[br] = {'graph': {'nodes': nodes, 'inputs': [], 'outputs': outs, 'inits': inits, 'gname': br}}
    x.uses += 1
    r = b.node('If', [cond], [('f32', x.sh)] * nout, branches)
    return True


def k_custom(b):
    x = b.choose(lambda t: t.val is None)
    if x is None:
        return
    V = [5, -(2 ** 40), 0.1, 1e-30, 'text', '', {'ints': [1, 2]}, {'ints': []}, {'floats': [0.5, 1.0]}, {'floats': []}, {'floats': [1.0]},
         {'strings': ['a', 'b']}, {'strings': []}, {'tensor': ['f32', [2], {'v': [1.0, 2.0]}]}, {'tensor': ['i64', [], {'v': [3]}], 'typed': True},
         {'graph': {'nodes': [{'op': 'Relu', 'name': '', 'in': ['q'], 'out': ['r'], 'attrs': {}}], 'inputs': [['q', 'f32', [1]]],
                    'outputs': [['r', 'f32', [1]]], 'inits': []}}]
    names = ['alpha', 'axes', 'name', 'domain', 'input', 'output', 'doc_string', 'op_type', 'attr', 'proto', 'nextnodes', 'profile', 'inputs',
             'outputs', 'overload', 'shape_calc', 'value_infer', 'constant', 'kernel_shape', 'x.y', 'mode', 'to', 'self', 'macs']
    attrs = {}
    for _ in range(b.i(0, 4)):
        attrs[b.pick(names)] = b.pick(V)
    ins = [x]
    if b.flip(3):
        ins += [None, b.weight('f32', [2])]
    outs = [(x.dt, x.sh)] + ([None, (x.dt, x.sh)] if b.flip(4) else [])
    b.node(b.pick(['MyOp', 'Relu', 'Gelu', 'Conv']), ins, outs, attrs)
    b.nodes[-1]['domain'] = b.pick(['my.domain', 'com.microsoft'])
    b.domains = sorted(set(getattr(b, 'domains', [])) | {b.nodes[-1]['domain']})
    return True


def k_pass(b):
    """graph outputs that no node produces: an input or a weight returned as it is; unused weights"""
    v = b.i(0, 2)
    b.passes = getattr(b, 'passes', [])
    if v == 0:
        n, dt, dims = b.inputs[b.i(0, len(b.inputs) - 1)]
        if [n, dt, dims] not in b.passes:
            b.passes.append([n, dt, dims])
    else:
        n = b.fresh()
        b.inits.append([n, 'f32', [2], {'v': [1.0, 2.0]}, False])
        if v == 1:
            b.passes.append([n, 'f32', [2]])
    return True


def scal(b, x):
    """a computed scalar (exact when x is)"""
    return b.node(b.pick(['ReduceMax', 'ReduceMin']), [x], [('f32', [[]] * b.K, None, x.bits)], {'keepdims': 0})


def computed(b, shape, x):
    """a tensor of a fixed shape which depends on x"""
    m = b.node('Tanh', [b.node('ReduceMax', [x], [('f32', [[]] * b.K, None, x.bits)], {'keepdims': 0})], [('f32', [[]] * b.K)])
    return b.node(b.pick(['Mul', 'Add']), [b.weight('f32', shape, -1, 1), m], [('f32', [list(shape)] * b.K)])


def k_side(b):
    """operators whose other inputs are computed as well, and operators the other blocks leave out"""
    v = b.i(0, 17)
    exact = lambda t: t.dt == 'f32' and t.rank() >= 1 and nonzero_dims(t) and t.bits is not None
    some = lambda t: t.dt == 'f32' and t.rank() >= 1 and nonzero_dims(t)
    x = b.choose(exact if v in (0, 1, 2, 3, 8, 12) else (lambda t: image(t)) if v in (4, 13, 14) else some, dyn=True)
    if x is None or x.size() > 1000:
        return
    r = x.rank()
    ax = b.i(0, r - 1)
    rep = lambda l: [list(l)] * b.K
    if v == 0:      # OneHot of computed indices
        i = b.node('ArgMax', [x], [('i64', [s[:ax] + s[ax + 1:] for s in x.sh], None, 4)], {'axis': ax, 'keepdims': 0})
        d = b.pick([3, 5])
        if b.flip():
            i = b.node('Mod', [i, b.scalar_int(d)], [('i64', i.sh, None, 3)])
        vals = b.init('f32', [2], {'v': [0.0, 1.0]}, bits=3) if b.flip() else b.node('Concat', [b.init('f32', [1], {'v': [0.0]}), b.node(
            'Reshape', [scal(b, x), b.ints([1])], [('f32', rep([1]), None, x.bits)])], [('f32', rep([2]), None, x.bits)], {'axis': 0})
        b.node('OneHot', [i, b.scalar_int(d), vals], [('f32', [s + [d] for s in i.sh], None, mx(3, vals.bits))], {'axis': -1} if b.flip() else {})
    elif v == 1:    # gather the k largest again
        k = b.i(1, min(min(s[ax] for s in x.sh), 3))
        sh = [s[:ax] + [k] + s[ax + 1:] for s in x.sh]
        t = b.node('TopK', [x, b.ints([k])], [('f32', sh, None, x.bits), ('i64', sh, None, 4)], {'axis': ax})
        b.node('GatherElements', [x, t[1]], [('f32', sh, None, x.bits)], {'axis': ax})
    elif v == 2:    # Gather by computed indices
        i = b.node('ArgMax', [x], [('i64', [s[:ax] + [1] + s[ax + 1:] for s in x.sh], None, 4)], {'axis': ax})
        if max(int(np.prod(s)) for s in i.sh) * x.size() > 2000 or r > 3:
            return True
        b.node('Gather', [x, i], [('f32', [s[:ax] + i.sh[k] + s[ax + 1:] for k, s in enumerate(x.sh)], None, x.bits)], {'axis': ax})
    elif v == 3:    # computed bounds of Clip
        m = scal(b, x)
        y = b.choose(exact)
        b.node('Clip', [y, None, m] if b.flip() else [y, b.node('Neg', [b.node('Abs', [m], [('f32', m.sh, None, m.bits)])], [('f32', m.sh, None, m.bits)]), b.scalar('f32', 9.0)],
               [('f32', y.sh, None, mx(y.bits, m.bits))])
    elif v == 4:    # Conv with a computed weight or bias
        c, m = x.fixed(1), b.i(1, 4)
        q = r - 2
        bias = b.i(0, 2)
        w = b.weight('f32', [m, c] + [1] * q, -1, 1) if bias == 2 else computed(b, [m, c] + [1] * q, x)
        b.node('Conv', [x, w] + ([b.weight('f32', [m]), computed(b, [m], x)][bias - 1:bias] if bias else []), [('f32', [[s[0], m] + s[2:] for s in x.sh])])
    elif v == 5:    # Gemm with a computed C
        if r != 2 or x.fixed(1) is None:
            return
        n, kk = b.i(1, 5), x.fixed(1)
        c = computed(b, b.pick([[n], [1, n], [1]]), x)
        w = b.weight('f32', [kk, n], -1, 1) if b.flip() else computed(b, [kk, n], x)
        b.node('Gemm', [x, w, c], [('f32', [[s[0], n] for s in x.sh])])
    elif v == 6:    # Pad with a computed value
        p = [b.i(0, 1) for _ in range(2 * r)]
        b.node('Pad', [x, b.ints(p), scal(b, x)], [('f32', [[s[i] + p[i] + p[r + i] for i in range(r)] for s in x.sh], None, x.bits)])
    elif v == 7:    # PRelu
        n = x.fixed(r - 1)
        sl = [n] if n is not None and b.flip() else [1]
        b.node('PRelu', [x, b.weight('f32', sl) if b.flip() else computed(b, sl, x)], [('f32', x.sh)])
    elif v == 8:    # scatter updates computed from another path
        if x.fixed(ax) is None or not x.allfixed() or x.size() > 200:
            return
        y = b.node('Neg', [x], [('f32', x.sh, None, x.bits)])
        idx = b.init('i64', x.sh[0], {'seed': 0, 'lo': 0, 'hi': 0}) if x.fixed(ax) == 1 else None
        if idx is None:
            u = b.node('Slice', [y, b.ints([0]), b.ints([1]), b.ints([ax])], [('f32', [s[:ax] + [1] + s[ax + 1:] for s in x.sh], None, x.bits)])
            idx = b.init('i64', u.sh[0], {'seed': b.i(0, 99), 'lo': 0, 'hi': x.fixed(ax) - 1})
        else:
            u = y
        b.node('ScatterElements', [x, idx, u], [('f32', x.sh, None, x.bits)], {'axis': ax})
    elif v == 9:    # ScatterND of computed rows
        n = min(s[0] for s in x.sh)
        i = b.i(0, n - 1)
        u = b.node('Gather', [x, b.ints([b.i(0, n - 1)])], [('f32', [[1] + s[1:] for s in x.sh], None, x.bits)])
        b.node('ScatterND', [x, b.init('i64', [1, 1], {'v': [i]}), u], [('f32', x.sh, None, x.bits)])
    elif v == 10:
        b.node('CumSum', [x, b.scalar_int(ax)], [('f32', x.sh)], b.pick([{}, {'exclusive': 1}, {'reverse': 1}]))
    elif v == 11:   # batched product of two computed tensors
        if r < 2:
            return
        e = 'abcde'[:r]
        b.node('Einsum', [x, x], [('f32', [s[:-1] + [s[-2]] for s in x.sh])], {'equation': '%s,%s->%s' % (e, e[:-2] + 'z' + e[-1], e[:-1] + 'z')})
    elif v == 12:   # a mask computed from the data
        y = b.node('Greater', [x, scal(b, x) if b.flip() else b.scalar('f32', 0.5)], [('bool', x.sh, None, 1)])
        z = b.node('Abs', [x], [('f32', x.sh, None, x.bits)])
        b.node('Where', [y, z, scal(b, x)], [('f32', x.sh, None, x.bits)])
    elif v == 13:
        if x.rank() != 4 or not nonzero_dims(x):
            return
        if x.fixed(1) % 4 == 0 and b.flip():
            b.node('DepthToSpace', [x], [('f32', [[s[0], s[1] // 4, s[2] * 2, s[3] * 2] for s in x.sh], None, x.bits)], {'blocksize': 2, 'mode': b.pick(['DCR', 'CRD'])})
        else:
            b.node('LRN', [x], [('f32', x.sh)], {'size': 3})
    elif v == 14:   # BatchNormalization or InstanceNormalization with computed scale
        c = x.fixed(1)
        if b.flip():
            b.node('InstanceNormalization', [x, computed(b, [c], x), b.weight('f32', [c])], [('f32', x.sh)])
        else:
            b.node('BatchNormalization', [x, computed(b, [c], x), b.weight('f32', [c]), b.weight('f32', [c]), b.weight('f32', [c], 0.5, 2)], [('f32', x.sh)])
    elif v == 15:   # recurrent with a computed initial state
        if r != 3 or x.fixed(2) is None or x.size() > 400 or x.fixed(1) is None:
            return
        d, h, nb = x.fixed(2), b.i(1, 3), x.fixed(1)
        g = b.pick([3, 4])
        ins = [x, b.weight('f32', [1, g * h, d], -1, 1), b.weight('f32', [1, g * h, h], -1, 1), b.weight('f32', [1, 2 * g * h], -1, 1) if b.flip() else None, None,
               computed(b, [1, nb, h], x)]
        b.node({3: 'GRU', 4: 'LSTM'}[g], ins, [('f32', [[s[0], 1, s[1], h] for s in x.sh]), ('f32', [[1, s[1], h] for s in x.sh])], {'hidden_size': h})
    elif v == 16:
        if r < 2:
            return
        b.node('Trilu', [x, b.scalar_int(b.pick([0, 1, -1]))] if b.flip() else [x], [('f32', x.sh, None, x.bits)], {'upper': b.i(0, 1)})
    else:
        b.node(b.pick(['LogSoftmax', 'Softmax']), [x], [('f32', x.sh)], {'axis': b.pick([ax, ax - r])})
    return True


GROUPS = {
    'side': [k_side, k_side],
    'if': [k_if],
    'custom': [k_custom],
    'pass': [k_pass],
    'ew': [k_unary, k_unary, k_binary, k_binary, k_variadic, k_residual],
    'logic': [k_where, k_cast],
    'nn': [k_conv, k_conv, k_bn, k_pool, k_convt, k_resize],
    'mm': [k_matmul, k_matmul, k_layernorm],
    'move': [k_transpose, k_concat, k_split, k_slice, k_unsqueeze, k_reshape, k_gather, k_pad, k_tile],
    'red': [k_reduce, k_argmax, k_embed],
    'multi': [k_topk, k_dropout, k_lstm],
    'shape': [k_shape_reshape, k_shape_fill, k_shape_fill],
    'const': [k_const],
    'quant': [k_dequant],
    'noise': [k_noise],
}
ALLBLOCKS = [g for g in GROUPS if g not in ('if', 'custom', 'pass', 'noise')]

TEMPLATES = [('f32', ['N', 3, 'H', 'W']), ('f32', [1, 3, 'H', 'W']), ('f32', ['N', 4, 8, 8]), ('f32', ['N', 'S', 6]),
             ('f32', [2, 'S', 4]), ('f32', ['N', 8]), ('f32', ['N', 2, 'S']), ('f32', [2, 3, 6, 5]), ('f32', [6]),
             ('i64', ['N', 'S']), ('f32', ['S']), ('f32', ['N', 3, 'H', 'H'])]


def graph(draw, cfg=None):
    from hypothesis import strategies as st
    cfg = dict(dict(blocks=ALLBLOCKS, n=(1, 7), K=2, templates=TEMPLATES, names=True, vinfo=True, ninputs=(1, 2)), **(cfg or {}))
    K = cfg['K']
    b = B(draw, st, K, cfg)
    assign = [dict() for _ in range(K)]
    var = cfg.get('vars', ['N', 'S', 'H', 'W'])
    ranges = {'N': (1, 4), 'S': (4, 12), 'H': (4, 12), 'W': (4, 12)}
    for v in var:
        for k in range(K):
            assign[k][v] = b.i(*ranges[v])
    if K > 1 and b.i(0, 3) == 2:  # other dimensions, the same number of elements
        for u, v in (('N', 'S'), ('H', 'W')):
            if u in var and v in var:
                p = b.pick([8, 12, 16, 24, 36] if u == 'N' else [24, 36, 40, 48, 60, 72])
                pairs = [(x, p // x) for x in range(ranges[u][0], ranges[u][1] + 1) if p % x == 0 and ranges[v][0] <= p // x <= ranges[v][1]]
                for k in range(K):
                    assign[k][u], assign[k][v] = b.pick(pairs)
    dense = cfg.get('symbolic', True)
    spec = dict(nodes=b.nodes, inputs=b.inputs, inits=b.inits)
    for _ in range(b.i(*cfg['ninputs'])):
        dt, dims = b.pick(cfg['templates'])
        n = b.pick(['x', 'in.', 'input_']) + str(len(b.inputs))
        dims = [d if not isinstance(d, str) or dense else assign[0][d] for d in dims]
        b.inputs.append([n, dt, list(dims)])
        b.seeds[n] = {'seed': b.i(0, 9999), 'lo': -3 if dt == 'f32' else 0, 'hi': 3 if dt == 'f32' else 6, 'q': 4}
        b.add(T(n, dt, [[d if not isinstance(d, str) else assign[k][d] for d in dims] for k in range(K)], False, None, 5 if dt == 'f32' else 3))
    fns = [f for g in cfg['blocks'] for f in GROUPS[g]]
    for _ in range(b.i(*cfg['n'])):
        f = b.pick(fns)
        mark = (len(b.nodes), len(b.ts), len(b.inits))
        if f(b):
            b.blocks.append(f.__name__[2:])
    finish(b, spec, cfg)
    spec['opset'] = b.opset
    # other forms of the same model: calls of local functions, weights listed among the inputs
    form = {5: 'fn', 6: 'old', 7: 'over'}.get(b.i(0, 7))
    if form not in cfg.get('forms', ['old', 'over']):
        pass
    elif form == 'fn':
        spec['fns'] = [b.i(0, 30) for _ in range(b.i(1, 3))]
    elif b.inits and not any(n['op'] == 'If' for n in b.nodes):
        spec['ir'], spec['winputs'] = 3 if form == 'old' else 8, b.i(1, 99)
    used = sorted({d for i in spec['inputs'] for d in i[2] if isinstance(d, str)})
    return dict(spec=spec, assign=[{v: a[v] for v in used} for a in assign], seeds={i[0]: b.seeds[i[0]] for i in spec['inputs']},
                meta=dict(blocks=b.blocks, const=[t.name for t in b.ts if t.const]))


def finish(b, spec, cfg):
    produced = {}
    for n in b.nodes:
        for o in n['out']:
            if o:
                produced[o] = n
    if not [t for t in b.ts if t.name in produced and not t.const]:
        x = b.ts[0]
        b.node('Identity', [x], [(x.dt, x.sh, None, x.bits)])
        produced = {o: n for n in b.nodes for o in n['out'] if o}
    consumed = {i for n in b.nodes for i in n['in']}
    for n in b.nodes:
        if n['op'] == 'If':
            consumed |= {i for br in n['attrs'].values() for m in br['graph']['nodes'] for i in m['in']}
    consumed |= {p[0] for p in getattr(b, 'passes', [])}
    byname = {t.name: t for t in b.ts}
    cands = [t for t in b.ts if t.name in produced and (not t.const or cfg.get('const_out'))]
    ends = [t for t in cands if t.name not in consumed]
    outs = []
    for t in ends:
        if not outs or not cfg.get('dangling', True) or not b.flip(6):
            outs.append(t)
    inner = [t for t in cands if t.name in consumed]
    if inner and cfg.get('inner_outputs', True) and (b.flip(4) or not outs):
        outs.append(inner[b.i(0, len(inner) - 1)])
    if cfg.get('shuffle_outputs', True) and len(outs) > 1 and b.flip(3):
        outs = outs[::-1]
    spec['outputs'] = [[t.name, t.dt, [t.fixed(i) if t.fixed(i) is not None else None for i in range(t.rank())]] for t in outs]
    # dimensions of outputs may be unknown, named, or fixed
    names = sorted({d for i in b.inputs for d in i[2] if isinstance(d, str)}) + ['D0', 'out dim', 'Ü']
    for o in spec['outputs']:
        if b.i(0, 3) == 2:
            how = b.i(0, 2)
            o[2] = [d if how == 0 and d is not None else b.pick([None, d] + names) if how == 1 else b.pick(names) for d in o[2]]
    b.outs = outs
    spec['outputs'] += getattr(b, 'passes', [])
    if getattr(b, 'domains', None):
        spec['domains'] = [[d, 1] for d in b.domains]
    # node names
    style = b.pick(['named', 'unnamed', 'mixed', 'collide']) if cfg.get('names') else 'named'
    for i, n in enumerate(b.nodes):
        if style == 'named' or (style in ('mixed', 'collide') and b.flip()):
            n['name'] = n['op'] + '/' + str(i) if i % 2 else 'node.%d' % i
    if style == 'collide' and len(b.nodes) > 1:
        j = b.i(0, len(b.nodes) - 1)
        k = b.i(0, len(b.nodes) - 1)
        nm = '%s_%d' % (b.nodes[k]['op'], k)
        if j != k:
            b.nodes[j]['name'] = nm
            b.nodes[k]['name'] = ''
    spec['namestyle'] = style
    # dangling graph inputs are dropped (they are not part of what the model computes) unless wanted
    if not cfg.get('unused_inputs'):
        consumed |= {i for n in b.nodes for i in n['in']}
        b.inputs[:] = [i for i in b.inputs if i[0] in consumed]
    # value_info: none, right, or stale
    v = b.i(0, 3) if cfg.get('vinfo') else 0
    outn = {t.name for t in outs}
    vi = []
    if v:
        for t in b.ts:
            if t.name in produced and t.name not in outn and b.flip():
                sh = [t.fixed(i) for i in range(t.rank())]
                if v == 3 and b.flip():
                    sh = [d + 1 if d is not None and b.flip() else d for d in sh]     # stale annotation
                    if b.flip(3):
                        sh = sh + [2]
                vi.append([t.name, t.dt, sh])
    spec['vinfo'] = vi


def symdims(dims, a):
    return [a[d] if isinstance(d, str) else d for d in dims]


def feeds_of(case, k=0, more=0):
    a = case['assign'][k]
    return {n: arr(dt, symdims(d, a), dict(case['seeds'][n], seed=case['seeds'][n]['seed'] + more)) for n, dt, d in case['spec']['inputs']}


def shapes_in(case, k=0):
    return {n: np.zeros(symdims(d, case['assign'][k]), npdt(dt)) for n, dt, d in case['spec']['inputs']}


def model_of(case):
    return build({k: v for k, v in case['spec'].items()})


def ref_tensors(case, k=0, model=None, feeds=None):
    """every tensor of the original model in reference execution"""
    try:
        return all_tensors(model if model is not None else model_of(case), feeds_of(case, k) if feeds is None else feeds)
    except Exception as e:
        raise Skip('the reference evaluator cannot run the generated model')


def ref_outputs(model, feeds, what):
    """outputs of a model written by the code under test: failing to run is a violation"""
    try:
        return run_ref(model, feeds)
    except Exception as e:
        raise Violation('%s does not run: %s: %s' % (what, type(e).__name__, str(e)[:300]))


def ref_ok(model, feeds):
    try:
        return run_ref(model, feeds)
    except Exception:
        raise Skip('the reference evaluator cannot run the generated model')
