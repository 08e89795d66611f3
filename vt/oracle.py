"""Expected results of single-operator cases.

expected(c) -> list of Out(value or None, dtype, shape).  ONNX's ReferenceEvaluator is the main oracle;
operators (or variants) which it does not implement, or implements wrongly, have an independent
implementation (or shape formula) here, written from the operator specification.
"""
import itertools, math
from fractions import Fraction
import numpy as np
from .om import *
from . import ops


class Out:
    __slots__ = ('v', 'dtype', 'shape')

    def __init__(self, v=None, dtype=None, shape=None):
        if v is not None:
            v = np.asarray(v)
            dtype, shape = NP2DT[v.dtype], list(v.shape)
        self.v, self.dtype, self.shape = v, dtype, [int(d) for d in shape]


def _attr(c, k, d=None):
    v = c['attrs'].get(k, d)
    if isinstance(v, dict):
        v = v.get('ints', v.get('floats', v))
    return v


def same_pads(i, k, d, s, upper):
    ke = d * (k - 1) + 1
    o = -(-i // s)
    t = max((o - 1) * s + ke - i, 0)
    return (t // 2, t - t // 2) if upper else (t - t // 2, t // 2)


def window_geometry(spatial, k, attrs):
    """-> per axis (out, pad begin, pad end, stride, dilation)."""
    nd = len(spatial)
    s = attrs.get('strides') or [1] * nd
    d = attrs.get('dilations') or [1] * nd
    p = attrs.get('pads') or [0] * (2 * nd)
    auto = attrs.get('auto_pad', 'NOTSET')
    ceil = attrs.get('ceil_mode', 0)
    out = []
    for i in range(nd):
        ke = d[i] * (k[i] - 1) + 1
        if auto in ('SAME_UPPER', 'SAME_LOWER'):
            pb, pe = same_pads(spatial[i], k[i], d[i], s[i], auto == 'SAME_UPPER')
            o = -(-spatial[i] // s[i])
        else:
            pb, pe = (0, 0) if auto == 'VALID' else (p[i], p[i + nd])
            n = spatial[i] + pb + pe - ke
            o = (-(-n // s[i]) if ceil else n // s[i]) + 1
            if ceil and (o - 1) * s[i] >= spatial[i] + pb:
                o -= 1
        out.append((o, pb, pe, s[i], d[i]))
    return out


def conv_direct(x, w, b, attrs):
    nd = x.ndim - 2
    k = list(w.shape[2:])
    g = attrs.get('group', 1)
    geo = window_geometry(list(x.shape[2:]), k, attrs)
    xp = np.pad(x, [(0, 0), (0, 0)] + [(pb, pe) for _, pb, pe, _, _ in geo])
    m = w.shape[0]
    y = np.zeros([x.shape[0], m] + [t[0] for t in geo], dtype=np.float64)
    cpg, mpg = x.shape[1] // g, m // g
    for tap in itertools.product(*[range(v) for v in k]):
        sl = tuple(slice(tap[i] * geo[i][4], tap[i] * geo[i][4] + (geo[i][0] - 1) * geo[i][3] + 1, geo[i][3]) for i in range(nd))
        xs = xp[(slice(None), slice(None)) + sl].astype(np.float64)
        for q in range(g):
            wt = w[(slice(q * mpg, (q + 1) * mpg), slice(None)) + tap].astype(np.float64)
            y[:, q * mpg:(q + 1) * mpg] += np.moveaxis(np.tensordot(wt, xs[:, q * cpg:(q + 1) * cpg], axes=([1], [1])), 0, 1)
    if b is not None:
        y += b.reshape([1, -1] + [1] * nd)
    return y.astype(x.dtype)


def maxpool_direct(x, k, attrs):
    nd = x.ndim - 2
    geo = window_geometry(list(x.shape[2:]), k, attrs)
    need = [(geo[i][0] - 1) * geo[i][3] + geo[i][4] * (k[i] - 1) + 1 for i in range(nd)]
    pw = [(0, 0), (0, 0)] + [(geo[i][1], max(0, need[i] - x.shape[2 + i] - geo[i][1])) for i in range(nd)]
    xp = np.pad(x.astype(np.float64), pw, constant_values=-np.inf)
    y = np.full([x.shape[0], x.shape[1]] + [t[0] for t in geo], -np.inf)
    for tap in itertools.product(*[range(v) for v in k]):
        sl = tuple(slice(tap[i] * geo[i][4], tap[i] * geo[i][4] + (geo[i][0] - 1) * geo[i][3] + 1, geo[i][3]) for i in range(nd))
        y = np.maximum(y, xp[(slice(None), slice(None)) + sl])
    return y.astype(x.dtype)


def _ins(c):
    return [None if x is None else arr(*x) for x in c['ins']]


def o_conv(c):
    x = _ins(c)
    return [Out(conv_direct(x[0], x[1], x[2] if len(x) > 2 else None, c['attrs']))]


def o_convinteger(c):
    x = _ins(c)
    xz = x[2].astype(np.int64) if len(x) > 2 else 0
    wz = x[3].astype(np.int64) if len(x) > 3 else 0
    y = conv_direct(x[0].astype(np.int64) - xz, x[1].astype(np.int64) - wz, None, c['attrs'])
    return [Out(y.astype(np.int32))]


def o_qlinearconv(c):
    x = _ins(c)
    y = conv_direct(x[0].astype(np.int64) - int(x[2]), x[3].astype(np.int64) - int(x[5]), x[8].astype(np.int64) if len(x) > 8 else None, c['attrs'])
    return [Out(None, c['ins'][7][0], y.shape)]


def o_maxpool(c):
    x = _ins(c)[0]
    y = maxpool_direct(x, _attr(c, 'kernel_shape'), c['attrs'])
    r = [Out(y)]
    if c['n'] > 1:
        r.append(Out(None, 'i64', y.shape))
    return r


def o_avgpool(c):
    s = c['ins'][0][1]
    geo = window_geometry(s[2:], _attr(c, 'kernel_shape'), c['attrs'])
    return [Out(None, c['ins'][0][0], s[:2] + [g[0] for g in geo])]


def o_convtranspose(c):
    a = c['attrs']
    xs, ws = c['ins'][0][1], c['ins'][1][1]
    nd = len(xs) - 2
    st, d, op = a.get('strides', [1] * nd), a.get('dilations', [1] * nd), a.get('output_padding', [0] * nd)
    p = a.get('pads', [0] * 2 * nd)
    o = []
    for i in range(nd):
        if 'output_shape' in a:
            o.append(a['output_shape'][i])
        elif a.get('auto_pad', 'NOTSET') in ('SAME_UPPER', 'SAME_LOWER'):
            o.append(xs[2 + i] * st[i])
        else:
            pp = 0 if a.get('auto_pad', 'NOTSET') == 'VALID' else p[i] + p[i + nd]
            o.append(st[i] * (xs[2 + i] - 1) + op[i] + d[i] * (ws[2 + i] - 1) + 1 - pp)
    return [Out(None, c['ins'][0][0], [xs[0], ws[1] * a.get('group', 1)] + o)]


def o_gatherelements(c):
    x, i = _ins(c)
    ax = _attr(c, 'axis', 0) % x.ndim
    ix = list(np.indices(i.shape))
    ix[ax] = np.where(i < 0, i.astype(np.int64) + x.shape[ax], i)
    return [Out(x[tuple(ix)])]


def o_flatten(c):
    x = _ins(c)[0]
    ax = _attr(c, 'axis', 1)
    if ax < 0:
        ax += x.ndim
    a = math.prod(x.shape[:ax])
    return [Out(x.reshape(a, math.prod(x.shape[ax:])))]


def o_squeeze(c):
    x = _ins(c)
    ax = _attr(c, 'axes')
    if len(x) > 1:
        ax = [int(v) for v in x[1]]
    if ax is None:
        sh = [d for d in x[0].shape if d != 1]
    else:
        ax = {a % x[0].ndim for a in ax}
        sh = [d for i, d in enumerate(x[0].shape) if i not in ax]
    return [Out(x[0].reshape(sh))]


def o_unsqueeze(c):
    x = _ins(c)
    ax = _attr(c, 'axes')
    if len(x) > 1:
        ax = [int(v) for v in x[1]]
    r = x[0].ndim + len(ax)
    ax = {a % r for a in ax}
    it = iter(x[0].shape)
    return [Out(x[0].reshape([1 if i in ax else next(it) for i in range(r)]))]


def o_shape(c):
    s = c['ins'][0][1]
    r = len(s)

    def cl(v):
        return min(max(v + r if v < 0 else v, 0), r)
    a, b = cl(_attr(c, 'start', 0)), cl(_attr(c, 'end', r))
    return [Out(np.array(s[a:b] if a < b else [], np.int64))]


def o_lrn(c):
    return [Out(None, c['ins'][0][0], c['ins'][0][1])]


def o_resize(c):
    s = list(c['ins'][0][1])
    ins = c['ins'] + [None] * (4 - len(c['ins']))
    if c['opset'] < 9:
        sc, sz = ['f32', [len(s)], {'v': _attr(c, 'scales')}], None
    elif c['opset'] < 11:
        sc, sz = ins[1], None
    else:
        sc, sz = ins[2], ins[3]
    axes = _attr(c, 'axes') or list(range(len(s)))
    axes = [a % len(s) for a in axes]
    sc = None if sc is None else [float(v) for v in sc[2]['v']]
    sz = None if sz is None else sz[2]['v']
    pol = _attr(c, 'keep_aspect_ratio_policy', 'stretch')
    if sz and pol != 'stretch':
        k = [Fraction(int(n), s[a]) for n, a in zip(sz, axes)]
        k = min(k) if pol == 'not_larger' else max(k)
        sz = [math.floor(s[a] * k + Fraction(1, 2)) for a in axes]
    for j, a in enumerate(axes):
        s[a] = int(sz[j]) if sz else int(math.floor(s[a] * sc[j]))
    return [Out(None, c['ins'][0][0], s)]


def o_quant(c):
    x = _ins(c)
    ax = _attr(c, 'axis', 1)

    def b(v):
        if v is None or v.ndim == 0:
            return v
        return v.reshape([-1 if i == ax % x[0].ndim else 1 for i in range(x[0].ndim)])
    zp = b(x[2]) if len(x) > 2 else np.zeros((), np.uint8)
    lo, hi = np.iinfo(zp.dtype).min, np.iinfo(zp.dtype).max
    y = np.clip(np.rint(x[0] / b(x[1])) + zp.astype(np.int64), lo, hi).astype(zp.dtype)
    return [Out(y)]


def o_dequant(c):
    x = _ins(c)
    ax = _attr(c, 'axis', 1)

    def b(v):
        if v.ndim == 0:
            return v
        return v.reshape([-1 if i == ax % x[0].ndim else 1 for i in range(x[0].ndim)])
    zp = b(x[2]).astype(np.int64) if len(x) > 2 else 0
    return [Out(((x[0].astype(np.int64) - zp) * b(x[1])).astype(np.float32))]


def o_onehot(c):
    ind, dep, vals = _ins(c)
    d = int(np.asarray(dep).reshape(-1)[0])
    ax = _attr(c, 'axis', -1) % (ind.ndim + 1)
    i = ind.astype(np.int64)
    i = np.where(i < 0, i + d, i)
    hot = np.moveaxis(i[..., None] == np.arange(d), -1, ax)
    return [Out(np.where(hot, vals[1], vals[0]).astype(vals.dtype))]


def o_div(c):
    a, b = _ins(c)
    if a.dtype.kind == 'f':
        return [Out((a / b).astype(a.dtype))]
    q = np.abs(a.astype(np.int64)) // np.abs(b.astype(np.int64)) * np.sign(a.astype(np.int64)) * np.sign(b.astype(np.int64))
    return [Out(q.astype(a.dtype))]


def o_mod(c):
    a, b = _ins(c)
    return [Out((np.fmod(a, b) if _attr(c, 'fmod', 0) else np.mod(a, b)).astype(a.dtype))]


def o_constant(c):
    a = c['attrs']
    if 'value' in a:
        return [Out(arr(*a['value']['tensor']))]
    k = list(a)[0]
    t = np.float32 if 'float' in k else np.int64
    return [Out(np.array(_attr(c, k), t))]


def o_batchnorm(c):
    x, sc, b, m, v = [t.astype(np.float64) for t in _ins(c)]
    sh = [1, -1] + [1] * (x.ndim - 2)
    more = []
    if c['n'] == 5:    # training form before opset 14: only types and shapes
        r = [Out(t.astype(_ins(c)[0 if t is x else 3].dtype)) for t in [x, m, v, m, v]]
        for o in r:
            o.v = None
        return r
    if _attr(c, 'training_mode', 0):
        ax, k = tuple(i for i in range(x.ndim) if i != 1), _attr(c, 'momentum', 0.9)
        bm, bv = x.mean(axis=ax), x.var(axis=ax)
        more = [m * k + bm * (1 - k), v * k + bv * (1 - k)]
        m, v = bm, bv
    y = (x - m.reshape(sh)) / np.sqrt(v.reshape(sh) + _attr(c, 'epsilon', 1e-5)) * sc.reshape(sh) + b.reshape(sh)
    return [Out(t.astype(_ins(c)[0 if i == 0 else 3].dtype)) for i, t in enumerate([y] + more)]


def o_pad(c):
    ins = _ins(c) + [None] * (4 - len(c['ins']))
    x = ins[0]
    r = x.ndim
    pads = _attr(c, 'pads')
    cv = _attr(c, 'value', 0.0)
    if pads is None:
        pads = [int(v) for v in ins[1]]
        cv = 0 if ins[2] is None else np.asarray(ins[2]).item()
    axes = range(r) if ins[3] is None else [int(a) % r for a in ins[3]]
    be = {a: (pads[i], pads[i + len(axes)]) for i, a in enumerate(axes)}
    mode = _attr(c, 'mode', 'constant')
    shape = [n + sum(be.get(a, (0, 0))) for a, n in enumerate(x.shape)]
    y = np.empty(shape, x.dtype)
    for o in np.ndindex(*shape):
        src = []
        for a, n in enumerate(x.shape):
            i = o[a] - be.get(a, (0, 0))[0]
            if not 0 <= i < n:
                if mode == 'constant':
                    break
                if mode == 'edge':
                    i = min(max(i, 0), n - 1)
                elif mode == 'wrap':
                    i %= n
                else:
                    i %= max(2 * n - 2, 1)
                    i = i if i < n else 2 * n - 2 - i
            src.append(i)
        y[o] = x[tuple(src)] if len(src) == r else cv
    return [Out(y)]


OVERRIDE = {'BatchNormalization': o_batchnorm, 'Pad': o_pad, 'Conv': o_conv, 'ConvInteger': o_convinteger, 'QLinearConv': o_qlinearconv, 'MaxPool': o_maxpool, 'AveragePool': o_avgpool,
            'ConvTranspose': o_convtranspose, 'GatherElements': o_gatherelements, 'Flatten': o_flatten, 'Squeeze': o_squeeze,
            'Unsqueeze': o_unsqueeze, 'Shape': o_shape, 'LRN': o_lrn, 'Resize': o_resize, 'Upsample': o_resize,
            'QuantizeLinear': o_quant, 'DequantizeLinear': o_dequant, 'OneHot': o_onehot, 'Div': o_div, 'Mod': o_mod, 'Constant': o_constant}
# random outputs: only type and shape are specified
RANDOM = ('RandomUniformLike', 'RandomNormalLike')


def reference(c):
    m, feeds, outs = ops.build_case(c)
    return [Out(v) for v in run_ref(m, feeds)]


def expected(c):
    f = OVERRIDE.get(c['op'])
    if f:
        return f(c)
    r = reference(c)
    if c['op'] == 'LayerNormalization':
        for o in r[1:]:   # the statistics have the stash type
            o.v = o.v.astype(np.float32)
            o.dtype = 'f32'
    if c['op'] in RANDOM or ops.training(c):
        for x in r:
            x.v = None
    return r
