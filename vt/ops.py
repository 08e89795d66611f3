"""Generators of single-operator cases over the operator set of onnx_tool.

A case is JSON: {op, attrs, opset, ins: [null | [dtype, shape, data]], n: outputs, const: [indices of shape-like inputs]}
Every generator makes cases that are valid for the ONNX operator at that opset.
"""
import math
import numpy as np
from hypothesis import strategies as st
from .om import *

INTS = ['i64', 'i32', 'i16', 'i8', 'u8', 'u16', 'u32', 'u64']
SEED = st.integers(0, 10 ** 6)


def dims(draw, lo=0, hi=4, mx=5, zero=False):
    r = draw(st.integers(lo, hi))
    s = [draw(st.integers(1, mx)) for _ in range(r)]
    if zero and r and draw(st.integers(0, 11)) == 0:
        s[draw(st.integers(0, r - 1))] = 0
    return s


def data(draw, lo=-4, hi=4, q=8):
    return {'seed': draw(SEED), 'lo': lo, 'hi': hi, 'q': q}


def posdata(draw):
    return {'seed': draw(SEED), 'lo': 0.25, 'hi': 5, 'q': 4}


def case(op, ins, attrs=None, n=1, opset=17, const=()):
    return dict(op=op, attrs=attrs or {}, opset=opset, ins=ins, n=n, const=list(const))


def const1(v, dt='i64', shape=None):
    v = list(v) if isinstance(v, (list, tuple)) else v
    if isinstance(v, list):
        return [dt, [len(v)] if shape is None else shape, {'v': v}]
    return [dt, [], {'v': [v]}]


def broadcast_group(draw, k, rank=4, zero=True):
    """k shapes that broadcast together."""
    full = dims(draw, 0, rank, zero=zero)
    out = []
    for i in range(k):
        cut = draw(st.integers(0, len(full))) if draw(st.booleans()) else 0
        s = list(full[cut:])
        for j in range(len(s)):
            if draw(st.integers(0, 3)) == 0:
                s[j] = 1
        out.append(s)
    return out


def maybe(draw, d, key, strat):
    if draw(st.booleans()):
        d[key] = draw(strat)


def optset(draw, *choices):
    return draw(st.sampled_from(choices))


# ---------------------------------------------------------------- elementwise
def g_binary_arith(op):
    def g(draw):
        a, b = broadcast_group(draw, 2)
        dt = draw(st.sampled_from(['f32', 'f32', 'i64', 'i32', 'f64', 'f16']))
        d2 = data(draw)
        if op in ('Div', 'Mod'):
            d2 = {'seed': draw(SEED), 'lo': 1, 'hi': 5, 'q': 4} if draw(st.booleans()) else \
                {'seed': draw(SEED), 'lo': -5, 'hi': -1, 'q': 4}
        attrs = {}
        if op == 'Mod':
            if dt in FLOATS or draw(st.booleans()):
                attrs['fmod'] = 1
        return case(op, [[dt, a, data(draw, -9, 9)], [dt, b, d2]], attrs, opset=optset(draw, 13, 14, 17))
    return g


def g_pow(draw):
    a, b = broadcast_group(draw, 2)
    dt = draw(st.sampled_from(['f32', 'i64', 'i32', 'f64']))
    d2 = draw(st.sampled_from(['f32', 'i64', 'i32', 'f64']))
    base = {'seed': draw(SEED), 'lo': 0.5, 'hi': 3, 'q': 2} if dt in FLOATS else {'seed': draw(SEED), 'lo': -3, 'hi': 4}
    if dt not in FLOATS and d2 in FLOATS:
        e = {'seed': draw(SEED), 'lo': 0, 'hi': 3, 'q': 1}
    elif d2 in FLOATS:
        e = {'seed': draw(SEED), 'lo': -2, 'hi': 3, 'q': 2}
    else:
        e = {'seed': draw(SEED), 'lo': 0, 'hi': 3}
    return case('Pow', [[dt, a, base], [d2, b, e]], opset=optset(draw, 13, 15, 17))


def g_variadic(op):
    def g(draw):
        k = draw(st.integers(1, 4))
        ss = broadcast_group(draw, k)
        dt = draw(st.sampled_from(['f32', 'f32', 'f64'] if op == 'Sum' else ['f32', 'i64', 'i32', 'f64']))
        return case(op, [[dt, s, data(draw)] for s in ss], opset=13)
    return g


def g_unary(op, kind):
    def g(draw):
        s = dims(draw, 0, 4, zero=True)
        attrs = {}
        if kind == 'num':
            dt = draw(st.sampled_from(['f32', 'f32', 'f64', 'i64', 'i32', 'i8']))
        elif kind == 'bool':
            dt = 'bool'
        else:
            dt = draw(st.sampled_from(['f32', 'f32', 'f64', 'f16']))
        d = data(draw)
        if kind == 'pos':
            d = posdata(draw)
        if kind == 'nz':
            d = posdata(draw) if draw(st.booleans()) else {'seed': draw(SEED), 'lo': -5, 'hi': -0.25, 'q': 4}
        if kind == 'big' and dt in ('f32', 'f64'):
            d = data(draw, -120, 120, 2)
        if op in ('LeakyRelu', 'Elu', 'HardSigmoid') and draw(st.booleans()):
            attrs['alpha'] = draw(st.sampled_from([0.25, 0.5, 2.0, 0.01]))
        if op == 'HardSigmoid' and draw(st.booleans()):
            attrs['beta'] = draw(st.sampled_from([0.25, 0.125, 1.0]))
        if op == 'Gelu' and draw(st.booleans()):
            attrs['approximate'] = draw(st.sampled_from(['none', 'tanh']))
        return case(op, [[dt, s, d]], attrs, opset=20 if op == 'Gelu' else optset(draw, 14, 17))
    return g


def g_softmax(op):
    def g(draw):
        s = dims(draw, 1, 4)
        attrs = {}
        if draw(st.integers(0, 3)):
            attrs['axis'] = draw(st.integers(-len(s), len(s) - 1))
        big = draw(st.integers(0, 5)) == 0
        return case(op, [[draw(st.sampled_from(['f32', 'f32', 'f64'])), s, data(draw, -200, 200, 1) if big else data(draw)]],
                    attrs, opset=13)
    return g


def g_compare(op):
    def g(draw):
        a, b = broadcast_group(draw, 2)
        dt = draw(st.sampled_from(['f32', 'i64', 'i32', 'f64'] + (['bool'] if op == 'Equal' else [])))
        return case(op, [[dt, a, data(draw, -3, 3, 1)], [dt, b, data(draw, -3, 3, 1)]], opset=optset(draw, 13, 16))
    return g


def g_logic(op):
    def g(draw):
        a, b = broadcast_group(draw, 2)
        return case(op, [['bool', a, data(draw)], ['bool', b, data(draw)]], opset=13)
    return g


def g_where(draw):
    c, a, b = broadcast_group(draw, 3)
    dt = draw(st.sampled_from(['f32', 'i64', 'bool', 'f16', 'u8']))
    return case('Where', [['bool', c, data(draw)], [dt, a, data(draw)], [dt, b, data(draw)]], opset=16)


def g_clip(draw):
    s = dims(draw, 0, 4, zero=True)
    dt = draw(st.sampled_from(['f32', 'f32', 'f64', 'i64']))
    form = draw(st.integers(0, 4))
    lo, hi = -1 - draw(st.integers(0, 1)), 1 + draw(st.integers(0, 1))
    if form == 0:
        attrs = {}
        maybe(draw, attrs, 'min', st.just(float(lo)))
        maybe(draw, attrs, 'max', st.just(float(hi)))
        return case('Clip', [['f32', s, data(draw)]], attrs, opset=6)
    ins = [[dt, s, data(draw)]]
    if form == 2:
        ins += [const1(lo, dt)]
    elif form == 3:
        ins += [None, const1(hi, dt)]
    elif form == 4:
        ins += [const1(lo, dt), const1(hi, dt)]
    return case('Clip', ins, opset=optset(draw, 11, 13), const=range(1, len(ins)))


def g_prelu(draw):
    s = dims(draw, 1, 4)
    k = draw(st.integers(0, len(s)))
    b = [d if draw(st.booleans()) else 1 for d in s[k:]]
    return case('PRelu', [['f32', s, data(draw)], ['f32', b, data(draw)]], opset=16)


def g_cast(draw):
    s = dims(draw, 0, 4, zero=True)
    src = draw(st.sampled_from(['f32', 'f64', 'i64', 'i32', 'bool', 'u8', 'f16']))
    to = draw(st.sampled_from(['f32', 'f64', 'i64', 'i32', 'bool', 'i8', 'i16', 'u32', 'f16']))
    d = {'seed': draw(SEED), 'lo': 0, 'hi': 9, 'q': 4} if to.startswith('u') else data(draw)
    return case('Cast', [[src, s, d]], {'to': int(ptdt(to))}, opset=13)


# ---------------------------------------------------------------- movement
def g_transpose(draw):
    s = dims(draw, 0, 5, 4, zero=True)
    attrs = {}
    if len(s) and draw(st.integers(0, 3)):
        attrs['perm'] = draw(st.permutations(list(range(len(s)))))
    return case('Transpose', [[draw(st.sampled_from(['f32', 'i64', 'bool'])), s, data(draw)]], attrs, opset=13)


def g_concat(draw):
    s = dims(draw, 1, 4)
    ax = draw(st.integers(0, len(s) - 1))
    k = draw(st.integers(1, 4))
    ins = []
    dt = draw(st.sampled_from(['f32', 'i64', 'u8']))
    for _ in range(k):
        t = list(s)
        t[ax] = draw(st.integers(0 if draw(st.integers(0, 6)) == 0 else 1, 4))
        ins.append([dt, t, data(draw)])
    return case('Concat', ins, {'axis': ax - (len(s) if draw(st.booleans()) else 0)}, opset=13)


def g_gather(draw):
    s = dims(draw, 1, 4)
    ax = draw(st.integers(0, len(s) - 1))
    idx = dims(draw, 0, 2, 3, zero=True)
    attrs = {}
    if ax or draw(st.booleans()):
        attrs['axis'] = ax - (len(s) if draw(st.booleans()) else 0)
    else:
        ax = 0
    d = {'seed': draw(SEED), 'lo': -s[ax], 'hi': s[ax] - 1}
    return case('Gather', [[draw(st.sampled_from(['f32', 'i64'])), s, data(draw)], [draw(st.sampled_from(['i64', 'i32'])), idx, d]],
                attrs, opset=13)


def g_gatherelements(draw):
    s = dims(draw, 1, 3)
    ax = draw(st.integers(0, len(s) - 1))
    idx = [draw(st.integers(1, d)) for d in s]
    idx[ax] = draw(st.integers(1, 5))
    attrs = {}
    if ax or draw(st.booleans()):
        attrs['axis'] = ax - (len(s) if draw(st.booleans()) else 0)
    return case('GatherElements', [[draw(st.sampled_from(['f32', 'i64', 'f64'])), s, data(draw)],
                                   [draw(st.sampled_from(['i64', 'i32'])), idx, {'seed': draw(SEED), 'lo': -s[ax], 'hi': s[ax] - 1}]],
                attrs, opset=13)


def g_gathernd(draw):
    s = dims(draw, 1, 4, 3)
    b = draw(st.integers(0, len(s) - 1)) if draw(st.booleans()) else 0
    k = draw(st.integers(1, len(s) - b))
    mid = dims(draw, 0, 2, 3)
    ishape = s[:b] + mid + [k]
    n = int(np.prod(ishape))
    r = np.random.RandomState(draw(SEED))
    v = [int(r.randint(-s[b + (i % k)], s[b + (i % k)])) for i in range(n)]
    attrs = {'batch_dims': b} if b or draw(st.booleans()) else {}
    return case('GatherND', [[draw(st.sampled_from(['f32', 'i64'])), s, data(draw)], ['i64', ishape, {'v': v}]], attrs, opset=13)


def g_scatternd(draw):
    s = dims(draw, 1, 3, 4)
    k = draw(st.integers(1, len(s)))
    tot = int(np.prod(s[:k]))
    m = draw(st.integers(1, min(tot, 4)))
    r = np.random.RandomState(draw(SEED))
    attrs = {}
    if draw(st.booleans()):
        attrs['reduction'] = draw(st.sampled_from(['none', 'add', 'mul', 'max', 'min']))
    flat = r.permutation(tot)[:m]
    if attrs.get('reduction', 'none') != 'none':     # the same element may be updated several times
        flat = r.randint(0, tot, m)
        if draw(st.booleans()):
            flat[:] = flat[0]
    idx = np.stack(np.unravel_index(flat, s[:k]), -1)
    if draw(st.booleans()):
        idx = idx - np.array(s[:k]) * r.randint(0, 2, idx.shape)
    lead = [m] if m % 2 or draw(st.booleans()) else [2, m // 2]
    op = 16 if attrs.get('reduction') in (None, 'none', 'add', 'mul') else 18
    dt = draw(st.sampled_from(['f32', 'i64']))
    return case('ScatterND', [[dt, s, data(draw)], ['i64', lead + [k], {'v': [int(x) for x in idx.reshape(-1)]}],
                              [dt, lead + s[k:], data(draw)]], attrs, opset=op)


def g_scatterelements(draw):
    s = dims(draw, 1, 3)
    ax = draw(st.integers(0, len(s) - 1))
    idx = [draw(st.integers(1, d)) for d in s]
    attrs = {'axis': ax} if ax or draw(st.booleans()) else {}
    r = np.random.RandomState(draw(SEED))
    perm = r.permutation(s[ax])
    sh = idx
    a = np.zeros(sh, np.int64)
    for i in range(sh[ax]):
        a.take
    a = np.moveaxis(np.broadcast_to(perm[:sh[ax]], tuple(x for j, x in enumerate(sh) if j != ax) + (sh[ax],)), -1, ax)
    return case('ScatterElements', [['f32', s, data(draw)], ['i64', sh, {'v': [int(x) for x in a.reshape(-1)]}],
                                    ['f32', sh, data(draw)]], attrs, opset=optset(draw, 13, 16))


def g_tile(draw):
    s = dims(draw, 1, 4, 3)
    rep = [draw(st.integers(0 if draw(st.integers(0, 8)) == 0 else 1, 3)) for _ in s]
    return case('Tile', [[draw(st.sampled_from(['f32', 'i64'])), s, data(draw)], const1(rep)], opset=13, const=[1])


def g_expand(draw):
    s = dims(draw, 0, 4, 4)
    t = [d if draw(st.booleans()) else (1 if d != 1 else draw(st.integers(1, 4))) for d in s]
    if draw(st.booleans()):
        t = [draw(st.integers(1, 3)) for _ in range(draw(st.integers(0, 2)))] + t
    elif draw(st.booleans()):
        t = t[draw(st.integers(0, len(t))):]
    x = [1 if draw(st.integers(0, 3)) == 0 else d for d in s]
    t2 = list(t)
    for i in range(1, min(len(t2), len(x)) + 1):
        if x[-i] == 1 and t2[-i] not in (1,):
            pass
        elif x[-i] != 1 and t2[-i] not in (1, x[-i]):
            t2[-i] = 1
    if draw(st.integers(0, 9)) == 0 and len(t2):
        i = draw(st.integers(1, len(t2)))
        if i > len(x) or x[-i] == 1:
            t2[-i] = 0
    return case('Expand', [[draw(st.sampled_from(['f32', 'i64', 'bool'])), x, data(draw)], const1(t2)], opset=13, const=[1])


def g_reshape(draw):
    s = dims(draw, 0, 4, 4)
    n = int(np.prod(s)) if s else 1
    fs = []
    m = n
    while m > 1 and len(fs) < 4 and draw(st.integers(0, 4)):
        d = draw(st.sampled_from([k for k in range(1, m + 1) if m % k == 0]))
        fs.append(d)
        m //= d
    if m > 1:
        fs.append(m)
    if draw(st.integers(0, 2)) == 0:
        fs.insert(draw(st.integers(0, len(fs))), 1)
    fs = list(fs)
    attrs = {}
    opset = draw(st.sampled_from([13, 14]))
    for i in range(len(fs)):
        if i < len(s) and fs[i] == s[i] and draw(st.integers(0, 2)) == 0:
            fs[i] = 0
    if fs and draw(st.booleans()):
        i = draw(st.integers(0, len(fs) - 1))
        fs[i] = -1
    zero = draw(st.integers(0, 9)) == 0
    if zero and s:
        # zero-size tensors, with and without allowzero
        s = list(s)
        i = draw(st.integers(0, len(s) - 1))
        s[i] = 0
        if draw(st.booleans()):
            fs = [0 if d == 0 else d for d in s]
            fs = draw(st.permutations(fs))
            attrs['allowzero'] = 1
            opset = 14
        else:
            fs = [0 if draw(st.booleans()) else d for d in s]
            fs[i] = 0
    elif 0 not in fs and opset == 14 and draw(st.integers(0, 3)) == 0:
        attrs['allowzero'] = draw(st.integers(0, 1))
    return case('Reshape', [[draw(st.sampled_from(['f32', 'i64'])), s, data(draw)], const1(fs)], attrs, opset=opset, const=[1])


def g_flatten(draw):
    s = dims(draw, 1, 4, 4, zero=True)
    attrs = {}
    if draw(st.integers(0, 3)):
        attrs['axis'] = draw(st.integers(-len(s), len(s)))
    return case('Flatten', [[draw(st.sampled_from(['f32', 'i64'])), s, data(draw)]], attrs, opset=13)


def g_unsqueeze(draw):
    s = dims(draw, 0, 3, 4, zero=True)
    k = draw(st.integers(1, 3))
    r = len(s) + k
    ax = draw(st.permutations(list(range(r))))[:k]
    ax = [a - r if draw(st.booleans()) else a for a in ax]
    dt = draw(st.sampled_from(['f32', 'i64']))
    if draw(st.booleans()):
        return case('Unsqueeze', [[dt, s, data(draw)], const1(ax)], opset=13, const=[1])
    return case('Unsqueeze', [[dt, s, data(draw)]], {'axes': ax}, opset=11)


def g_squeeze(draw):
    s = dims(draw, 1, 3, 4)
    s = [1 if draw(st.booleans()) else d for d in s]
    k = draw(st.integers(0, 2))
    for _ in range(k):
        s.insert(draw(st.integers(0, len(s))), 1)
    ones = [i for i, d in enumerate(s) if d == 1]
    dt = draw(st.sampled_from(['f32', 'i64']))
    new = draw(st.booleans())
    if not ones or draw(st.integers(0, 4)) == 0:
        return case('Squeeze', [[dt, s, data(draw)]], opset=13 if new else 11)
    ax = draw(st.lists(st.sampled_from(ones), min_size=1, max_size=len(ones), unique=True))
    ax = [a - len(s) if draw(st.booleans()) else a for a in ax]
    if new:
        return case('Squeeze', [[dt, s, data(draw)], const1(ax)], opset=13, const=[1])
    return case('Squeeze', [[dt, s, data(draw)]], {'axes': ax}, opset=11)


SHAPE_ENDS = [0, 1, -1, 2, -2, 3, -3, 4, -4, 5, -5]


def g_shape(draw):
    s = dims(draw, 0, 4, zero=True)
    attrs = {}
    if draw(st.booleans()):
        if draw(st.booleans()):
            attrs['start'] = draw(st.sampled_from(SHAPE_ENDS))
        if draw(st.booleans()):
            attrs['end'] = draw(st.sampled_from(SHAPE_ENDS))
    return case('Shape', [[draw(st.sampled_from(['f32', 'i64', 'bool'])), s, data(draw)]], attrs, opset=15)


def g_slice(draw):
    s = dims(draw, 1, 5, 4, zero=True)
    form = draw(st.integers(0, 4))
    r = len(s)
    if form in (0, 1):     # attribute form: with/without axes
        k = draw(st.integers(1, r))
        ax = draw(st.permutations(list(range(r))))[:k] if form == 1 else list(range(k))
    elif form == 2:
        k = draw(st.integers(1, r))
        ax = list(range(k))
    else:
        k = draw(st.integers(1, r))
        ax = draw(st.permutations(list(range(r))))[:k]
    starts, ends, steps = [], [], []
    for a in ax:
        starts.append(draw(st.integers(-s[a] - 2, s[a] + 2)))
        ends.append(draw(st.one_of(st.integers(-s[a] - 2, s[a] + 2), st.sampled_from([2 ** 63 - 1, -2 ** 63, 2 ** 31 - 1]))))
        steps.append(draw(st.sampled_from([1, 1, 2, 3, -1, -2])) if form == 4 else 1)
        if steps[-1] < 0:     # start before the beginning of a backward slice: specification text and implementations differ
            starts[-1] = max(starts[-1], -s[a])
    axs = [a - r if draw(st.booleans()) else a for a in ax]
    x = [draw(st.sampled_from(['f32', 'i64'])), s, data(draw)]
    it = 'i64'
    if draw(st.booleans()) and all(-2 ** 31 <= e < 2 ** 31 for e in ends):
        it = 'i32'
    if form == 0:
        return case('Slice', [x], {'starts': starts, 'ends': ends}, opset=9)
    if form == 1:
        return case('Slice', [x], {'starts': starts, 'ends': ends, 'axes': [a % r for a in axs]}, opset=9)
    ins = [x, const1(starts, it), const1(ends, it)]
    if form >= 3:
        ins.append(const1(axs, it))
    if form == 4:
        ins.append(const1(steps, it))
        if ax == list(range(r)) and draw(st.booleans()):
            ins[3] = None
    return case('Slice', ins, opset=13, const=range(1, len(ins)))


def g_split(draw):
    s = dims(draw, 1, 4, 4)
    ax = draw(st.integers(0, len(s) - 1))
    form = draw(st.integers(0, 3))
    k = draw(st.integers(1, 4))
    dt = draw(st.sampled_from(['f32', 'i64']))
    attrs = {}
    if ax or draw(st.booleans()):
        attrs['axis'] = ax - (len(s) if draw(st.booleans()) else 0)
    if form in (0, 1):
        parts = [draw(st.integers(0 if draw(st.integers(0, 6)) == 0 else 1, 4)) for _ in range(k)]
        s[ax] = sum(parts)
        if form == 0:
            attrs['split'] = parts
            return case('Split', [[dt, s, data(draw)]], attrs, n=k, opset=11)
        return case('Split', [[dt, s, data(draw)], const1(parts)], attrs, n=k, opset=optset(draw, 13, 18), const=[1])
    if form == 2:
        s[ax] = k * draw(st.integers(1, 3))
        return case('Split', [[dt, s, data(draw)]], attrs, n=k, opset=optset(draw, 11, 13))
    chunk = draw(st.integers(1, 3))
    last = draw(st.integers(1, chunk))
    s[ax] = chunk * (k - 1) + last
    if math.ceil(s[ax] / k) != chunk or chunk * (k - 1) >= s[ax]:
        s[ax] = chunk * k
    attrs['num_outputs'] = k
    return case('Split', [[dt, s, data(draw)]], attrs, n=k, opset=18)


def g_pad(draw):
    s = dims(draw, 1, 4, 5)
    mode = draw(st.sampled_from(['constant', 'constant', 'reflect', 'edge', None, 'wrap']))
    r = len(s)
    form = draw(st.integers(0, 3))
    if mode == 'wrap' and form == 0:
        mode = 'edge'
    axes = None
    n = r
    if form == 3:
        n = draw(st.integers(1, r))
        axes = draw(st.permutations(list(range(r))))[:n]
    b, e = [], []
    for i in range(n):
        d = s[axes[i] if axes else i]
        hi = d - 1 if mode == 'reflect' else (d if mode == 'wrap' else 3)
        lo = 0
        if mode in ('constant', None) and draw(st.integers(0, 5)) == 0:
            lo = -((d - 1) // 2)
        b.append(draw(st.integers(lo, max(hi, lo))))
        e.append(draw(st.integers(lo, max(hi, lo))))
    attrs = {}
    if mode:
        attrs['mode'] = mode
    dt = draw(st.sampled_from(['f32', 'f32', 'i64'])) if form else 'f32'
    x = [dt, s, data(draw)]
    if form == 0:
        attrs['pads'] = b + e
        maybe(draw, attrs, 'value', st.sampled_from([0.0, 1.5]))
        return case('Pad', [x], attrs, opset=2)
    ins = [x, const1(b + e)]
    if form == 2 or (form == 3 and draw(st.booleans())):
        ins.append(const1(draw(st.integers(-2, 2)), dt))
    elif form == 3:
        ins.append(None)
    if form == 3:
        ins.append(const1([a - r if draw(st.booleans()) else a for a in axes]))
    return case('Pad', ins, attrs, opset=19 if mode == 'wrap' or form == 3 else 13, const=range(1, len(ins)))


def g_onehot(draw):
    s = dims(draw, 1, 3, 4)
    depth = draw(st.integers(1, 5))
    attrs = {}
    if draw(st.booleans()):
        attrs['axis'] = draw(st.integers(-len(s) - 1, len(s)))
    vt_ = draw(st.sampled_from(['f32', 'i64', 'i32']))
    it = draw(st.sampled_from(['i64', 'i32', 'f32']))
    dd = draw(st.sampled_from(['i64', 'i32', 'f32']))
    dep = const1([depth], dd) if draw(st.booleans()) else const1(depth, dd)
    vals = [draw(st.integers(-2, 0)), draw(st.integers(1, 3))]
    return case('OneHot', [[it, s, {'seed': draw(SEED), 'lo': -depth, 'hi': depth - 1, 'q': 1}], dep, const1(vals, vt_)],
                attrs, opset=11, const=[1, 2])


def g_trilu(draw):
    s = dims(draw, 2, 4, 4, zero=True)
    attrs = {}
    maybe(draw, attrs, 'upper', st.integers(0, 1))
    ins = [[draw(st.sampled_from(['f32', 'i64'])), s, data(draw)]]
    if draw(st.booleans()):
        ins.append(const1(draw(st.integers(-4, 4))))
    return case('Trilu', ins, attrs, opset=14, const=range(1, len(ins)))


def g_range(draw):
    dt = draw(st.sampled_from(['i64', 'i32', 'f32', 'f64']))
    start = draw(st.integers(-5, 5))
    step = draw(st.sampled_from([1, 2, 3, -1, -2]))
    lim = start + draw(st.integers(-6, 10))
    f = 0.5 if dt in FLOATS else 1
    return case('Range', [const1(start * f, dt), const1(lim * f, dt), const1(step * f, dt)], opset=11, const=[0, 1, 2])


def g_constantofshape(draw):
    s = dims(draw, 0, 4, 4, zero=True)
    attrs = {}
    if draw(st.integers(0, 3)):
        dt = draw(st.sampled_from(['f32', 'i64', 'i32', 'bool', 'u8', 'f64']))
        attrs['value'] = {'tensor': [dt, [1], {'v': [draw(st.integers(0, 1)) if dt == 'bool' else draw(st.integers(0, 5))]}]}
    return case('ConstantOfShape', [const1(s)], attrs, opset=9, const=[0])


def g_constant(draw):
    k = draw(st.integers(0, 4))
    if k == 0:
        dt = draw(st.sampled_from(['f32', 'i64', 'bool', 'i32']))
        attrs = {'value': {'tensor': [dt, dims(draw, 0, 3, 3, zero=True), data(draw)], 'typed': draw(st.booleans())}}
    elif k == 1:
        attrs = {'value_float': draw(st.integers(-8, 8)) / 4}
    elif k == 2:
        attrs = {'value_int': draw(st.integers(-8, 8))}
    elif k == 3:
        attrs = {'value_ints': {'ints': draw(st.lists(st.integers(-8, 8), max_size=4))}}
    else:
        attrs = {'value_floats': {'floats': draw(st.lists(st.integers(-8, 8).map(lambda x: x / 4), max_size=4))}}
    return case('Constant', [], attrs, opset=13)


def g_identity(draw):
    return case('Identity', [[draw(st.sampled_from(['f32', 'i64', 'bool', 'f16'])), dims(draw, 0, 4, zero=True), data(draw)]], opset=14)


def g_dropout(draw):
    s = dims(draw, 1, 4)
    n = draw(st.integers(1, 2))
    form = draw(st.integers(0, 2))
    ins = [[draw(st.sampled_from(['f32', 'f64'])), s, data(draw)]]
    attrs = {}
    if form == 0:
        maybe(draw, attrs, 'ratio', st.just(0.25))
        return case('Dropout', ins, attrs, n=n, opset=10)
    if form == 2:
        ins.append(const1(0.5, 'f32'))
        if draw(st.booleans()):
            ins.append(const1(draw(st.integers(1, 5)) == 5, 'bool'))
    return case('Dropout', ins, n=n, opset=13, const=range(1, len(ins)))


def g_depthtospace(draw):
    b = draw(st.integers(1, 3))
    n, c, h, w = [draw(st.integers(1, 3)) for _ in range(4)]
    attrs = {'blocksize': b}
    maybe(draw, attrs, 'mode', st.sampled_from(['DCR', 'CRD']))
    return case('DepthToSpace', [['f32', [n, c * b * b, h, w], data(draw)]], attrs, opset=13)


def g_nonzero(draw):
    s = dims(draw, 1, 4, 4, zero=True)
    return case('NonZero', [[draw(st.sampled_from(['f32', 'bool', 'i64'])), s, data(draw, -1, 1, 1)]], opset=13)


def g_compress(draw):
    s = dims(draw, 1, 3, 4)
    attrs = {}
    if draw(st.booleans()):
        attrs['axis'] = draw(st.integers(-len(s), len(s) - 1))
        n = s[attrs['axis']]
    else:
        n = int(np.prod(s))
    k = draw(st.integers(1, n))
    return case('Compress', [['f32', s, data(draw)], ['bool', [k], data(draw)]], attrs, opset=11)


def g_cumsum(draw):
    s = dims(draw, 1, 4, 4)
    attrs = {}
    if draw(st.integers(0, 3)) == 0:
        attrs['exclusive'] = draw(st.integers(0, 1))
        attrs['reverse'] = draw(st.integers(0, 1))
    return case('CumSum', [[draw(st.sampled_from(['f32', 'i64', 'i32'])), s, data(draw)],
                           const1(draw(st.integers(-len(s), len(s) - 1)), draw(st.sampled_from(['i64', 'i32'])))],
                attrs, opset=14, const=[1])


def g_topk(draw):
    s = dims(draw, 1, 4, 5)
    attrs = {}
    ax = draw(st.integers(0, len(s) - 1))
    if draw(st.integers(0, 3)):
        attrs['axis'] = ax - (len(s) if draw(st.booleans()) else 0)
    else:
        ax = len(s) - 1
    if draw(st.integers(1, 5)) == 5:
        attrs['k'] = draw(st.integers(1, s[ax]))
        return case('TopK', [['f32', s, data(draw)]], attrs, n=2, opset=9)
    maybe(draw, attrs, 'largest', st.integers(0, 1))
    maybe(draw, attrs, 'sorted', st.just(1))
    return case('TopK', [[draw(st.sampled_from(['f32', 'i64'])), s, data(draw)], const1([draw(st.integers(1, s[ax]))])], attrs,
                n=2, opset=11, const=[1])


# ---------------------------------------------------------------- reductions
def g_reduce(op):
    def g(draw):
        s = dims(draw, 1, 4, 4)
        r = len(s)
        attrs = {}
        maybe(draw, attrs, 'keepdims', st.integers(0, 1))
        ax = draw(st.lists(st.integers(0, r - 1), min_size=1, max_size=r, unique=True))
        ax = [a - r if draw(st.booleans()) else a for a in ax]
        dt = draw(st.sampled_from(['f32', 'f32', 'f64'] + ([] if op in ('ReduceL2', 'ReduceMean') else ['i64', 'i32'])))
        form = draw(st.integers(0, 3))
        x = [dt, s, data(draw, -2, 2) if op == 'ReduceProd' else data(draw)]
        new = 13 if op == 'ReduceSum' else 18
        if form == 0:
            return case(op, [x], attrs, opset=draw(st.sampled_from([11, new])))
        if form == 1:
            return case(op, [x], dict(attrs, axes=ax), opset=11)
        if form == 2:
            return case(op, [x, const1(ax)], attrs, opset=new, const=[1])
        attrs['noop_with_empty_axes'] = draw(st.integers(0, 1))
        if draw(st.booleans()):
            return case(op, [x], attrs, opset=new)
        return case(op, [x, ['i64', [0], {'v': []}] if draw(st.booleans()) else const1(ax)], attrs, opset=new, const=[1])
    return g


def g_argmax(draw):
    s = dims(draw, 1, 4, 4)
    attrs = {}
    maybe(draw, attrs, 'axis', st.integers(-len(s), len(s) - 1))
    maybe(draw, attrs, 'keepdims', st.integers(0, 1))
    maybe(draw, attrs, 'select_last_index', st.integers(0, 1))
    return case('ArgMax', [[draw(st.sampled_from(['f32', 'i64'])), s, data(draw, -2, 2, 1)]], attrs, opset=13)


# ---------------------------------------------------------------- matmul family
def mm_shapes(draw, rank1=True):
    m, k, n = [draw(st.integers(1, 5)) for _ in range(3)]
    form = draw(st.integers(0, 3))
    if form == 0 and rank1:
        a = [k] if draw(st.booleans()) else [m, k]
        b = [k] if len(a) != 1 or draw(st.booleans()) else [k, n]
        if draw(st.booleans()):
            bt = dims(draw, 1, 2, 3)
            if len(a) == 2 and len(b) == 1:
                a = bt + a
            elif len(b) == 2:
                b = bt + b
        return a, b
    ba, bb = broadcast_group(draw, 2, 2, zero=False)
    return ba + [m, k], bb + [k, n]


def g_matmul(draw):
    a, b = mm_shapes(draw)
    dt = draw(st.sampled_from(['f32', 'f32', 'f64', 'i32', 'i64']))
    return case('MatMul', [[dt, a, data(draw)], [dt, b, data(draw)]], opset=13)


def g_gemm(draw):
    m, k, n = [draw(st.integers(1, 5)) for _ in range(3)]
    attrs = {}
    maybe(draw, attrs, 'transA', st.integers(0, 1))
    maybe(draw, attrs, 'transB', st.integers(0, 1))
    maybe(draw, attrs, 'alpha', st.sampled_from([0.5, 2.0, 1.0]))
    maybe(draw, attrs, 'beta', st.sampled_from([0.5, 2.0, 0.0, 1.0]))
    dt = draw(st.sampled_from(['f32', 'f32', 'f64']))
    ins = [[dt, [k, m] if attrs.get('transA') else [m, k], data(draw)], [dt, [n, k] if attrs.get('transB') else [k, n], data(draw)]]
    if draw(st.booleans()):
        c = draw(st.sampled_from([[n], [m, n], [1, n], [m, 1], [1], []]))
        ins.append([dt, c, data(draw)])
    return case('Gemm', ins, attrs, opset=13)


def g_matmulinteger(draw):
    a, b = mm_shapes(draw, rank1=False)
    ta, tb = draw(st.sampled_from(['u8', 'i8'])), draw(st.sampled_from(['u8', 'i8']))
    ins = [[ta, a, data(draw, -9, 9)], [tb, b, data(draw, -9, 9)]]
    if draw(st.booleans()):
        ins.append(const1(draw(st.integers(0, 3)), ta))
        if draw(st.booleans()):
            ins.append(const1(draw(st.integers(0, 3)), tb))
    return case('MatMulInteger', ins, opset=10)


def g_qlinearmatmul(draw):
    a, b = mm_shapes(draw, rank1=False)
    ta, tb, ty = [draw(st.sampled_from(['u8', 'i8'])) for _ in range(3)]
    return case('QLinearMatMul', [[ta, a, data(draw, 0, 9)], const1(0.5, 'f32'), const1(1, ta), [tb, b, data(draw, 0, 9)],
                                  const1(0.25, 'f32'), const1(0, tb), const1(2.0, 'f32'), const1(3, ty)], opset=10)


EINS = ['ij,jk->ik', 'bij,bjk->bik', 'ij->ji', 'ij->i', 'ij->', 'i,i->', 'i,j->ij', '...ij,...jk->...ik', 'ii->i', 'ii',
        'ij,jk', 'bhqd,bhkd->bhqk', 'b...i,i->b...', 'i...->...', '...i->...', 'ij,ik,il->jkl', 'b i j , b j k -> b i k',
        'i...,...->...i', 'ba,bc->ac', '...ij->...ji', 'bnth,bnsh->bnts', 'abc,cd->abd', 'i...j->j...i']


def equation(draw):
    """a random equation: one to three terms, with or without an output, an ellipsis and spaces"""
    terms = [draw(st.lists(st.sampled_from('abcxk'), max_size=3, unique=True)) for _ in range(draw(st.sampled_from([1, 2, 2, 3])))]
    ell = draw(st.sampled_from([False, False, True]))
    if ell:
        for t in terms:
            if t is terms[0] or draw(st.booleans()):
                t.insert(draw(st.integers(0, len(t))), '...')
    eq = ','.join(''.join(t) for t in terms)
    if draw(st.booleans()):
        used = sorted({c for t in terms for c in t if c != '...'})
        out = draw(st.permutations(used))[:draw(st.integers(0, len(used)))]
        if ell:
            out.insert(draw(st.integers(0, len(out))), '...')
        eq += '->' + ''.join(out)
    if not eq.replace(',', '') or eq.startswith('->'):
        return 'ij'
    return eq if draw(st.booleans()) else eq.replace(',', ' , ').replace('->', ' -> ')


def g_einsum(draw):
    eq = draw(st.sampled_from(EINS)) if draw(st.booleans()) else equation(draw)
    lab = {}
    ell = dims(draw, 0, 2, 3)
    ins = []
    dt = draw(st.sampled_from(['f32', 'f64', 'i64']))
    for t in eq.replace(' ', '').split('->')[0].split(','):
        s = []
        i = 0
        while i < len(t):
            if t[i] == '.':
                e = list(ell)
                if draw(st.booleans()):
                    e = [1 if draw(st.booleans()) else d for d in e]
                s += e
                i += 3
                continue
            s.append(lab.setdefault(t[i], draw(st.integers(1, 4))))
            i += 1
        ins.append([dt, s, data(draw, -2, 2, 1)])
    return case('Einsum', ins, {'equation': eq}, opset=12)


# ---------------------------------------------------------------- conv / pool
def spatial(draw, nd, k, d, s):
    out = []
    for i in range(nd):
        need = d[i] * (k[i] - 1) + 1
        out.append(need + draw(st.integers(0, 5)))
    return out


def window(draw, nd, attrs, ceil=False, dil=True, auto=('NOTSET', 'SAME_UPPER', 'SAME_LOWER', 'VALID')):
    k = [draw(st.integers(1, 3)) for _ in range(nd)]
    d = [1] * nd
    s = [1] * nd
    if dil and draw(st.integers(0, 2)) == 0:
        d = [draw(st.integers(1, 3)) for _ in range(nd)]
        attrs['dilations'] = d
    elif dil and draw(st.integers(0, 3)) == 0:
        attrs['dilations'] = d
    if draw(st.booleans()):
        s = [draw(st.integers(1, 3)) for _ in range(nd)]
        attrs['strides'] = s
    m = draw(st.integers(0, 5))
    pads = [0] * (2 * nd)
    if m <= 2:
        pads = [draw(st.integers(0, (d[i % nd] * (k[i % nd] - 1) + 1) // 2)) for i in range(2 * nd)]
        attrs['pads'] = pads
        if draw(st.integers(0, 3)) == 0:
            attrs['auto_pad'] = 'NOTSET'
    elif m == 3:
        attrs['auto_pad'] = draw(st.sampled_from(auto))
    return k, d, s, pads


def g_conv(op):
    def g(draw):
        nd = draw(st.sampled_from([1, 2, 2, 2, 3]))
        attrs = {}
        k, d, s, p = window(draw, nd, attrs)
        sp = spatial(draw, nd, k, d, s)
        grp = draw(st.sampled_from([1, 1, 2, 3]))
        cin, cout = draw(st.integers(1, 2)), draw(st.integers(1, 2))
        if grp > 1 or draw(st.integers(0, 3)) == 0:
            attrs['group'] = grp
        if draw(st.booleans()):
            attrs['kernel_shape'] = k
        b = draw(st.integers(1, 2))
        xs, ws = [b, cin * grp] + sp, [cout * grp, cin] + k
        if op == 'Conv':
            dt = draw(st.sampled_from(['f32', 'f32', 'f64']))
            ins = [[dt, xs, data(draw, -2, 2, 2)], [dt, ws, data(draw, -2, 2, 2)]]
            if draw(st.booleans()):
                ins.append([dt, [cout * grp], data(draw)])
            return case(op, ins, attrs, opset=11)
        if op == 'ConvInteger':
            ins = [['u8', xs, data(draw, 0, 5)], [draw(st.sampled_from(['u8', 'i8'])), ws, data(draw, -3, 3)]]
            if draw(st.booleans()):
                ins.append(const1(1, 'u8'))
                if draw(st.booleans()):
                    ins.append(const1(1, ins[1][0]))
            return case(op, ins, attrs, opset=10)
        tw = draw(st.sampled_from(['u8', 'i8']))
        ty = draw(st.sampled_from(['u8', 'i8']))
        ins = [['u8', xs, data(draw, 0, 5)], const1(0.5, 'f32'), const1(1, 'u8'), [tw, ws, data(draw, -3, 3)], const1(0.5, 'f32'),
               const1(0, tw), const1(1.0, 'f32'), const1(2, ty)]
        if draw(st.booleans()):
            ins.append(['i32', [cout * grp], data(draw)])
        return case(op, ins, attrs, opset=10)
    return g


def g_convtranspose(draw):
    nd = draw(st.sampled_from([1, 2, 2, 3]))
    attrs = {}
    k = [draw(st.integers(1, 3)) for _ in range(nd)]
    s = [1] * nd
    d = [1] * nd
    if draw(st.booleans()):
        s = [draw(st.integers(1, 3)) for _ in range(nd)]
        attrs['strides'] = s
    if draw(st.integers(0, 2)) == 0:
        d = [draw(st.integers(1, 2)) for _ in range(nd)]
        attrs['dilations'] = d
    sp = [draw(st.integers(2, 4)) for _ in range(nd)]
    m = draw(st.integers(0, 4))
    if m <= 1:
        attrs['pads'] = [draw(st.integers(0, (d[i % nd] * (k[i % nd] - 1)) // 2)) for i in range(2 * nd)]
    elif m == 2:
        attrs['auto_pad'] = draw(st.sampled_from(['SAME_UPPER', 'SAME_LOWER', 'VALID', 'NOTSET']))
    same = attrs.get('auto_pad', '').startswith('SAME')
    if same and any(d[i] * (k[i] - 1) + 1 < s[i] for i in range(nd)):
        same = False
        attrs['auto_pad'] = 'VALID'
    if not same and draw(st.integers(0, 2)) == 0:
        attrs['output_padding'] = [draw(st.integers(0, max(s[i], d[i]) - 1)) for i in range(nd)]
    if m == 3:
        attrs.pop('output_padding', None)
        attrs['output_shape'] = [s[i] * (sp[i] - 1) + d[i] * (k[i] - 1) + 1 - draw(st.integers(0, (d[i] * (k[i] - 1)) // 2))
                                 for i in range(nd)]
    grp = draw(st.sampled_from([1, 1, 2]))
    cin, cout = draw(st.integers(1, 2)), draw(st.integers(1, 2))
    if grp > 1:
        attrs['group'] = grp
    if draw(st.booleans()):
        attrs['kernel_shape'] = k
    ins = [['f32', [draw(st.integers(1, 2)), cin * grp] + sp, data(draw)], ['f32', [cin * grp, cout] + k, data(draw)]]
    if draw(st.booleans()):
        ins.append(['f32', [cout * grp], data(draw)])
    return case('ConvTranspose', ins, attrs, opset=11)


def g_pool(op):
    def g(draw):
        nd = draw(st.sampled_from([1, 2, 2, 2, 3]))
        attrs = {}
        opset = 12 if op == 'MaxPool' else draw(st.sampled_from([11, 19]))
        k, d, s, p = window(draw, nd, attrs, dil=op == 'MaxPool' or opset >= 19)
        attrs['kernel_shape'] = k
        sp = spatial(draw, nd, k, d, s)
        if draw(st.booleans()) and attrs.get('auto_pad', 'NOTSET') == 'NOTSET':
            # windows starting in the end padding: kept or dropped depending on the opset and runtime, so not generated
            tail = [-(-(sp[i] + p[i] + p[i + nd] - d[i] * (k[i] - 1) - 1) // s[i]) * s[i] >= sp[i] + p[i] for i in range(nd)]
            attrs['ceil_mode'] = 0 if any(tail) else draw(st.integers(0, 1))
        n = 1
        if op == 'AveragePool':
            maybe(draw, attrs, 'count_include_pad', st.integers(0, 1))
        elif draw(st.integers(0, 4)) == 0:
            n = 2
        dt = draw(st.sampled_from(['f32', 'f32', 'f64']))
        return case(op, [[dt, [draw(st.integers(1, 2)), draw(st.integers(1, 2))] + sp, data(draw)]], attrs, n=n, opset=opset)
    return g


def g_gap(draw):
    s = dims(draw, 3, 5, 4)
    return case('GlobalAveragePool', [[draw(st.sampled_from(['f32', 'f64'])), s, data(draw)]], opset=1)


def g_bn(draw):
    s = dims(draw, 2, 5, 3)
    c = s[1]
    attrs = {}
    maybe(draw, attrs, 'epsilon', st.sampled_from([1e-3, 1e-5, 0.25]))
    maybe(draw, attrs, 'momentum', st.just(0.8))
    opset, n = optset(draw, 9, 15), 1
    if draw(st.integers(1, 5)) == 5:   # training form: statistics of the batch, and the updated running statistics
        opset, n = draw(st.sampled_from([(15, 3), (15, 3), (9, 5)]))
        if opset == 15:
            attrs['training_mode'] = 1
    elif opset >= 14:
        maybe(draw, attrs, 'training_mode', st.just(0))
    return case('BatchNormalization', [['f32', s, data(draw)], ['f32', [c], data(draw)], ['f32', [c], data(draw)],
                                       ['f32', [c], data(draw)], ['f32', [c], posdata(draw)]], attrs, n=n, opset=opset)


def g_layernorm(draw):
    s = dims(draw, 1, 4, 4)
    attrs = {}
    ax = -1
    if draw(st.booleans()):
        ax = draw(st.integers(-len(s), len(s) - 1))
        attrs['axis'] = ax
    maybe(draw, attrs, 'epsilon', st.just(1e-3))
    norm = s[ax % len(s):]
    ins = [['f32', s, data(draw)], ['f32', norm, data(draw)]]
    if draw(st.booleans()):
        ins.append(['f32', norm, data(draw)])
    n = draw(st.sampled_from([1, 1, 1, 3, 3]))
    return omit(draw, case('LayerNormalization', ins, attrs, n=n, opset=17), [1] if n == 3 else [])


def g_instancenorm(draw):
    s = dims(draw, 3, 5, 4)
    return case('InstanceNormalization', [['f32', s, data(draw)], ['f32', [s[1]], data(draw)], ['f32', [s[1]], data(draw)]],
                {'epsilon': 1e-3} if draw(st.booleans()) else {}, opset=6)


def g_lpnorm(draw):
    s = dims(draw, 1, 4, 4)
    attrs = {}
    maybe(draw, attrs, 'axis', st.integers(-len(s), len(s) - 1))
    maybe(draw, attrs, 'p', st.integers(1, 2))
    return case('LpNormalization', [['f32', s, data(draw, 1, 4)]], attrs, opset=1)


def g_lrn(draw):
    s = dims(draw, 4, 4, 4)
    return case('LRN', [['f32', s, data(draw)]], {'size': draw(st.sampled_from([1, 3, 5]))}, opset=13)


def g_quant(draw):
    s = dims(draw, 1, 4, 4)
    form = draw(st.integers(0, 2))
    ty = draw(st.sampled_from(['u8', 'i8']))
    attrs = {}
    sc, zp = const1(0.5, 'f32'), const1(3, ty)
    if form == 1:
        ax = draw(st.integers(0, len(s) - 1))
        attrs['axis'] = ax
        sc = ['f32', [s[ax]], posdata(draw)]
        zp = [ty, [s[ax]], data(draw, 0, 9)]
    ins = [['f32', s, data(draw)], sc]
    if form != 2 or draw(st.booleans()):
        ins.append(zp)
    return case('QuantizeLinear', ins, attrs, opset=13, const=range(1, len(ins)))


def g_dequant(draw):
    s = dims(draw, 1, 4, 4)
    form = draw(st.integers(0, 2))
    ty = draw(st.sampled_from(['u8', 'i8']))
    attrs = {}
    sc, zp = const1(0.5, 'f32'), const1(3, ty)
    if form == 1:
        ax = draw(st.integers(0, len(s) - 1))
        attrs['axis'] = ax
        sc = ['f32', [s[ax]], posdata(draw)]
        zp = [ty, [s[ax]], data(draw, 0, 9)]
    ins = [[ty, s, data(draw, -9, 9)], sc]
    if form != 2 or draw(st.booleans()):
        ins.append(zp)
    return case('DequantizeLinear', ins, attrs, opset=13, const=range(1, len(ins)))


def g_resize(draw):
    nd = draw(st.sampled_from([2, 2, 1, 3]))
    s = [draw(st.integers(1, 2)), draw(st.integers(1, 2))] + [draw(st.integers(1, 5)) for _ in range(nd)]
    mode = draw(st.sampled_from(['nearest', 'linear', 'cubic', None]))
    attrs = {}
    if mode == 'cubic' and nd != 2:
        mode = 'linear'
    if mode:
        attrs['mode'] = mode
    ctm = draw(st.sampled_from([None, 'half_pixel', 'asymmetric', 'align_corners']))
    if ctm:
        attrs['coordinate_transformation_mode'] = ctm
    form = draw(st.integers(0, 4))
    x = ['f32', s, data(draw)]
    sc = [1.0, 1.0] + [draw(st.sampled_from([1.0, 2.0, 0.5, 1.5, 3.0, 2.5])) for _ in range(nd)]
    sc = [v if math.floor(v * d) >= 1 else 1.0 for v, d in zip(sc, s)]
    if form == 0:
        attrs.pop('coordinate_transformation_mode', None)
        if mode == 'cubic':
            attrs['mode'] = 'linear'
        return case('Resize', [x, const1(sc, 'f32')], attrs, opset=10, const=[1])
    if form == 1:
        return case('Resize', [x, ['f32', [0], {'v': []}] if draw(st.booleans()) else None, const1(sc, 'f32')], attrs, opset=13, const=[1, 2])
    sz = s[:2] + [draw(st.integers(1, 6)) for _ in range(nd)]
    if form == 4:
        axes = list(range(2, 2 + nd))
        if draw(st.booleans()):
            axes = [a - len(s) for a in axes]
        attrs['axes'] = axes
        if draw(st.booleans()):
            return case('Resize', [x, None, const1(sc[2:], 'f32')], attrs, opset=18, const=[1, 2])
        maybe(draw, attrs, 'keep_aspect_ratio_policy', st.sampled_from(['stretch', 'not_larger', 'not_smaller']))
        if draw(st.booleans()):
            attrs['axes'] = axes = axes[:draw(st.integers(1, nd))]
        if draw(st.integers(1, 4)) == 4:   # all axes
            del attrs['axes']
            return case('Resize', [x, None, None, const1(sz)], attrs, opset=18, const=[1, 2, 3])
        return case('Resize', [x, None, None, const1([sz[a] for a in axes])], attrs, opset=18, const=[1, 2, 3])
    e = (lambda: ['f32', [0], {'v': []}] if draw(st.booleans()) else None)
    return case('Resize', [x, e(), e(), const1(sz)], attrs, opset=13, const=[1, 2, 3])


def g_upsample(draw):
    s = [draw(st.integers(1, 2)), draw(st.integers(1, 2)), draw(st.integers(1, 4)), draw(st.integers(1, 4))]
    attrs = {}
    maybe(draw, attrs, 'mode', st.sampled_from(['nearest', 'linear']))
    sc = [1.0, 1.0, draw(st.sampled_from([1.0, 2.0, 3.0, 1.5])), draw(st.sampled_from([1.0, 2.0, 3.0, 1.5]))]
    if draw(st.integers(1, 4)) == 4:
        return case('Upsample', [['f32', s, data(draw)]], dict(attrs, scales=sc), opset=7)
    return case('Upsample', [['f32', s, data(draw)], const1(sc, 'f32')], attrs, opset=9, const=[1])


def g_extractor(draw):
    s = dims(draw, 1, 3, 4)
    k = draw(st.integers(1, 4))
    x = draw(st.sampled_from(['f32', 'f64', 'i64', 'i32']))
    c = case('ArrayFeatureExtractor', [[x, s, data(draw)], ['i64', [1, k] if draw(st.booleans()) else [k], {'seed': draw(SEED), 'lo': 0, 'hi': s[-1] - 1}]], opset=13)
    c['domain'] = 'ai.onnx.ml'
    return c


def g_gridsample(draw):
    nd = draw(st.sampled_from([2, 2, 3]))
    s = [draw(st.integers(1, 2)), draw(st.integers(1, 2))] + [draw(st.integers(2, 4)) for _ in range(nd)]
    g = [s[0]] + [draw(st.integers(1, 3)) for _ in range(nd)] + [nd]
    attrs = {}
    opset = 16
    if nd == 3:
        opset = 20
    maybe(draw, attrs, 'align_corners', st.integers(0, 1))
    return case('GridSample', [['f32', s, data(draw)], ['f32', g, data(draw, -1, 1)]], attrs, opset=opset)


def g_roialign(draw):
    s = [draw(st.integers(1, 2)), draw(st.integers(1, 2)), 6, 6]
    n = draw(st.integers(1, 3))
    attrs = {}
    maybe(draw, attrs, 'output_height', st.integers(1, 3))
    maybe(draw, attrs, 'output_width', st.integers(1, 3))
    maybe(draw, attrs, 'sampling_ratio', st.just(2))
    rois = {'v': [0.0, 0.0, 3.0, 4.0] * n}
    return case('RoiAlign', [['f32', s, data(draw)], ['f32', [n, 4], rois], ['i64', [n], {'seed': draw(SEED), 'lo': 0, 'hi': s[0] - 1}]],
                attrs, opset=16)


def rnn(op, gates):
    def g(draw):
        seq, b, i, h = [draw(st.integers(1, 4)) for _ in range(4)]
        d = draw(st.sampled_from(['forward', 'reverse', 'bidirectional', None]))
        nd = 2 if d == 'bidirectional' else 1
        attrs = {'hidden_size': h}
        if d:
            attrs['direction'] = d
        ins = [['f32', [seq, b, i], data(draw, -1, 1)], ['f32', [nd, gates * h, i], data(draw, -1, 1)], ['f32', [nd, gates * h, h], data(draw, -1, 1)]]
        f = draw(st.integers(0, 2))
        if f:
            ins.append(['f32', [nd, 2 * gates * h], data(draw, -1, 1)])
        if f == 2:
            ins += [None, ['f32', [nd, b, h], data(draw, -1, 1)]]
            if op == 'LSTM':
                ins += [['f32', [nd, b, h], data(draw, -1, 1)]]
        n = draw(st.integers(1, 3 if op == 'LSTM' else 2))
        return omit(draw, case(op, ins, attrs, n=n, opset=14), range(n - 1))
    return g


def g_like(op):
    def g(draw):
        attrs = {}
        maybe(draw, attrs, 'dtype', st.sampled_from([int(ptdt('f32')), int(ptdt('f64')), int(ptdt('f16'))]))
        return case(op, [[draw(st.sampled_from(['f32', 'f64'])), dims(draw, 1, 4), data(draw)]], attrs, opset=1)
    return g


GEN = {
    'Add': g_binary_arith('Add'), 'Sub': g_binary_arith('Sub'), 'Mul': g_binary_arith('Mul'), 'Div': g_binary_arith('Div'),
    'Mod': g_binary_arith('Mod'), 'Pow': g_pow, 'Min': g_variadic('Min'), 'Max': g_variadic('Max'), 'Sum': g_variadic('Sum'),
    'Neg': g_unary('Neg', 'num'), 'Abs': g_unary('Abs', 'num'), 'Sign': g_unary('Sign', 'num'), 'Ceil': g_unary('Ceil', 'f'),
    'Floor': g_unary('Floor', 'f'), 'Round': g_unary('Round', 'f'), 'Exp': g_unary('Exp', 'f'), 'Log': g_unary('Log', 'pos'),
    'Sqrt': g_unary('Sqrt', 'pos'), 'Sin': g_unary('Sin', 'f'), 'Cos': g_unary('Cos', 'f'), 'Tanh': g_unary('Tanh', 'f'),
    'Atan': g_unary('Atan', 'f'), 'Sigmoid': g_unary('Sigmoid', 'big'), 'Softplus': g_unary('Softplus', 'big'), 'Relu': g_unary('Relu', 'f'),
    'Elu': g_unary('Elu', 'f'), 'LeakyRelu': g_unary('LeakyRelu', 'f'), 'HardSigmoid': g_unary('HardSigmoid', 'f'),
    'HardSwish': g_unary('HardSwish', 'f'), 'Reciprocal': g_unary('Reciprocal', 'nz'), 'Erf': g_unary('Erf', 'f'),
    'Not': g_unary('Not', 'bool'), 'Gelu': g_unary('Gelu', 'f'),
    'Softmax': g_softmax('Softmax'), 'LogSoftmax': g_softmax('LogSoftmax'), 'Hardmax': g_softmax('Hardmax'),
    'Less': g_compare('Less'), 'LessOrEqual': g_compare('LessOrEqual'), 'Greater': g_compare('Greater'),
    'GreaterOrEqual': g_compare('GreaterOrEqual'), 'Equal': g_compare('Equal'),
    'And': g_logic('And'), 'Or': g_logic('Or'), 'Xor': g_logic('Xor'), 'Where': g_where, 'Clip': g_clip, 'PRelu': g_prelu, 'Cast': g_cast,
    'Transpose': g_transpose, 'Concat': g_concat, 'Gather': g_gather, 'GatherElements': g_gatherelements, 'GatherND': g_gathernd,
    'ScatterND': g_scatternd, 'ScatterElements': g_scatterelements, 'Tile': g_tile, 'Expand': g_expand, 'Reshape': g_reshape,
    'Flatten': g_flatten, 'Unsqueeze': g_unsqueeze, 'Squeeze': g_squeeze, 'Shape': g_shape, 'Slice': g_slice, 'Split': g_split,
    'Pad': g_pad, 'OneHot': g_onehot, 'Trilu': g_trilu, 'Range': g_range, 'ConstantOfShape': g_constantofshape, 'Constant': g_constant,
    'Identity': g_identity, 'Dropout': g_dropout, 'DepthToSpace': g_depthtospace, 'NonZero': g_nonzero, 'Compress': g_compress,
    'CumSum': g_cumsum, 'TopK': g_topk, 'ArgMax': g_argmax,
    'MatMul': g_matmul, 'Gemm': g_gemm, 'MatMulInteger': g_matmulinteger, 'QLinearMatMul': g_qlinearmatmul, 'Einsum': g_einsum,
    'Conv': g_conv('Conv'), 'ConvInteger': g_conv('ConvInteger'), 'QLinearConv': g_conv('QLinearConv'), 'ConvTranspose': g_convtranspose,
    'MaxPool': g_pool('MaxPool'), 'AveragePool': g_pool('AveragePool'), 'GlobalAveragePool': g_gap, 'BatchNormalization': g_bn,
    'LayerNormalization': g_layernorm, 'InstanceNormalization': g_instancenorm, 'LpNormalization': g_lpnorm, 'LRN': g_lrn,
    'QuantizeLinear': g_quant, 'DequantizeLinear': g_dequant, 'Resize': g_resize, 'Upsample': g_upsample, 'GridSample': g_gridsample,
    'RoiAlign': g_roialign, 'ArrayFeatureExtractor': g_extractor, 'LSTM': rnn('LSTM', 4), 'GRU': rnn('GRU', 3), 'RandomUniformLike': g_like('RandomUniformLike'),
    'RandomNormalLike': g_like('RandomNormalLike'),
}
for _r in ('ReduceMean', 'ReduceSum', 'ReduceProd', 'ReduceMin', 'ReduceMax', 'ReduceL2'):
    GEN[_r] = g_reduce(_r)

# operators for which onnx_tool implements evaluation
VALUE_OPS = ['Add', 'Sub', 'Mul', 'Div', 'Mod', 'Pow', 'Min', 'Max', 'Sum', 'Neg', 'Abs', 'Sign', 'Ceil', 'Floor', 'Round', 'Exp', 'Log',
             'Sqrt', 'Sin', 'Cos', 'Tanh', 'Atan', 'Sigmoid', 'Softplus', 'Relu', 'Elu', 'LeakyRelu', 'HardSigmoid', 'HardSwish',
             'Reciprocal', 'Erf', 'Not', 'Softmax', 'Less', 'LessOrEqual', 'Greater', 'GreaterOrEqual', 'Equal', 'And', 'Or', 'Xor',
             'Where', 'Clip', 'Cast', 'Transpose', 'Concat', 'Gather', 'GatherElements', 'GatherND', 'ScatterND', 'Tile', 'Expand',
             'Reshape', 'Flatten', 'Unsqueeze', 'Squeeze', 'Shape', 'Slice', 'Split', 'Pad', 'OneHot', 'Trilu', 'Range',
             'ConstantOfShape', 'Constant', 'Identity', 'Dropout', 'NonZero', 'Compress', 'CumSum', 'ArgMax', 'MatMul', 'Gemm', 'Conv',
             'MaxPool', 'GlobalAveragePool', 'BatchNormalization', 'ReduceMean', 'ReduceSum', 'ReduceProd', 'ReduceMin', 'ReduceMax',
             'ReduceL2']
# evaluated by nothing: must be refused (or computed right)
REFUSE_OPS = ['LogSoftmax', 'Hardmax', 'PRelu', 'ScatterElements', 'DepthToSpace', 'TopK', 'MatMulInteger', 'QLinearMatMul', 'Einsum',
              'ConvInteger', 'QLinearConv', 'ConvTranspose', 'AveragePool', 'LayerNormalization', 'InstanceNormalization',
              'LpNormalization', 'LRN', 'QuantizeLinear', 'DequantizeLinear', 'Resize', 'GridSample', 'RoiAlign', 'LSTM', 'GRU', 'Gelu']


NORETYPE = ('Cast', 'Range', 'Pow', 'Constant', 'QuantizeLinear', 'DequantizeLinear', 'QLinearConv', 'QLinearMatMul', 'ConvInteger', 'MatMulInteger', 'Dropout')
SCHEMA_TYPES = {'tensor(float)': 'f32', 'tensor(double)': 'f64', 'tensor(float16)': 'f16', 'tensor(bool)': 'bool'}
SCHEMA_TYPES.update({'tensor(%s%d)' % (l, b): l[0] + str(b) for l in ('int', 'uint') for b in (8, 16, 32, 64)})
# their half precision results depend on the order of accumulation
ROUNDED = ('MatMul', 'Gemm', 'Conv', 'ConvTranspose', 'Einsum', 'AveragePool', 'GlobalAveragePool', 'ReduceSum', 'ReduceMean', 'ReduceProd', 'ReduceL2', 'CumSum', 'Sum', 'Pow', 'Elu',
           'BatchNormalization', 'LayerNormalization', 'InstanceNormalization', 'LpNormalization', 'LRN', 'LSTM', 'GRU', 'Resize', 'Upsample', 'GridSample', 'RoiAlign',
           'Softmax', 'LogSoftmax', 'Mod', 'Exp', 'Softplus')


def types_of(op, opset):
    """-> (element types of the first input's type parameter, indices of the inputs that share it)"""
    if not onnx.defs.has(op, opset, ''):
        return [], []
    s = onnx.defs.get_schema(op, opset, '')
    if not s.inputs:
        return [], []
    t = s.inputs[0].type_str
    idx = [i for i, x in enumerate(s.inputs) if x.type_str == t]
    if s.inputs[-1].option == onnx.defs.OpSchema.FormalParameterOption.Variadic and len(s.inputs) - 1 in idx:
        idx += range(len(s.inputs), 16)
    return sorted({SCHEMA_TYPES[y] for y in s.inputs[0].types if y in SCHEMA_TYPES}), idx


def retype(draw, c, half):
    """Another element type that the operator's schema allows."""
    types, idx = types_of(c['op'], c['opset'])
    if c['op'] in NORETYPE or not c['ins'] or c['ins'][0] is None:
        return c
    old = c['ins'][0][0]
    if c['op'] == 'Where':
        types, idx, old = sorted(SCHEMA_TYPES.values()), [1, 2], c['ins'][1][0]
    no = ('bool',) if c['op'] not in MOVED and c['op'] != 'Shape' else ()
    if c['op'] in ('Sub', 'Neg'):
        no += ('u8', 'u16', 'u32', 'u64')
    if c['op'] in ROUNDED and not half:
        no += ('f16',)
    if c['op'].startswith('Random'):
        no += tuple(t for t in types if t not in FLOATS)
    types = [t for t in types if t not in no]
    if not types:
        return c
    new = draw(st.sampled_from(types))
    for i in idx:
        if i < len(c['ins']) and c['ins'][i] is not None and c['ins'][i][0] == old:
            c['ins'][i][0] = new
    return c


@st.composite
def op_case(draw, ops, half=False):
    op = draw(st.sampled_from(ops))
    c = GEN[op](draw)
    return retype(draw, c, half) if draw(st.integers(1, 3)) == 3 else c


# inputs whose elements are moved or selected without change (all: every input)
MOVED = {'Transpose': [0], 'Concat': None, 'Gather': [0], 'GatherElements': [0], 'GatherND': [0], 'ScatterND': [0, 2], 'Tile': [0],
         'Expand': [0], 'Reshape': [0], 'Flatten': [0], 'Unsqueeze': [0], 'Squeeze': [0], 'Slice': [0], 'Split': [0], 'Pad': [0],
         'Identity': [0], 'Trilu': [0], 'Where': [1, 2], 'Compress': [0]}
# arithmetic whose IEEE results on infinities, large and tiny values follow from the definition
EXTREME = {'Add': None, 'Sub': None, 'Mul': None, 'Div': [0], 'Min': None, 'Max': None, 'Sum': None, 'Neg': None, 'Abs': None, 'Sign': None,
           'Ceil': None, 'Floor': None, 'Round': None, 'Exp': None, 'Tanh': None, 'Atan': None, 'Sigmoid': None, 'Relu': None, 'Elu': None,
           'LeakyRelu': None, 'HardSigmoid': None, 'HardSwish': None, 'Erf': None, 'Softmax': [0], 'Softplus': [0], 'Less': None, 'LessOrEqual': None, 'Greater': None,
           'GreaterOrEqual': None, 'Equal': None, 'Clip': [0], 'ReduceMin': [0], 'ReduceMax': [0], 'ReduceSum': [0], 'MaxPool': [0], 'ArgMax': [0], 'Sqrt': [0], 'Log': [0], 'Reciprocal': [0]}
# integer operations exact at any magnitude
EXACT = ('Min', 'Max', 'Abs', 'Sign', 'Less', 'LessOrEqual', 'Greater', 'GreaterOrEqual', 'Equal', 'Clip', 'ReduceMin', 'ReduceMax', 'ArgMax', 'Add', 'Sub', 'ReduceSum', 'Neg')
INTS = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64}


@st.composite
def extreme_case(draw):
    """Cases with infinities, NaN, extreme and exactly representable large values."""
    op = draw(st.sampled_from(sorted(MOVED) + sorted(EXTREME)))
    c = GEN[op](draw)
    if draw(st.integers(1, 2)) == 2:
        c = retype(draw, c, False)
    which = MOVED[op] if op in MOVED else EXTREME[op]
    for i in range(len(c['ins'])) if which is None else which:
        x = c['ins'][i] if i < len(c['ins']) else None
        if not x or 'seed' not in x[2] or i in c['const']:
            continue
        if x[0] in FLOATS:
            v = [0.0, 'inf', 'inf', 60.0, 1e-30 if x[0] != 'f16' else 1e-4] + ([1e4, 3e38, 1.5e-42] if x[0] in ('f32', 'f64') else [])
            v += ['-inf', -60.0, -0.0] if op not in ('Sqrt', 'Log') else []
            v += ['nan'] if op in MOVED else []
            if op == 'Clip' and c['opset'] < 11:
                v = [60.0, -60.0, 1e4]   # the old attribute's defaults bound infinities too, runtimes differ
        elif x[0] in INTS:
            b = INTS[x[0]]
            v = [2 ** (b - 2) + 1, 2 ** (b - 2) - 1, -2 ** (b - 2) - 1]
            if op in MOVED:
                v += [2 ** (b - 1) - 1, -2 ** (b - 1)]
            if op not in MOVED and op not in EXACT:
                continue
            if op == 'ReduceSum' or op in ('Add', 'Sub'):
                v = [2 ** (b - 4) + 1, -2 ** (b - 4) - 3]
        else:
            continue
        x[2]['sp'] = draw(st.lists(st.sampled_from(v), min_size=1, max_size=4))
    return c


def training(c):
    """Dropout that drops: its values are random."""
    return c['op'] == 'Dropout' and len(c['ins']) > 2 and bool(np.asarray(arr(*c['ins'][2])).reshape(()))


def omit(draw, c, which):
    """Sometimes leave out optional outputs before the last one."""
    o = [i for i in which if draw(st.integers(1, 3)) == 3]
    if o:
        c['omit'] = o
    return c


def outs_of(c):
    """Names of the outputs that are not left out."""
    return ['o%d' % i for i in range(c['n']) if i not in c.get('omit', ())]


def build_case(c, const=(), consumer=False):
    """-> (model, feeds, output names). const: input indices stored as initializers."""
    ins, inits, names, feeds = [], [], [], {}
    for i, x in enumerate(c['ins']):
        if x is None:
            names.append('')
            continue
        n = 'i%d' % i
        names.append(n)
        a = arr(*x)
        if i in const:
            inits.append(tensor_proto(n, a))
        else:
            ins.append(vinfo(n, x[0], list(x[1])))
            feeds[n] = a
    while names and names[-1] == '':
        names.pop()
    outs = outs_of(c)
    named = ['' if i in c.get('omit', ()) else 'o%d' % i for i in range(c['n'])]
    node = make_node(dict(op=c['op'], name='node', domain=c.get('domain', ''), **{'in': names}, out=named, attrs=c['attrs']))
    g = helper.make_graph([node], 'g', ins, [], inits)
    m = helper.make_model(g, producer_name='vt')
    m.ir_version = 8
    del m.opset_import[:]
    m.opset_import.append(helper.make_opsetid('', c['opset']))
    if c.get('domain'):
        m.opset_import.append(helper.make_opsetid(c['domain'], 1))
    for o in outs:
        m.graph.output.append(helper.make_empty_tensor_value_info(o))
    return m, feeds, outs
