"""C21: weight quantization stays within half a step."""
import os
from hypothesis import strategies as st
from ..core import *
from ..om import *
from .c06 import cmp_node
from .c19 import records
import onnx_tool
from onnx_tool.quantization import quantize, pack_4bits, graph_quantize

PROPERTY = 'C21'
TECHNIQUE = 'property-based testing: generated weights and graphs, oracle = independent dequantization with the half-step bound, exact unpacking, reference node list'
LEVEL_NOTE = 'random search over 2-D weights up to 9x70 and graphs of up to 6 nodes'
RULE = ('A case is a 2-D weight (zero, constant, one-sided, mixed magnitudes, zero rows and blocks), bits, scheme and block; or an integer array to pack; or a graph whose weights (2-D, '
        'other ranks, integer, shared, unused, graph outputs) are all quantized. Integers must lie in the format, every dequantized value within half a step of the original, and '
        'the rest of the graph unchanged. Non-trivial: the weight has a non-zero value (graph: a weight was quantized).')
ASSUMPTIONS = ['weights are finite with magnitudes between 1e-20 and 1e20, or zero; for graphs with 4 bits (scales are stored in half precision) between 1e-2 and 1e4',
               'low half-byte first', 'the second operand of MatMul and Gemm is stored output channels first, as documented in quantization.py; a weight whose consumers need different layouts in either', 'a graph output, and a weight nobody reads, is not eligible']


def weight(case):
    oc, ic = case['shape']
    r = np.random.RandomState(case['seed'])
    k = case['kind']
    a = r.randn(oc, ic)
    if k == 'zero':
        a[:] = 0
    elif k == 'positive':
        a = np.abs(a) + case['off']
    elif k == 'negative':
        a = -np.abs(a) - case['off']
    elif k == 'const':
        a[:] = case['off'] - 0.5
    elif k == 'few':
        a = r.randint(-3, 4, (oc, ic)) / 2
    elif k == 'rowscale':
        a *= 10.0 ** r.randint(-case['mag'], case['mag'] + 1, (oc, 1))
    elif k == 'scale':
        a *= 10.0 ** r.randint(-case['mag'], case['mag'] + 1, (oc, ic))
    elif k == 'ties':
        a = r.randint(-15, 16, (oc, ic)) * 0.5
    a = a * 10.0 ** case['exp']
    if case['zrow'] == 1:
        a[r.randint(0, oc)] = 0
    elif case['zrow'] == 2:
        a[:, :max(1, case['block'])] = 0
    elif case['zrow'] == 3:
        a[r.rand(oc, ic) < 0.7] = 0
    return a.astype(npdt(case['dtype']))


def groups(shape, block):
    """index of the scale of every element"""
    idx = np.indices(shape)
    if block == 0:
        return (np.zeros(shape, int),), ()
    if block == -1:
        return (idx[0],), (shape[0],)
    return (idx[0], idx[1] // block), (shape[0], -(-shape[1] // block))


def within(w, Q, scale, zp, block, typ, bits, what, slack=1e-3):
    Q, scale, zp = np.asarray(Q), np.asarray(scale, np.float64), np.asarray(zp)
    sel, sshape = groups(w.shape, block)
    require(Q.shape == w.shape, '%s: integers have shape %s', what, Q.shape)
    require(scale.shape == sshape, '%s: scales have shape %s, expected %s', what, scale.shape, sshape)
    lo, hi = (-2 ** (bits - 1), 2 ** (bits - 1) - 1) if typ == 'sym' else (0, 2 ** bits - 1)
    require(Q.min() >= lo and Q.max() <= hi, '%s: integers %d..%d, the format has %d..%d', what, Q.min(), Q.max(), lo, hi)
    require(bool(np.isfinite(scale).all()) and bool((scale >= 0).all()), '%s: scales %s', what, scale)
    s = scale[sel] if sshape else scale
    z = 0
    if typ == 'asym':
        require(zp.shape == sshape, '%s: zero points have shape %s, expected %s', what, zp.shape, sshape)
        require(zp.min() >= lo and zp.max() <= hi, '%s: zero points %s', what, zp)
        z = zp.astype(np.int64)[sel] if sshape else int(zp)
    elif zp is not None and zp.dtype != object:
        require(not zp.any(), '%s: symmetric with zero points %s', what, zp)
    d = (Q.astype(np.int64) - z) * s
    x = w.astype(np.float64)
    err = np.abs(d - x)
    bound = 0.5 * s + slack * s + 1e-6 * np.abs(x)
    # the step must be that of the data: the largest magnitude of a group over the largest integer
    require(bool((err <= bound).all()), '%s: value %r becomes %r, step %r', what, x[err > bound][:1], d[err > bound][:1], np.broadcast_to(s, x.shape)[err > bound][:1])
    top = (2 ** (bits - 1) - 1) if typ == 'sym' else hi
    span = np.zeros(sshape)
    flat = sel if sshape else ()
    if typ == 'sym':
        np.maximum.at(span, flat, np.abs(x)) if sshape else span.__setitem__((), np.abs(x).max())
    else:
        p, n = np.zeros(sshape), np.zeros(sshape)
        if sshape:
            np.maximum.at(p, flat, x)
            np.minimum.at(n, flat, x)
            span = p - n
        else:
            span = max(x.max(), 0.0) - min(x.min(), 0.0)
    step = span / top
    nz = np.asarray(span) > 0
    require(bool((np.asarray(scale)[nz] <= np.asarray(step)[nz] * (1 + 2 * slack)).all()) if np.any(nz) else True, '%s: steps %s, the data needs %s', what, scale, step)


def check(case):
    w = weight(case)
    keep = w.copy()
    what = 'quantize(block=%d, %s, %d bits)' % (case['block'], case['type'], case['bits'])
    with sut(what):
        Q, scale, zp = quantize(w, case['block'], case['type'], case['bits'])
    require(bits_equal(w, keep), '%s changed its argument', what)
    within(w, Q, scale, zp, case['block'], case['type'], case['bits'], what)
    return Info(bool(w.any()), [case['kind'], '%s%d' % (case['type'], case['bits']), 'block' + ('>0' if case['block'] > 0 else str(case['block']))])


def unpack(p, n, signed):
    lo, hi = (p & 15).astype(np.int64), (p >> 4).astype(np.int64)
    q = np.stack([lo, hi], -1).reshape(p.shape[:-1] + (-1,))
    if signed:
        q = np.where(q > 7, q - 16, q)
    return q[..., :n]


def check_pack(case):
    r = np.random.RandomState(case['seed'])
    signed = case['signed']
    q = r.randint(-8 if signed else 0, 8 if signed else 16, case['shape']).astype([np.int32, np.int8, np.int64][case['t']])
    keep = q.copy()
    with sut('pack_4bits'):
        p = pack_4bits(q)
    require(p.dtype == np.uint8, 'packed into %s', p.dtype)
    n = case['shape'][-1]
    require(p.shape == tuple(case['shape'][:-1]) + ((n + 1) // 2,), 'packing %s gives %s', case['shape'], p.shape)
    u = unpack(p, n, signed)
    require(bool((u == q).all()), 'packed values differ: %s from %s', u.tolist(), q.tolist())
    require(bits_equal(keep, q), 'pack_4bits changed its argument')
    return Info(True, ['signed' if signed else 'unsigned', 'rank%d' % q.ndim, 'odd' if n % 2 else 'even'])


def build_case(case):
    nodes, inits, ws = [], [], {}
    ic = case['ic']
    outs, extra = [], []
    x, c = 'x', ic

    def w(shape, k, typ='f32'):
        share = case['share'] and (tuple(shape), typ) in ws
        if share:
            return ws[tuple(shape), typ]
        n = 'w%d' % len(inits)
        if len(shape) == 2 and typ in FLOATS:
            a = weight(dict(case['w'][k % len(case['w'])], shape=shape, dtype=typ, block=case['block']))
        else:
            a = arr(typ, shape, {'seed': k + 1, 'lo': 0, 'hi': 1})
        inits.append((n, a))
        ws[tuple(shape), typ] = n
        return n
    for k, (op, v) in enumerate(case['nodes']):
        y = 't%d' % k
        co = [c, 3, 4, 6][v % 4]
        ft = ['f32', 'f32', 'f16', 'f64'][v % 4] if case['types'] else 'f32'
        if ft != 'f32' and op in ('MatMul', 'Gemm', 'Gather'):      # the tool does not run the model: keep it valid anyway
            ft = 'f32'
        at = {}
        if op == 'MatMul':
            ins = [x, w([c, co], k)]
            c = co
        elif op == 'Gemm':
            tb = v % 2
            ins = [x, w([co, c] if tb else [c, co], k)]
            if v % 3 == 0:
                ins.append(w([co], k))
            elif v % 3 == 1:
                ins.append(w([1, co], k))
            at = {'transB': tb} if tb or v % 5 else {}
            c = co
        elif op == 'Gather':
            nodes.append(dict(op='Gather', **{'in': [w([5, c], k), w([2], k, 'i64')], 'out': ['g%d' % k]}, attrs={}, name='n%da' % k))
            op, ins = 'Add', [x, 'g%d' % k]
        elif op == 'Add':
            ins = [x, w([[2, c], [1, c], [c], []][v % 4], k)]
        elif op == 'Both':
            op = 'MatMul'
            ins = [x, 'b%d' % k]
            s = w([c, c], k)
            nodes.append(dict(op='MatMul', **{'in': [s, s], 'out': ['b%d' % k]}, attrs={}, name='n%da' % k))
        elif op == 'If':
            s = w([c, c], k)
            if not any(n == 'cond' for n, _ in inits):
                inits.append(('cond', np.array(True)))
            br = [dict(gname=n, inputs=[], inits=[], nodes=[dict(op='MatMul', **{'in': [x, s], 'out': [y + n]}, attrs={}, name='')], outputs=[[y + n, 'f32', None]]) for n in ('a', 'b')]
            ins, at = ['cond'], {'then_branch': {'graph': br[0]}, 'else_branch': {'graph': br[1]}}
        else:
            ins = [x]
        nodes.append(dict(op=op, **{'in': ins, 'out': [y]}, attrs=at, name='n%d' % k if case['named'] else ''))
        x = y
        outs = [[y, 'f32', [2, c]]]
    for k, (t, s) in enumerate(case['unused']):
        inits.append(('u%d' % k, weight(dict(case['w'][0], shape=s, dtype=t, block=case['block'])) if t in FLOATS and len(s) == 2 else arr(t, s, {'seed': k})))
    two = [n for n, a in inits if a.ndim == 2 and a.dtype == np.float32]
    if case['wout'] and two:
        a = dict(inits)[two[0]]
        outs.append([two[0], 'f32', list(a.shape)])
    m = build(dict(nodes=nodes, inits=[], inputs=[['x', 'f32', [2, ic]]], outputs=outs, opset=17))
    for n, a in inits:
        m.graph.initializer.append(tensor_proto(n, a, case['typed']))
    return m


def decode(q, sc, zp, w, block, typ, bits, what):
    n = w.shape[-1]
    if bits == 4:
        require(q.dtype == np.uint8 and q.shape == (w.shape[0], (n + 1) // 2), '%s: packed into %s %s', what, q.dtype, q.shape)
        q = unpack(q, n, typ == 'sym')
    else:
        require(q.dtype == (np.int8 if typ == 'sym' else np.uint8), '%s: integers of type %s', what, q.dtype)
    within(w, q, sc, zp if typ == 'asym' else np.array(None), block, typ, bits, what, 1e-3 if bits == 8 else 2e-2)


def check_graph(case):
    model = build_case(case)
    try:
        onnx.checker.check_model(model)
    except Exception as e:
        raise HarnessError(str(e))
    block, typ, bits = case['block'], case['type'], case['bits']
    nodes = list(model.graph.node)
    outputs = [o.name for o in model.graph.output]
    init = {i.name: onnx.numpy_helper.to_array(i) for i in model.graph.initializer}
    captured = {t for n in nodes if n.op_type == 'If' for a in n.attribute if a.type == onnx.AttributeProto.GRAPH for x in a.g.node for t in x.input}
    users = {}
    for i, n in enumerate(nodes):
        for t in n.input:
            users.setdefault(t, []).append(i)
    elig = {t for t, a in init.items() if a.ndim == 2 and a.dtype.kind == 'f' and t in users and t not in captured and t not in outputs}
    with sut('loading'):
        m = onnx_tool.Model(model, {'verbose': False})
    g = m.graph
    names = list(g.nodemap)
    before = list(g.initials)
    with sut('graph_quantize'):
        for key in (g.initials if case['direct'] else before):
            graph_quantize(g, key, block=block, type=typ, bits=bits)
    records(g, 'after quantizing')
    with scratch() as d:
        f = os.path.join(d, 'o.onnx')
        with sut('save_model'):
            m.save_model(f)
        s = onnx.load(f)
    require(list(g.nodemap) == names, 'nodes are %s, they were %s', list(g.nodemap), names)
    require([o.name for o in s.graph.output] == outputs, 'outputs are %s', [o.name for o in s.graph.output])
    require([i.name for i in s.graph.input] == ['x'], 'inputs of the saved model are %s', [i.name for i in s.graph.input])
    got = {i.name: onnx.numpy_helper.to_array(i) for i in s.graph.initializer}
    repl = {}
    for n, x in zip(nodes, s.graph.node):
        y, w = onnx.NodeProto(), onnx.NodeProto()
        y.CopyFrom(x)
        w.CopyFrom(n)
        k = 0
        for t in n.input:
            if t not in elig:
                require(k < len(x.input) and x.input[k] == t, 'input %s of node %s is %s', t, n.op_type, list(x.input))
                k += 1
                continue
            cnt = 3 if typ == 'asym' else 2
            r = tuple(x.input[k:k + cnt])
            k += cnt
            require(len(r) == cnt and all(q in got for q in r), 'weight %s of %s is replaced by %s (inputs %s)', t, n.op_type, r, list(x.input))
            require(repl.setdefault(t, r) == r, 'weight %s is replaced by %s and %s', t, repl[t], r)
        require(k == len(x.input), 'node %s reads %s', n.op_type, list(x.input))
        del y.input[:]
        y.input.extend(n.input)
        at = {a.name: a for a in x.attribute}
        del y.attribute[:]
        y.attribute.extend(a for a in x.attribute if not a.name.startswith('OTQ_'))
        cmp_node(w, y, 'node %s' % n.op_type, names=bool(n.name))
        if not any(t in elig for t in n.input):
            require(len(y.attribute) == len(x.attribute), 'node %s reads no quantized weight but has attributes %s', n.op_type, sorted(at))
    for t in elig:
        require(t in repl, 'weight %s %s is not quantized', t, init[t].shape)
        require(t not in got, 'weight %s is quantized but still there', t)
        owners = [s.graph.node[i] for i in users[t]]
        info = [{a.name: onnx.helper.get_attribute_value(a) for a in o.attribute if a.name.startswith('OTQ_')} for o in owners]
        require({'OTQ_Block': block, 'OTQ_Type': typ.encode(), 'OTQ_Bits': bits} in info, 'no consumer of %s describes its quantization: %s', t, info)
        r = [got[x] for x in repl[t]]
        zp = r[2] if typ == 'asym' else None
        w = init[t].astype(np.float32)
        # stored OC x IC (see quantization.py) for matrix products; when the consumers disagree either way
        lay = {('T' if not any(a.name == 'transB' and a.i for a in nodes[i].attribute) else 'N') if nodes[i].op_type in ('MatMul', 'Gemm') and list(nodes[i].input).index(t) == 1
               and list(nodes[i].input).count(t) == 1 else '?' if nodes[i].op_type in ('MatMul', 'Gemm') else 'N' for i in users[t]}
        cands = {'T': [w.T], 'N': [w]}.get(lay.pop() if len(lay) == 1 else '?', [w, w.T])
        err = None
        for c in cands:
            try:
                decode(r[0], r[1], zp, c, block, typ, bits, 'weight %s' % t)
                err = None
                break
            except Violation as e:
                err = err or e
        if err:
            raise err
    for t, a in init.items():
        if t not in elig and (t in got or t in users or t in outputs or t in captured):
            require(t in got and bits_equal(got[t], a), 'weight %s is not eligible but changed', t)
        if t not in elig:
            require(t in g.initials and bits_equal(g.tensormap[t].numpy, a), 'weight %s is not eligible but changed', t)
    return Info(bool(elig), ['%s%d' % (typ, bits), 'elig%d' % min(len(elig), 4)] + (['shared'] if any(len(users[t]) > 1 for t in elig) else []))


BLOCKS = st.sampled_from([0, -1, -1, 1, 2, 3, 4, 7, 8, 16, 32])


@st.composite
def wdesc(draw, exp=(-18, 18)):
    return dict(seed=draw(st.integers(0, 2 ** 16)), kind=draw(st.sampled_from(['normal', 'normal', 'zero', 'positive', 'negative', 'const', 'few', 'rowscale', 'scale', 'ties'])),
                off=draw(st.sampled_from([0, 0.5, 1, 10])), mag=draw(st.integers(0, 3)), zrow=draw(st.sampled_from([0, 0, 0, 1, 2, 3])),
                exp=draw(st.one_of(st.just(0), st.integers(*exp))))


@st.composite
def cases(draw):
    return dict(draw(wdesc()), shape=[draw(st.integers(1, 9)), draw(st.one_of(st.integers(1, 20), st.integers(1, 70)))], block=draw(BLOCKS), type=draw(st.sampled_from(['sym', 'asym'])),
                bits=draw(st.sampled_from([8, 4])), dtype=draw(st.sampled_from(['f32', 'f32', 'f64'])))


@st.composite
def pack_cases(draw):
    return dict(shape=draw(st.lists(st.integers(1, 4), max_size=2)) + [draw(st.integers(1, 17))], seed=draw(st.integers(0, 2 ** 16)), signed=draw(st.booleans()), t=draw(st.integers(0, 2)))


@st.composite
def graph_cases(draw):
    return dict(ic=draw(st.integers(1, 7)), nodes=draw(st.lists(st.tuples(st.sampled_from(['MatMul', 'MatMul', 'Gemm', 'Gemm', 'Gather', 'Add', 'Both', 'Relu', 'If']), st.integers(0, 11)), min_size=1, max_size=5)),
                share=draw(st.booleans()), types=False, named=draw(st.booleans()), typed=draw(st.booleans()), wout=draw(st.integers(0, 9)) == 0, direct=draw(st.booleans()),
                unused=draw(st.lists(st.tuples(st.sampled_from(['f32', 'i64', 'f16', 'f64']), st.sampled_from([[2, 3], [4], [], [1, 2, 2]])), max_size=2 if draw(st.integers(0, 3)) == 0 else 0)),
                w=draw(st.lists(wdesc(exp=(0, 0)).filter(lambda d: d['kind'] not in ('rowscale', 'scale')), min_size=1, max_size=3)),
                block=draw(BLOCKS), type=draw(st.sampled_from(['sym', 'asym'])), bits=draw(st.sampled_from([8, 4])))


SUBS = [Sub('quantize', cases, check, 10000, 150000), Sub('pack', pack_cases, check_pack, 4000, 50000), Sub('graph', graph_cases, check_graph, 6000, 80000)]
