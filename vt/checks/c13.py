"""C13: profile figures against an independent implementation of the documented cost model."""
from hypothesis import strategies as st
from ..core import *
from ..om import *
from .. import ops, oracle, gen, cost
from .c01 import expectation
import onnx_tool

PROPERTY = 'C13'
TECHNIQUE = 'property-based testing: generated single-operator and whole models, oracle = independent implementation of the documented cost model applied to the executed shapes'
LEVEL_NOTE = 'random search over operators, attributes, shapes, element types, static/dynamic inputs and graphs; the cost table is the documented one re-stated in vt/cost.py'
RULE = ('A case is one operator (any generated attributes, shapes, element types, each weight-like input static or dynamic) or a generated model '
        'with an assignment of its dimensions. After shape inference and profiling, the MACs, parameters and memory of each node and the totals are '
        'compared with vt/cost.py applied to the shapes of reference execution. Non-trivial: at least one node with non-zero MACs or parameters.')
ASSUMPTIONS = ['a scalar (rank 0) tensor counts as 0 elements (the convention of the tool)', 'operators the documentation gives no cost for count 0 MACs '
               '(Erf, ArgMax, TopK, scatter and sampling operators); Tanh and Atan count twice their table value, as in the tool',
               'an embedding lookup (Gather from a static table) counts the rows it reads as static elements']


def esize(dt):
    return np.dtype(dt).itemsize


def memory(op, ins, outs, static):
    """ins, outs: (shape, numpy dtype) or None"""
    m = sum(cost.vol(o[0]) * esize(o[1]) for o in outs if o is not None)
    for i, x in enumerate(ins):
        if x is None or not static[i]:
            continue
        if op == 'Gather' and i == 0:
            m += cost.vol(outs[0][0]) * esize(x[1])
        else:
            m += cost.vol(x[0]) * esize(x[1])
    return m


def compare(what, node, op, attrs, ins, outs, static):
    want = cost.macs(op, attrs, [None if x is None else list(x[0]) for x in ins], [None if o is None else list(o[0]) for o in outs])
    require(node.macs == want, '%s: %s has %s MACs, the cost model gives %s (inputs %s, outputs %s)', what, op, node.macs, want,
            [x and list(x[0]) for x in ins], [o and list(o[0]) for o in outs])
    par = sum(cost.vol(x[0]) for x, s in zip(ins, static) if x is not None and s)
    require(node.params == par, '%s: %s has %s parameters, its static inputs have %s', what, op, node.params, par)
    mem = memory(op, ins, outs, static)
    # (a Gather from a static table with static indices is a constant, its memory is left open)
    require(node.memory == mem or op == 'Gather' and all(static), '%s: %s has memory %s, output plus static bytes are %s (inputs %s, outputs %s, static %s)', what, op, node.memory, mem,
            [x and (list(x[0]), str(x[1])) for x in ins], [o and (list(o[0]), str(o[1])) for o in outs], static)
    return want, par, node.memory


def totals(g, sums, initials):
    require(g.macs[0] == sums[0], 'total MACs %s, sum over nodes %s', g.macs[0], sums[0])
    require(g.params == sums[1], 'total parameters %s, sum over nodes %s', g.params, sums[1])
    require(g.memory == sums[2], 'total memory %s, sum over nodes %s', g.memory, sums[2])
    d = sum(initials.values())
    require(g.dedup_params == d, 'deduplicated parameters %s, the used weights have %s elements', g.dedup_params, d)


def check_op(case):
    c = case['c']
    exp = expectation(c)
    if c['op'] == 'NonZero' and 0 in exp[0].shape:
        raise Skip('all-zero NonZero')
    if c['op'] == 'BatchNormalization' and c['n'] > 1:
        raise Skip('cost of training')
    const = c['const'] if case['static'] else []
    if case['static'] and case['more']:
        const = sorted(set(const) | {i for i in range(1, len(c['ins'])) if c['ins'][i] is not None})
    model, feeds, _ = ops.build_case(c, const)
    for o, v, e in zip(ops.outs_of(c), model.graph.output, exp):
        v.CopyFrom(vinfo(o, e.dtype, list(e.shape)))
    with sut('loading'):
        m = onnx_tool.Model(model, {'verbose': False})
    with sut('shape inference of %s' % c['op']):
        m.graph.shape_infer(feeds)
    with sut('profiling %s' % c['op']):
        m.graph.profile()
    node = list(m.graph.nodemap.values())[0]
    ins = [None if x is None else (list(x[1]), npdt(x[0])) for x in c['ins']]
    static = [i in const for i in range(len(ins))]
    outs = [None] * c['n']
    for o, e in zip(ops.outs_of(c), exp):
        outs[int(o[1:])] = (e.shape, npdt(e.dtype))
    w = compare('operator', node, c['op'], c['attrs'], ins, outs, static)
    totals(m.graph, w, {i: cost.vol(x[0]) for i, x in enumerate(ins) if static[i] and x is not None})
    return Info(w[0] > 0 or w[1] > 0, [c['op']])


def static_tensors(model, folded):
    s = {i.name for i in model.graph.initializer}
    for n in model.graph.node:
        if n.op_type != 'DequantizeLinear' and all(i in s or i == '' for i in n.input):
            s |= set(n.output)
    return s


def check_graph(case):
    c = case['g']
    model = gen.model_of(c)
    k = case['k']
    vals = gen.ref_tensors(c, k, model)
    feeds = gen.feeds_of(c, k)
    vals = dict(vals, **feeds)
    vals.update({i.name: onnx.numpy_helper.to_array(i) for i in model.graph.initializer})
    cfg = {'verbose': False}
    if case['fold']:
        cfg['constant_folding'] = True
    with sut('loading'):
        m = onnx_tool.Model(model, cfg)
    with sut('shape_infer'):
        m.graph.shape_infer(gen.shapes_in(c, k))
    with sut('profiling'):
        m.graph.profile()
    if case['again']:
        with sut('profiling'):
            m.graph.profile()
    nodes = list(m.graph.nodemap.values())
    static = static_tensors(model, case['fold'])
    protos = list(model.graph.node)
    if case['fold']:
        protos = [n for n in protos if not set(n.output) - {''} <= static]
    require(len(protos) == len(nodes), 'the loaded graph has %d nodes, expected %d', len(nodes), len(protos))
    sums = [0, 0, 0]
    used = {}
    for n, x in zip(protos, nodes):
        if any(o and o not in vals for o in n.output):
            raise Skip('output not evaluated')
        attrs = {}
        for a in n.attribute:
            v = onnx.helper.get_attribute_value(a)
            attrs[a.name] = v.decode() if isinstance(v, bytes) else v
        ins = [None if not i else (list(vals[i].shape), vals[i].dtype) for i in n.input]
        outs = [None if not o else (list(vals[o].shape), vals[o].dtype) for o in n.output]
        st_ = [i in static for i in n.input]
        w = compare('graph node %s' % list(n.output), x, n.op_type, attrs, ins, outs, st_)
        sums = [a + b for a, b in zip(sums, w)]
        ini = static if case['fold'] else {i.name for i in model.graph.initializer}
        for i in n.input:
            if i in ini:
                used[i] = cost.vol(vals[i].shape)
    totals(m.graph, sums, used)
    return Info(sums[0] > 0 or sums[1] > 0, c['meta']['blocks'])


NOVAL = ('RandomUniformLike', 'RandomNormalLike')
ALL = sorted(ops.GEN)
HEAVY = ['Conv', 'MaxPool', 'AveragePool', 'ConvTranspose', 'MatMul', 'Gemm', 'Einsum', 'LSTM', 'GRU', 'LayerNormalization', 'QLinearMatMul', 'QLinearConv',
         'MatMulInteger', 'Sum', 'Max', 'Min', 'Gather']


@st.composite
def op_cases(draw, sel=None):
    c = draw(ops.op_case(ALL + HEAVY, True)) if sel is None else ops.GEN[sel](draw)
    return dict(c=c, static=draw(st.booleans()), more=draw(st.booleans()))


@st.composite
def graph_cases(draw):
    g = gen.graph(draw, {'n': (1, 7)})
    return dict(g=g, k=draw(st.integers(0, 1)), fold=draw(st.integers(0, 3)) == 0, again=draw(st.integers(0, 5)) == 0)


SUBS = [Sub('op', op_cases, check_op, 24000, 400000), Sub('graph', graph_cases, check_graph, 8000, 100000)]


def dev_ops(sub):
    return ALL


def dev_strategy(sub, op):
    return op_cases(op)
