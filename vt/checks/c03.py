"""C03: whole-model shape inference against execution."""
from hypothesis import strategies as st
from ..core import *
from ..om import *
from .. import gen
import onnx_tool

PROPERTY = 'C03'
TECHNIQUE = 'property-based testing: generated multi-node graphs, differential oracle (shape and type of every tensor in reference execution)'
LEVEL_NOTE = 'random search over graphs of up to about 30 nodes and small shapes; trusts the ReferenceEvaluator'
RULE = ('A case is a generated valid graph (element-wise, convolution, pooling, matmul, normalization, movement, reduction, multi-output, '
        'constant and shape-computing blocks, shared weights, several consumers, correct or stale value_info) and two assignments of its '
        'symbolic dimensions. After shape inference at an assignment every tensor produced in reference execution must be known with '
        'exactly its executed shape and element type. Non-trivial: at least 3 nodes executed.')
ASSUMPTIONS = ['volume-0 dynamic dimensions are not generated', 'graphs whose shapes depend on data values are not generated']


def compare(g, vals, what, all_=True):
    for n, a in vals.items():
        if n not in g.tensormap:
            require(not all_, '%s: tensor %s is not in the loaded graph', what, n)
            continue
        t = g.tensormap[n]
        s = t.get_shape()
        require(list(s) == list(a.shape), '%s: tensor %s inferred %s, executed %s', what, n, list(s), list(a.shape))
        require(np.dtype(t.dtype) == a.dtype, '%s: tensor %s inferred type %s, executed %s', what, n, np.dtype(t.dtype), a.dtype)


def check(case):
    c = case['g']
    model = gen.model_of(c)
    k = case['k']
    feeds = gen.feeds_of(c, k)
    vals = gen.ref_tensors(c, k, model)
    cfg = {'verbose': False}
    if case['fold']:
        cfg['constant_folding'] = True
    how = case['how']
    m = model
    if how == 'static':
        m = onnx.ModelProto(); m.CopyFrom(model)
        for i in m.graph.input:
            if i.name not in feeds:  # a weight
                continue
            for d, v in zip(i.type.tensor_type.shape.dim, feeds[i.name].shape):
                d.dim_value = v
    with sut('loading'):
        mod = onnx_tool.Model(m, cfg)
    with sut('shape_infer'):
        if how == 'static':
            mod.graph.shape_infer()
        elif how == 'zeros':
            mod.graph.shape_infer(gen.shapes_in(c, k))
        else:
            mod.graph.shape_infer(feeds)
    if case['fold']:
        used = {i.name for i in model.graph.input} | set(c['meta']['const'])
        for n in c['spec']['nodes']:
            if n['name'] and n['name'] in mod.graph.nodemap:
                used |= set(n['out']) - {''}
        used |= {o.name for o in model.graph.output}
        compare(mod.graph, {n: v for n, v in vals.items() if n in used or n in mod.graph.tensormap}, 'shape inference', False)
        for o in model.graph.output:
            require(o.name in mod.graph.tensormap, 'output %s lost', o.name)
    else:
        compare(mod.graph, vals, 'shape inference')
    return Info(len(c['spec']['nodes']) >= 3, c['meta']['blocks'] + [how])


@st.composite
def cases(draw):
    g = gen.graph(draw, {'n': (1, 8)})
    return dict(g=g, k=draw(st.integers(0, 1)), how=draw(st.sampled_from(['zeros', 'data', 'static'])), fold=draw(st.integers(0, 3)) == 0)


@st.composite
def shape_cases(draw):
    g = gen.graph(draw, {'n': (1, 6), 'blocks': ['shape', 'shape', 'move', 'ew', 'nn']})
    return dict(g=g, k=draw(st.integers(0, 1)), how=draw(st.sampled_from(['zeros', 'data', 'static'])), fold=draw(st.integers(0, 3)) == 0)


SUBS = [Sub('graph', cases, check, 16000, 200000), Sub('computed', shape_cases, check, 8000, 100000)]
