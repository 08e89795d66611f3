"""C08: what normal, no-shape and shape-only saves record."""
import os
from hypothesis import strategies as st
from ..core import *
from ..om import *
from .. import gen
from .c06 import cmp_nodes, cmp_node, cmp_io
import onnx_tool

PROPERTY = 'C08'
TECHNIQUE = 'property-based testing: generated models saved in three modes, differential oracle (executed shapes and types), metamorphic relations between the saves and reload'
LEVEL_NOTE = 'random search over generated graphs; trusts onnx.checker and the ReferenceEvaluator'
RULE = ('A case is a generated model, an assignment of its symbolic dimensions and the way it is saved (Graph/Model/model_profile). The normal save '
        'must record the executed shape and type of every intermediate, the no-shape save must equal it without value_info, the shape-only save '
        'must hold no weight data but all shapes, load again and infer and profile to the same figures. Non-trivial: at least 2 nodes.')
ASSUMPTIONS = ['a shape-only save cannot be re-inferred when a shape is read from a weight value (the weight data is gone by design): '
               'constants that determine shapes are generated as Constant nodes or attributes']


def decls(m):
    d = {}
    for v in list(m.graph.value_info) + list(m.graph.input) + list(m.graph.output):
        d.setdefault(v.name, v)
    return d


def check(case):
    c = case['g']
    model = gen.model_of(c)
    k = case['k']
    vals = gen.ref_tensors(c, k, model)
    feeds = gen.feeds_of(c, k)
    ref = gen.ref_ok(model, feeds)
    ins = gen.shapes_in(c, k)

    def load():
        with sut('loading'):
            m = onnx_tool.Model(model, {'verbose': False})
        with sut('shape_infer'):
            m.graph.shape_infer(ins)
        return m
    m = load()
    with scratch() as d:
        f = [os.path.join(d, n + '.onnx') for n in ('normal', 'noshape', 'shapeonly')]
        with sut('saving'):
            if case['fresh']:
                m.save_model(f[0])
                load().save_model(f[1], no_shape=True)
                load().save_model(f[2], shape_only=True)
            else:
                for w in case['order']:
                    m.save_model(f[w], no_shape=w == 1, shape_only=w == 2)
        for x in f:
            require(os.path.exists(x), 'nothing was saved')
        normal, noshape, shapes = [onnx.load(x) for x in f]
    for s in (normal, noshape, shapes):
        check_valid(s)
        cmp_nodes(model.graph.node, s.graph.node)
    # normal: shapes and types of all intermediates
    d = {v.name: v for v in normal.graph.value_info}
    require(len(d) == len(normal.graph.value_info), 'value_info repeats a tensor')
    io = {i.name for i in normal.graph.input} | {o.name for o in normal.graph.output}
    made = [o for n in model.graph.node for o in n.output if o]
    for n in made:
        if n in io:
            continue
        require(n in d, 'normal save: no shape recorded for %s', n)
        if n in vals:
            require(dims_of(d[n]) == list(vals[n].shape), 'normal save records %s for %s, executed %s', dims_of(d[n]), n, list(vals[n].shape))
            require(d[n].type.tensor_type.elem_type == ptdt(NP2DT[vals[n].dtype]), 'normal save records type %d for %s, executed %s',
                    d[n].type.tensor_type.elem_type, n, vals[n].dtype)
    for o in list(normal.graph.output) + list(normal.graph.input):
        a = vals.get(o.name, feeds.get(o.name))
        if a is not None:
            require(dims_of(o) is None or len(dims_of(o)) == a.ndim and all(p is None or isinstance(p, str) or p == q for p, q in zip(dims_of(o), a.shape)),
                    'normal save: %s recorded as %s, executed %s', o.name, dims_of(o), list(a.shape))
            require(o.type.tensor_type.elem_type == ptdt(NP2DT[a.dtype]), 'normal save: type of %s', o.name)
    # no shapes
    require(len(noshape.graph.value_info) == 0, 'no-shape save records %s', [v.name for v in noshape.graph.value_info])
    cmp_io(normal.graph.input, noshape.graph.input, 'no-shape inputs')
    cmp_io(normal.graph.output, noshape.graph.output, 'no-shape outputs')
    a, b = [{i.name: onnx.numpy_helper.to_array(i) for i in s.graph.initializer} for s in (normal, noshape)]
    require(sorted(a) == sorted(b), 'no-shape save has weights %s, the normal one %s', sorted(b), sorted(a))
    for n in a:
        require(bits_equal(a[n], b[n]), 'no-shape save: weight %s', n)
    for s, what in ((normal, 'normal save'), (noshape, 'no-shape save')):
        got = gen.ref_outputs(s, feed(s, feeds), what)
        for o, x, y in zip(model.graph.output, ref, got):
            require(bits_equal(x, y), '%s: output %s differs', what, o.name)
    # shapes only
    require(len(shapes.graph.initializer) == 0, 'shape-only save contains weights %s', [i.name for i in shapes.graph.initializer])
    read = {i for n in model.graph.node for i in n.input}
    sd = decls(shapes)
    for i in model.graph.initializer:
        if i.name in read:
            require(i.name in sd, 'shape-only save does not describe weight %s', i.name)
            require(dims_of(sd[i.name]) == list(i.dims) and sd[i.name].type.tensor_type.elem_type == i.data_type,
                    'shape-only save describes weight %s as %s type %d, it is %s type %d', i.name, dims_of(sd[i.name]),
                    sd[i.name].type.tensor_type.elem_type, list(i.dims), i.data_type)
    for n in made:
        require(n in sd, 'shape-only save does not describe %s', n)
        if n in vals:
            require(dims_of(sd[n]) == list(vals[n].shape), 'shape-only save records %s for %s, executed %s', dims_of(sd[n]), n, list(vals[n].shape))
            require(sd[n].type.tensor_type.elem_type == ptdt(NP2DT[vals[n].dtype]), 'shape-only save records type %d for %s, executed %s',
                    sd[n].type.tensor_type.elem_type, n, vals[n].dtype)
    with sut('reloading the shape-only save'):
        r = onnx_tool.Model(shapes, {'verbose': False})
    with sut('inferring the shape-only save'):
        r.graph.shape_infer()
    for n in made:
        if n in vals:
            t = r.graph.tensormap[n]
            require(list(t.get_shape()) == list(vals[n].shape), 'shape-only reload infers %s for %s, executed %s', t.get_shape(), n, list(vals[n].shape))
            require(np.dtype(t.dtype) == vals[n].dtype, 'shape-only reload infers type %s for %s', t.dtype, n)
    m = load()
    with sut('profiling'):
        m.graph.profile()
    with sut('profiling the shape-only save'):
        r.graph.profile()
    for x, y, n in zip(m.graph.nodemap.values(), r.graph.nodemap.values(), model.graph.node):
        require(x.macs == y.macs, 'MACs of %s %s: %s from the model, %s from its shape-only save', n.op_type, x.name, x.macs, y.macs)
    require(m.graph.macs[0] == r.graph.macs[0], 'total MACs %s and %s', m.graph.macs[0], r.graph.macs[0])
    return Info(len(c['spec']['nodes']) >= 2, c['meta']['blocks'])


@st.composite
def cases(draw):
    g = gen.graph(draw, {'n': (1, 6), 'shape_const_nodes': True, 'unused_inputs': True})
    return dict(g=g, k=draw(st.integers(0, 1)), fresh=draw(st.booleans()), order=draw(st.permutations([0, 1, 2])))


SUBS = [Sub('saves', cases, check, 8000, 100000)]
