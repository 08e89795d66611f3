"""C05: constant folding on load."""
from hypothesis import strategies as st
from ..core import *
from ..om import *
from .. import gen
from .c06 import roundtrip, cmp_nodes, cmp_node, cmp_io, cmp_versions, used_names, dims_of
import onnx_tool

PROPERTY = 'C05'
TECHNIQUE = 'property-based testing: generated graphs with constant sub-graphs, differential execution of original and folded model, independent constancy closure'
LEVEL_NOTE = 'random search over generated graphs; executed on one random input per symbolic-size assignment; trusts onnx.checker and the ReferenceEvaluator'
RULE = ('A case is a generated graph with chains of constant nodes (Constant nodes, arithmetic, movement, split, shape-like constants) joined '
        'to the data path or returned as graph outputs. It is loaded with constant folding and saved; the saved model is validated, its '
        'inputs and outputs compared, the set of removed nodes compared with an independently computed closure, and both models are executed '
        'at two assignments of the symbolic dimensions. Non-trivial: at least one node was folded away and one remained.')
ASSUMPTIONS = ['nodes with sub-graphs (If) and DequantizeLinear are not foldable, nor is what depends on them',
               'calls of model-local functions and random generators have no value to fold; other operators without a value implementation do not occur on constants only',
               'weights listed as overridable inputs (IR version 4 and later) are not generated', 'a folded graph output may state its real dimensions instead of the declared unknown or named ones']


def closure(model):
    const = {i.name for i in model.graph.initializer}
    if model.ir_version >= 4:
        const -= {i.name for i in model.graph.input}
    gone = []
    for i, n in enumerate(model.graph.node):
        sub = any(a.type in (onnx.AttributeProto.GRAPH, onnx.AttributeProto.GRAPHS) for a in n.attribute)
        if n.op_type != 'DequantizeLinear' and n.domain == '' and not n.op_type.startswith('Random') and not sub and all(x in const or x == '' for x in n.input):
            const.update(n.output)
            gone.append(i)
    return gone


def check(case):
    c = case['g']
    model = gen.model_of(c)
    refs = []
    for k in range(len(c['assign'])):
        f = gen.feeds_of(c, k)
        refs.append((f, gen.ref_ok(model, f)))
    saved = roundtrip(model, case['file'], {'constant_folding': True})
    check_valid(saved)
    used = used_names(model)
    ws = {i.name for i in model.graph.initializer}
    cmp_io([i for i in model.graph.input if i.name in used and i.name not in ws], [i for i in saved.graph.input if i.name not in {j.name for j in saved.graph.initializer}], 'graph inputs')
    gone = closure(model)
    # a folded output has known dimensions: stating them is as good as keeping the declared ones
    folded = {o for i in gone for o in model.graph.node[i].output}
    outs = []
    for i, o in enumerate(model.graph.output):
        w = onnx.ValueInfoProto()
        w.CopyFrom(o)
        if o.name in folded and i < len(saved.graph.output):
            real = refs[0][1][i].shape
            if dims_of(saved.graph.output[i]) == list(real):
                w.type.tensor_type.shape.CopyFrom(saved.graph.output[i].type.tensor_type.shape)
        outs.append(w)
    cmp_io(outs, saved.graph.output, 'graph outputs')
    cmp_versions(model, saved)
    kept = [n for i, n in enumerate(model.graph.node) if i not in gone]
    got = {tuple(n.output): n for n in saved.graph.node}
    for i in gone:
        n = model.graph.node[i]
        require(tuple(n.output) not in got, 'constant node %s -> %s is still in the saved model', n.op_type, list(n.output))
    for n in kept:
        require(tuple(n.output) in got, 'node %s -> %s is not constant but gone from the saved model', n.op_type, list(n.output))
    cmp_nodes(kept, saved.graph.node)
    for f, ref in refs:
        out = gen.ref_outputs(saved, feed(saved, f), 'folded model')
        for o, a, b in zip(model.graph.output, ref, out):
            require(a.dtype == b.dtype and same(a, b), 'output %s differs after folding', o.name)
    return Info(bool(gone) and bool(kept), c['meta']['blocks'] + (['constant output'] if any(o.name in c['meta']['const'] for o in model.graph.output) else []))


@st.composite
def cases(draw):
    g = gen.graph(draw, {'n': (1, 7), 'blocks': ['const', 'const', 'ew', 'move', 'mm', 'nn', 'red', 'logic', 'multi', 'quant', 'if', 'pass', 'shape', 'side', 'noise'],
                         'const_out': True, 'const_nodes': True, 'forms': ['fn', 'old']})
    return dict(g=g, file=draw(st.booleans()))


SUBS = [Sub('fold', cases, check, 16000, 200000)]
