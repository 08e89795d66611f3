"""C23: renaming input and output dimensions changes only these."""
import os
from hypothesis import strategies as st
from ..core import *
from ..om import *
from .. import gen
from . import c06, c03
import onnx_tool

PROPERTY = 'C23'
TECHNIQUE = 'property-based testing: generated models and dimension specifications, structural comparison with the specified edit and bit-exact differential execution'
LEVEL_NOTE = 'random search over generated graphs and specifications; trusts onnx.checker and the ReferenceEvaluator'
RULE = ('A case is a generated model and a specification for some of its inputs and outputs (also unknown and internal names, which change nothing). The saved model must have exactly the specified dimensions on '
        'the named tensors and every other dimension, type, node, weight and version of the original; it runs with the same results, and with every input fixed to the fed sizes the tool infers the executed '
        'shapes (sub "infer"). A specification of another rank is refused and nothing is saved. Non-trivial: a dimension changed.')
ASSUMPTIONS = ['a dimension name contains no "x" (the separator) and is not a number', 'dimensions of unused inputs are not compared: loading drops unused inputs', 'a weight returned as an output keeps its own shape: no specification is generated for it']


def apply_spec(io, spec):
    """value infos with the specified dimensions"""
    out, changed = [], False
    for v in io:
        w = onnx.ValueInfoProto(); w.CopyFrom(v)
        if v.name in spec:
            for d, s in zip(w.type.tensor_type.shape.dim, spec[v.name]):
                old = d.SerializeToString()
                d.Clear()
                if isinstance(s, int):
                    d.dim_value = s
                else:
                    d.dim_param = s
                changed |= d.SerializeToString() != old
        out.append(w)
    return out, changed


def modify(model, spec, file):
    with scratch() as d:
        src = onnx.ModelProto(); src.CopyFrom(model)
        if file:
            src = os.path.join(d, 'in.onnx')
            onnx.save_model(model, src)
        out = os.path.join(d, 'out.onnx')
        text = None if spec is None else {k: 'x'.join(str(s) for s in v) for k, v in spec.items()}
        try:
            onnx_tool.model_io_modify(src, out, text)
        except Exception as e:
            return None, e, os.path.exists(out)
        require(os.path.exists(out), 'nothing was saved')
        return onnx.load(out), None, True


def check(case):
    c, spec = case['g'], case['spec']
    model = gen.model_of(c)
    ranks = {v.name: len(v.type.tensor_type.shape.dim) for v in list(model.graph.output) + list(model.graph.input)}
    saved, err, wrote = modify(model, spec, case['file'])
    bad = [k for k, v in (spec or {}).items() if k in ranks and len(v) != ranks[k]]
    if bad:
        require(saved is None, 'a specification %s for %s of rank %d is accepted', spec[bad[0]], bad[0], ranks[bad[0]])
        require(not wrote, 'a model is saved although the specification of %s is refused', bad[0])
        return Info(True, ['refused'])
    require(err is None, 'the specification %s is refused: %s: %s', spec, type(err).__name__, err)
    used = c06.used_names(model)
    want_in, ch1 = apply_spec([i for i in model.graph.input if i.name in used], spec or {})
    want_out, ch2 = apply_spec(model.graph.output, spec or {})
    c06.cmp_nodes(model.graph.node, saved.graph.node)
    c06.cmp_io(want_in, saved.graph.input, 'graph inputs')
    c06.cmp_io(want_out, saved.graph.output, 'graph outputs')
    c06.cmp_weights(model, saved, used)
    c06.cmp_versions(model, saved)
    if case['exec']:
        c06.cmp_vinfo(model, saved, None)
        feeds = gen.feeds_of(c)
        ref = gen.ref_ok(model, feeds)
        got = gen.ref_outputs(saved, feed(saved, feeds), 'saved model')
        for o, a, b in zip(model.graph.output, ref, got):
            require(bits_equal(a, b), 'output %s differs', o.name)
    return Info(ch1 or ch2, c['meta']['blocks'])


DIMS = ['N', 'h', 'w', 'batch_size', 'ü', 'seq len', 'dim.1', '-', 'n1', '1n', 'H/2', '?', 'None']


@st.composite
def cases(draw, odd=False):
    cfg = {'n': (1, 4), 'K': 1, 'blocks': ['ew', 'move', 'custom', 'custom']} if odd else {'n': (1, 6), 'K': 1, 'odd': True, 'forms': ['fn', 'old', 'over'], 'const_out': True, 'unused_inputs': True, 'blocks': gen.ALLBLOCKS + ['if', 'pass']}
    g = gen.graph(draw, cfg)
    sp = g['spec']
    io = [(i[0], len(i[2])) for i in sp['inputs']] + [(o[0], len(o[2])) for o in sp['outputs'] if isinstance(o, (list, tuple)) and o[2] is not None and o[0] not in [i[0] for i in sp['inits']]]
    spec = {}
    tok = st.one_of(st.sampled_from(DIMS), st.integers(0, 20), st.sampled_from([0, 1, 224, 65536, 2 ** 31, 2 ** 40]))
    for n, r in io:
        if draw(st.integers(0, 2)) and r:
            spec[n] = [draw(tok) for _ in range(r)]
    if draw(st.integers(0, 3)) == 0:
        spec['no such tensor'] = [1, 2]
    if draw(st.integers(0, 3)) == 0:
        names = [o for n in sp['nodes'] for o in n['out'] if o and o not in dict(io)]
        if names and not any(isinstance(o, str) for o in sp['outputs']):
            spec[draw(st.sampled_from(names))] = [9, 'zz']
    if draw(st.integers(0, 9)) == 7 and spec:
        k = draw(st.sampled_from(sorted(spec)))
        spec[k] = spec[k][1:] if draw(st.booleans()) and len(spec[k]) > 1 else spec[k] + [3]
    if draw(st.integers(0, 19)) == 11:
        spec = None
    return dict(g=g, file=draw(st.booleans()), spec=spec, exec=not odd)


def check_infer(case):
    """fixing every input to the fed sizes makes the executed shapes known"""
    c, k = case['g'], case['k']
    model = gen.model_of(c)
    vals = gen.ref_tensors(c, k, model)
    feeds = gen.feeds_of(c, k)
    spec = {n: [int(x) for x in v.shape] for n, v in feeds.items() if v.ndim}
    saved, err, _ = modify(model, spec, case['file'])
    require(err is None, 'the specification %s is refused: %s: %s', spec, type(err).__name__, err)
    with sut('inferring the saved model'):
        m = onnx_tool.Model(saved, {'verbose': False})
        m.graph.shape_infer()
    unused = {i.name for i in model.graph.initializer} - c06.used_names(model)
    c03.compare(m.graph, {n: v for n, v in vals.items() if n not in unused}, 'shape inference of the saved model')
    return Info(any(isinstance(d, str) for i in c['spec']['inputs'] for d in i[2]), c['meta']['blocks'])


@st.composite
def infer_cases(draw):
    return dict(g=gen.graph(draw, {'n': (1, 7)}), k=draw(st.integers(0, 1)), file=draw(st.booleans()))


SUBS = [Sub('exec', cases, check, 5000, 60000), Sub('attrs', lambda: cases(True), check, 1500, 20000), Sub('infer', infer_cases, check_infer, 3000, 40000)]
