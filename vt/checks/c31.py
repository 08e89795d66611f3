"""C31: extra output tensors show the values of the model."""
import os
from hypothesis import strategies as st
from ..core import *
from ..om import *
from .. import gen
from .c06 import cmp_nodes, cmp_io, cmp_weights, cmp_versions, used_names
from .c10 import figures
from .c12 import check_plan
import onnx_tool

PROPERTY = 'C31'
TECHNIQUE = 'property-based testing: generated models and sequences of output requests, structural comparison and differential execution against all tensors of the original run'
LEVEL_NOTE = 'random search over generated graphs (control flow included) and up to 3 requests of up to 4 tensors; trusts onnx.checker and the ReferenceEvaluator'
RULE = ('A case is a generated model, a preparation (as loaded, inferred, reordered, dangling nodes removed afterwards) and up to 3 requests naming intermediate tensors, graph inputs, weights, '
        'present outputs, repeated and unknown names. The saved model must have the old outputs, then each existing requested tensor once in order of request, otherwise the nodes, '
        'inputs and weights of the original, and its outputs computed are the values these tensors have in the original. Figures of all nodes stay, the memory plan keeps requested '
        'tensors until the end, the compute graph produces them, and value inference returns them. Non-trivial: an output was added.')
ASSUMPTIONS = ['the element type (and a shape) of an added output is judged where the file or inference gives it', 'value inference may refuse operators without evaluation']


def check(case):
    c = case['g']
    model = gen.model_of(c)
    feeds = gen.feeds_of(c)
    vals = dict(gen.ref_tensors(c, 0, model))
    vals.update(feeds)
    vals.update({i.name: onnx.numpy_helper.to_array(i) for i in model.graph.initializer})
    top = [o for n in model.graph.node for o in n.output if o]
    used = used_names(model)
    pool = top + [i.name for i in model.graph.input if i.name in used] + [i.name for i in model.graph.initializer if i.name in used]
    outs = [o.name for o in model.graph.output]
    want = list(outs)
    requests = []
    for r in case['req']:
        l = []
        for i in r:
            l.append('no such tensor' if i >= 90 else outs[i % len(outs)] if i >= 80 else pool[-1 - i % len(pool)])
        requests.append(l)
        for n in l:
            if n in pool and n not in want:
                want.append(n)
    ins = gen.shapes_in(c, 0)
    hasif = any(n.op_type == 'If' for n in model.graph.node) or bool(model.functions)
    infer = case['infer'] and not hasif
    with scratch() as d:
        with sut('loading'):
            m = onnx_tool.Model(model, {'verbose': False})
            g = m.graph
        with sut('inference'):
            if infer == 1:
                g.shape_infer(ins)
                g.profile()
                fig = figures(g)
            if case['reorder']:
                g.graph_reorder_nodes()
        with sut('adding outputs'):
            for r in requests:
                keep = list(r)
                g.add_dump_tensors(r)
                require(r == keep, 'the list of the caller was changed')
        with sut('inference'):
            if case['dangling']:
                g.remove_dangling_nodes()
            if infer == 2:
                g.shape_infer(ins)
                g.profile()
                fig = figures(g)
            if infer == 1 and case['dangling']:
                g.profile()
                now = figures(g)
                require(all(now[k] == fig[k] for k in now), 'figures changed')
        require(list(g.output) == want, 'outputs are %s, expected %s', list(g.output), want)
        f = os.path.join(d, 'o.onnx')
        with sut('saving'):
            m.save_model(f)
        saved = onnx.load(f)
        if infer:
            names = set(g.input) | {o for n in g.nodemap.values() for o in n.output if o}
            check_plan(g, {t: v.nbytes for t, v in vals.items() if t in names}, 64)
            with sut('compute graph'):
                cg = g.get_compute_graph()
            require(list(cg.output) == want, 'outputs of the compute graph are %s, expected %s', list(cg.output), want)
            made = set(cg.input) | set(cg.initials) | {o for n in cg.nodemap.values() for o in n.output}
            for o in want:
                require(o in made or o in feeds, 'output %s is not produced in the compute graph', o)
    require([o.name for o in saved.graph.output] == want, 'saved outputs are %s, expected %s', [o.name for o in saved.graph.output], want)
    if not infer:
        cmp_io(model.graph.output, list(saved.graph.output)[:len(outs)], 'graph outputs')
    if not case['dangling'] and not case['reorder']:
        cmp_nodes(model.graph.node, saved.graph.node)
    elif not case['dangling']:
        require(len(saved.graph.node) == len(model.graph.node), 'number of nodes changed')
    gin = {i.name for i in saved.graph.input}
    if not case['dangling']:
        require([i.name for i in model.graph.input if i.name in used] == [i.name for i in saved.graph.input], 'graph inputs changed')
        cmp_weights(model, saved, used)
    cmp_versions(model, saved)
    known = {v.name: v.type.tensor_type.elem_type for v in list(model.graph.value_info) + list(model.graph.output) + list(model.graph.input)}
    known.update({i.name: i.data_type for i in model.graph.initializer})
    typed = all(o.type.tensor_type.elem_type == ptdt(NP2DT[vals[o.name].dtype]) for o in saved.graph.output)
    for o in saved.graph.output:
        x = vals[o.name]
        if infer or o.name in known:
            require(o.type.tensor_type.elem_type == ptdt(NP2DT[x.dtype]), 'output %s has type %d, executed %s', o.name, o.type.tensor_type.elem_type, x.dtype)
        dd = dims_of(o)
        if infer and o.name not in outs:
            require(dd is not None and [p for p in dd] == list(x.shape), 'added output %s has dimensions %s, executed %s', o.name, dd, x.shape)
    if typed and (infer or all(o.type.tensor_type.HasField('shape') for o in saved.graph.output)):
        check_valid(saved)
    try:
        got = run_ref(saved, {k: v for k, v in feeds.items() if k in gin})
    except Exception as e:
        raise Violation('the model with added outputs does not run: %s' % str(e)[:300])
    for n, y in zip(want, got):
        require(bits_equal(np.asarray(y), np.asarray(vals[n])), 'output %s differs from its value in the original', n)
    lab = ['added %d' % min(3, len(want) - len(outs))]
    if case['value'] and not hasif:
        with sut('loading'):
            g = onnx_tool.Model(model, {'verbose': False}).graph
            for r in requests:
                g.add_dump_tensors(r)
        try:
            got = g.value_infer(feeds)
        except NotImplementedError:
            got = None
            lab.append('value inference refused')
        except Exception as e:
            raise Violation('value inference raised %s: %s' % (type(e).__name__, str(e)[:300]))
        if got is not None:
            lab.append('value inference')
            require(len(got) == len(want), '%d values returned for %d outputs', len(got), len(want))
            for n, y in zip(want, got):
                require(same(np.asarray(y), vals[n], 1e-3, 1e-4), 'value inference gives another value for output %s', n)
    return Info(len(want) > len(outs), lab)


@st.composite
def cases(draw):
    value = draw(st.booleans())
    blocks = ['ew', 'move', 'logic', 'mm', 'red', 'shape', 'const', 'pass'] if value else gen.ALLBLOCKS + draw(st.sampled_from([['pass'], ['if'] * 3]))
    g = gen.graph(draw, {'forms': ['fn', 'old', 'over'], 'n': (1, 7), 'K': 1, 'const_out': True, 'blocks': blocks})
    return dict(g=g, req=draw(st.lists(st.lists(st.integers(0, 99), min_size=1, max_size=4), min_size=1, max_size=3)), infer=draw(st.integers(0, 2)),
                reorder=draw(st.booleans()), dangling=draw(st.sampled_from([False, False, True])), value=value)


SUBS = [Sub('outputs', cases, check, 5000, 100000)]
