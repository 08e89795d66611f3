"""C20: extracted subgraphs are complete and compose to the original."""
import os
from hypothesis import strategies as st
from ..core import *
from ..om import *
from .. import flow, gen
from .c06 import cmp_node
from .c09 import topo_ok
from .c16 import boundary, pick, reads
import onnx_tool

PROPERTY = 'C20'
TECHNIQUE = 'property-based testing: generated graphs, node sets and cut tensors, differential execution of the extracted models on the tensor values of the original run'
LEVEL_NOTE = 'random search over dataflow graphs and operator graphs (control flow included) of up to about 30 nodes'
RULE = ('A case is a graph (as loaded or after inference) and a set of nodes, given by names in any order, or tensors to split between. The extracted models (through model_subgraph, '
        'get_onnxgraph_by_nodenames or get_subgraph) are validated, nodes, weights, inputs and outputs compared with those computed from the node list, and executed on '
        'the values of the original run, for a split one part after the other. Non-trivial: at least two nodes and not all of them in a part.')
ASSUMPTIONS = ['an output nobody reads may or may not be an output of the extracted model', 'element types (and the presence of a shape) of boundary tensors are compared where the file or inference gives them',
               'a part without nodes is not written or empty']


def load(case):
    c = case['g']
    if 'spec' in c:
        model = gen.model_of(c)
        feeds = gen.feeds_of(c)
    else:
        spec = flow.make(c)
        model = build(spec)
        feeds = flow.feeds(spec)
    try:
        ref = all_tensors(model, feeds)
    except Exception as e:
        raise Skip('reference: ' + str(e)[:40])
    return model, feeds, ref


def check_part(s, sel, nodes, names, model, ref, avail, typed, what, inferred=False):
    """s: extracted model with the nodes sel; returns its outputs"""
    v = onnx.ModelProto()
    v.CopyFrom(s)
    for i in list(v.graph.input) + list(v.graph.output):
        if i.name not in typed and i.name in ref and dims_of(i) is None:     # the file does not tell its shape
            i.CopyFrom(onnx.helper.make_tensor_value_info(i.name, i.type.tensor_type.elem_type, ref[i.name].shape))
    check_valid(v, what)
    outputs = [o.name for o in model.graph.output]
    weights = {i.name: i for i in model.graph.initializer}
    ins, capt, outs, unread = boundary(nodes, set(sel), outputs)
    by = {n.name: n for n in s.graph.node}
    require(len(by) == len(s.graph.node) and set(by) == {names[i] for i in sel}, '%s: it has the nodes %s, expected %s', what, [n.name for n in s.graph.node], [names[i] for i in sel])
    for i in sel:
        cmp_node(nodes[i], by[names[i]], '%s: node %s' % (what, names[i]), names=bool(nodes[i].name))
    bad = topo_ok(s.graph.node, [i.name for i in s.graph.initializer] + [i.name for i in s.graph.input])
    require(bad is None, '%s: not in order: %s', what, bad)
    want = {t for i in sel for t in reads(nodes[i])} & set(weights)
    got = {i.name: i for i in s.graph.initializer}
    require(want <= set(got) and set(got) <= want | set(outputs), '%s: it has the weights %s, its nodes use %s', what, sorted(got), sorted(want))
    for t in want:
        require(bits_equal(onnx.numpy_helper.to_array(weights[t]), onnx.numpy_helper.to_array(got[t])), '%s: weight %s changed', what, t)
    entering = (ins | capt) - set(weights)
    listed = {i.name for i in s.graph.initializer}  # a weight may be listed among the inputs as well
    got = [i.name for i in s.graph.input if i.name not in listed]
    require(len(set(got)) == len(got), '%s: repeated inputs %s', what, got)
    require(sorted(got) == sorted(entering), '%s: its inputs are %s, entering are %s', what, got, sorted(entering))
    gouts = [o.name for o in s.graph.output]
    require(outs <= set(gouts) <= outs | unread and len(gouts) == len(set(gouts)), '%s: its outputs are %s, leaving are %s', what, gouts, sorted(outs))
    for i in list(s.graph.input) + list(s.graph.output):
        if i.name in typed and i.name in ref:
            require(i.type.tensor_type.elem_type == ptdt(NP2DT[ref[i.name].dtype]), '%s: %s has element type %d', what, i.name, i.type.tensor_type.elem_type)
            d = dims_of(i)
            require(not inferred or (len(d) == ref[i.name].ndim and all(not isinstance(x, int) or x == y for x, y in zip(d, ref[i.name].shape))), '%s: %s is declared %s, its shape is %s', what,
                    i.name, d, list(ref[i.name].shape))
    missing = [i for i in got if i not in avail]
    require(not missing, '%s: it needs %s which no earlier part has', what, missing)
    try:
        vals = run_ref(s, {i: avail[i] for i in got})
    except Exception as e:
        raise Violation('%s: does not run: %s' % (what, str(e)[:200]))
    res = dict(zip(gouts, vals))
    for t, v in res.items():
        if t in ref:
            require(v.dtype == ref[t].dtype and same(v, ref[t], 1e-5, 1e-6), '%s: output %s differs from the original run', what, t)
    return res


def annotated(model):
    return {v.name for v in list(model.graph.value_info) + list(model.graph.input) + list(model.graph.output)}


def start(case, d):
    """-> model, feeds, ref, nodes, names, tool Model (or what model_subgraph gets), typed"""
    model, feeds, ref = load(case)
    nodes = list(model.graph.node)
    if case['via'] == 'function':
        ns = [n.name for n in nodes]
        if '' in ns or len(set(ns)) < len(ns):
            raise Skip('names are generated')
        src = model
        if case['file']:
            src = os.path.join(d, 'in.onnx')
            onnx.save(model, src)
        return model, feeds, ref, nodes, ns, src, annotated(model)
    with sut('loading'):
        m = onnx_tool.Model(model, {'verbose': False})
    typed = annotated(model)
    if case['via'] == 'inferred' and not any(n.op_type == 'If' for n in nodes) and not model.functions:
        with sut('shape_infer'):
            m.graph.shape_infer({k: v for k, v in feeds.items() if k in m.graph.input})
        typed = ref
    return model, feeds, ref, nodes, list(m.graph.nodemap), m, typed


def proto(graph, model):
    s = onnx.helper.make_model(graph)
    s.ir_version = max(model.ir_version, 4)  # the weights of a graph alone are not inputs
    s.functions.extend(model.functions)
    del s.opset_import[:]
    s.opset_import.extend(model.opset_import)
    return s


def check_names(case):
    with scratch() as d:
        model, feeds, ref, nodes, names, m, typed = start(case, d)
        sel = pick(nodes, case['start'], case['grow']) if case['convex'] else {x % len(nodes) for x in [case['start']] + case['grow']}
        seq = sorted(sel)
        seq = [seq[i] for i in sorted(range(len(seq)), key=lambda i: (case['perm'][i % len(case['perm'])], i))]
        what = 'extracting %s' % [(names[i], nodes[i].op_type) for i in seq]
        if case['via'] == 'function':
            out = os.path.join(d, 'out')
            os.mkdir(out)
            with sut('model_subgraph'):
                onnx_tool.model_subgraph(m, nodenames=[names[i] for i in seq], save_folder=out)
            fs = os.listdir(out)
            require(len(fs) == 1 and fs[0].endswith('_subgraph.onnx'), 'files written: %s', fs)
            s = onnx.load(os.path.join(out, fs[0]))
        else:
            with sut('get_onnxgraph_by_nodenames'):
                s = proto(m.graph.get_onnxgraph_by_nodenames([names[i] for i in seq]), model)
        check_part(s, seq, nodes, names, model, ref, ref, typed, what, typed is ref)
    return Info(1 < len(sel) < len(nodes), [case['via'], 'n%d' % min(len(sel), 6)] + ['If'] * any(n.op_type == 'If' for n in nodes))


def check_split(case):
    with scratch() as d:
        model, feeds, ref, nodes, names, m, typed = start(case, d)
        tens = [t for n in nodes for t in n.output if t]
        every = [i.name for i in model.graph.input] + tens
        cons = {t: [i for i, n in enumerate(nodes) if t in reads(n)] for t in every}

        def down(ts):
            seen, todo = set(), list(ts)
            while todo:
                for i in cons.get(todo.pop(), []):
                    if i not in seen:
                        seen.add(i)
                        todo += [t for t in nodes[i].output if t]
            return seen
        if case['ends'] is None:
            sel = pick(nodes, case['start'], case['grow'])
            ins, capt, outs, _ = boundary(nodes, sel, [o.name for o in model.graph.output])
            ins = sorted(t for t in ins | capt if t in cons)
            outs = sorted(outs)
        else:
            ins = [every[case['start'] % len(every)]]
            outs = [tens[x % len(tens)] for x in case['ends']]
        if not ins or not outs:
            raise Skip('no cut')
        l2 = down(outs)
        l1 = down(ins) - l2
        level = [set(range(len(nodes))) - l1 - l2, l1, l2]
        what = 'splitting between %s and %s' % (ins, outs)
        parts = []
        if case['via'] == 'function':
            out = os.path.join(d, 'out')
            os.mkdir(out)
            with sut('model_subgraph'):
                onnx_tool.model_subgraph(m, in_tensor_names=list(ins), out_tensor_names=list(outs), save_folder=out)
            fs = os.listdir(out)
            for k in range(3):
                f = [x for x in fs if x.endswith('_level%d.onnx' % k)]
                require(len(f) <= 1, 'files written: %s', fs)
                parts.append(onnx.load(os.path.join(out, f[0])) if f else None)
        else:
            with sut('get_subgraph'):
                gs = m.graph.get_subgraph(inputs=list(ins), outputs=list(outs))
            require(len(gs) == 3, '%d parts', len(gs))
            for k, g in enumerate(gs):
                f = os.path.join(d, 'p%d.onnx' % k)
                if g is not None and len(g.nodemap):
                    with sut('save_model of a part'):
                        g.save_model(f, rawmodel=model)
                    parts.append(onnx.load(f))
                else:
                    parts.append(None)
        avail = dict(feeds)
        for k in range(3):
            if parts[k] is None or not parts[k].graph.node:
                require(not level[k], '%s: level %d is missing, expected the nodes %s', what, k, [names[i] for i in sorted(level[k])])
            else:
                avail.update(check_part(parts[k], sorted(level[k]), nodes, names, model, ref, avail, typed, what + ', level %d' % k, typed is ref))
        prod = set(tens)
        for o in model.graph.output:
            if o.name in prod:
                require(o.name in avail, '%s: output %s is in no part', what, o.name)
    return Info(sum(bool(x) for x in level) > 1, [case['via'], 'levels%s' % ''.join(str(k) for k in range(3) if level[k])] + ['If'] * any(n.op_type == 'If' for n in nodes))


@st.composite
def base(draw):
    if draw(st.integers(0, 2)):
        g = draw(flow.flows(n=(2, 14), names=('all', 'all', 'all', 'some'), ops=flow.MORE))
    else:
        g = gen.graph(draw, {'forms': ['fn', 'old', 'over'], 'n': (2, 8), 'blocks': gen.ALLBLOCKS + draw(st.sampled_from([[], ['if'] * 4, ['pass']]))})
    return dict(g=g, via=draw(st.sampled_from(['function', 'graph', 'inferred'])), file=draw(st.booleans()), start=draw(st.integers(0, 30)))


@st.composite
def name_cases(draw):
    return dict(draw(base()), grow=draw(st.lists(st.integers(0, 30), min_size=draw(st.integers(0, 3)), max_size=6)), convex=draw(st.booleans()), perm=draw(st.sampled_from([[0], [1, 0], [2, 0, 1]])))


@st.composite
def split_cases(draw):
    return dict(draw(base()), grow=draw(st.lists(st.integers(0, 30), max_size=5)), ends=draw(st.one_of(st.none(), st.lists(st.integers(0, 30), min_size=1, max_size=3))))


SUBS = [Sub('names', name_cases, check_names, 6000, 80000), Sub('split', split_cases, check_split, 6000, 80000)]
