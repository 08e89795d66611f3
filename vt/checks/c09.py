"""C09: node reordering."""
import os
from hypothesis import strategies as st
from ..core import *
from ..om import *
from .. import gen
from .c06 import cmp_node, cmp_io, cmp_weights, cmp_versions, used_names
from .c03 import compare as cmp_shapes
import onnx_tool

PROPERTY = 'C09'
TECHNIQUE = 'property-based testing: generated models with permuted node lists, permutation and topological-order invariants, differential execution'
LEVEL_NOTE = 'random search over generated graphs (control flow with captured tensors included) and arbitrary node permutations; trusts onnx.checker and the ReferenceEvaluator'
RULE = ('A case is a generated valid model whose node list is permuted arbitrarily, loaded and reordered (once or twice, optionally with shape inference '
        'after it), then saved. Node multiset, topological order, weights, inputs, outputs, validity and executed outputs are compared. '
        'Non-trivial: the permuted order is not topological.')
ASSUMPTIONS = ['node names are compared when unique and non-empty in the file']


def captured(node):
    """outer tensor names read by the subgraphs of a node"""
    r = set()
    for a in node.attribute:
        for g in ([a.g] if a.type == onnx.AttributeProto.GRAPH else []) + list(a.graphs):
            local = {i.name for i in g.initializer} | {i.name for i in g.input}
            for n in g.node:
                r |= (set(n.input) | captured(n)) - local - {''}
                local |= set(n.output)
            r |= {o.name for o in g.output} - local
    return r


def topo_ok(nodes, avail):
    avail = set(avail) | {''}
    for n in nodes:
        for i in list(n.input) + sorted(captured(n)):
            if i not in avail:
                return '%s (%s) reads %s before it is produced' % (n.op_type, n.name, i)
        avail |= set(n.output)
    return None


def check(case):
    c = case['g']
    model = gen.model_of(c)
    feeds = gen.feeds_of(c)
    ref = gen.ref_ok(model, feeds)
    nodes = list(model.graph.node)
    m = onnx.ModelProto(); m.CopyFrom(model)
    del m.graph.node[:]
    perm = case['perm']
    order = sorted(range(len(nodes)), key=lambda i: perm[i % len(perm)] * 1000 + i)
    for i in order:
        m.graph.node.append(nodes[i])
    avail = [i.name for i in m.graph.input] + [i.name for i in m.graph.initializer]
    unsorted_ = topo_ok(m.graph.node, avail) is not None
    if case['file'] == 3 and not case['infer']:
        case = dict(case, file=0)
    with scratch() as d:
        f = os.path.join(d, 'o.onnx')
        if case['file'] == 3:
            with sut('model_profile'):  # puts the nodes in order first
                onnx_tool.model_profile(m, gen.shapes_in(c, 0), save_model=f)
        elif case['file']:
            src = os.path.join(d, 'i.onnx')
            onnx.save(m, src)
            with sut('model_reorder_nodes'):
                for i in range(case['times']):
                    onnx_tool.model_reorder_nodes(m if case['file'] == 2 and i == 0 else src, f)
                    src = f
            case = dict(case, infer=False)
        with sut('loading'):
            mod = onnx_tool.Model(m, {'verbose': False})
        g = mod.graph
        with sut('reordering'):
            for _ in range(0 if case['file'] else case['times']):
                g.graph_reorder_nodes()
        if case['infer'] and not case['file']:
            with sut('shape_infer after reordering'):
                g.shape_infer(gen.shapes_in(c, 0))
            cmp_shapes(g, gen.ref_tensors(c, 0, model), 'after reordering')
        if not case['file']:
            with sut('saving'):
                mod.save_model(f)
        saved = onnx.load(f)
    bad = topo_ok(saved.graph.node, avail)
    require(bad is None, 'not topologically ordered: %s', bad)
    require(len(saved.graph.node) == len(nodes), '%d nodes after reordering, %d before', len(saved.graph.node), len(nodes))

    def key(n):
        return next((o for o in n.output if o), None)
    cnt = {}
    for n in nodes:
        cnt[n.name] = cnt.get(n.name, 0) + 1
    byout = {key(n): n for n in nodes}
    seen = set()
    for n in saved.graph.node:
        k = key(n)
        require(k in byout and k not in seen, 'node writing %s is new or repeated', k)
        seen.add(k)
        cmp_node(byout[k], n, 'reordered node', byout[k].name and cnt[byout[k].name] == 1)
    used = used_names(model)
    a = [i for i in model.graph.input if i.name in used]
    if case['infer']:
        require([i.name for i in a] == [i.name for i in saved.graph.input], 'graph inputs %s, were %s', [i.name for i in saved.graph.input], [i.name for i in a])
        require([i.name for i in model.graph.output] == [i.name for i in saved.graph.output], 'graph outputs changed')
    else:
        cmp_io(a, saved.graph.input, 'graph inputs')
        cmp_io(model.graph.output, saved.graph.output, 'graph outputs')
    cmp_weights(model, saved, used)
    cmp_versions(model, saved)
    check_valid(saved)
    got = gen.ref_outputs(saved, feed(saved, feeds), 'reordered model')
    for o, x, y in zip(model.graph.output, ref, got):
        require(bits_equal(x, y), 'output %s differs after reordering', o.name)
    return Info(unsorted_, c['meta']['blocks'])


@st.composite
def cases(draw):
    infer = draw(st.booleans())
    g = gen.graph(draw, {'forms': ['old', 'over'] + ['fn'] * (not infer), 'n': (1, 7), 'K': 1, 'const_out': True, 'blocks': gen.ALLBLOCKS + ['pass'] + ([] if infer else ['if', 'if'])})
    n = len(g['spec']['nodes'])
    perm = draw(st.one_of(st.permutations(list(range(n))), st.just(list(range(n))[::-1])))
    return dict(g=g, perm=list(perm), infer=infer, file=draw(st.sampled_from([0, 0, 0, 1, 2, 3])), times=draw(st.sampled_from([1, 1, 2])))


SUBS = [Sub('reorder', cases, check, 8000, 100000)]
