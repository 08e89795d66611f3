"""C10: the compute graph keeps every node that computes data."""
import os
from hypothesis import strategies as st
from ..core import *
from ..om import *
from .. import gen
from .c06 import cmp_node
from .c12 import check_plan
import onnx_tool

PROPERTY = 'C10'
TECHNIQUE = 'property-based testing: generated models with and without shape-computing subgraphs, oracle = backward reachability from the outputs through the data inputs of the ONNX operators, differential figures against the full graph'
LEVEL_NOTE = 'random search over generated graphs; which inputs are shape inputs is taken from the ONNX operator definitions'
RULE = ('A case is a generated model and an assignment of its dimensions. Every node from which an output can be reached through data inputs must be in the '
        'compute graph, in the same order with the same inputs, outputs and attributes; outputs are still produced; profiling gives the figures of the '
        'full graph (also after inferring the compute graph again at the same shapes) and its memory plan is valid; the full graph is as before. '
        'Non-trivial: at least one node is dropped or a tensor is read both as shape and as data.')
ASSUMPTIONS = ['a node read only through shape inputs (Reshape/Expand/Tile/... shape, Slice bounds, Pad pads, k of TopK, axes) merely computes shapes']

SHAPE_IN = {'Reshape': {1}, 'Resize': {1, 2, 3}, 'Upsample': {1}, 'Expand': {1}, 'Slice': {1, 2, 3, 4}, 'ConstantOfShape': {0}, 'Tile': {1}, 'Range': {0, 1, 2},
            'OneHot': {1}, 'TopK': {1}, 'Pad': {1, 3}, 'NonMaxSuppression': {2}, 'Split': {1}, 'Unsqueeze': {1}, 'Squeeze': {1}}


def needed_nodes(model, outputs):
    prod = {o: i for i, n in enumerate(model.graph.node) for o in n.output if o}
    read = {i for n in model.graph.node for i in n.input}
    need, both = set(), False
    stack = [prod[o] for o in outputs if o in prod]
    while stack:
        i = stack.pop()
        if i in need:
            continue
        need.add(i)
        n = model.graph.node[i]
        sh = SHAPE_IN.get(n.op_type, {1} if n.op_type.startswith('Reduce') else set()) if n.domain in ('', 'ai.onnx') else set()
        for j, t in enumerate(n.input):
            if j not in sh and t in prod:
                stack.append(prod[t])
    return need


def figures(g):
    return {n: (int(x.macs), int(x.params), int(x.memory), [int(i) for i in x.inshape], [int(i) for i in x.outshape]) for n, x in g.nodemap.items()}


def check(case):
    c = case['g']
    model = gen.model_of(c)
    k = case['k']
    vals = dict(gen.ref_tensors(c, k, model))
    vals.update(gen.feeds_of(c, k))
    ins = gen.shapes_in(c, k)
    with sut('load, infer, profile'):
        full = onnx_tool.Model(model, {'verbose': False}).graph
        full.shape_infer(ins)
        full.profile()
        want = figures(full)
        m = onnx_tool.Model(model, {'verbose': False})
        g = m.graph
        g.shape_infer(ins)
        before = list(g.nodemap)
        outputs = list(g.output)
    with sut('compute graph extraction'):
        cg = g.get_compute_graph()
    require(list(cg.output) == outputs, 'outputs of the compute graph are %s, of the model %s', list(cg.output), outputs)
    names = list(cg.nodemap)
    byname = dict(zip(before, model.graph.node))
    require(len(before) == len(model.graph.node), 'nodes lost on loading')
    need = [before[i] for i in sorted(needed_nodes(model, outputs))]
    for n in need:
        require(n in cg.nodemap, 'node %s (%s) computes data for an output but is not in the compute graph', n, byname[n].op_type)
    require(names == [n for n in before if n in cg.nodemap], 'the order of the nodes changed')
    made = set(g.input) | set(g.initials)
    for n in names:
        x = cg.nodemap[n]
        cmp_node(byname[n], x.make_nodeproto(), 'node of the compute graph', names=bool(byname[n].name))
        made |= set(x.output)
    for o in outputs:
        require(o in made, 'output %s is not produced in the compute graph', o)
    require(list(g.nodemap) == before, 'extracting the compute graph changed the model graph')
    require(list(g.output) == outputs, 'extracting the compute graph changed the outputs of the model graph')
    with sut('profiling the compute graph'):
        if case['how'] == 'again':
            cg.shape_infer(ins)
        cg.profile()
        got = figures(cg)
    for n in names:
        require(got[n] == want[n], 'node %s (%s) has figures %s in the compute graph, %s in the full graph', n, byname[n].op_type, got[n], want[n])
    require([int(cg.macs[0]), int(cg.params), int(cg.memory)] == [sum(got[n][i] for n in names) for i in range(3)], 'totals %s are not the sums over the nodes',
            [int(cg.macs[0]), int(cg.params), int(cg.memory)])
    made = set(g.input) | {o for n in names for o in cg.nodemap[n].output}
    check_plan(cg, {t: v.nbytes for t, v in vals.items() if t in made}, case['pad'])
    with sut('profiling the model graph'):
        g.profile()
    require(figures(g) == want, 'the figures of the model graph changed after extracting the compute graph')
    return Info(len(names) < len(before) or bool(set(byname) - set(need)), ['dropped' if len(names) < len(before) else 'all kept'])


@st.composite
def cases(draw):
    blocks = draw(st.sampled_from([['shape', 'shape', 'shape', 'move', 'ew', 'nn'], ['shape', 'ew'], ['side', 'side', 'shape', 'ew', 'multi'], [b for b in gen.ALLBLOCKS if b != 'if']]))
    g = gen.graph(draw, {'n': (2, 8), 'blocks': blocks})
    return dict(g=g, k=draw(st.integers(0, 1)), how=draw(st.sampled_from(['infer', 'again'])), pad=draw(st.sampled_from([1, 64, 4096])))


SUBS = [Sub('extract', cases, check, 6000, 80000)]
