"""C18: post-operator fusion keeps dataflow and attributes."""
import os
from hypothesis import strategies as st
from ..core import *
from ..om import *
from .. import flow, gen
from .c06 import cmp_node
from .c09 import captured
from .c15 import describe
from .c16 import boundary, convex, load, reads, rest_unchanged, same_value, check_file
from .c19 import records
import onnx_tool
from onnx_tool.fusion import FusionPattern, Fused_Element, Conv_Res, createSerialPattern

PROPERTY = 'C18'
TECHNIQUE = 'stateful property-based testing: generated graphs and sequences of post-operator fusions, oracle = boundary tensors, attributes and remaining nodes recomputed from the node list before each fusion'
LEVEL_NOTE = 'random search over graphs of up to about 30 nodes, up to 4 fusions of a graph, and fusion of all in-place pattern matches'
RULE = ('A case is a graph and a sequence of fusions, each a main node followed by up to 4 nodes of a connected convex chain after it (or all matches of an in-place pattern, '
        'repeatedly). After each fusion the fused node (name, operator, domain, attributes of the main node with their types, recorded operators and their attributes in order, extra '
        'attributes, tensors) and everything else is compared with the node list before. Non-trivial: at least one fusion of two or more nodes.')
ASSUMPTIONS = ['recorded operators are the attributes postop_<i>, their attributes postop_<i>_<name>, as documented in data/GraphFusion.md; postop_count is their number',
               'an output nobody reads may or may not count as leaving the chain']


def check_fused(x, nodes, seq, outputs, append, extra, what):
    main = nodes[seq[0]]
    require(x.op_type == main.op_type, '%s: the fused node is a %s', what, x.op_type)
    require(x.domain == main.domain, '%s: the fused node is of domain %r, was %r', what, x.domain, main.domain)
    ins, capt, outs, unread = boundary(nodes, set(seq), outputs)
    require(ins <= set(x.input) - {''} <= ins | capt, '%s: it reads %s, entering are %s', what, list(x.input), sorted(ins))
    require(outs <= set(x.output) <= outs | unread and len(x.output) == len(set(x.output)), '%s: it writes %s, leaving are %s', what, list(x.output), sorted(outs))
    want = {a.name: a for a in main.attribute if a.name != 'postop_count'}
    count = next((a.i for a in main.attribute if a.name == 'postop_count'), 0)
    for k, v in extra.items():
        want[k] = onnx.helper.make_attribute(k, v)
    if append:
        for i in seq[1:]:
            p = 'postop_%d' % count
            want[p] = onnx.helper.make_attribute(p, nodes[i].op_type)
            for a in nodes[i].attribute:
                want[p + '_' + a.name] = a
            count += 1
    want['postop_count'] = onnx.helper.make_attribute('postop_count', count)
    got = {a.name: a for a in x.attribute}
    require(len(got) == len(x.attribute), '%s: attributes share a name: %s', what, [a.name for a in x.attribute])
    for k in want:
        require(k in got, '%s: attribute %s is missing (%s)', what, k, sorted(got))
        require(same_value(want[k], got[k]), '%s: attribute %s is %s, expected %s', what, k, str(got[k])[:200], str(want[k])[:200])
    require(not set(got) - set(want), '%s: unexpected attributes %s', what, sorted(set(got) - set(want)))


class State:
    def __init__(self, case):
        self.model, self.nodes, self.m, self.names = load(case)
        self.g = self.m.graph
        self.outputs = [o.name for o in self.model.graph.output]

    def fuse(self, seq, append, extra):
        """seq: node indices, main first"""
        g = self.g
        what = 'fusing %s' % [(self.names[i], self.nodes[i].op_type) for i in seq]
        main = self.names[seq[0]]
        with sut('fuse_postop_node_names'):
            g.fuse_postop_node_names([self.names[i] for i in seq], append, **extra)
        require(main in g.nodemap, '%s: no node %s any more', what, main)
        x = g.nodemap[main].make_nodeproto()
        require(x.name == main, '%s: the fused node is named %s', what, x.name)
        check_fused(x, self.nodes, seq, self.outputs, append, extra, what)
        rest_unchanged(g, self.names, self.nodes, set(seq), self.model, {main})
        keep = [i for i in range(len(self.nodes)) if i not in seq]
        self.nodes = [self.nodes[i] for i in keep] + [x]
        self.names = [self.names[i] for i in keep] + [main]

    def finish(self, count):
        with scratch() as d:
            f = os.path.join(d, 'o.onnx')
            with sut('reorder and save'):
                self.g.graph_reorder_nodes()
                self.m.save_model(f)
            s = onnx.load(f)
        check_file(s, self.model, 0, len(self.model.graph.node) - len(self.nodes))
        for n in s.graph.node:
            i = self.names.index(n.name) if n.name in self.names else None
            if i is not None:
                cmp_node(self.nodes[i], n, 'node %s in the file' % n.name, names=bool(self.nodes[i].name))


def chain(nodes, start, grow):
    """a main node and nodes after it: each reads a tensor produced inside, the whole is convex, in execution order
    (a kept body must not read a tensor that is no longer there, so no such node is appended)"""
    seq = [start % len(nodes)]
    for s in grow:
        inner = {t for i in seq for t in nodes[i].output if t}
        c = [j for j, n in enumerate(nodes) if j not in seq and set(reads(n)) & inner and not captured(n) & inner and convex(nodes, seq + [j]) == set(seq + [j])]
        if not c:
            break
        seq.append(c[s % len(c)])
    return seq


EXTRA = [{}, {}, {'mode': 'fast'}, {'level': 3, 'scale': 0.5}, {'sizes': [1, 2, 3]}]


def check(case):
    s = State(case)
    big = 0
    for start, grow, append, extra in case['steps']:
        seq = chain(s.nodes, start, grow)
        extra = EXTRA[extra]
        if any(a.name in extra for a in s.nodes[seq[0]].attribute):
            extra = {}
        if any(n == '' for n in s.names):
            raise Skip('unnamed')
        s.fuse(seq, append, extra)
        big += len(seq) > 1
    s.finish(big)
    return Info(big > 0, ['fusions%d' % big] + (['twice'] if len({x[0] for x in case['steps']}) > 1 else []))


PATTERNS = [('Fused_Element', Fused_Element), ('Conv_Res', Conv_Res), ('conv_relu', [
    {'name': 'a', 'op': 'Conv', 'attrs': [], 'inport': [], 'outport': [[0, 'b', 0]]},
    {'name': 'b', 'op': ['Relu', 'Clip', 'Sigmoid', 'Add', 'Mul'], 'attrs': [], 'inport': [[0, 'a', 0]], 'outport': []}]),
    ('add_mul', [{'name': 'a', 'op': ['Add', 'Mul', 'Sub', 'Max'], 'attrs': [], 'inport': [], 'outport': [[0, 'b', -1]]},
                 {'name': 'b', 'op': ['Add', 'Mul', 'Sub', 'Neg', 'Abs', 'Clip'], 'attrs': [], 'inport': [[-1, 'a', 0]], 'outport': []}])]


def check_pattern(case):
    s = State(case)
    total = 0
    for pi, append in case['steps']:
        with sut('search_pattern'):
            found = FusionPattern(PATTERNS[pi][1], inplace_fusion=True).search_pattern(s.g)
        for names in found:
            seq = [s.names.index(n) if n in s.names else None for n in names]
            require(None not in seq, 'the pattern search returned %s', names)
            # inner tensors feed the chain only
            inner = [t for i in seq[:-1] for t in s.nodes[i].output if any(t in s.nodes[j].input for j in seq)]
            for t in inner:
                require(all(j in seq for j, n in enumerate(s.nodes) if t in n.input), 'in-place match %s, but %s has another consumer', names, t)
            if convex(s.nodes, seq) != set(seq):
                raise Skip('not convex')
            s.fuse(seq, append, {})
            total += 1
    s.finish(total)
    return Info(total > 0, ['fusions%d' % min(total, 8)])


@st.composite
def cases(draw):
    if draw(st.integers(0, 3)):
        g = draw(flow.flows(n=(2, 14), names=('all', 'all', 'some'), ops=draw(st.sampled_from([None, flow.MORE]))))
    else:
        g = gen.graph(draw, {'forms': ['fn', 'old', 'over'], 'n': (2, 8), 'blocks': gen.ALLBLOCKS + draw(st.sampled_from([[], ['if'] * 4, ['pass']]))})
    steps = draw(st.lists(st.tuples(st.integers(0, 30), st.lists(st.integers(0, 9), min_size=draw(st.integers(0, 1)), max_size=4), st.booleans() | st.just(True), st.integers(0, len(EXTRA) - 1)),
                          min_size=1, max_size=4))
    return dict(g=g, steps=steps)


POST = ['Relu', 'LeakyRelu', 'Clip', 'Add', 'AddW', 'MulW', 'Mul', 'Sub', 'Conv', 'Conv', 'Conv', 'Sigmoid', 'Max', 'Neg', 'Abs']


@st.composite
def pattern_cases(draw):
    g = draw(flow.flows(n=(3, 16), ops=draw(st.sampled_from([POST, POST, None]))))
    return dict(g=g, steps=draw(st.lists(st.tuples(st.integers(0, len(PATTERNS) - 1), st.booleans() | st.just(True)), min_size=1, max_size=4)))


SUBS = [Sub('chains', cases, check, 8000, 100000), Sub('patterns', pattern_cases, check_pattern, 6000, 80000)]
