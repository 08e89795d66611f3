"""C16: subgraph fusion preserves the graph around it."""
import os
from collections import Counter
from hypothesis import strategies as st
from ..core import *
from ..om import *
from .. import flow, gen
from .c06 import cmp_node
from .c09 import captured, topo_ok
from .c15 import all_matches, describe, connected
from .c19 import records
import onnx_tool

PROPERTY = 'C16'
TECHNIQUE = 'property-based testing: generated graphs and convex node sets, oracle = boundary tensors, remaining nodes and records recomputed from the original node list'
LEVEL_NOTE = 'random search over dataflow graphs and operator graphs (control flow included) of up to about 30 nodes'
RULE = ('A case is a graph and a convex set of nodes, given by names, by boundary tensors (all disjoint occurrences of the pattern between them are fused) or through '
        'model_opfusion. The new node, its boundary, kept attributes, the other nodes, graph inputs and outputs, weights and records are compared with the '
        'original graph; reordered and saved it is still topologically ordered. Non-trivial: the set has at least two nodes and not all nodes.')
ASSUMPTIONS = ['an output nobody reads may or may not count as leaving the set', 'attributes of fused nodes are named <op type><index>_<name>, any prefix beginning with the op type is accepted']


def reads(n):
    return [t for t in n.input if t] + sorted(captured(n))


def convex(nodes, sel):
    """closure of sel under paths between its members"""
    prod = {t: i for i, n in enumerate(nodes) for t in n.output if t}
    succ = {i: set() for i in range(len(nodes))}
    for i, n in enumerate(nodes):
        for t in reads(n):
            if t in prod:
                succ[prod[t]].add(i)

    def reach(start, nxt):
        seen, todo = set(), list(start)
        while todo:
            k = todo.pop()
            for m in nxt[k]:
                if m not in seen:
                    seen.add(m)
                    todo.append(m)
        return seen
    pred = {i: {j for j in succ if i in succ[j]} for i in succ}
    return set(sel) | (reach(sel, succ) & reach(sel, pred))


def pick(nodes, start, grow):
    N = len(nodes)
    sel = {start % N}
    for s in grow:
        c = sorted({j for k in sel for j in range(N) if j not in sel and (set(reads(nodes[j])) & set(nodes[k].output) or set(reads(nodes[k])) & set(nodes[j].output))})
        c = c if c and s % 7 else [j for j in range(N) if j not in sel]
        if not c:
            break
        sel.add(c[s % len(c)])
    return convex(nodes, sel)


def boundary(nodes, sel, outputs):
    inner = {t for i in sel for t in nodes[i].output if t}
    ins = {t for i in sel for t in nodes[i].input if t} - inner
    capt = {t for i in sel for t in captured(nodes[i])} - inner
    used = {t for j, n in enumerate(nodes) if j not in sel for t in reads(n)} | set(outputs)
    allread = {t for n in nodes for t in reads(n)}
    return ins, capt, inner & used, inner - allread - set(outputs)


def check_new(x, ntype, nodes, seq, outputs, keep, what):
    """x: NodeProto of the fused node; seq: fused node indices (order given)"""
    ins, capt, outs, unread = boundary(nodes, set(seq), outputs)
    require(x.op_type == ntype, '%s: the new node is a %s', what, x.op_type)
    got = list(x.input)
    require(ins <= set(got) <= ins | capt, '%s: the new node reads %s, entering are %s', what, got, sorted(ins))
    require(len(got) == len(set(got)), '%s: the new node reads %s', what, got)
    got = list(x.output)
    require(outs <= set(got) <= outs | unread and len(got) == len(set(got)), '%s: the new node writes %s, leaving are %s', what, got, sorted(outs))
    if keep:
        left = list(x.attribute)
        for i in seq:
            for a in nodes[i].attribute:
                k = next((k for k, b in enumerate(left) if b.name.startswith(nodes[i].op_type) and b.name.endswith('_' + a.name) and same_value(a, b)), None)
                require(k is not None, '%s: attribute %s of the fused %s is not kept (%s)', what, a.name, nodes[i].op_type, [b.name for b in x.attribute])
                left.pop(k)
        require(len({a.name for a in x.attribute}) == len(x.attribute), '%s: attributes share a name', what)
    else:
        require(not x.attribute, '%s: attributes %s kept', what, [a.name for a in x.attribute])


def same_value(a, b):
    x = onnx.AttributeProto()
    x.CopyFrom(b)
    x.name = a.name
    return attr_equal(a, x)


def rest_unchanged(g, names, nodes, gone, model, new):
    left = [n for i, n in enumerate(names) if i not in gone]
    require([n for n in g.nodemap if n not in new] == left, 'the other nodes are %s, expected %s', [n for n in g.nodemap if n not in new], left)
    for i, n in enumerate(names):
        if i not in gone:
            cmp_node(nodes[i], g.nodemap[n].make_nodeproto(), 'node %s' % n, names=bool(nodes[i].name))
    require(list(g.output) == [o.name for o in model.graph.output], 'the graph outputs are %s, they were %s', list(g.output), [o.name for o in model.graph.output])
    records(g, 'after fusing')
    for i in model.graph.initializer:
        if i.name in g.initials:
            require(bits_equal(g.tensormap[i.name].numpy, onnx.numpy_helper.to_array(i)), 'weight %s changed', i.name)


def saved_ok(m, model, fused, gone, ntypes):
    """reorder, save: still ordered, same inputs, outputs and weights"""
    with scratch() as d:
        f = os.path.join(d, 'o.onnx')
        with sut('reorder and save'):
            m.graph.graph_reorder_nodes()
            m.save_model(f)
        s = onnx.load(f)
    check_file(s, model, fused, gone)


def check_file(s, model, fused, gone):
    read = {t for n in model.graph.node for t in reads(n)}
    want = [i.name for i in model.graph.input if i.name in read | {o.name for o in model.graph.output}]
    require([i.name for i in s.graph.input if i.name in {j.name for j in model.graph.input}] == want, 'inputs of the saved model are %s, expected %s', [i.name for i in s.graph.input], want)
    require([o.name for o in s.graph.output] == [o.name for o in model.graph.output], 'outputs of the saved model are %s', [o.name for o in s.graph.output])
    ws = {i.name: i for i in s.graph.initializer}
    left = {t for n in s.graph.node for t in reads(n)}
    for i in model.graph.initializer:
        if i.name in left:
            require(i.name in ws and bits_equal(onnx.numpy_helper.to_array(ws[i.name]), onnx.numpy_helper.to_array(i)), 'weight %s is not in the saved model', i.name)
    require(len(s.graph.node) == len(model.graph.node) - gone + fused, 'the saved model has %d nodes, expected %d', len(s.graph.node), len(model.graph.node) - gone + fused)
    bad = topo_ok(s.graph.node, list(ws) + [i.name for i in s.graph.input])
    require(bad is None, 'the saved model is not in order: %s', bad)


def load(case):
    c = case['g']
    model = gen.model_of(c) if 'spec' in c else build(flow.make(c))
    nodes = list(model.graph.node)
    with sut('loading'):
        m = onnx_tool.Model(model, {'verbose': False})
    names = list(m.graph.nodemap)
    require(len(names) == len(nodes), 'nodes lost')
    return model, nodes, m, names


def check_names(case):
    model, nodes, m, names = load(case)
    g = m.graph
    if case['via']:     # the model level function works on files and names
        names = [n.name for n in nodes]
        if len(set(names)) < len(names) or '' in names:
            raise Skip('names are generated')
    sel = sorted(pick(nodes, case['start'], case['grow']))
    seq = [sel[i] for i in sorted(range(len(sel)), key=lambda i: (case['perm'][i % len(case['perm'])], i))]
    edited = case['edit'] and not case['via'] and nodes[seq[0]].attribute
    if edited:      # an attribute changed through the API before fusing
        a = nodes[seq[0]].attribute[0]
        if a.type == onnx.AttributeProto.INT:
            a.i += 1
            with sut('set_attr'):
                g.nodemap[names[seq[0]]].set_attr(a.name, a.i)
    newname = names[seq[0]] if case['name'] == 0 else 'fused'
    what = 'fusing %s' % [(names[i], nodes[i].op_type) for i in seq]
    inner = {t for i in seq for t in nodes[i].output if t}
    keep = case['keep'] and not any(captured(nodes[i]) & inner for i in seq)    # a kept body would read a tensor that is no longer there
    if case['via']:
        with scratch() as d:
            f = os.path.join(d, 'o.onnx')
            with sut('model_opfusion'):
                onnx_tool.model_opfusion(model, 'Fused', newname, f, nodenames=[names[i] for i in seq], keep_attr=keep)
            s = onnx.load(f)
        new = [n for n in s.graph.node if n.op_type == 'Fused']
        require(len(new) == 1 and new[0].name == newname, '%s: new nodes are %s', what, [n.name for n in new])
        check_new(new[0], 'Fused', nodes, seq, [o.name for o in model.graph.output], keep, what)
        require(len(s.graph.node) == len(nodes) - len(seq) + 1, '%s: %d nodes in the file', what, len(s.graph.node))
        left = [n for n in s.graph.node if n.op_type != 'Fused']
        for a, b in zip([n for i, n in enumerate(nodes) if i not in sel], left):
            cmp_node(a, b, 'node in the file')
        require([o.name for o in s.graph.output] == [o.name for o in model.graph.output], 'outputs in the file are %s', [o.name for o in s.graph.output])
        return Info(1 < len(sel) < len(nodes), ['file'])
    with sut('fuse_subgraph_node_names'):
        if keep:
            g.fuse_subgraph_node_names([names[i] for i in seq], 'Fused', newname)
        else:
            g.fuse_subgraph_node_names([names[i] for i in seq], 'Fused', newname, False)
    if case['perm'][0] == 1 or len(sel) % 3 == 2:
        with sut('update_graph'):
            g.update_graph()
    require(newname in g.nodemap, '%s: no node %s', what, newname)
    x = g.nodemap[newname].make_nodeproto()
    require(x.name == newname, '%s: the new node is named %s', what, x.name)
    check_new(x, 'Fused', nodes, seq, [o.name for o in model.graph.output], keep, what)
    rest_unchanged(g, names, nodes, set(seq), model, {newname})
    saved_ok(m, model, 1, len(seq), None)
    return Info(1 < len(sel) < len(nodes), ['%d' % min(len(sel), 5), 'If' if any(n.op_type == 'If' for n in nodes) else 'flow'])


def check_tensors(case):
    model, nodes, m, names = load(case)
    g = m.graph
    # the nodes between two sets of tensors
    tens = [t for n in nodes for t in n.output if t] + [i.name for i in model.graph.input]
    base = pick(nodes, case['start'], case['grow'])
    ins, capt, outs, _ = boundary(nodes, base, [o.name for o in model.graph.output])
    weights = {i.name for i in model.graph.initializer}
    ins = sorted(ins - weights)
    if not ins:
        raise Skip('no entering tensor')
    if case['one']:
        prod = {t for i in base for t in nodes[i].output if t}
        own = [t for t in ins if all(i in base for i, n in enumerate(nodes) if t in n.input)]
        ins = own or ins[:1]
        outs = sorted(outs) or sorted(prod)
    cons = {t: [i for i, n in enumerate(nodes) if t in n.input] for t in tens}

    def down(ts):
        seen, todo = set(), list(ts)
        while todo:
            for i in cons.get(todo.pop(), []):
                if i not in seen:
                    seen.add(i)
                    todo += [t for t in nodes[i].output if t]
        return seen
    level1 = sorted(down(ins) - down(outs))
    if not level1:
        raise Skip('nothing between the tensors')
    ns = [dict(op=n.op_type, attrs={}, **{'in': list(n.input), 'out': list(n.output)}) for n in nodes]
    descs = describe(ns, level1, None)
    if len(level1) > 4 and not connected(descs):
        raise Skip('large disconnected pattern')
    occ = {frozenset(s) for s in all_matches(ns, descs, False, 200, True)}
    if any(a != b and a & b for a in occ for b in occ):
        raise Skip('occurrences overlap')
    outputs = [o.name for o in model.graph.output]
    if case['via']:
        with scratch() as d:
            f = os.path.join(d, 'o.onnx')
            with sut('model_opfusion'):
                onnx_tool.model_opfusion(model, 'Fused', 'F', f, in_tensor_names=ins, out_tensor_names=sorted(outs), keep_attr=case['keep'])
            s = onnx.load(f)
        new = [n for n in s.graph.node if n.op_type == 'Fused']
        require(len(s.graph.node) == len(nodes) - sum(map(len, occ)) + len(occ), '%d nodes in the file', len(s.graph.node))
    else:
        prefix = [None, 'F'][case['name'] % 2]
        with sut('fuse_subgraph_iotensors'):
            g.fuse_subgraph_iotensors(inputs=ins, outputs=sorted(outs), nodeop='Fused', name_prefix=prefix, keep_attr=case['keep'])
        if case['start'] % 3 == 1:
            with sut('update_graph'):
                g.update_graph()
        newn = [n for n in g.nodemap if g.nodemap[n].op_type == 'Fused']
        new = [g.nodemap[n].make_nodeproto() for n in newn]
        for n in newn:
            require(n.startswith('F_') if prefix else n in names, 'new node is named %s', n)
        rest_unchanged(g, names, nodes, {i for s in occ for i in s}, model, set(newn))
    require(len(new) == len(occ), '%d new nodes, there are %d occurrences of the nodes between %s and %s', len(new), len(occ), ins, sorted(outs))
    left = list(new)
    for s in occ:
        e = None
        for k, x in enumerate(left):
            try:
                check_new(x, 'Fused', nodes, sorted(s), outputs, case['keep'], 'fusing')
                left.pop(k)
                break
            except Violation as v:
                e = v
        else:
            raise e
    require(len({n.name for n in new}) == len(new), 'new nodes share a name')
    # quotient graph acyclic?
    grp = {i: k for k, s in enumerate(sorted(map(sorted, occ))) for i in s}
    if all(convex(nodes, s) == set(s) for s in occ) and len(occ) == 1 and not case['via']:
        saved_ok(m, model, len(occ), sum(map(len, occ)), None)
    return Info(len(level1) > 1, ['occ%d' % min(len(occ), 4), 'size%d' % min(len(level1), 6)])


@st.composite
def name_cases(draw):
    if draw(st.integers(0, 2)):
        g = draw(flow.flows(n=(2, 14), names=('all', 'all', 'some'), ops=flow.MORE))
    else:
        g = gen.graph(draw, {'forms': ['fn', 'old', 'over'], 'n': (2, 8), 'blocks': gen.ALLBLOCKS + draw(st.sampled_from([[], ['if'] * 4, ['pass']]))})
    return dict(g=g, start=draw(st.integers(0, 30)), grow=draw(st.lists(st.integers(0, 30), min_size=draw(st.integers(0, 2)), max_size=5)), perm=draw(st.sampled_from([[0], [0], [1, 0], [2, 0, 1]])),
                keep=draw(st.booleans()), name=draw(st.integers(0, 1)), via=draw(st.integers(0, 4)) == 0, edit=draw(st.integers(0, 3)) == 0)


@st.composite
def tensor_cases(draw):
    g = draw(flow.flows(copies=draw(st.integers(0, 3)) > 0, n=(2, 12)))
    return dict(g=g, start=draw(st.integers(0, 30)), grow=draw(st.lists(st.integers(0, 30), max_size=4)), one=draw(st.booleans()), keep=draw(st.booleans()), name=draw(st.integers(0, 1)), via=draw(st.integers(0, 4)) == 0)


SUBS = [Sub('names', name_cases, check_names, 12000, 120000), Sub('tensors', tensor_cases, check_tensors, 10000, 120000)]
