"""C12: the memory plan never lets two live tensors share bytes."""
import math
from hypothesis import strategies as st
from ..core import *
from ..om import *
from .. import gen
import onnx_tool

PROPERTY = 'C12'
TECHNIQUE = 'property-based testing: generated graph topologies and tensor sizes, oracle = lifetimes recomputed from the nodes and an all-pairs overlap check'
LEVEL_NOTE = 'random search over graphs of up to about 40 nodes with tensor sizes from bytes to megabytes and alignments 1 to 4096'
RULE = ('A case is a graph (random dataflow with fan-out, concatenation, splits, in-graph outputs, unused outputs, several element types; or a generated '
        'operator graph), an alignment and a preparation (plain, reordered, folded). After shape inference the plan is checked against lifetimes computed '
        'from the node order. Non-trivial: the total is smaller than the sum of the padded sizes (memory is really shared).')
ASSUMPTIONS = ['nodes run in stored order; an input is live from the start, an output until the end', 'zero-size tensors need no storage', 'a tensor read inside a body of a control flow node is read by that node; such graphs are not inferred (the tool has no handler without fixed branches), the file tells every shape']


def check_plan(g, sizes, pad, bodies={}):
    """sizes: bytes of every activation; bodies: first output of a node -> what its bodies read"""
    with sut('compress_memory'):
        plan, total = g.compress_memory(pad) if pad != 64 else g.compress_memory()
    nodes = list(g.nodemap.values())
    outs = set(g.output)
    life = {}
    for t in g.input:
        life[t] = [-1, -1]
    for i, n in enumerate(nodes):
        for t in n.output:
            if t:
                life[t] = [i, i]
        for t in list(n.input) + bodies.get(n.output[0] if n.output else '', []):
            if t in life:
                life[t][1] = i
    for t in outs:
        if t in life:
            life[t][1] = len(nodes)
    life = {t: l for t, l in life.items() if sizes.get(t)}
    padded = {t: -(-sizes[t] // pad) * pad for t in life}
    for t in life:
        require(t in plan, 'activation %s (%d bytes) has no block', t, sizes[t])
        o, s = plan[t][0], plan[t][1]
        require(o >= 0 and o % pad == 0, 'block of %s starts at %s, not aligned to %d', t, o, pad)
        require(s >= sizes[t], 'block of %s has %s bytes, it needs %d', t, s, sizes[t])
        require(o + s <= total, 'block of %s ends at %s, the plan has %s bytes', t, o + s, total)
    ts = sorted(life, key=lambda t: plan[t][0])
    for i, a in enumerate(ts):
        for b in ts[i + 1:]:
            if plan[b][0] >= plan[a][0] + sizes[a]:
                continue
            if life[a][0] <= life[b][1] and life[b][0] <= life[a][1]:
                raise Violation('%s (lifetime %s, block %s) and %s (lifetime %s, block %s) are live at once and share bytes' % (
                    a, life[a], plan[a], b, life[b], plan[b]))
    require(total <= sum(padded.values()), 'the plan has %s bytes, the padded tensors sum to %s', total, sum(padded.values()))
    return total, sum(padded.values())


def prepare(model, how, shapes=None):
    with sut('loading and inference'):
        m = onnx_tool.Model(model, {'verbose': how == 'verbose', 'constant_folding': how == 'fold'})
        if how == 'reorder':
            m.graph.graph_reorder_nodes()
        m.graph.shape_infer(shapes)
        if how == 'twice':
            m.graph.compress_memory(256)
    return m.graph


def check_ops(case):
    c = case['g']
    model = gen.model_of(c)
    vals = dict(gen.ref_tensors(c, case['k'], model))
    vals.update(gen.feeds_of(c, case['k']))
    g = prepare(model, case['how'], gen.shapes_in(c, case['k']))
    total, raw = check_plan(g, {t: v.nbytes for t, v in vals.items()}, case['pad'])
    return Info(total < raw, [case['how']])


ESZ = {'f32': 4, 'f64': 8, 'f16': 2, 'u8': 1}


def flow_model(case):
    """rows of a [n, w] tensor; node kinds keep the number of rows known"""
    w = case['w']
    ts = []         # (name, type, rows)
    nodes, inits = [], []
    inputs = []
    bodies = {}
    for i, (dt, r) in enumerate(case['inputs']):
        inputs.append(['x%d' % i, dt, [r, w]])
        ts.append(('x%d' % i, dt, r))
    for i, n in enumerate(case['nodes']):
        a = ts[-1 - n['a'] % len(ts)]
        o = 't%d' % i
        k = n['op']
        if k == 'Concat':
            same = [t for t in ts if t[1] == a[1]]
            b = same[-1 - n['b'] % len(same)]
            nodes.append(dict(op='Concat', **{'in': [a[0], b[0]]}, out=[o], attrs={'axis': 0}, name=''))
            ts.append((o, a[1], a[2] + b[2]))
        elif k == 'Add':
            same = [t for t in ts if t[1] == a[1] and t[2] == a[2]]
            b = same[-1 - n['b'] % len(same)]
            nodes.append(dict(op='Add', **{'in': [a[0], b[0]]}, out=[o], attrs={}, name=''))
            ts.append((o, a[1], a[2]))
        elif k == 'Split' and a[2] >= 2:
            p = 1 + n['b'] % (a[2] - 1)
            inits.append(['s%d' % i, 'i64', [2], {'v': [p, a[2] - p]}, False])
            nodes.append(dict(op='Split', **{'in': [a[0], 's%d' % i]}, out=[o + 'a', o + 'b'], attrs={'axis': 0}, name=''))
            ts += [(o + 'a', a[1], p), (o + 'b', a[1], a[2] - p)]
        elif k == 'If':
            same = [t for t in ts if t[1] == a[1] and t[2] == a[2]]
            b = same[-1 - n['b'] % len(same)]
            cond = 'c%d' % (n['b'] % 2)
            deep = n['a'] % 3 == 2  # the body reads it in a body of its own

            def body(t, p):
                return dict(nodes=[dict(op='Identity', name='', attrs={}, **{'in': [t], 'out': [o + p]})], inputs=[], outputs=[[o + p, a[1], [a[2], w]]], gname=o + p + 'g')
            els = body(b[0], 'e') if not deep else dict(nodes=[dict(op='If', name='', attrs={'then_branch': {'graph': body(b[0], 'i')}, 'else_branch': {'graph': body(a[0], 'j')}},
                                                                    **{'in': [cond], 'out': [o + 'e']})], inputs=[], outputs=[[o + 'e', a[1], [a[2], w]]], gname=o + 'eg')
            nodes.append(dict(op='If', attrs={'then_branch': {'graph': body(a[0], 't')}, 'else_branch': {'graph': els}}, name='', **{'in': [cond], 'out': [o]}))
            bodies[o] = [a[0], b[0]]
            ts.append((o, a[1], a[2]))
        elif k == 'Cast':
            to = sorted(ESZ)[n['b'] % 4]
            nodes.append(dict(op='Cast', **{'in': [a[0]]}, out=[o], attrs={'to': ptdt(to)}, name=''))
            ts.append((o, to, a[2]))
        elif k == 'Sum1':
            if a[1] == 'u8':
                continue
            nodes.append(dict(op='ReduceMax', **{'in': [a[0]]}, out=[o], attrs={'keepdims': 0}, name=''))
            ts.append((o + '', a[1], 0))
            # a scalar goes back to rows through Expand-free Add
            same = [t for t in ts if t[1] == a[1] and t[2] > 0]
            b = same[-1 - n['b'] % len(same)]
            nodes.append(dict(op='Add', **{'in': [b[0], o]}, out=[o + 'r'], attrs={}, name=''))
            ts.remove((o, a[1], 0))
            ts.append((o + 'r', b[1], b[2]))
        else:
            nodes.append(dict(op='Identity' if k == 'Identity' or a[1] == 'u8' else 'Abs', **{'in': [a[0]]}, out=[o], attrs={}, name=''))
            ts.append((o, a[1], a[2]))
    sizes = {t: ESZ[dt] * r * w for t, dt, r in ts}
    for n in nodes:
        if n['op'] == 'ReduceMax':
            sizes[n['out'][0]] = ESZ[[t for t in ts if t[0] == n['in'][0]][0][1]]
    read = {i for n in nodes for i in n['in']} | {t for b in bodies.values() for t in b}
    prod = [t for t in ts if not t[0].startswith('x')]
    outs = [t for i, t in enumerate(prod) if t[0] not in read and case['drop'] % 7 or case['outs'] >> i % 24 & 1]
    outs = outs or prod[-1:]
    outs += [t for t in ts if t[0].startswith('x') and t[0] in read][:case.get('thru', 0)]     # an input may be an output as well
    inputs = [i for i in inputs if i[0] in read]
    for x in ('c0', 'c1'):
        if x in read:
            inputs.append([x, 'bool', []])
            sizes[x] = 1
    vinfo = [[t[0], t[1], [t[2], w]] for t in prod if t not in outs]
    vinfo += [[n['out'][0], [t for t in ts if t[0] == n['in'][0]][0][1], []] for n in nodes if n['op'] == 'ReduceMax']
    return build(dict(nodes=nodes, inputs=inputs, inits=inits, outputs=[[t[0], t[1], [t[2], w]] for t in outs], opset=17, vinfo=vinfo if bodies else [])), sizes, bodies


def check_flow(case):
    model, sizes, bodies = flow_model(case)
    try:
        onnx.checker.check_model(model)
    except Exception as e:
        raise HarnessError(str(e))
    if bodies:
        with sut('loading'):
            g = onnx_tool.Model(model, {'verbose': case['how'] == 'verbose'}).graph
            if case['how'] == 'reorder':
                g.graph_reorder_nodes()
    else:
        g = prepare(model, case['how'])
    total, raw = check_plan(g, sizes, case['pad'], bodies)
    return Info(total < raw, [case['how'] + ' bodies' * bool(bodies)])


HOW = ['plain', 'plain', 'reorder', 'fold', 'twice', 'verbose']
PADS = st.sampled_from([1, 2, 4, 16, 32, 64, 64, 64, 100, 128, 256, 1024, 4096])


@st.composite
def op_cases(draw):
    g = gen.graph(draw, {'n': (2, 10), 'blocks': [b for b in gen.ALLBLOCKS if b != 'if']})
    return dict(g=g, k=draw(st.integers(0, 1)), how=draw(st.sampled_from(HOW)), pad=draw(PADS))


@st.composite
def flow_cases(draw):
    rows = st.one_of(st.integers(1, 8), st.integers(1, 2000))
    op = st.sampled_from(['Concat', 'Add', 'Add', 'Split', 'Split', 'Cast', 'Abs', 'Abs', 'Identity', 'Sum1'] + draw(st.sampled_from([[], [], ['If', 'If']])))
    near = st.one_of(st.integers(0, 2), st.integers(0, 30))
    return dict(w=draw(st.sampled_from([1, 3, 16, 64, 100])), inputs=draw(st.lists(st.tuples(st.sampled_from(sorted(ESZ)), rows), min_size=1, max_size=3)),
                nodes=draw(st.lists(st.fixed_dictionaries(dict(op=op, a=near, b=near)), min_size=1, max_size=40)),
                outs=draw(st.sampled_from([0, 0, 1, 5, 0x11, 0x842])), drop=draw(st.integers(0, 20)), thru=draw(st.sampled_from([0, 0, 0, 0, 0, 1, 2])), how=draw(st.sampled_from(HOW)), pad=draw(PADS))


SUBS = [Sub('flow', flow_cases, check_flow, 8000, 150000), Sub('operators', op_cases, check_ops, 4000, 50000)]
