"""C17: fusing convolution and batch normalization keeps results."""
import os
from hypothesis import strategies as st
from ..core import *
from ..om import *
from .c06 import cmp_node
from .c09 import captured
from .c16 import reads
from .c19 import records
import onnx_tool
from onnx_tool.fusion import ConvBNFusion

PROPERTY = 'C17'
TECHNIQUE = 'property-based testing: generated convolution networks, differential execution before and after the fusion, independent rule for the pairs that must be fused'
LEVEL_NOTE = 'random search over networks of up to about 12 nodes in 1, 2 or 3 spatial dimensions; both models run in the ReferenceEvaluator'
RULE = ('A case is a network of convolutions (groups, strides, dilations, padding forms, with, without or omitted bias, weights and biases shared with other nodes or fed as graph '
        'inputs), batch normalizations (default or given epsilon, shared parameters, training mode, extra outputs), pointwise operators and If nodes reading convolution '
        'outputs, any tensor may be a graph output. It is fused as loaded, after inference or on the compute graph, saved, validated and executed. All remaining nodes and weights '
        'are compared. Non-trivial: at least one pair must be fused.')
ASSUMPTIONS = ['pairs which must be fused: 2-D kernels up to 7 given by kernel_shape, all parameters weights, the convolution output read by the batch normalization only, its weight by '
               'the convolution only, inference mode, one output; for all others both fusing and not fusing is accepted when results are kept']
SP = 6


def make(case):
    r, dt = case['rank'], case['dtype']
    nodes, inits, inputs, outs = [], [], [['x0', dt, [1, case['c']] + [SP] * r]], []
    ts = [('x0', case['c'], [SP] * r)]
    ws = {}

    def weight(shape, key, share, lo=-1, hi=1, dyn=False):
        k = (key, tuple(shape))
        if share and k in ws:
            return ws[k]
        n = 'w%d' % (len(inits) + len(inputs))
        if dyn:
            inputs.append([n, dt, list(shape)])
            return n
        inits.append([n, dt, list(shape), {'seed': len(inits) + 3, 'lo': lo, 'hi': hi}, len(inits) % 3 == 0])
        ws[k] = n
        return n
    for k, (op, src, a, b, c, out) in enumerate(case['nodes']):
        x, ch, sp = ts[-1 - src % len(ts)]
        y = 't%d' % k
        name = 'n%d' % k if case['named'] or k % 2 else ''
        if op == 'Conv':
            kk = [1, 2, 3, 3, 5, 1][a % 6]
            kk = [kk] * r
            if a % 11 == 9:
                kk[-1] = 1 + a % 3
            co = [2, 4, 3, ch][b % 4]
            g = [1, 1, ch, 2][b % 4 if b < 8 else 0]
            if ch % g or co % g:
                g = 1
            at = {'group': g} if g > 1 or b % 3 else {}
            d = 2 if c % 5 == 1 else 1
            s = 2 if c % 7 == 0 else 1
            pads = [(q - 1) * d // 2 for q in kk]
            pads = pads + [(q - 1) * d - p for p, q in zip(pads, kk)]
            at['pads'] = pads
            if d > 1:
                at['dilations'] = [d] * r
            if s > 1:
                at['strides'] = [s] * r
            if c % 6 != 5:
                at['kernel_shape'] = kk
            nsp = [(q + at['pads'][i] + at['pads'][r + i] - d * (kk[i] - 1) - 1) // s + 1 for i, q in enumerate(sp)]
            ins = [x, weight([co, ch // g] + kk, 'w', c in (2, 3), dyn=c == 13)]
            bias = ['no', 'yes', 'yes', 'omitted', 'no'][a % 5]
            if bias == 'yes':
                ins.append(weight([co], 'b', a in (1, 6), dyn=a == 11))
            elif bias == 'omitted':
                ins.append('')
            nodes.append(dict(op='Conv', **{'in': ins, 'out': [y]}, attrs=at, name=name))
            ts.append((y, co, nsp))
        elif op == 'BatchNormalization':
            sh = b % 3 == 1
            ins = [x, weight([ch], 'g', sh, dyn=b == 13), weight([ch], 'b', sh, dyn=b == 14), weight([ch], 'm', sh, dyn=b == 10), weight([ch], 'v', sh, 0.5, 2, dyn=b == 11)]
            at = [{}, {'epsilon': 1e-3}, {'epsilon': 0.25}, {'momentum': 0.5}, {'epsilon': 1e-3, 'training_mode': 0}][a % 5]
            o = [y]
            if case['opset'] >= 14 and c == 1:
                at = dict(at, training_mode=1)
                o = [y] + ([y + 'm', y + 'v'] if a % 2 else [])
            elif case['opset'] < 14:
                at.pop('training_mode', None)
            nodes.append(dict(op=op, **{'in': ins, 'out': o}, attrs=at, name=name))
            ts.append((y, ch, sp))
        elif op == 'Add':
            z = [t for t in ts if t[1:] == (ch, sp)]
            nodes.append(dict(op='Add', **{'in': [x, z[a % len(z)][0]], 'out': [y]}, attrs={}, name=name))
            ts.append((y, ch, sp))
        elif op == 'If':
            if not any(i[0] == 'cond' for i in inits):
                inits.append(['cond', 'bool', [], {'v': [1]}, False])
            br = [dict(gname=n, inputs=[], inits=[], nodes=[dict(op=o, **{'in': [x], 'out': [y + n]}, attrs={}, name='')], outputs=[[y + n, dt, None]])
                  for n, o in (('then', 'Neg'), ('else', 'Abs'))]
            nodes.append(dict(op='If', **{'in': ['cond'], 'out': [y]}, attrs={'then_branch': {'graph': br[0]}, 'else_branch': {'graph': br[1]}}, name=name))
            ts.append((y, ch, sp))
        else:
            nodes.append(dict(op=op, **{'in': [x], 'out': [y]}, attrs={}, name=name))
            ts.append((y, ch, sp))
        if out == 7:
            outs.append(ts[-1])
    read = {i for n in nodes for i in n['in']} | {n['attrs'][k]['graph']['nodes'][0]['in'][0] for n in nodes if n['op'] == 'If' for k in n['attrs']}
    for t in ts[1:]:
        if t[0] not in read and t not in outs:
            outs.append(t)
    if case['wout'] and any(n['op'] == 'Conv' for n in nodes):
        w = next(i for i in inits + inputs if i[0] == next(n for n in nodes if n['op'] == 'Conv')['in'][1])
        wout = [[w[0], dt, w[2]]]
    else:
        wout = []
    return dict(nodes=nodes, inits=inits, inputs=[i for i in inputs if i[0] in read], outputs=[[t[0], dt, [1, t[1]] + t[2]] for t in outs] + wout, opset=case['opset'])


def run(model, feeds):
    """the reference's BatchNormalization before version 14 always trains; the operators used mean the same at 17"""
    m = onnx.ModelProto()
    m.CopyFrom(model)
    m.opset_import[0].version = 17
    if not any(v.dtype == np.float16 for v in feeds.values()):
        return run_ref(m, feeds)
    # half precision models are run in double precision, so that only the rounding of the stored weights differs
    for i in m.graph.initializer:
        if i.data_type == TP.FLOAT16:
            i.CopyFrom(onnx.numpy_helper.from_array(onnx.numpy_helper.to_array(i).astype(np.float64), i.name))
    return run_ref(m, {k: v.astype(np.float64) for k, v in feeds.items()})


def must(nodes, weights, outputs):
    """indices of (conv, bn) which have to be fused"""
    r = []
    users = {}
    for i, n in enumerate(nodes):
        for t in reads(n):
            users.setdefault(t, set()).add(i)
    for i, n in enumerate(nodes):
        if n.op_type != 'BatchNormalization':
            continue
        c = next((j for j, m in enumerate(nodes) if m.op_type == 'Conv' and n.input[0] in m.output), None)
        if c is None:
            continue
        conv = nodes[c]
        at = attrs_of(conv)
        clear = ('kernel_shape' in at and len(at['kernel_shape'].ints) == 2 and max(at['kernel_shape'].ints) <= 7
                 and users[conv.output[0]] == {i} and conv.output[0] not in outputs
                 and all(t in weights for t in list(conv.input[1:]) if t) and all(t in weights for t in n.input[1:])
                 and users[conv.input[1]] == {c} and conv.input[1] not in outputs and len(n.output) == 1 and ('training_mode' not in attrs_of(n) or attrs_of(n)['training_mode'].i == 0))
        r.append((c, i, clear))
    return r


def check(case):
    spec = make(case)
    if not spec['outputs'] or not any(i[0] == 'x0' for i in spec['inputs']):
        raise Skip('no data path')
    model = build(spec)
    feeds = {i[0]: arr(i[1], i[2], {'seed': 50 + j, 'lo': 0.5, 'hi': 2}) for j, i in enumerate(spec['inputs'])}
    try:
        onnx.checker.check_model(model)
        ref = run(model, feeds)
    except Exception as e:
        raise Skip('reference: ' + str(e)[:40])
    nodes = list(model.graph.node)
    outputs = [o.name for o in model.graph.output]
    weights = {i.name for i in model.graph.initializer}
    pairs = must(nodes, weights, outputs)
    with scratch() as d:
        f = os.path.join(d, 'o.onnx')
        with sut('loading'):
            m = onnx_tool.Model(model, {'verbose': False})
        names = list(m.graph.nodemap)
        g = m.graph
        has_if = any(n.op_type == 'If' for n in nodes)
        via = case['via'] if not has_if else 'load'
        if via != 'load':
            with sut('shape_infer'):
                g.shape_infer(feeds)
            if via == 'cg':
                with sut('get_compute_graph'):
                    g = g.get_compute_graph()
        with sut('ConvBNFusion'):
            ConvBNFusion(g)
        if via == 'infer':
            with sut('shape_infer after the fusion'):
                g.shape_infer(feeds)
            for o, a in zip(outputs, ref):
                require(list(g.tensormap[o].get_shape()) == list(a.shape), 'shape of %s after the fusion is %s', o, g.tensormap[o].get_shape())
        records(g, 'after the fusion')
        with sut('save_model'):
            if case['reorder']:
                g.graph_reorder_nodes()
            g.save_model(f, rawmodel=model)
        s = onnx.load(f)
    check_valid(s, 'the fused model')
    require([o.name for o in s.graph.output] == outputs, 'graph outputs are %s, they were %s', [o.name for o in s.graph.output], outputs)
    left = {n.name: n for n in s.graph.node}
    gone = {i for i, n in enumerate(names) if n not in left}
    done = [(c, i) for c, i, _ in pairs if i in gone]
    require(gone == {i for _, i in done}, 'nodes %s are gone', [(names[i], nodes[i].op_type) for i in gone])
    for c, i, clear in pairs:
        require(i in gone or not clear, 'batch normalization %s after convolution %s is still there', names[i], names[c])
    require(len(s.graph.node) == len(nodes) - len(gone), '%d nodes in the fused model', len(s.graph.node))
    fused = {c: i for c, i in done}
    for i, n in enumerate(nodes):
        if i in gone:
            continue
        x = left[names[i]]
        if i not in fused:
            cmp_node(n, x, 'node %s' % names[i], names=bool(n.name))
        else:
            w = onnx.NodeProto()
            w.CopyFrom(n)
            w.output[0] = nodes[fused[i]].output[0]
            require(x.input[0] == n.input[0] and len(x.input) == 3, 'convolution %s reads %s', names[i], list(x.input))
            del w.input[:]
            w.input.extend(x.input)
            cmp_node(w, x, 'convolution %s' % names[i], names=bool(n.name))
    used = {t for i, n in enumerate(nodes) for t in reads(n) if i not in gone and i not in fused}
    sw = {i.name: i for i in s.graph.initializer}
    for i in model.graph.initializer:
        if i.name in used:
            require(i.name in sw and bits_equal(onnx.numpy_helper.to_array(sw[i.name]), onnx.numpy_helper.to_array(i)), 'weight %s of a node that is not fused changed', i.name)
    try:
        out = run(s, feed(s, feeds))
    except KeyError as e:
        raise Violation('the fused model asks for input %s' % e)
    except Exception as e:
        raise Violation('the fused model does not run: %s' % str(e)[:200])
    for o, a, b in zip(outputs, ref, out):
        scale = max(1.0, float(np.abs(a.astype(np.float64)).max(initial=0)))
        tol = {'f32': 1e-4, 'f64': 1e-6, 'f16': 3e-2}[case['dtype']]
        require(a.dtype == b.dtype and a.shape == b.shape and bool(np.allclose(a.astype(np.float64) / scale, b.astype(np.float64) / scale, rtol=tol, atol=tol)),
                'output %s differs after the fusion (fused pairs %s)', o, [(names[c], names[i]) for c, i in done])
    return Info(any(c for _, _, c in pairs), [via, 'rank%d' % case['rank'], case['dtype'], 'pairs%d' % len(done), 'must%d' % sum(c for _, _, c in pairs)])


OPL = ['Conv', 'Conv', 'Conv', 'BatchNormalization', 'BatchNormalization', 'BatchNormalization', 'Relu', 'Add', 'If']


@st.composite
def cases(draw):
    i16 = st.integers(0, 15)
    nodes = []
    for _ in range(draw(st.integers(1, 5))):
        if draw(st.integers(0, 3)):
            nodes.append(['Conv', draw(st.integers(0, 2)), draw(i16), draw(i16), draw(i16), draw(i16)])
            nodes.append(['BatchNormalization', 0 if draw(st.integers(0, 5)) else draw(st.integers(0, 2)), draw(i16), draw(i16), draw(st.integers(0, 9)), draw(i16)])
        else:
            nodes.append([draw(st.sampled_from(OPL)), draw(st.integers(0, 2)), draw(i16), draw(i16), draw(i16), draw(st.integers(0, 9))])
    return dict(rank=draw(st.sampled_from([2, 2, 2, 2, 1, 3])), dtype=draw(st.sampled_from(['f32', 'f32', 'f32', 'f64', 'f16'])), c=draw(st.sampled_from([2, 3, 4])), nodes=nodes,
                opset=draw(st.sampled_from([11, 13, 14, 15, 17])), named=draw(st.integers(0, 3)) > 0, via=draw(st.sampled_from(['load', 'load', 'infer', 'cg'])), reorder=draw(st.booleans()),
                wout=draw(st.integers(0, 11)) == 0)


SUBS = [Sub('fuse', cases, check, 14000, 150000)]
