"""C32: reading a model changes neither the graph nor the arguments."""
import copy, json, os, pathlib
from hypothesis import strategies as st
from ..core import *
from ..om import *
from .. import gen
import onnx_tool
from onnx_tool import fusion
from onnx_tool.serialization import serialize_graph, serialize_memory_compression
from onnx_tool.quantization import graph_quantize

PROPERTY = 'C32'
TECHNIQUE = 'stateful property-based testing: generated sequences of reading calls on one loaded graph and of API calls sharing their arguments, with full snapshots of graph, files and arguments as invariant'
LEVEL_NOTE = 'random search over generated graphs and sequences of up to 6 calls; snapshots cover the public state of the graph and every argument'
RULE = ('reads: a loaded and inferred graph, then up to 6 reading calls (report, plan, compute graph, search for patterns, subgraphs, export, saving in all forms, inference again); after each '
        'the nodes, attributes, connections, shapes, types, weights, figures and the saved file are as before. args: up to 6 API calls sharing the model object, arrays, dictionaries and '
        'lists; afterwards every argument and the source file have the same content. Non-trivial: at least two calls went through.')
ASSUMPTIONS = ['a call which raises must leave its arguments alone as well', 'editing methods of a graph change that graph only']


def snap(x):
    if isinstance(x, np.ndarray):
        return 'array', str(x.dtype), x.shape, x.tobytes()
    if isinstance(x, dict):
        return 'dict', [(k, snap(v)) for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return type(x).__name__, [snap(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return 'set', sorted(map(repr, x))
    if hasattr(x, 'SerializeToString'):
        return 'proto', x.SerializeToString(deterministic=True)
    return repr(x)


def node_state(n):
    return [n.op_type, list(n.input), list(n.output), n.make_nodeproto().SerializeToString(deterministic=True)]


def state(m, figures=False):
    g = m.graph
    r = dict(nodes=[(k, node_state(n)) for k, n in g.nodemap.items()], inputs=list(g.input), outputs=list(g.output), weights=sorted(g.initials), dynamic=sorted(set(g.dynamics)),
             tensors={k: (list(t.get_shape()), str(np.dtype(t.dtype))) for k, t in g.tensormap.items() if k},
             values={k: snap(np.asarray(g.tensormap[k].numpy)) for k in g.initials},
             producers={k: sorted(v) for k, v in g.producedby.items() if len(v)}, consumers={k: sorted(v) for k, v in g.consumedby.items() if len(v) and k})
    if figures:
        r['figures'] = [(k, n.macs, n.params, n.memory, snap(n.inshape), snap(n.outshape)) for k, n in g.nodemap.items()]
        r['totals'] = [snap(g.macs), g.params, g.memory]
    return r


def differ(a, b, what):
    for k in a:
        if a[k] != b[k]:
            if isinstance(a[k], dict):
                d = [(x, a[k].get(x), b[k].get(x)) for x in list(a[k]) + list(b[k]) if a[k].get(x) != b[k].get(x)][0]
            else:
                d = next(((x, y) for x, y in zip(a[k], b[k]) if x != y), (len(a[k]), len(b[k])))
            raise Violation('%s changed the %s of the graph: %s' % (what, k, str(d)[:300]))


PATTERNS = [fusion.ConvBN, fusion.Conv_Res, fusion.Fused_Element, fusion.layernorm_pattern]


def check_reads(case):
    c = case['g']
    model = gen.model_of(c)
    gen.ref_tensors(c, 0, model)
    ins = gen.feeds_of(c) if case['data'] else gen.shapes_in(c, 0)
    hasif = any(n.op_type == 'If' for n in model.graph.node) or bool(model.functions)
    done, labels = 0, []
    with scratch() as d:
        with sut('loading'):
            m = onnx_tool.Model(model, {'verbose': False})
            g = m.graph
            if not hasif:
                g.shape_infer(ins)
                g.profile()
        f = os.path.join(d, 'saved.onnx')

        def save():
            with sut('saving'):
                m.save_model(f)
            return onnx.load(f).SerializeToString(deterministic=True)
        if case['save_first']:
            file = save()
        before = state(m, not hasif)
        names = list(g.nodemap)
        dyn = [o for n in g.nodemap.values() for o in n.output if o]
        for op, i, j in case['ops']:
            some = [names[(i + k * (1 + j)) % len(names)] for k in range(1 + j % 3)]
            some = list(dict.fromkeys(some))
            out = os.path.join(d, 'out%d' % (i % 3))
            need = op in ('print', 'plan', 'compute', 'infer', 'profile', 'serialize', 'excluded')
            if hasif and need:
                continue
            try:
                if op == 'print':
                    g.print_node_map([None, out + '.txt', out + '.csv'][i % 3], ['MACs', 'FLOPs'][j % 2], [None, ['Add', 'Relu']][i % 2])
                elif op == 'plan':
                    g.compress_memory([1, 64, 4096][i % 3])
                elif op == 'compute':
                    cg = g.get_compute_graph()
                    if j % 2:
                        cg.graph_reorder_nodes()
                    if j % 3 == 1:
                        cg.remove_dangling_nodes()
                    if j % 4 > 1:
                        cg.save_model(out + '.onnx', rawmodel=model)
                elif op == 'infer':
                    g.shape_infer(ins)
                    g.profile()
                elif op == 'excluded':
                    g.profile(['Conv', 'Add'])
                    g.profile()
                elif op == 'pattern':
                    p = PATTERNS[i % len(PATTERNS)] if j % 2 else fusion.create_descs_from_nodenames(g, some)
                    q = fusion.FusionPattern(p, bool(i % 2))
                    q.search_pattern(g)
                elif op == 'byname':
                    sg = onnx_tool.Graph(g.get_onnxgraph_by_nodenames(some), onnx_tool.utils.ModelConfig({'verbose': False}))
                    if j % 2:
                        sg.save_model(out + '.onnx', rawmodel=model)
                elif op == 'cut':
                    a, b = [dyn[i % len(dyn)]], [dyn[j * 7 % len(dyn)]]
                    g.get_subgraph(a, b)
                elif op == 'tensors':
                    g.get_iotensors(some), g.get_initials_from_nodenames(some), g.get_dynamic_tensors()
                elif op == 'save':
                    m.save_model(out + '.onnx', shape_only=bool(i % 2), no_shape=bool(j % 2))
                elif op == 'serialize':
                    serialize_memory_compression(g.compress_memory(64), {'N': 1}, out + '.cm')
                    serialize_graph(g, out + '.cg')
                elif op == 'proto':
                    for n in g.nodemap.values():
                        p = n.make_nodeproto()
                        p.output[0] = 'changed'
                        for at in p.attribute:
                            at.name = 'changed'
                elif op == 'graphproto':
                    p = g.make_graph_onnx(some, 'part', *[list(x) for x in g.get_iotensors(some)])
                    p.node[0].op_type = 'changed'
                    for t in p.initializer:
                        t.name = 'changed'
                done += 1
            except Exception as e:
                if op in ('print', 'plan', 'compute', 'infer', 'profile', 'excluded', 'save', 'tensors', 'proto'):
                    raise Violation('%s raised %s: %s' % (op, type(e).__name__, str(e)[:300]))
                labels.append('%s raised' % op)
            labels.append(op)
            with sut('looking at the graph'):
                differ(before, state(m, not hasif), 'the call "%s"' % op)
        if not case['save_first']:
            ref = onnx_tool.Model(gen.model_of(c), {'verbose': False})
            if not hasif:
                with sut('inference'):
                    ref.graph.shape_infer(ins)
            ref.save_model(f)
            file = onnx.load(f).SerializeToString(deterministic=True)
        require(save() == file, 'after reading calls (%s) the graph saves another file', ', '.join(o[0] for o in case['ops']))
    return Info(done >= 2, labels)


def check_args(case):
    c = case['g']
    model = gen.model_of(c)
    gen.ref_tensors(c, 0, model)
    done, labels = 0, []
    names = [n.name for n in model.graph.node if n.name]
    tens = [o for n in model.graph.node for o in n.output if o]
    gin = model.graph.input[0]
    with scratch() as d:
        src = os.path.join(d, 'source.onnx')
        onnx.save_model(model, src)
        byts = open(src, 'rb').read()
        A = dict(model=model, shapes=gen.shapes_in(c, 0), feeds=gen.feeds_of(c), exclude=['Add', 'Relu', 'Conv'], hidden={'Identity', 'Constant', 'Mul'}, metric_exclude=['Add'],
                 cfg={'verbose': False}, cfg2={'verbose': False, 'constant_folding': True, 'node_rename': True}, names=names[case['i'] % max(1, len(names)):][:2], tensors=tens[-3:], more=tens[:2],
                 io={gin.name: 'x'.join('q%d' % i if i % 2 else str(5 + i) for i in range(len(gin.type.tensor_type.shape.dim)))},
                 desc={n: [x for x in dd] for n, dt, dd in c['spec']['inputs']}, range={}, patterns=[fusion.Fused_Element, fusion.ConvBN], weight=np.arange(-60, 60, dtype=np.float32).reshape(10, 12),
                 nomacs=onnx_tool.NoMacsOps if hasattr(onnx_tool, 'NoMacsOps') else 0)
        for n, dt, dd in c['spec']['inputs']:
            for x in dd:
                if isinstance(x, str):
                    A['range'][x] = [c['assign'][0][x], c['assign'][0][x] + 2]
        before = {k: snap(v) for k, v in A.items()}
        for op, i, j in case['ops']:
            what = [A['model'], src, pathlib.Path(src)][i % 3]
            out = os.path.join(d, 'out%d' % (j % 3))
            shapes = A['feeds'] if j % 2 else A['shapes']
            try:
                if op == 'model_profile':
                    kw = [dict(), dict(exclude_ops=A['exclude']), dict(hidden_ops=A['hidden']), dict(hidden_ops=A['exclude'], exclude_ops=A['hidden']), dict(mcfg=A['cfg2'])][i % 5]
                    onnx_tool.model_profile(what, shapes, save_profile=out + '.csv', save_model=out + '.onnx', shape_only=bool(j % 2), **kw)
                elif op == 'fold':
                    onnx_tool.model_constant_folding(what, out + '.onnx')
                elif op == 'reorder':
                    onnx_tool.model_reorder_nodes(what, out + '.onnx')
                elif op == 'iomod':
                    onnx_tool.model_io_modify(what, out + '.onnx', A['io'])
                elif op == 'export':
                    onnx_tool.model_export_tensors_numpy(what, A['tensors'] if j % 2 else None, out, bool(i % 2))
                elif op == 'subgraph':
                    onnx_tool.model_subgraph(what, nodenames=A['names'], save_folder=d)
                elif op == 'cut':
                    onnx_tool.model_subgraph(what, in_tensor_names=A['more'], out_tensor_names=A['tensors'], save_folder=d)
                elif op == 'opfusion':
                    onnx_tool.model_opfusion(what, 'Fused', 'fused', out + '.onnx', nodenames=A['names'], keep_attr=bool(j % 2))
                elif op == 'iofusion':
                    onnx_tool.model_opfusion(what, 'Fused', 'fused', out + '.onnx', in_tensor_names=A['more'], out_tensor_names=A['tensors'])
                elif op == 'regress':
                    onnx_tool.model_shape_regress(what, A['desc'], A['range'])
                else:
                    m = onnx_tool.Model(what, [A['cfg'], A['cfg2'], dict(A['cfg'], fixed_topk=2), dict(A['cfg'], if_fixed_branch='else')][j % 4])
                    g = m.graph
                    if op == 'value':
                        r = g.value_infer(A['feeds'])
                        for x in r:
                            if x is not None and i % 2 and x.flags.writeable and not any(np.shares_memory(x, y) for y in A['feeds'].values()):
                                x.fill(0)
                    elif op == 'infer':
                        g.shape_infer(shapes)
                        g.profile(A['exclude'])
                        g.print_node_map(out + '.csv', exclude_ops=A['metric_exclude'])
                        m.save_model(out + '.onnx')
                    elif op == 'dump':
                        g.add_dump_tensors(A['more'])
                        g.fuse_subgraph_node_names(A['names'], 'Fused', 'fused', bool(i % 2))
                        m.save_model(out + '.onnx')
                    elif op == 'postop':
                        g.fuse_postop_node_names(A['names'], bool(i % 2), extra=3)
                        m.save_model(out + '.onnx')
                    elif op == 'search':
                        p = fusion.FusionPattern(A['patterns'][i % 2], bool(i % 2))
                        for nn in p.search_pattern(g):
                            g.fuse_postop_node_names(nn, True)
                        m.save_model(out + '.onnx')
                    elif op == 'convbn':
                        fusion.ConvBNFusion(g)
                        m.save_model(out + '.onnx')
                    elif op == 'quantize':
                        for t in list(g.initials):
                            graph_quantize(g, t, block=[-1, 4][i % 2], type=['sym', 'asym'][j % 2], bits=[4, 8][i % 2])
                        onnx_tool.quantization.quantize(A['weight'], [-1, 3, 5][i % 3], ['sym', 'asym'][j % 2], [4, 8][i % 2])
                        m.save_model(out + '.onnx')
                    elif op == 'edit':
                        g.remove_node(list(g.nodemap)[i % len(g.nodemap)])
                        fusion.removeShapeOps(g)
                        g.add_initial('a new one', A['weight'])
                        g.remove_dangling_nodes()
                        m.save_model(out + '.onnx')
                done += 1
            except (Exception, SystemExit) as e:
                labels.append('%s raised' % op)
            labels.append(op)
            for k, v in A.items():
                require(snap(v) == before[k], 'the call "%s" changed the argument "%s" of the caller', op, k)
            require(open(src, 'rb').read() == byts, 'the call "%s" changed the source file', op)
    return Info(done >= 2, labels)


READS = ['print', 'plan', 'compute', 'infer', 'excluded', 'pattern', 'byname', 'cut', 'tensors', 'save', 'serialize', 'proto', 'graphproto']
CALLS = ['model_profile', 'fold', 'reorder', 'iomod', 'export', 'subgraph', 'cut', 'opfusion', 'iofusion', 'regress', 'value', 'infer', 'dump', 'postop', 'search', 'convbn', 'quantize', 'edit']


@st.composite
def s_reads(draw):
    g = gen.graph(draw, {'forms': ['fn', 'old', 'over'], 'n': (1, 6), 'K': 1, 'const_out': True, 'blocks': gen.ALLBLOCKS + draw(st.sampled_from([[], ['pass'], ['if'] * 3]))})
    ops = draw(st.lists(st.tuples(st.sampled_from(READS), st.integers(0, 11), st.integers(0, 11)), min_size=1, max_size=6))
    return dict(g=g, ops=ops, data=draw(st.booleans()), save_first=draw(st.booleans()))


@st.composite
def s_args(draw):
    g = gen.graph(draw, {'forms': ['fn', 'old', 'over'], 'n': (1, 5), 'K': 1, 'blocks': gen.ALLBLOCKS + draw(st.sampled_from([[], ['pass'], ['if'] * 3, ['nn'] * 6]))})
    ops = draw(st.lists(st.tuples(st.sampled_from(CALLS), st.integers(0, 11), st.integers(0, 11)), min_size=1, max_size=5))
    return dict(g=g, ops=ops, i=draw(st.integers(0, 9)))


SUBS = [Sub('reads', s_reads, check_reads, 8000, 100000), Sub('args', s_args, check_args, 8000, 100000)]
