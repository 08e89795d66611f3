"""C06: load/save round trip without editing."""
import os
from hypothesis import strategies as st
from ..core import *
from ..om import *
from .. import gen
import onnx_tool

PROPERTY = 'C06'
TECHNIQUE = 'property-based testing: load/save round trip over generated models, structural comparison and bit-exact differential execution'
LEVEL_NOTE = 'random search over generated graphs (control flow, custom-domain nodes, every attribute kind, omitted inputs/outputs, pass-through outputs, unused tensors); trusts onnx.checker and the ReferenceEvaluator'
RULE = ('A case is a generated model saved unedited through Model.save_model, from a file or an in-memory model. Nodes (type, domain, name, '
        'inputs, outputs, typed attribute values), used graph inputs and graph outputs (name, type, dimensions), weights in use, IR and opset '
        'versions are compared, the saved model is validated and both are executed on the same inputs (sub "exec"). Non-trivial: at least 2 nodes.')
ASSUMPTIONS = ['node names are kept when they are non-empty and unique in the file; other nodes may get a generated name',
               'a value_info entry of the saved model must agree with the one in the file, or with execution if the file has none',
               'initializers that are also listed as graph inputs (overridable defaults) are not generated']


def used_names(model):
    """names read by nodes (subgraphs included) or returned by the graph"""
    used = {o.name for o in model.graph.output}

    def walk(g):
        for n in g.node:
            used.update(n.input)
            for a in n.attribute:
                if a.type == onnx.AttributeProto.GRAPH:
                    walk(a.g)
                    used.update(o.name for o in a.g.output)
                for s in a.graphs:
                    walk(s)
    walk(model.graph)
    return used - {''}


def cmp_nodes(orig, saved, what='saved model', names=True):
    require(len(orig) == len(saved), '%s has %d nodes, the original %d', what, len(saved), len(orig))
    cnt = {}
    for n in orig:
        cnt[n.name] = cnt.get(n.name, 0) + 1
    for i, (a, b) in enumerate(zip(orig, saved)):
        cmp_node(a, b, '%s node %d' % (what, i), names and a.name and cnt[a.name] == 1)
    if names:
        ns = [n.name for n in saved]
        require(len(set(ns)) == len(ns) or len({n.name for n in orig}) < len(orig), '%s repeats node names %s', what, ns)


def cmp_node(a, b, what, names=True):
    require(a.op_type == b.op_type and a.domain == b.domain, '%s is %s/%s, was %s/%s', what, b.domain, b.op_type, a.domain, a.op_type)
    if names:
        require(a.name == b.name, '%s is named %s, was %s', what, b.name, a.name)
    require(list(a.input) == list(b.input), '%s (%s) reads %s, was %s', what, a.op_type, list(b.input), list(a.input))
    require(list(a.output) == list(b.output), '%s (%s) writes %s, was %s', what, a.op_type, list(b.output), list(a.output))
    x, y = attrs_of(a), attrs_of(b)
    require(sorted(x) == sorted(y), '%s (%s) has attributes %s, was %s', what, a.op_type, sorted(y), sorted(x))
    for k in x:
        require(attr_equal(x[k], y[k]), '%s (%s) attribute %s changed: %s -> %s', what, a.op_type, k, str(x[k])[:120], str(y[k])[:120])


def same_type(a, b):
    return a.SerializeToString(deterministic=True) == b.SerializeToString(deterministic=True)


def cmp_io(a, b, what):
    require([i.name for i in a] == [i.name for i in b], '%s are %s, were %s', what, [i.name for i in b], [i.name for i in a])
    for x, y in zip(a, b):
        if x.type.WhichOneof('value') not in (None, 'tensor_type'):
            require(same_type(x.type, y.type), '%s: %s has the type %s, was %s', what, x.name, y.type, x.type)
            continue
        require(x.type.tensor_type.elem_type == y.type.tensor_type.elem_type, '%s: %s has type %s, was %s', what, x.name,
                y.type.tensor_type.elem_type, x.type.tensor_type.elem_type)
        require(dims_of(x) == dims_of(y), '%s: %s has dimensions %s, was %s', what, x.name, dims_of(y), dims_of(x))


def cmp_weights(model, saved, used):
    a = {i.name: i for i in model.graph.initializer if i.name in used}
    b = {}
    for i in saved.graph.initializer:
        require(i.name not in b, 'weight %s saved twice', i.name)
        b[i.name] = i
    require(set(a) <= set(b), 'weights %s are missing', sorted(set(a) - set(b)))
    orig = {i.name for i in model.graph.initializer}
    require(set(b) <= orig, 'new weights %s', sorted(set(b) - orig))
    for n in a:
        require(a[n].data_type == b[n].data_type and bits_equal(onnx.numpy_helper.to_array(a[n]), onnx.numpy_helper.to_array(b[n])),
                'weight %s changed', n)


def cmp_versions(a, b):
    require(a.ir_version == b.ir_version, 'IR version %d, was %d', b.ir_version, a.ir_version)
    x = sorted((o.domain, o.version) for o in a.opset_import)
    y = sorted((o.domain, o.version) for o in b.opset_import)
    require(x == y, 'opset versions %s, were %s', y, x)


def cmp_vinfo(model, saved, vals):
    a = {v.name: v for v in model.graph.value_info}
    for v in saved.graph.value_info:
        if v.name in a and a[v.name].type.WhichOneof('value') not in (None, 'tensor_type'):
            require(same_type(v.type, a[v.name].type), 'value_info of %s changed from %s to %s', v.name, a[v.name].type, v.type)
        elif v.name in a:
            require(v.type.tensor_type.elem_type == a[v.name].type.tensor_type.elem_type and dims_of(v) == dims_of(a[v.name]),
                    'value_info of %s changed from %s to %s', v.name, dims_of(a[v.name]), dims_of(v))
        elif vals is not None and v.name in vals:
            x = vals[v.name]
            require(v.type.tensor_type.elem_type in (0, ptdt(NP2DT[x.dtype])), 'value_info says %s has element type %d, executed %s', v.name,
                    v.type.tensor_type.elem_type, x.dtype)
            d = dims_of(v)
            require(d is None or (len(d) == x.ndim and all(p is None or isinstance(p, str) or p == q for p, q in zip(d, x.shape))),
                    'value_info says %s has dimensions %s, executed %s', v.name, d, x.shape)


def roundtrip(model, file, cfg=None):
    with scratch() as d:
        src = model
        if file:
            src = os.path.join(d, 'in.onnx')
            onnx.save_model(model, src)
        out = os.path.join(d, 'out.onnx')
        with sut('loading'):
            mod = onnx_tool.Model(src, dict({'verbose': False}, **(cfg or {})))
        with sut('saving'):
            mod.save_model(out)
        require(os.path.exists(out), 'nothing was saved')
        return onnx.load(out)


def compare(model, saved, vals=None):
    used = used_names(model)
    cmp_nodes(model.graph.node, saved.graph.node)
    cmp_io([i for i in model.graph.input if i.name in used], saved.graph.input, 'graph inputs')
    cmp_io(model.graph.output, saved.graph.output, 'graph outputs')
    cmp_weights(model, saved, used)
    cmp_versions(model, saved)
    cmp_vinfo(model, saved, vals)


def check(case):
    c = case['g']
    model = gen.model_of(c)
    saved = roundtrip(model, case['file'])
    ex = case.get('exec', True)
    vals = None
    if ex:
        feeds = gen.feeds_of(c)
        vals = gen.ref_tensors(c, 0, model)
        ref = gen.ref_ok(model, feeds)
    compare(model, saved, vals)
    check_valid(saved)
    if ex:
        got = gen.ref_outputs(saved, feed(saved, feeds), 'saved model')
        for o, a, b in zip(model.graph.output, ref, got):
            require(bits_equal(a, b), 'output %s differs', o.name)
    return Info(len(c['spec']['nodes']) >= 2, c['meta']['blocks'] + [c['spec']['namestyle']])


@st.composite
def cases(draw):
    g = gen.graph(draw, {'n': (1, 6), 'K': 1, 'odd': True, 'forms': ['fn', 'old', 'over'], 'const_out': True, 'unused_inputs': True, 'blocks': gen.ALLBLOCKS + ['if', 'pass']})
    return dict(g=g, file=draw(st.booleans()))


@st.composite
def odd_cases(draw):
    g = gen.graph(draw, {'n': (1, 4), 'K': 1, 'blocks': ['ew', 'move', 'custom', 'custom']})
    return dict(g=g, file=draw(st.booleans()), exec=False)


def typed(model, bits, feeds):
    """the same computation with sequences, optionals, sparse weights and the other forms of constants: -> model, feeds, kinds"""
    import random
    r = random.Random(bits)
    m = onnx.ModelProto(); m.CopyFrom(model)
    g, h = m.graph, onnx.helper
    feeds = dict(feeds)
    used, head, kinds = used_names(model), [], set()

    def wrap(t, how):
        t = t if how != 'seqopt' else h.make_sequence_type_proto(t)
        return h.make_optional_type_proto(t) if how != 'seq' else h.make_sequence_type_proto(t)
    zero = False
    for x in list(g.input):
        how = r.choice(['', 'seq', 'opt'])
        if x.name in used and x.name in feeds and how:
            kinds.add('input ' + how)
            v = onnx.ValueInfoProto(name=x.name + '.box')
            v.type.CopyFrom(wrap(x.type, how))
            if how == 'seq':
                zero = True
                head.append(h.make_node('SequenceAt', [v.name, 'zero.at'], [x.name], name='unbox_' + x.name))
            else:
                head.append(h.make_node('OptionalGetElement', [v.name], [x.name], name='unbox_' + x.name))
            feeds[v.name] = [feeds[x.name]] if how == 'seq' else feeds[x.name]
            del feeds[x.name]
            x.CopyFrom(v)
    if zero:
        g.initializer.append(onnx.numpy_helper.from_array(np.array(0, np.int64), 'zero.at'))
    nodes = head + list(g.node)
    made = {t for n in nodes for t in n.output}
    for o in list(g.output):
        how = r.choice(['', 'seq', 'opt', 'seqopt', 'inner'])
        if o.name not in made or not how:
            continue
        kinds.add('output ' + how)
        v = onnx.ValueInfoProto(name=o.name + '.out')
        v.type.CopyFrom(wrap(o.type, how if how != 'inner' else 'seq'))
        if how == 'opt':
            nodes.append(h.make_node('Optional', [o.name], [v.name], name='box_' + o.name))
        else:
            k = r.randint(1, 3)
            nodes.append(h.make_node('SequenceConstruct', [o.name] * k, [v.name if how != 'seqopt' else v.name + '.s'], name='box_' + o.name))
            if how == 'seqopt':
                nodes.append(h.make_node('Optional', [v.name + '.s'], [v.name], name='opt_' + o.name))
        if how == 'inner':
            g.value_info.append(v)
            w = h.make_tensor_value_info(o.name + '.len', onnx.TensorProto.INT64, [])
            nodes.append(h.make_node('SequenceLength', [v.name], [w.name], name='len_' + o.name))
            g.output.append(w)
        elif r.random() < 0.5:
            g.output.append(v)
        else:
            o.CopyFrom(v)
    for i in list(g.initializer):
        a = onnx.numpy_helper.to_array(i)
        if a.ndim and a.dtype in (np.float32, np.float64, np.int32, np.int64) and a.size and r.random() < 0.4 and i.name in used and i.name not in {o.name for o in g.output}:
            kinds.add('sparse')
            f = a.reshape(-1)
            nz = np.flatnonzero(f)
            if any(f.view(np.uint8).reshape(f.size, -1).any(1) != (f != 0)) or not nz.size:
                continue
            ix = nz if r.random() < 0.5 else np.stack(np.unravel_index(nz, a.shape), 1)
            g.sparse_initializer.append(h.make_sparse_tensor(onnx.numpy_helper.from_array(f[nz], i.name), onnx.numpy_helper.from_array(ix.astype(np.int64), ''), list(a.shape)))
            g.initializer.remove(i)
    if r.random() < 0.5:
        kinds.add('constants')
        sv = h.make_sparse_tensor(onnx.numpy_helper.from_array(np.array([1.5, -2], np.float32), 'v'), onnx.numpy_helper.from_array(np.array([[0, 1], [2, 0]], np.int64), 'i'), [3, 2])
        for name, t, s, kw, a in (('c.sparse', onnx.TensorProto.FLOAT, [3, 2], dict(sparse_value=sv), None),
                                  ('c.string', onnx.TensorProto.STRING, [], dict(value_string='söme'), None),
                                  ('c.strings', onnx.TensorProto.STRING, [3], dict(value_strings=['a', '', 'bc']), None)):
            if r.random() < 0.6:
                nodes.insert(r.randint(0, len(nodes)), h.make_node('Constant', [], [name], name='make_' + name, **kw))
                g.output.append(h.make_tensor_value_info(name, t, s))
    del g.node[:]
    g.node.extend(nodes)
    return m, feeds, sorted(kinds)


def alike(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(alike(p, q) for p, q in zip(a, b))
    return bits_equal(a, b)


def check_typed(case):
    c = case['g']
    plain = gen.model_of(c)
    feeds = gen.feeds_of(c)
    gen.ref_ok(plain, feeds)
    model, feeds, kinds = typed(plain, case['bits'], feeds)
    try:
        onnx.checker.check_model(model)
    except Exception as e:
        raise Skip('not valid: %s' % str(e)[:60])
    saved = roundtrip(model, case['file'])
    dense = onnx.ModelProto(); dense.CopyFrom(model)
    for s in dense.graph.sparse_initializer:
        i = [n for n in plain.graph.initializer if n.name == s.values.name][0]
        dense.graph.initializer.append(i)
    require(not {s.values.name for s in saved.graph.sparse_initializer} & {i.name for i in saved.graph.initializer}, 'a weight is saved in both forms')
    for s in saved.graph.sparse_initializer:
        a = onnx.numpy_helper.to_array([n for n in plain.graph.initializer if n.name == s.values.name][0])
        b, ix = np.zeros(list(s.dims), a.dtype), onnx.numpy_helper.to_array(s.indices)
        b.reshape(-1)[ix if ix.ndim == 1 else np.ravel_multi_index(tuple(ix.T), a.shape)] = onnx.numpy_helper.to_array(s.values)
        saved.graph.initializer.append(onnx.numpy_helper.from_array(b, s.values.name))
    del saved.graph.sparse_initializer[:]
    compare(dense, saved)
    check_valid(saved)
    if 'constants' not in kinds:
        del dense.graph.sparse_initializer[:]
        want = gen.ref_ok(dense, feed(dense, feeds))
        got = gen.ref_outputs(saved, feed(saved, feeds), 'saved model')
        for o, a, b in zip(dense.graph.output, want, got):
            require(alike(a, b), 'output %s differs', o.name)
    return Info(bool(kinds), kinds)


@st.composite
def typed_cases(draw):
    g = gen.graph(draw, {'n': (1, 4), 'K': 1, 'forms': [], 'blocks': ['ew', 'ew', 'move', 'mm', 'nn']})
    return dict(g=g, file=draw(st.booleans()), bits=draw(st.integers(0, 10 ** 6)))


SUBS = [Sub('types', typed_cases, check_typed, 1500, 20000), Sub('exec', cases, check, 8000, 100000), Sub('attrs', odd_cases, check, 4000, 50000)]
