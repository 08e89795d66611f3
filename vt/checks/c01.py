"""C01: operator evaluation against ONNX's reference semantics."""
import copy
from hypothesis import strategies as st
from ..core import *
from ..om import *
from .. import ops, oracle, gen
import onnx_tool

PROPERTY = 'C01'
TECHNIQUE = 'property-based testing: generated single-operator models, differential oracle (ONNX ReferenceEvaluator plus independent numpy implementations)'
LEVEL_NOTE = 'random search over operator, attributes, shapes, element types, attribute/input form, and values; no exhaustive claim'
RULE = ('A case is one operator with generated attributes, input shapes, element types and values (valid for the ONNX operator at the '
        'chosen opset), evaluated by graph value inference (constant inputs as initializers or as graph inputs; twice with different '
        'values) or by constant folding; every output value, shape and element type is compared. Non-trivial: an output element was compared '
        'or a refusal was confirmed.')
ASSUMPTIONS = ['ReferenceEvaluator of the installed onnx is right for the operators without an own oracle in vt/oracle.py']


def refusable(c):
    """Variants that onnx_tool documents as not implemented (a NotImplementedError is the right answer)."""
    a = c['attrs']
    op = c['op']
    if op == 'CumSum':
        return bool(a.get('exclusive') or a.get('reverse'))
    if op == 'Conv':
        return a.get('group', 1) != 1 or len(c['ins'][0][1]) != 4
    if op == 'BatchNormalization':
        return c['n'] > 1
    if op == 'Dropout':
        return ops.training(c)
    if op == 'MaxPool':
        return len(c['ins'][0][1]) != 4 or c['n'] > 1
    return False


def reseed(c, k):
    """Same case with other values (structured values unchanged)."""
    c = copy.deepcopy(c)
    for i, x in enumerate(c['ins']):
        if x and i not in c['const'] and 'seed' in x[2]:
            x[2]['seed'] += k
    return c


def compare(c, exp, got, what):
    for i, (e, g) in enumerate(zip(exp, got)):
        require(g is not None, '%s: %s output %d has no value', what, c['op'], i)
        g = np.asarray(g)
        require(list(g.shape) == e.shape, '%s: %s output %d has shape %s, ONNX gives %s', what, c['op'], i, list(g.shape), e.shape)
        require(g.dtype in NP2DT and NP2DT[g.dtype] == e.dtype, '%s: %s output %d has type %s, ONNX gives %s', what, c['op'], i, g.dtype, e.dtype)
        if e.v is not None and c['op'] in ops.MOVED:
            require(bits_equal(g, e.v), '%s: %s output %d is not the exact elements: %s, ONNX gives %s', what, c['op'], i,
                    np.array2string(g.reshape(-1)[:12]), np.array2string(e.v.reshape(-1)[:12]))
        elif e.v is not None:
            require(same(g, e.v, 1e-3, 1e-4), '%s: %s output %d has values %s, ONNX gives %s', what, c['op'], i,
                    np.array2string(g.reshape(-1)[:12]), np.array2string(e.v.reshape(-1)[:12]))


def expectation(c):
    try:
        e = oracle.expected(c)
    except Exception as x:
        raise HarnessError('oracle failed: %r' % x)
    return e


def evaluate(m, c, feeds):
    g = m.graph
    g.value_infer(feeds)
    return [g.tensormap[o].numpy for o in ops.outs_of(c)]


def untyped(c, const):
    """model whose node outputs carry no annotation: each is read by a Shape node."""
    m, feeds, outs = ops.build_case(c, const=const)
    del m.graph.output[:]
    for o in outs:
        m.graph.node.append(make_node(dict(op='Shape', name='sh_' + o, **{'in': [o], 'out': ['s_' + o]})))
        m.graph.output.append(vinfo('s_' + o, 'i64', [None]))
    return m, feeds


def check_value(case):
    c = case['c']
    n = len(c['ins'])
    const = {'none': [], 'shape': c['const'], 'all': range(n)}[case['const']]
    steps = [c] + [reseed(c, k) for k in case.get('again', [])]
    if case['const'] == 'all':
        steps = steps[:1]
    refuse = c['op'] in ops.REFUSE_OPS
    model, feeds = untyped(c, const)
    with sut('loading a one-operator model'):
        m = onnx_tool.Model(model, {'verbose': False})
    labels = [c['op']]
    for s in steps:
        exp = expectation(s)
        _, feeds = untyped(s, const)
        try:
            got = evaluate(m, s, feeds)
        except NotImplementedError:
            if refuse or refusable(c):
                return Info(True, labels + ['refused'])
            raise Violation('%s is not evaluated: NotImplementedError' % c['op'])
        except Exception as e:
            if refuse:
                return Info(True, labels + ['refused'])
            raise Violation('evaluating %s raised %s: %s' % (c['op'], type(e).__name__, str(e)[:300]))
        if refusable(c) and any(e.v is None for e in exp):
            raise Violation('%s is evaluated in training mode' % c['op'])
        if refuse and any(e.v is None for e in exp):
            try:
                exp = oracle.reference(s)
            except Exception:
                raise Skip('no oracle')
        compare(s, exp, got, 'evaluation')
    return Info(True, labels)


def check_fold(case):
    """All inputs constant: folding must store exactly the reference value."""
    c = case['c']
    exp = expectation(c)
    model, _, outs = ops.build_case(c, const=range(len(c['ins'])))
    del model.graph.output[:]
    model.graph.input.append(vinfo('cond', 'bool', [1]))
    for i, o in enumerate(outs):
        model.graph.node.append(make_node(dict(op='Where', name='w%d' % i, **{'in': ['cond', o, o], 'out': ['y%d' % i]})))
        model.graph.output.append(vinfo('y%d' % i, exp[i].dtype, None))
    refuse = c['op'] in ops.REFUSE_OPS or refusable(c)
    try:
        m = onnx_tool.Model(model, {'verbose': False, 'constant_folding': True})
    except Exception as e:
        if refuse:
            return Info(True, [c['op'], 'refused'])
        raise Violation('folding %s raised %s: %s' % (c['op'], type(e).__name__, str(e)[:300]))
    g = m.graph
    if 'node' in g.nodemap:
        if refuse or c['op'] in ('DequantizeLinear',):
            return Info(True, [c['op'], 'kept'])
        raise Violation('constant %s was not folded' % c['op'])
    if refusable(c) and any(e.v is None for e in exp):
        raise Violation('%s is folded in training mode' % c['op'])
    if any(e.v is None for e in exp):
        raise Skip('no oracle')
    compare(c, exp, [g.tensormap[o].numpy for o in outs], 'folding')
    return Info(True, [c['op']])


def check_graph(case):
    """Whole models, repeatedly, at several input shapes and values."""
    c = case['g']
    model = gen.model_of(c)
    with sut('loading'):
        m = onnx_tool.Model(model, {'verbose': False})
    g = m.graph
    full, done = 0, 0
    for k, again in case['runs']:
        feeds = gen.feeds_of(c, k, again)
        vals = gen.ref_tensors(c, k, model, feeds)
        order = [n for n in g.nodemap.values()]
        before = {t: id(x.numpy) for t, x in g.tensormap.items()}
        try:
            got = g.value_infer(feeds)
            full += 1
        except NotImplementedError:
            order = [n for n in order if n.output[0] and id(g.tensormap[n.output[0]].numpy) != before[n.output[0]]]
            cut = next((i for i, n in enumerate(g.nodemap.values()) if n not in order), 0)
            order, got = order[:cut], None
        except Exception as e:
            raise Violation('evaluating a model raised %s: %s' % (type(e).__name__, str(e)[:300]))
        if got is not None:
            require(len(got) == len(g.output), '%d values for %d outputs', len(got), len(g.output))
            for o, y in zip(g.output, got):
                require(y is not None and list(y.shape) == list(vals[o].shape) and y.dtype == vals[o].dtype and same(y, vals[o], 2e-3, 1e-3), 'output %s differs from its executed value', o)
        for n in order:
            for o in n.output:
                if o in vals:
                    y = g.tensormap[o].numpy
                    require(y is not None and list(np.shape(y)) == list(np.shape(vals[o])), '%s of %s has value shape %s, executed %s', o, n.op_type, np.shape(y), np.shape(vals[o]))
                    require(np.asarray(y).dtype == np.asarray(vals[o]).dtype, '%s of %s has type %s, executed %s', o, n.op_type, np.asarray(y).dtype, np.asarray(vals[o]).dtype)
                    require(same(np.asarray(y), np.asarray(vals[o]), 2e-3, 1e-3), '%s of %s differs from its executed value', o, n.op_type)
                    done += 1
    return Info(done > 0, ['%d runs complete' % full] + sorted({n.op_type for n in order}))


ALL = ops.VALUE_OPS * 3 + ops.REFUSE_OPS


@st.composite
def s_value(draw):
    return dict(c=draw(ops.op_case(ALL)), const=draw(st.sampled_from(['none', 'shape', 'shape', 'all'])),
                again=draw(st.lists(st.integers(1, 9), max_size=2)))


@st.composite
def s_extreme(draw):
    return dict(c=draw(ops.extreme_case()), const=draw(st.sampled_from(['none', 'shape', 'all'])), again=[])


@st.composite
def s_fold(draw):
    return dict(c=draw(ops.op_case(ops.VALUE_OPS)))


@st.composite
def s_graph(draw):
    g = gen.graph(draw, {'n': (1, 7), 'K': 2, 'blocks': ['ew', 'logic', 'mm', 'move', 'red', 'shape', 'const', 'quant', 'ew', 'move', 'logic'] + draw(st.sampled_from([[], [], ['side'], ['nn', 'multi']])),
                        'const_out': True})
    return dict(g=g, runs=draw(st.lists(st.tuples(st.integers(0, 1), st.integers(0, 3)), min_size=1, max_size=3)))


SUBS = [Sub('graph', s_graph, check_graph, 8000, 120000), Sub('value', s_value, check_value, 30000, 600000), Sub('fold', s_fold, check_fold, 12000, 250000),
        Sub('extreme', s_extreme, check_value, 12000, 250000)]


def dev_ops(sub):
    return sorted(set(ALL if sub.name == 'value' else ops.VALUE_OPS))


def dev_strategy(sub, op):
    @st.composite
    def s(draw):
        c = ops.GEN[op](draw)
        return dict(c=c, const=draw(st.sampled_from(['none', 'shape', 'shape', 'all'])), again=draw(st.lists(st.integers(1, 9), max_size=2)))
    return s()
