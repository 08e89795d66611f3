"""C30: invalid requests and unknown operators are reported, never absorbed."""
import os, warnings
from hypothesis import strategies as st
from ..core import *
from ..om import *
from .. import gen
from .c10 import figures
import onnx_tool

PROPERTY = 'C30'
TECHNIQUE = 'property-based testing and fault injection: generated shape faults, call sequences, unknown and user-registered operators; oracle = the ONNX shape rules, a model of the call sequence, and the figures of the undisturbed model'
LEVEL_NOTE = 'random search over generated models and faults; the shape rules of the covered operators are restated from the ONNX specification'
RULE = ('A case is an operator with valid or forbidden operand shapes inside a chain (sub "ops"), a generated model with one input or weight of another shape (sub "graph"), a model with unresolved, missing or '
        'negative input dimensions (sub "inputs"), a sequence of inferences with good and bad shapes, profiles and reports (sub "order"), a model with an unregistered operator (sub "unknown") or with operators '
        'whose handlers the check registered (sub "custom"). Non-trivial: something invalid was requested, or an unknown or user operator is present.')
ASSUMPTIONS = ['forbidden operand shapes are judged for broadcasting element-wise operators, matrix products and convolutions only (see DESIGN.md)',
               'Gemm with operands of a rank above two is an extension of the tool, a convolution window larger than its input is not judged']

BCAST = {'Add': ('f32', 2), 'Sub': ('f32', 2), 'Mul': ('f32', 2), 'Div': ('f32', 2), 'Pow': ('f32', 2), 'Mod': ('i64', 2), 'Max': ('f32', 0), 'Min': ('f32', 0), 'Sum': ('f32', 0),
         'And': ('bool', 2), 'Or': ('bool', 2), 'Xor': ('bool', 2), 'Equal': ('f32', 2), 'Greater': ('f32', 2), 'Less': ('f32', 2), 'GreaterOrEqual': ('f32', 2), 'LessOrEqual': ('f32', 2),
         'Where': ('f32', 3)}
CMP = ('Equal', 'Greater', 'Less', 'GreaterOrEqual', 'LessOrEqual')
MM = ('MatMul', 'MatMulInteger', 'QLinearMatMul')
CONV = ('Conv', 'ConvInteger', 'QLinearConv', 'ConvTranspose')
DATA = {'QLinearMatMul': (0, 3), 'QLinearConv': (0, 3, 8)}


def broadcasts(shapes):
    n = max(len(s) for s in shapes)
    for i in range(1, n + 1):
        if len({s[-i] for s in shapes if len(s) >= i} - {1}) > 1:
            return False
    return True


def into(s, t):
    """s broadcasts to exactly t"""
    return len(s) <= len(t) and all(a in (1, b) for a, b in zip(reversed(s), reversed(t)))


def verdict(op, attrs, s):
    """True/False: the ONNX rules allow / forbid these operand shapes; None: not judged. s: shapes of the data operands"""
    if op in BCAST:
        return broadcasts(s)
    if op in MM:
        a, b = s[:2]
        if not a or not b:
            return False
        a2, b2 = (a if len(a) > 1 else [1] + a), (b if len(b) > 1 else b + [1])
        return a2[-1] == b2[-2] and broadcasts([a2[:-2], b2[:-2]] if len(a2) + len(b2) > 4 else [[1]])
    if op == 'Gemm':
        a, b = s[:2]
        if len(a) > 2 or len(b) > 2:
            return None
        if len(a) < 2 or len(b) < 2:
            return False
        m, k = a[::-1] if attrs.get('transA') else a
        k2, n = b[::-1] if attrs.get('transB') else b
        return k == k2 and (len(s) < 3 or into(s[2], [m, n]))
    if op in CONV:
        x, w = s[:2]
        g = attrs.get('group', 1)
        if len(x) < 3 or len(w) != len(x):
            return False
        if op == 'ConvTranspose':
            if x[1] != w[0] or w[0] % g:
                return False
            m = w[1] * g
        else:
            if x[1] != w[1] * g or w[0] % g:
                return False
            m = w[0]
        if len(s) > 2 and s[2] != [m]:
            return False
        ks = attrs.get('kernel_shape')
        if ks is not None and list(ks) != w[2:]:
            return None
        return True


def load(src, cfg=None):
    with sut('loading'):
        return onnx_tool.Model(src, dict({'verbose': False}, **(cfg or {})))


def names_node(e, name):
    return isinstance(e, ValueError) and 'node %s:' % name in str(e)


# ---------------------------------------------------------------- operators
def check_op(case):
    op, attrs, shapes, dts = case['op'], case['attrs'], case['shapes'], case['dts']
    data = [shapes[i] for i in DATA.get(op, range(len(shapes))) if i < len(shapes)]
    if op in ('MatMulInteger', 'ConvInteger'):
        data = data[:2]
    ok = verdict(op, attrs, data)
    if ok is None:
        return Info(False, ['not judged'])
    nodes, inputs, inits, ins = [], [], [], []
    for i, (s, d) in enumerate(zip(shapes, dts)):
        n = 'x%d' % i
        if case['const'][i]:
            inits.append([n, d, s, {'fill': 1}])
        else:
            inputs.append([n, d, s])
            if case['pre'][i]:
                nodes.append(dict(op='Identity', name='pre%d' % i if case['named'] else '', **{'in': [n], 'out': ['p%d' % i]}))
                n = 'p%d' % i
        ins.append(n)
    nodes.append(dict(op=op, name='the.node' if case['named'] else '', attrs=attrs, **{'in': ins, 'out': ['y']}))
    nodes.append(dict(op='Identity', name='post' if case['named'] else '', **{'in': ['y'], 'out': ['z']}))
    if inputs and case['side']:
        nodes.insert(case['side'] % len(nodes), dict(op='Identity', name='side' if case['named'] else '', **{'in': [inputs[0][0]], 'out': ['s']}))
    outs = ['z'] + (['s'] if inputs and case['side'] else [])
    model = build(dict(nodes=nodes, inputs=inputs, inits=inits, outputs=outs, opset=18))
    feeds = {n: np.ones(s, npdt(d)) for n, d, s in inputs}
    m = load(model)
    g = m.graph
    name = next(n for n in g.nodemap if 'y' in g.nodemap[n].output)
    try:
        g.shape_infer(feeds if case['give'] else None)
    except Exception as e:
        if ok:
            raise Violation('%s with attributes %s accepts operands of the shapes %s, inference raises %s: %s' % (op, attrs, shapes, type(e).__name__, str(e)[:200]))
        require(names_node(e, name), '%s with attributes %s forbids operands of the shapes %s, but the error does not name its node %s: %s: %s', op, attrs, shapes, name, type(e).__name__, str(e)[:200])
    else:
        require(ok, '%s with attributes %s forbids operands of the shapes %s, but inference accepts them: the output is %s', op, attrs, shapes, g.tensormap['y'].shape)
    return Info(not ok, [op, 'valid' if ok else 'forbidden'])


def rank_shape(draw, st, r, zero=False):
    return [draw(st.sampled_from([1, 2, 3, 4, 5] + ([0] if zero and draw(st.integers(0, 5)) == 5 else []))) for _ in range(r)]


def perturb(draw, st, s):
    s = list(s)
    how = draw(st.integers(0, 4))
    if how == 0 and s:
        i = draw(st.integers(0, len(s) - 1))
        s[i] += draw(st.sampled_from([1, 2, -1])) if s[i] > 1 else 1
    elif how == 1 and s:
        s.pop(draw(st.integers(0, len(s) - 1)))
    elif how == 2:
        s.insert(draw(st.integers(0, len(s))), draw(st.integers(1, 3)))
    elif how == 3 and s:
        i = draw(st.integers(0, len(s) - 1))
        s[i] *= 2
    elif how == 4 and len(s) > 1:
        i, j = draw(st.integers(0, len(s) - 1)), draw(st.integers(0, len(s) - 1))
        s[i], s[j] = s[j], s[i]
    return s


@st.composite
def op_cases(draw):
    op = draw(st.sampled_from(list(BCAST) + ['MatMul'] * 4 + ['MatMulInteger', 'QLinearMatMul'] + ['Gemm'] * 5 + ['Conv'] * 6 + ['ConvTranspose'] * 4 + ['ConvInteger', 'QLinearConv']))
    attrs = {}
    i = lambda a, b: draw(st.integers(a, b))
    if op in BCAST:
        dt, n = BCAST[op]
        n = n or i(1, 4)
        t = rank_shape(draw, st, i(0, 4), True)
        shapes = []
        for j in range(n):
            k = i(0, len(t)) if i(0, 2) == 2 else 0
            shapes.append([1 if i(0, 3) == 3 else d for d in t[k:]])
        dts = [dt] * n
        if op == 'Where':
            dts = ['bool', 'f32', 'f32']
    elif op in MM:
        m, k, n = i(1, 4), i(1, 4), i(1, 4)
        bt = rank_shape(draw, st, i(0, 2))
        a = [1 if i(0, 3) == 3 else d for d in bt[i(0, len(bt)):]] + [m, k]
        b = [1 if i(0, 3) == 3 else d for d in bt[i(0, len(bt)):]] + [k, n]
        if i(0, 5) == 5:
            a = [k]
        if i(0, 5) == 5:
            b = [k]
        shapes, dts = [a, b], ['f32', 'f32']
        if op == 'MatMulInteger':
            dts = ['u8', 'i8']
            if i(0, 1):
                shapes, dts = shapes + [[], []], dts + dts
        if op == 'QLinearMatMul':
            shapes, dts = [a, [], [], b, [], [], [], []], ['u8', 'f32', 'u8', 'u8', 'f32', 'u8', 'f32', 'u8']
    elif op == 'Gemm':
        m, k, n = i(1, 4), i(1, 4), i(1, 4)
        attrs = {a: i(0, 1) for a in ('transA', 'transB') if i(0, 1)}
        shapes = [[k, m] if attrs.get('transA') else [m, k], [n, k] if attrs.get('transB') else [k, n]]
        if i(0, 2):
            shapes.append(draw(st.sampled_from([[n], [m, n], [1, n], [m, 1], [1], [], [1, 1]])))
        dts = ['f32'] * len(shapes)
    else:
        r = i(1, 3)
        grp = draw(st.sampled_from([1, 1, 1, 2, 3]))
        ci, co = i(1, 3), i(1, 3)
        k = [i(1, 3) for _ in range(r)]
        x = [i(1, 2), ci * grp] + [i(3, 6) for _ in range(r)]
        w = [ci * grp, co] + k if op == 'ConvTranspose' else [co * grp, ci] + k
        if i(0, 1):
            attrs['kernel_shape'] = k
        if grp > 1 or i(0, 1):
            attrs['group'] = grp
        if i(0, 2) == 2:
            attrs['pads'] = [1 if kk > 1 else 0 for kk in k] * 2
        if i(0, 2) == 2:
            attrs['strides'] = [i(1, 2) for _ in k]
        shapes, dts = [x, w], ['f32', 'f32']
        if op in ('Conv', 'ConvTranspose') and i(0, 1):
            shapes.append([co * grp])
            dts.append('f32')
        if op == 'ConvInteger':
            dts = ['u8', 'u8']
        if op == 'QLinearConv':
            shapes, dts = [x, [], [], w, [], [], [], []], ['u8', 'f32', 'u8', 'u8', 'f32', 'u8', 'f32', 'u8']
            if i(0, 1):
                shapes.append([co * grp])
                dts.append('i32')
    idx = [j for j in DATA.get(op, range(len(shapes))) if j < len(shapes)]
    if op in ('MatMulInteger', 'ConvInteger'):
        idx = idx[:2]
    if i(0, 4):
        j = draw(st.sampled_from(idx))
        shapes[j] = perturb(draw, st, shapes[j])
    if op in CONV:
        # keep the spatial ranks of the attributes, and windows inside their inputs
        x, w = shapes[0], shapes[idx[1]]
        r = len(x) - 2
        if len(w) == len(x) and r >= 1:
            for a, z in (('strides', 1), ('pads', 2)):
                if a in attrs and len(attrs[a]) != z * r:
                    del attrs[a]
            if 'kernel_shape' in attrs and i(0, 3):
                attrs['kernel_shape'] = w[2:]
            for d in range(r):
                x[2 + d] = max(x[2 + d], w[2 + d])
        else:
            attrs.pop('kernel_shape', None), attrs.pop('strides', None), attrs.pop('pads', None)
    n = len(shapes)
    const = [i(0, 2) == 2 for _ in range(n)]
    if len(idx) < n and op in DATA:
        const = [j not in DATA[op] or const[j] for j in range(n)]
    if all(const):
        const[0] = False
    return dict(op=op, attrs=attrs, shapes=shapes, dts=dts, const=const, pre=[i(0, 1) for _ in range(n)], named=i(0, 1), side=i(0, 3), give=i(0, 1))


# ---------------------------------------------------------------- graphs
def check_graph(case):
    c, k = case['g'], 0
    model = gen.model_of(c)
    gen.ref_tensors(c, k, model)
    feeds = gen.feeds_of(c, k)
    names = [n for n in feeds] + [x.name for x in model.graph.initializer]
    name = names[case['which'] % len(names)]
    if name in feeds:
        a = feeds[name]
    else:
        t = [x for x in model.graph.initializer if x.name == name][0]
        a = onnx.numpy_helper.to_array(t)
    s = mutate(a.shape, case['how'], case['ax'])
    b = np.resize(a, s) if a.size else np.zeros(s, a.dtype)
    if name in feeds:
        feeds[name] = b
        for v in model.graph.input:
            if v.name == name:
                v.CopyFrom(helper.make_tensor_value_info(name, v.type.tensor_type.elem_type, s if case['static'] else ['d%d' % i for i in range(len(s))]))
    else:
        t.CopyFrom(onnx.numpy_helper.from_array(b, name))
        for v in model.graph.input:  # a weight listed among the inputs
            if v.name == name:
                v.CopyFrom(helper.make_tensor_value_info(name, t.data_type, s))
    del model.graph.value_info[:]
    env = dict(feeds)
    for x in model.graph.initializer:
        env[x.name] = onnx.numpy_helper.to_array(x)
    bad, before = None, []
    for n in model.graph.node:
        arg = {x: env[x] for x in n.input if x}
        at = {a.name: helper.get_attribute_value(a) for a in n.attribute}
        if n.domain in ('', 'ai.onnx') and (n.op_type in BCAST or n.op_type in MM + CONV + ('Gemm',)):
            sh = [list(arg[x].shape) for x in n.input if x]
            v = verdict(n.op_type, at, [sh[i] for i in DATA.get(n.op_type, range(len(sh))) if i < len(sh)])
            if v is False:
                bad = n
                break
            if v is None:
                return Info(False, ['not judged'])
        if n.op_type == 'Split' and len(n.input) > 1 and n.input[1]:
            s, ax = env[n.input[0]].shape, at.get('axis', 0)
            if not -len(s) <= ax < len(s) or s[ax] != int(np.sum(env[n.input[1]])):
                return Info(False, ['fails elsewhere'])      # the reference evaluator takes the parts there are
        before.append(n)
        one = helper.make_model(helper.make_graph([n], 'g', [helper.make_empty_tensor_value_info(x) for x in arg], [helper.make_empty_tensor_value_info(x) for x in n.output if x]), opset_imports=model.opset_import)
        try:
            r = run_ref(one, arg)
        except Exception as e:
            return Info(False, ['fails elsewhere'])
        env.update(zip([x for x in n.output if x], r))
    if bad is None:
        return Info(False, ['still valid'])
    m = load(model)
    g = m.graph
    of = {o: n for n in g.nodemap for o in g.nodemap[n].output}
    first = next(o for o in bad.output if o)
    require(first in of, 'the node producing %s is gone', first)
    err = None
    try:
        g.shape_infer(feeds)
    except Exception as e:
        err = e
    if err is not None and names_node(err, of[first]):
        return Info(True, [bad.op_type])
    if any(list(g.tensormap[x].get_shape()) != list(env[x].shape) for x in bad.input if x):
        return Info(False, ['not judged'])      # another operator took forbidden operands, which the reference evaluator accepts too
    sh = [list(env[x].shape) for x in bad.input if x]
    require(err is not None, 'the operands of node %s (%s) have the forbidden shapes %s, but inference accepts them', of[first], bad.op_type, sh)
    raise Violation('the operands of %s (%s) have the forbidden shapes %s, but the error does not name this node: %s: %s' % (of[first], bad.op_type, sh, type(err).__name__, str(err)[:200]))


def mutate(shape, how, ax):
    s = list(shape)
    if how == 0 and s:
        s[ax % len(s)] += 1
    elif how == 1 and s:
        s[ax % len(s)] = max(1, s[ax % len(s)] - 1)
    elif how == 2 and s:
        s.pop(ax % len(s))
    elif how == 3:
        s.insert(ax % (len(s) + 1), 1)
    elif how == 4:
        s.insert(ax % (len(s) + 1), 2)
    elif s:
        s[ax % len(s)] *= 2
    return s


@st.composite
def graph_cases(draw):
    g = gen.graph(draw, {'n': (1, 6), 'K': 1, 'blocks': ['ew', 'nn', 'mm', 'ew', 'mm', 'nn', 'move', 'logic', 'shape']})
    return dict(g=g, which=draw(st.integers(0, 9)), how=draw(st.integers(0, 5)), ax=draw(st.integers(0, 3)), static=draw(st.booleans()))


# ---------------------------------------------------------------- input dimensions
def check_inputs(case):
    c = case['g']
    model = gen.model_of(c)
    gen.ref_tensors(c, 0, model)
    feeds = gen.feeds_of(c, 0)
    read = {x for n in model.graph.node for x in n.input} | set(gen_reads(model))
    bad = []
    give = {}
    for j, v in enumerate(model.graph.input):
        kind = case['kinds'][j % len(case['kinds'])]
        if v.name not in feeds:  # a weight listed among the inputs
            continue
        s = list(feeds[v.name].shape)
        sh = v.type.tensor_type.shape
        p = case['pos'] % len(s) if s else 0
        broken = True
        sh.Clear()
        for d in s:
            sh.dim.add().dim_value = d
        if kind == 'fine' or kind == 'given' or (not s and kind != 'noshape'):
            broken = False
            if kind == 'given' and s:
                sh.dim[p].dim_param = 'Q'
                give[v.name] = feeds[v.name]
        elif kind == 'symbol':
            sh.dim[p].dim_param = case['sym']
        elif kind == 'missing':
            sh.dim[p].Clear()
        elif kind == 'negative':
            sh.dim[p].dim_value = -case['pos'] - 1
        elif kind == 'noshape':
            v.type.tensor_type.ClearField('shape')
        elif kind == 'set':
            give[v.name] = None
        if broken and v.name in read:
            bad.append(v.name)
    del model.graph.value_info[:]
    m = load(model)
    g = m.graph
    for n in [n for n in give if give[n] is None]:
        del give[n]
        if n in g.tensormap:
            s = list(feeds[n].shape)
            s[case['pos'] % len(s)] = case['sym'] if case['pos'] % 2 else -1
            g.tensormap[n].update_shape(s)
    how = case['call']
    with scratch() as d:
        f, o = os.path.join(d, 'p.txt'), os.path.join(d, 'o.onnx')
        try:
            if how == 'infer':
                g.shape_infer(give or None)
            elif how == 'again':
                was, bad = bad, []
                g.shape_infer(feeds)
                return Info(bool(was), ['all given'])
            else:
                if any(k == 'set' for k in case['kinds']):
                    return Info(False, ['-'])
                onnx_tool.model_profile(model, give or None, save_profile=f, save_model=o)
        except Exception as e:
            require(bad, 'every input dimension is known, inference raises %s: %s', type(e).__name__, str(e)[:200])
            require(isinstance(e, ValueError) and any('tensor %s\'s' % n in str(e) for n in bad), 'the inputs %s have unresolved dimensions, but the error does not name one of them: %s: %s',
                    bad, type(e).__name__, str(e)[:200])
            require(not os.path.exists(f) and not os.path.exists(o), 'a report or a model was written in spite of the error')
        else:
            require(not bad, 'the inputs %s have unresolved or invalid dimensions (%s), but inference accepts them: %s', bad, case['kinds'], [g.tensormap[n].shape for n in bad])
    return Info(bool(bad), [k for k in case['kinds']] + [how])


def gen_reads(model):
    out = [o.name for o in model.graph.output]
    for n in model.graph.node:
        for a in n.attribute:
            if a.type == onnx.AttributeProto.GRAPH:
                for x in a.g.node:
                    out += list(x.input)
    return out


@st.composite
def input_cases(draw):
    g = gen.graph(draw, {'n': (1, 4), 'K': 1, 'ninputs': (1, 3)})
    kinds = draw(st.lists(st.sampled_from(['symbol', 'missing', 'negative', 'noshape', 'fine', 'given', 'fine', 'set']), min_size=1, max_size=3))
    return dict(g=g, kinds=kinds, pos=draw(st.integers(0, 3)), sym=draw(st.sampled_from(['N', 'batch', '?', 'N*2', '-1', '3'])), call=draw(st.sampled_from(['infer', 'infer', 'again', 'profile'])))


# ---------------------------------------------------------------- order of calls
def check_order(case):
    c = case['g']
    gen.ref_tensors(c, 0)
    m = load(gen.model_of(c))
    g = m.graph
    state, prof = None, None      # the assignment last inferred; profiled at
    want, odd = {}, False
    for k in range(len(c['assign'])):
        f = load(gen.model_of(c)).graph
        with sut('inferring'):
            f.shape_infer(gen.shapes_in(c, k))
            f.profile()
        want[k] = figures(f)
    with scratch() as d:
        for j, (op, x) in enumerate(case['steps']):
            x %= len(c['assign'])
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                if op == 'infer':
                    with sut('inferring'):
                        g.shape_infer(gen.shapes_in(c, x))
                    state, prof = x, None if prof is None else 'old'
                elif op == 'bad':
                    ins = gen.shapes_in(c, x)
                    n = sorted(t for t in ins if t in g.tensormap)
                    if not n:
                        continue
                    n = n[j % len(n)]
                    g.tensormap[n].update_shape([-1] + list(ins[n].shape[1:]) if ins[n].ndim else [-1])
                    if n not in g.input:
                        continue
                    try:
                        g.shape_infer()
                    except ValueError as e:
                        bad = [t for t in g.input if any(isinstance(v, str) or v < 0 for v in g.tensormap[t].shape)]
                        require(any('tensor %s\'s' % t in str(e) for t in bad), 'the error names none of the unresolved inputs %s: %s', bad, e)
                    else:
                        raise Violation('the input %s has a dimension -1, but inference accepts it' % n)
                    state, prof = None, None if prof is None else 'old'
                elif op == 'profile':
                    odd |= state is None
                    with sut('profiling'):
                        g.profile()
                    if state is None:
                        require([y for y in w if 'shape_infer' in str(y.message)], 'profiling without a valid inference gives no warning')
                        prof = None
                    else:
                        require(not w, 'profiling after an inference warns: %s', [str(y.message) for y in w])
                        require(figures(g) == want[state], 'the figures at %s differ from those of a fresh model', c['assign'][state])
                        prof = state
                elif op == 'print':
                    f = os.path.join(d, 'p%d.%s' % (j, 'csv' if x else 'txt'))
                    with sut('reporting'):
                        g.print_node_map(f)
                    if prof is None:
                        odd = True
                        require([y for y in w if 'profile' in str(y.message)], 'reporting without a valid profile gives no warning')
                        require(not os.path.exists(f), 'reporting without a valid profile writes a report')
                    elif prof != 'old':
                        require(os.path.exists(f), 'no report was written')
    return Info(odd, [s[0] for s in case['steps']])


@st.composite
def order_cases(draw):
    g = gen.graph(draw, {'n': (1, 4), 'K': 2, 'ninputs': (1, 2)})
    steps = draw(st.lists(st.tuples(st.sampled_from(['infer', 'bad', 'profile', 'print', 'profile', 'print']), st.integers(0, 1)), min_size=1, max_size=8))
    return dict(g=g, steps=[list(s) for s in steps])


# ---------------------------------------------------------------- unknown operators
def splice(spec, ops):
    """insert one-input one-output nodes: [op, domain, tensor index, consumers to rewire, position in the input list]"""
    import copy
    spec = copy.deepcopy(spec)
    made = []
    for j, o in enumerate(ops):
        src = [t for n in spec['nodes'] for t in n['out'] if t] + [i[0] for i in spec['inputs']]
        src = [t for t in src if any(t in n['in'] for n in spec['nodes'])]
        if not src:
            break
        t = src[o['t'] % len(src)]
        users = [n for n in spec['nodes'] if t in n['in']]
        if o['one']:
            users = [users[o['t'] % len(users)]]
        out = 'vt.s%d' % j
        for n in users:
            n['in'] = [out if x == t else x for x in n['in']]
        pos = min(spec['nodes'].index(n) for n in users)
        x = {'op': o['op'], 'name': 'vt.%d' % j, 'in': [t], 'out': [out], 'attrs': o.get('attrs') or {}}
        if o['domain']:
            x['domain'] = o['domain']
        spec['nodes'].insert(pos, x)
        made.append(x)
    spec['vinfo'] = []
    return spec, made


def dom(spec, made):
    return dict(spec, domains=sorted([list(x) for x in {(x['domain'], 1) for x in made if x.get('domain')} | {tuple(x) for x in spec.get('domains', [])}]))


def check_unknown(case):
    spec, made = splice(case['g']['spec'], case['ops'])
    if not made:
        raise Skip('nothing to splice')
    gen.ref_tensors(case['g'], 0)
    model = build(dom(spec, made))
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        src = onnx.ModelProto(); src.CopyFrom(model)
        m = load(src)
    g = m.graph
    kept = [x['name'] for x in made if x['name'] in g.nodemap]
    for x in made:
        if x['name'] in g.nodemap:
            require([y for y in w if x['op'] in str(y.message)], 'the operator %s has no handler, but no warning names it: %s', x['op'], [str(y.message) for y in w])
    loose = [str(y.message) for y in w if 'registed' in str(y.message) and not any(x['op'] in str(y.message) for x in made)]
    known = {x['op'] for x in spec['nodes']}
    require(not loose, 'a warning about another operator: %s', loose)
    with scratch() as d:
        f = os.path.join(d, 'm.onnx')
        with sut('reordering and saving a model with an unknown operator'):
            if case['reorder']:
                g.graph_reorder_nodes()
            m.save_model(f)
        new = onnx.load(f)
    a = sorted((n.op_type, n.domain, tuple(n.input), tuple(n.output)) for n in model.graph.node)
    b = sorted((n.op_type, n.domain, tuple(n.input), tuple(n.output)) for n in new.graph.node)
    if case['g']['meta'].get('dead') is None:
        b_, a_ = set(b), set(a)
        require(not b_ - a_, 'saving a model with an unknown operator changed nodes: %s', sorted(b_ - a_)[:2])
        require(all(x in b for x in a if x[3][0] in {o for n in kept for o in g.nodemap[n].output}), 'a node of an unknown operator is lost')
    try:
        g.shape_infer(gen.shapes_in(case['g'], 0))
    except Exception as e:
        require(kept, 'inference raises %s: %s', type(e).__name__, str(e)[:200])
        first = next(n for n in g.nodemap if n in kept)
        require(names_node(e, first), 'node %s has an unknown operator, but the error does not name it: %s: %s', first, type(e).__name__, str(e)[:200])
    else:
        require(not kept, 'the shapes of the unknown operators %s are inferred without an error', [x['op'] for x in made])
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        with sut('profiling'):
            g.profile()
    if kept:
        require([y for y in w if 'shape_infer' in str(y.message)], 'profiling after a failed inference gives no warning')
    return Info(bool(kept), [x['op'] for x in made])


@st.composite
def unknown_cases(draw):
    g = gen.graph(draw, {'n': (1, 6), 'K': 1})
    ops = draw(st.lists(st.fixed_dictionaries(dict(op=st.sampled_from(['VtMystery', 'Det', 'NoSuchOp', 'Bernoulli', 'VtScal']), domain=st.sampled_from(['', 'vt.x', 'com.y']),
                                                   t=st.integers(0, 9), one=st.booleans())), min_size=1, max_size=2))
    for o in ops:
        if o['op'] not in ('Det', 'Bernoulli') and not o['domain']:
            o['domain'] = 'vt.x'
    return dict(g=g, ops=ops, reorder=draw(st.booleans()))


# ---------------------------------------------------------------- registered handlers
CALLS = []


def register():
    from onnx_tool import NODE_REGISTRY
    from onnx_tool.node import Node

    class VtScaledNode(Node):
        """the shape of its input; macs = factor * elements"""
        def __init__(self, n):
            super().__init__(n)
            self.add_default_value('factor', 3)

        def shape_infer(self, intensors, outtensors):
            CALLS.append(self.name)
            outtensors[0].update_shape(intensors[0].get_shape())
            outtensors[0].update_dtype(intensors[0].dtype)

        def value_infer(self, intensors, outtensors):
            CALLS.append(self.name)
            outtensors[0].update_tensor(intensors[0].get_numpy())

        def _profile_core(self, intensors, outtensors):
            return self.factor * int(np.prod(intensors[0].get_shape()))

    class VtValueNode(Node):
        """value evaluation only"""
        def value_infer(self, intensors, outtensors):
            CALLS.append(self.name)
            outtensors[0].update_tensor(intensors[0].get_numpy().copy())

        def profile(self, intensors, outtensors):
            return [7, 5, 0]

    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        NODE_REGISTRY.register(VtScaledNode)
        NODE_REGISTRY.register()(VtValueNode)


def check_custom(case):
    from onnx_tool import NODE_REGISTRY
    if 'VtScaledNode' not in NODE_REGISTRY:
        register()
    spec, made = splice(case['g']['spec'], case['ops'])
    if not made:
        raise Skip('nothing to splice')
    gen.ref_tensors(case['g'], 0)
    model = build(dom(spec, made))
    byname = {x['name']: x for x in made}
    plain = build(dict(spec, nodes=[dict(n, op='Identity', domain='', attrs={}) if n.get('name') in byname else n for n in spec['nodes']]))
    ins = gen.feeds_of(case['g'], 0)
    ref = load(plain).graph
    with sut('inferring the model with Identity in place of the custom operators'):
        ref.shape_infer(ins)
        ref.profile()
    want = figures(ref)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        g = load(model).graph
    require(not [y for y in w if any(x['op'] in str(y.message) for x in made)], 'loading warns about a registered operator: %s', [str(y.message) for y in w])
    del CALLS[:]
    with sut('inferring a model with registered operators'):
        g.shape_infer(ins)
        g.profile()
    got = figures(g)
    require(list(got) == list(want), 'nodes %s, with Identity %s', list(got), list(want))
    kept = [n for n in byname if n in got]
    for n in got:
        if n in byname:
            require(n in CALLS, 'the handler registered for %s was not called for node %s', byname[n]['op'], n)
            x, t = byname[n], g.tensormap[byname[n]['in'][0]]
            vol = int(np.prod(t.get_shape()))
            macs = 7 if x['op'] == 'VtValue' else x['attrs'].get('factor', 3) * vol
            require(got[n][0] == macs, 'node %s of the registered operator %s has %d MACs, its handler gives %d', n, x['op'], got[n][0], macs)
            require(got[n][3:] == want[n][3:], 'node %s of the registered operator %s has shapes %s, not %s', n, x['op'], got[n][3:], want[n][3:])
        else:
            require(got[n] == want[n], 'the figures of node %s are %s with registered operators, %s without', n, got[n], want[n])
    require(int(g.macs[0]) == sum(v[0] for v in got.values()), 'the total of %d MACs is not the sum %d over the nodes', int(g.macs[0]), sum(v[0] for v in got.values()))
    for t in ref.tensormap:
        if t in g.tensormap:
            require(list(g.tensormap[t].get_shape()) == list(ref.tensormap[t].get_shape()), 'tensor %s has the shape %s with registered operators, %s without', t, g.tensormap[t].shape, ref.tensormap[t].shape)
    return Info(bool(kept), [x['op'] for x in made] + (['by value'] if any(g.nodemap[n].shape_calc for n in kept) else []))


@st.composite
def custom_cases(draw):
    g = gen.graph(draw, {'n': (1, 6), 'K': 1, 'blocks': draw(st.sampled_from([gen.ALLBLOCKS, ['shape', 'ew', 'shape']]))})
    ops = draw(st.lists(st.fixed_dictionaries(dict(op=st.sampled_from(['VtScaled', 'VtScaled', 'VtValue']), domain=st.sampled_from(['vt.x', 'vt.x', 'com.y']), t=st.integers(0, 9), one=st.booleans(),
                                                   attrs=st.sampled_from([{}, {'factor': 0}, {'factor': 11}]))), min_size=1, max_size=3))
    return dict(g=g, ops=ops)


SUBS = [Sub('ops', op_cases, check_op, 20000, 300000), Sub('graph', graph_cases, check_graph, 12000, 150000), Sub('inputs', input_cases, check_inputs, 3000, 40000),
        Sub('order', order_cases, check_order, 1500, 20000), Sub('unknown', unknown_cases, check_unknown, 1500, 20000), Sub('custom', custom_cases, check_custom, 2000, 30000)]
