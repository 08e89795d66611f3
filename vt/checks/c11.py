"""C11: the shape engine predicts exactly the inferred shapes."""
import warnings
from hypothesis import strategies as st
from ..core import *
from ..om import *
from .. import gen
import onnx_tool

PROPERTY = 'C11'
TECHNIQUE = 'property-based testing: generated models with dimensions that are chains of linear, halving and doubling steps of one variable, differential prediction versus direct inference at every value of a range'
LEVEL_NOTE = 'random search over generated models, ranges and value combinations; direct inference is compared with the executed shapes in C03'
RULE = ('A case is a model, its input description and the range of each variable. The engine is built once and then queried in any order at values of the range: every value of every variable with the others '
        'at random values, the corners, and random combinations. Every tensor of the compute graph must have exactly the shape which direct inference with a freshly loaded model gives. '
        'Sub "models" does the same for general generated models, restricted to tensors whose dimensions are functions of the stated kind (determined by direct inference over the whole range). '
        'Non-trivial: at least two expressions (one in "models") besides the variables themselves.')
ASSUMPTIONS = ['every dimension depends on at most one variable (by construction)', 'each step of a chain divides by two (rounding down or up), doubles, multiplies or adds a constant, at most six divisions',
               'the generator builds chains from convolution, pooling, resize, padding, slicing, concatenation, tiling, reshape and shape computations; other products or sums of dimensions are outside the statement']


class C:
    """a chain model: t = (name, [dim, ...]) with a dim an int or (variable, f) where f maps a value to the dimension"""

    def __init__(self, draw):
        self.i = lambda a, b: draw(st.integers(a, b))
        self.pick = lambda l: l[self.i(0, len(l) - 1)]
        self.nodes, self.inits, self.n, self.tensors, self.kinds = [], [], 0, [], []

    def fresh(self):
        self.n += 1
        return 't%d' % self.n

    def w(self, shape):
        n = self.fresh()
        self.inits.append([n, 'f32', shape, {'fill': 0.5}])
        return n

    def ints(self, v):
        n = self.fresh()
        self.inits.append([n, 'i64', [len(v)] if isinstance(v, list) else [], {'v': v if isinstance(v, list) else [v]}])
        return n

    def node(self, op, ins, sh, attrs=None, outs=1):
        o = [self.fresh() for _ in range(outs)]
        self.nodes.append(dict(op=op, name='' if self.unnamed else 'n%d' % len(self.nodes), attrs=attrs or {}, **{'in': ins, 'out': o}))
        if sh is not None:
            self.tensors.append((o[0], sh))
        return o[0]


# a dimension: [] is a fixed 'v'; chain = list of steps applied to the variable
def apply(chain, v):
    for k, a in chain:
        if k == 'add':
            v += a
        elif k == 'mul':
            v *= a
        elif k == 'fl':          # floor((v + a) / 2)
            v = (v + a) // 2
        elif k == 'ce':
            v = -((-(v + a)) // 2)
        elif k == 'div':         # exact
            v //= a
    return v


def ext(d, *steps):
    if isinstance(d, int):
        return apply(steps, d)
    return [d[0], d[1] + [list(s) for s in steps]]


def halvings(d):
    return 0 if isinstance(d, int) else sum(1 for k, _ in d[1] if k in ('fl', 'ce'))


def lo(d, ranges):
    return d if isinstance(d, int) else min(apply(d[1], v) for v in range(ranges[d[0]][0], ranges[d[0]][1] + 1))


def hi(d, ranges):
    return d if isinstance(d, int) else max(apply(d[1], ranges[d[0]][e]) for e in (0, 1))


def grow(c, ranges):
    """one step of the chain"""
    name, sh = c.pick(c.tensors[-3:])
    i, pick = c.i, c.pick
    r = len(sh)
    ok2 = lambda d: halvings(d) < 6 and lo(d, ranges) >= 8
    small = lambda d: hi(d, ranges) <= 4000
    spatial = r - 2 if r >= 3 else 0
    k = pick(['conv', 'conv', 'conv', 'pool', 'pool', 'up', 'resize', 'convt', 'pad', 'slice', 'slice', 'concat', 'tile', 'ew', 'trans', 'mm', 'reduce', 'reshape', 'merge', 'shapeup', 'shapeexp', 'split', 'squeeze', 'size', 'add'])
    c.kinds.append(k)
    if k in ('conv', 'pool') and spatial and isinstance(sh[1], int) and spatial <= 3 and all(isinstance(d, int) or ok2(d) for d in sh[2:]) and all(not isinstance(d, int) or d >= 4 for d in sh[2:]):
        big = all((d if isinstance(d, int) else lo(d, ranges)) >= 20 for d in sh[2:]) and pick([0, 0, 1])
        ks = [pick([3, 5, 7, 9]) if big else i(1, 4) for _ in range(spatial)]
        st_ = [pick([1, 2, 2]) for _ in range(spatial)]
        at = {'kernel_shape': ks, 'strides': st_}
        auto = k == 'conv' and pick([0, 0, 0, 1])
        ceil = 0
        if auto:
            at['auto_pad'] = pick(['SAME_UPPER', 'SAME_LOWER', 'VALID'])
        else:
            p = [i(0, max(0, min(8 if big else 2, kk - 1))) for kk in ks * 2]
            at['pads'] = p
            if k == 'pool' and i(0, 1):
                at['ceil_mode'] = ceil = 1
        dl = [1] * spatial
        if k == 'conv' and not auto and i(0, 3) == 3:
            dl = [i(1, 2) for _ in ks]
            at['dilations'] = dl
        out = []
        for j, d in enumerate(sh[2:]):
            if auto and at['auto_pad'] != 'VALID':
                out.append(ext(d, ('ce', 0)) if st_[j] == 2 else d)
                continue
            pp = 0 if auto else p[j] + p[j + spatial]
            full = (ks[j] - 1) * dl[j] + 1
            if st_[j] == 1:
                out.append(ext(d, ('add', pp - full + 1)) if pp - full + 1 else d)
            else:
                out.append(None if ceil else ext(d, ('fl', pp - full + 2)))
                if ceil:
                    out[-1] = ext(d, ('ce', pp - full + 2))
        if k == 'conv':
            co = i(1, 4)
            c.node('Conv', [name, c.w([co, sh[1]] + ks)], [sh[0], co] + out, at)
        else:
            c.node(pick(['MaxPool', 'AveragePool']), [name], sh[:2] + out, at)
    elif k == 'convt' and spatial and isinstance(sh[1], int) and all(small(d) for d in sh[2:]):
        ks = [i(1, 3) for _ in range(spatial)]
        s = [pick([1, 2, 2, 3]) for _ in range(spatial)]
        if all(lo(d, ranges) >= 2 for d in sh[2:]):
            co = i(1, 3)
            c.node('ConvTranspose', [name, c.w([sh[1], co] + ks)], [sh[0], co] + [ext(d, ('mul', a), ('add', q - a)) for d, a, q in zip(sh[2:], s, ks)], {'kernel_shape': ks, 'strides': s})
    elif k == 'up' and spatial and all(small(d) for d in sh[2:]):
        f = [pick([2, 2, 3, 1]) for _ in range(spatial)]
        c.node('Resize', [name, '', _f(c, [1, 1] + f)], sh[:2] + [ext(d, ('mul', a)) if a > 1 else d for d, a in zip(sh[2:], f)], {'mode': 'nearest', 'coordinate_transformation_mode': 'asymmetric', 'nearest_mode': 'floor'})
    elif k == 'resize' and spatial and all(ok2(d) or isinstance(d, int) and d >= 2 for d in sh[2:]):
        c.node('Resize', [name, '', _f(c, [1, 1] + [0.5] * spatial)], sh[:2] + [ext(d, ('fl', 0)) for d in sh[2:]], {'mode': 'nearest', 'coordinate_transformation_mode': 'asymmetric', 'nearest_mode': 'floor'})
    elif k == 'pad' and r:
        ax = i(0, r - 1)
        p = [0] * (2 * r)
        p[ax], p[ax + r] = i(0, 3), i(0, 3)
        c.node('Pad', [name, c.ints(p)], [ext(d, ('add', p[j] + p[j + r])) if j == ax and p[j] + p[j + r] else d for j, d in enumerate(sh)])
    elif k == 'slice' and r:
        ax = i(0, r - 1)
        d = sh[ax]
        how = i(0, 3)
        if how == 0 and lo(d, ranges) >= 5:
            s = i(1, 3)
            c.node('Slice', [name, c.ints([s]), c.ints([2 ** 31 - 1]), c.ints([ax])], sh[:ax] + [ext(d, ('add', -s))] + sh[ax + 1:])
        elif how == 1 and lo(d, ranges) >= 5:
            e = i(1, 3)
            c.node('Slice', [name, c.ints([0]), c.ints([-e]), c.ints([ax - (r if i(0, 1) else 0)])], sh[:ax] + [ext(d, ('add', -e))] + sh[ax + 1:])
        elif how == 2 and ok2(d):
            s = i(0, 2)
            c.node('Slice', [name, c.ints([s]), c.ints([2 ** 62]), c.ints([ax]), c.ints([2])], sh[:ax] + [ext(d, ('ce', -s))] + sh[ax + 1:])
        elif lo(d, ranges) >= 3:
            c.node('Slice', [name, c.ints([0]), c.ints([3]), c.ints([ax])], sh[:ax] + [3] + sh[ax + 1:])
    elif k == 'concat' and r:
        ax = i(0, r - 1)
        m = i(2, 3)
        if small(sh[ax]):
            c.node('Concat', [name] * m, sh[:ax] + [ext(sh[ax], ('mul', m))] + sh[ax + 1:], {'axis': ax - (r if i(0, 1) else 0)})
    elif k == 'tile' and r:
        ax = i(0, r - 1)
        m = i(2, 3)
        if small(sh[ax]):
            c.node('Tile', [name, c.ints([m if j == ax else 1 for j in range(r)])], [ext(d, ('mul', m)) if j == ax else d for j, d in enumerate(sh)])
    elif k == 'ew':
        op = pick(['Relu', 'Add', 'Mul', 'Softmax', 'Neg'])
        if op in ('Add', 'Mul'):
            c.node(op, [name, name if i(0, 1) else c.w([1])], sh if r else [1]) if r else None
        elif op != 'Softmax' or r:
            c.node(op, [name], sh)
    elif k == 'add':
        same_ = [t for t, s in c.tensors if s == sh]
        c.node('Add', [name, pick(same_)], sh)
    elif k == 'trans' and r:
        p = list(range(r))
        a, b = i(0, r - 1), i(0, r - 1)
        p[a], p[b] = p[b], p[a]
        c.node('Transpose', [name], [sh[j] for j in p], {'perm': p})
    elif k == 'mm' and r >= 2:
        if isinstance(sh[-1], int):
            n = i(1, 5)
            c.node('MatMul', [name, c.w([sh[-1], n])], sh[:-1] + [n])
        elif isinstance(sh[-2], int):
            n = i(1, 5)
            c.node('MatMul', [c.w([n, sh[-2]]), name], sh[:-2] + [n, sh[-1]])
    elif k == 'reduce' and r:
        ax, kd = i(0, r - 1), i(0, 1)
        c.node(pick(['ReduceMax', 'ReduceMean', 'ReduceMin']), [name], sh[:ax] + ([1] if kd else []) + sh[ax + 1:], {'axes': [ax], 'keepdims': kd})
    elif k == 'reshape' and r >= 2:
        # the last two dimensions are merged when one of them is fixed
        a, b = sh[-2:]
        if isinstance(a, int) or isinstance(b, int):
            f, v = (a, b) if isinstance(a, int) else (b, a)
            m = f * v if isinstance(v, int) else ext(v, ('mul', f)) if f > 1 else v
            if small(m) and sum(not isinstance(d, int) for d in sh[:-2]) == 0:
                c.node('Reshape', [name, c.ints(list(sh[:-2]) + [-1])], sh[:-2] + [m])
            elif small(m):
                c.node('Reshape', [name, c.ints([0] * (r - 2) + [-1])], sh[:-2] + [m])
    elif k == 'merge' and r == 4:
        v = [j for j, d in enumerate(sh[1:]) if not isinstance(d, int)]
        if len(v) <= 1:
            import math
            f = math.prod(d for d in sh[1:] if isinstance(d, int))
            m = f if not v else ext(sh[1 + v[0]], ('mul', f)) if f > 1 else sh[1 + v[0]]
            if small(m):
                c.node('Flatten', [name], [sh[0], m], {'axis': 1})
    elif k in ('shapeup', 'shapeexp', 'size') and r:
        # a dimension read through Shape and changed by arithmetic
        ax = pick([j for j, d in enumerate(sh) if not isinstance(d, int)] or [0])
        d = sh[ax]
        s = c.node('Shape', [name], None)
        g = c.node('Gather', [s, c.ints([ax])], None, {'axis': 0})
        how = i(0, 3)
        if how == 0:
            a = i(2, 3)
            d, g = ext(d, ('mul', a)), c.node('Mul', [g, c.ints([a])], None)
        elif how == 1:
            a = i(1, 4)
            d, g = ext(d, ('add', a)), c.node('Add', [g, c.ints([a])], None)
        elif how == 2 and ok2(d):
            d, g = ext(d, ('fl', 0)), c.node('Div', [g, c.ints([2])], None)
        elif how == 3 and ok2(d):
            g = c.node('Div', [c.node('Add', [g, c.ints([1])], None), c.ints([2])], None)
            d = ext(d, ('ce', 0))
        if not small(d):
            return
        if k == 'shapeup':
            c.node('ConstantOfShape', [c.node('Concat', [g, c.ints([i(1, 3)])], None, {'axis': 0})], [d, c.inits[-1][3]['v'][0]])
        elif k == 'shapeexp':
            c.node('Expand', [c.w([1, 3]), c.node('Concat', [g, c.ints([3])], None, {'axis': 0})], [d, 3])
        else:
            q = c.node('Squeeze', [g, c.ints([0])], None)
            c.node('Range', [c.ints(0), q, c.ints(1)], None)
            c.nodes.append(dict(op='Cast', name='', attrs={'to': 1}, **{'in': [c.nodes[-1]['out'][0]], 'out': [c.fresh()]}))
            c.tensors.append((c.nodes[-1]['out'][0], [d]))
    elif k == 'split' and r:
        ax = pick([j for j in range(r)])
        if isinstance(sh[ax], int) and sh[ax] >= 2:
            c.nodes.append(dict(op='Split', name='', attrs={'axis': ax}, **{'in': [name, c.ints([1, sh[ax] - 1])], 'out': [c.fresh(), c.fresh()]}))
            for o, n in zip(c.nodes[-1]['out'], (1, sh[ax] - 1)):
                c.tensors.append((o, sh[:ax] + [n] + sh[ax + 1:]))
    elif k == 'squeeze' and r:
        if 1 in sh:
            ax = sh.index(1)
            c.node('Squeeze', [name, c.ints([ax])], sh[:ax] + sh[ax + 1:])
        elif r < 5:
            ax = i(0, r)
            c.node('Unsqueeze', [name, c.ints([ax])], sh[:ax] + [1] + sh[ax:])


def _f(c, v):
    n = c.fresh()
    c.inits.append([n, 'f32', [len(v)], {'v': v}])
    return n


@st.composite
def cases(draw):
    c = C(draw)
    i, pick = c.i, c.pick
    c.unnamed = i(0, 1)
    vs = ['N', 'H', 'W'][:i(1, 3)]
    style = pick([['N', 'H', 'W'], ['batch', 'h', 'w'], ['seq', 'past', 'x1']])
    ren = dict(zip(['N', 'H', 'W'], style))
    ranges = {}
    for v in vs:
        a = pick([1, 1, 2, 3, 7, 16, 32, 33, 64, 224]) if v == 'N' else pick([8, 11, 16, 31, 32, 64, 224])
        ranges[ren[v]] = [a, a + pick([1, 2, 3, 3, 5, 8, 15, 31, 32, 40, 75, 100, 200] if v != 'N' else [1, 3, 7, 20])]
    D = {v: [ren[v], []] for v in vs}
    get = lambda v, fixed: D.get(v, fixed)
    t = i(0, 5)
    ins = []
    if t <= 2:
        ins.append(('x', [get('N', 1), 3, get('H', 16), get('W', 12)]))
    elif t == 3:
        ins.append(('x', [get('N', 2), get('H', 9), 6]))
    elif t == 4:
        ins.append(('x', [get('N', 2), 4, get('H', 10)]))
    else:
        ins.append(('x', [get('H', 10), get('N', 3)]))
    if i(0, 2) == 2:
        ins.append(('y', [get('N', 2), 2, get('H', 8)]))
    if i(0, 3) == 3 and 'W' in D:
        ins.append(('z', [D['W'], 5]))
    c.tensors = [(n, s) for n, s in ins]
    rg = {k: v for k, v in ranges.items()}
    for _ in range(pick([4, 6, 8, 10, 2, 12])):
        grow(c, rg)
    used = {x for n in c.nodes for x in n['in']}
    outs = [o for n in c.nodes for o in n['out'] if o not in used]
    if not outs:
        c.nodes.append(dict(op='Relu', name='', attrs={}, **{'in': ['x'], 'out': ['r']}))
        outs = ['r']
    used = {x for n in c.nodes for x in n['in']}
    sym = lambda s: [d if isinstance(d, int) else d[0] for d in s]
    inputs = [[n, 'f32', sym(s)] for n, s in ins if n in used]
    seen = {d for _, _, s in inputs for d in s if isinstance(d, str)}
    ranges = {k: v for k, v in ranges.items() if k in seen}
    desc = [n for n, _, s in inputs if any(isinstance(d, str) for d in s) or i(0, 1)]
    order = list(draw(st.permutations(list(ranges))))
    return dict(spec=dict(nodes=c.nodes, inputs=inputs, inits=c.inits, outputs=outs, opset=17), ranges={k: ranges[k] for k in order}, desc=desc, how=pick(['graph', 'graph', 'api']), tup=i(0, 1), shuffle=i(0, 2) == 2,
                seed=i(0, 10 ** 6), kinds=sorted(set(c.kinds)))


def queries(case):
    import random
    r = random.Random(case['seed'])
    R = case['ranges']
    qs = []
    for k, (a, b) in R.items():
        vals = list(range(a, b + 1))
        if len(vals) > 48:
            vals = sorted(r.sample(vals, 44) + [a, a + 1, b - 1, b])
        for v in vals:
            qs.append({j: v if j == k else r.randint(*R[j]) for j in R})
    for _ in range(4):
        qs.append({j: r.choice(R[j]) for j in R})
    r.shuffle(qs)
    return qs


def check(case):
    spec, R = case['spec'], case['ranges']
    if not R:
        raise Skip('no variable dimension')
    desc = {n: (tuple if case['tup'] else list)(s) for n, _, s in spec['inputs'] if n in case['desc']}
    rng = {k: (tuple if case['tup'] else list)(v) for k, v in R.items()}
    fresh = onnx_tool.Model(build(spec), {'verbose': False}).graph

    def direct(q):
        with sut('direct inference'):
            fresh.shape_infer({n: np.zeros([q.get(d, d) for d in s], np.float32) for n, _, s in spec['inputs']})
        return {t: list(fresh.tensormap[t].get_shape()) for t in fresh.tensormap}
    qs = queries(case)
    want = [direct(q) for q in qs]
    with sut('building the shape engine'):
        src = build(spec)
        if case['how'] == 'api':
            if case.get('shuffle'):  # model_shape_regress puts the nodes in order
                nodes = list(src.graph.node)
                __import__('random').Random(case['seed']).shuffle(nodes)
                del src.graph.node[:]
                src.graph.node.extend(nodes)
            eng, cg = onnx_tool.model_shape_regress(src, desc, rng)
        else:
            g = onnx_tool.Model(src, {'verbose': False}).graph
            eng = g.shape_regress(desc, rng)
            cg = g.get_compute_graph()
    names = list(dict.fromkeys(list(cg.dynamics) + [t for n in cg.nodemap.values() for t in n.output if t]))
    for t in names:
        with sut('querying the tensor %s' % t):
            eng.get_tensorshape(t)
    for q, w in zip(qs, want):
        with sut('querying the shape engine'):
            for k in q:
                eng.update_variable(k, q[k])
            eng.update_variables()
            got = {t: list(eng.get_tensorshape(t)) for t in names}
        for t in names:
            require(got[t] == w[t], 'at %s the engine (ranges %s) predicts the shape %s for %s, inference gives %s', q, R, got[t], t, w[t])
    return Info(len(eng.tensor_epxr) >= 2, case['kinds'] + ['%d expressions' % min(9, len(eng.tensor_epxr))])


# ---------------------------------------------------------------- general models
def line(values, out):
    """is values -> out linear, or a division by a power of two rounded down?"""
    if len(values) == 1:
        return True
    a, r = divmod(out[-1] - out[0], values[-1] - values[0])
    if not r and all(o == out[0] + a * (v - values[0]) for v, o in zip(values, out)):
        return True
    if len(set(out)) < 3:       # one step may as well be a clamp
        return False
    for k in (2, 4, 8):
        for c in range(-2 * k, 2 * k + 1):
            b = out[0] - (values[0] + c) // k
            if all(o == (v + c) // k + b for v, o in zip(values, out)):
                return True
    return False


def check_model(case):
    import random
    c, R = case['g'], case['ranges']
    model = gen.model_of(c)
    gen.ref_tensors(c, 0, model)
    if not R:
        raise Skip('no variable dimension')
    inputs = {n: (dt, d) for n, dt, d in c['spec']['inputs']}
    fresh = onnx_tool.Model(gen.model_of(c), {'verbose': False}).graph
    inputs = {n: v for n, v in inputs.items() if n in fresh.input}
    R = {k: v for k, v in R.items() if any(k in d for _, d in inputs.values())}
    if not R:
        raise Skip('no variable dimension')

    def direct(q):
        try:
            fresh.shape_infer({n: np.zeros([q.get(x, x) for x in d], npdt(dt)) for n, (dt, d) in inputs.items()})
        except Exception:
            raise Skip('the model is not valid in the whole range')
        return {t: tuple(fresh.tensormap[t].get_shape()) for t in fresh.tensormap}
    r = random.Random(case['seed'])
    qs, sweeps = [], {}
    for k, (a, b) in R.items():
        fix = {j: r.randint(*R[j]) for j in R}
        for _ in range(2):
            sweeps.setdefault(k, []).append([(dict(fix, **{k: v}), direct(dict(fix, **{k: v}))) for v in range(a, b + 1)])
            fix = {j: R[j][0] for j in R}
    names = list(fresh.tensormap)
    inside = set()
    for t in names:
        ranks = {len(w[t]) for k in R for s in sweeps[k] for _, w in s}
        if len(ranks) != 1:
            continue
        good = True
        for i in range(ranks.pop()):
            dep = set()
            for k in R:
                f = [tuple(w[t][i] for _, w in s) for s in sweeps[k]]
                if any(len(set(x)) > 1 for x in f):
                    dep.add(k)
                    good &= f[0] == f[1] and line([q[k] for q, _ in sweeps[k][0]], f[0])
            good &= len(dep) < 2
        if good:
            inside.add(t)
    with sut('building the shape engine'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        g = onnx_tool.Model(gen.model_of(c), {'verbose': False}).graph
        desc = {n: list(d) for n, (_, d) in inputs.items() if case['all'] or any(isinstance(x, str) for x in d)}
        eng = g.shape_regress(desc, {k: tuple(v) for k, v in R.items()})
        cg = g.get_compute_graph()
    names = list(dict.fromkeys(list(cg.dynamics) + [t for n in cg.nodemap.values() for t in n.output if t]))
    names = [t for t in names if t in inside]
    for k in R:
        for q, w in sweeps[k][0] + sweeps[k][1]:
            with sut('querying the shape engine'):
                for v in q:
                    eng.update_variable(v, q[v])
                eng.update_variables()
                got = {t: tuple(eng.get_tensorshape(t)) for t in names}
            for t in names:
                require(got[t] == w[t], 'at %s the engine (ranges %s) predicts the shape %s for %s, inference gives %s', q, R, got[t], t, w[t])
    return Info(len(eng.tensor_epxr) >= 1 and len(names) > 1, ['%d expressions' % min(9, len(eng.tensor_epxr)), 'all tensors' if len(names) == len(fresh.tensormap) else 'some'])


@st.composite
def model_cases(draw):
    g = gen.graph(draw, {'n': (2, 8), 'K': 1})
    ranges = {k: [v, v + draw(st.sampled_from([1, 2, 3, 5, 9, 17]))] for k, v in g['assign'][0].items()}
    return dict(g=g, ranges=ranges, seed=draw(st.integers(0, 10 ** 6)), all=draw(st.booleans()))


SUBS = [Sub('chains', cases, check, 4000, 60000), Sub('models', model_cases, check_model, 3000, 40000)]
