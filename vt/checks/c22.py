"""C22: serialized graphs and shape engines decode to the original."""
import io
import os
import struct
from hypothesis import strategies as st
from ..core import *
from ..om import *
from .. import gen
import onnx_tool
from onnx_tool.graph import ShapeEngine, ValueExpr
from onnx_tool.serialization import serialize_graph, serialize_shape_engine, serialize_memory_compression

PROPERTY = 'C22'
TECHNIQUE = 'property-based testing: generated graphs, shape engines and memory plans, round trip through an independent decoder of the documented tag layout'
LEVEL_NOTE = 'random search over generated graphs (all attribute kinds, weight types, fused and quantized graphs), engines and plans'
RULE = ('A case is a graph (loaded, or after compute-graph extraction, fusion, quantization, attribute edits), a shape engine (assembled or regressed) or a memory plan. The file is decoded by an independent reader '
        'that must consume every byte; nodes, attributes, tensors, weights, variables, descriptions, expressions and blocks must equal the original in order. A value the layout has no tag for may be refused '
        'with an error, never written as something else. Non-trivial: a file was written and has at least one attribute or weight, a description with a variable, or a block.')
ASSUMPTIONS = ['the layout is the one of serialization.py: little-endian int32 counts, NUL-terminated UTF-8 strings, type tags INT=0 FLOAT=1 STR=2 FP16=3 INT8=5 UINT8=6 INT64=9, float32 numbers, '
               '8-byte integers in memory plans', 'floats are stored with single precision', 'refusing is acceptable for tensor, graph and empty-list attributes, integers beyond 32 bits, strings with NUL, other weight types']

NPT = {0: np.int32, 1: np.float32, 3: np.float16, 4: np.float64, 5: np.int8, 6: np.uint8, 7: np.int16, 8: np.uint16, 9: np.int64}


class Reader:
    def __init__(self, data):
        self.d, self.p = data, 0

    def take(self, n):
        require(0 <= n <= len(self.d) - self.p, 'the file ends at byte %d inside a value (%d bytes missing)', len(self.d), n - len(self.d) + self.p)
        r = self.d[self.p:self.p + n]
        self.p += n
        return r

    def int(self, n=4):
        return int.from_bytes(self.take(n), 'little', signed=True)

    def count(self, n=4):
        v = self.int(n)
        require(0 <= v <= len(self.d), 'a count of %d at byte %d', v, self.p)
        return v

    def float(self):
        return struct.unpack('<f', self.take(4))[0]

    def str(self):
        e = self.d.find(b'\0', self.p)
        require(e >= 0, 'a string at byte %d has no end', self.p)
        r = self.d[self.p:e]
        self.p = e + 1
        return r.decode('utf-8', 'surrogateescape')

    def value(self, tag):
        require(tag in (0, 1, 2), 'a value with the tag %d at byte %d', tag, self.p)
        return self.int() if tag == 0 else self.float() if tag == 1 else self.str()

    def end(self):
        require(self.p == len(self.d), '%d of %d bytes are left over', len(self.d) - self.p, len(self.d))


def read_graph(data):
    r = Reader(data)
    nodes = []
    for _ in range(r.count()):
        name, op = r.str(), r.str()
        ins = [r.str() for _ in range(r.count())]
        outs = [r.str() for _ in range(r.count())]
        attrs = []
        for _ in range(r.count()):
            k, n = r.str(), r.count()
            tag = r.int()
            attrs.append([k, tag, [r.value(tag) for _ in range(n)]])
        nodes.append([name, op, ins, outs, attrs])
    ws = []
    for _ in range(r.count()):
        name, tag, rank = r.str(), r.int(), r.count()
        require(tag in NPT, 'weight %s has the type tag %d', name, tag)
        shape = [r.int() for _ in range(rank)]
        require(all(s >= 0 for s in shape), 'weight %s has the shape %s', name, shape)
        t = np.dtype(NPT[tag])
        ws.append([name, np.frombuffer(r.take(int(np.prod(shape, dtype=np.int64)) * t.itemsize), t).reshape(shape)])
    r.end()
    return nodes, ws


def norm(v):
    """(tag, values) of an attribute value, or None if the layout has no form for it"""
    l = list(v) if isinstance(v, (list, tuple)) else [v]
    if not l:
        return None
    if all(isinstance(x, (bytes, str)) for x in l):
        l = [x.decode('utf-8', 'surrogateescape') if isinstance(x, bytes) else x for x in l]
        return None if any('\0' in x for x in l) else (2, l)
    if all(isinstance(x, (int, np.integer)) for x in l):
        return (0, [int(x) for x in l]) if all(-2 ** 31 <= int(x) < 2 ** 31 for x in l) else None
    if all(isinstance(x, (float, np.floating)) for x in l):
        with np.errstate(over='ignore'):
            return (1, [float(np.float32(x)) for x in l])
    return None


def eqv(a, b):
    return a == b or (isinstance(a, float) and isinstance(b, float) and a != a and b != b)


def weights_ok(a):
    return a is not None and np.dtype(a.dtype) in (np.dtype(t) for t in (np.float32, np.float16, np.int32, np.int8, np.uint8, np.int64))


def dump(fn, *args):
    """bytes written, or None if refused"""
    with scratch() as d:
        f = os.path.join(d, 'x.bin')
        try:
            fn(*args, f)
        except Exception as e:
            return None, e
        with open(f, 'rb') as h:
            return h.read(), None


def check_file(g, what):
    nodes = [[n, x.op_type, list(x.input), list(x.output), [[k, norm(v), v] for k, v in x.attr.items()]] for n, x in g.nodemap.items()]
    ws = [[n, None if g.tensormap[n].numpy is None else np.array(g.tensormap[n].numpy)] for n in g.initials]
    free = [k for x in nodes for k, n, _ in x[4] if n is None] + [n for n, a in ws if not weights_ok(a)] + [s for x in nodes for s in [x[0], x[1]] + x[2] + x[3] if '\0' in s]
    data, err = dump(serialize_graph, g)
    if data is None:
        require(free, '%s: not serialized although every value has a tag: %s: %s', what, type(err).__name__, err)
        return False
    gn, gw = read_graph(data)
    require(len(gn) == len(nodes), '%s: %d nodes decoded of %d', what, len(gn), len(nodes))
    for a, b in zip(gn, nodes):
        for i, part in enumerate(('name', 'operator', 'inputs', 'outputs')):
            require(a[i] == b[i], '%s: node %s: %s %r decoded, was %r', what, b[0], part, a[i], b[i])
        require(sorted(x[0] for x in a[4]) == sorted(x[0] for x in b[4]), '%s: node %s: attributes %s decoded, were %s', what, b[0], sorted(x[0] for x in a[4]), sorted(x[0] for x in b[4]))
        d = {x[0]: x for x in a[4]}
        for k, n, v in b[4]:
            if n is None:
                require(len(d[k][2]) == 0 == len(v) if isinstance(v, (list, tuple)) else False, '%s: node %s: attribute %s = %s is written as %s, the layout has no form for it', what, b[0], k, str(v)[:100], d[k][1:])
                continue
            require(d[k][1] == n[0], '%s: node %s: attribute %s = %r has the type tag %d', what, b[0], k, v, d[k][1])
            require(len(d[k][2]) == len(n[1]) and all(map(eqv, d[k][2], n[1])), '%s: node %s: attribute %s decoded as %r, was %r', what, b[0], k, d[k][2], v)
    require([n for n, _ in gw] == [n for n, _ in ws], '%s: weights %s decoded, were %s', what, [n for n, _ in gw], [n for n, _ in ws])
    for (n, a), (_, b) in zip(gw, ws):
        require(a.dtype == b.dtype and a.shape == b.shape, '%s: weight %s decoded as %s%s, was %s%s', what, n, a.dtype, a.shape, b.dtype, b.shape)
        require(a.tobytes() == b.tobytes(), '%s: the data of weight %s changed', what, n)
    return bool(ws) or any(x[4] for x in nodes)


def same_as_file(g, model):
    """the graph holds the nodes of the model (names, connections, attribute values)"""
    names = {tuple(n.output): n for n in model.graph.node}
    for n, x in g.nodemap.items():
        p = names.get(tuple(x.output))
        if p is None:
            continue
        for a in p.attribute:
            v, w = onnx.helper.get_attribute_value(a), x.attr.get(a.name)
            require(a.name in x.attr and (norm(v) is None or norm(w) == norm(v) or str(norm(w)) == str(norm(v))), 'node %s: attribute %s is %r in the file, %r in the graph', n, a.name, v, w)


EDITS = [5, -7, 0.5, 'text', b'bytes', [1, 2], [0.25, -1.0], ['a', 'b'], (3, 4), True, [True, False], 1e300, [], {'np': 'int64'}, {'np': 'float32'}, {'np': 'ints'}, [1, 0.5], [0.5, 1], ['a', 1], None, {'np': 'array'},
         2 ** 31, -2 ** 31, 'ü', [b'x', 'y'], '', {'np': 'nan'}, 'a\0b']


def edit_value(i):
    v = EDITS[i]
    if isinstance(v, dict):
        return {'int64': np.int64(-3), 'float32': np.float32(1.5), 'ints': [np.int64(4), np.int32(5)], 'array': np.arange(3), 'nan': float('nan')}[v['np']]
    return v


def check_graph(case):
    model = gen.model_of(case['g'])
    with sut('loading'):
        m = onnx_tool.Model(model, {'verbose': False, 'constant_folding': case['fold']})
    g = m.graph
    same_as_file(g, model)
    for s in case['steps']:
        if s[0] == 'compute':
            with sut('extracting the compute graph'):
                g.shape_infer(gen.shapes_in(case['g'], 0))
                g = g.get_compute_graph()
        elif s[0] == 'profile':
            with sut('profiling'):
                g.shape_infer(gen.shapes_in(case['g'], 0))
                g.profile()
        elif s[0] == 'fuse':
            with sut('fusing'):
                ok = fuse(g, s[1])
        elif s[0] == 'quant':
            from onnx_tool.quantization import graph_quantize
            for w in list(g.initials):
                a = g.tensormap[w].numpy
                if a is not None and a.ndim == 2 and a.dtype == np.float32 and a.size and np.isfinite(a).all():
                    with sut('quantizing'):
                        graph_quantize(g, w, block=s[1], type=s[2], bits=s[3])
                    break
        elif s[0] == 'attr' and g.nodemap:
            n = list(g.nodemap)[s[1] % len(g.nodemap)]
            g.nodemap[n].set_attr('k%d' % s[2], edit_value(s[2]))
    nt = check_file(g, 'graph')
    return Info(nt, [x[0] for x in case['steps']] + ([] if nt else ['refused or empty']))


def fuse(g, k):
    """fuse a node with its only consumer, as a post-operator or as a new node"""
    pairs = [(a, g.consumedby[o][0]) for a, x in g.nodemap.items() for o in x.output if o in g.consumedby and len(x.output) == 1 and len(g.consumedby[o]) == 1 and o not in g.output]
    from .c09 import captured
    pairs = [p for p in pairs if p[0] != p[1] and not captured(g.nodemap[p[0]].make_nodeproto()) and not captured(g.nodemap[p[1]].make_nodeproto())]
    if pairs:
        p = list(pairs[k % len(pairs)])
        if k % 2:
            g.fuse_postop_node_names(p, True)
        else:
            g.fuse_subgraph_node_names(p, 'Fused', 'fused_node', True)


@st.composite
def graphs(draw):
    fold = draw(st.booleans())
    blocks = ['ew', 'nn', 'mm', 'move', 'red', 'multi'] + ['shape', 'const', 'pass'] * fold + ['custom', 'custom'] * (not fold and draw(st.booleans()))
    c = gen.graph(draw, {'n': (1, 7), 'blocks': blocks})
    steps = []
    custom = 'custom' in blocks
    for _ in range(draw(st.integers(0, 3))):
        k = draw(st.sampled_from(['attr', 'attr', 'fuse', 'quant'] + ['compute', 'profile'] * (not custom)))
        if any(s[0] in ('fuse', 'quant', 'compute', 'attr') for s in steps) and k in ('compute', 'profile') or k == 'fuse' and any(s[0] == 'attr' for s in steps):
            continue
        steps.append({'attr': ['attr', draw(st.integers(0, 9)), draw(st.one_of(st.integers(0, 9), st.integers(0, len(EDITS) - 1)))], 'fuse': ['fuse', draw(st.integers(0, 9))],
                      'quant': ['quant', draw(st.sampled_from([-1, 0, 4])), draw(st.sampled_from(['sym', 'asym'])), draw(st.sampled_from([4, 8]))]}.get(k, [k]))
    return dict(g=c, steps=steps, fold=fold)


# ---- weights of every type and shape
WT = ['f32', 'f16', 'i32', 'i8', 'u8', 'i64', 'f64', 'i16', 'u16', 'bool', 'u32', 'u64']


def check_weights(case):
    nodes, inits, prev = [], [], 'x'
    spec = dict(inputs=[['x', 'f32', [2]]], outputs=[['y', 'f32', [2]]], nodes=[], inits=[], opset=17)
    for i, (dt, shape, seed) in enumerate(case['ws']):
        d = {'v': [seed % 2] * int(np.prod(shape))} if dt == 'bool' else {'seed': seed, 'lo': 0 if dt[0] == 'u' else -50, 'hi': 50}
        spec['inits'].append(['w%d' % i, dt, shape, d])
    spec['nodes'].append({'op': 'Mine', 'name': 'n', 'domain': 'my', 'in': ['x'] + ['w%d' % i for i in range(len(case['ws']))], 'out': ['y'], 'attrs': {}})
    spec['domains'] = [['my', 1]]
    model = build(spec)
    with sut('loading'):
        g = onnx_tool.Model(model, {'verbose': False}).graph
    if case['order']:
        for n in g.initials:
            t = g.tensormap[n]
            if t.numpy.ndim > 1:
                t.numpy = np.asfortranarray(t.numpy)
    nt = check_file(g, 'graph')
    return Info(nt, [w[0] for w in case['ws']])


@st.composite
def weights(draw):
    safe = draw(st.integers(0, 3)) > 0
    return dict(ws=[[draw(st.sampled_from(WT[:6] if safe else WT)), draw(st.sampled_from([[], [0], [1], [3], [2, 3], [1, 0, 2], [2, 1, 3], [2, 1, 1, 2], [257]])), draw(st.integers(0, 99))]
                    for _ in range(draw(st.integers(1, 5)))], order=draw(st.booleans()))


# ---- shape engines
def read_engine(data):
    r = Reader(data)
    vs = [r.str() for _ in range(r.count())]
    desc = []
    for _ in range(r.count()):
        n = r.str()
        desc.append([n, [r.value(r.int()) for _ in range(r.count())]])
    ex = [[r.str(), r.str(), r.float(), r.float(), r.int(), r.int()] for _ in range(r.count())]
    r.end()
    return vs, desc, ex


def check_engine_file(e, what):
    vs, desc, ex = list(e.variables), list(e.tensor_desc.items()), list(e.tensor_epxr.items())
    hard = [d for _, l in desc for d in l if not isinstance(d, str) and not -2 ** 31 <= int(d) < 2 ** 31]
    data, err = dump(serialize_shape_engine, e)
    if data is None:
        require(hard, '%s: not serialized: %s: %s', what, type(err).__name__, err)
        return False
    a, b, c = read_engine(data)
    require(a == vs, '%s: variables %s decoded, were %s', what, a, vs)
    require([n for n, _ in b] == [n for n, _ in desc], '%s: tensors %s decoded, were %s', what, [n for n, _ in b], [n for n, _ in desc])
    for (n, l), (_, o) in zip(b, desc):
        o = [x if isinstance(x, str) else int(x) for x in o]
        require(l == o and [type(x) for x in l] == [type(x) for x in o], '%s: description of %s decoded as %s, was %s', what, n, l, o)
    require(len(c) == len(ex), '%s: %d expressions decoded of %d', what, len(c), len(ex))
    for (n, s, al, be, fa, tr), (k, (src, x)) in zip(c, ex):
        require([n, s] == [k, src], '%s: expression of %s from %s decoded, was %s from %s', what, n, s, k, src)
        require((al, be, fa, tr) == (float(np.float32(x.alpha)), float(np.float32(x.beta)), int(x.factor), int(x.truncmode)), '%s: expression of %s decoded as %s, was %s', what, n, (al, be, fa, tr),
                (x.alpha, x.beta, x.factor, x.truncmode))
    return True


def check_engine(case):
    e = ShapeEngine({k: list(v) for k, v in case['inputs']})
    for v in case['vars']:
        e.update_variable(v, case['range'][0])
    for n, src, sr, dr, tweak in case['exprs']:
        x = ValueExpr(sr, dr)
        for k, v in tweak.items():
            setattr(x, k, v)
        e.add_expr(n, src, x)
    for n, l in case['desc']:
        e.add_tensor_desc(n, [np.int64(d['np']) if isinstance(d, dict) else d for d in l])
    nt = check_engine_file(e, 'engine')
    return Info(nt and any(isinstance(d, str) for _, l in case['desc'] for d in l), ['exprs%d' % min(len(case['exprs']), 3)])


NAMES = ['h', 'w', 'batch', '1', '2', '13', 'ü', 'a b']


@st.composite
def engines(draw):
    vs = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True))
    known = list(vs)
    exprs = []
    for i in range(draw(st.integers(0, 4))):
        n = str(20 + i)
        lo = draw(st.integers(1, 50))
        sr = [lo, lo + draw(st.integers(2, 20)), 0]
        sr[2] = sr[1] + draw(st.integers(1, 50))
        k = draw(st.integers(0, 3))
        f = [lambda x: x * 2 + 1, lambda x: x // 2, lambda x: -(-x // 4) + 1, lambda x: x + 3][k]
        if sr[2] - sr[0] < 8:
            sr[2] = sr[0] + 8
        tweak = draw(st.sampled_from([{}, {}, {'alpha': 0.1}, {'beta': -7}, {'alpha': 3, 'factor': 1, 'truncmode': 1}, {'beta': 0.5}]))
        exprs.append([n, draw(st.sampled_from(known)), sr, [f(x) for x in sr], tweak])
        known.append(n)
    dim = st.one_of(st.sampled_from(known), st.integers(0, 300), st.sampled_from([1, 2 ** 31 - 1, 65536, 2 ** 31, {'np': 4}, {'np': 70000}]))
    desc = draw(st.lists(st.tuples(st.sampled_from(['t0', 'a/b:0', 'x', 'ü', '7', '']), st.lists(dim, max_size=5)).map(list), max_size=5))
    return dict(vars=vs, range=[3, 9], exprs=exprs, inputs=[['in', [1, draw(st.sampled_from(vs)), 3]]], desc=desc)


# ---- memory plans
def check_memory(case):
    c = case['g']
    model = gen.model_of(c)
    with sut('planning'):
        g = onnx_tool.Model(model, {'verbose': False}).graph
        g.shape_infer(gen.shapes_in(c, 0))
        plan = g.compress_memory()
    mx = {k: (np.int64(v) if case['np'] else v) for k, v in c['assign'][0].items()}
    data, err = dump(serialize_memory_compression, plan, mx)
    require(data is not None, 'the plan is not serialized: %s: %s', type(err).__name__, err)
    r = Reader(data)
    total = r.int(8)
    blocks = [[r.str(), r.int(8), r.int(8)] for _ in range(r.count(8))]
    shp = [[r.str(), r.int(8)] for _ in range(r.count(8))]
    r.end()
    require(total == plan[1], 'total %d decoded, was %d', total, plan[1])
    want = [[k, int(v[0]), int(v[1])] for k, v in plan[0].items()]
    require(blocks == want, 'blocks %s decoded, were %s', blocks, want)
    require(shp == [[k, int(v)] for k, v in mx.items()], 'maximal dimensions %s decoded, were %s', shp, mx)
    return Info(bool(blocks), [])


@st.composite
def plans(draw):
    return dict(g=gen.graph(draw, {'n': (1, 6), 'blocks': ['ew', 'nn', 'mm', 'move', 'red', 'multi']}), np=draw(st.booleans()))


# ---- counts and sizes beyond a byte or a short
def check_large(case):
    what, n = case['what'], case['n']
    if what == 'engine' or what == 'variables':
        e = ShapeEngine({'in': [1, 'v0', 3]})
        for i in range(n if what == 'variables' else 1):
            e.update_variable('v%d' % i, 3)
        for i in range(n if what == 'engine' else 1):
            e.add_tensor_desc('t%d' % i, ['v0', i])
            if i % 2:
                e.add_expr('e%d' % i, 'v0', ValueExpr([1, 20, 40], [1 + i, 20 + i, 40 + i]))
        return Info(check_engine_file(e, 'engine'), [what])
    if what == 'plan':
        plan = ({'t%d' % i: [i * 8, 8] for i in range(n)}, n * 8)
        data, err = dump(serialize_memory_compression, plan, {'v%d' % i: i for i in range(n)})
        require(data is not None, 'the plan is not serialized: %s: %s', type(err).__name__, err)
        r = Reader(data)
        require(r.int(8) == n * 8, 'wrong total')
        require([[r.str(), r.int(8), r.int(8)] for _ in range(r.count(8))] == [[k, *v] for k, v in plan[0].items()], 'the blocks changed')
        require([[r.str(), r.int(8)] for _ in range(r.count(8))] == [['v%d' % i, i] for i in range(n)], 'the dimensions changed')
        r.end()
        return Info(True, [what])
    spec = dict(inputs=[['x', 'f32', [2]]], outputs=[['y', 'f32', [2]]], nodes=[], inits=[], opset=17, domains=[['my', 1]])
    node = {'op': 'Mine', 'name': 'n', 'domain': 'my', 'in': ['x'], 'out': ['y'], 'attrs': {}}
    if what == 'nodes':
        for i in range(n):
            spec['nodes'].append(dict(node, name='n%d' % i, **{'in': ['t%d' % (i - 1)] if i else ['x'], 'out': ['t%d' % i] if i < n - 1 else ['y']}))
    else:
        spec['nodes'].append(node)
        if what == 'inputs' or what == 'weights':
            for i in range(n):
                spec['inits'].append(['w%d' % i, 'f32', [], {'v': [i]}])
                node['in'].append('w%d' % i)
        elif what == 'outputs':
            node['out'] += ['o%d' % i for i in range(n)]
        elif what == 'attrs':
            node['attrs'] = {'a%d' % i: i for i in range(n)}
        elif what == 'ints':
            node['attrs'] = {'a': list(range(-3, n - 3)), 'b': 1}
        elif what == 'floats':
            node['attrs'] = {'a': {'floats': [i / 4 for i in range(n)]}, 'b': 1}
        elif what == 'strings':
            node['attrs'] = {'a': {'strings': ['s%d' % i for i in range(n)]}, 'b': 'x' * n}
        elif what == 'names':
            node['name'] = 'n' * n
            node['in'].append('w' * n)
            spec['inits'].append(['w' * n, 'i64', [], {'v': [1]}])
        elif what == 'dim':
            for i, s in enumerate(([n], [1, n], [n, 2])):
                spec['inits'].append(['w%d' % i, case['dt'], s, {'seed': i, 'lo': 0, 'hi': 50}])
                node['in'].append('w%d' % i)
    with sut('loading'):
        g = onnx_tool.Model(build(spec), {'verbose': False}).graph
    check_file(g, 'graph')
    return Info(True, [what])


@st.composite
def large(draw):
    what = draw(st.sampled_from(['engine', 'variables', 'plan', 'nodes', 'inputs', 'weights', 'outputs', 'attrs', 'ints', 'floats', 'strings', 'names', 'dim']))
    n = draw(st.sampled_from([127, 128, 255, 256, 257, 300, 511, 700]))
    if what in ('ints', 'floats', 'strings', 'names', 'dim'):
        n = draw(st.sampled_from([n, n, n, 32767, 32768, 40000]))
    return dict(what=what, n=n, dt=draw(st.sampled_from(WT[:6])))


SUBS = [Sub('graph', graphs, check_graph, 10000, 120000), Sub('weights', weights, check_weights, 4000, 40000), Sub('engine', engines, check_engine, 8000, 80000), Sub('memory', plans, check_memory, 3000, 30000),
        Sub('large', large, check_large, 400, 3000)]
