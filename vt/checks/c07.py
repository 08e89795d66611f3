import os
import numpy as np
import onnx
from hypothesis import strategies as st
from ..core import Sub, Info, Violation, require, sut
from ..om import *
import onnx_tool

PROPERTY = 'C07'
TECHNIQUE = 'property-based testing (Hypothesis): bit-exact round trip of generated weights'
LEVEL_NOTE = 'Random search over element types, shapes, bit patterns, storage forms and names; oracle: the bytes that were encoded, decoded by onnx.numpy_helper / numpy. No guarantee outside the sampled cases; trusts onnx and numpy.'
RULE = ('A case is a model whose initializers have a random numeric or boolean element type, shape (rank 0-4, zero-size '
        'included), bit pattern and storage form (raw bytes or typed field). Non-trivial: at least one initializer with a '
        'nonzero bit pattern.')
ASSUMPTIONS = ['strings have no trailing NUL characters (numpy drops them)', 'numpy files of types numpy does not know (bfloat16, 8 bit floats, sub-byte) hold the bytes of the values; '
               'with the fp16 option such a type may be converted or not',
               'signalling NaNs are made quiet (a float list in protobuf does not preserve them)']
TYPES = ['f32', 'f64', 'f16', 'i64', 'i32', 'i16', 'i8', 'u8', 'u16', 'u32', 'u64', 'bool']
MORE = list(EXT) + ['str']


def value(d, s, data):
    if d != 'str':
        return quiet(arr(d, s, data))
    h = data['bits']
    n = int(np.prod(s)) if s else 1
    return np.array([('é%s' % h[i % len(h):i % len(h) + i % 5] if i % 3 else h[:i % 7]).encode('utf8') for i in range(n)], dtype=np.bytes_).reshape(s)


def proto(n, a, typed):
    if a.dtype.kind == 'S':
        t = onnx.TensorProto(name=n, data_type=onnx.TensorProto.STRING, dims=a.shape)
        t.string_data.extend(a.reshape(-1).tolist())
        return t
    return tensor_proto(n, a, typed)


def sparse(n, a, flat):
    """the sparse form of a"""
    f = a.reshape(-1)
    nz = np.flatnonzero(np.frombuffer(f.tobytes(), np.uint8).reshape(f.size, -1).any(1)) if f.size else np.zeros(0, int)  # -0.0 counts
    ix = nz.astype(np.int64) if flat else np.stack(np.unravel_index(nz, a.shape), 1).astype(np.int64)
    return onnx.helper.make_sparse_tensor(tensor_proto(n, f[nz]), tensor_proto(n + '_i', ix), list(a.shape))


def elem(d):
    return onnx.TensorProto.STRING if d == 'str' else ptdt(d)


def vio(n, d, s):
    return onnx.helper.make_tensor_value_info(n, elem(d), s)


def key(a):
    return 'str' if a.dtype.kind == 'S' else NP2DT[a.dtype]


def equal(a, b):
    if a.dtype.kind == 'S':
        return b.shape == a.shape and [x.encode() if isinstance(x, str) else x for x in b.reshape(-1).tolist()] == a.reshape(-1).tolist()
    if key(a) in SUBBYTE and b.dtype == a.dtype:
        return b.shape == a.shape and np.array_equal(a.astype(np.float32), b.astype(np.float32))
    return bits_equal(a, b)


def quiet(a):
    if a.dtype.kind == 'c':
        return quiet(np.ascontiguousarray(a).reshape(-1).view(np.float32 if a.dtype == np.complex64 else np.float64)).view(a.dtype).reshape(a.shape)
    if a.dtype in (np.float16, np.float32, np.float64):
        a = a.copy()
        it = {2: (np.uint16, 0x0200), 4: (np.uint32, 0x400000), 8: (np.uint64, 1 << 51)}[a.dtype.itemsize]
        m = np.isnan(a)
        v = a.view(it[0]) if a.ndim else a.reshape(1).view(it[0]).reshape(())
        v = np.where(m, v | it[0](it[1]), v).astype(it[0])
        return v.view(a.dtype)
    return a


SHAPES = st.lists(st.sampled_from([0, 1, 2, 3, 5, 7]), min_size=0, max_size=4)


@st.composite
def one_init(draw):
    d = draw(st.sampled_from(TYPES if draw(st.integers(0, 3)) else MORE))
    shape = draw(SHAPES)
    size = int(np.prod(shape)) if shape else 1
    special = {'f32': ['0000c07f', '0000807f', '000080ff', '00000080', '01000000', 'ffff7f7f'],
               'f64': ['000000000000f87f', '000000000000f0ff', '0000000000000080'],
               'f16': ['007e', '007c', '00fc', '0080', '0100', 'ff7b']}.get(d, ['00', 'ff', '80', '7f'])
    bits = draw(st.one_of(st.binary(min_size=1, max_size=24).map(lambda b: b.hex()), st.sampled_from(special)))
    return [d, shape, {'bits': bits}, draw(st.booleans())]


@st.composite
def cases(draw):
    n = draw(st.integers(1, 4))
    return dict(inits=[draw(one_init()) for _ in range(n)], sparse=draw(st.sampled_from([0, 0, 0, 0, 1, 2])), const=draw(st.booleans()), f=draw(st.integers(0, 3)))


def arrays(case):
    out = []
    for i, (d, s, data, typed) in enumerate(case['inits']):
        a = value(d, s, data)
        out.append(('w%d' % i, a, typed))
    return out


def model_of(case, names=None):
    ws = arrays(case)
    nodes, outs, inits, sparses = [], [], [], []
    for i, (n, a, typed) in enumerate(ws):
        n = names[i] if names else n
        nodes.append(onnx.helper.make_node('Concat', [n, 'x%d' % i], ['y%d' % i], name='n%d' % i, axis=0)
                     if a.ndim else onnx.helper.make_node('Where', ['c', n, n], ['y%d' % i], name='n%d' % i))
        outs.append(vio('y%d' % i, key(a), [2 * a.shape[0]] + list(a.shape[1:]) if a.ndim else []))
        if case.get('sparse') and a.ndim and key(a) in TYPES and not typed:
            sparses.append(sparse(n, a, case['sparse'] == 1))
        else:
            inits.append(proto(n, a, typed))
    ins = [vio('x%d' % i, key(a), list(a.shape)) for i, (n, a, _) in enumerate(ws) if a.ndim]
    if any(not a.ndim for _, a, _ in ws):
        ins.append(vinfo('c', 'bool', []))
    g = onnx.helper.make_graph(nodes, 'g', ins, outs, inits)
    g.sparse_initializer.extend(sparses)
    m = onnx.helper.make_model(g, opset_imports=[onnx.helper.make_opsetid('', 17)])
    m.ir_version = 8
    return m, ws


def labels(ws):
    r = []
    for _, a, t in ws:
        r.append('%s/%s' % (key(a), 'typed' if t else 'raw'))
        r.append('rank%d' % a.ndim if a.size else 'zero-size')
    return r


def nontriv(ws):
    return any(any(a.tobytes()) if a.ndim else True for _, a, _ in ws)


def check_roundtrip(case):
    m, ws = model_of(case)
    with scratch() as d:
        p = os.path.join(d, 'm.onnx')
        src = m
        if case['f'] == 1:
            src = os.path.join(d, 'in.onnx')
            onnx.save_model(m, src)
        with sut('loading'):
            mod = onnx_tool.Model(src)
        for n, a, typed in ws:
            t = mod.graph.tensormap.get(n)
            require(t is not None, 'weight %s not loaded', n)
            require(n in mod.graph.initials, 'weight %s not listed as static', n)
            require(isinstance(t.numpy, np.ndarray) and equal(a, t.numpy),
                    'weight %s read differently: %s vs %s', n, getattr(t.numpy, 'dtype', None), a.dtype)
            require([int(x) for x in t.get_shape()] == list(a.shape), 'weight %s shape %s, file says %s', n, t.get_shape(), list(a.shape))
            require(np.dtype(t.dtype) == a.dtype or np.dtype(t.dtype).kind == a.dtype.kind == 'S', 'weight %s type %s', n, t.dtype)
        with sut('saving'):
            mod.save_model(p)
        require(os.path.exists(p), 'nothing saved')
        r = onnx.load(p)
        got = {i.name: i for i in r.graph.initializer}
        for n, a, typed in ws:
            require(n in got, 'weight %s missing from saved model', n)
            require(list(got[n].dims) == list(a.shape) and got[n].data_type == elem(key(a)),
                    'weight %s saved with dims %s type %s', n, list(got[n].dims), got[n].data_type)
            require(equal(a, onnx.numpy_helper.to_array(got[n])), 'weight %s (%s) changed by the save', n, a.dtype)
        require(len(got) == len(ws) and len(r.graph.initializer) == len(ws), 'saved model has other weights %s', list(got))
    return Info(nontriv(ws), labels(ws))


NAMEPARTS = ['w', 'a/b', 'x\\y', 'p/q\\r', 'layer.0/weight', 'α', 'b c', '/lead', 't\\', 'k:0']


@st.composite
def export_cases(draw):
    c = draw(cases())
    parts = draw(st.permutations(NAMEPARTS))
    c['names'] = [parts[i] + str(i) for i in range(len(c['inits']))]
    c['fp16'] = draw(st.booleans())
    c['sel'] = draw(st.one_of(st.none(), st.lists(st.integers(0, len(c['inits'])), unique=True, max_size=4)))
    return c


def stored(a, b, fp16):
    k = key(a)
    if k not in EXT or k in ('c64', 'c128'):
        return equal(a, b)
    if fp16 and b.dtype == np.float16:
        return bits_equal(a.astype(np.float16), b)
    m = 2 ** SUBBYTE.get(k, 8) - 1
    return a.shape == b.shape and a.itemsize == b.itemsize and [x & m for x in a.tobytes()] == [x & m for x in b.tobytes()]


def check_export(case):
    m, ws = model_of(case, case['names'])
    names = case['names']
    with scratch() as d:
        folder = os.path.join(d, 'sub', 'out')
        sel = None if case['sel'] is None else [names[i] if i < len(names) else 'no_such_tensor' for i in case['sel']]
        src = m
        if case['f'] == 1:
            src = os.path.join(d, 'in.onnx')
            onnx.save_model(m, src)
        with sut('model_export_tensors_numpy'):
            onnx_tool.model_export_tensors_numpy(src, sel, folder, case['fp16'])
        want = {}
        for n, (_, a, _) in zip(names, ws):
            if sel is None or n in sel:
                with np.errstate(all='ignore'):
                    want[n.replace('/', '_').replace('\\', '_') + '.npy'] = \
                        a.astype(np.float16) if case['fp16'] and a.dtype in (np.float32, np.float64) else a
        have = sorted(os.listdir(folder))
        require(have == sorted(want), 'exported files %s, expected %s', have, sorted(want))
        for f, a in want.items():
            if key(a) in EXT:
                try:
                    b = np.load(os.path.join(folder, f))
                except ValueError:  # numpy cannot read back what it wrote of this type
                    raw = open(os.path.join(folder, f), 'rb').read()
                    require(raw.endswith(a.tobytes()), 'file %s does not hold the bytes of the weight', f)
                    continue
            else:
                b = np.load(os.path.join(folder, f))
            require(stored(a, b, case['fp16']), 'file %s: dtype %s shape %s, expected %s %s (or values differ)', f, b.dtype, b.shape, a.dtype, a.shape)
    return Info(nontriv(ws) and bool(want), labels(ws) + ['fp16' if case['fp16'] else 'asis', 'all' if sel is None else 'some'])


@st.composite
def add_cases(draw):
    c = draw(one_init())
    return dict(init=c, order=draw(st.sampled_from(['C', 'F', 'stride', 'ro'])), name=draw(st.sampled_from(['new', 'a/b', 'n.1'])))


def check_add(case):
    d, s, data, _ = case['init']
    a = value(d, s, data)
    b = a
    if case['order'] == 'F':
        b = np.asfortranarray(a) if a.ndim > 1 else a.copy()
    elif case['order'] == 'stride' and a.ndim:
        b = np.repeat(a, 2, axis=a.ndim - 1)[..., ::2]
    elif case['order'] == 'ro':
        b = a.copy(); b.flags.writeable = False
    dt = key(a)
    g = onnx.helper.make_graph([onnx.helper.make_node('Identity', ['x'], ['y0'], name='i0'),
                                onnx.helper.make_node('Identity', ['x'], ['y'], name='i')], 'g',
                               [vio('x', dt, list(a.shape))], [vio('y', dt, list(a.shape)), vio('y0', dt, list(a.shape))])
    m = onnx.helper.make_model(g, opset_imports=[onnx.helper.make_opsetid('', 17)])
    m.ir_version = 8
    with scratch() as dd, sut('adding a weight and saving'):
        mod = onnx_tool.Model(m)
        mod.graph.add_initial(case['name'], b)
        mod.graph.nodemap['i'].input[0] = case['name']
        p = os.path.join(dd, 'o.onnx')
        mod.save_model(p)
        r = onnx.load(p)
    got = {i.name: i for i in r.graph.initializer}
    require(case['name'] in got, 'added weight missing in the saved model')
    require(equal(a, onnx.numpy_helper.to_array(got[case['name']])), 'added weight (%s %s) changed by the save', dt, case['order'])
    return Info(nontriv([('', a, 0)]), [dt, case['order']])


SUBS = [Sub('roundtrip', cases, check_roundtrip, 2400), Sub('export', export_cases, check_export, 1200),
        Sub('add', add_cases, check_add, 800)]
