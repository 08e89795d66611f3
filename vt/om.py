"""ONNX model specs (JSON) <-> ModelProto, data, reference execution, comparison."""
import os, shutil, tempfile, warnings, contextlib
import numpy as np
import onnx
from onnx import TensorProto as TP, helper
from onnx.reference import ReferenceEvaluator
from .core import Violation, Skip, HarnessError, require

DT = {'f32': (np.float32, TP.FLOAT), 'f64': (np.float64, TP.DOUBLE), 'f16': (np.float16, TP.FLOAT16),
      'i64': (np.int64, TP.INT64), 'i32': (np.int32, TP.INT32), 'i16': (np.int16, TP.INT16), 'i8': (np.int8, TP.INT8),
      'u8': (np.uint8, TP.UINT8), 'u16': (np.uint16, TP.UINT16), 'u32': (np.uint32, TP.UINT32),
      'u64': (np.uint64, TP.UINT64), 'bool': (np.bool_, TP.BOOL)}
# types which no operator of the generators computes with; they only occur as stored values
EXT = {k: (helper.tensor_dtype_to_np_dtype(t).type, t) for k, t in dict(
    bf16=TP.BFLOAT16, f8e4m3=TP.FLOAT8E4M3FN, f8e4m3u=TP.FLOAT8E4M3FNUZ, f8e5m2=TP.FLOAT8E5M2, f8e5m2u=TP.FLOAT8E5M2FNUZ,
    f8e8m0=TP.FLOAT8E8M0, f4=TP.FLOAT4E2M1, i4=TP.INT4, u4=TP.UINT4, i2=TP.INT2, u2=TP.UINT2, c64=TP.COMPLEX64, c128=TP.COMPLEX128).items()}
SUBBYTE = dict(f4=4, i4=4, u4=4, i2=2, u2=2)
DT.update(EXT)
NP2DT = {np.dtype(v[0]): k for k, v in DT.items()}
FLOATS = ('f32', 'f64', 'f16')


def npdt(d):
    return DT[d][0]


def ptdt(d):
    return DT[d][1]


def arr(dtype, shape, data):
    """generated array; data['sp']: values written over some of its elements"""
    a = base_arr(dtype, shape, data)
    if data.get('sp') and a.size:
        a = a.copy()
        f = a.reshape(-1)
        for i, v in enumerate(data['sp']):
            f[(data['seed'] * 31 + i * 17) % a.size] = float(v) if dtype in FLOATS else int(v)
    return a


def base_arr(dtype, shape, data):
    """data: {'v': flat list} | {'seed': n, 'lo': a, 'hi': b, 'q': denominator} | {'bits': hex} | {'fill': x}"""
    shape = tuple(shape)
    n = int(np.prod(shape)) if shape else 1
    t = npdt(dtype)
    if 'v' in data:
        v = data['v']
        if dtype in FLOATS:
            v = [float(x) for x in v]
        elif dtype.startswith('u'):
            v = [abs(x) for x in v]
        return np.array(v, dtype=t).reshape(shape)
    if 'fill' in data:
        return np.full(shape, data['fill'], dtype=t)
    if 'bits' in data:
        b = bytes.fromhex(data['bits'])
        need = n * np.dtype(t).itemsize
        if need == 0:
            return np.zeros(shape, t)
        if dtype in SUBBYTE:
            a = np.frombuffer((b * (n // len(b) + 1))[:n], np.uint8) & (2 ** SUBBYTE[dtype] - 1)
            if dtype == 'f4':
                return a.view(t).reshape(shape)
            if dtype[0] == 'i':
                a = a.astype(np.int8) - 2 ** (SUBBYTE[dtype] - 1)
            return a.astype(t).reshape(shape)
        b = (b * (need // max(1, len(b)) + 1))[:need]
        a = np.frombuffer(b, dtype=np.uint8).copy()
        if dtype == 'bool':
            a &= 1
        return a.view(t).reshape(shape)
    r = np.random.RandomState(data['seed'])
    lo, hi = data.get('lo', -4), data.get('hi', 4)
    if dtype == 'bool':
        return (r.randint(0, 2, n) == 1).reshape(shape)
    if dtype in FLOATS:
        q = data.get('q', 8)
        a = r.randint(int(lo * q), int(hi * q) + 1, n) / q
        return a.astype(t).reshape(shape)
    if dtype.startswith('u'):
        lo, hi = (max(lo, 0), hi) if hi > 0 else (-hi, -lo)
    return r.randint(int(lo), int(hi) + 1, n).astype(t).reshape(shape)


def tensor_proto(name, a, typed=False):
    d = NP2DT[a.dtype]
    t = onnx.TensorProto()
    t.name = name
    t.data_type = ptdt(d)
    t.dims.extend(a.shape)
    f = np.ascontiguousarray(a).reshape(-1)
    if d in SUBBYTE:  # packed, the first value in the low bits
        w = SUBBYTE[d]
        v = (f.view(np.uint8) if d == 'f4' else f.astype(np.int8 if d[0] == 'i' else np.uint8).view(np.uint8)) & (2 ** w - 1)
        v = np.concatenate([v, np.zeros(-len(v) % (8 // w), np.uint8)]).reshape(-1, 8 // w)
        v = (v << np.arange(0, 8, w, dtype=np.uint8)).sum(1).astype(np.uint8)
        if typed:
            t.int32_data.extend(v.tolist())
        else:
            t.raw_data = v.tobytes()
    elif not typed:
        t.raw_data = f.tobytes()
    elif d == 'f32':
        t.float_data.extend(f.tolist())
    elif d == 'f64':
        t.double_data.extend(f.tolist())
    elif d == 'i64':
        t.int64_data.extend(f.tolist())
    elif d in ('u32', 'u64'):
        t.uint64_data.extend(f.tolist())
    elif d in ('c64', 'c128'):
        (t.float_data if d == 'c64' else t.double_data).extend(f.view(np.float32 if d == 'c64' else np.float64).tolist())
    elif d.startswith('f8'):
        t.int32_data.extend(f.view(np.uint8).tolist())
    elif d in ('f16', 'bf16'):
        t.int32_data.extend(f.view(np.uint16).astype(np.int64).tolist())
    else:
        t.int32_data.extend(f.astype(np.int64).tolist())
    return t


def make_attr(k, v):
    if isinstance(v, dict):
        if 'tensor' in v:
            d, s, data = v['tensor']
            return helper.make_attribute(k, tensor_proto('', arr(d, s, data), v.get('typed', False)))
        if 'graph' in v:
            return helper.make_attribute(k, build_graph(v['graph']))
        if 'floats' in v:
            a = onnx.AttributeProto(); a.name = k; a.type = onnx.AttributeProto.FLOATS; a.floats.extend(v['floats'])
            return a
        if 'ints' in v:
            a = onnx.AttributeProto(); a.name = k; a.type = onnx.AttributeProto.INTS; a.ints.extend(v['ints'])
            return a
        if 'strings' in v:
            a = onnx.AttributeProto(); a.name = k; a.type = onnx.AttributeProto.STRINGS
            a.strings.extend([s.encode() for s in v['strings']])
            return a
        raise HarnessError('attr %r' % v)
    return helper.make_attribute(k, v)


def make_node(n):
    p = onnx.NodeProto()
    p.op_type = n['op']
    p.name = n.get('name', '')
    p.input.extend(n['in'])
    p.output.extend(n['out'])
    if n.get('domain'):
        p.domain = n['domain']
    for k, v in (n.get('attrs') or {}).items():
        p.attribute.append(make_attr(k, v))
    return p


def vinfo(name, dtype, dims):
    return helper.make_tensor_value_info(name, ptdt(dtype), dims)


def build_graph(spec):
    g = helper.make_graph([make_node(n) for n in spec['nodes']], spec.get('gname', 'g'),
                          [vinfo(*i[:3]) for i in spec.get('inputs', [])],
                          [vinfo(*o) if isinstance(o, (list, tuple)) else helper.make_empty_tensor_value_info(o)
                           for o in spec['outputs']],
                          [tensor_proto(i[0], arr(i[1], i[2], i[3]), bool(len(i) > 4 and i[4])) for i in spec.get('inits', [])],
                          value_info=[vinfo(*v) for v in spec.get('vinfo', [])])
    return g


def build(spec):
    m = helper.make_model(build_graph(spec), producer_name='vt')
    m.ir_version = spec.get('ir', 8)
    del m.opset_import[:]
    m.opset_import.append(helper.make_opsetid('', spec.get('opset', 17)))
    for d, v in spec.get('domains', []):
        m.opset_import.append(helper.make_opsetid(d, v))
    if spec.get('winputs'):
        list_weights(m.graph, spec['winputs'])
    if spec.get('fns'):
        wrap_functions(m, spec['fns'])
    return m


def list_weights(g, seed):
    """the form of IR versions before 4: every weight is listed among the graph inputs"""
    rng = np.random.default_rng(seed)
    ins = list(g.input)
    for i in g.initializer:
        ins.insert(int(rng.integers(0, len(ins) + 1)), helper.make_tensor_value_info(i.name, i.data_type, list(i.dims)))
    del g.input[:]
    g.input.extend(ins)


def wrap_functions(m, picks):
    """some nodes become calls of model-local functions (every third one of nested functions) which compute the same"""
    ops = [o for o in m.opset_import]
    for k, p in enumerate(picks):
        n = m.graph.node[p % len(m.graph.node)]
        if n.domain or not n.input or '' in list(n.input) + list(n.output) or len(set(n.input)) < len(n.input) or any(a.HasField('g') or a.graphs for a in n.attribute):
            continue
        if not any(o.domain == 'fn' for o in m.opset_import):
            m.opset_import.append(helper.make_opsetid('fn', 1))
        inner = onnx.NodeProto()
        inner.CopyFrom(n)
        a, b = ['a%d' % i for i in range(len(n.input))], ['b%d' % i for i in range(len(n.output))]
        del inner.input[:], inner.output[:]
        inner.input.extend(a), inner.output.extend(b)
        inner.name = ''
        name = 'F%d' % k
        if p % 3 == 0:
            m.functions.append(helper.make_function('fn', name + 'i', a, b, [inner], ops))
            inner = helper.make_node(name + 'i', a, b, domain='fn')
        m.functions.append(helper.make_function('fn', name, a, b, [inner], ops + [helper.make_opsetid('fn', 1)]))
        n.CopyFrom(helper.make_node(name, list(n.input), list(n.output), n.name, domain='fn'))


def feed(model, feeds):
    """the values of the graph inputs which are not weights"""
    ws = {i.name for i in model.graph.initializer}
    return {i.name: feeds[i.name] for i in model.graph.input if i.name in feeds or i.name not in ws}


def run_ref(model, feeds, outs=None):
    """Reference execution; HarnessError when the model itself is bad."""
    if any('' in n.output for n in model.graph.node):
        # the evaluator would store an omitted output under '' and hand it to omitted inputs
        m = onnx.ModelProto(); m.CopyFrom(model)
        for i, n in enumerate(m.graph.node):
            for j, o in enumerate(n.output):
                if o == '':
                    n.output[j] = '__omitted_%d_%d' % (i, j)
        model = m
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        se = ReferenceEvaluator(model)
        r = se.run(outs, feeds)
    return [np.asarray(x) if not isinstance(x, list) else x for x in r]


def all_tensors(model, feeds):
    """name -> array for every tensor of the model in one reference execution."""
    m = onnx.ModelProto(); m.CopyFrom(model)
    names, seen = [], set()
    init = {i.name for i in m.graph.initializer}
    for n in m.graph.node:
        for o in n.output:
            if o and o not in seen:
                seen.add(o); names.append(o)
    del m.graph.output[:]
    for o in names:
        m.graph.output.append(helper.make_empty_tensor_value_info(o))
    vals = run_ref(m, feeds)
    d = dict(zip(names, vals))
    d.update(feeds)
    for i in m.graph.initializer:
        if i.name not in d:
            d[i.name] = onnx.numpy_helper.to_array(i)
    return d


def same(a, b, rtol=1e-4, atol=1e-5):
    """Equal values; floats within tolerance, NaN equal NaN."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in 'fc' or b.dtype.kind in 'fc':
        if a.dtype == np.float16 or b.dtype == np.float16:
            rtol, atol = 2e-2, 2e-2
        with np.errstate(all='ignore'):
            return bool(np.allclose(a.astype(np.float64), b.astype(np.float64), rtol=rtol, atol=atol, equal_nan=True))
    return bool(np.array_equal(a, b))


def bits_equal(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.dtype == b.dtype and a.shape == b.shape and np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes()


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='vt_')
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def dims_of(vi):
    r = []
    if not vi.type.tensor_type.HasField('shape'):
        return None
    for d in vi.type.tensor_type.shape.dim:
        r.append(d.dim_value if d.HasField('dim_value') else (d.dim_param if d.HasField('dim_param') else None))
    return r


def attrs_of(node):
    return {a.name: a for a in node.attribute}


def attr_equal(a, b):
    if a.type != b.type:
        return False
    if a.type == onnx.AttributeProto.TENSOR:
        return a.t.data_type == b.t.data_type and bits_equal(onnx.numpy_helper.to_array(a.t), onnx.numpy_helper.to_array(b.t))
    if a.type == onnx.AttributeProto.FLOAT:
        return np.float32(a.f).tobytes() == np.float32(b.f).tobytes()
    x = onnx.AttributeProto(); x.CopyFrom(a); x.doc_string = ''
    y = onnx.AttributeProto(); y.CopyFrom(b); y.doc_string = ''
    return x.SerializeToString(deterministic=True) == y.SerializeToString(deterministic=True)


def check_valid(model, what='saved model'):
    try:
        onnx.checker.check_model(model)
    except Exception as e:
        raise Violation('%s is not a valid ONNX model: %s' % (what, str(e).split('\n')[0][:300]))
