"""C28: sparsity detection reports the true sparsity."""
import csv
import os
from hypothesis import strategies as st
from ..core import *
from ..om import *
import onnx_tool
from onnx_tool.tensor import Tensor, search_sparse_blocksize

PROPERTY = 'C28'
TECHNIQUE = 'property-based testing: generated weights with planted block patterns, oracle = zero counts of elements and blocks recomputed by slicing'
LEVEL_NOTE = 'random search over weights of up to about 40000 elements and models of up to 4 weighted layers'
RULE = ('A case is a weight (rank, shape, type, zero pattern of given blocks, noise) or a model of several such weights; the zero ratio is counted directly and the reported block shape and '
        'block ratio recomputed by cutting the weight into such blocks. Non-trivial: the weight is large, of a supported type and rank, and more than 40 % zero.')
ASSUMPTIONS = ['a weight is analysed when it has more than 4096 elements, rank 2 or 4 and is float16/32/64, int8, int32 or uint8, and sparse when more than 40 % is zero; the allowed loss is 10 percentage points (defaults in tensor.py)',
               'the zero of uint8 weights is 128 (or 0), the same for elements and blocks', 'data/Profile.md: the biggest block which meets the loss, among power-of-two lines along the first two axes']

SUPPORTED = ('float16', 'float32', 'float64', 'int8', 'int32', 'uint8')
LOSS = 0.1
EPS = 1e-6


def weight(c):
    r = np.random.RandomState(c['seed'])
    shape = tuple(c['shape'])
    nz = np.ones(shape, bool)
    for b0, b1, share, off in c['zeros']:
        if len(shape) < 2:
            nz &= r.rand(*shape) >= share
            continue
        g = r.rand(-(-shape[0] // b0) + 1, -(-shape[1] // b1) + 1, *shape[2:]) < share
        z = np.repeat(np.repeat(g, b0, 0), b1, 1)[off % b0:, (off * 3) % b1:]
        z = z[:shape[0], :shape[1]]
        nz &= ~z
    if c['noise']:
        nz |= r.rand(*shape) < c['noise']
    dt = np.dtype(c['dtype'])
    if dt.kind == 'f':
        a = np.abs(r.randn(*shape)) + 0.1
        a *= r.choice([-1, 1], shape)
        if c['dtype'] == 'float32' and c['tiny']:
            a *= 1e-40
    elif c['dtype'] == 'bool':
        a = np.ones(shape)
    else:
        a = r.randint(1, 100, shape)
    z = c['zp']
    a = np.where(nz, a + (z if c['dtype'] == 'uint8' else 0), z if c['dtype'] == 'uint8' else (-0.0 if c['tiny'] else 0.0))
    return a.astype(dt), nz


def block_ratio(z, b):
    """share of the blocks of shape b (first two axes) that are zero throughout; None if it does not divide"""
    if z.shape[0] % b[0] or z.shape[1] % b[1]:
        return None
    x = z.reshape(z.shape[0] // b[0], b[0], z.shape[1] // b[1], b[1], -1)
    return float(x.all(axis=(1, 3)).mean())


def check_report(s, arr, what):
    """s: reported dict"""
    n = arr.size
    require(isinstance(s, dict) and set(s) >= {'blocksize', 'blockratio', 'ratio'}, '%s: reported %s', what, s)
    b, br, ra = tuple(int(x) for x in s['blocksize']), float(s['blockratio']), float(s['ratio'])
    dt = str(arr.dtype)
    if n <= 4096 or arr.ndim not in (2, 4) or dt not in SUPPORTED:
        require(ra == 0 and b == (1, 1) and br == 0, '%s: not analysed, but reported %s', what, s)
        return False
    zs = [arr == 128, arr == 0] if dt == 'uint8' else [arr == 0]
    err = None
    for z in zs:
        try:
            true = float(z.mean())
            require(abs(ra - true) < EPS, '%s: zero ratio %s, is %s', what, ra, true)
            if abs(true - 0.4) < EPS:
                return False
            if true < 0.4:
                require(b == (1, 1) and (br == 0 or abs(br - true) < EPS), '%s: dense (%.3f), but reported %s', what, true, s)
                return False
            got = block_ratio(z, b)
            require(got is not None, '%s: blocks %s do not divide the shape %s', what, b, arr.shape)
            require(abs(got - br) < EPS, '%s: block ratio %s of %s, is %s', what, br, b, got)
            require(br > true - LOSS - EPS, '%s: block ratio %s loses too much of %s', what, br, true)
            best = 1
            for ax in (0, 1):
                k = 2
                while arr.shape[ax] % k == 0:
                    x = block_ratio(z, (k, 1) if ax == 0 else (1, k))
                    if x <= true - LOSS + EPS:
                        break
                    best = max(best, k)
                    k *= 2
            require(b[0] * b[1] >= best, '%s: blocks %s, but lines of %d are within the loss', what, b, best)
            return True
        except Violation as e:
            err = err or e
    raise err


def check(case):
    arr, nz = weight(case)
    what = '%s %s' % (case['dtype'], list(arr.shape))
    t = onnx.numpy_helper.from_array(arr, 'w')
    with sut('Tensor'):
        x = Tensor(t)
    s = x.sparsity
    nt = check_report(s, arr, what)
    require(bits_equal(x.numpy, arr), 'the weight changed')
    if nt and case['dtype'] != 'uint8':
        with sut('search_sparse_blocksize'):
            b, r = search_sparse_blocksize(arr, float((arr == 0).mean()))
        require(tuple(b) == tuple(s['blocksize']) and abs(r - s['blockratio']) < EPS, 'search_sparse_blocksize: %s, %s, the tensor reports %s', b, r, s)
    return Info(nt, ['b%dx%d' % tuple(s['blocksize']) if nt else 'plain', '%dd' % arr.ndim])


def check_graph(case):
    nodes, inits, ws = [], [], {}
    for i, c in enumerate(case['layers']):
        arr, _ = weight(dict(c, dtype='float32'))
        w = 'w%d' % i
        inits.append(onnx.numpy_helper.from_array(arr, w))
        ws[w] = arr
        ins = ['x%d' % i, w]
        op = 'Conv' if arr.ndim == 4 else 'MatMul'
        if op == 'Conv' and c['bias']:
            b = np.zeros(arr.shape[0], np.float32)
            inits.append(onnx.numpy_helper.from_array(b, 'b%d' % i))
            ws['b%d' % i] = b
            ins.append('b%d' % i)
        nodes.append(onnx.helper.make_node(op, ins, ['y%d' % i], name='n%d' % i))
        if c['also'] and arr.ndim == 2:      # a node reading two weights
            o = 'w%d' % case['also_of'] if 'w%d' % case['also_of'] in ws and ws['w%d' % case['also_of']].shape == arr.shape else w
            nodes.append(onnx.helper.make_node('Add', [w, o], ['z%d' % i], name='a%d' % i))
        nodes.append(onnx.helper.make_node('Relu', ['y%d' % i], ['r%d' % i], name='r%d' % i))
    outs = [n.output[0] for n in nodes if n.op_type != 'MatMul' and n.op_type != 'Conv']
    inputs = []
    for i, c in enumerate(case['layers']):
        a = ws['w%d' % i]
        inputs.append(('x%d' % i, 'float32', [2, a.shape[0]] if a.ndim == 2 else [1, a.shape[1], a.shape[2] + 1, a.shape[3] + 2]))
    g = onnx.helper.make_graph(nodes, 'g', [onnx.helper.make_tensor_value_info(n, 1, s) for n, _, s in inputs],
                               [onnx.helper.make_tensor_value_info(o, 1, None) for o in outs], inits)
    model = onnx.helper.make_model(g, opset_imports=[onnx.helper.make_opsetid('', 17)])
    with scratch() as d:
        f = os.path.join(d, 'p.csv')
        with sut('load, infer, profile'):
            m = onnx_tool.Model(model, {'verbose': False})
            m.graph.shape_infer(None)
            m.graph.profile()
            m.graph.print_node_map(f)
        rows = list(csv.DictReader(open(f)))
    nt = False
    reps = {}
    for w, arr in ws.items():
        s = reps[w] = m.graph.tensormap[w].sparsity
        nt |= check_report(s, arr, 'weight %s' % w)
    sparse = any((a == 0).mean() > 0.4 and a.size > 4096 and a.ndim in (2, 4) for a in ws.values())
    if not any(abs((a == 0).mean() - 0.4) < EPS for a in ws.values()):
        require(('Sparse Ratio' in rows[0]) == sparse, 'the report has%s sparsity columns', '' if 'Sparse Ratio' in rows[0] else ' no')
    rows = {r['Name']: r for r in rows}
    for n in nodes:
        s = m.graph.nodemap[n.name].sparsity
        cand = [reps[t] for t in n.input if t in ws]
        top = max([c['ratio'] for c in cand], default=0)
        require(abs(s['ratio'] - top) < EPS, 'node %s: sparse ratio %s, its weights have %s', n.name, s['ratio'], [c['ratio'] for c in cand])
        if top > 0:
            require(any(tuple(s['blocksize']) == tuple(c['blocksize']) and s['blockratio'] == c['blockratio'] and s['ratio'] == c['ratio'] for c in cand), 'node %s: %s, its weights have %s', n.name, s, cand)
        else:
            require(tuple(s['blocksize']) == (1, 1) and s['blockratio'] == 0, 'node %s: %s without a sparse weight', n.name, s)
        if sparse:
            r = rows[n.name]
            require(r['Sparse Pattern'] == '%dx%d' % tuple(s['blocksize']), 'row %s: pattern %s, the node has %s', n.name, r['Sparse Pattern'], s)
            for col, k in (('Sparse Block Ratio', 'blockratio'), ('Sparse Ratio', 'ratio')):
                require(abs(float(r[col].rstrip('%')) / 100 - s[k]) <= 0.5001e-4, 'row %s: %s %s, the node has %s', n.name, col, r[col], s)
    return Info(nt, ['layers%d' % len(case['layers'])])


SIZES = [8, 16, 24, 32, 40, 48, 60, 64, 65, 80, 96, 100, 112, 128, 160, 192, 256]


@st.composite
def weights(draw, two=False):
    k = draw(st.integers(0, 9)) if not two else draw(st.integers(0, 6))
    if k < 5:
        shape = [draw(st.sampled_from(SIZES)), draw(st.sampled_from(SIZES))]
    elif k < 9:
        shape = [draw(st.sampled_from(SIZES[:11])), draw(st.sampled_from(SIZES[:11])), draw(st.integers(1, 3)), draw(st.integers(1, 4))]
    else:
        shape = draw(st.sampled_from([[5000], [4097], [17, 16, 16], [4, 8, 8, 4, 5], [20, 20, 20]]))
    if np.prod(shape) > 40000:
        shape[0] = 16
    if draw(st.integers(0, 11)) == 0:
        shape = draw(st.sampled_from([[64, 64], [1, 4096], [4096, 1], [1, 4097], [4100, 1], [17, 241], [2, 2049], [64, 64, 1, 1], [8, 8, 8, 8]]))
    blocks = st.sampled_from([1, 1, 2, 2, 4, 4, 8, 16, 32])
    zeros = draw(st.lists(st.tuples(blocks, blocks, st.sampled_from([0.1, 0.25, 0.38, 0.4, 0.45, 0.5, 0.6, 0.75, 0.9, 1.0]), st.sampled_from([0, 0, 0, 1])), min_size=draw(st.sampled_from([0, 1, 1, 1])), max_size=2))
    return dict(shape=shape, zeros=zeros, noise=draw(st.sampled_from([0, 0, 0.002, 0.01, 0.03, 0.06])), seed=draw(st.integers(0, 9999)), zp=draw(st.sampled_from([128, 128, 0])),
                dtype=draw(st.sampled_from(['float32', 'float32', 'float32', 'float16', 'float64', 'int8', 'int32', 'uint8', 'int64', 'bool', 'int16', 'uint16'])), tiny=draw(st.integers(0, 7)) == 0)


@st.composite
def models(draw):
    ls = []
    for _ in range(draw(st.integers(1, 4))):
        c = draw(weights(True))
        ls.append(dict(c, bias=draw(st.booleans()), also=draw(st.booleans())))
    if len(ls) > 1 and draw(st.booleans()):
        ls[1]['shape'] = ls[0]['shape']
    return dict(layers=ls, also_of=0)


SUBS = [Sub('weights', weights, check, 8000, 100000), Sub('models', models, check_graph, 2500, 30000)]
