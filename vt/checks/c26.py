"""C26: LLM latency estimates follow the roofline model."""
import copy
import csv
import os
from hypothesis import strategies as st
from ..core import *
from ..om import *
from .. import llmgen
import onnx_tool
from onnx_tool import llm
from onnx_tool.device import Devices
from onnx_tool import model_configs

PROPERTY = 'C26'
TECHNIQUE = 'property-based testing: generated models, devices and precisions, oracle = roofline recomputed per layer from its tensors, and monotonicity relations between estimates'
LEVEL_NOTE = 'random search over small models of all supported architectures, random and predefined devices'
RULE = ('A case is a model (configuration, batch, length, optional KV cache), a device, a precision setting. Memory per layer, latency, bottleneck, totals, memory totals and the written report are recomputed; '
        'then the estimate is repeated with one bandwidth or compute figure raised, and for a longer input or past. Non-trivial: both compute-bound and memory-bound layers occur.')
ASSUMPTIONS = ['weights of MatMul, Gather, MoE and MLA layers have the MM width, the KV cache the MHA width, everything else the width of the others (names of the settings, benchmark/gen_latency.py)',
               'an embedding or a position table is read for the used rows only, a mixture of experts for the activated experts', 'fused layers (MoE, MLA, GDN) read and write their activation, other layers are charged for what they write',
               'for several devices with a link only the monotonicity and the larger-of relation are required']

EPS = 1e-9


def close(a, b):
    return abs(a - b) <= EPS * max(abs(a), abs(b), 1e-30)


def build(case, seq=None, past=None):
    c = copy.deepcopy(case['cfg'])
    with sut('building'):
        b = llm.Builder(**c)
        b.build_graph([case['batch'], seq or case['seq']], copy.deepcopy(llmgen.WEIGHTS)) if llmgen.needs_map(c) else b.build_graph([case['batch'], seq or case['seq']])
        if case['past'] is not None:
            b.add_kv_cache(256, case['past'] if past is None else past)
    return b


def vol(s):
    r = 1
    for x in s:
        r *= int(x)
    return r


def expected_memory(b, n, bits):
    """activation, weight, KV bytes of one layer"""
    g = b.graph
    x = g.nodemap[n]
    T = g.tensormap
    first = T[x.input[0]].get_shape()
    out = sum(vol(T[t].get_shape()) for t in x.output)
    ws = [T[t].get_shape() for t in x.input if t in g.initials]
    kv = w = 0
    if x.op_type in ('MoE', 'MLA', 'GDN'):
        act = out * 2
    else:
        act = out
    wb = bits['MM'] if x.op_type in ('MatMul', 'Gather', 'MoE', 'MLA', 'GDN') else bits['Others']
    if x.op_type == 'Gather':
        w = vol(T[x.input[1]].get_shape()) * ws[0][1]
    elif x.op_type == 'Rope':
        w = sum(min(first[1], s[2]) * s[3] for s in ws)
    elif x.op_type == 'MoE':
        tok = first[0] * first[1]
        for t in x.input[1:]:
            s = T[t].get_shape()
            if len(s) == 3:
                w += min(tok * x.num_experts_per_tok, s[0]) * s[1] * s[2]
            elif len(s) == 2:
                w += vol(s)
    elif x.op_type == 'SDPA':
        seq = first[1] + (int(np.max(T['n_past'].numpy)) if 'n_past' in x.input else 0)
        kv = first[0] * seq * x.kv_head_num * x.head_size * 2
    else:
        w = sum(vol(s) for s in ws if s)     # a lone constant is not a weight
    return act * bits['Others'] / 8, w * wb / 8, kv * bits['MHA'] / 8


def profile(b, cfg, dev):
    with sut('profile'):
        if cfg is None:
            b.profile(Device=dev)
        else:
            b.profile(cfg, dev)
    return list(b.llm_profile)


def check_figures(b, case, cfg, dev):
    bits = (cfg or llm.Builder.DefaultCfg)['Bits']
    comp = (cfg or llm.Builder.DefaultCfg)['Compute']
    kinds = set()
    tot = [0, 0, 0]
    mem = [0, 0, 0]
    for n, x in b.graph.nodemap.items():
        p = x.llm_profile
        what = 'layer %s (%s)' % (n, x.op_type)
        require(close(p['FLOPs'], 2 * x.macs), '%s: %s FLOPs for %s MACs', what, p['FLOPs'], x.macs)
        a, w, kv = expected_memory(b, n, bits)
        require(close(p['Memory'], a + w + kv), '%s: memory %s, expected activations %s + weights %s + cache %s', what, p['Memory'], a, w, kv)
        mem[0 if x.op_type in ('MatMul', 'Gather', 'MoE', 'MLA', 'GDN') else 2] += w
        mem[1] += kv
        tot[0] += 2 * x.macs
        tot[1] += a + w + kv
        if dev is None:
            require(p['Device'] is None, '%s: latency without a device', what)
            continue
        kind = {'MatMul': 'MM', 'MoE': 'MM', 'MLA': 'MM', 'GDN': 'MM', 'SDPA': 'MHA'}.get(x.op_type, 'Others')
        rate = dev.get(comp[kind], dev['FP32']) * 1e9
        c, l, lat = p['Device']['latency'][:3]
        if not dev.get('LinkBandwidth'):
            tc, tl = 2 * x.macs / rate, (a + w + kv) / (dev['Bandwidth'] * 1e9)
            require(close(c, tc) and close(l, tl), '%s: compute and memory times %s %s, expected %s %s', what, c, l, tc, tl)
            require(close(lat, max(tc, tl)), '%s: latency %s, the larger of %s and %s', what, lat, tc, tl)
            if not close(tc, tl):
                require(p['Device']['Bottleneck'] == ('Compute' if tc > tl else 'Memory'), '%s: bottleneck %s with compute time %s, memory time %s', what, p['Device']['Bottleneck'], tc, tl)
                kinds.add(tc > tl)
        else:
            require(lat >= max(c, l) * (1 - EPS), '%s: latency %s below %s', what, lat, max(c, l))
            if dev.get('Number', 1) == 1:
                require(close(lat, max(c, l)), '%s: latency %s on one device, times %s %s', what, lat, c, l)
        tot[2] += lat
    for k, u in enumerate(('FLOPs', 'memory', 'latency')):
        require(close(b.llm_profile[k], tot[k]), 'total %s %s, sum over layers %s', u, b.llm_profile[k], tot[k])
    for k in range(3):
        require(close(b.context_mem[k], mem[k]), 'memory totals %s, expected %s', b.context_mem, mem)
    require(close(b.context_mem[3], sum(mem)), 'memory totals %s do not add up', b.context_mem)
    return kinds


def check_report(b):
    with scratch() as d:
        f = os.path.join(d, 'p.csv')
        with sut('print_profile'):
            b.print_profile(f)
        rows = list(csv.DictReader(open(f)))
    require([r['Name'] for r in rows] == list(b.graph.nodemap) + ['Total'], 'the report lists %s', [r['Name'] for r in rows])
    col = next((k for k in rows[0] if 'atency' in k), None)
    require((col is not None) == (b.llm_profile[2] > 0), 'the report has columns %s', list(rows[0]))
    scale = 1e3 if col and 'ms' in col else 1
    for r, n in zip(rows, list(b.graph.nodemap) + [None]):
        p = b.graph.nodemap[n].llm_profile if n else dict(FLOPs=b.llm_profile[0], Memory=b.llm_profile[1])
        require(abs(float(r['FLOPs']) - p['FLOPs']) <= 1 and abs(float(r['Memory(bytes)']) - p['Memory']) <= 1, 'row %s: %s, the model has %s', n, r, p)
        if col:
            lat = (p['Device']['latency'][2] if n else b.llm_profile[2]) * scale
            require(abs(float(r[col]) - lat) <= max(0.51e-5, 1e-6 * lat), 'row %s: %s %s, the estimate is %s', n, col, r[col], lat)
            if n:
                require(r['Bottleneck'] == p['Device']['Bottleneck'], 'row %s: bottleneck %s', n, r['Bottleneck'])


def check(case):
    b = build(case)
    if case['infer']:
        x = {'ids': np.zeros((case['batch'], case['infer']), np.int64)}
        if 'position' in b.graph.tensormap:
            x['position'] = np.zeros((case['batch'], case['infer']), np.int64)
        with sut('shape_infer'):
            b.graph.valid_shape = True
            b.graph.shape_infer(x)
    dev, cfg = case['dev'], case['run']
    if isinstance(dev, str):
        dev = Devices[dev]
    keep = copy.deepcopy((dev, cfg))
    base = profile(b, cfg, dev)
    kinds = check_figures(b, case, cfg, dev)
    check_report(b)
    require((dev, cfg) == keep, 'profiling changed the device or the precision settings')
    if dev is None:
        return Info(False, ['no device'])
    lat0 = {n: x.llm_profile['Device']['latency'][2] for n, x in b.graph.nodemap.items()}
    again = profile(b, cfg, dev)
    require(again == base, 'profiling again gives %s, was %s', again, base)
    # more bandwidth or compute
    for key, f in case['more']:
        if key in dev:
            d2 = dict(dev)
            d2[key] = dev[key] * f
            p = profile(b, cfg, d2)
            require(p[2] <= base[2] * (1 + EPS), '%s times %s raises the estimate from %s to %s', key, f, base[2], p[2])
            for n, x in b.graph.nodemap.items():
                require(x.llm_profile['Device']['latency'][2] <= lat0[n] * (1 + EPS), '%s times %s raises the estimate of layer %s', key, f, n)
            require(p[0] == base[0] and close(p[1], base[1]), '%s changes FLOPs or memory', key)
    # more tokens
    if not case['infer']:
        longer = build(case, seq=case['seq'] + case['add'])
        p = profile(longer, cfg, dev)
        require(p[0] >= base[0] and p[1] >= base[1] * (1 - EPS) and p[2] >= base[2] * (1 - EPS), 'length %d: %s, length %d: %s', case['seq'], base, case['seq'] + case['add'], p)
        for n, x in longer.graph.nodemap.items():
            require(x.llm_profile['Device']['latency'][2] >= lat0[n] * (1 - EPS), 'the estimate of layer %s falls with a longer input', n)
    if case['past'] is not None:
        with sut('set_past_kv_length'):
            b.set_past_kv_length(case['past'] + case['add'])
        p = profile(b, cfg, dev)
        check_figures(b, case, cfg, dev)
        require(p[0] >= base[0] and p[1] >= base[1] * (1 - EPS) and p[2] >= base[2] * (1 - EPS), 'past %d: %s, past %d: %s', case['past'], base, case['past'] + case['add'], p)
    return Info(len(kinds) == 2, [case['cfg']['architectures'][0]])


@st.composite
def devices(draw):
    k = draw(st.integers(0, 11))
    if k == 0:
        return None
    if k < 3:
        return draw(st.sampled_from(sorted(Devices)))
    d = {'FP32': draw(st.sampled_from([1, 5, 50, 1000])), 'Bandwidth': draw(st.sampled_from([0.5, 2, 10, 75.5, 1000]))}
    for t in ('FP16', 'INT8'):
        if draw(st.integers(0, 3)):
            d[t] = draw(st.sampled_from([2, 10, 100, 4000]))
    if draw(st.integers(0, 3)) == 0:
        d['Number'] = draw(st.integers(1, 4))
        if draw(st.booleans()):
            d['LinkBandwidth'] = draw(st.sampled_from([0, 1, 50]))
    return d


@st.composite
def cases(draw):
    cfg = draw(llmgen.configs())
    b, s = draw(llmgen.sizes())
    prec = st.sampled_from(['FP32', 'FP16', 'INT8'])
    bits = st.sampled_from([2, 4, 4.5, 8, 16, 32])
    run = None if draw(st.integers(0, 4)) == 0 else {'Compute': {k: draw(prec) for k in ('MM', 'MHA', 'Others')}, 'Bits': {k: draw(bits) for k in ('MM', 'MHA', 'Others')}}
    return dict(cfg=cfg, batch=b, seq=s, past=draw(st.none() | st.integers(0, 64)), infer=draw(st.sampled_from([0, 0, 1, 5, 20])), dev=draw(devices()), run=run, add=draw(st.integers(1, 40)),
                more=draw(st.lists(st.tuples(st.sampled_from(['Bandwidth', 'FP32', 'FP16', 'INT8', 'LinkBandwidth']), st.sampled_from([1.01, 2, 1000])), min_size=1, max_size=3)))


SUBS = [Sub('estimates', cases, check, 4000, 60000)]
