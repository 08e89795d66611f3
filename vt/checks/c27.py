"""C27: building one LLM does not affect another."""
import copy
import json
from hypothesis import strategies as st
from ..core import *
from ..om import *
from .. import llmgen
import onnx_tool
from onnx_tool import llm
from onnx_tool.device import Devices
from onnx_tool import model_configs

PROPERTY = 'C27'
TECHNIQUE = 'stateful property-based testing: generated histories of building, extending and profiling several language models, differential oracle = the same single model in a fresh process'
LEVEL_NOTE = 'random search over histories of up to 5 models with up to 12 interleaved operations'
RULE = ('A case is up to 5 generated or predefined configurations and an interleaving of their operations (build, KV cache, past length, re-inference, profiling on a device, vision graph). The nodes, weights, '
        'shapes and figures of every model are compared with those of the same operations on it alone in a fresh process; configurations and weight maps must be unmodified. '
        'Non-trivial: at least two models with different configurations.')
ASSUMPTIONS = ['fresh processes are forks of one that has imported the package but built nothing']

RUN = {'Compute': {'MM': 'INT8', 'MHA': 'FP16', 'Others': 'FP32'}, 'Bits': {'MM': 4, 'MHA': 8, 'Others': 16}}
DEV = {'A': {'FP32': 1000, 'FP16': 4000, 'INT8': 8000, 'Bandwidth': 100}, 'B': {'FP32': 10, 'Bandwidth': 2000}}


def op_apply(b, op, cfg, wm):
    k = op[0]
    if k == 'build':
        b.build_graph([op[1], op[2]], wm) if wm is not None else b.build_graph([op[1], op[2]])
    elif k == 'kv':
        b.add_kv_cache(64, op[1])
    elif k == 'past':
        b.set_past_kv_length(op[1])
    elif k == 'infer':
        b.graph.valid_shape = True
        x = {'ids': np.zeros((b.batch, op[1]), np.int64)}
        if 'position' in b.graph.tensormap:
            x['position'] = np.zeros((b.batch, op[1]), np.int64)
        b.graph.shape_infer(x)
    elif k == 'profile':
        if op[1]:
            b.profile(RUN if op[2] else None, DEV[op[1]])
        else:
            b.profile()
    elif k == 'named':
        b.profile(RUN, Devices[op[1]])


def arr(v):
    return v.tolist() if hasattr(v, 'tolist') else v


def snapshot(b):
    g = b.graph
    nodes = []
    for n, x in g.nodemap.items():
        attrs = {k: repr(arr(v)) for k, v in vars(x).items() if k in ('head_num', 'head_size', 'kv_head_num', 'layer_i', 'axis', 'epsilon', 'type', 'num_experts', 'num_experts_per_tok', 'no_shared_gate',
                                                                     'no_shared_expert', 'hidden_size', 'compress_ratio', 'o_bias', 'window_size')}
        nodes.append([n, x.op_type, list(x.input), list(x.output), attrs, float(getattr(x, 'macs', 0) or 0), float(getattr(x, 'params', 0) or 0), float(getattr(x, 'memory', 0) or 0),
                      repr(getattr(x, 'llm_profile', None)), repr(getattr(x, 'kv_size', None))])
    tens = sorted([t, list(v.get_shape()), str(np.dtype(v.dtype)), v.type, None if v.numpy is None else str(np.sum(np.asarray(v.numpy, dtype=np.float64)))] for t, v in g.tensormap.items())
    return dict(nodes=nodes, tensors=tens, inputs=list(g.input), outputs=list(g.output), weights=list(g.initials), macs=[float(x) for x in np.atleast_1d(getattr(g, 'macs', 0))],
                params=float(getattr(g, 'params', 0)), memory=float(getattr(g, 'memory', 0)), kv=float(getattr(b, 'kv_params', 0)), total=[float(x) for x in getattr(b, 'llm_profile', [])],
                context=[float(x) for x in getattr(b, 'context_mem', [])])


def config(c):
    if isinstance(c, str):
        return copy.deepcopy(getattr(model_configs, c))
    if '__from' in c:
        d = copy.deepcopy(getattr(model_configs, c['__from']))
        d.update({k: v for k, v in c.items() if k != '__from'})
        return d
    return copy.deepcopy(c)


def source(c):
    """the object a user would pass: the predefined dict itself, or a fresh one"""
    return getattr(model_configs, c) if isinstance(c, str) else config(c)


def run(models, order):
    cfgs, wms, bs, pos = [], [], [], [0] * len(models)
    before = json.dumps([{k: v for k, v in vars(model_configs).items() if isinstance(v, dict) and 'architectures' in v}, Devices, RUN, DEV])
    keep = []
    out = {}
    for m in models:
        cfgs.append(source(m['cfg']))
        wms.append(copy.deepcopy(llmgen.WEIGHTS) if m['wm'] or llmgen.needs_map(config(m['cfg'])) else None)
        keep.append(json.dumps([cfgs[-1], wms[-1]]))
        bs.append(None)
    for i in order + [i for i in range(len(models)) for _ in range(9)]:
        m = models[i]
        if pos[i] > len(m['ops']):
            continue
        with sut('model %d: %s' % (i, (['create'] + m['ops'])[pos[i]])):
            if pos[i] == 0:
                bs[i] = llm.Builder(**cfgs[i])
            else:
                op_apply(bs[i], m['ops'][pos[i] - 1], cfgs[i], wms[i])
        pos[i] += 1
    for i, m in enumerate(models):
        require(json.dumps([cfgs[i], wms[i]]) == keep[i], 'the configuration or weight map of model %d was modified', i)
    after = json.dumps([{k: v for k, v in vars(model_configs).items() if isinstance(v, dict) and 'architectures' in v}, Devices, RUN, DEV])
    require(before == after, 'a predefined configuration, device or run configuration was modified')
    return [snapshot(b) for b in bs]


CACHE = {}


def alone(m):
    k = json.dumps(m, sort_keys=True)
    if k not in CACHE:
        if len(CACHE) > 3000:
            CACHE.clear()
        CACHE[k] = in_child(run, [m], [0])
    return CACHE[k]


def check(case):
    ms = case['models']
    refs = [alone(m)[0] for m in ms]
    got = in_child(run, ms, case['order'])
    for i, (a, b) in enumerate(zip(refs, got)):
        who = '%s' % (config(ms[i]['cfg'])['architectures'][0])
        for k in a:
            if a[k] != b[k]:
                d = next(((x, y) for x, y in zip(a[k], b[k]) if x != y), (len(a[k]), len(b[k]))) if isinstance(a[k], list) else (a[k], b[k])
                raise Violation('model %d (%s) built with others: %s differ: %s, alone %s' % (i, who, k, str(d[1])[:200], str(d[0])[:200]))
    return Info(len({json.dumps(m['cfg'], sort_keys=True) for m in ms}) > 1, ['%d models' % len(ms)] + ['same arch'] * (len({config(m['cfg'])['architectures'][0] for m in ms}) < len(ms)))


SMALL = ['phi3_mini', 'QWen_7B', 'Llama3_8B', 'phi2', 'llama_31_70B', 'Phi_3_small_8k_instruct', 'gptj_6b', 'gpt2', 'llama2_7b', 'yi_34B']


@st.composite
def cases(draw):
    models = []
    base = draw(llmgen.configs())
    for i in range(draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5]))):
        k = draw(st.integers(0, 9))
        if k < 4:
            c = draw(llmgen.configs())
        elif k < 8:     # a variant of the first: same architecture, other biases
            c = dict(base)
            for key in draw(st.lists(st.sampled_from(['attention_bias', 'mlp_bias', 'head_dim', 'max_position_embeddings', 'drop']), min_size=1, max_size=2)):
                if key == 'drop':
                    c = {k: v for k, v in c.items() if k not in ('attention_bias', 'mlp_bias')}
                elif key.endswith('bias'):
                    c[key] = draw(st.booleans())
                elif key == 'head_dim' and 'n_embd' not in c and 'q_lora_rank' not in c:
                    c[key] = draw(st.sampled_from([2, 4, 8]))
                elif key == 'max_position_embeddings':
                    c[key] = 48
        else:
            n = draw(st.sampled_from(SMALL))
            c = {'__from': n, 'n_layer' if n in ('gpt2', 'gptj_6b') else 'num_hidden_layers': 1, 'max_position_embeddings': 64, 'vocab_size': 100}
        ops = [['build', draw(st.sampled_from([1, 1, 2])), draw(st.integers(1, 16))]]
        if draw(st.booleans()):
            ops.append(['kv', draw(st.integers(0, 8))])
            if draw(st.booleans()):
                ops.append(['past', draw(st.integers(0, 30))])
        if draw(st.booleans()):
            ops.append(['infer', draw(st.integers(1, 16))])
        ops.append(draw(st.sampled_from([['profile', None, 0], ['profile', 'A', 1], ['profile', 'B', 1], ['profile', 'A', 0], ['named', 'RTX-4090'], ['named', 'Core-13900']])))
        models.append(dict(cfg=c, wm=draw(st.integers(0, 3)) == 0, ops=ops))
    if draw(st.integers(0, 30)) == 0:
        models.append(dict(cfg='gpt2', wm=True, ops=[['build', 1, 4], ['profile', None, 0]]))
    order = draw(st.lists(st.integers(0, len(models) - 1), max_size=16))
    return dict(models=models, order=order)


SUBS = [Sub('histories', cases, check, 3000, 40000)]
