"""C25: the counts of the LLM builder equal the closed form of the architecture."""
import copy
import json
import os
from hypothesis import strategies as st
from ..core import *
from ..om import *
from .. import llmgen
from onnx_tool import llm
from onnx_tool import model_configs

PROPERTY = 'C25'
TECHNIQUE = 'property-based testing: generated language-model configurations, oracle = parameters, MACs and cache size computed in closed form from the configuration; published figures of the predefined models'
LEVEL_NOTE = 'random search over small configurations of every supported architecture, the predefined models at random batch and length, the published table'
RULE = ('A case is a configuration, batch, length, an optional KV cache with a past length and a later past length, and a second length. Parameters, MACs per operator type, cache size and all shapes are compared with '
        'the closed form; the KV cache and the past length must change the attention cost and the cache only; re-inference at the second length must give the shapes and figures of a model built there. '
        'Non-trivial: at least two layers or grouped heads or an architecture beyond plain Llama.')
ASSUMPTIONS = ['rotary tables may be counted as parameters or not, once or per use (the published rows differ in this); tied embeddings may be counted once or twice',
               'the gated delta layers charge their Q/K/V projections a second time, as their documented cost formula says',
               'the weights of the output projection of the gated delta layers may be counted or not (the published total of the 35B model leaves them out)',
               'the published parameter counts of the two Qwen3.5 models and the MACs of MiniMax-M2.7 do not follow from any closed form of the documented layers and are not required']

PUBLIC = json.load(open(os.path.join(os.path.dirname(os.path.dirname(__file__)), 'llm_published.json')))
SPEC = dict(gate=True, nbias=False, fused=False, qb=False, ob=False, mb=False, lb=False, qkn=False, gated=False, moe=False, mla=False, rope=True, pos=False, shared=True, sgate=True)
ARCH = {
    'Qwen2ForCausalLM': dict(qb=True),
    'Qwen3ForCausalLM': dict(qb=True, qkn=True),
    'Qwen3_5ForConditionalGeneration': dict(qkn=True, gated=True),
    'Qwen3_5MoeForCausalLM': dict(qkn=True, gated=True, moe=True),
    'DeepSeekV4ForCausalLM': dict(moe=True, mla=True, sgate=False),
    'MiniMaxM2ForCausalLM': dict(qkn=True, moe=True, shared=False, sgate=False),
    'Phi3ForCausalLM': dict(gate=False, fused=True),
    'PhiForCausalLM': dict(gate=False, nbias=True, qb=True, ob=True, lb=True),
    'Phi3SmallForCausalLM': dict(gate=False, fused=True),
    'GPTJForCausalLM': dict(gate=False, nbias=True),
    'GPT2LMHeadModel': dict(gate=False, nbias=True, fused=True, qb=True, ob=True, mb=True, rope=False, pos=True),
}
EXP, DIV, SQRT, TRIG, TANH = 32, 4, 24, 39, 38
ACT = {'silu': ('Silu', EXP + 1), 'gelu_new': ('Gelu', EXP + 2), 'gegelu': ('GeGelu', EXP + 2)}
ROPE = 2 * TRIG + 2


class Closed:
    """the closed form: parameters, MACs by operator type, cache elements"""

    def __init__(self, c, b, s, past=None):
        a = dict(SPEC)
        a.update(ARCH.get(c['architectures'][0], {}))
        if 'attention_bias' in c:
            a['qb'] = a['ob'] = c['attention_bias']
        if 'mlp_bias' in c:
            a['mb'] = c['mlp_bias']
        g = lambda *ks, d=None: next((c[k] for k in ks if c.get(k) is not None), d)
        self.c, self.a, self.b, self.s, self.g = c, a, b, s, g
        self.tok = b * s
        H = self.H = g('hidden_size', 'n_embd')
        N = self.N = g('num_attention_heads', 'n_head')
        K = self.K = g('num_key_value_heads', 'n_head')
        L = self.L = g('num_hidden_layers', 'n_layer')
        D = self.D = g('head_dim', d=H // N)
        I = self.I = g('intermediate_size', 'ff_intermediate_size', 'n_inner', d=4 * H)
        V = c['vocab_size']
        self.macs, self.layernorm2, self.p, self.consts = {}, 0, 0, 0
        self.gdno = 0
        self.ropes = 0
        all_ = s + (past or 0)
        self.all = all_
        # embedding and head
        self.p += V * H
        if a['pos']:
            self.p += g('n_positions', d=1024) * H
            self.add('Add', self.tok * H)
        for i in range(L):
            self.norm(H)
            lt = g('layer_types', d=[])
            if i < len(lt) and lt[i] == 'linear_attention':
                self.gdn()
            elif a['mla']:
                self.mla()
            else:
                self.attention()
            self.add('Add', self.tok * H)
            self.norm(H)
            self.moe() if a['moe'] else self.mlp()
            self.add('Add', self.tok * H)
        self.norm(H)
        self.mm(H, V, a['lb'])
        if c.get('final_logit_softcapping') is not None:
            self.add('LogitSoftCapping', self.tok * V * (TANH + 1 + DIV))
        self.tied = V * H if c.get('tie_word_embeddings') else 0
        self.cache = b * all_ * (D if a['mla'] else D * K) * 2 * L
        self.table = 2 * g('max_position_embeddings', d=4096) * (g('rotary_dim', d=D) // 2)

    def add(self, op, n):
        self.macs[op] = self.macs.get(op, 0) + n

    def mm(self, fin, fout, bias):
        self.p += fin * fout + (fout if bias else 0)
        self.add('MatMul', self.tok * fout * (fin + (1 if bias else 0)))

    def norm(self, H):
        self.p += H * (2 if self.a['nbias'] else 1)
        self.add('LayerNormalization', self.tok * H * 7 + self.tok * (1 + SQRT + DIV))

    def headnorm(self, heads, dim):
        self.p += dim
        self.add('LayerNormalization', self.tok * heads * dim * 7 + self.tok * (1 + SQRT + DIV))
        self.layernorm2 += self.tok * (heads - 1) * (1 + SQRT + DIV)     # one mean per head instead of per token

    def act(self, name, n):
        self.add(ACT[name][0], self.tok * n * ACT[name][1])

    def rope(self, n):
        self.ropes += 1
        self.add('Rope', self.tok * n * ROPE)

    def attention(self):
        a, H, q, kv = self.a, self.H, self.N * self.D, self.K * self.D
        if a['fused'] and not a['gated']:
            self.mm(H, q + 2 * kv, a['qb'])
            self.consts += 12
        else:
            self.mm(H, q * (2 if a['gated'] else 1), a['qb'])
            self.mm(H, kv, a['qb'])
            self.mm(H, kv, a['qb'])
            if a['gated']:
                self.consts += 8
        if a['qkn']:
            self.headnorm(self.N, self.D)
            self.headnorm(self.K, self.D)
        if a['rope']:
            self.rope(q)
            self.rope(kv)
        n = self.b * self.N * self.s * self.all
        self.add('SDPA', n * self.D * 2 + n * (EXP + DIV))
        if a['gated']:
            self.act('silu', q)
            self.add('Mul', self.tok * q)
        self.mm(q, H, a['ob'])

    def mlp(self):
        a, H, I, act = self.a, self.H, self.I, self.c.get('hidden_act', self.c.get('activation_function'))
        if self.c.get('model_type') in ('phi3', 'phi3small'):
            self.mm(H, 2 * I, a['mb'])
            self.act('gegelu', I)
        else:
            self.mm(H, I, a['mb'])
            if a['gate']:
                self.mm(H, I, a['mb'])
                self.add('Mul', self.tok * I)
            self.act(act, I)
        self.mm(I, H, a['mb'])

    def moe(self):
        a, H, g = self.a, self.H, self.g
        E, k = g('num_experts', 'num_local_experts', d=256), g('num_experts_per_tok', d=8)
        I = g('moe_intermediate_size', d=self.I)
        SI = g('shared_expert_intermediate_size', d=I) if a['shared'] else 0
        self.p += H * E + E * 3 * H * I + 3 * H * SI + (H if a['sgate'] else 0)
        per = H * E + k * (3 * H * I + I * (EXP + 1 + 1)) + 3 * H * SI + SI * (EXP + 1 + 1) + (H * (EXP + 1) if a['sgate'] else 0) + H
        self.add('MoE', self.tok * per)

    def gdn(self):
        a, H, g = self.a, self.H, self.g
        nq, nv = g('linear_num_key_heads', d=self.K), g('linear_num_value_heads', d=self.K * 2)
        dq, dv, ck = g('linear_key_head_dim', d=self.D), g('linear_value_head_dim', d=self.D), g('linear_conv_kernel_dim', d=4)
        self.mm(H, nq * dq, a['qb'])
        self.mm(H, nq * dq, a['qb'])
        self.mm(H, nv * dv, a['qb'])
        self.headnorm(nq, dq)
        self.headnorm(nq, dq)
        self.gdno += nv * dv * H + (H if a['ob'] else 0)
        B, S = self.b, self.s
        n = B * S * H * (2 * nq * dq + nv * dv)           # projections
        n += 2 * B * S * nq * dq                          # norm
        n += 2 * B * S * nq * dq * ck                     # convolution
        n += B * S * S * (nq * dq + nv * dv)              # attention
        n += B * S * H * (EXP + 1)                        # gate
        n += B * S * nv * dv * H                          # output projection
        self.add('GDN', n)

    def mla(self):
        g, D, N, H, S = self.g, self.H, self.N, self.D, self.s
        Q, O, G, R = g('q_lora_rank', d=1024), g('o_lora_rank', d=1024), g('o_groups', d=8), g('rope_head_dim', d=64)
        W, CR, IN, ID, T = min(g('window_size', d=128), S), g('compress_ratio', d=0), g('index_n_heads', d=64), g('index_head_dim', d=128), g('index_topk', d=512)
        self.p += D * Q + Q + Q * N * H + D * H + H + G * O * (N * H // G) + G * O * D
        rms = 4 + SQRT + DIV
        ct = S // CR if CR else 0
        per_tok = D * Q + Q * rms + Q * N * H + N * H * (3 + SQRT + DIV) + D * H + H * rms
        n = S * per_tok
        if CR:
            n += S * D * H + ct * CR * H * (EXP + DIV + 2) + ct * H * rms + ct * R * ROPE
        if CR == 4:
            n += 2 * S * D * ID + ct * CR * ID * (EXP + DIV + 2) + ct * ID * rms + ct * R * ROPE
            n += S * Q * IN * ID + IN * S * R * ROPE + IN * S * ID * ct + S * IN * ct * 2 + S * D * IN
            if ct > 1:
                n += S * ct * (ct.bit_length() - 1)
        n += N * S * R * ROPE + S * R * ROPE
        kv = W + ct + min(T, ct) if CR else S
        n += N * S * kv * (2 * H + EXP + DIV)
        n += S * G * (N * H // G) * O + S * G * O * D
        self.add('MLA', self.b * n)

    def params(self):
        base = [self.p, self.p - self.tied]
        return {x + t + k + o for x in base for t in (0, self.table if self.ropes else 0, self.table * self.ropes) for k in (0, self.consts) for o in (0, self.gdno)}


def by_type(g):
    r = {}
    for x in g.nodemap.values():
        if x.macs:
            r[x.op_type] = r.get(x.op_type, 0) + int(x.macs)
    return r


def compare(b, ref, what):
    g = b.graph
    got, exp = by_type(g), {k: v for k, v in ref.macs.items() if v}
    for k in sorted(set(got) | set(exp)):
        ok = {exp.get(k, 0)} | ({exp.get(k, 0) + ref.layernorm2} if k == 'LayerNormalization' else set())
        require(got.get(k, 0) in ok, '%s: %s nodes have %d MACs, the closed form gives %d', what, k, got.get(k, 0), exp.get(k, 0))
    tot = sum(exp.values())
    require(int(round(g.macs[0])) in (tot, tot + ref.layernorm2), '%s: total of %.0f MACs, the closed form gives %d', what, g.macs[0], tot)
    require(int(g.params) in ref.params(), '%s: %d parameters, the closed form gives %d (rotary tables: %d used by %d nodes)', what, g.params, ref.p, ref.table, ref.ropes)
    once = {x + t + k + o for x in (ref.p, ref.p - ref.tied) for t in (0, ref.table if ref.ropes else 0) for k in (0, ref.consts) for o in (0, ref.gdno)}
    require(int(g.dedup_params) in once, '%s: %d deduplicated parameters, the closed form gives %d (rotary tables: %d)', what, g.dedup_params, ref.p, ref.table)


def shapes(b):
    g = b.graph
    return {t: list(map(int, v.get_shape())) for t, v in g.tensormap.items() if t not in ('n_past',)}


def parts(g):
    """Slices of one projection are disjoint and together cover it"""
    cut = {}
    for n in g.nodemap.values():
        if n.op_type == 'Slice' and all(t in g.tensormap and g.tensormap[t].numpy is not None for t in n.input[1:5]):
            lo, hi, ax, st = (int(np.ravel(g.tensormap[t].numpy)[0]) for t in n.input[1:5])
            cut.setdefault((n.input[0], ax), []).append((lo, hi, st))
    for (t, ax), v in cut.items():
        v.sort()
        size = int(g.tensormap[t].get_shape()[ax])
        require(len(v) < 2 or (all(x[2] == 1 for x in v) and [x[0] for x in v] == [0] + [x[1] for x in v[:-1]] and v[-1][1] == size),
                'the projection %s with %d columns is split into the ranges %s', t, size, [x[:2] for x in v])


def build(c, b, s):
    c = copy.deepcopy(c)
    with sut('building'):
        x = llm.Builder(**c)
        x.build_graph([b, s], copy.deepcopy(llmgen.WEIGHTS)) if llmgen.needs_map(c) else x.build_graph([b, s])
    return x


def profile(x):
    with sut('profiling'):
        x.graph.valid_shape = True
        x.graph.profile()


def infer(x, b, s):
    f = {'ids': np.zeros((b, s), np.int64)}
    if 'position' in x.graph.tensormap:
        f['position'] = np.zeros((b, s), np.int64)
    with sut('shape inference at length %d' % s):
        x.graph.shape_infer(f)


def config(case):
    if 'named' in case:
        c = copy.deepcopy(getattr(model_configs, case['named'], None) or PUBLIC[case['named']])
        c.update(case.get('update', {}))
        return c
    return case['cfg']


def check(case):
    c, b, s = config(case), case['batch'], case['seq']
    x = build(c, b, s)
    fixed = shapes(x)
    g = x.graph
    parts(g)
    require(g.tensormap[g.output[0]].get_shape() == [b, s, c['vocab_size']], 'the output has the shape %s, not %s', g.tensormap[g.output[0]].get_shape(), [b, s, c['vocab_size']])
    profile(x)
    compare(x, Closed(c, b, s), 'built at %dx%d' % (b, s))
    require(int(x.kv_params) == Closed(c, b, s).cache, 'the KV cache has %d elements, the closed form gives %d', x.kv_params, Closed(c, b, s).cache)
    before = {n: (v.macs, v.params, v.op_type) for n, v in g.nodemap.items()}
    p0 = g.params
    infer(x, b, s)
    now = shapes(x)
    for t in fixed:
        require(now.get(t) == fixed[t], 'tensor %s is built with the shape %s, inferred as %s', t, fixed[t], now.get(t))
    past = case['past']
    if past is not None:
        ctx = max(past, case['past2'] or 0) + s + case['room']
        with sut('adding a KV cache'):
            x.add_kv_cache(ctx, past)
        profile(x)
        for n, v in g.nodemap.items():
            require(v.op_type == 'SDPA' or (v.macs, v.params, v.op_type) == before[n], 'the KV cache changed node %s: MACs %s, parameters %s, before %s', n, v.macs, v.params, before[n])
        require(g.params == p0, 'the KV cache changed the parameters from %d to %d', p0, g.params)
        ref = Closed(c, b, s, past)
        compare(x, ref, 'with a past of %d' % past)
        require(int(x.kv_params) == ref.cache, 'with a past of %d the KV cache has %d elements, the closed form gives %d', past, x.kv_params, ref.cache)
        sz = sum(int(v.kv_size) for v in g.nodemap.values() if v.op_type == 'SDPA')
        nl = sum(1 for v in g.nodemap.values() if v.op_type == 'SDPA')
        require(sz == nl * b * ref.all * ref.K * ref.D * 2, 'with a past of %d the attention layers report %d cached elements, the closed form gives %d', past, sz, nl * b * ref.all * ref.K * ref.D * 2)
        if case['past2'] is not None:
            with sut('changing the past length'):
                x.set_past_kv_length(case['past2'])
            profile(x)
            for n, v in g.nodemap.items():
                require(v.op_type == 'SDPA' or (v.macs, v.params, v.op_type) == before[n], 'the past length changed node %s', n)
            compare(x, Closed(c, b, s, case['past2']), 'with a past of %d after %d' % (case['past2'], past))
            past = case['past2']
    if case['seq2']:
        s2 = min(case['seq2'], s) if past is not None else case['seq2']
        infer(x, b, s2)
        profile(x)
        compare(x, Closed(c, b, s2, past), 're-inferred at length %d' % s2)
        fresh = shapes(build(c, b, s2))
        now = shapes(x)
        for t in fresh:
            require(now.get(t) == fresh[t], 're-inferred at length %d, tensor %s has the shape %s, built at this length %s', s2, t, now.get(t), fresh[t])
    a = c['architectures'][0]
    k = Closed(c, 1, 1)
    return Info(k.L > 1 or k.K != k.N or a not in ('LlamaForCausalLM', 'MistralForCausalLM'), [a] + ['kv'] * (past is not None) + ['reinfer'] * bool(case['seq2']) + ['gdn'] * ('GDN' in k.macs) + ['named'] * ('named' in case))


@st.composite
def cases(draw):
    b, s = draw(llmgen.sizes())
    past = draw(st.sampled_from([None, 0, 1, 7, 40]))
    return dict(cfg=draw(llmgen.configs()), batch=b, seq=s, past=past, past2=draw(st.sampled_from([None, 0, 3, 90])), room=draw(st.sampled_from([0, 5])), seq2=draw(st.sampled_from([0, 1, 2, 5, 17, 48])))


NAMES = ['phi3_mini', 'QWen_7B', 'Llama3_8B', 'phi2', 'Qwen2_72B_Instruct', 'llama_31_70B', 'Phi_3_medium_4k_instruct', 'Phi_3_small_8k_instruct', 'gptj_6b', 'yi_34B', 'gpt2', 'llama2_7b'] + sorted(PUBLIC)


@st.composite
def named(draw):
    n = draw(st.sampled_from(NAMES))
    c = dict(named=n, batch=draw(st.sampled_from([1, 1, 2, 4])), seq=draw(st.sampled_from([1, 5, 128, 1024, 2048])), past=draw(st.sampled_from([None, 0, 1000])), past2=draw(st.sampled_from([None, 1, 5000])), room=0,
             seq2=draw(st.sampled_from([0, 1, 333])))
    return c


# ---- published figures (README, 1k tokens)
ROWS = [('phi3_mini', 4083, '3.82108', '0.201327'), ('Phi_3_small_8k_instruct', 7912, '7.80167', '0.0671089'), ('Phi_3_medium_4k_instruct', 14665, '13.9602', '0.104858'), ('Llama3_8B', 8029, '8.03026', '0.0671089'),
        ('llama_31_70B', 72888, '70.5537', '0.167772'), ('Qwen3_5_4B', 4807, None, '0.067109'), ('Qwen3_5_35B_A3B', 3574, None, '0.041943'), ('DeepSeek_V4_Flash', 15681, '283.811', '0.045089'),
        ('DeepSeek_V4_Pro', 55701, '1571.742', '0.063963'), ('MiniMax_M2_7', None, '230.315', '0.130023')]
VIS = [(224, 224, 256, 84, 6080, 4557), (448, 448, 1024, 389, 10070, 7719), (672, 672, 2304, 1061, 17292, 13702), (896, 896, 4096, 2350, 28599, 23576), (1344, 896, 6144, 4317, 43233, 37000), (1344, 1344, 9216, 8259, 68607, 61414)]


ACTIVE = {'Qwen3_5_35B_A3B': (34.3, [2.44, 3.44, 5.46, 9.48, 17.54, 33.64]), 'MiniMax_M2_7': (230.3, [10.42, 17.44, 31.48, 59.56, 115.73, 228.08]),
          'DeepSeek_V4_Flash': (283.8, [12.75, 19.24, 32.23, 58.20, 110.14, 214.03]), 'DeepSeek_V4_Pro': (1571.7, [47.60, 71.77, 120.13, 216.84, 410.27, 797.12])}


def fits(v, text):
    d = len(text.split('.')[1])
    return abs(v - float(text)) <= 0.5001 * 10 ** -d


def check_row(case):
    if 'row' in case:
        n, macs, params, kv = ROWS[case['row']]
        c = config({'named': n})
        x = build(c, 1, 1024)
        profile(x)
        ref = Closed(c, 1, 1024)
        require(macs is None or int(x.graph.macs[0] / 1e9) == macs, '%s: %.3f GMACs, published %s', n, x.graph.macs[0] / 1e9, macs)
        require(fits(x.kv_params / 1e9, kv), '%s: KV cache of %.6f G, published %s', n, x.kv_params / 1e9, kv)
        if params:
            alt = [int(x.graph.params), int(x.graph.params) - ref.table * ref.ropes, int(x.graph.params) - ref.table]
            require(any(fits(v / 1e9, params) for v in alt), '%s: %.5f G parameters (%.5f without rotary tables), published %s', n, alt[0] / 1e9, alt[1] / 1e9, params)
        return Info(True, [n])
    if 'active' in case:
        n, i = case['active']
        x = build(config({'named': n}), 1, 2 ** i)
        profile(x)
        v = sum(k.static_params for k in x.graph.nodemap.values()) / 1e9
        require(fits(v, '%.2f' % ACTIVE[n][1][i]), '%s at %d tokens: %.3f G active parameters, published %s', n, 2 ** i, v, ACTIVE[n][1][i])
        require(fits(x.graph.params / 1e9, '%.1f' % ACTIVE[n][0]), '%s: %.3f G parameters, published %s', n, x.graph.params / 1e9, ACTIVE[n][0])
        return Info(True, ['active parameters'])
    h, w, patches, vis, m4, m35 = VIS[case['vis']]
    c = config({'named': 'Qwen3_5_4B'})
    with sut('building the vision graph'):
        x = llm.Builder(**c)
        x.build_vision_graph([3, h, w])
    profile(x)
    require(int(x.graph.macs[0] / 1e9) == vis, 'vision encoder at %dx%d: %.3f GMACs, published %d', h, w, x.graph.macs[0] / 1e9, vis)
    require(x.graph.tensormap[x.graph.output[0]].get_shape() == [1, patches, c['hidden_size']], 'vision encoder at %dx%d: output %s', h, w, x.graph.tensormap[x.graph.output[0]].get_shape())
    for n, m in (('Qwen3_5_4B', m4), ('Qwen3_5_35B_A3B', m35)):
        x = build(config({'named': n}), 1, patches + 1024)
        profile(x)
        require(int(x.graph.macs[0] / 1e9) == m, '%s at %d tokens: %.3f GMACs, published %d', n, patches + 1024, x.graph.macs[0] / 1e9, m)
    return Info(True, ['vision'])


rows = st.one_of(st.tuples(st.sampled_from(sorted(ACTIVE)), st.integers(0, 5)).map(lambda t: {'active': list(t)}), st.integers(0, len(ROWS) - 1).map(lambda i: {'row': i}), st.integers(0, len(VIS) - 1).map(lambda i: {'vis': i}))


# ---- exported graph
def check_export(case):
    with scratch() as d:
        return export(case, d)


def export(case, d):
    import onnx
    c, b, s = case['cfg'], case['batch'], case['seq']
    x = build(c, b, s)
    g = x.graph
    past = case['past']
    if past is not None:
        with sut('adding a KV cache'):
            x.add_kv_cache(past + s, past)
    profile(x)
    f = os.path.join(d, 'llm.onnx')
    nodes = sorted([n, v.op_type, list(v.input), list(v.output)] for n, v in g.nodemap.items())
    with sut('saving the graph'):
        x.save_graph(f)
    m = onnx.load(f)
    got = sorted([n.name, n.op_type, list(n.input), list(n.output)] for n in m.graph.node)
    require(got == nodes, 'the saved model has other nodes: %s', next((p for p in zip(got, nodes) if p[0] != p[1]), (len(got), len(nodes))))
    require([o.name for o in m.graph.output] == list(g.output), 'the saved model has the outputs %s, not %s', [o.name for o in m.graph.output], g.output)
    dims = {i.name: [d.dim_value for d in i.type.tensor_type.shape.dim] for i in list(m.graph.input) + list(m.graph.output) + list(m.graph.value_info)}
    dims.update({i.name: list(i.dims) for i in m.graph.initializer})
    made = set()
    for n in m.graph.node:
        for t in n.input:
            require(t in dims or t in made, 'the saved model does not declare tensor %s', t)
        made.update(n.output)
    for t in list(g.initials) + list(g.input) + list(g.output) + sorted(made):
        if t != 'n_past':
            require(dims.get(t) == list(g.tensormap[t].get_shape()), 'the saved model gives %s the shape %s, it is %s', t, dims.get(t), list(g.tensormap[t].get_shape()))
    feed = {'ids': np.zeros((b, s), np.int64)}
    if 'position' in g.tensormap:
        feed['position'] = np.zeros((b, s), np.int64)
    if past is not None:
        feed['n_past'] = np.array(past)
        feed['kv_cache'] = np.zeros(g.tensormap['kv_cache'].get_shape(), np.float32)
    with sut('loading and profiling the saved model'):
        import onnx_tool
        y = onnx_tool.Model(f)
        y.graph.shape_infer(feed)
        y.graph.profile()
    a, r = by_type(y.graph), by_type(g)
    require(a == r, 'the reloaded model has the MACs %s, the built one %s', {k: v for k, v in a.items() if v != r.get(k)}, {k: v for k, v in r.items() if v != a.get(k)})
    return Info(len(nodes) > 10, [c['architectures'][0]])


# ---- vision encoder
def vision_closed(c, C, h, w):
    g = lambda k, d: c.get(k, d)
    VH, NL, NH, P = g('vision_hidden_size', 1024), g('vision_num_layers', 24), g('vision_num_heads', 16), g('vision_patch_size', 14)
    VI, HD = g('vision_intermediate_size', VH * 4), g('vision_head_dim', VH // NH)
    H = c['hidden_size']
    PD, PT = g('projector_hidden_dim', H), g('projector_type', 'mlp')
    T = (h // P) * (w // P)
    p, m = 0, {}

    def add(k, n):
        m[k] = m.get(k, 0) + n

    def mm(a, b):
        nonlocal p
        p += a * b + b
        add('MatMul', T * b * (a + 1))

    def ln():
        nonlocal p
        p += 2 * VH
        add('LayerNormalization', T * VH * 7 + T * (1 + SQRT + DIV))
    p += VH * C * P * P + T * VH
    add('Conv', T * VH * C * P * P)
    add('Add', T * VH)
    for _ in range(NL):
        ln()
        mm(VH, 3 * NH * HD)
        add('SDPA', NH * T * T * (2 * HD + EXP + DIV))
        mm(NH * HD, VH)
        add('Add', T * VH)
        ln()
        mm(VH, VI)
        add('Gelu', T * VI * (EXP + 2))
        mm(VI, VH)
        add('Add', T * VH)
    ln()
    if PT == 'mlp':
        mm(VH, PD)
        add('Gelu', T * PD * (EXP + 2))
        mm(PD, H)
    else:
        mm(VH, H)
    return p, m, T, 12 * NL + 3


def check_vision(case):
    c = copy.deepcopy(case['cfg'])
    C, h, w = case['image']
    with sut('building the vision graph'):
        x = llm.Builder(**c)
        x.build_vision_graph([C, h, w])
    g = x.graph
    parts(g)
    p, m, T, consts = vision_closed(case['cfg'], C, h, w)
    require(g.tensormap[g.output[0]].get_shape() == [1, T, c['hidden_size']], 'the output has the shape %s, not %s', g.tensormap[g.output[0]].get_shape(), [1, T, c['hidden_size']])
    before = shapes(x)
    if case['infer']:
        with sut('shape inference'):
            g.shape_infer({'pixel_values': np.zeros((1, C, h, w), np.float32)})
        now = shapes(x)
        for t in before:
            require(now.get(t) == before[t], 'tensor %s is built with the shape %s, inferred as %s', t, before[t], now.get(t))
    profile(x)
    got = by_type(g)
    for k in sorted(set(got) | set(m)):
        require(got.get(k, 0) == m.get(k, 0), 'vision encoder: %s nodes have %d MACs, the closed form gives %d', k, got.get(k, 0), m.get(k, 0))
    require(int(g.macs[0]) == sum(m.values()), 'vision encoder: total of %.0f MACs, the closed form gives %d', g.macs[0], sum(m.values()))
    require(int(g.params) in (p, p + consts), 'vision encoder: %d parameters, the closed form gives %d', g.params, p)
    return Info(T > 1, ['vision'])


@st.composite
def visions(draw):
    c = draw(llmgen.configs(['Qwen3_5ForConditionalGeneration', 'Qwen3_5MoeForCausalLM']))
    nh = draw(st.sampled_from([1, 2, 4]))
    P = draw(st.sampled_from([1, 2, 3, 7]))
    c.update({'vision_hidden_size': nh * draw(st.sampled_from([2, 4, 5])), 'vision_num_layers': draw(st.integers(0, 3)), 'vision_num_heads': nh, 'vision_patch_size': P, 'projector_type': draw(st.sampled_from(['mlp', 'linear']))})
    for k in ('vision_intermediate_size', 'projector_hidden_dim', 'vision_head_dim'):
        c.pop(k, None)
        if draw(st.booleans()):
            c[k] = draw(st.integers(1, 30))
    return dict(cfg=c, image=[draw(st.integers(1, 4)), draw(st.integers(P, 40)), draw(st.integers(P, 40))], infer=draw(st.booleans()))


SUBS = [Sub('closed', cases, check, 5000, 80000), Sub('named', named, check, 300, 4000), Sub('export', lambda: cases().map(lambda c: {k: c[k] for k in ('cfg', 'batch', 'seq', 'past')}), check_export, 800, 12000), Sub('published', lambda: rows, check_row, 60, 200), Sub('vision', visions, check_vision, 1500, 20000)]
