"""C34: language model inference equals the transformer."""
import os
import sys
import types
from hypothesis import strategies as st
from ..core import *
from ..om import *
from .. import faketorch

PROPERTY = 'C34'
TECHNIQUE = 'stateful property-based testing: generated configurations, weights and feeding histories, differential oracle = a direct numpy transformer over the whole sequence'
LEVEL_NOTE = 'random search over small models; torch, transformers and safetensors are not installed, stand-ins compute and hold the weights instead'
RULE = ('A case is a generated decoder configuration with random weights, exported by the builder and loaded by the inference engine. Sub "feed": a history of forward calls (prefill, chunks, single tokens, restarts, '
        'rollbacks of the cache); the logits of every call must be those of a direct numpy transformer at the same positions of the whole sequence. Sub "generate": greedy and sampled generation, repeated with other prompts; '
        'the tokens must be those of the transformer. Non-trivial: two calls after which the cache matters (feed), three generated tokens (generate).')
ASSUMPTIONS = ['the stand-in for torch follows its documentation where the engine uses it']

REPO = os.environ.get('VP_REPO', '/repo')
torch = faketorch.install()
sys.path[:0] = [os.path.join(REPO, 'inference')]
if REPO not in sys.path:
    sys.path.append(REPO)
import onnx_tool
from onnx_tool.llm import Builder

FILES = {}          # path -> {name: array}: what the stand-in of safetensors opens


class SafeOpen:
    def __init__(self, path, framework='pt', device='cpu'):
        self.data = FILES[str(path)]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def keys(self):
        return list(self.data)

    def get_tensor(self, k):
        return torch.from_numpy(self.data[k].copy())


class Tokenizer:
    """prompts are numbers"""
    eos_token_id = 0
    pad_token_id = None

    @classmethod
    def from_pretrained(cls, *a, **k):
        t = cls()
        t.eos_token_id = Tokenizer.eos_token_id
        return t

    def encode(self, text, **k):
        return [int(x) for x in text.split()]

    def decode(self, ids, skip_special_tokens=False):
        return ' '.join(str(int(i)) for i in ids if not (skip_special_tokens and int(i) == self.eos_token_id))


for name, at in (('safetensors', {'safe_open': SafeOpen}), ('transformers', {'AutoTokenizer': Tokenizer})):
    mod = types.ModuleType(name)
    mod.__dict__.update(at)
    sys.modules[name] = mod
import llm_infer

FORMS = ['LlamaForCausalLM', 'Qwen2ForCausalLM', 'Qwen3ForCausalLM', 'Qwen3ForCausalLM', 'MistralForCausalLM']


# ---------------------------------------------------------------- models
def config(draw):
    i = lambda a, b: draw(st.integers(a, b))
    pick = lambda l: draw(st.sampled_from(l))
    kv = pick([1, 2, 3])
    heads = kv * pick([1, 2, 3])
    hd = pick([2, 4, 6, 8])
    c = dict(name='m', architectures=[pick(FORMS)], num_attention_heads=heads, num_key_value_heads=kv, num_hidden_layers=pick([1, 2, 2, 3]),
             intermediate_size=i(3, 20), vocab_size=i(5, 40), hidden_act='silu', max_position_embeddings=i(24, 64), rms_norm_eps=pick([1e-6, 1e-5, 0.125]),
             rope_theta=pick([10000.0, 100.0, 1000000.0]))
    if i(0, 1):
        c['head_dim'] = hd
        c['hidden_size'] = i(4, 20)
    else:
        c['hidden_size'] = heads * hd
    if pick([0, 1, 2]) == 2:
        c['attention_bias'] = bool(i(0, 1))
    if pick([0, 1, 2]) == 2:
        c['mlp_bias'] = bool(i(0, 1))
    c['tie_word_embeddings'] = bool(i(0, 1))
    return c


def weights(c, seed, nobias):
    """weights of the checkpoint, by its names, as [out, in]"""
    r = np.random.default_rng(seed)
    H, V, I = c['hidden_size'], c['vocab_size'], c['intermediate_size']
    hd = c.get('head_dim', H // c['num_attention_heads'])
    Q, K = c['num_attention_heads'] * hd, c['num_key_value_heads'] * hd
    arch = c['architectures'][0]
    qb = c.get('attention_bias', arch.startswith('Qwen')) and not nobias
    ob = c.get('attention_bias', False) and not nobias
    mb = c.get('mlp_bias', False)
    w = {}

    def lin(n, o, i, bias):
        w[n + '.weight'] = r.normal(size=(o, i)) / np.sqrt(i) * 1.5
        if bias:
            w[n + '.bias'] = r.normal(size=o)
    norm = lambda n, k: w.__setitem__(n + '.weight', r.uniform(0.5, 1.5, k))
    w['model.embed_tokens.weight'] = r.normal(size=(V, H))
    for l in range(c['num_hidden_layers']):
        p = 'model.layers.%d.' % l
        norm(p + 'input_layernorm', H)
        lin(p + 'self_attn.q_proj', Q, H, qb)
        lin(p + 'self_attn.k_proj', K, H, qb)
        lin(p + 'self_attn.v_proj', K, H, qb)
        lin(p + 'self_attn.o_proj', H, Q, ob)
        if arch.startswith('Qwen3'):
            norm(p + 'self_attn.q_norm', hd)
            norm(p + 'self_attn.k_norm', hd)
        norm(p + 'post_attention_layernorm', H)
        lin(p + 'mlp.gate_proj', I, H, mb)
        lin(p + 'mlp.up_proj', I, H, mb)
        lin(p + 'mlp.down_proj', H, I, mb)
    norm('model.norm', H)
    if not c['tie_word_embeddings']:
        lin('lm_head', V, H, False)
    return {k: v.astype(np.float32) for k, v in w.items()}


def forward(c, w, ids):
    """logits of each position of a sequence, float64"""
    w = {k: v.astype(np.float64) for k, v in w.items()}
    H, nh, nk = c['hidden_size'], c['num_attention_heads'], c['num_key_value_heads']
    hd = c.get('head_dim', H // nh)
    S = len(ids)

    def lin(x, n):
        y = x @ w[n + '.weight'].T
        return y + w[n + '.bias'] if n + '.bias' in w else y

    def rms(x, n):
        return x / np.sqrt((x * x).mean(-1, keepdims=True) + c['rms_norm_eps']) * w[n + '.weight']
    ang = np.arange(S)[:, None] * (1.0 / c['rope_theta'] ** (np.arange(0, hd, 2) / hd))[None]
    cs, sn = np.cos(np.concatenate([ang, ang], 1))[:, None], np.sin(np.concatenate([ang, ang], 1))[:, None]
    rot = lambda x: x * cs + np.concatenate([-x[..., hd // 2:], x[..., :hd // 2]], -1) * sn
    x = w['model.embed_tokens.weight'][ids]
    for l in range(c['num_hidden_layers']):
        p = 'model.layers.%d.' % l
        y = rms(x, p + 'input_layernorm')
        q = lin(y, p + 'self_attn.q_proj').reshape(S, nh, hd)
        k = lin(y, p + 'self_attn.k_proj').reshape(S, nk, hd)
        v = lin(y, p + 'self_attn.v_proj').reshape(S, nk, hd)
        if p + 'self_attn.q_norm.weight' in w:
            q, k = rms(q, p + 'self_attn.q_norm'), rms(k, p + 'self_attn.k_norm')
        q, k = rot(q), rot(k)
        o = np.zeros((S, nh, hd))
        for h in range(nh):
            kk, vv = k[:, h // (nh // nk)], v[:, h // (nh // nk)]
            for s in range(S):
                a = q[s, h] @ kk[:s + 1].T / np.sqrt(hd)
                a = np.exp(a - a.max())
                o[s, h] = (a / a.sum()) @ vv[:s + 1]
        x = x + lin(o.reshape(S, nh * hd), p + 'self_attn.o_proj')
        y = rms(x, p + 'post_attention_layernorm')
        g = lin(y, p + 'mlp.gate_proj')
        x = x + lin(g / (1 + np.exp(-g)) * lin(y, p + 'mlp.up_proj'), p + 'mlp.down_proj')
    y = rms(x, 'model.norm')
    return y @ (w['model.embed_tokens.weight'] if c['tie_word_embeddings'] else w['lm_head.weight']).T


def engine(case, d):
    """(engine, checkpoint weights)"""
    c = case['config']
    w = weights(c, case['seed'], case['nobias'])
    with sut('building the model'):
        b = Builder(**dict(c))
        b.build_graph([case['batch'], case['window']])
        if case['cache']:
            b.add_kv_cache(case['cache'], case.get('past', 0))
        p = os.path.join(d, 'm.onnx')
        if case['store'] == 'onnx':
            for n in list(b.graph.initials):
                t = b.graph.tensormap[n]
                if t.numpy is None:
                    src = w.get(n, w['model.embed_tokens.weight'] if n == 'lm_head.weight' else None)
                    linear = n.endswith('proj.weight') or n == 'lm_head.weight'
                    t.update_tensor(np.ascontiguousarray(src.T if linear else src))
        b.save_graph(p)
    s = None
    if case['store'] != 'onnx':
        s = os.path.join(d, 'model.safetensors')
        FILES[s] = dict(w)
        if case['store'] == 'map':      # other names in the checkpoint
            FILES[s] = {'x.' + k: v for k, v in w.items()}
    with sut('building the weight map'):
        m = llm_infer.get_qwen3_weight_map(c)
    if case['store'] == 'map':
        m = {k: 'x.' + v for k, v in m.items()}
        m.update({k: 'x.' + k for k in w if k not in m})
    with sut('building the inference engine'):
        e = llm_infer.LLMInfer(p, model_name='m', safetensors_path=s, weight_map=m if s else None, max_seq_len=case['window'], config=c)
    return e, w


@st.composite
def feeds(draw):
    i = lambda a, b: draw(st.integers(a, b))
    pick = lambda l: draw(st.sampled_from(l))
    c = config(draw)
    window = pick([4, 6, 8, 12])
    cache = pick([16, 20, 23, 0, 16])
    calls = []
    for k in range(i(2, 7)):
        op = 'start' if k == 0 else pick(['step', 'step', 'chunk', 'chunk', 'back', 'start'])
        calls.append(dict(op=op, n=1 if op == 'step' else pick([1, 2, 3, window, i(1, window)]), back=i(1, 6), seed=i(0, 99), again=pick([0, 0, 0, 1])))
    return dict(config=c, seed=i(0, 999), nobias=pick([False, False, True]), batch=pick([1, 1, 1, 2]), window=window, cache=cache, store=pick(['file', 'file', 'map', 'onnx']), calls=calls, past=pick([0, 0, 3]))


def usable(case):
    c = case['config']
    c['max_position_embeddings'] = max(c['max_position_embeddings'], 24)
    if case['store'] == 'onnx' and case['nobias']:
        case['nobias'] = False


def close(g, want):
    return np.abs(g - want) <= 2e-3 * (1 + np.abs(want).max())


def check_feed(case):
    usable(case)
    c, B = case['config'], case['batch']
    with scratch() as d:
        e, w = engine(case, d)
        name = e.logits_name
        seqs = [[] for _ in range(B)]
        mattered = 0
        for k, call in enumerate(case['calls']):
            r = np.random.default_rng(call['seed'])
            if not case['cache'] or call['op'] == 'start':
                seqs = [[] for _ in range(B)]
            elif call['op'] == 'back':
                seqs = [s[:max(0, len(s) - call['back'])] for s in seqs]
            past = len(seqs[0])
            n = min(call['n'], case['window'], (case['cache'] or 99) - past)
            if n < 1:
                continue
            new = r.integers(0, c['vocab_size'], [B, n])
            seqs = [s + list(map(int, x)) for s, x in zip(seqs, new)]
            feed = {'ids': torch.from_numpy(new.astype(np.int64)), 'position': torch.from_numpy(np.tile(np.arange(past, past + n, dtype=np.int64), (B, 1)))}
            if case['cache']:
                feed['n_past'] = torch.tensor(past, dtype=torch.int64)
                if k == 0:
                    feed['kv_cache'] = torch.zeros(B, 2 * c['num_hidden_layers'], case['cache'], c['num_key_value_heads'] * c.get('head_dim', c['hidden_size'] // c['num_attention_heads']), dtype=torch.float32)
            for _ in range(1 + call['again']):      # the same call again gives the same
                with sut('call %d: %d tokens after %d' % (k, n, past)):
                    got = e.engine.forward(dict(feed), profile=call['seed'] % 9 == 0)[name].numpy().copy()
                require(list(got.shape) == [B, n, c['vocab_size']], 'call %d: %d tokens after %d give logits of the shape %s', k, n, past, list(got.shape))
                for b in range(B):
                    want = forward(c, w, seqs[b])[past:]
                    bad = ~close(got[b], want)
                    require(not bad.any(), 'call %d: %d tokens after %d: the logits of token %d are %s, not %s', k, n, past, int(np.argmax(bad.any(1))), np.round(got[b][bad][:5], 4).tolist(),
                            np.round(want[bad][:5], 4).tolist())
            mattered += past > 0
    return Info(mattered > 1 or (not case['cache'] and len(case['calls']) > 2), [c['architectures'][0], 'cache' if case['cache'] else 'no cache', case['store']] + ['no bias'] * case['nobias'] + ['batch'] * (B > 1))


# ---------------------------------------------------------------- generation
@st.composite
def generations(draw):
    i = lambda a, b: draw(st.integers(a, b))
    pick = lambda l: draw(st.sampled_from(l))
    c = config(draw)
    window = pick([6, 8, 12])
    runs = [dict(n=i(1, window), extra=pick([0, 1, 3, 5, 8]), seed=i(0, 99), temperature=pick([0, 0, 0, 0.5, 2.0]), top_k=pick([0, 1, 2, 4]), profile=pick([False] * 5 + [True]), verbose=bool(i(0, 1)))
            for _ in range(i(1, 3))]
    return dict(config=c, seed=i(0, 999), nobias=pick([False, False, True]), batch=1, window=window, cache=pick([20, 20, 23, 0]), store=pick(['file', 'map', 'onnx']), runs=runs, eos=i(0, 9))


def check_generate(case):
    usable(case)
    c = case['config']
    Tokenizer.eos_token_id = case['eos'] % c['vocab_size']
    total = 0
    with scratch() as d:
        e, w = engine(case, d)
        for k, run in enumerate(case['runs']):
            r = np.random.default_rng(run['seed'])
            prompt = [int(x) for x in r.integers(0, c['vocab_size'], run['n'])]
            limit = len(prompt) + run['extra']
            if not case['cache']:
                limit = max(len(prompt), min(limit, case['window']))
            drawn = []

            def multinomial(p, n, *a, **kw):
                q = p.numpy().astype(np.float64)
                x = int(r.choice(np.flatnonzero(q > 0)))
                drawn.append((q / q.sum(), x))
                return torch.tensor([x], dtype=torch.int64)
            torch.multinomial = multinomial
            kw = dict(max_length=limit, temperature=run['temperature'], top_k=min(run['top_k'], c['vocab_size']), verbose=run['verbose'], profile=run['profile'])
            with sut('generating up to %d tokens from %d' % (limit, len(prompt))):
                text = e.generate(' '.join(map(str, prompt)), **kw)
            # the transformer follows
            seq = list(prompt)
            while len(seq) < limit:
                lo = forward(c, w, seq)[-1]
                if run['temperature'] > 0:
                    require(drawn, 'run %d: generation stops after %d of %d tokens', k, len(seq), limit)
                    q, x = drawn.pop(0)
                    p = np.exp((lo - lo.max()) / run['temperature'])
                    p /= p.sum()
                    if kw['top_k']:
                        top = np.sort(p)[::-1]
                        if kw['top_k'] < len(p) and top[kw['top_k'] - 1] - top[kw['top_k']] < 1e-3 * top[0]:
                            raise Skip('a tie at the k-th token')
                        p = np.where(p >= top[kw['top_k'] - 1], p, 0)
                        p /= p.sum()
                    require(np.abs(p - q).max() < 1e-2, 'run %d: token %d is drawn from %s, not %s (temperature %s, top %s)', k, len(seq), np.round(q, 3).tolist()[:9], np.round(p, 3).tolist()[:9],
                            run['temperature'], kw['top_k'])
                else:
                    top = np.sort(lo)[::-1]
                    if top[0] - top[1] < 4e-3 * (1 + np.abs(lo).max()):
                        raise Skip('a tie')
                    x = int(np.argmax(lo))
                seq.append(x)
                total += 1
                if x == Tokenizer.eos_token_id:
                    break
            want = Tokenizer.from_pretrained().decode(seq, skip_special_tokens=True)
            require(not drawn, 'run %d: more tokens are drawn than asked: %d tokens of at most %d', k, len(seq) + len(drawn), limit)
            require(text == want, 'run %d: prompt %s up to %d tokens gives "%s", the transformer gives "%s"', k, prompt, limit, text, want)
    return Info(total > 2, [c['architectures'][0], 'cache' if case['cache'] else 'no cache', case['store']] + ['sampled'] * any(x['temperature'] > 0 for x in case['runs']))


def provided(fn):
    """a case which needs something the stand-in lacks decides nothing"""
    def run(case):
        faketorch.WANTED.clear()
        try:
            return fn(case)
        except Violation as v:
            if faketorch.WANTED or 'unexpected keyword argument' in str(v):
                raise Skip('not provided by the stand-in: %s' % sorted(faketorch.WANTED))
            raise
        finally:
            FILES.clear()
    return run


SUBS = [Sub('feed', feeds, provided(check_feed), 2400, 30000), Sub('generate', generations, provided(check_generate), 1600, 20000)]
