"""Generated language-model configurations (small) for the checks of the LLM builder."""
import copy
from hypothesis import strategies as st

WEIGHTS = {     # a weight map of the documented shape, with all entries GPT2 needs
    'embedding': {'embed': 'wte', 'pos': 'wpe'},
    'layer_prefix': 'h.',
    'attention': {'input_norm': 'ln_1', 'qkv': 'attn.c_attn', 'q': 'attn.q', 'k': 'attn.k', 'v': 'attn.v', 'o': 'attn.c_proj', 'output_norm': 'attn.ln_o'},
    'mlp': {'input_norm': 'ln_2', 'gate': 'mlp.gate', 'up': 'mlp.c_fc', 'down': 'mlp.c_proj', 'gate_up': 'mlp.gu', 'output_norm': 'mlp.ln_o'},
    'lm_head': {'input_norm': 'ln_f', 'lm': 'lm_head'},
}

ARCHS = ['LlamaForCausalLM', 'LlamaForCausalLM', 'Qwen2ForCausalLM', 'Qwen3ForCausalLM', 'Qwen3_5ForConditionalGeneration', 'Qwen3_5MoeForCausalLM', 'DeepSeekV4ForCausalLM', 'MiniMaxM2ForCausalLM',
         'Phi3ForCausalLM', 'PhiForCausalLM', 'Phi3SmallForCausalLM', 'GPTJForCausalLM', 'GPT2LMHeadModel', 'MistralForCausalLM']
GPT = ('GPTJForCausalLM', 'GPT2LMHeadModel')


@st.composite
def configs(draw, archs=ARCHS):
    a = draw(st.sampled_from(archs))
    heads = draw(st.sampled_from([1, 2, 4, 4, 6, 8]))
    hd = draw(st.sampled_from([2, 4, 8, 16]))
    layers = draw(st.integers(1, 3))
    c = {'name': draw(st.sampled_from(['m', 'org/model-a', 'x.y'])), 'architectures': [a], 'vocab_size': draw(st.integers(200, 400)), 'use_cache': True, 'tie_word_embeddings': draw(st.booleans())}
    if a in GPT:
        c.update({'n_embd': heads * hd, 'n_head': heads, 'n_layer': layers, 'n_positions': draw(st.sampled_from([64, 128])), 'activation_function': 'gelu_new',
                  'layer_norm_epsilon': 1e-5, 'model_type': 'gptj' if a == 'GPTJForCausalLM' else 'gpt2'})
        k = draw(st.integers(0, 2))
        if k or a == 'GPTJForCausalLM':
            c['n_inner'] = None if k != 1 else draw(st.integers(4, 90))
        if a == 'GPTJForCausalLM':
            c['rotary_dim'] = hd
            c['max_position_embeddings'] = 64
        return c
    kv = draw(st.sampled_from([d for d in range(1, heads + 1) if heads % d == 0]))
    c.update({'hidden_size': heads * hd, 'num_attention_heads': heads, 'num_key_value_heads': kv, 'num_hidden_layers': layers, 'hidden_act': 'silu',
              'max_position_embeddings': draw(st.sampled_from([32, 64, 80])), 'rope_theta': draw(st.sampled_from([10000.0, 5e5]))})
    inter = draw(st.integers(4, 120))
    if a == 'PhiForCausalLM':
        c.update({'layer_norm_eps': 1e-5, 'hidden_act': 'gelu_new', 'model_type': 'phi', 'intermediate_size': inter})
    elif a == 'Phi3SmallForCausalLM':
        c.update({'layer_norm_epsilon': 1e-5, 'hidden_act': 'gegelu', 'model_type': 'phi3small', 'ff_intermediate_size': inter})
    else:
        c.update({'rms_norm_eps': 1e-6, 'intermediate_size': inter, 'model_type': {'Phi3ForCausalLM': 'phi3'}.get(a, 'x')})
    if draw(st.integers(0, 3)) == 0 and a not in ('DeepSeekV4ForCausalLM',):
        c['head_dim'] = draw(st.sampled_from([2, 6, 8, 32]))
    hd = c.get('head_dim', hd)
    if a in ('LlamaForCausalLM', 'MistralForCausalLM', 'Qwen2ForCausalLM', 'Qwen3ForCausalLM', 'Phi3ForCausalLM', 'Phi3SmallForCausalLM', 'Qwen3_5ForConditionalGeneration', 'Qwen3_5MoeForCausalLM', 'MiniMaxM2ForCausalLM'):
        k = draw(st.integers(0, 5))
        if k < 4:
            c['attention_bias'] = k in (1, 2)
        if draw(st.integers(0, 3)) == 0:
            c['mlp_bias'] = draw(st.booleans())
    if a.startswith('Qwen3_5'):
        c['layer_types'] = [draw(st.sampled_from(['linear_attention', 'full_attention'])) for _ in range(layers)]
        if draw(st.booleans()):
            nk = draw(st.sampled_from([1, 2, 4]))
            c.update({'linear_num_key_heads': nk, 'linear_num_value_heads': nk * draw(st.integers(1, 2)), 'linear_key_head_dim': draw(st.sampled_from([4, 8])), 'linear_value_head_dim': draw(st.sampled_from([4, 8, 12])),
                      'linear_conv_kernel_dim': draw(st.integers(2, 5))})
        if draw(st.integers(0, 2)) == 0:
            c.update({'vision_hidden_size': 16, 'vision_num_layers': draw(st.integers(1, 2)), 'vision_num_heads': draw(st.sampled_from([1, 2])), 'vision_patch_size': draw(st.sampled_from([2, 4])),
                      'projector_type': draw(st.sampled_from(['mlp', 'linear']))})
            if draw(st.booleans()):
                c['vision_intermediate_size'] = draw(st.integers(4, 40))
            if draw(st.booleans()):
                c['projector_hidden_dim'] = draw(st.integers(4, 40))
    if a in ('Qwen3_5MoeForCausalLM', 'DeepSeekV4ForCausalLM', 'MiniMaxM2ForCausalLM'):
        E = draw(st.integers(2, 12))
        c[draw(st.sampled_from(['num_experts', 'num_local_experts']))] = E
        c['num_experts_per_tok'] = draw(st.integers(1, min(E, 4)))
        if draw(st.booleans()):
            c['moe_intermediate_size'] = draw(st.integers(2, 40))
            if draw(st.booleans()):
                c['shared_expert_intermediate_size'] = draw(st.integers(2, 40))
    if a == 'DeepSeekV4ForCausalLM':
        G = draw(st.sampled_from([d for d in (1, 2, 4) if heads * hd % d == 0]))
        c.update({'q_lora_rank': draw(st.integers(2, 20)), 'o_lora_rank': draw(st.integers(2, 20)), 'o_groups': G, 'rope_head_dim': 2, 'window_size': draw(st.sampled_from([4, 16, 128]))})
        if draw(st.booleans()):
            c.update({'compress_ratio': draw(st.sampled_from([0, 4, 8])), 'index_n_heads': draw(st.integers(1, 4)), 'index_head_dim': draw(st.sampled_from([2, 4])), 'index_topk': draw(st.sampled_from([1, 2, 512]))})
    if a == 'MiniMaxM2ForCausalLM' and draw(st.booleans()):
        c['rotary_dim'] = 2
    if draw(st.integers(0, 5)) == 0:
        c['attn_logit_softcapping'] = 50.0
    if draw(st.integers(0, 4)) == 0:
        c['final_logit_softcapping'] = 30.0
    return c


def needs_map(c):
    return c['architectures'][0] == 'GPT2LMHeadModel'


@st.composite
def sizes(draw):
    b, s = draw(st.sampled_from([1, 1, 1, 2, 3])), draw(st.integers(1, 32))
    return b, s
