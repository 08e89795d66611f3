"""C04: figures at given input shapes do not depend on what was done before."""
import os
from hypothesis import strategies as st
from ..core import *
from ..om import *
from .. import gen
import onnx_tool

PROPERTY = 'C04'
TECHNIQUE = 'stateful property-based testing: generated histories of inference, profiling, reporting, saving and failing calls on one loaded model and on other models of the process, compared with a freshly loaded model in a fresh process'
LEVEL_NOTE = 'random search over histories of up to 8 operations on generated models; both sides run the code under test (differential against a fresh process)'
RULE = ('A case is a generated model with symbolic dimensions, up to two other models and a history of operations: infer at one of three assignments (with '
        'zeros or data), a failing inference, profile with and without exclusions, print, save, model_profile of this or another model with hidden or '
        'excluded operators, loading others with other options. Afterwards the model is inferred and profiled at one assignment: tensors, nodes, totals, '
        'printed reports and the saved file must equal those of a fresh process which only does this. Non-trivial: the history infers at least once at '
        'another assignment, or processes another model.')
ASSUMPTIONS = ['graph editing and shape regression are not part of the histories']
K = 3


def figures(m, c, k, d, ops):
    g = m.graph
    g.shape_infer(gen.shapes_in(c, k))
    g.profile()
    r = dict(tensors={n: [[int(x) for x in t.get_shape()], str(np.dtype(t.dtype))] for n, t in g.tensormap.items() if n},
             nodes=[[n, x.op_type, int(x.macs), int(x.params), int(x.memory), [int(i) for i in x.inshape], [int(i) for i in x.outshape]] for n, x in g.nodemap.items()],
             totals=[int(g.macs[0]), int(g.params), int(g.memory), int(g.dedup_params)])
    f = os.path.join(d, 'fin.csv')
    g.print_node_map(f)
    r['report'] = open(f).read()
    g.print_node_map(f, exclude_ops=ops, metric='FLOPs')
    r['report without some'] = open(f).read()
    f = os.path.join(d, 'fin.onnx')
    m.save_model(f)
    p = onnx.load(f)
    r['saved value_info'] = sorted([v.name, v.type.tensor_type.elem_type, dims_of(v)] for v in p.graph.value_info)
    r['saved nodes'] = [[n.op_type, list(n.input), list(n.output)] for n in p.graph.node]
    r['saved weights'] = sorted(i.name for i in p.graph.initializer)
    # and once more through the convenience call on the same file
    f = os.path.join(d, 'conv.csv')
    onnx_tool.model_profile(gen.model_of(c), gen.shapes_in(c, k), save_profile=f)
    r['model_profile report'] = open(f).read()
    return r


def fresh(case):
    c = case['g']
    with scratch() as d:
        m = onnx_tool.Model(gen.model_of(c), case['cfg'])
        return figures(m, c, case['k'], d, case['ops'])


def history(case):
    c = case['g']
    with scratch() as d:
        m = onnx_tool.Model(gen.model_of(c), case['cfg'])
        ready = profiled = False
        for step in case['steps']:
            op = step['op']
            other = case['others'][step['o'] % len(case['others'])] if case['others'] else None
            f = os.path.join(d, 'h.' + step['ext'])
            ex = step['ex']
            if op == 'infer':
                m.graph.shape_infer(gen.feeds_of(c, step['k']) if step['data'] else gen.shapes_in(c, step['k']))
                ready, profiled = True, False
            elif op == 'bad':
                ins = gen.shapes_in(c, step['k'])
                n = sorted(ins)[0]
                ins[n] = np.zeros({'rank': list(ins[n].shape) + [3], 'dims': [d_ + 1 + i for i, d_ in enumerate(ins[n].shape)],
                                   'less': list(ins[n].shape)[1:]}[step['bad']], ins[n].dtype)
                try:
                    m.graph.shape_infer(ins)
                    ready = True
                except Exception:
                    ready = False
                profiled = False
            elif op == 'profile' and ready:
                try:
                    m.graph.profile(exclude_ops=ex) if ex else m.graph.profile()
                    profiled = True
                except Exception:
                    if not [s for s in case['steps'] if s['op'] == 'bad']:
                        raise
            elif op == 'print' and profiled:
                m.graph.print_node_map(f, exclude_ops=ex or None)
            elif op == 'save' and ready:
                m.save_model(os.path.join(d, 'h.onnx'), shape_only=step['data'])
            elif op == 'model_profile':
                x = other if other and step['data'] else c
                kw = {}
                if ex and step['hid']:
                    kw['hidden_ops'] = ex if step['o'] else set(ex)
                elif ex:
                    kw['exclude_ops'] = ex
                onnx_tool.model_profile(gen.model_of(x), gen.shapes_in(x, step['k'] % len(x['assign'])), save_profile=f, **kw)
            elif op == 'load' and other:
                o = onnx_tool.Model(gen.model_of(other), {'constant_folding': step['data'], 'node_rename': step['hid']})
                o.graph.shape_infer(gen.shapes_in(other, step['k'] % len(other['assign'])))
                o.graph.profile()
        return figures(m, c, case['k'], d, case['ops'])


def check(case):
    gen.ref_tensors(case['g'], case['k'])
    want = in_child(fresh, case)
    got = in_child(history, case)
    for key in want:
        if got[key] != want[key]:
            if isinstance(want[key], dict):
                w, g = [(k, want[key].get(k)) for k in sorted(want[key])], [(k, got[key].get(k)) for k in sorted(got[key])]
            elif isinstance(want[key], str):
                w, g = want[key].split('\n'), got[key].split('\n')
            else:
                w, g = want[key], got[key]
            df = [(a, b) for a, b in zip(w, g) if a != b][:2] or [(len(w), len(g))]
            raise Violation('after the history, %s differ from a fresh run at the same input shapes: %s' % (
                key, '; '.join('%s instead of %s' % (b, a) for a, b in df)))
    used = [s for s in case['steps'] if s['op'] in ('infer', 'bad') and (s['k'] != case['k'] or s['op'] == 'bad') or s['op'] in ('model_profile', 'load')]
    return Info(bool(used), [s['op'] for s in case['steps']])


@st.composite
def cases(draw):
    g = gen.graph(draw, {'n': (1, 6), 'K': K})
    others = [gen.graph(draw, {'n': (1, 3), 'K': 1}) for _ in range(draw(st.integers(0, 2)))]
    ops = sorted({n['op'] for n in g['spec']['nodes']} | {'Relu', 'Reshape', 'Conv'})
    ops = [o for o in ops if not o.startswith('Vt') and o != 'Gelu_']
    some = st.lists(st.sampled_from(ops), max_size=3, unique=True)
    steps = []
    for _ in range(draw(st.integers(1, 8))):
        steps.append(dict(op=draw(st.sampled_from(['infer', 'infer', 'infer', 'bad', 'profile', 'profile', 'print', 'save', 'model_profile', 'load'])),
                          k=draw(st.integers(0, K - 1)), data=draw(st.booleans()), hid=draw(st.booleans()), o=draw(st.integers(0, 1)),
                          ext=draw(st.sampled_from(['csv', 'txt'])), ex=draw(some), bad=draw(st.sampled_from(['rank', 'dims', 'less']))))
    cfg = {'verbose': False}
    if draw(st.integers(0, 3)) == 0:
        cfg['constant_folding'] = True
    return dict(g=g, others=others, steps=steps, k=draw(st.integers(0, K - 1)), ops=draw(some), cfg=cfg)


SUBS = [Sub('history', cases, check, 3600, 40000)]
