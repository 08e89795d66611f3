"""C19: graph editing keeps the graph consistent."""
import os
from collections import Counter
from hypothesis import strategies as st
from ..core import *
from ..om import *
from .. import flow, gen
from .c06 import cmp_node
from .c09 import captured
import onnx_tool
from onnx_tool.fusion import removeShapeOps, ShapeOps

PROPERTY = 'C19'
TECHNIQUE = 'stateful property-based testing: generated graphs and edit sequences against a reference model of the node list, records recomputed after every edit, differential execution of the saved result'
LEVEL_NOTE = 'random search over graphs of up to about 30 nodes and up to 8 edits'
RULE = ('A case is a generated graph and a sequence of edits (add weight, add tensor, remove node, remove recursively, remove subtree, skip node, skip all shape operators, '
        'remove dangling nodes, refresh records). After every edit all nodes, weights, graph outputs, producer and consumer records are compared with a '
        'reference model; results of skips and dangling removals are saved and executed. Non-trivial: at least one node disappeared.')
ASSUMPTIONS = ['a node is skippable when it has one output and exactly one dynamic input that is not its shape/bounds input; a skip that cannot keep the graph outputs '
               '(output fed directly by a graph input or by another graph output) leaves the graph alone']
SHAPE_IN = {'Reshape': {1}, 'Clip': set()}


class Ref:
    def __init__(self, spec, names):
        self.nodes = {n: dict(op=x['op'], ins=list(x['in']), outs=list(x['out']), cap=flow.caught(x)) for n, x in zip(names, spec['nodes'])}
        self.outputs = [o[0] for o in spec['outputs']]
        self.weights = {i[0]: arr(i[1], i[2], i[3]) for i in spec['inits']}
        self.inputs = [i[0] for i in spec['inputs']]
        self.broken = False     # a node reads a removed tensor

    def producer(self, t):
        return next((n for n, x in self.nodes.items() if t in x['outs']), None)

    def used(self, node, but=()):
        outs = set(self.nodes[node]['outs'])
        return bool(outs & set(self.outputs)) or any(set(x['ins'] + x['cap']) & outs for n, x in self.nodes.items() if n != node and n not in but)

    def remove(self, name):
        n = self.nodes.pop(name)
        self.outputs = [o for o in self.outputs if o not in n['outs']]
        if any(set(x['ins'] + x['cap']) & set(n['outs']) - {''} for x in self.nodes.values()):
            self.broken = True

    def data_input(self, name):
        n = self.nodes[name]
        sh = {n['ins'][i] for i in SHAPE_IN.get(n['op'], ()) if i < len(n['ins'])}
        d = [t for t in n['ins'] if t and t not in self.weights and t not in sh]
        return d[0] if len(d) == 1 and len(n['outs']) == 1 else None

    def skip(self, name):
        """True when skipped, False when it has to stay, None when unspecified"""
        n = self.nodes[name]
        d = self.data_input(name)
        if d is None:
            return None
        o = n['outs'][0]
        cap = {t for x in self.nodes.values() for t in x['cap']}
        if o in self.outputs:
            p = self.producer(d)
            if p is None or d in self.outputs or d in cap:
                return None
            self.nodes.pop(name)
            self.nodes[p]['outs'] = [o if t == d else t for t in self.nodes[p]['outs']]
            for x in self.nodes.values():
                x['ins'] = [o if t == d else t for t in x['ins']]
        elif o in cap:
            return None
        else:
            self.nodes.pop(name)
            for x in self.nodes.values():
                x['ins'] = [d if t == o else t for t in x['ins']]
        return True

    def descendants(self, name):
        seen, todo = set(), [name]
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            todo += [m for m, x in self.nodes.items() if set(x['ins'] + x['cap']) & set(self.nodes[k]['outs']) - {''}]
        return seen

    def live(self):
        seen, todo = set(), [self.producer(o) for o in self.outputs]
        while todo:
            k = todo.pop()
            if k is None or k in seen:
                continue
            seen.add(k)
            todo += [self.producer(t) for t in self.nodes[k]['ins'] + self.nodes[k]['cap'] if t]
        return seen


def records(g, what):
    for attr, field in (('producedby', 'output'), ('consumedby', 'input')):
        want = {}
        for name, n in g.nodemap.items():
            for t in getattr(n, field):
                if t:
                    want.setdefault(t, Counter())[name] += 1
        got = {t: Counter(v) for t, v in getattr(g, attr).items() if v}
        for t in sorted(set(want) | set(got)):
            require(got.get(t, {}) == want.get(t, {}), '%s: tensor %s is %s %s, but the records say %s', what, t,
                    'produced by' if field == 'output' else 'read by', dict(want.get(t, {})), dict(got.get(t, {})))


def compare(g, ref, what):
    require(list(g.nodemap) == list(ref.nodes), '%s: the nodes are %s, expected %s', what, list(g.nodemap), list(ref.nodes))
    for name, n in ref.nodes.items():
        x = g.nodemap[name]
        require(x.name == name and x.op_type == n['op'], '%s: node %s is %s %s', what, name, x.op_type, x.name)
        require(list(x.input) == n['ins'], '%s: node %s reads %s, expected %s', what, name, list(x.input), n['ins'])
        require(list(x.output) == n['outs'], '%s: node %s writes %s, expected %s', what, name, list(x.output), n['outs'])
    require(list(g.output) == ref.outputs, '%s: the graph outputs are %s, expected %s', what, list(g.output), ref.outputs)
    for w, v in ref.weights.items():
        require(w in g.initials and g.initials.count(w) == 1, '%s: weight %s is listed %d times', what, w, g.initials.count(w))
        require(bits_equal(g.tensormap[w].numpy, v), '%s: weight %s has changed', what, w)
    records(g, what)


def check(case):
    spec = flow.make(case['g'])
    model = build(spec)
    with sut('loading'):
        m = onnx_tool.Model(model, {'verbose': False, 'constant_folding': case.get('fold', True)})
        g = m.graph
    names = list(g.nodemap)
    if case.get('fold') and len(names) < len(model.graph.node):
        raise Skip('folded')
    ref = Ref(spec, names)
    if case.get('fold'):    # unused weights may go
        used = {t for x in ref.nodes.values() for t in x['ins'] + x['cap']} | set(ref.outputs)
        ref.weights = {w: v for w, v in ref.weights.items() if w in used or w in g.initials}
    attrs = {n: p for n, p in zip(names, model.graph.node)}
    records(g, 'after loading')
    labels = []
    gone = False
    k = 0
    exact = True        # saved result can be executed and compared
    for op, a, b in case['edits']:
        cur = list(ref.nodes)
        if not cur:
            break
        name = cur[a % len(cur)]
        what = 'after %s(%s)' % (op, name)
        labels.append(op)
        if op == 'add_initial':
            v = arr(['f32', 'i64', 'f16'][b % 3], [[2, 3], [], [0], [4]][b % 4], {'seed': b, 'lo': -3, 'hi': 3})
            t = 'new%d' % k
            k += 1
            if b % 5 == 0 and ref.weights:
                t = sorted(ref.weights)[a % len(ref.weights)]
                v = np.array(ref.weights[t])
            with sut('add_initial'):
                r = g.add_initial(t, v)
            require(r is g.tensormap[t] and r.name == t and r.get_shape() == list(v.shape), 'add_initial returns a wrong tensor')
            ref.weights[t] = v
        elif op == 'add_dynamic':
            t = 'new%d' % k
            k += 1
            v = np.zeros([1 + b % 3, 2], np.float32)
            with sut('add_dynamic'):
                g.add_dynamic(t, v)
            require(t in g.dynamics and g.tensormap[t].get_shape() == list(v.shape) and t not in g.initials, 'add_dynamic(%s) is not recorded', t)
        elif op == 'remove_node':
            with sut('remove_node'):
                g.remove_node(name)
            ref.remove(name)
        elif op == 'remove_recursive':
            before = set(g.nodemap)
            with sut('remove_node recursively'):
                g.remove_node(name, recursive=True)
            lost = before - set(g.nodemap)
            require(name in lost, '%s: the node is still there', what)
            ref.remove(name)
            for n in sorted(lost - {name}):
                require(not ref.used(n, lost), '%s: node %s is gone though %s is needed', what, n, ref.nodes[n]['outs'])
            for n in lost - {name}:
                ref.remove(n)
        elif op == 'remove_subtree':
            d = ref.descendants(name)
            with sut('remove_subtree'):
                g.remove_subtree(name)
            for n in d:
                ref.remove(n)
        elif op == 'skip':
            if ref.broken:
                continue
            state = ref.skip(name)
            try:
                with sut('skip_node'):
                    g.skip_node(name)
            except Violation:
                if state is not None:
                    raise
            if state is None and name not in g.nodemap:     # not specified: the node may go, the rest must be consistent
                have = set(ref.inputs) | set(ref.weights) | {o for x in g.nodemap.values() for o in x.output}
                for n, x in g.nodemap.items():
                    for t in [t for t in x.input if t] + sorted(captured(x.make_nodeproto())):
                        require(t in have, '%s: node %s reads %s, which is gone', what, n, t)
                raise Skip('unspecified skip')
        elif op == 'shapeops':
            if ref.broken:
                continue
            for n in cur:
                if ref.nodes[n]['op'] in ShapeOps:
                    ref.skip(n)
            with sut('removeShapeOps'):
                r = removeShapeOps(g)
            require(r is g, 'removeShapeOps does not return the graph')
        elif op == 'dangling':
            if ref.broken:
                continue
            keep = ref.live()
            with sut('remove_dangling_nodes'):
                g.remove_dangling_nodes()
            for n in cur:
                if n not in keep:
                    ref.remove(n)
        elif op == 'update':
            with sut('update_tensor_relations'):
                g.update_tensor_relations()
        elif op == 'regraph':
            if ref.broken:
                continue
            with sut('update_graph'):
                g.update_graph()
            need = {t for x in ref.nodes.values() for t in x['ins'] + x['cap']} & set(ref.inputs)
            require(need <= set(g.input) <= set(ref.inputs), '%s: the graph inputs are %s, needed are %s', what, list(g.input), sorted(need))
        elif op == 'unoutput':
            if len(g.output) > 1:       # as when a user takes an output off the list
                o = g.output[b % len(g.output)]
                g.output.remove(o)
                ref.outputs.remove(o)
        gone = gone or len(ref.nodes) < len(cur)
        compare(g, ref, what)
    for n, x in ref.nodes.items():
        p = onnx.NodeProto()
        p.CopyFrom(attrs[n])
        del p.input[:], p.output[:]
        p.input.extend(x['ins'])
        p.output.extend(x['outs'])
        cmp_node(p, g.nodemap[n].make_nodeproto(), 'node %s after editing' % n, names=bool(p.name))
    if ref.outputs and ref.nodes and not ref.broken:
        rspec = dict(spec, nodes=[dict(o, **{'in': ref.nodes[n]['ins'], 'out': ref.nodes[n]['outs']}) for n, o in zip(names, spec['nodes']) if n in ref.nodes])
        rspec['outputs'] = [o for o in ref.outputs]
        feeds = flow.feeds(spec)
        try:
            want = run_ref(build(rspec), feeds)
        except Exception:       # skipped shape changes
            return Info(gone, labels + ['not executable'])
        with scratch() as d:
            f = os.path.join(d, 'o.onnx')
            with sut('saving'):
                m.save_model(f, no_shape=True)
            saved = onnx.load(f)
            for o in saved.graph.output:
                o.ClearField('type')
            require([o.name for o in saved.graph.output] == ref.outputs, 'outputs of the saved model are %s, expected %s', [o.name for o in saved.graph.output], ref.outputs)
            got = run_ref(saved, feed(saved, feeds))
        for o, x, y in zip(ref.outputs, want, got):
            require(same(x, y), 'output %s of the edited model has wrong values', o)
    return Info(gone, labels)


EDITS = ['add_initial', 'add_dynamic', 'remove_node', 'remove_recursive', 'remove_subtree', 'skip', 'skip', 'skip', 'skip', 'shapeops', 'dangling', 'update', 'regraph', 'unoutput']


@st.composite
def cases(draw):
    g = draw(flow.flows(n=(2, 12), copies=draw(st.integers(0, 3)) == 0, names=('all', 'all', 'some'), ops=flow.MORE))
    kinds = draw(st.sampled_from([EDITS, ['skip'], ['skip', 'dangling', 'unoutput', 'shapeops'], ['remove_recursive', 'remove_node', 'update'], ['skip', 'regraph', 'dangling'], ['unoutput', 'dangling', 'skip', 'remove_subtree']]))
    return dict(g=g, fold=draw(st.booleans()), edits=draw(st.lists(st.tuples(st.sampled_from(kinds), st.integers(0, 30), st.integers(0, 30)), min_size=1, max_size=8)))


def check_dangling(case):
    """whole operator models, control flow included, from which outputs are taken"""
    c = case['g']
    model = gen.model_of(c)
    m2 = onnx.ModelProto()
    m2.CopyFrom(model)
    outs = list(m2.graph.output)
    keep = [o for i, o in enumerate(outs) if case['keep'] >> i & 1] or outs[:1]
    del m2.graph.output[:]
    m2.graph.output.extend(keep)
    with sut('loading'):
        m = onnx_tool.Model(m2, {'verbose': False})
        g = m.graph
        names = list(g.nodemap)
        g.remove_dangling_nodes()
    prod = {o: i for i, n in enumerate(m2.graph.node) for o in n.output if o}
    live, todo = set(), [o.name for o in keep]
    while todo:
        t = todo.pop()
        i = prod.get(t)
        if i is None or i in live:
            continue
        live.add(i)
        todo += list(m2.graph.node[i].input) + sorted(captured(m2.graph.node[i]))
    want = [n for i, n in enumerate(names) if i in live]
    require(list(g.nodemap) == want, 'nodes left are %s, those that reach an output are %s', list(g.nodemap), want)
    require(list(g.output) == [o.name for o in keep], 'the graph outputs changed to %s', list(g.output))
    records(g, 'after removing dangling nodes')
    for i, n in enumerate(names):
        if i in live:
            cmp_node(m2.graph.node[i], g.nodemap[n].make_nodeproto(), 'node %s' % n, names=bool(m2.graph.node[i].name))
    if want:
        feeds = gen.feeds_of(c, 0)
        ref = gen.ref_ok(m2, feeds)
        with scratch() as d:
            f = os.path.join(d, 'o.onnx')
            with sut('saving'):
                m.save_model(f)
            saved = onnx.load(f)
            got = run_ref(saved, {i.name: feeds[i.name] for i in saved.graph.input if i.name in feeds})
        for o, x, y in zip(keep, ref, got):
            require(same(x, y), 'output %s has wrong values after removing dangling nodes', o.name)
    return Info(len(want) < len(names), ['removed' if len(want) < len(names) else 'all live'])


@st.composite
def dangling_cases(draw):
    g = gen.graph(draw, {'n': (3, 10)})
    return dict(g=g, keep=draw(st.sampled_from([1, 2, 3, 5, 6])))


SUBS = [Sub('edit', cases, check, 12000, 150000), Sub('dangling', dangling_cases, check_dangling, 5000, 60000)]
