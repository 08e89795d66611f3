"""C29: fixing a branch or a top-k keeps the remaining semantics."""
import os
from hypothesis import strategies as st
from ..core import *
from ..om import *
from .. import gen
from . import c03, c06
import onnx_tool

PROPERTY = 'C29'
TECHNIQUE = 'property-based testing: generated models with (nested) conditionals and top-k nodes, differential execution against the original with every condition and every k overridden'
LEVEL_NOTE = 'random search over generated graphs of up to about 25 nodes; trusts onnx.checker and the ReferenceEvaluator'
RULE = ('A case is a generated model with If nodes (nested, several outputs, captured tensors, branch weights, unnamed nodes, tensor names shared by sibling branches, shared or data-dependent conditions) and TopK nodes '
        '(k a weight, a constant, an input or computed, shared with other nodes). The model loaded with a fixed branch and/or k is saved: it has no If left, every TopK reads exactly k, the other nodes are unchanged, it is valid, and '
        'it computes the same outputs as the original whose conditions select the branch and whose k is overridden; shape inference gives the executed shapes. Non-trivial: an If or a TopK was rewritten.')
ASSUMPTIONS = ['nodes that only compute a condition or a k may stay or go', 'conditionals inside Loop and Scan bodies are not generated', 'k does not exceed the dimension']


def force(model, branch, k):
    m = onnx.ModelProto(); m.CopyFrom(model)

    def walk(g):
        for n in g.node:
            if n.op_type == 'If' and branch:
                n.input[0] = '__cond'
            if n.op_type == 'TopK' and k:
                n.input[1] = '__k'
            for a in n.attribute:
                if a.type == onnx.AttributeProto.GRAPH:
                    walk(a.g)
    walk(m.graph)
    m.graph.initializer.append(onnx.numpy_helper.from_array(np.array(branch == 'then'), '__cond'))
    m.graph.initializer.append(onnx.numpy_helper.from_array(np.array([k or 1], np.int64), '__k'))
    return m


def has(graph, op):
    return any(n.op_type == op or any(a.type == onnx.AttributeProto.GRAPH and has(a.g, op) for a in n.attribute) for n in graph.node)


def count(graph, op, branch, free=()):
    """nodes of the type which are executed at top level when the branch is inlined"""
    r = 0
    for n in graph.node:
        r += n.op_type == op and not any(o in free for o in n.output)
        if n.op_type == 'If' and branch:
            r += count([a.g for a in n.attribute if a.name == branch + '_branch'][0], op, branch, free)
    return r


def bodies(n):
    return [a.g for a in n.attribute if a.type == onnx.AttributeProto.GRAPH]


def reads(n):
    r = list(n.input)
    for g in bodies(n):
        for m in g.node:
            r += reads(m)
    return r


def free_of(model, branch, k):
    """tensors whose producers may become dead: they feed a condition, a k or a discarded branch"""
    prod, start = {}, []

    def walk(g):
        for n in g.node:
            for o in n.output:
                prod.setdefault(o, []).append(n)
            if n.op_type == 'If' and branch:
                start.append(n.input[0])
                for a in n.attribute:
                    if a.name != branch + '_branch':
                        for m in a.g.node:
                            start.extend(reads(m))
            if n.op_type == 'TopK' and k:
                start.append(n.input[1])
            for b in bodies(n):
                walk(b)
    walk(model.graph)
    seen, todo = set(), start
    while todo:
        t = todo.pop()
        if t in prod and t not in seen:
            seen.add(t)
            for n in prod[t]:
                todo.extend(reads(n))
    return seen


def check(case):
    spec, branch, k = case['spec'], case['branch'], case['k']
    model = build(spec)
    try:
        onnx.checker.check_model(model)
    except Exception as e:
        raise Skip('invalid model: %s' % str(e)[:60])
    feeds = gen.feeds_of(case['g'], 0) if 'g' in case else {n: arr(dt, d, case['seeds'][n]) for n, dt, d in spec['inputs']}
    forced = force(model, branch, k)
    free = free_of(model, branch, k)
    try:
        vals = all_tensors(forced, feeds)
        ref = run_ref(forced, feeds)
    except Exception as e:
        raise Skip('the reference evaluator cannot run the generated model')
    cfg = dict(verbose=False, if_fixed_branch=branch, fixed_topk=k or 0, constant_folding=case['fold'], node_rename=case['rename'])
    src = onnx.ModelProto(); src.CopyFrom(model)
    if case['fold']:
        with sut('loading'):
            try:
                if not onnx_tool.Model(src, cfg).graph.nodemap:
                    return Info(False, ['folded to nothing'])
            except NotImplementedError:
                raise Skip('folding refused: an operator has no value evaluation')
        src = onnx.ModelProto(); src.CopyFrom(model)
    saved = c06.roundtrip(src, case['file'], cfg)
    check_valid(saved)
    if branch:
        require(not has(saved.graph, 'If'), 'a conditional node is left')
    got = gen.ref_outputs(saved, {i.name: feeds[i.name] for i in saved.graph.input if i.name in feeds}, 'saved model')
    require([o.name for o in saved.graph.output] == [o.name for o in model.graph.output], 'the outputs are %s, were %s', [o.name for o in saved.graph.output], [o.name for o in model.graph.output])
    for o, a, b in zip(model.graph.output, ref, got):
        require(bits_equal(a, b), 'output %s differs: %s, must be %s', o.name, str(b)[:80], str(a)[:80])
    if k:
        vs = all_tensors(saved, feed(saved, feeds))
        n = 0
        for t in saved.graph.node:
            if t.op_type == 'TopK':
                n += 1
                require(vs[t.input[1]].tolist() == [k] and vs[t.input[1]].dtype == np.int64, 'a TopK node reads k = %s, fixed to %d', vs[t.input[1]], k)
        lo, hi = count(model.graph, 'TopK', branch, free), count(model.graph, 'TopK', branch)
        require(n <= hi and (n >= lo or case['fold']), '%d TopK nodes are left of %d', n, lo)
    if not case['fold']:
        new = {o: x for x in saved.graph.node for o in x.output if o}
        for x in model.graph.node:
            if x.op_type == 'If' and branch or any(o in free for o in x.output):
                continue
            require(all(o in new for o in x.output if o), 'the node %s producing %s is missing', x.op_type, list(x.output))
            first = next(o for o in x.output if o)
            y = new[first]
            a, b = onnx.NodeProto(), onnx.NodeProto()
            a.CopyFrom(x); b.CopyFrom(y)
            if k and x.op_type == 'TopK':
                b.input[1] = a.input[1]
            c06.cmp_node(a, b, 'node producing %s' % first, False)
    with sut('loading'):
        src = onnx.ModelProto(); src.CopyFrom(model)
        g = onnx_tool.Model(src, cfg).graph
    with sut('inferring shapes'):
        g.shape_infer({n: v for n, v in feeds.items()} if case['feed'] else {n: np.zeros_like(v) if v.dtype == np.float32 else v for n, v in feeds.items()})
        g.profile()
    c03.compare(g, {n: v for n, v in vals.items() if n in g.tensormap}, 'shape inference')
    for o, r in zip(model.graph.output, ref):
        require(list(g.tensormap[o.name].get_shape()) == list(r.shape), 'output %s inferred %s, executed %s', o.name, g.tensormap[o.name].get_shape(), r.shape)
    return Info(bool(branch) and has(model.graph, 'If') or bool(k) and has(model.graph, 'TopK'), case['labels'])


class B:
    def __init__(self, draw):
        self.draw, self.cnt, self.inputs, self.inits, self.seeds, self.labels = draw, 0, [], [], {}, set()
        self.conds, self.ks, self.ncnt = [], [], 0

    def i(self, a, b):
        return self.draw(st.integers(a, b))

    def pick(self, l):
        return self.draw(st.sampled_from(list(l)))

    def flip(self, n=2):
        return self.pick(range(n)) == n - 1


class Body:
    def __init__(self, b, level, style, outer):
        self.b, self.level, self.style, self.nodes, self.inits, self.cnt = b, level, style, [], [], 0
        self.avail = list(outer)  # f32 [2, 6] tensors
        self.own = []
        self.conds = []

    def name(self):
        if self.level == 0 or self.style == 'unique':
            self.b.cnt += 1
            return 't%d' % self.b.cnt
        self.cnt += 1
        if self.style == 'suffix':      # as a tensor of another body may be called when it is renamed
            return 'd1_%d_1' % self.cnt
        return 'd%d_%d' % (self.level, self.cnt)

    def add(self, op, ins, attrs=None, nout=1, outs=None):
        outs = outs or [self.name() for _ in range(nout)]
        self.b.ncnt += 1
        nm = self.b.pick(['', 'node%d' % self.b.ncnt, 'n%d' % len(self.nodes), '%s_%d' % (op, len(self.nodes))])
        if self.level == 0 and any(nm == n['name'] for n in self.nodes):
            nm = ''
        self.nodes.append({'op': op, 'name': nm, 'in': list(ins), 'out': outs, 'attrs': attrs or {}})
        return outs[0] if nout == 1 else outs

    def weight(self, dt, shape, vals):
        n = self.name()
        if self.b.flip(3):
            self.add('Constant', [], {'value': {'tensor': [dt, shape, {'v': vals}]}}, outs=[n])
        elif self.level and self.b.flip():
            self.inits.append([n, dt, shape, {'v': vals}])
        else:
            if self.level:
                self.b.cnt += 1
                n = 't%d' % self.b.cnt
            self.b.inits.append([n, dt, shape, {'v': vals}])
        return n

    def new(self, t):
        self.avail.append(t)
        self.own.append(t)

    def cond(self, outer):
        b = self.b
        k = b.i(0, 6)
        if k == 0 and (outer or self.conds):
            return b.pick(outer + self.conds)
        if k == 1 or self.level and k == 0:
            n = 'cond%d' % len(b.inputs)
            b.inputs.append([n, 'bool', []])
            b.seeds[n] = {'v': [b.i(0, 1)]}
            c = n
        elif k == 2:
            c = self.weight('bool', [], [b.i(0, 1)])
        elif k == 3 and (outer or self.conds):
            c = self.add('Not', [b.pick(outer + self.conds)])
        elif k == 4:
            s = self.add('Shape', [b.pick(self.avail)])
            d = self.add('Gather', [s, self.weight('i64', [], [1])])
            c = self.add('Equal', [d, self.weight('i64', [], [b.pick([6, 7])])])
        else:
            r = self.add('ReduceMax', [b.pick(self.avail)], {'keepdims': 0})
            c = self.add('Greater', [r, self.weight('f32', [], [b.pick([0.0, 9.0])])])
            if b.flip(4):
                c = self.add('And', [c, self.add('Less', [r, self.weight('f32', [], [5.0])])])
        self.conds.append(c)
        if b.flip(5):  # the condition is read by something else, too
            f = self.add('Cast', [c], {'to': 1})
            self.new(self.add('Add', [b.pick(self.avail), f]))
        return c

    def topk(self):
        b = self.b
        x = b.pick(self.avail)
        how = b.i(0, 5)
        if how == 0 and b.ks:
            k = b.pick(b.ks)
        elif how == 1 and self.level == 0:
            k = 'k_in%d' % len(b.inputs)
            b.inputs.append([k, 'i64', [1]])
            b.seeds[k] = {'v': [b.i(1, 6)]}
        elif how == 2:
            s = self.add('Shape', [x])
            d = self.add('Gather', [s, self.weight('i64', [1], [1])])
            k = self.add('Min', [d, self.weight('i64', [1], [b.i(1, 6)])])
        elif how == 3:
            k = self.add('Identity', [self.weight('i64', [1], [b.i(1, 6)])])
        else:
            k = self.weight('i64', [1], [b.i(1, 6)])
        if self.level == 0:
            b.ks.append(k)
            if b.flip(5):  # k is read by something else
                self.new(self.add('Add', [b.pick(self.avail), self.add('Cast', [k], {'to': 1})]))
        v, ix = self.add('TopK', [x, k], b.pick([{}, {'axis': -1}, {'axis': 1, 'largest': 0}]), 2)
        self.b.labels.add('topk')
        if b.flip(3):
            v = self.add('Mul', [v, self.add('Cast', [ix], {'to': 1})])
        ax = self.weight('i64', [1], [1])
        self.new(self.add('Add', [self.add('ReduceSum', [v, ax], {'keepdims': 1}), b.pick(self.avail)]))

    def branch(self, nout, conds):
        b = self.b
        body = Body(b, self.level + 1, b.pick(['unique', 'level', 'level'] + ['suffix'] * 2 * (self.level == 1)), self.avail)
        body.fill(b.i(0, 3), conds, True)
        outs = []
        for _ in range(nout):
            k = b.i(0, 7)
            cands = [t for t in body.own if t not in outs]
            if k == 0:
                outs.append(body.add('Identity', [b.pick(self.avail)]))
                self.b.labels.add('outer output')
            elif k == 1:
                n = body.name()
                body.inits.append([n, 'f32', [2, 6], {'seed': b.i(0, 99), 'lo': -3, 'hi': 3, 'q': 4}])
                outs.append(n)
                self.b.labels.add('weight output')
            elif k == 2 and outs:
                outs.append(b.pick(outs))
                self.b.labels.add('output twice')
            elif cands and k < 7:
                outs.append(b.pick(cands))
            else:
                t = body.add(b.pick(['Identity', 'Neg']), [b.pick(body.avail)])
                outs.append(t)
        return {'graph': {'nodes': body.nodes, 'inputs': [], 'outputs': [[o, 'f32', [2, 6]] for o in outs], 'inits': body.inits, 'gname': 'body'}}

    def iff(self, outer):
        b = self.b
        c = self.cond(outer)
        nout = b.pick([1, 1, 2])
        conds = outer + self.conds
        th, el = self.branch(nout, conds), self.branch(nout, conds)
        outs = [self.name() for _ in range(nout)]
        self.add('If', [c], {'then_branch': th, 'else_branch': el}, nout, outs)
        b.labels.add('if%d' % self.level)
        for o in outs:
            self.new(o)

    def fill(self, n, outer=(), inner=False):
        b = self.b
        for _ in range(n):
            k = b.i(0, 9)
            if k <= 2:
                self.new(self.add(b.pick(['Relu', 'Neg', 'Tanh', 'Identity']), [b.pick(self.avail)]))
            elif k <= 4:
                y = b.pick(self.avail) if b.flip() else self.weight('f32', b.pick([[], [6]]), None)
                self.new(self.add(b.pick(['Add', 'Mul', 'Sub']), [b.pick(self.avail), y]))
            elif k <= 5 and self.b.topks:
                self.topk()
            elif k <= 8 and self.level < 2 and self.b.ifs:
                self.iff(list(outer))
            else:
                self.new(self.add('Sum', [b.pick(self.avail) for _ in range(b.i(1, 3))]))


_weight = Body.weight


def weight(self, dt, shape, vals):
    if vals is None:
        n = 6 if shape else 1
        s = self.b.i(0, 99)
        vals = [((s + 7 * j) % 13 - 6) / 4 for j in range(n)]
    return _weight(self, dt, shape, vals)


Body.weight = weight


@st.composite
def cases(draw, ifs=True, topks=True):
    b = B(draw)
    b.ifs, b.topks = ifs, topks
    for i in range(b.i(1, 2)):
        b.inputs.append(['x%d' % i, 'f32', [2, 6]])
        b.seeds['x%d' % i] = {'seed': b.i(0, 999), 'lo': -3, 'hi': 3, 'q': 4}
    top = Body(b, 0, 'unique', [i[0] for i in b.inputs])
    top.fill(b.i(0, 2))
    if ifs:
        top.iff([])
    if topks:
        top.topk()
    top.fill(b.i(0, 3))
    outs = [top.own[-1]] + [t for t in top.own[:-1] if b.flip(5)]
    outputs = [[o, 'f32', [2, 6]] for o in dict.fromkeys(outs)]
    if top.conds and b.flip(6):
        c = b.pick(top.conds)
        if any(c in n['out'] for n in top.nodes):
            outputs.append([c, 'bool', []])
    branch = b.pick(['then', 'else']) if ifs else None
    k = b.i(1, 6) if topks and b.flip() or not ifs else None
    spec = dict(inputs=b.inputs, outputs=outputs, nodes=top.nodes, inits=b.inits, opset=b.pick([13, 17, 18]))
    if spec['opset'] < 13:
        raise AssertionError
    return dict(spec=spec, seeds=b.seeds, branch=branch, k=k, fold=b.flip(3), rename=b.flip(4), file=b.flip(), feed=b.flip(), labels=sorted(b.labels))


@st.composite
def graph_cases(draw):
    g = gen.graph(draw, {'forms': ['old', 'over'], 'n': (1, 6), 'K': 1, 'const_out': True, 'blocks': ['if'] * 6 + ['ew', 'nn', 'move', 'shape', 'mm', 'red', 'multi', 'pass', 'side']})
    return dict(g=g, spec=g['spec'], branch=draw(st.sampled_from(['then', 'else'])), k=None, fold=draw(st.integers(0, 2)) == 2, rename=draw(st.booleans()), file=draw(st.booleans()), feed=draw(st.booleans()),
                labels=g['meta']['blocks'])


SUBS = [Sub('graphs', graph_cases, check, 3000, 40000), Sub('branch', lambda: cases(True, False), check, 3000, 40000), Sub('topk', lambda: cases(False, True), check, 2000, 25000), Sub('both', lambda: cases(True, True), check, 3000, 40000)]
