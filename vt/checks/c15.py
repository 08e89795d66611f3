"""C15: pattern search returns exactly the real matches."""
import operator
from hypothesis import strategies as st
from ..core import *
from ..om import *
from .. import flow
import onnx_tool
from onnx_tool.fusion import FusionPattern, create_descs_from_nodenames, createSerialPattern, ConvBN, Conv_Res, Fused_Element, MHAint8_Pattern, layernorm_pattern

PROPERTY = 'C15'
TECHNIQUE = 'property-based testing: generated graphs with replicated and mutated subgraphs and patterns derived from them, oracle = exhaustive backtracking matcher over the pattern definition'
LEVEL_NOTE = 'random search over graphs of up to about 30 nodes and patterns of up to 6 nodes; the oracle enumerates all matches'
RULE = ('A case is a graph with copies and near-copies of a template, and a pattern (explicit descriptions with ports, wildcards, one-sided links, operator lists, Any, '
        'attribute conditions; descriptions created from node names; operator chains). Every returned group must satisfy every condition of the pattern; every occurrence '
        'disjoint from all others must be returned exactly once. Non-trivial: at least one occurrence, or a node that satisfies the first description without an occurrence.')
ASSUMPTIONS = ['an occurrence assigns different nodes to the descriptions; a condition on an attribute the node does not carry fails',
               'with inplace_fusion every described output is read by one node only']
CMP = {'<=': operator.le, '<': operator.lt, '>=': operator.ge, '>': operator.gt, '==': operator.eq}


def cond(desc, node):
    op = desc['op']
    if not (node['op'] in op if isinstance(op, list) else op in ('Any', node['op'])):
        return False
    for e in desc['attrs']:
        v = node['attrs'].get(e[0])
        if v is None:
            if e[0] in onnx.defs.get_schema(node['op'], 17).attributes:
                raise Skip('condition on an attribute left at its default')
            return False
        if len(e) == 4:
            if e[2] >= len(v):
                return False
            v = v[e[2]]
        if isinstance(v, float):
            v = float(np.float32(v))
        if not CMP[e[1]](v, e[-1]):
            return False
    return True


def links_of(descs):
    r = []
    for d in descs:
        for i, other, o in d['inport']:
            r.append((other, o, d['name'], i, False))
        for o, other, i in d['outport']:
            r.append((d['name'], o, other, i, True))
    return r


def linked(nodes, readers, l, a, b, inplace):
    """is some output of node a, at the described port, an input of node b, at the described port"""
    _, o, _, i, outp = l
    for k, t in enumerate(nodes[a]['out']):
        if t and o in (-1, k):
            for m, u in enumerate(nodes[b]['in']):
                if u == t and i in (-1, m) and not (inplace and outp and len(readers[t]) > 1):
                    return True
    return False


def all_matches(nodes, descs, inplace, limit=4000, loose=False):
    """list of tuples of node indices aligned with descs"""
    links = links_of(descs)
    idx = {d['name']: k for k, d in enumerate(descs)}
    readers = {}
    for j, n in enumerate(nodes):
        for t in n['in']:
            readers.setdefault(t, set()).add(j)
    cands = [[j for j, n in enumerate(nodes) if cond(d, n)] for d in descs]
    # order: connected first
    order, seen = [0], {0}
    adj = {k: set() for k in range(len(descs))}
    for l in links:
        adj[idx[l[0]]].add(idx[l[2]])
        adj[idx[l[2]]].add(idx[l[0]])
    while len(order) < len(descs):
        nxt = next((k for k in range(len(descs)) if k not in seen and adj[k] & seen), None)
        if nxt is None and loose:
            nxt = next(k for k in range(len(descs)) if k not in seen)
        if nxt is None:
            raise Skip('pattern is not connected')
        order.append(nxt)
        seen.add(nxt)
    out = []

    def rec(p, asg):
        if len(out) > limit:
            raise Skip('too many matches')
        if p == len(order):
            out.append(tuple(asg[k] for k in range(len(descs))))
            return
        k = order[p]
        for j in cands[k]:
            if j in asg.values():
                continue
            asg[k] = j
            if all(linked(nodes, readers, l, asg[idx[l[0]]], asg[idx[l[2]]], inplace) for l in links
                   if k in (idx[l[0]], idx[l[2]]) and idx[l[0]] in asg and idx[l[2]] in asg):
                rec(p + 1, asg)
            del asg[k]
    rec(0, {})
    return out


def describe(nodes, sel, case):
    """descriptions for the chosen nodes with two-sided links"""
    descs = []
    for n, k in enumerate(sel):
        descs.append(dict(name='d%d' % n, op=nodes[k]['op'], attrs=[], inport=[], outport=[]))
    for b, kb in enumerate(sel):
        for i, t in enumerate(nodes[kb]['in']):
            for a, ka in enumerate(sel):
                if t and a != b and t in nodes[ka]['out']:
                    o = nodes[ka]['out'].index(t)
                    descs[a]['outport'].append([o, 'd%d' % b, i])
                    descs[b]['inport'].append([i, 'd%d' % a, o])
    return descs


def connected(descs):
    adj = {d['name']: set() for d in descs}
    for l in links_of(descs):
        adj[l[0]].add(l[2])
        adj[l[2]].add(l[0])
    seen, todo = set(), [descs[0]['name']]
    while todo:
        k = todo.pop()
        if k not in seen:
            seen.add(k)
            todo += adj[k]
    return len(seen) == len(descs)


def pattern_of(nodes, case):
    """connected set of nodes grown from a start, descriptions, then generalised"""
    N = len(nodes)
    near = {k: [j for j in range(N) if j != k and (set(nodes[j]['in']) & set(nodes[k]['out']) | set(nodes[k]['in']) & set(nodes[j]['out'])) - {''}] for k in range(N)}
    sel = [case['start'] % N]
    for s in case['grow']:
        c = sorted({j for k in sel for j in near[k]} - set(sel))
        if not c:
            break
        sel.append(c[s % len(c)])
    if case['how'] == 'descs':
        return None, sel
    descs = describe(nodes, sel, case)
    for kind, a, b in case['general']:
        d = descs[a % len(descs)]
        n = nodes[sel[a % len(descs)]]
        back = json.dumps(descs)
        if kind == 'any':
            d['op'] = 'Any'
        elif kind == 'list':
            d['op'] = sorted({n['op'], nodes[b % N]['op'], 'Relu'})
        elif kind == 'otherop':
            d['op'] = nodes[b % N]['op']
        elif kind == 'attr':
            at = sorted(k for k in n['attrs'])
            if at:
                v = n['attrs'][at[b % len(at)]]
                e = ['<=', '>=', '==', '<', '>'][b % 5]
                if isinstance(v, list):
                    d['attrs'].append([at[b % len(at)], e, b % len(v) if b % 4 else len(v) + 1, v[b % len(v)] + (b % 3 == 2)])
                else:
                    d['attrs'].append([at[b % len(at)], e, v + (b % 3 == 2)])
            else:
                d['attrs'].append([['alpha', 'group', 'axis'][b % 3], '>=', -1000])
        elif kind in ('wildin', 'wildout', 'wild'):
            for l in d['inport']:
                if kind != 'wildout':
                    l[0] = -1
                if kind == 'wild':
                    l[2] = -1
            for l in d['outport']:
                if kind != 'wildin':
                    l[0] = -1
                if kind == 'wild':
                    l[2] = -1
        elif kind == 'oneside' and (d['inport'] or d['outport']):
            side = 'inport' if d['inport'] and (b % 2 or not d['outport']) else 'outport'
            d[side].pop(b % len(d[side]))
        elif kind == 'dropside':
            d['inport' if b % 2 else 'outport'] = []
        elif kind == 'port' and d['inport']:
            d['inport'][b % len(d['inport'])][0] += 1
        elif kind == 'first':
            descs.insert(0, descs.pop(a % len(descs)))
            sel.insert(0, sel.pop(a % len(sel)))
        if not connected(descs):
            descs = json.loads(back)
    return descs, sel


def check(case):
    spec = flow.make(case['g'])
    model = build(spec)
    nodes = spec['nodes']
    with sut('loading'):
        g = onnx_tool.Model(model, {'verbose': False}).graph
    names = list(g.nodemap)
    require(len(names) == len(nodes), 'nodes lost')
    inplace = case['inplace']
    if case['how'] == 'serial':
        ops, k = [], case['start'] % len(nodes)
        for s in [0] + case['grow']:
            ops.append(nodes[k]['op'])
            nx = [j for j in range(len(nodes)) if set(nodes[j]['in']) & set(nodes[k]['out']) - {''}]
            if not nx:
                break
            k = nx[s % len(nx)]
        descs = [dict(name='d%d' % i, op=o, attrs=[], inport=[[-1, 'd%d' % (i - 1), -1]] if i else [],
                      outport=[[-1, 'd%d' % (i + 1), -1]] if i + 1 < len(ops) else []) for i, o in enumerate(ops)]
        inplace = False
        with sut('createSerialPattern'):
            pat = createSerialPattern(ops)
    else:
        descs, sel = pattern_of(nodes, case)
        if case['how'] == 'descs':
            with sut('create_descs_from_nodenames'):
                pat = FusionPattern(create_descs_from_nodenames(g, [names[k] for k in sel]), inplace)
            descs = describe(nodes, sel, case)
        else:
            with sut('FusionPattern'):
                pat = FusionPattern(json.loads(json.dumps(descs)), inplace)
    want = all_matches(nodes, descs, inplace)
    with sut('search_pattern'):
        res = [list(r) for r in pat.search_pattern(g)]
        if case['twice']:
            again = [list(r) for r in pat.search_pattern(g)]
            require(again == res, 'a second search returns %s instead of %s', again, res)
    pos = {n: i for i, n in enumerate(names)}
    found = []
    ok = set(want)
    for r in res:
        require(len(r) == len(descs) and all(n in pos for n in r), 'group %s does not name %d nodes of the graph', r, len(descs))
        t = tuple(pos[n] for n in r)
        require(t in ok, 'group %s is no occurrence of the pattern %s', [(n, nodes[pos[n]]['op']) for n in r], json.dumps(descs))
        found.append(frozenset(t))
    used = [n for r in res for n in r]
    require(len(used) == len(set(used)), 'groups share nodes: %s', res)
    sets = {frozenset(w) for w in want}
    for s in sets:
        if any(o != s and o & s for o in sets):
            continue
        c = found.count(s)
        require(c == 1, 'the occurrence %s of %s is returned %d times', sorted(names[k] for k in s), json.dumps(descs), c)
    require(all(n in g.nodemap for n in names) and len(g.nodemap) == len(names), 'searching changed the graph')
    near = any(cond(descs[0], n) for n in nodes) and len(descs) > 1
    return Info(bool(want) or near, ['%d' % min(len(sets), 4), case['how'], 'size%d' % len(descs)])


@st.composite
def cases(draw):
    ops = draw(st.sampled_from([None, None, ['Relu', 'Add', 'LeakyRelu', 'Split', 'Concat', 'Mul'], ['Relu', 'Add', 'Mul'], ['Conv', 'BatchNormalization', 'LeakyRelu', 'Add', 'Elu']]))
    g = draw(flow.flows(copies=True, ops=ops))
    kinds = ['any', 'list', 'otherop', 'attr', 'attr', 'wildin', 'wildout', 'wild', 'oneside', 'dropside', 'port', 'first', 'first']
    return dict(g=g, start=draw(st.integers(0, 30)), grow=draw(st.lists(st.integers(0, 4), min_size=0, max_size=4)),
                general=draw(st.lists(st.tuples(st.sampled_from(kinds), st.integers(0, 8), st.integers(0, 20)), max_size=4)),
                how=draw(st.sampled_from(['explicit', 'explicit', 'explicit', 'descs', 'serial'])), inplace=draw(st.sampled_from([False, False, True])),
                twice=draw(st.integers(0, 3)) == 0)


# the patterns which come with the tool, written down from what they are named after: op, then (output port, reader, input port)
SHIPPED = {
    'ConvBN': (ConvBN, [('Conv', [(0, 1, 0)]), ('BatchNormalization', [])]),
    'Conv_Res': (Conv_Res, [('Conv', [(0, 1, 1)]), ('Add', [(0, 2, 0)]), (['Relu', 'LeakyRelu'], [])]),
    'Fused_Element': (Fused_Element, [('Any', [(0, 1, 0)]), (['Relu', 'LeakyRelu', 'Add'], [])]),
    'MHAint8': (MHAint8_Pattern, [('QLinearMatMul', [(0, 1, 0)]), ('DequantizeLinear', [(0, 2, 0)]), ('Div', [(0, 3, 0)]), ('Add', [(0, 4, 0)]),
                                  ('Softmax', [(0, 5, 0)]), ('QuantizeLinear', [(0, 6, 0)]), ('QLinearMatMul', [])]),
    'layernorm': (layernorm_pattern, [('ReduceMean', [(0, 1, 1)]), ('Sub', [(0, 2, 0), (0, 6, 0)]), ('Pow', [(0, 3, 0)]), ('ReduceMean', [(0, 4, 0)]),
                                      ('Add', [(0, 5, 0)]), ('Sqrt', [(0, 6, 1)]), ('Div', [])]),
}
BLOCKS = {
    'ConvBN': [('Conv', 'xw'), ('BatchNormalization', 'Ppppp')],
    'Conv_Res': [('Conv', 'xw'), ('Add', 'yP'), ('Relu', 'P')],
    'Fused_Element': [('Sigmoid', 'x'), ('LeakyRelu', 'P')],
    'MHAint8': [('QLinearMatMul', 'xpzypzpz'), ('DequantizeLinear', 'Ppz'), ('Div', 'Pp'), ('Add', 'Py'), ('Softmax', 'P'), ('QuantizeLinear', 'Ppz'), ('QLinearMatMul', 'Ppzypzpz')],
    'layernorm': [('ReduceMean', 'x'), ('Sub', 'xP'), ('Pow', 'Pp'), ('ReduceMean', 'P'), ('Add', 'Pp'), ('Sqrt', 'P'), ('Div', 'SP')],
}


def ship_nodes(case):
    nodes, tens = [], ['in0', 'in1']
    for kind, muts, x, y in case['blocks']:
        x, y = tens[x % len(tens)], tens[y % len(tens)]
        outs = []
        for k, (op, ins) in enumerate(BLOCKS[kind]):
            names = []
            for c in ins:
                names.append(x if c == 'x' else y if c == 'y' else outs[-1] if c == 'P' else outs[1] if c == 'S' else 'w_' + c)
            for m, at, arg in muts:
                if at % len(BLOCKS[kind]) == k:
                    if m == 'swap':
                        names[0], names[-1] = names[-1], names[0]
                    elif m == 'op':
                        op = ['Relu', 'LeakyRelu', 'Add', 'Elu', 'Conv'][arg % 5]
                    elif m == 'other':
                        names[arg % len(names)] = tens[arg % len(tens)]
                    elif m == 'insert' and outs:
                        t = 't%d' % len(nodes)
                        nodes.append(dict(op='Identity', inp=[names[0]], out=[t]))
                        names[0] = t
            t = 't%d' % len(nodes)
            at = dict(kernel_shape=case['kernel'][k % 2]) if op == 'Conv' else {}
            nodes.append(dict(op=op, inp=names, out=[t], at=at))
            outs.append(t)
        tens += outs
    return nodes


def check_shipped(case):
    nodes = ship_nodes(case)
    order = list(range(len(nodes)))
    if case['mix']:  # interleave the blocks, keeping producers first
        rng = np.random.default_rng(case['mix'])
        left, order, have = set(order), [], {'in0', 'in1'}
        while left:
            ready = sorted(j for j in left if all(t in have or t.startswith('w_') for t in nodes[j]['inp']))
            j = ready[rng.integers(len(ready))]
            left.discard(j)
            order.append(j)
            have.update(nodes[j]['out'])
    nodes = [nodes[j] for j in order]
    used = {t for n in nodes for t in n['inp']}
    h = onnx.helper
    protos = [h.make_node(n['op'], n['inp'], n['out'], name='n%d' % i, **n.get('at', {})) for i, n in enumerate(nodes)]
    graph = h.make_graph(protos, 'g', [h.make_tensor_value_info(t, 1, None) for t in ('in0', 'in1')],
                         [h.make_tensor_value_info(t, 1, None) for n in nodes for t in n['out'] if t not in used],
                         [onnx.numpy_helper.from_array(np.ones([2, 2], np.float32), t) for t in sorted(used) if t.startswith('w_')])
    with sut('loading'):
        g = onnx_tool.Model(h.make_model(graph), {'verbose': False}).graph
    pattern, ops = SHIPPED[case['pattern']]
    descs = [dict(name=str(i), op=op, attrs=[], inport=[], outport=[[o, str(r), i2] for o, r, i2 in links]) for i, (op, links) in enumerate(ops)]
    if case['pattern'] == 'ConvBN':
        descs[0]['attrs'] = [['kernel_shape', c, i, v] for i in (0, 1) for c, v in (('<=', 7), ('>=', 1))]
    ns = [dict(op=n['op'], attrs=n.get('at', {}), **{'in': n['inp'], 'out': n['out']}) for n in nodes]
    want = all_matches(ns, descs, case['inplace'])
    with sut('search_pattern'):
        res = [tuple(int(x[1:]) for x in r) for r in FusionPattern(pattern, case['inplace']).search_pattern(g)]
    for r in res:
        require(r in want, 'group %s is no %s', [(j, nodes[j]['op']) for j in r], case['pattern'])
    used = [n for r in res for n in r]
    require(len(used) == len(set(used)), 'groups share nodes: %s', res)
    sets = {frozenset(w) for w in want}
    for s in sets:
        if not any(o != s and o & s for o in sets):
            c = [frozenset(r) for r in res].count(s)
            require(c == 1, 'the %s of nodes %s is returned %d times', case['pattern'], sorted(s), c)
    return Info(bool(want), [case['pattern'], '%d' % min(len(sets), 4)])


@st.composite
def ship_cases(draw):
    pattern = draw(st.sampled_from(sorted(SHIPPED)))
    n = draw(st.integers(1, 4))
    blocks = []
    for k in range(n):
        kind = pattern if k == 0 else draw(st.sampled_from([pattern, pattern] + sorted(SHIPPED)))
        muts = []
        if draw(st.integers(0, 2)) == 1:
            muts = draw(st.lists(st.tuples(st.sampled_from(['swap', 'op', 'other', 'insert']), st.integers(0, 6), st.integers(0, 9)), min_size=1, max_size=2))
        blocks.append((kind, muts, draw(st.integers(0, 40)), draw(st.integers(0, 40))))
    ks = st.sampled_from([[1, 1], [3, 3], [7, 7], [1, 7], [5, 3], [8, 3], [3, 8], [9, 9]])
    return dict(pattern=pattern, blocks=blocks, kernel=[draw(ks), draw(ks)], mix=draw(st.integers(0, 3)), inplace=draw(st.sampled_from([False, False, True])))


SUBS = [Sub('search', cases, check, 18000, 200000),
        Sub('shipped', ship_cases, check_shipped, 4000, 60000)]
