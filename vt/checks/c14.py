"""C14: printed, text and CSV reports show exactly the profiled figures of the nodes that are not excluded."""
import contextlib, csv, io, os
from fractions import Fraction
from hypothesis import strategies as st
from ..core import *
from ..om import *
from .. import gen, cost
import numpy as np
from onnx import helper, numpy_helper
import onnx_tool

PROPERTY = 'C14'
TECHNIQUE = 'stateful property-based testing: generated models, exclusion lists and sequences of report calls, oracle = rows and totals computed from a separately loaded and fully profiled copy (and from the independent cost model for huge shapes)'
LEVEL_NOTE = 'random search over models, exclusions, metrics, formats and call sequences; node names contain commas and quotes but no newlines or outer blanks'
RULE = ('A case is a generated model, an assignment of its dimensions and a sequence of calls: profile with exclusions, report to stdout, text or CSV with '
        'metric and exclusions, model_profile with hidden and excluded operators. Every report is parsed back and must have exactly one row per expected '
        'node, in graph order, with the figures of a separately profiled copy, shares of the totals and a total row equal to the sums of the rows. '
        'Non-trivial: at least one report with 2 rows.')
ASSUMPTIONS = ['the rows of a report are the nodes of the last profile call minus those excluded in the report call', 'a scalar shape is shown as 0']

SP = {'FLOPs': 2, 'MACs': 1}


def parse(text, fmt):
    if fmt == 'csv':
        rows = list(csv.reader(io.StringIO(text)))
        return rows[0], rows[1:]
    lines = text.rstrip('\n').split('\n')
    rule = [i for i, l in enumerate(lines) if l.startswith('---')]
    require(len(rule) == 1, 'the report is not one table: %s', text[:300])
    r = rule[0]
    cols = []
    p = 0
    for w in lines[r].split('  '):
        cols.append((p, p + len(w)))
        p += len(w) + 2
    body = [[l[a:b].strip() for a, b in cols] for l in [lines[r - 1]] + lines[r + 1:]]
    return body[0], body[1:]


def num(s):
    t = s.replace(',', '')
    require(t.isdigit(), 'figure %r is not a number', s)
    return int(t)


def check_report(what, text, fmt, metric, want, dedup, zeros=None):
    """want: list of (name, op, macs, memory, params, inshape, outshape)"""
    f = SP[metric]
    head, rows = parse(text, fmt)
    need = ['Name', 'Type', 'Forward_' + metric, 'FPercent', 'Memory', 'MPercent', 'Params', 'PPercent', 'InShape', 'OutShape']
    require([h for h in head if not h.startswith('Sparse')] == need, '%s: columns %s', what, head)
    for r in rows:
        require(len(r) == len(head), '%s: row %s has %d fields, the header %d', what, r, len(r), len(head))
    rows = [dict(zip(head, r)) for r in rows]
    extra = [r for r in rows if r['Name'] == 'Dedup_Params' and r['Type'] == '_']
    if zeros is not None:
        # the columns of models with sparse weights
        top = max(zeros.values(), default=0)
        has = any(h.startswith('Sparse') for h in head)
        require(has or top < 0.45, '%s: no columns for sparse weights, a weight has %.1f%% zeros', what, top * 100)
        require(not has or top > 0.35, '%s: columns for sparse weights, but at most %.1f%% of a weight are zeros', what, top * 100)
        if has:
            for r in rows:
                if r['Name'] in zeros and r['Type'] != '_':
                    require(r['Sparse Ratio'].endswith('%') and abs(float(r['Sparse Ratio'][:-1]) - zeros[r['Name']] * 100) < 0.006, '%s: %s shows %s zeros, its weight has %.3f%%',
                            what, r['Name'], r['Sparse Ratio'], zeros[r['Name']] * 100)
    tot = [r for r in rows if r['Name'] == 'Total' and r['Type'] == '_']
    body = [r for r in rows if r['Type'] != '_']
    require([r['Name'] for r in body] == [w[0] for w in want], '%s: lists nodes %s, expected %s', what, [r['Name'] for r in body], [w[0] for w in want])
    require(len(tot) == 1, '%s: %d total rows', what, len(tot))
    sums = [sum(w[i] for w in want) for i in (2, 3, 4)]
    got = [num(tot[0]['Forward_' + metric]), num(tot[0]['Memory']), num(tot[0]['Params'])]
    exp = [sums[0] * f, sums[1], sums[2]]
    require(got == exp, '%s: totals (%s, memory, parameters) %s, the listed nodes sum to %s', what, metric, got, exp)
    for r, w in zip(body, want):
        require(r['Type'] == w[1], '%s: node %s shown as %s', what, w[1], r['Type'])
        got = [num(r['Forward_' + metric]), num(r['Memory']), num(r['Params'])]
        exp = [w[2] * f, w[3], w[4]]
        require(got == exp, '%s: %s %s shows (%s, memory, parameters) %s, profiled %s', what, w[1], w[0], metric, got, exp)
        for col, v, s in (('FPercent', w[2], sums[0]), ('MPercent', w[3], sums[1]), ('PPercent', w[4], sums[2])):
            share = Fraction(v, s) if s else Fraction(0)
            t = r[col]
            require(t.endswith('%'), '%s: %s %r', what, col, t)
            require(abs(Fraction(t[:-1]) - share * 100) <= Fraction(51, 10000), '%s: %s of %s is %s, its share is %s%%', what, col, w[0], t, float(share * 100))
        sh = ['x'.join(str(d) for d in (x or [0])) for x in (w[5], w[6])]
        require([r['InShape'], r['OutShape']] == sh, '%s: shapes of %s shown as %s, they are %s', what, w[0], [r['InShape'], r['OutShape']], sh)
    if dedup is not None:
        if dedup != sums[2]:
            require(len(extra) == 1 and num(extra[0]['Params']) == dedup, '%s: deduplicated parameters shown as %s, they are %s', what, [e['Params'] for e in extra], dedup)
        else:
            require(not extra, '%s: shows deduplicated parameters although no weight is shared', what)


def dedup_of(g, names):
    used = {i for n in names for i in g.nodemap[n].input}
    return sum(cost.vol(g.tensormap[i].get_shape()) for i in set(g.initials) if i in used)


def rows_of(g, names):
    return [(n, g.nodemap[n].op_type, int(g.nodemap[n].macs), int(g.nodemap[n].memory), int(g.nodemap[n].params), list(g.tensormap[g.nodemap[n].input[0]].get_shape()) if g.nodemap[n].input else [],
             list(g.tensormap[g.nodemap[n].output[0]].get_shape())) for n in names]


def report(call, fmt, d):
    if fmt == 'stdout':
        so = io.StringIO()
        with contextlib.redirect_stdout(so):
            call(None)
        t = so.getvalue()
        i = t.find('Name')
        # a note about shared weights precedes the table
        while i > 0 and t[i - 1] != '\n':
            i = t.find('Name', i + 1)
        return t[i:], 'txt'
    f = os.path.join(d, 'r.' + fmt)
    with contextlib.redirect_stdout(io.StringIO()):
        call(f)
    require(os.path.exists(f), 'no report file was written')
    with open(f, newline='') as h:
        t = h.read()
    os.unlink(f)
    return t, fmt


def check(case):
    zeros = None
    if 'net' in case:
        model, zeros = sparse_model(case['net'])
        ins = {}
    else:
        model = gen.model_of(case['g'])
        ins = gen.shapes_in(case['g'], case['k'])
    for i, n in enumerate(model.graph.node):
        if case['names'].get(str(i)):
            n.name = case['names'][str(i)] + str(i)
    cfg = {'verbose': False}
    with sut('load, infer and profile'):
        full = onnx_tool.Model(model, cfg).graph
        full.shape_infer(ins)
        full.profile()
        ordered = onnx_tool.Model(model, cfg).graph
        ordered.graph_reorder_nodes()
        ordered.shape_infer(ins)
        ordered.profile()
        m = onnx_tool.Model(model, cfg)
        m.graph.shape_infer(ins)
    covered = None
    most = 0
    labels = []
    with scratch() as d:
        for i, s in enumerate(case['steps']):
            what = 'call %d (%s)' % (i, s['op'])
            ex = set(s['ex'])
            exarg = {'list': list, 'set': set, 'tuple': tuple}[s['kind']](s['ex'])
            if s['op'] == 'profile':
                with sut(what):
                    m.graph.profile(exclude_ops=exarg or None)
                covered = [n for n in full.nodemap if full.nodemap[n].op_type not in ex]
                continue
            if s['op'] == 'print':
                if covered is None:
                    continue
                want = [n for n in covered if full.nodemap[n].op_type not in ex]
                with sut(what):
                    t, f = report(lambda p: m.graph.print_node_map(p, metric=s['metric'], exclude_ops=exarg or None), s['fmt'], d)
                check_report(what, t, f, s['metric'], rows_of(full, want), dedup_of(full, want), zeros)
            else:
                kw = {}
                hide = set(HIDDEN)
                if s['hide'] is not None:
                    kw['hidden_ops'] = {'list': list, 'set': set, 'tuple': tuple}[s['kind']](s['hide'])
                    hide = set(s['hide'])
                if s['ex']:
                    kw['exclude_ops'] = exarg
                    hide |= ex
                want = [n for n in ordered.nodemap if ordered.nodemap[n].op_type not in hide]
                with sut(what):
                    t, f = report(lambda p: onnx_tool.model_profile(model, ins, save_profile=p, mcfg=dict(cfg), **kw), s['fmt'], d)
                check_report(what, t, f, 'MACs', rows_of(ordered, want), dedup_of(ordered, want), zeros)
            most = max(most, len(want))
            labels.append(s['op'] + ' ' + s['fmt'])
    return Info(most >= 2, labels)


HIDDEN = ['Identity', 'Constant', 'Shape', 'Squeeze', 'Unsqueeze', 'Reshape', 'ConstantOfShape', 'Cast', 'Pad', 'Concat', 'Slice', 'Gather']


@st.composite
def cases(draw):
    g = gen.graph(draw, {'n': (3, 8)})
    present = sorted({n['op'] for n in g['spec']['nodes'] if not n.get('domain')})
    ops = st.lists(st.sampled_from(present + present + ['Conv', 'Relu', 'Reshape']), max_size=3, unique=True)
    steps = history(draw, ops)
    names = {}
    if draw(st.integers(0, 2)) == 0:
        for i in range(len(g['spec']['nodes'])):
            names[str(i)] = draw(st.sampled_from(['a,b', 'q"t', 'm/x.y:', '1.', '12', 'Total', 'x y', "'s", '']))
    return dict(g=g, k=draw(st.integers(0, 1)), steps=steps, names=names)


def history(draw, ops):
    steps = [dict(op='profile', ex=draw(ops), kind=draw(st.sampled_from(['list', 'set', 'tuple'])))]
    for _ in range(draw(st.integers(1, 5))):
        steps.append(dict(op=draw(st.sampled_from(['profile', 'print', 'print', 'print', 'model_profile'])), ex=draw(ops), kind=draw(st.sampled_from(['list', 'set', 'tuple'])),
                          metric=draw(st.sampled_from(['MACs', 'FLOPs'])), fmt=draw(st.sampled_from(['csv', 'txt', 'stdout'])),
                          hide=draw(st.one_of(st.none(), ops))))
    return steps


# ---------------------------------------------------------------- sparse weights
@st.composite
def sparse_cases(draw):
    i = lambda a, b: draw(st.integers(a, b))
    D = draw(st.sampled_from([66, 80, 68]))
    ws = [[i(0, 99), draw(st.sampled_from([0, 20, 48, 50, 75, 90])), draw(st.sampled_from([1, 1, 2]))] for _ in range(i(1, 3))]
    nodes = [[draw(st.sampled_from(['MatMul', 'MatMul', 'Gemm', 'Relu', 'Add'])), i(0, 2)] for _ in range(i(2, 7))]
    ops = st.lists(st.sampled_from(['MatMul', 'Gemm', 'Relu', 'Add', 'Conv']), max_size=2, unique=True)
    return dict(net=dict(D=D, B=i(1, 3), ws=ws, nodes=nodes), steps=history(draw, ops), names={})


def sparse_model(net):
    D = net['D']
    ws = []
    for seed, pct, blk in net['ws']:
        r = np.random.default_rng(seed)
        w = r.integers(1, 9, (D, D)).astype(np.float32)
        keep = np.repeat(np.repeat(r.permutation((D // blk) ** 2).reshape(D // blk, -1) >= round(pct / 100 * (D // blk) ** 2), blk, 0), blk, 1)
        ws.append(w * keep)
    nodes, cur, zeros, used = [], 'x', {}, set()
    for k, (op, j) in enumerate(net['nodes']):
        j %= len(ws)
        ins = [cur] + (['w%d' % j] if op in ('MatMul', 'Gemm') else ['b'] if op == 'Add' else [])
        used.update(ins[1:])
        nodes.append(helper.make_node(op, ins, ['t%d' % k], name='n%d' % k))
        zeros['n%d' % k] = float((ws[j] == 0).mean()) if op in ('MatMul', 'Gemm') else 0.0
        cur = 't%d' % k
    init = [numpy_helper.from_array(w, 'w%d' % j) for j, w in enumerate(ws) if 'w%d' % j in used] + [numpy_helper.from_array(np.ones(D, np.float32), 'b')] * ('b' in used)
    vi = lambda n: helper.make_tensor_value_info(n, 1, [net['B'], D])
    return helper.make_model(helper.make_graph(nodes, 'g', [vi('x')], [vi(cur)], init), opset_imports=[helper.make_opsetid('', 13)], ir_version=8), zeros


def check_big(case):
    """statically shaped chains with huge figures: exact integers expected"""
    dims = case['dims']
    nodes, vals = [], {}
    cur = 'x0'
    sh = list(dims)
    inputs = [['x0', 'f32', sh]]
    vals['x0'] = sh
    for i, n in enumerate(case['chain']):
        o = 't%d' % i
        if n['op'] == 'MatMul':
            w = sh[:-2] * n['batch'] + [sh[-1], n['n']]
            inputs.append(['w%d' % i, 'f32', w])
            nodes.append(dict(op='MatMul', **{'in': [cur, 'w%d' % i]}, out=[o], attrs={}, name='n%d' % i))
            vals['w%d' % i] = w
            sh = sh[:-1] + [n['n']]
        else:
            nodes.append(dict(op=n['op'], **{'in': [cur]}, out=[o], attrs={}, name='n%d' % i))
        vals[o] = sh
        cur = o
    model = build(dict(nodes=nodes, inputs=inputs, inits=[], outputs=[[cur, 'f32', sh]], opset=17))
    with sut('load, infer and profile'):
        m = onnx_tool.Model(model, {'verbose': False})
        m.graph.shape_infer()
        m.graph.profile()
    want = []
    for n in nodes:
        o = vals[n['out'][0]]
        want.append((n['name'], n['op'], cost.macs(n['op'], {}, [vals[i] for i in n['in']], [o]), cost.vol(o) * 4, 0, vals[n['in'][0]], o))
    with scratch() as d:
        for fmt in ('csv', 'txt', 'stdout'):
            for metric in SP:
                with sut('printing'):
                    t, f = report(lambda p: m.graph.print_node_map(p, metric=metric), fmt, d)
                check_report('report', t, f, metric, want, 0)
    return Info(sum(w[2] for w in want) > 10**6, [n['op'] for n in case['chain']])


@st.composite
def big_cases(draw):
    big = st.one_of(st.integers(1, 40), st.integers(1000, 300000), st.integers(1000, 300000))
    dims = draw(st.lists(big, min_size=2, max_size=3))
    chain = [dict(op=draw(st.sampled_from(['MatMul', 'MatMul', 'Relu', 'Exp', 'Sigmoid', 'Identity'])), n=draw(big), batch=draw(st.integers(0, 1))) for _ in range(draw(st.integers(1, 5)))]
    return dict(dims=dims, chain=chain)


SUBS = [Sub('reports', cases, check, 4000, 60000), Sub('big', big_cases, check_big, 2000, 30000), Sub('sparse', sparse_cases, check, 800, 12000)]
