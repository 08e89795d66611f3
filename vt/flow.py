"""Executable dataflow graphs with simple tensors, for the checks about editing, fusing, splitting and pattern search.

Every tensor is float32 [1, c, 3, 3] with c in 1, 2 or 4; a graph is drawn as a list of small integer tuples and interpreted."""
import numpy as np
from hypothesis import strategies as st
from .om import *

H = 3
UN = ['Relu', 'Neg', 'Abs', 'LeakyRelu', 'Elu', 'Clip', 'Identity', 'Sigmoid', 'HardSigmoid']
OPS = UN + ['Add', 'Sub', 'Mul', 'Max', 'Sum', 'AddW', 'MulW', 'Split', 'Concat', 'Conv', 'BatchNormalization', 'MaxPool', 'Dropout']
MORE = OPS + ['Reshape', 'Reshape', 'Split', 'Relu', 'Add', 'Clip', 'AddW', 'Flatten', 'If', 'If']

raw_node = st.tuples(st.sampled_from(OPS), st.integers(0, 5), st.integers(0, 5), st.integers(0, 3), st.integers(0, 5))


def caught(n):
    """tensors read by the bodies of a node"""
    return sorted({i for a in n['attrs'].values() if isinstance(a, dict) and 'graph' in a for m in a['graph']['nodes'] for i in m['in']})


class Builder:
    def __init__(self, names='all'):
        self.ts = []        # (name, channels)
        self.nodes, self.inits = [], []
        self.names = names
        self.k = 0
        self.wseed = 0

    def weight(self, shape, share=None, lo=-1, hi=1, typ='f32'):
        key = (tuple(shape), lo)
        if share == 0:
            for i in self.inits:
                if (tuple(i[2]), i[3].get('lo')) == key:
                    return i[0]
        n = 'w%d' % len(self.inits)
        self.wseed += 1
        self.inits.append([n, typ, list(shape), {'seed': self.wseed, 'lo': lo, 'hi': hi}, False])
        return n

    def add(self, op, ins, nout=1, ch=None, **attrs):
        outs = ['t%d%s' % (self.k, '' if nout == 1 else 'abc'[i]) for i in range(nout)]
        name = 'n%d' % self.k
        if self.names == 'some' and self.k % 3 == 0:
            name = ''
        self.k += 1
        self.nodes.append(dict(op=op, **{'in': ins}, out=outs, attrs=attrs, name=name))
        return outs

    def node(self, raw, pick):
        """pick(i, want_channels or None) -> (name, channels) ; returns new tensors"""
        op, a, b, at, sh = raw
        x, c = pick(a, None)
        if op in ('Relu', 'Neg', 'Abs', 'Identity', 'Sigmoid'):
            o = self.add(op, [x])
        elif op in ('LeakyRelu', 'Elu'):
            o = self.add(op, [x], alpha=[0.25, 0.5, 0.75, 1.0][at])
        elif op == 'HardSigmoid':
            o = self.add(op, [x], **[{}, {'alpha': 0.5}, {'alpha': 0.25, 'beta': 0.25}, {'beta': 0.75}][at])
        elif op == 'Clip':
            lo, hi = self.weight([], sh, -2, -1), self.weight([], sh, 1, 2)
            o = self.add(op, [[x, lo, hi], [x, '', hi], [x, lo], [x]][at])
        elif op in ('Add', 'Sub', 'Mul', 'Max'):
            y, _ = pick(b, c)
            o = self.add(op, [x, y] if at % 2 else [y, x])
        elif op == 'Sum':
            y, _ = pick(b, c)
            z, _ = pick(at, c)
            o = self.add(op, [x, y, z])
        elif op in ('AddW', 'MulW'):
            w = self.weight([[1, c, 1, 1], [H], [], [1, c, H, H]][at], sh)
            o = self.add(op[:3], [x, w] if b % 2 else [w, x])
        elif op == 'Split':
            if c == 1:
                o = self.add('Identity', [x])
            else:
                o = self.add('Split', [x], 2, axis=[1, -3, 1, 1][at])
                return [(t, c // 2) for t in o]
        elif op == 'Concat':
            y, d = pick(b, c)
            if 2 * c > 4:
                o = self.add('Max', [x, y])
            else:
                return [(self.add('Concat', [x, y], axis=[1, -3, 1, 1][at])[0], 2 * c)]
        elif op == 'Conv':
            k = [1, 3, 3, 1][at]
            g = c if b % 3 == 0 else 1
            ins = [x, self.weight([c, c // g, k, k], sh)] + ([self.weight([c], sh)] if b % 2 else [])
            o = self.add('Conv', ins, kernel_shape=[k, k], pads=[k // 2] * 4, group=g)
        elif op == 'BatchNormalization':
            o = self.add(op, [x, self.weight([c], sh), self.weight([c], sh), self.weight([c], sh), self.weight([c], sh, 1, 2)],
                         **({} if at % 2 else {'epsilon': 1e-3 * (at + 1)}))
        elif op == 'MaxPool':
            o = self.add(op, [x], kernel_shape=[3, 3], pads=[1, 1, 1, 1])
        elif op == 'Dropout':
            o = self.add(op, [x], 2 if at == 0 else 1)
            return [(o[0], c)]      # the mask (bool) is never read
        elif op == 'Reshape':
            if at % 2:
                y, _ = pick(b, c)
                sh = self.add('Shape', [y])[0]
            else:
                sh = self.const([1, c, H, H] if at else [0, -1, H, H])
            o = self.add('Reshape', [x, sh])
        elif op == 'If':
            y, _ = pick(b, c)
            n = 'b%d' % self.k
            body = [[('Neg', [x])], [('Add', [x, y])]][::1 if at % 2 else -1]
            o = self.add('If', [self.cond()], **{k: {'graph': dict(gname=k, inputs=[], inits=[], outputs=[[n + k[0], 'f32', [1, c, H, H]]], nodes=[
                dict(op=p, **{'in': i}, out=[n + k[0]], attrs={}, name='' if at > 1 else n + k[0]) for p, i in l])} for k, l in zip(('then_branch', 'else_branch'), body)})
        elif op == 'Flatten':
            f = self.add('Flatten', [x], axis=1 + at % 2)[0]
            o = self.add('Reshape', [f, self.const([1, c, H, H])])
        else:
            raise HarnessError(op)
        return [(t, c) for t in o]

    def const(self, v):
        n = 'w%d' % len(self.inits)
        self.inits.append([n, 'i64', [len(v)], {'v': v}, False])
        return n

    def cond(self):
        n = next((i[0] for i in self.inits if i[1] == 'bool'), 'w%d' % len(self.inits))
        if all(i[0] != n for i in self.inits):
            self.inits.append([n, 'bool', [], {'v': [1]}, False])
        return n

    def picker(self, pool, outer=None):
        def pick(i, c):
            p = pool if outer is None or i < len(pool) else outer
            if outer is not None and p is outer:
                i -= len(pool)
            p = [t for t in (p or outer or pool) if c is None or t[1] == c] or [t for t in self.ts + pool if t[1] == c]
            return p[-1 - i % len(p)]
        return pick


def make(case):
    """case: dict(inputs=[channels], parts=[[raw...], copies, shifts, mutations], outs=int, names=)  ->  spec"""
    b = Builder(case.get('names', 'all'))
    ins = []
    for i, c in enumerate(case['inputs']):
        ins.append(['x%d' % i, 'f32', [1, c, H, H]])
        b.ts.append(('x%d' % i, c))
    for part in case['parts']:
        if not part.get('copies'):
            for r in part['nodes']:
                b.ts += b.node(r, b.picker(b.ts))
            continue
        outer = list(b.ts)
        for ci, (shift, mut) in enumerate(part['copies']):
            local = []
            o = [t for t in outer if t[1] == outer[-1][1]]
            o = o[shift % len(o):] + o[:shift % len(o)]
            for j, r in enumerate(part['nodes']):
                if mut and mut[0] % len(part['nodes']) == j:
                    r = [mut[1] if mut[1] is not None else r[0], (r[1] + mut[2]) % 6] + list(r[2:])
                local += b.node(r, b.picker(local, o))
            b.ts += local
    read = {i for n in b.nodes for i in n['in'] + caught(n)}
    prod = [(o, c) for n in b.nodes for o in n['out'] for t, c in b.ts if t == o]
    outs = [t for i, t in enumerate(prod) if t[0] not in read or case['outs'] >> (i % 30) & 1]
    return dict(nodes=b.nodes, inputs=[i for i in ins if i[0] in read], inits=b.inits, opset=17,
                outputs=[[t, 'f32', [1, c, H, H]] for t, c in outs])


@st.composite
def flows(draw, n=(2, 10), copies=False, names=('all',), ops=None):
    rn = raw_node if ops is None else st.tuples(st.sampled_from(ops), st.integers(0, 5), st.integers(0, 5), st.integers(0, 3), st.integers(0, 5))
    ch = draw(st.sampled_from([1, 2, 2, 2, 4]))
    parts = []
    if copies:
        if draw(st.booleans()):
            parts.append(dict(nodes=draw(st.lists(rn, min_size=1, max_size=4))))
        mut = st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 5), st.one_of(st.none(), st.sampled_from(ops or OPS)), st.integers(0, 2)))
        parts.append(dict(nodes=draw(st.lists(rn, min_size=2, max_size=6)), copies=draw(st.lists(st.tuples(st.integers(0, 5), mut), min_size=1, max_size=4))))
        if draw(st.booleans()):
            parts.append(dict(nodes=draw(st.lists(rn, min_size=1, max_size=4))))
    else:
        parts.append(dict(nodes=draw(st.lists(rn, min_size=n[0], max_size=n[1]))))
    outs = draw(st.one_of(st.just(0), st.integers(0, 2 ** 16), st.sampled_from([1, 2, 4, 8, 16])))
    return dict(inputs=[ch] * draw(st.integers(1, 3)), parts=parts, outs=outs, names=draw(st.sampled_from(list(names))))


def feeds(spec, seed=1):
    return {i[0]: arr(i[1], i[2], {'seed': seed + j, 'lo': -2, 'hi': 2}) for j, i in enumerate(spec['inputs'])}
