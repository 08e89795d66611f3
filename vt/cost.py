"""The documented cost model (data/Profile.md and the cost table at the top of node.py), written independently of
the profilers: MACs of one operator from its attributes and the shapes of its inputs and outputs."""
import math

MUL = ADD = CMP = 1
DIV, EXP, POW, LOG, SIN, COS, SQRT = 4, 32, 32, 43, 39, 39, 24
TANH = EXP + 2 * ADD + DIV
ATAN = SQRT + 4 * MUL + DIV

# cost per output element
PW = dict(Add=ADD, Sub=ADD, Mul=MUL, Div=DIV, Mod=ADD, Neg=CMP, Abs=CMP, Ceil=ADD, Floor=CMP, Round=CMP, Sign=CMP, Exp=EXP, Log=LOG,
          Sqrt=SQRT, Pow=POW, Sin=SIN, Cos=COS, Tanh=2 * TANH, Atan=2 * ATAN, Sigmoid=EXP, Softmax=EXP + DIV,
          LogSoftmax=EXP + DIV + ADD + LOG, Softplus=EXP + ADD + LOG, HardSigmoid=MUL + ADD + 2 * CMP, HardSwish=2 * MUL + ADD + 2 * CMP,
          Relu=CMP, LeakyRelu=MUL + CMP, PRelu=CMP + MUL, Elu=CMP + EXP + ADD + MUL, Clip=2 * CMP, Reciprocal=DIV, Gelu=EXP + 2 * MUL,
          Less=CMP, LessOrEqual=CMP, Greater=CMP, GreaterOrEqual=CMP, Equal=CMP, Not=CMP, And=CMP, Or=CMP, Xor=CMP,
          InstanceNormalization=2 * ADD + MUL + DIV, LpNormalization=EXP + ADD, CumSum=ADD, Hardmax=ADD, NonZero=CMP,
          QuantizeLinear=MUL + ADD, DequantizeLinear=MUL + ADD, BatchNormalization=ADD + SQRT + DIV + ADD + MUL)
# cost per input element
RED = dict(ReduceMean=ADD, ReduceSum=ADD, ReduceMin=CMP, ReduceMax=CMP, ReduceProd=MUL, ReduceL2=ADD + SQRT)
# data movement and operators without a cost
ZERO = ('ArgMax ArrayFeatureExtractor Cast Compress Concat Constant ConstantOfShape DepthToSpace Dropout Erf Expand Flatten Gather GatherElements GatherND GridSample '
        'Identity OneHot Pad RandomNormalLike RandomUniformLike Range Reshape RoiAlign ScatterElements ScatterND Shape Slice Split Squeeze Tile '
        'TopK Transpose Trilu Unsqueeze Where').split()


def vol(s):
    """element count; the tool counts a scalar as 0 elements"""
    return math.prod(s) if len(s) else 0


def macs(op, attrs, ins, outs):
    """ins: shape or None (omitted) per input; outs: shapes"""
    def has(i):
        return len(ins) > i and ins[i] is not None
    o = vol(outs[0]) if outs and outs[0] is not None else 0
    if op in ZERO:
        return 0
    if op in PW:
        return o * PW[op]
    if op in RED:
        return vol(ins[0]) * RED[op]
    if op in ('Sum', 'Min', 'Max'):
        return o * max(1, len([i for i in ins if i is not None]) - 1)
    if op in ('Conv', 'ConvInteger'):
        return o * math.prod(ins[1][1:]) + (o if op == 'Conv' and has(2) else 0)
    if op == 'QLinearConv':
        return o * math.prod(ins[3][1:]) + (o if has(8) else 0)
    if op == 'ConvTranspose':
        # every input element is multiplied with every kernel element of its output channels
        return vol(ins[0]) * math.prod(ins[1][1:]) + (o if has(2) else 0)
    if op == 'Gemm':
        k = ins[0][0] if attrs.get('transA', 0) else ins[0][1]
        return o * k + (o if has(2) else 0)
    if op in ('MatMul', 'MatMulInteger', 'QLinearMatMul'):
        k = ins[0][-1]
        return math.prod(outs[0]) * k
    if op in ('MaxPool', 'AveragePool'):
        k = attrs['kernel_shape']
        return o * math.prod(k['ints'] if isinstance(k, dict) else k)
    if op == 'GlobalAveragePool':
        return vol(ins[0]) * ADD + o * DIV
    if op == 'LRN':
        return o * (DIV + EXP + ADD + attrs['size'] * MUL)
    if op == 'LayerNormalization':
        ax = attrs.get('axis', -1)
        ax = ax + len(ins[0]) if ax < 0 else ax
        return vol(ins[0]) * (3 * MUL + 4 * ADD) + math.prod(ins[0][:ax]) * (ADD + SQRT + DIV)
    if op in ('Resize', 'Upsample'):
        m = attrs.get('mode', 'nearest')
        return o * {'nearest': 0, 'linear': 4, 'cubic': 8}[m]
    if op == 'Einsum':
        return einsum(attrs['equation'], ins)
    if op in ('LSTM', 'GRU'):
        g = 4 if op == 'LSTM' else 3
        seq, batch = ins[0][:2]
        dirs, h = ins[1][0], ins[1][1] // g
        ht = seq * batch * h * dirs
        r = (vol(ins[1]) + vol(ins[2]) + (vol(ins[3]) if has(3) else 0)) * seq * batch
        if op == 'LSTM':
            return r + ht * (4 * ADD + 3 * EXP + 2 * TANH + ADD + 3 * MUL)
        return r + ht * (3 * ADD + 2 * EXP + TANH + 2 * ADD + 3 * MUL)
    raise KeyError(op)


def einsum(eq, ins):
    eq = eq.replace(' ', '')
    d = {}
    ell = []
    for t, s in zip(eq.split('->')[0].split(','), ins):
        pre, dots, post = t.partition('...')
        for c, n in zip(pre, s):
            d[c] = max(d.get(c, 1), n) if n != 0 and d.get(c, 1) != 0 else 0
        for c, n in zip(reversed(post), reversed(s)):
            d[c] = max(d.get(c, 1), n) if n != 0 and d.get(c, 1) != 0 else 0
        if dots:
            e = s[len(pre):len(s) - len(post)]
            e = [1] * (len(ell) - len(e)) + list(e)
            ell = [1] * (len(e) - len(ell)) + ell
            ell = [0 if 0 in (a, b) else max(a, b) for a, b in zip(ell, e)]
    return math.prod(d.values()) * math.prod(ell)
