"""C02: single-operator shape and type inference against execution."""
from hypothesis import strategies as st
from ..core import *
from ..om import *
from .. import ops, oracle
from .c01 import untyped, expectation
import onnx_tool

PROPERTY = 'C02'
TECHNIQUE = 'property-based testing: generated single-operator models, differential oracle (shapes and types of the executed reference outputs)'
LEVEL_NOTE = 'random search over operator, attributes, shapes, element types and attribute/input form; no exhaustive claim'
RULE = ('A case is one operator with generated attributes, input shapes and element types (valid for the ONNX operator at the chosen '
        'opset). Shape inference is run with the inputs given as arrays or by the shapes in the model, shape-like inputs as initializers '
        'or graph inputs; the shape and type of each output are compared with those of reference execution (independent formulas for '
        'operators ReferenceEvaluator lacks). Non-trivial: an output shape and type was compared.')
ASSUMPTIONS = ['ReferenceEvaluator of the installed onnx is right for the operators without an own oracle in vt/oracle.py',
               'pooling windows that start in the end padding under ceil_mode are not generated (ONNX opsets and runtimes differ)',
               'backward slices that start before the first element are not generated (the specification text and implementations differ)']
# outputs whose shape needs the values of a data input
BYVALUE = ('NonZero', 'Compress', 'Range')


def check(case):
    c = case['c']
    exp = expectation(c)
    if c['op'] == 'NonZero' and 0 in exp[0].shape:
        raise Skip()   # all-zero data cannot be told from unknown data: the tool then gives the largest possible shape
    model, feeds = untyped(c, c['const'] if case['const'] else [])
    with sut('loading a one-operator model'):
        m = onnx_tool.Model(model, {'verbose': False})
    if case['feed'] or not case['const'] or c['op'] in BYVALUE:
        feed = feeds
    else:
        feed = None
    try:
        m.graph.shape_infer(feed)
    except Exception as e:
        raise Violation('shape inference of %s raised %s: %s' % (c['op'], type(e).__name__, str(e)[:300]))
    for i, e in zip(ops.outs_of(c), exp):
        t = m.graph.tensormap[i]
        require(list(t.get_shape()) == e.shape, '%s output %s: inferred shape %s, ONNX gives %s', c['op'], i, list(t.get_shape()), e.shape)
        dt = np.dtype(t.dtype)
        require(dt in NP2DT and NP2DT[dt] == e.dtype, '%s output %s: inferred type %s, ONNX gives %s', c['op'], i, dt, e.dtype)
    return Info(True, [c['op'], 'opset%d' % c['opset']])


ALL = sorted(ops.GEN)
HEAVY = ['Conv', 'MaxPool', 'AveragePool', 'ConvTranspose', 'Slice', 'Reshape', 'MatMul', 'Einsum', 'Pad', 'Resize', 'Split']


@st.composite
def s_case(draw, sel=None):
    c = draw(ops.op_case(ALL + HEAVY, True)) if sel is None else ops.GEN[sel](draw)
    return dict(c=c, const=draw(st.integers(0, 3)) > 0, feed=draw(st.booleans()))


SUBS = [Sub('op', s_case, check, 40000, 600000)]


def dev_ops(sub):
    return ALL


def dev_strategy(sub, op):
    return s_case(op)
