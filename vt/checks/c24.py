"""C24: the command line does what the API does."""
import contextlib
import io
import os
import runpy
import subprocess
import sys
import warnings
from hypothesis import strategies as st
from ..core import *
from ..om import *
from .. import gen
from . import c23
import onnx_tool

PROPERTY = 'C24'
TECHNIQUE = 'property-based testing: generated models and argument lists, differential oracle (files and printed table of the corresponding API call)'
LEVEL_NOTE = 'random search over models and argument lists; most command lines run in the checking process through runpy, a sample as real processes'
RULE = ('A case is a model and a command line of one mode. The files it writes, and the table it prints, must be byte for byte those of the API call with the same meaning, made with independently decoded arguments. '
        'In the sub "literals" the shapes inferred downstream reveal the literal values, shapes and element types that were understood. Non-trivial: a file or a table was produced.')
ASSUMPTIONS = ['an input is described as name:type:shape[:values] with the types f16 f32 f64, int8..int64, uint8..uint64, bool; a name may contain ":"',
               'a description that is not of this form is rejected with a non-zero exit']
RUN = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(onnx_tool.__file__))))


def cli(args, cwd, real=False):
    """(exit code, stdout)"""
    if real:
        p = subprocess.run([sys.executable, '-m', 'onnx_tool'] + args, cwd=cwd, capture_output=True, text=True, timeout=120, env=dict(os.environ, PYTHONPATH=RUN, PYTHONIOENCODING='utf-8', PYTHONHASHSEED='0'))
        return p.returncode, p.stdout
    out, argv, old = io.StringIO(), sys.argv, os.getcwd()
    saved = sys.modules.pop('onnx_tool.__main__', None)
    code = 0
    try:
        os.chdir(cwd)
        sys.argv = ['onnx_tool'] + args
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            runpy.run_module('onnx_tool', run_name='__main__', alter_sys=True)
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
    except Exception as e:
        code, msg = 1, e
        out.write('%s: %s' % (type(e).__name__, e))
    finally:
        os.chdir(old)
        sys.argv = argv
    return code, out.getvalue()


def api(fn, cwd):
    out, old = io.StringIO(), os.getcwd()
    try:
        os.chdir(cwd)
        with contextlib.redirect_stdout(out), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            fn()
    except (Exception, SystemExit) as e:
        return 1, '%s: %s' % (type(e).__name__, e)
    finally:
        os.chdir(old)
    return 0, out.getvalue()


def tree(d):
    r = {}
    for b, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(b, f), 'rb') as h:
                r[os.path.relpath(os.path.join(b, f), d)] = h.read()
    return r


def compare(model, args, fn, real, table=True):
    """run the command and the API call in two folders holding the model"""
    with scratch() as d:
        res = []
        for k in 'ab':
            p = os.path.join(d, k)
            os.mkdir(p)
            onnx.save_model(model, os.path.join(p, 'm.onnx'))
            before = tree(p)
            r = cli(args, p, real) if k == 'a' else api(fn, p)
            after = tree(p)
            require(k == 'b' or after.get('m.onnx') == before['m.onnx'], 'the command %s changed its input model', args)
            res.append((r, {f: x for f, x in after.items() if f != 'm.onnx'}))
        ((ca, oa), fa), ((cb, ob), fb) = res
        if cb:
            require(ca, 'the command %s succeeds, the API call fails: %s', args, ob[-200:])
            return None
        require(not ca, 'the command %s fails: %s', args, oa[-300:])
        require(sorted(fa) == sorted(fb), 'the command %s writes %s, the API call %s', args, sorted(fa), sorted(fb))
        for f in fa:
            require(fa[f] == fb[f], 'the command %s writes another %s than the API call%s', args, f, diff(fa[f], fb[f], f))
        if table:
            require(oa == ob, 'the command %s prints\n%s\nthe API call\n%s', args, oa[-300:], ob[-300:])
        return fa, oa


def diff(a, b, f):
    if f.endswith('.onnx'):
        a, b = str(onnx.load_from_string(a)), str(onnx.load_from_string(b))
    else:
        a, b = a.decode('utf-8', 'replace'), b.decode('utf-8', 'replace')
    for x, y in zip(a.split('\n'), b.split('\n')):
        if x != y:
            return ': %s / %s' % (x[:100], y[:100])
    return ''


TYPES = {'f32': np.float32, 'int32': np.int32, 'int64': np.int64, 'f16': np.float16, 'f64': np.float64, 'int8': np.int8, 'uint8': np.uint8, 'int16': np.int16, 'uint16': np.uint16, 'uint32': np.uint32,
         'uint64': np.uint64, 'bool': np.bool_}
TOK = {'f32': 'f32', 'i32': 'int32', 'i64': 'int64', 'f16': 'f16', 'f64': 'f64', 'i8': 'int8', 'u8': 'uint8', 'i16': 'int16', 'u16': 'uint16', 'u32': 'uint32', 'u64': 'uint64', 'bool': 'bool'}


def describe(name, dt, a, values):
    s = '%s:%s:%s' % (name, TOK[dt], 'x'.join(str(x) for x in a.shape))
    return s + (':' + 'x'.join(repr(x) if isinstance(x, float) else str(int(x)) for x in a.reshape(-1).tolist()) if values else '')


def check_profile(case):
    c = case['g']
    model = gen.model_of(c)
    args, dyn = ['-i', 'm.onnx'], None
    if case['dyn']:
        dyn, ds = {}, []
        feeds = gen.feeds_of(c, 0)
        for n, dt, d in c['spec']['inputs']:
            a = feeds[n]
            v = case['vals'] and 0 < a.size <= 40 and dt != 'f16'
            if not a.ndim:
                continue
            dyn[n] = a if v else np.zeros_like(a)
            ds.append(describe(n, dt, a, v))
        if ds:
            args += [case['dflag']] + ds
        else:
            dyn = None
    if case['mode']:
        args = ['-m', 'profile'] + args
    ops = sorted({n['op'] for n in c['spec']['nodes'] if not n.get('domain')})
    ex = [ops[i % len(ops)] for i in case['exclude']] if ops else []
    if case['bad_op']:
        ex.append('NoSuchOp')
    if ex:
        args += ['-e', ','.join(ex)]
    if case['file']:
        args += ['-f', case['file']]
    if case['out']:
        args += ['-o', 'out.onnx']
    r = compare(model, args, lambda: onnx_tool.model_profile('m.onnx', dyn, exclude_ops=set(ex) if ex else None, save_profile=case['file'], save_model='out.onnx' if case['out'] else None), case['real'])
    return Info(r is not None and bool(r[0] or r[1]), ['refused' if r is None else 'ok', 'real' if case['real'] else 'inproc'])


@st.composite
def profiles(draw, real=False):
    return dict(g=gen.graph(draw, {'n': (1, 6)}), dyn=draw(st.integers(0, 4)) > 0, vals=draw(st.booleans()), dflag=draw(st.sampled_from(['-d', '--dynamic_shapes'])), mode=draw(st.booleans()),
                exclude=draw(st.lists(st.integers(0, 9), max_size=2)), bad_op=draw(st.integers(0, 19)) == 13, file=draw(st.sampled_from([None, 'p.csv', 'p.txt'])), out=draw(st.booleans()), real=real)


# ---- the values of an input decide shapes
def check_literals(case):
    nodes, outs, ins, args, want = [], [], [], [], {}
    dyn = {}
    for i, (name, dt, shape, vals, sc, how) in enumerate(case['ins']):
        a = np.array(vals, npdt(dt)).reshape(shape)
        p = 'n%d_' % i
        ins.append([name, dt, [None] * a.ndim])
        nodes.append({'op': 'Identity', 'name': p + 'id', 'in': [name], 'out': [p + 'same'], 'attrs': {}})
        nodes.append({'op': 'Cast', 'name': p + 'f', 'in': [name], 'out': [p + 'float'], 'attrs': {'to': 1}})
        nodes.append({'op': 'Abs', 'name': p + 'a', 'in': [p + 'float'], 'out': [p + 'abs'], 'attrs': {}})
        nodes.append({'op': 'Mul', 'name': p + 'm', 'in': [p + 'abs', 'scale%d' % i], 'out': [p + 'mul'], 'attrs': {}})
        nodes.append({'op': 'Cast', 'name': p + 'c', 'in': [p + 'mul'], 'out': [p + 'int'], 'attrs': {'to': 7}})
        nodes.append({'op': 'Reshape', 'name': p + 'r', 'in': [p + 'int', 'flat'], 'out': [p + 'dims'], 'attrs': {}})
        nodes.append({'op': 'ConstantOfShape', 'name': p + 'o', 'in': [p + 'dims'], 'out': [p + 'out'], 'attrs': {}})
        outs += [[p + 'same', dt, None], [p + 'out', 'f32', None]]
        dims = np.trunc(np.abs(a.astype(np.float32)) * np.float32(sc)).astype(np.int64).reshape(-1)
        if np.prod(dims.astype(float)) > 1e5:
            raise Skip('too large')
        want[p + 'same'] = (list(a.shape), dt)
        want[p + 'out'] = (dims.tolist(), 'f32')
        sh = list(a.shape)
        if how == 1:
            sh[0] = -1
        txt = [case['fmt'] % v if isinstance(v, float) else str(int(v)) for v in np.ravel(vals).tolist()]
        args.append('%s:%s:%s:%s' % (name, TOK[dt], 'x'.join(map(str, sh)), 'x'.join(txt)))
    spec = dict(inputs=ins, outputs=outs, nodes=nodes, inits=[['flat', 'i64', [1], {'v': [-1]}]] + [['scale%d' % i, 'f32', [], {'v': [float(x[4])]}] for i, x in enumerate(case['ins'])], opset=17)
    model = build(spec)
    with scratch() as d:
        onnx.save_model(model, os.path.join(d, 'm.onnx'))
        code, out = cli(['-i', 'm.onnx', '-o', 'out.onnx', '-f', 'p.txt', '-d'] + args, d, case['real'])
        require(code == 0, 'the descriptions %s are refused: %s', args, out[-300:])
        saved = onnx.load(os.path.join(d, 'out.onnx'))
    got = {v.name: v for v in list(saved.graph.output) + list(saved.graph.value_info)}
    for n, (shape, dt) in want.items():
        require(n in got and dims_of(got[n]) == shape and got[n].type.tensor_type.elem_type == ptdt(dt), 'with %s the tensor %s is saved as %s of type %s, must be %s of type %s', args, n,
                dims_of(got[n]) if n in got else None, got[n].type.tensor_type.elem_type if n in got else None, shape, ptdt(dt))
    return Info(True, [x[1] for x in case['ins']])


INAMES = ['x', 'input', 'scale', 'in.0', 'a/b', 'ids:0', 'f32', 'x:f32', 'a:int32:7', 'extra_x', ':', 'a b']


@st.composite
def literals(draw, real=False):
    ins = []
    for n in draw(st.lists(st.sampled_from(INAMES), min_size=1, max_size=3, unique=True)):
        dt = draw(st.sampled_from(['f32', 'f32', 'i32', 'i32', 'i64', 'f16', 'f64', 'i8', 'u8', 'i16', 'u16', 'u32', 'u64', 'bool']))
        size = draw(st.integers(1, 4))
        shape = draw(st.sampled_from({1: [[1], [1, 1]], 2: [[2], [1, 2], [2, 1]], 3: [[3], [3, 1]], 4: [[4], [2, 2], [1, 4], [4, 1, 1]]}[size]))
        if dt[0] == 'f':
            vals = [draw(st.sampled_from([0.25, 0.5, 1.5, 2.0, 0.125, -0.75, 3.25])) for _ in range(size)]
            sc = 8
        elif dt == 'bool':
            vals, sc = [draw(st.booleans()) for _ in range(size)], 3
        else:
            vals, sc = [draw(st.integers(0 if dt[0] == 'u' else -6, 9)) for _ in range(size)], draw(st.sampled_from([1, 2]))
        ins.append([n, dt, shape, vals, sc, draw(st.integers(0, 3))])
    return dict(ins=ins, fmt=draw(st.sampled_from(['%r', '%.6f', '%e'])), real=real)


# ---- other modes
def check_fold(case):
    model = gen.model_of(case['g'])
    r = compare(model, ['-m', 'constant_folding', '-i', 'm.onnx', '-o', 'out.onnx'], lambda: onnx_tool.model_constant_folding('m.onnx', 'out.onnx'), case['real'], False)
    return Info(r is not None and bool(r[0]), [])


@st.composite
def folds(draw, real=False):
    return dict(g=gen.graph(draw, {'n': (1, 6), 'K': 1, 'blocks': ['const', 'const', 'ew', 'nn', 'shape', 'move']}), real=real)


def check_modify(case):
    model = gen.model_of(case['g'])
    if not case['spec']:
        raise Skip('no specification')
    text = {k: 'x'.join(map(str, v)) for k, v in case['spec'].items()}
    r = compare(model, ['-m', 'io_modify', '-i', 'm.onnx', '-o', 'out.onnx', '-d'] + ['%s:%s' % x for x in text.items()], lambda: onnx_tool.model_io_modify('m.onnx', 'out.onnx', text), case['real'], False)
    return Info(r is not None and bool(r[0]), ['refused' if r is None else 'ok'])


@st.composite
def modifies(draw, real=False):
    c = draw(c23.cases())
    c['real'] = real
    if draw(st.booleans()):  # input names with a colon
        sp = c['g']['spec']
        for i in sp['inputs']:
            if c['spec'] and i[0] in c['spec'] and not any(i[0] in (o[0] if isinstance(o, list) else o) for o in sp['outputs']) and not any('graph' in str(n['attrs']) for n in sp['nodes']):
                new = i[0] + draw(st.sampled_from([':0', ':f32', ':1x2']))
                for n in sp['nodes']:
                    n['in'] = [new if x == i[0] else x for x in n['in']]
                c['spec'][new] = c['spec'].pop(i[0])
                c['g']['seeds'][new] = c['g']['seeds'].pop(i[0])
                i[0] = new
    return c


def check_export(case):
    model = gen.model_of(case['g'])
    inits = [i.name for i in model.graph.initializer]
    names = [inits[i % len(inits)] if i < 50 and inits else 'missing' for i in case['names']] if case['names'] is not None else None
    args = ['-m', 'export_tensors', '-i', 'm.onnx'] + (['--names'] + names if names else []) + (['-o', case['out']] if case['out'] else []) + (['--fp16'] if case['fp16'] else [])
    r = compare(model, args, lambda: onnx_tool.model_export_tensors_numpy('m.onnx', tensornames=names or None, savefolder=case['out'], fp16=case['fp16']), case['real'])
    return Info(r is not None and bool(r[0]), ['refused' if r is None else 'ok'])


@st.composite
def exports(draw, real=False):
    return dict(g=gen.graph(draw, {'n': (1, 5), 'K': 1, 'blocks': ['ew', 'nn', 'mm', 'move', 'const']}), names=draw(st.one_of(st.none(), st.lists(st.integers(0, 55), min_size=1, max_size=3))),
                out=draw(st.sampled_from([None, 'dir', 'a/b', 'm2.x'])), fp16=draw(st.booleans()), real=real)


# ---- descriptions that have no meaning
BAD = ['x', 'x:f32', 'x:float:2', 'x:q8:2x3', 'x:f32:', 'x:f32:ax2', 'x:f32:2:1', 'x:f32:2:1x2x3', 'x:int32:2:0.5x1', 'x:f32:2:ax1', 'x::2', 'x:f32:-1', 'x:2x3', 'x:int8:1:300', 'x:f32:2:']


def check_bad(case):
    spec = dict(inputs=[['x', 'f32', [None] * case['rank']]], outputs=[['y', 'f32', None]], nodes=[{'op': 'Relu', 'name': 'n', 'in': ['x'], 'out': ['y'], 'attrs': {}}], inits=[], opset=17)
    with scratch() as d:
        onnx.save_model(build(spec), os.path.join(d, 'm.onnx'))
        code, out = cli(['-i', 'm.onnx', '-o', 'out.onnx', '-d', case['arg']], d, case['real'])
        require(code != 0, 'the description %s is accepted', case['arg'])
        require('out.onnx' not in tree(d), 'a model is saved for the description %s', case['arg'])
    return Info(True, [case['arg']])


def bads(real=False):
    return st.builds(lambda r, a: dict(rank=r, arg=a, real=real), st.integers(1, 2), st.sampled_from(BAD))


PARTS = dict(profile=(profiles, check_profile), literals=(literals, check_literals), fold=(folds, check_fold), modify=(modifies, check_modify), export=(exports, check_export), bad=(bads, check_bad))


def check_process(case):
    return PARTS[case['part']][1](case['case'])


@st.composite
def processes(draw):
    p = draw(st.sampled_from(sorted(PARTS)))
    return dict(part=p, case=draw(PARTS[p][0](True)))


SUBS = [Sub('profile', profiles, check_profile, 2000, 30000), Sub('literals', literals, check_literals, 2000, 30000), Sub('fold', folds, check_fold, 800, 12000), Sub('modify', modifies, check_modify, 1500, 20000),
        Sub('export', exports, check_export, 800, 12000), Sub('bad', bads, check_bad, 300, 2000), Sub('process', processes, check_process, 60, 900)]
