"""C35: detection evaluation."""
import json
import os
import shutil
import sys
import tempfile
import time
import types
from fractions import Fraction
from hypothesis import strategies as st
import onnx
from onnx import helper, numpy_helper
from ..core import *
from ..om import *
from .. import faketorch

PROPERTY = 'C35'
TECHNIQUE = 'property-based testing: generated detector outputs, annotations and image sets, differential oracle = direct reference computation of NMS, matching and interpolated average precision'
LEVEL_NOTE = 'random search; torch and cv2 are not installed, stand-ins run the engine and the solid-colour images'
RULE = ('Sub "post": rows of a detector; the kept detections must be those of direct per-class suppression. Sub "metrics": detections and annotations of several images; AP per threshold and the means must be those of a '
        'direct computation. Sub "evaluate": an ONNX detector whose rows depend on the image, images of several sizes and an annotation file; mAP must be that of the detections in image coordinates. '
        'Non-trivial: suppression and truncation or clipping matter (post), a mean strictly between 0 and 1 (metrics, evaluate).')
ASSUMPTIONS = ['equal scores of one class, and IoUs and recalls within rounding of a threshold, may go either way (such cases are skipped)',
               'the i-th class of the model is the i-th category of the annotations by id']

REPO = os.environ.get('VP_REPO', '/repo')
torch = faketorch.install()
sys.path[:0] = [os.path.join(REPO, 'inference')]
if REPO not in sys.path:
    sys.path.append(REPO)

IMAGES = {}     # path -> array: what the stand-in of cv2 reads
cv2 = types.ModuleType('cv2')


def _wanted(name):
    if name.startswith('__'):
        raise AttributeError(name)
    faketorch.WANTED.add('cv2.' + name)
    raise AttributeError(name)


def _resize(img, size, *a, **k):
    w, h = size
    ys, xs = np.arange(h) * img.shape[0] // h, np.arange(w) * img.shape[1] // w
    return img[ys][:, xs].copy()


def _border(img, top, bottom, left, right, kind, *a, value=(0, 0, 0), **k):
    out = np.empty((img.shape[0] + top + bottom, img.shape[1] + left + right, 3), img.dtype)
    out[:] = np.array(value, img.dtype)
    out[top:top + img.shape[0], left:left + img.shape[1]] = img
    return out


def _imread(path, *a):
    i = IMAGES.get(os.path.realpath(path))
    return None if i is None else i.copy()


cv2.imread, cv2.resize, cv2.copyMakeBorder, cv2.BORDER_CONSTANT, cv2.INTER_LINEAR, cv2.IMREAD_COLOR = _imread, _resize, _border, 0, 1, 1
cv2.__getattr__ = _wanted
sys.modules['cv2'] = cv2
import yolo_eval


# ---------------------------------------------------------------- reference
def iou(a, b):
    w = min(a[2], b[2]) - max(a[0], b[0])
    h = min(a[3], b[3]) - max(a[1], b[1])
    i = max(w, 0) * max(h, 0)
    u = (a[2] - a[0]) * (a[3] - a[1]) + (b[2] - b[0]) * (b[3] - b[1]) - i
    return i / u if u else 0.0


def near(x, t, tol):
    if abs(x - t) < tol:
        raise Skip('an IoU at the threshold')
    return x > t


def ref_post(rows, size, conf, thr, cap, tol=1e-6):
    H, W = size
    keep = []
    for x1, y1, x2, y2, s, c in rows:
        if abs(s - conf) < 1e-6:
            raise Skip('a score at the threshold')
        if s > conf:
            x1, x2 = min(max(x1, 0), W), min(max(x2, 0), W)
            y1, y2 = min(max(y1, 0), H), min(max(y2, 0), H)
            if x2 > x1 and y2 > y1:
                keep.append((x1, y1, x2, y2, c, s))
    keep.sort(key=lambda d: -d[5])
    out = []
    for d in keep:
        if not any(o[4] == d[4] and near(iou(o, d), thr, tol) for o in out):
            out.append(d)
    if len({d[5] for d in out}) < len(out) and len(out) > cap:
        if sorted(d[5] for d in out)[-cap] == sorted(d[5] for d in out)[-cap - 1]:
            raise Skip('equal scores at the limit')
    return out[:cap], len(keep), len(out)


EXACT = [k for k in range(101) if k / 100 == k * 0.01 == np.linspace(0, 1, 101)[k]]


def ref_ap(hits, total):
    """hits: by falling score; the interval of AP (recalls whose float form is ambiguous may go either way)"""
    n = 0
    pts = []
    for i, h in enumerate(hits):
        n += h
        pts.append((Fraction(n, total), n / (i + 1)))
    lo = hi = 0.0
    for k in range(101):
        t = Fraction(k, 100)
        a = max([p for r, p in pts if r >= t], default=0)
        b = max([p for r, p in pts if r > t], default=0)
        hi += a
        lo += a if k in EXACT else b
    return lo / 101, hi / 101


def ref_metrics(dets, anns, classes, thrs, tol=1e-6):
    """dets: (image, class, score, box), anns: (image, class, box); {thr: (lo, hi)}"""
    out = {}
    for t in thrs:
        aps = []
        for c in classes:
            gts = [a for a in anns if a[1] == c]
            if not gts:
                continue
            used = set()
            hits = []
            for d in sorted([d for d in dets if d[1] == c], key=lambda d: -d[2]):
                best = None
                free = [(iou(d[3], g[2]), j) for j, g in enumerate(gts) if g[0] == d[0] and j not in used]
                if free:
                    free.sort(reverse=True)
                    best = free[0]
                    if free and free[0][0] > t - tol and any(free[0][0] - f < tol and gts[j][2] != gts[free[0][1]][2] for f, j in free):
                        raise Skip('equal IoUs')
                ok = bool(best and near(best[0], t, tol))
                if ok:
                    used.add(best[1])
                hits.append(ok)
            aps.append(ref_ap(hits, len(gts)))
        out[t] = (float(np.mean([a for a, _ in aps])), float(np.mean([b for _, b in aps]))) if aps else (0.0, 0.0)
    return out


def distinct(draw, n):
    """n distinct scores, exact in float32"""
    k = draw(st.lists(st.integers(8, 1023), min_size=n, max_size=n, unique=True))
    return [x / 1024 for x in k]


def boxes(draw, W, H, base=None):
    i = lambda a, b: draw(st.integers(a, b))
    if base is not None:
        d = [i(-3, 3) * draw(st.sampled_from([0, 0, 1, 4])) / 4 for _ in range(4)]
        b = [base[k] + d[k] for k in range(4)]
        if b[2] > b[0] and b[3] > b[1]:
            return b
    x, y = i(0, W - 2), i(0, H - 2)
    return [float(x), float(y), float(i(x + 1, W)), float(i(y + 1, H))]


# ---------------------------------------------------------------- post-processing
@st.composite
def rows_cases(draw):
    i = lambda a, b: draw(st.integers(a, b))
    H, W = i(8, 40), i(8, 40)
    n = draw(st.sampled_from([12, 7, 4, 20, 2, 1, 0]))
    s = distinct(draw, n)
    rows = []
    for k in range(n):
        b = boxes(draw, W, H, rows[i(0, len(rows) - 1)][:4] if rows and i(0, 2) else None)
        if i(0, 5) == 5:
            b = [v + i(-1, 1) * draw(st.sampled_from([W, H, 5])) for v in b]
        if i(0, 9) == 9:
            b[2] = b[0] - i(0, 2)
        rows.append(b + [s[k], float(draw(st.sampled_from([0, 0, 1, 2, 79])))])
    return dict(size=[H, W], rows=rows, conf=draw(st.sampled_from([0.0, 0.001, 0.25, 0.25, 0.5, 0.9])), iou=draw(st.sampled_from([0.1, 0.3, 0.45, 0.45, 0.6, 1.0])), cap=draw(st.sampled_from([1, 2, 3, 5, 300, 300])),
                batch=i(0, 1), default=i(0, 3) == 3, dtype=draw(st.sampled_from(['float32', 'float32', 'float64'])))


def check_post(case):
    a = np.array(case['rows'], case['dtype']).reshape(-1, 6)
    size = tuple(case['size'])
    kw = {} if case['default'] else dict(conf_thres=case['conf'], iou_thres=case['iou'], max_det=case['cap'])
    conf, thr, cap = (0.25, 0.45, 300) if case['default'] else (case['conf'], case['iou'], case['cap'])
    want, before, after = ref_post(a.astype(float).tolist(), size, conf, thr, cap, 1e-5)
    given = a[None] if case['batch'] else a
    copy = given.copy()
    with sut('post-processing %d rows' % len(a)):
        got = yolo_eval.yolo_postprocess(given, size, **kw)
    require(np.array_equal(given, copy), 'post-processing changed the rows of the detector')
    require(isinstance(got, list) and len(got) == 1, 'the result is not a list with one image: %s', type(got))
    g = np.asarray(got[0], float)
    require(g.ndim == 2 and g.shape[1] == 7, 'the detections have shape %s', g.shape)
    key = lambda r: tuple(-v for v in r[::-1])
    w = np.array(sorted([(0.0,) + d for d in want], key=key)).reshape(-1, 7)
    g = np.array(sorted(map(tuple, g.tolist()), key=key)).reshape(-1, 7)
    require(g.shape == w.shape and np.allclose(g, w, atol=1e-6), '%s rows, conf %s, IoU %s, at most %s, image %s: kept\n%s\nnot\n%s', len(a), conf, thr, cap, size, g.tolist(), w.tolist())
    return Info(after < before or len(want) < after, ['suppressed'] * (after < before) + ['truncated'] * (len(want) < after) + ['default'] * case['default'])


# ---------------------------------------------------------------- metrics
def ground(draw, ids, cats, W=30, H=30):
    i = lambda a, b: draw(st.integers(a, b))
    anns = []
    for im in ids:
        for _ in range(draw(st.sampled_from([2, 1, 3, 4, 0]))):
            anns.append([im, draw(st.sampled_from(cats)), boxes(draw, W, H)])
    return anns


@st.composite
def metric_cases(draw):
    i = lambda a, b: draw(st.integers(a, b))
    nc = i(1, 4)
    ids = draw(st.lists(st.integers(0, 9), min_size=1, max_size=4, unique=True))
    anns = ground(draw, ids, list(range(nc)))
    n = draw(st.sampled_from([6, 3, 10, 1, 0, 10, 6, 24, 40]))
    s = distinct(draw, n)
    dets = []
    for k in range(n):
        if anns and i(0, 4):
            a = draw(st.sampled_from(anns))
            dets.append([a[0], a[1] if i(0, 5) < 5 else i(0, nc - 1), s[k], boxes(draw, 30, 30, a[2])])
        else:
            dets.append([draw(st.sampled_from(ids)), i(0, nc - 1), s[k], boxes(draw, 30, 30)])
    return dict(classes=nc, ids=ids, anns=anns, dets=dets, thrs=draw(st.sampled_from([None, None, [0.5], [0.5, 0.75], [0.3, 0.9]])), shuffle=i(0, 1 << 16))


def check_metrics(case):
    import random
    thrs = case['thrs'] or np.linspace(0.5, 0.95, 10).tolist()
    anns, dets = case['anns'], case['dets']
    want = ref_metrics([(d[0], d[1], d[2], d[3]) for d in dets], [tuple(a) for a in anns], range(case['classes']), thrs)
    r = random.Random(case['shuffle'])
    res = []
    for im in case['ids']:
        mine = [d for d in dets if d[0] == im]
        r.shuffle(mine)
        if mine or r.random() < 0.7:
            res.append(dict(image_id=im, boxes=np.array([d[3] for d in mine], float).reshape(-1, 4), scores=np.array([d[2] for d in mine], float), labels=np.array([d[1] for d in mine], float)))
    gt = dict(images=[dict(id=k, file_name='%d.jpg' % k) for k in case['ids']], categories=[dict(id=k, name='c%d' % k) for k in range(case['classes'])],
              annotations=[dict(id=k, image_id=a[0], category_id=a[1], bbox=[a[2][0], a[2][1], a[2][2] - a[2][0], a[2][3] - a[2][1]], iscrowd=0) for k, a in enumerate(anns)])
    r.shuffle(gt['annotations'])
    before = json.dumps(gt), [{k: np.array(v).tolist() for k, v in d.items()} for d in res]
    with sut('computing the metrics'):
        m = yolo_eval.compute_coco_metrics(res, gt, num_classes=case['classes'], **({} if case['thrs'] is None else dict(iou_thresholds=list(thrs))))
    require(before == (json.dumps(gt), [{k: np.array(v).tolist() for k, v in d.items()} for d in res]), 'computing the metrics changed the detections or annotations')
    return compare(m, want, thrs, '%d detections, %d annotations' % (len(dets), len(anns)))


def compare(m, want, thrs, what, tol=1e-6):
    require({'mAP@0.5', 'mAP@0.5:0.95', 'ap_per_iou'} <= set(m), '%s: the result has only %s', what, sorted(m))
    per = m['ap_per_iou']
    names = {'mAP@%.2f' % t: t for t in thrs}
    require(set(per) == set(names), '%s: AP of %s', what, sorted(per))
    for n, t in names.items():
        lo, hi = want[t]
        require(lo - tol <= per[n] <= hi + tol, '%s: %s is %.6f, not %.6f', what, n, per[n], hi)
    if 0.5 in want:
        require(abs(m['mAP@0.5'] - per['mAP@0.50']) < 1e-9, '%s: mAP@0.5 is %s, not %s', what, m['mAP@0.5'], per['mAP@0.50'])
    mean = np.mean(list(per.values()))
    require(abs(m['mAP@0.5:0.95'] - mean) < 1e-9, '%s: mAP@0.5:0.95 is %s, the mean is %s', what, m['mAP@0.5:0.95'], mean)
    return Info(bool(1e-3 < mean < 1 - 1e-3), ['several thresholds'] * (len(thrs) > 1))


# ---------------------------------------------------------------- evaluation
@st.composite
def eval_cases(draw):
    i = lambda a, b: draw(st.integers(a, b))
    size = [draw(st.sampled_from([16, 24, 32, 40])), draw(st.sampled_from([16, 24, 32, 40]))]
    n = i(1, 4)
    cats = draw(st.sampled_from([[0, 1, 2], [1, 2, 3], [1, 2, 5], [3], [0], [2, 9]]))
    ids = draw(st.sampled_from([list(range(n)), draw(st.lists(st.integers(0, 50), min_size=n, max_size=n, unique=True))]))
    imgs = []
    for k in range(n):
        W, H = draw(st.sampled_from([[20, 20], [40, 20], [16, 30], [64, 48], [33, 50], size[::-1]]))
        mine = ground(draw, [ids[k]], cats, W, H)
        rows = []
        for _ in range(draw(st.sampled_from([0, 1, 2, 3]))):
            if mine and i(0, 4):
                a = draw(st.sampled_from(mine))
                b = boxes(draw, W, H, a[2])
                c = cats.index(a[1]) if i(0, 5) < 5 else i(0, len(cats) - 1)
            else:
                b, c = boxes(draw, W, H), i(0, len(cats) - 1)
            b = [min(max(b[0], 0), W), min(max(b[1], 0), H), min(max(b[2], 0), W), min(max(b[3], 0), H)]
            if b[2] - b[0] >= 1 and b[3] - b[1] >= 1:
                rows.append([b, c])
        imgs.append(dict(id=ids[k], W=W, H=H, anns=mine, rows=rows))
    tot = sum(len(m['rows']) for m in imgs)
    s = distinct(draw, tot)
    for m in imgs:
        for r in m['rows']:
            r.append(s.pop())
    return dict(size=size, cats=cats, imgs=imgs, how=draw(st.sampled_from(['coco', 'dir', 'coco', 'curve', 'bare'])), limit=draw(st.sampled_from([-1, -1, -1, 1, 2])), order=draw(st.permutations(list(range(n)))), conf=draw(st.sampled_from([0.001, 0.25])),
                named=i(0, 1), at=i(0, 1))


def detector(table, size, path):
    """rows by the colour of the centre of the image"""
    K, N = table.shape[0], table.shape[1]
    I = lambda n, v: numpy_helper.from_array(np.array(v), n)
    init = [I('st', np.array([0, size[0] // 2, size[1] // 2], np.int64)), I('en', np.array([1, size[0] // 2 + 1, size[1] // 2 + 1], np.int64)), I('ax', np.array([1, 2, 3], np.int64)),
            I('sh', np.array([1, 1], np.int64)), I('gain', np.float32(255 / 20)), I('ids', np.arange(1, K + 1, dtype=np.float32)[None]), I('one', np.float32(1)),
            I('tab', table.reshape(K, -1).astype(np.float32)), I('os', np.array([1, N, 6], np.int64))]
    N_ = helper.make_node
    nodes = [N_('Slice', ['images', 'st', 'en', 'ax'], ['p']), N_('Reshape', ['p', 'sh'], ['q']), N_('Mul', ['q', 'gain'], ['v']), N_('Sub', ['v', 'ids'], ['d']), N_('Neg', ['d'], ['m']),
             N_('Relu', ['d'], ['a']), N_('Relu', ['m'], ['b']), N_('Add', ['a', 'b'], ['c']), N_('Sub', ['one', 'c'], ['e']), N_('Relu', ['e'], ['h']), N_('MatMul', ['h', 'tab'], ['t']), N_('Reshape', ['t', 'os'], ['out'])]
    for k, x in enumerate(nodes):
        x.name = 'n%d' % k
    vi = helper.make_tensor_value_info
    g = helper.make_graph(nodes, 'g', [vi('images', 1, [1, 3] + list(size))], [vi('out', 1, [1, N, 6])], init)
    onnx.save(helper.make_model(g, opset_imports=[helper.make_opsetid('', 13)], ir_version=8), path)


def check_eval(case):
    size, imgs = case['size'], case['imgs']
    N = max([len(m['rows']) for m in imgs] + [1])
    table = np.zeros((len(imgs), N, 6))
    for k, m in enumerate(imgs):
        s = min(size[0] / m['H'], size[1] / m['W'])
        w, h = int(m['W'] * s), int(m['H'] * s)
        left, top = (size[1] - w) // 2, (size[0] - h) // 2
        m['rect'] = (left, top, w, h)
        for j, (b, c, score) in enumerate(m['rows']):
            table[k, j] = [b[0] * s + left, b[1] * s + top, b[2] * s + left, b[3] * s + top, score, c]
    d = tempfile.mkdtemp(prefix='c35')
    try:
        os.makedirs(os.path.join(d, 'val2017'))
        names = {}
        for k, m in enumerate(imgs):
            # in the order of the file names or against it
            n = '%02d.jpg' % (k if case['named'] else len(imgs) - k)
            p = os.path.join(d, 'val2017', n)
            open(p, 'w').close()
            IMAGES[os.path.realpath(p)] = np.full((m['H'], m['W'], 3), 20 * (k + 1), np.uint8)
            names[m['id']] = n
        order = [imgs[k] for k in case['order']]
        anns = [a for m in order for a in m['anns']]
        gt = dict(images=[dict(id=m['id'], file_name=names[m['id']], width=m['W'], height=m['H']) for m in order], categories=[dict(id=c, name='k%d' % c) for c in case['cats']],
                  annotations=[dict(id=k, image_id=a[0], category_id=a[1], bbox=[a[2][0], a[2][1], a[2][2] - a[2][0], a[2][3] - a[2][1]], area=1.0, iscrowd=0) for k, a in enumerate(anns)])
        anno = os.path.join(d, 'instances.json')
        json.dump(gt, open(anno, 'w'))
        detector(table, size, os.path.join(d, 'm.onnx'))
        with sut('loading the detector'):
            ev = yolo_eval.YOLOEvaluator(os.path.join(d, 'm.onnx'), input_size=tuple(size), conf_thres=case['conf'])
        # the images as the model sees them
        for m in imgs:
            with sut('loading an image of %dx%d' % (m['W'], m['H'])):
                x, info = yolo_eval.load_image(os.path.join(d, 'val2017', names[m['id']]), tuple(size))
            left, top, w, h = m['rect']
            want = np.full([1, 3] + size, 114 / 255, np.float32)
            want[:, :, top:top + h, left:left + w] = 20 * (imgs.index(m) + 1) / 255
            require(x.shape == want.shape and x.dtype == np.float32 and np.allclose(x, want, atol=1e-6), 'an image of %dx%d loaded for %s is not scaled to %dx%d at %d,%d between grey borders', m['W'], m['H'], size, w, h, left, top)
            require(np.allclose([float(v) for v in info], [left, top, min(size[0] / m['H'], size[1] / m['W'])]), 'an image of %dx%d for %s: borders and scale %s', m['W'], m['H'], size, info)
        used = order if case['how'] not in ('dir', 'bare') else sorted(imgs, key=lambda m: names[m['id']])
        if case['limit'] > 0:
            used = used[:case['limit']]
        began = time.time()
        with sut('evaluating %d images (%s)' % (len(used), case['how'])):
            if case['how'] == 'coco':
                res = ev.evaluate_coco(anno, max_images=case['limit'])
            elif case['how'] == 'curve':
                out = os.path.join(d, 'pr.json')
                yolo_eval.export_pr_curve(ev, anno, out, max_images=case['limit'] if case['limit'] > 0 else 100, num_thresholds=4)
                res = json.load(open(out))
            else:
                res = ev.evaluate_image_dir(os.path.join(d, 'val2017'), max_images=case['limit'], **({'anno_file': anno} if case['how'] == 'dir' else {}))
        spent = time.time() - began
    finally:
        IMAGES.clear()
        shutil.rmtree(d)
    if case['how'] == 'curve':
        return check_curve(case, used, res)
    require(res['num_images'] == len(used), '%d images are evaluated, not %d', res['num_images'], len(used))
    total = res['total_time']
    if 0 <= spent < 60:
        require(total <= spent + 0.5 and abs(res['avg_time_ms'] * len(used) - total * 1000) < 1 and abs(res['fps'] * total - (len(used) if total > 0 else 0)) < 1e-3,
                '%d images in %s s: %s ms each, %s per second, all in %s s', len(used), total, res['avg_time_ms'], res['fps'], spent)
    dets = []
    for m in used:
        s = min(size[0] / m['H'], size[1] / m['W'])
        left, top = m['rect'][:2]
        kept, _, _ = ref_post(table[imgs.index(m)][:len(m['rows'])].tolist(), size, case['conf'], 0.45, 300, 1e-3)
        if any(abs(r[2] - case['conf']) < 1e-3 for r in m['rows']):
            raise Skip('a score at the threshold')
        for x1, y1, x2, y2, c, score in kept:
            dets.append((m['id'], case['cats'][int(round(c))], score, [(x1 - left) / s, (y1 - top) / s, (x2 - left) / s, (y2 - top) / s]))
    if case['how'] in ('dir', 'bare'):
        require([x['file_name'] for x in res['detections']] == [names[m['id']] for m in used], 'detections of %s, not of %s', [x['file_name'] for x in res['detections']], [names[m['id']] for m in used])
        n = [len(x['scores']) for x in res['detections']]
        require(n == [sum(x[0] == m['id'] for x in dets) for m in used], 'numbers of detections %s', n)
        for m, x in zip(used, res['detections']):
            got = sorted([float(v), float(c)] + [float(y) for y in b] for v, c, b in zip(x['scores'], x['labels'], np.asarray(x['boxes'])))
            mine = sorted([y[2], float(case['cats'].index(y[1]))] + list(y[3]) for y in dets if y[0] == m['id'])
            require(np.allclose(np.array(got), np.array(mine), atol=2e-3), 'image of %dx%d at %s: detections %s, not %s', m['W'], m['H'], m['rect'], got, mine)
    if case['how'] == 'bare':
        require('mAP@0.5' not in res, 'a precision without annotations: %s', res.get('mAP@0.5'))
        return Info(len(dets) > 0, ['bare'])
    thrs = np.linspace(0.5, 0.95, 10).tolist()
    want = ref_metrics(dets, [tuple(a) for m in used for a in m['anns']], case['cats'], thrs, 1e-3)
    i = compare(res, want, thrs, '%s, image sizes %s for %s, %d of %d images, categories %s' % (case['how'], [(m['W'], m['H']) for m in used], size, len(used), len(imgs), case['cats']), 1e-4)
    return Info(i.nontrivial, [case['how']] + ['limited'] * (len(used) < len(imgs)))


def check_curve(case, used, res):
    dets = [(m['id'], case['cats'][c], s, b) for m in used for b, c, s in m['rows']]
    pts = res['pr_points']
    require(np.allclose([p['threshold'] for p in pts], np.linspace(0.01, 0.99, 4)), 'the curve is at %s', [p['threshold'] for p in pts])
    inner = False
    for p in pts:
        t = p['threshold']
        if any(abs(x[2] - t) < 1e-3 for x in dets):
            raise Skip('a score at the threshold')
        now = [x for x in dets if x[2] > t]
        require(p['num_detections'] == len(now), 'curve at %s: %s detections, not %d', t, p['num_detections'], len(now))
        lo, hi = ref_metrics(now, [tuple(a) for m in used for a in m['anns']], case['cats'], [0.5], 1e-3)[0.5]
        require(lo - 1e-4 <= p['mAP@0.5'] <= hi + 1e-4, 'curve at %s: mAP@0.5 is %s, not %.6f (image sizes %s for %s)', t, p['mAP@0.5'], hi, [(m['W'], m['H']) for m in used], case['size'])
        inner = inner or 1e-3 < hi < 1 - 1e-3
    return Info(inner, ['curve'])


def provided(fn):
    def run(case):
        faketorch.WANTED.clear()
        try:
            return fn(case)
        except Violation as v:
            if faketorch.WANTED or 'unexpected keyword argument' in str(v):
                raise Skip('not provided by the stand-in: %s' % sorted(faketorch.WANTED))
            raise
    return run


SUBS = [Sub('post', rows_cases, provided(check_post), 6000, 80000), Sub('metrics', metric_cases, provided(check_metrics), 6000, 80000), Sub('evaluate', eval_cases, provided(check_eval), 2000, 25000)]
