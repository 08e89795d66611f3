"""Harness core: Hypothesis-driven checks, replay, known findings, evidence.

A check module (vt/checks/<id>.py) defines
    PROPERTY  id
    RULE      how cases are made and what makes one non-trivial
    SUBS      list of Sub(name, strategy, fn, quick, thorough)
fn(case) gets a JSON-able case, raises Violation when the oracle is contradicted, and returns
an Info(nontrivial, labels) otherwise.  Everything random is drawn by the Hypothesis strategy;
fn is a pure function of the code under test and the case.
"""
import collections, contextlib, hashlib, io, json, multiprocessing, os, signal, sys, tempfile, time, traceback, warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
CASE_TIMEOUT = 120


class Violation(Exception):
    pass


class HarnessError(Exception):
    pass


class Skip(Exception):
    """The case is outside the property's domain (counted)."""


class Info:
    __slots__ = ('nontrivial', 'labels')

    def __init__(self, nontrivial=True, labels=()):
        self.nontrivial = nontrivial
        self.labels = list(labels)


class Sub:
    def __init__(self, name, strategy, fn, quick, thorough=None, shards=None):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough = quick, thorough if thorough is not None else quick * 12
        self.shards = shards


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


@contextlib.contextmanager
def sut(what):
    """Code under test runs here on valid input: any exception is a violation."""
    try:
        yield
    except (Violation, Skip, _Hang):
        raise
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise
        raise Violation('%s raised %s: %s' % (what, type(e).__name__, str(e)[:300]))


class _Hang(BaseException):
    pass


def in_child(fn, *args):
    """fn(*args) in a forked process, so that whatever the code under test leaves behind in the process is dropped;
    the result must be JSON-able."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.alarm(CASE_TIMEOUT)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            try:
                out = ('ok', run_raw(fn, args))
            except Violation as e:
                out = ('violation', str(e))
            except Skip as e:
                out = ('skip', str(e))
            except HarnessError as e:
                out = ('harness', str(e))
            with os.fdopen(w, 'w') as f:
                json.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r) as f:
            data = f.read()
    except _Hang:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    os.waitpid(pid, 0)
    if not data:
        raise Violation('the process running the case died')
    kind, val = json.loads(data)
    if kind == 'ok':
        return val
    raise {'violation': Violation, 'skip': Skip, 'harness': HarnessError}[kind](val)


def run_raw(fn, args):
    try:
        return fn(*args)
    except (Violation, Skip, HarnessError):
        raise
    except BaseException as e:
        if in_repo_traceback(e):
            raise Violation('unexpected %s: %s' % (type(e).__name__, str(e)[:300]))
        raise HarnessError(''.join(traceback.format_exception(type(e), e, e.__traceback__)))


def _alarm(signum, frame):
    raise _Hang()


def in_repo_traceback(e):
    tb = e.__traceback__
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(REPO + '/'):
            return True
        tb = tb.tb_next
    return False


def run_case(fn, case):
    """-> Info; raises Violation or HarnessError or Skip."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = fn(case)
        return r if isinstance(r, Info) else Info()
    except (Violation, Skip, HarnessError):
        raise
    except _Hang:
        raise Violation('no result after %d s (typical cases take milliseconds)' % CASE_TIMEOUT)
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        if in_repo_traceback(e):
            tb = traceback.extract_tb(e.__traceback__)
            last = [f for f in tb if f.filename.startswith(REPO + '/')][-1]
            raise Violation('unexpected %s in %s:%s: %s' % (
                type(e).__name__, os.path.basename(last.filename), last.name, str(e)[:300]))
        raise HarnessError(''.join(traceback.format_exception(type(e), e, e.__traceback__)))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def canon(case):
    return json.dumps(case, sort_keys=True, default=str)


def digest(case):
    return hashlib.sha1(canon(case).encode()).digest()[:10]


def _shard(args):
    modname, subidx, shard, nex, seed, budget = args
    import importlib
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = 25
    sys.stdout = open(os.devnull, 'w')
    mod = importlib.import_module(modname)
    sub = mod.SUBS[subidx]
    res = dict(sub=sub.name, evaluations=0, skipped=0, nontrivial=set(), distinct=set(), labels=collections.Counter(),
               samples=[], fail=None, error=None, cutoff=False)
    t0 = time.time()
    state = dict(failed=False)

    class _Stop(BaseException):
        pass

    def body(case):
        if not state['failed'] and time.time() - t0 > budget:
            res['cutoff'] = True
            return
        case = json.loads(json.dumps(case))
        try:
            info = run_case(sub.fn, case)
        except Skip as s:
            if not state['failed']:
                res['evaluations'] += 1
                res['skipped'] += 1
                res['labels']['skip:' + str(s)] += 1
            return
        except Violation as v:
            state['failed'] = True
            res['fail'] = (case, str(v))
            raise
        except HarnessError as e:
            res['error'] = (case, str(e))
            raise
        if not state['failed']:
            res['evaluations'] += 1
            d = digest(case)
            res['distinct'].add(d)
            if info.nontrivial:
                if d not in res['nontrivial'] and len(res['samples']) < 2:
                    res['samples'].append(case)
                res['nontrivial'].add(d)
            res['labels'].update(info.labels)

    test = hypothesis.seed(seed)(settings(max_examples=nex, database=None, deadline=None, report_multiple_bugs=False,
                                          suppress_health_check=list(HealthCheck),
                                          phases=(Phase.generate, Phase.shrink))(given(sub.strategy())(body)))
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            test()
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        if res['fail'] is None and res['error'] is None:
            res['error'] = (None, ''.join(traceback.format_exception(type(e), e, e.__traceback__)))
    res['wall'] = time.time() - t0
    return res


def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == prop and k.get('status') == 'open']


def main(argv):
    import importlib
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    only = None
    replay = None
    scale = 1.0
    it = iter(argv[1:])
    for a in it:
        if a == '--tier':
            tier = next(it)
        elif a == '--replay':
            replay = next(it)
        elif a == '--sub':
            only = next(it)
        elif a == '--scale':
            scale = float(next(it))
        elif a == '--seed':
            seed = int(next(it))
    modname = 'vt.checks.' + prop.lower()
    mod = importlib.import_module(modname)
    subs = {s.name: s for s in mod.SUBS}
    if replay:
        rec = json.load(open(replay))
        try:
            sys_stdout, sys.stdout = sys.stdout, open(os.devnull, 'w')
            try:
                run_case(subs[rec['sub']].fn, rec['case'])
            finally:
                sys.stdout = sys_stdout
        except Violation as v:
            print('reproduced:', v)
            print('VIOLATION property=%s replay=%s' % (prop, replay))
            return 1
        except Skip as s:
            print('skipped', s)
            return 0
        except HarnessError as e:
            print(e)
            return 2
        print('does not fail')
        return 0

    t0 = time.time()
    known = load_known(prop)
    known_lines = []
    for k in known:
        so, sys.stdout = sys.stdout, open(os.devnull, 'w')
        try:
            run_case(subs[k['sub']].fn, k['case'])
            msg = None
        except Violation as v:
            msg = str(v)
        except Skip as s:
            msg = None
        finally:
            sys.stdout = so
        if msg is not None:
            line = 'KNOWN-FINDING: property=%s %s [%s]' % (prop, k['what'], k['id'])
            known_lines.append(line)
            print(line)
        else:
            print('note: listed finding %s no longer fails' % k['id'])

    ncpu = min(8, os.cpu_count() or 1)
    budget = float(os.environ.get('VERIF_BUDGET', '300' if tier == 'quick' else '3000'))
    tasks = []
    for i, s in enumerate(mod.SUBS):
        if only and s.name != only:
            continue
        n = max(1, int((s.quick if tier == 'quick' else s.thorough) * scale))
        shards = s.shards or max(1, min(16 if tier == 'thorough' else 8, n // 25))
        for j in range(shards):
            h = hashlib.sha256(('%s/%s/%d/%d' % (prop, s.name, seed, j)).encode()).digest()
            tasks.append((modname, i, j, (n + shards - 1) // shards, int.from_bytes(h[:8], 'big'), budget))
    ctx = multiprocessing.get_context('fork')
    results = []
    died = 0
    if os.environ.get('VERIF_SERIAL'):
        so = sys.stdout
        for t in tasks:
            results.append(_shard(t))
            sys.stdout = so
    else:
        import concurrent.futures as cf
        with cf.ProcessPoolExecutor(ncpu, mp_context=ctx) as ex:
            futs = [ex.submit(_shard, t) for t in tasks]
            for f in futs:
                try:
                    results.append(f.result())
                except Exception as e:
                    died += 1
                    print('worker died:', repr(e))
    agg = collections.OrderedDict()
    violations = 0
    errors = died
    labels = collections.Counter()
    nontriv, distinct = set(), set()
    samples = []
    evals = 0
    cut = 0
    for r in results:
        a = agg.setdefault(r['sub'], dict(evaluations=0, distinct_nontrivial=set(), skipped=0, wall_s=0, fails=[]))
        a['evaluations'] += r['evaluations']
        a['skipped'] += r['skipped']
        a['wall_s'] += r.get('wall', 0)
        a['distinct_nontrivial'] |= r['nontrivial']
        evals += r['evaluations']
        cut += bool(r['cutoff'])
        nontriv |= {(r['sub'], d) for d in r['nontrivial']}
        for k, v in r['labels'].items():
            labels[r['sub'] + ':' + k] += v
        if len([s for s in samples if s['sub'] == r['sub']]) < 2:
            for c in r['samples'][:1]:
                samples.append(dict(sub=r['sub'], case=c))
        if r['error']:
            errors += 1
            print('HARNESS ERROR in %s on %s\n%s' % (r['sub'], canon(r['error'][0])[:2000], r['error'][1]))
        if r['fail']:
            a['fails'].append(r['fail'])
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    for name, a in agg.items():
        if a['fails']:
            case, msg = min(a['fails'], key=lambda cm: len(canon(cm[0])))
            violations += 1
            h = hashlib.sha1(canon(case).encode()).hexdigest()[:12]
            path = os.path.join('replays', '%s-%s-%s.json' % (prop, name, h))
            json.dump(dict(property=prop, sub=name, case=case, message=msg), open(os.path.join(VERIF, path), 'w'), indent=1)
            print('%s/%s: %s' % (prop, name, msg))
            print('  case: %s' % canon(case)[:1500])
            print('VIOLATION property=%s replay=%s' % (prop, path))
    wall = time.time() - t0
    for name, a in agg.items():
        a['distinct_nontrivial'] = len(a['distinct_nontrivial'])
        a.pop('fails')
        a['wall_s'] = round(a['wall_s'], 2)

    def short(c):
        s = canon(c)
        return c if len(s) < 3000 else s[:3000] + '...'
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=evals, distinct_nontrivial=len(nontriv), rule=mod.RULE,
                            samples=[dict(sub=s['sub'], case=short(s['case'])) for s in samples],
                            per_generator=agg, classes=dict(sorted(labels.items())),
                            shards_cut_by_budget=cut, known_findings=known_lines),
              assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(wall, 2), violations=violations)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not only and scale == 1.0:
        json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %d errors, %.1f s' % (
        prop, tier, seed, evals, len(nontriv), violations, errors, wall))
    if os.environ.get('VERIF_LABELS'):
        for k, v in sorted(labels.items()):
            print('   ', k, v)
    if violations:
        return 1
    if errors:
        return 2
    if cut and cut == len(results):
        return 2
    return 0
