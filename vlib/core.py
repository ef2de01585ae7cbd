"""Common machinery: components (generator + oracle), deterministic runner, evidence, replay."""
import contextlib, hashlib, io, json, math, multiprocessing, os, shutil, signal, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CASE_TIMEOUT = 120          # s; cases take milliseconds
SHRINK_BUDGET = 25          # s of shrinking after the first failure


class Violation(AssertionError):
    """The property does not hold for this case."""


class CaseTimeout(Exception):
    pass


class _Abort(BaseException):
    """Stops hypothesis early (time budget); never a verdict by itself."""


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Ctx(object):
    """Per-case context: a scratch directory, labels, and the non-triviality verdict."""

    def __init__(self, dirname):
        self.dir = dirname
        self.labels = []
        self.trivial = False
        self._n = 0

    def path(self, name):
        return os.path.join(self.dir, name)

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def nontrivial(self, flag):
        if not flag:
            self.trivial = True


# quick tier: number of independent searches (each with its own derived seed) per component, so that a check takes about half a minute
REPEAT = dict(C02=3, C03=6, C04=6, C05=6, C06=12, C07=8, C08=8, C09=5, C11=6, C12=3, C13=4, C14=12, C15=10, C16=8, C17=6, C18=2, C19=6, C20=3)


class Component(object):
    def __init__(self, name, strategy, check, quick=200, thorough=4000, doc='', shards=1):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough, self.doc, self.shards = quick, thorough, doc, shards


# ------------------------------------------------------------------ JSON of cases
def dumps(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True, allow_nan=True)


def case_hash(case):
    return hashlib.sha1(dumps(case).encode()).hexdigest()[:16]


def brief(case, n=700):
    s = dumps(case)
    return s if len(s) <= n else s[:n] + '...(%d chars)' % len(s)


# ------------------------------------------------------------------ executing one case
@contextlib.contextmanager
def quiet():
    """Silence the code under test (it prints), including output of C code."""
    out, err = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = out, err


def _on_alarm(signum, frame):
    raise CaseTimeout('case did not finish within %d s' % CASE_TIMEOUT)


def run_case(comp, case, scratch):
    """Run one case; returns ctx or raises. Exceptions other than environment trouble are violations."""
    d = os.path.join(scratch, 'c')
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.mkdir(d)
    ctx = Ctx(d)
    cwd = os.getcwd()
    old = signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)
    try:
        import warnings
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            # each case gets its own copy, so that a check cannot leak state through the case
            comp.check(json.loads(dumps(case)), ctx)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        if os.getcwd() != cwd:
            os.chdir(cwd)
    return ctx


def is_environment_error(e):
    if isinstance(e, MemoryError):
        return True
    if isinstance(e, OSError) and e.errno in (28, 12, 24, 23, 30, 122):  # ENOSPC ENOMEM EMFILE ENFILE EROFS EDQUOT
        return True
    return False


def describe(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = ''
    for fr in tb:
        where = '%s:%d in %s' % (os.path.basename(fr.filename), fr.lineno, fr.name)
    return '%s: %s [%s]' % (type(e).__name__, str(e)[:600], where)


# ------------------------------------------------------------------ worker: one component, one shard
def worker(args):
    modname, compname, tier, seed, shard, budget, limit = args
    from . import deps
    deps.ensure()
    import importlib
    t0 = time.time()
    res = dict(component=compname, shard=shard, evaluations=0, distinct=0, trivial=0, labels={}, samples=[],
               failure=None, error=None, stopped_early=False, hashes=[])
    scratch = tempfile.mkdtemp(prefix='verif-')
    home = os.path.join(scratch, 'home')
    os.mkdir(home)
    os.environ['HOME'] = home
    try:
        mod = importlib.import_module(modname)
        comp = [c for c in mod.COMPONENTS if c.name == compname][0]
        import hypothesis
        deps.plain_strings()
        from hypothesis import settings, HealthCheck, Phase, given
        n = comp.quick if tier == 'quick' else comp.thorough
        seen = set()
        state = dict(fail=None, first=None)

        def body(case):
            now = time.time()
            if state['first'] is not None and now - state['first'] > SHRINK_BUDGET:
                raise _Abort('shrink budget')
            if state['first'] is None and budget and now - t0 > budget:
                raise _Abort('time budget')
            if state['first'] is None:
                res['evaluations'] += 1
            try:
                ctx = run_case(comp, case, scratch)
            except Exception as e:
                if is_environment_error(e):
                    raise _Abort('environment: %s' % describe(e))
                if isinstance(e, CaseTimeout) and state['first'] is None:
                    state['first'] = now - SHRINK_BUDGET    # do not shrink hangs
                if state['first'] is None:
                    state['first'] = now
                s = dumps(case)
                if state['fail'] is None or len(s) <= len(dumps(state['fail'][0])):
                    state['fail'] = (case, describe(e), traceback.format_exc())
                raise
            if state['first'] is None:
                for l in set(ctx.labels):
                    res['labels'][l] = res['labels'].get(l, 0) + 1
                if ctx.trivial:
                    res['trivial'] += 1
                else:
                    h = case_hash(case)
                    if h not in seen:
                        seen.add(h)
                        if len(res['samples']) < 2 or (len(seen) % max(1, n // 3) == 0 and len(res['samples']) < 4):
                            res['samples'].append(dict(component=compname, case=brief(case)))

        hseed = int(hashlib.sha1(('%s/%s/%d/%d' % (modname, compname, seed, shard)).encode()).hexdigest()[:12], 16)
        fn = given(comp.strategy)(body)
        fn = hypothesis.seed(hseed)(fn)
        fn = settings(max_examples=n, database=None, deadline=None, derandomize=False, print_blob=False,
                      report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
                      phases=(Phase.generate, Phase.shrink))(fn)
        try:
            with quiet():
                fn()
        except _Abort as e:
            res['stopped_early'] = True
            if str(e).startswith('environment'):
                res['error'] = str(e)
        except BaseException as e:
            if state['fail'] is None:
                res['error'] = 'harness: ' + describe(e) + '\n' + traceback.format_exc()
        if state['fail'] is not None:
            case, msg, tb = state['fail']
            res['failure'] = dict(case=case, message=msg, traceback=tb)
        res['distinct'] = len(seen)
        res['hashes'] = sorted(seen)
    except BaseException as e:
        res['error'] = 'harness: ' + describe(e) + '\n' + traceback.format_exc()
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)
    res['wall'] = round(time.time() - t0, 2)
    return res


# ------------------------------------------------------------------ known findings
def load_findings(prop):
    """Lines 'open: property=<id> component=<c> case=<json> what=<text>' of known_findings.txt."""
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if not os.path.exists(p):
        return out
    for line in io.open(p, encoding='utf-8'):
        line = line.strip()
        if not line.startswith('open:') or ' property=%s ' % prop not in ' ' + line[5:] + ' ':
            continue
        comp = line.split('component=', 1)[1].split(' ', 1)[0]
        case, what = line.split('case=', 1)[1].split(' what=', 1)
        out.append(dict(component=comp, case=json.loads(case), what=what.strip()))
    return out


def probe_worker(args):
    modname, compname, case = args
    from . import deps
    deps.ensure()
    import importlib
    scratch = tempfile.mkdtemp(prefix='verif-')
    os.environ['HOME'] = scratch
    try:
        mod = importlib.import_module(modname)
        comps = list(mod.COMPONENTS) + list(getattr(mod, 'PROBES', []))
        comp = [c for c in comps if c.name == compname][0]
        try:
            run_case(comp, case, scratch)
            return None
        except Exception as e:
            return describe(e) + '\n' + traceback.format_exc()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


# ------------------------------------------------------------------ main
def run_property(prop, tier, seed, only=None, scale=1.0, jobs=None):
    modname = 'props.' + prop.lower()
    t0 = time.time()
    from . import deps
    deps.ensure()
    import importlib
    with quiet():
        mod = importlib.import_module(modname)
    comps = [c for c in mod.COMPONENTS if only is None or c.name in only]
    jobs = jobs or int(os.environ.get('VERIF_JOBS', '8'))
    tasks = []
    if tier == 'quick':
        for c in comps:
            c.quick = max(1, int(c.quick * scale))
            # expensive components are split over several processes, each with its own derived seed
            ns = c.shards * REPEAT.get(prop, 1)
            for s in range(ns):
                tasks.append((modname, c.name, tier, seed, s, 400, None))
    else:
        budget = float(os.environ.get('VERIF_THOROUGH_S', '600'))
        for s in range(8):
            for c in comps:
                tasks.append((modname, c.name, tier, seed, 1000 + s, budget * jobs / (8.0 * len(comps)), None))
    ctx = multiprocessing.get_context('fork')
    results = []
    with ctx.Pool(min(jobs, len(tasks)), maxtasksperchild=1) as pool:
        findings = load_findings(prop)
        fr = [(f, pool.apply_async(probe_worker, ((modname, f['component'], f['case']),))) for f in findings]
        for r in pool.imap_unordered(worker, tasks, chunksize=1):
            results.append(r)
        for f, r in fr:
            if r.get() is not None:
                print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
    results.sort(key=lambda r: (r['component'], r['shard']))
    errors, failures = [], []
    per = {}
    for r in results:
        p = per.setdefault(r['component'], dict(evaluations=0, distinct_nontrivial=0, trivial=0, labels={}, wall_s=0.0, stopped_early=False))
        p['evaluations'] += r['evaluations']
        p['distinct_nontrivial'] += r['distinct']
        p['trivial'] += r['trivial']
        p['wall_s'] = round(p['wall_s'] + r.get('wall', 0), 1)
        p['stopped_early'] |= r['stopped_early']
        for k, v in r['labels'].items():
            p['labels'][k] = p['labels'].get(k, 0) + v
        if r['error']:
            errors.append(r)
        if r['failure']:
            failures.append(r)
    for name, p in per.items():   # count distinct over shards
        hs = set()
        for r in results:
            if r['component'] == name:
                hs.update(r['hashes'])
        p['distinct_nontrivial'] = len(hs)
    ev = sum(p['evaluations'] for p in per.values())
    di = sum(p['distinct_nontrivial'] for p in per.values())
    samples = [s for r in results for s in r['samples']]
    if len(samples) > 24:
        by = {}
        for s in samples:
            by.setdefault(s['component'], []).append(s)
        samples = [s for k in sorted(by) for s in by[k][:2]][:40]
    wall = round(time.time() - t0, 2)
    evidence = dict(property=prop, tier=tier, seed=seed, level='exploration', wall_s=wall, violations=len(failures),
                    coverage=dict(evaluations=ev, distinct_nontrivial=di, rule=mod.RULE, samples=samples, components=per),
                    assumptions=list(getattr(mod, 'ASSUMPTIONS', [])))
    if only is None:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        tmp = os.path.join(HERE, 'evidence', '.%s.tmp' % prop)
        with io.open(tmp, 'w', encoding='utf-8') as f:
            f.write(json.dumps(evidence, indent=1, sort_keys=True, default=str))
        os.replace(tmp, os.path.join(HERE, 'evidence', prop + '.json'))
    for name in sorted(per):
        p = per[name]
        print('  %-28s evaluations=%d distinct_nontrivial=%d wall=%.1fs%s' %
              (name, p['evaluations'], p['distinct_nontrivial'], p['wall_s'], ' (stopped early)' if p['stopped_early'] else ''))
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s' % (prop, tier, seed, ev, di, wall))
    rc = 0
    seen = set()
    for r in failures:
        if r['component'] in seen:
            continue
        seen.add(r['component'])
        rd = os.path.join(HERE, 'replays', prop)
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, '%s-%s.json' % (r['component'], case_hash(r['failure']['case'])))
        with io.open(path, 'w', encoding='utf-8') as f:
            f.write(json.dumps(dict(property=prop, component=r['component'], seed=seed, case=r['failure']['case'],
                                    message=r['failure']['message'], traceback=r['failure']['traceback']), indent=1))
        print('  component %s: %s' % (r['component'], r['failure']['message']))
        print('  case: %s' % brief(r['failure']['case']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        rc = 1
    if errors:
        for r in errors:
            print('ERROR component %s: %s' % (r['component'], r['error']))
        if rc == 0:
            rc = 3
    sys.stdout.flush()
    return rc


def replay(path):
    d = json.load(io.open(path, encoding='utf-8'))
    msg = probe_worker(('props.' + d['property'].lower(), d['component'], d['case']))
    print('case: %s' % brief(d['case'], 4000))
    if msg is None:
        print('case passes')
        return 0
    print(msg)
    print('VIOLATION property=%s replay=%s' % (d['property'], path))
    return 1
