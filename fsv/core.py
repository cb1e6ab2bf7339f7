"""Runner for the checks: generated-input search with Hypothesis, sharded over processes, shrinking, replay, evidence.

A property module (fsv/props/<id>.py) defines
    RULE     what makes a case non-trivial
    FACETS   a list of Facet(name, strategy, check, quick, thorough)
A facet's strategy generates JSON-able cases; check(case, ctx) raises Violation when the property is broken on the case,
and calls ctx.nt() when the case is non-trivial and ctx.label(..) to classify it.
"""
import sys, os, json, time, zlib, traceback, hashlib, importlib, signal, collections, random, io, contextlib

HYPO = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
try:
    import hypothesis  # noqa: F401
except ImportError:
    sys.path.append(HYPO)

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get('FSV_REPO', '/repo'))
SRC = os.path.join(REPO, 'src') + os.sep

CASE_TIMEOUT = 150        # seconds of CPU time for a single case, typical cases take milliseconds (three times as much by the clock)
CASE_MEMORY = 3500        # MB of address space for a worker process, typical cases stay below 400


class Violation(Exception):
    """The property does not hold on this case."""


class CaseTimeout(Exception):
    """The code under test did not return for this case."""


class HarnessError(Exception):
    pass


class Facet:
    def __init__(self, name, strategy, check, quick=200, thorough=None, doc=''):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough = quick, thorough or quick * 20
        self.doc = doc or (check.__doc__ or '').strip()


class Ctx:
    def __init__(self):
        self.nontrivial = False
        self.labels = []

    def nt(self, flag=True):
        if flag:
            self.nontrivial = True

    def label(self, *names):
        self.labels.extend(names)


def classify_exception(exc):
    """Return a message when the exception counts as a violation, None when it is an error of the harness."""
    if isinstance(exc, Violation):
        return str(exc)
    if isinstance(exc, CaseTimeout):
        return 'the case did not finish within %d s' % CASE_TIMEOUT
    if isinstance(exc, MemoryError):
        return 'the case needs more than %d MB of memory' % CASE_MEMORY
    frames = traceback.extract_tb(exc.__traceback__)
    inrepo = [f for f in frames if os.path.realpath(f.filename).startswith(SRC)]
    if inrepo:
        f = inrepo[-1]
        return 'unexpected %s: %s (raised at %s:%s)' % (type(exc).__name__, str(exc)[:300], f.filename[len(SRC):], f.lineno)
    if any(f.name in ('simulate', 'expected') and f.filename.startswith(HERE) for f in frames):
        return None             # the reference model works on the case alone
    if isinstance(exc, (AttributeError, KeyError, IndexError, TypeError, ValueError)):
        # the check reads results of the code under test; results of the documented form never lead to these
        return 'the result does not have the documented form: %s: %s (at %s:%s)' % (
            type(exc).__name__, str(exc)[:300], os.path.basename(frames[-1].filename), frames[-1].lineno)
    return None


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(facet, case, ctx, timeout=CASE_TIMEOUT):
    """Run one case; returns None or the violation message. Raises HarnessError for errors of the harness."""
    old = signal.signal(signal.SIGALRM, _alarm), signal.signal(signal.SIGPROF, _alarm)
    signal.alarm(3 * timeout)
    signal.setitimer(signal.ITIMER_PROF, timeout)
    random.seed(zlib.crc32(json.dumps(case, sort_keys=True).encode()))       # the same for every run of this case
    sink = io.StringIO()
    try:
        with contextlib.redirect_stdout(sink):
            facet.check(json.loads(json.dumps(case)), ctx)
        return None
    except Exception as exc:   # noqa: BLE001
        msg = classify_exception(exc)
        if msg is None:
            raise HarnessError(traceback.format_exc() + '\ncase: ' + json.dumps(case)[:2000])
        return msg
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGALRM, old[0])
        signal.signal(signal.SIGPROF, old[1])


def run_shard(prop, facet_name, count, seedval, deadline, stop):
    """Run 'count' generated cases of one facet. Returns a dict with statistics and the shrunk failure, if any."""
    import warnings
    warnings.simplefilter('ignore')
    import hypothesis
    from hypothesis import settings, given, seed, HealthCheck, Phase
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = 25
    # Hypothesis follows each new case by mutations of it, which are close to it; in three of four shards all cases are independent
    runner = eng.ConjectureRunner
    if not hasattr(runner, 'fsv_mutate'):
        runner.fsv_mutate = runner.generate_mutations_from
    runner.generate_mutations_from = runner.fsv_mutate if seedval % 4 == 0 else (lambda self, data: None)
    facet = next(f for f in load(prop).FACETS if f.name == facet_name)
    out = dict(facet=facet_name, evaluations=0, nontrivial=[], labels={}, samples=[], failure=None, error=None, skipped=0)
    labels = collections.Counter()
    seen = set()
    state = dict(failing=False, last=None)

    class Failed(Exception):
        pass

    def test(case):
        if not state['failing'] and (time.time() > deadline or stop.is_set()):
            out['skipped'] += 1
            return
        ctx = Ctx()
        msg = run_case(facet, case, ctx, 30 if state['failing'] else CASE_TIMEOUT)
        if not state['failing']:
            out['evaluations'] += 1
            labels.update(set(ctx.labels))
            if ctx.nontrivial:
                h = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]
                if h not in seen:
                    seen.add(h)
                    if len(out['samples']) < 3:
                        out['samples'].append(case)
        if msg is not None:
            state['failing'] = True
            state['last'] = (case, msg)
            raise Failed(msg)

    wrapped = seed(seedval)(settings(
        max_examples=count, database=None, deadline=None, derandomize=False, print_blob=False,
        report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
        phases=(Phase.generate,) if os.environ.get('FSV_NOSHRINK') else (Phase.generate, Phase.shrink), verbosity=hypothesis.Verbosity.quiet)(given(facet.strategy)(test)))
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            wrapped()
    except HarnessError as exc:
        out['error'] = str(exc)
    except Exception:          # Failed, or Hypothesis reporting a flaky or failing test
        if state['last'] is None:
            out['error'] = traceback.format_exc()
    if state['last'] is not None:
        out['failure'] = dict(case=state['last'][0], message=state['last'][1])
        stop.set()
    out['nontrivial'] = sorted(seen)
    out['labels'] = dict(labels)
    return out


def load(prop):
    return importlib.import_module('fsv.props.' + prop)


def properties():
    names = sorted(f[:-3] for f in os.listdir(os.path.join(HERE, 'fsv', 'props')) if f[0] == 'P' and f.endswith('.py'))
    return names


def known_findings(prop):
    path = os.path.join(HERE, 'known_findings.json')
    with open(path) as f:
        data = json.load(f)
    return [e for e in data['findings'] if e['property'] == prop]


def shard_seed(base, prop, facet, index):
    return int(hashlib.sha256(('%d/%s/%s/%d' % (base, prop, facet, index)).encode()).hexdigest()[:12], 16)


def save_replay(prop, facet, case, message, tier, base):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1((facet + json.dumps(case, sort_keys=True)).encode()).hexdigest()[:10]
    path = os.path.join(d, '%s-%s-%s.json' % (prop, facet, h))
    with open(path, 'w') as f:
        json.dump(dict(property=prop, facet=facet, case=case, message=message, tier=tier, seed=base), f, indent=1)
    return os.path.relpath(path, HERE)


def worker(task):
    import resource
    prop, facet, count, s, deadline = task
    resource.setrlimit(resource.RLIMIT_AS, (CASE_MEMORY << 20, CASE_MEMORY << 20))
    try:
        return run_shard(prop, facet, count, s, deadline, STOP)
    except BaseException:      # noqa: BLE001
        return dict(facet=facet, evaluations=0, nontrivial=[], labels={}, samples=[], failure=None,
                    error=traceback.format_exc(), skipped=0)


STOP = None


def run(prop, tier):
    global STOP
    import multiprocessing as mp
    t0 = time.time()
    base = int(os.environ.get('VERIF_SEED', '1') or '1')
    mod = load(prop)
    import fock_state_circuit
    if not os.path.realpath(fock_state_circuit.__file__).startswith(SRC):
        print('HARNESS ERROR: the package was not imported from', SRC)
        return 2
    nproc = max(2, min(8, os.cpu_count() or 2))
    scale = float(os.environ.get('FSV_SCALE', '1'))
    if tier == 'quick':
        scale *= getattr(mod, 'SCALE', 1)      # fills about 20 s on 8 cores
    budget = float(os.environ.get('FSV_BUDGET', '300' if tier == 'quick' else '3000'))
    deadline = t0 + budget
    tasks = []
    for f in mod.FACETS:
        total = max(1, int((f.quick if tier == 'quick' else f.thorough) * scale))
        shards = max(1, min(nproc if tier == 'quick' else 4 * nproc, total // 12))
        for i in range(shards):
            n = total // shards + (1 if i < total % shards else 0)
            tasks.append((prop, f.name, n, shard_seed(base, prop, f.name, i), deadline))
    # regression cases first: recorded shrunk failures of earlier defects, run as plain cases
    results = []
    regress = []
    rdir = os.path.join(HERE, 'regress')
    if os.path.isdir(rdir):
        regress = sorted(p for p in os.listdir(rdir) if p.startswith(prop + '-') and p.endswith('.json'))
    failure = None
    errors = []
    for name in regress:
        with open(os.path.join(rdir, name)) as fh:
            rec = json.load(fh)
        facet = next((f for f in mod.FACETS if f.name == rec['facet']), None)
        if facet is None:
            continue
        try:
            msg = run_case(facet, rec['case'], Ctx())
        except HarnessError as exc:
            errors.append(str(exc))
            continue
        if msg is not None:
            failure = dict(facet=facet.name, case=rec['case'], message=msg)
            break
    if failure is None:
        ctx = mp.get_context('fork')
        STOP = ctx.Event()
        with ctx.Pool(nproc, maxtasksperchild=None) as pool:
            todo = pool.imap_unordered(worker, tasks)
            for _ in tasks:
                try:
                    results.append(todo.next(timeout=max(60, deadline + 240 - time.time())))
                except mp.TimeoutError:
                    errors.append('a worker process did not finish')
                    break
        results.sort(key=lambda r: (r['facet'], len(json.dumps(r['samples']))))
        fails = [r for r in results if r['failure']]
        if fails:
            r = min(fails, key=lambda r: len(json.dumps(r['failure']['case'])))
            failure = dict(facet=r['facet'], **r['failure'])
        errors += [r['error'] for r in results if r['error']]
    findings = known_findings(prop)
    for e in findings:
        print('KNOWN-FINDING: property=%s %s' % (prop, e['what']))
    facets = {}
    for r in results:
        d = facets.setdefault(r['facet'], dict(evaluations=0, nontrivial=set(), labels=collections.Counter(), samples=[], skipped=0))
        d['evaluations'] += r['evaluations']
        d['nontrivial'].update(r['nontrivial'])
        d['labels'].update(r['labels'])
        d['skipped'] += r['skipped']
        d['samples'].extend(r['samples'])
    samples = []
    for name, d in facets.items():
        for s in sorted(d['samples'], key=lambda s: -len(json.dumps(s)))[:2]:
            samples.append(dict(facet=name, case=s))
    wall = time.time() - t0
    evid = dict(
        property=prop, tier=tier, seed=base, level='exploration',
        coverage=dict(
            evaluations=sum(d['evaluations'] for d in facets.values()) + len(regress),
            distinct_nontrivial=sum(len(d['nontrivial']) for d in facets.values()),
            rule=mod.RULE, samples=samples[:24],
            regression_cases=len(regress),
            facets={n: dict(evaluations=d['evaluations'], distinct_nontrivial=len(d['nontrivial']),
                            not_run_for_time=d['skipped'],
                            labels={k: v for k, v in sorted(d['labels'].items())})
                    for n, d in sorted(facets.items())}),
        assumptions=getattr(mod, 'ASSUMPTIONS', []),
        wall_s=round(wall, 2), violations=1 if failure else 0)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evid, f, indent=1)
    for n, d in sorted(facets.items()):
        print('%s/%s: %d cases, %d distinct non-trivial%s' % (
            prop, n, d['evaluations'], len(d['nontrivial']), ', %d skipped for time' % d['skipped'] if d['skipped'] else ''))
    if failure:
        path = save_replay(prop, failure['facet'], failure['case'], failure['message'], tier, base)
        print('case:', json.dumps(failure['case'])[:3000])
        print('reason (%s): %s' % (failure['facet'], failure['message'][:3000]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        print('HARNESS ERROR in %d shards:\n%s' % (len(errors), errors[0][-6000:]))
        return 2
    print('OK property=%s tier=%s seed=%d evaluations=%d wall=%.1fs' % (prop, tier, base, evid['coverage']['evaluations'], wall))
    return 0


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    facet = next(f for f in load(rec['property']).FACETS if f.name == rec['facet'])
    msg = run_case(facet, rec['case'], Ctx())
    if msg is None:
        print('the recorded case passes')
        return 0
    print('reason (%s): %s' % (rec['facet'], msg))
    print('VIOLATION property=%s replay=%s' % (rec['property'], path))
    return 1


def main(argv):
    if argv and argv[0] == 'list':
        for p in properties():
            for f in load(p).FACETS:
                print(p, f.name, f.quick, f.thorough, '-', f.doc.split('\n')[0])
        return 0
    if argv and argv[0] == 'replay':
        return replay(argv[1])
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    return run(argv[0], tier)


if __name__ == '__main__':
    import fsv.core as _core          # run as the importable module, so that exception classes are the same objects
    sys.exit(_core.main(sys.argv[1:]))
