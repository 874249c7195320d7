"""Shared machinery: seeds, scratch space, verdicts, evidence, known findings, worker pool."""
import atexit, contextlib, hashlib, json, os, shutil, signal, struct, sys, tempfile, time, traceback
from concurrent.futures import ProcessPoolExecutor, as_completed
from concurrent.futures.process import BrokenProcessPool
import multiprocessing

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
INC = os.path.join(REPO, 'emlearn')

SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
NPROC = int(os.environ.get('VERIF_JOBS', '0') or 0) or min(8, os.cpu_count() or 1)
MAX_REPORT = 12


def quick():
    return TIER != 'thorough'


def pick(q, t):
    """value for the quick / thorough tier"""
    return q if quick() else t


def _setup_scratch():
    d = tempfile.mkdtemp(prefix='emlverif-')
    owner = os.getpid()
    def cleanup():
        if os.getpid() == owner:
            shutil.rmtree(d, ignore_errors=True)
    atexit.register(cleanup)
    return d


SCRATCH = _setup_scratch()


def scratch(name=''):
    """fresh directory below the scratch area of this run"""
    return tempfile.mkdtemp(prefix=(name or 'd') + '-', dir=SCRATCH)


def rng(*keys):
    import numpy
    h = hashlib.sha256(('|'.join(map(str, (SEED,) + keys))).encode()).digest()
    return numpy.random.default_rng(list(h[:16]))


def intseed(*keys):
    return int(rng(*keys).integers(0, 2**31 - 1))


class Violation(Exception):
    def __init__(self, mechanism, detail, replay=None):
        super().__init__(f'{mechanism}: {detail}')
        self.mechanism, self.detail, self.replay = mechanism, detail, replay or {}


class Rec:
    """what one case observed; merged into the Check"""
    def __init__(self):
        self.events, self.distinct, self.samples, self.violations, self.notes = {}, set(), [], [], []
        self.evaluations = 0

    def ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def case(self, key=None, nontrivial=True, n=1):
        """n executions judged by the oracle; key identifies them, for counting distinct ones"""
        self.evaluations += int(n)
        if nontrivial and key is not None:
            self.distinct.add(hashlib.sha1(repr(key).encode()).hexdigest()[:16])

    def distinct_rows(self, arr, tag=''):
        """count every distinct row of arr as a distinct case"""
        import numpy
        a = numpy.ascontiguousarray(arr)
        self.evaluations += len(a)
        for row in a:
            self.distinct.add(hashlib.sha1(tag.encode() + row.tobytes()).hexdigest()[:16])

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def fail(self, mechanism, detail, **replay):
        if len(self.violations) < 4:
            self.violations.append(dict(mechanism=mechanism, detail=str(detail)[:2000], replay=_js(replay)))

    def require(self, cond, mechanism, detail, **replay):
        if not cond:
            self.fail(mechanism, detail() if callable(detail) else detail, **replay)
        return bool(cond)


def _js(o):
    import numpy
    if isinstance(o, dict):
        return {str(k): _js(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [_js(v) for v in o]
    if isinstance(o, numpy.ndarray):
        return _js(o.tolist()) if o.size <= 4000 else f'<array {o.shape} {o.dtype}>'
    if isinstance(o, numpy.generic):
        return _js(o.item())
    if isinstance(o, float):
        return o if o == o and abs(o) != float('inf') else repr(o)
    if isinstance(o, (int, str, bool)) or o is None:
        return o
    return repr(o)[:500]


def repo_frame(tb):
    """innermost frame of the code under test in a traceback (or None)"""
    hit = None
    for fr in traceback.extract_tb(tb):
        if os.path.realpath(fr.filename).startswith(REPO + '/'):
            hit = f'{os.path.relpath(fr.filename, REPO)}:{fr.name}'
    return hit


def guarded(fn, rec, *args, **kw):
    """run a case; exceptions that pass through the code under test are violations"""
    try:
        fn(rec, *args, **kw)
    except Violation as v:
        rec.fail(v.mechanism, v.detail, **v.replay)
    except Exception as e:
        where = repo_frame(e.__traceback__)
        if where is None:
            if isinstance(e, (ValueError, IndexError, KeyError, TypeError, AttributeError, struct.error)):
                # the oracle could not even read the result: wrong number, shape or type of values
                rec.fail('uninterpretable-result', f'{type(e).__name__}: {str(e)[:600]}',
                         trace=traceback.format_exc()[-3000:])
                return
            raise
        rec.fail(f'exception:{where}', f'{type(e).__name__}: {str(e)[:600]}',
                 trace=traceback.format_exc()[-3000:])


def _worker(job):
    fn, key, args = job
    rec = Rec()
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    wd = scratch('case')
    cwd = os.getcwd()
    os.chdir(wd)
    try:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            guarded(fn, rec, key, *args)
    except Exception:
        return key, rec, traceback.format_exc()
    finally:
        os.chdir(cwd)
        shutil.rmtree(wd, ignore_errors=True)
    return key, rec, None


class Check:
    def __init__(self, prop, level='exploration', budget_s=None):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.total = Rec()
        self.total.samples = []
        self.violations = []
        self.errors = []
        self.budget_s = budget_s if budget_s is not None else pick(300, 2400)
        self.skipped = 0
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)

    # ---- execution
    def elapsed(self):
        return time.time() - self.t0

    def absorb(self, key, rec):
        t = self.total
        for k, v in rec.events.items():
            t.events[k] = t.events.get(k, 0) + v
        t.distinct |= rec.distinct
        t.evaluations += rec.evaluations
        if len(t.samples) < 6:
            t.samples += [dict(case=str(key), observed=_js(s)) for s in rec.samples[:1]]
        for v in rec.violations:
            self.violations.append(dict(v, case=str(key)))

    def run(self, fn, keys, args=(), jobs=None):
        """run fn(rec, key, *args) for all keys in forked workers"""
        keys = list(keys)
        jobs = jobs or NPROC
        if jobs == 1:
            for k in keys:
                if self._stop():
                    self.skipped += 1
                    continue
                key, rec, err = _worker((fn, k, args))
                self.absorb(key, rec)
                if err:
                    self.errors.append(f'{key}: {err}')
            return
        ctx = multiprocessing.get_context('fork')
        with ProcessPoolExecutor(max_workers=jobs, mp_context=ctx) as ex:
            pending, it = set(), iter(keys)
            done_feeding = False
            while True:
                while not done_feeding and len(pending) < jobs * 2:
                    if self._stop():
                        self.skipped += sum(1 for _ in it)
                        done_feeding = True
                        break
                    try:
                        k = next(it)
                    except StopIteration:
                        done_feeding = True
                        break
                    pending.add(ex.submit(_worker, (fn, k, args)))
                if not pending:
                    break
                for f in as_completed(list(pending)):
                    pending.discard(f)
                    try:
                        key, rec, err = f.result()
                    except BrokenProcessPool:
                        # a worker was killed by a signal: in-process code under test crashed it
                        rec = Rec()
                        rec.fail('worker-process-died', 'a process running the code under test was terminated abruptly')
                        self.absorb('pool', rec)
                        return
                    self.absorb(key, rec)
                    if err:
                        self.errors.append(f'{key}: {err}')
                    break

    def _stop(self):
        return self.elapsed() > self.budget_s or len(self.violations) > 60 or len(self.errors) > 10

    def local(self, fn, key='local', *args):
        """run one case in this process"""
        _, rec, err = _worker((fn, key, args))
        self.absorb(key, rec)
        if err:
            self.errors.append(f'{key}: {err}')

    # ---- verdict
    def finish(self, rule, need, assumptions=()):
        """need: {event name: minimum} below which the run is inconclusive"""
        known, fresh = [], []
        findings = load_known()
        for v in self.violations:
            k = match_known(findings, self.prop, v)
            (known if k else fresh).append((k, v))
        for k in sorted({k['what'] for k, _ in known}):
            print(f'KNOWN-FINDING: property={self.prop} {k}')
        replays = []
        if fresh:
            rd = os.path.join(VERIF, 'replays', self.prop)
            os.makedirs(rd, exist_ok=True)
            for i, (_, v) in enumerate(fresh[:MAX_REPORT]):
                p = os.path.join(rd, f'{TIER}-{SEED}-{i}.json')
                with open(p, 'w') as f:
                    json.dump(dict(v, property=self.prop, seed=SEED, tier=TIER,
                                   rerun=f'VERIF_SEED={SEED} VERIF_TIER={TIER} bash /verif/run.sh {self.prop}'), f, indent=1)
                replays.append(p)
        t = self.total
        missing = {k: (t.events.get(k, 0), n) for k, n in need.items() if t.events.get(k, 0) < n}
        ev = dict(property=self.prop, tier='quick' if quick() else 'thorough', seed=SEED, level=self.level,
                  coverage=dict(evaluations=t.evaluations, distinct_nontrivial=len(t.distinct), rule=rule,
                                samples=t.samples[:6] or [dict(note='no sample')],
                                monitor_events=t.events, cases_skipped_for_time=self.skipped),
                  assumptions=list(assumptions), wall_s=round(self.elapsed(), 2),
                  violations=len(fresh))
        if known:
            ev['coverage']['known_finding_hits'] = len(known)
        p = os.path.join(VERIF, 'evidence', f'{self.prop}.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(_js(ev), f, indent=1)
        os.replace(p + '.tmp', p)
        print(f'{self.prop} tier={TIER} seed={SEED} evaluations={t.evaluations} distinct={len(t.distinct)} '
              f'violations={len(fresh)} known={len(known)} skipped={self.skipped} wall={self.elapsed():.1f}s')
        for k in sorted(t.events):
            print(f'   {k} = {t.events[k]}')
        for e in self.errors[:3]:
            print('HARNESS-ERROR', e, file=sys.stderr)
        if fresh:
            for (_, v), p in zip(fresh[:MAX_REPORT], replays):
                print(f"  [{v['mechanism']}] case {v['case']}: {v['detail'][:500]}")
                print(f'VIOLATION property={self.prop} replay={p}')
            sys.stdout.flush()
            sys.exit(1)
        if self.errors:
            print('INCONCLUSIVE: harness errors')
            sys.exit(3)
        if missing:
            print('INCONCLUSIVE: monitors observed too little:', missing)
            sys.exit(4)
        sys.exit(0)


KNOWN = os.path.join(VERIF, 'known_findings.json')


def load_known():
    try:
        with open(KNOWN) as f:
            return json.load(f).get('findings', [])
    except FileNotFoundError:
        return []


def match_known(findings, prop, v):
    for k in findings:
        if k['property'] == prop and k['mechanism'] == v['mechanism']:
            return k
    return None
