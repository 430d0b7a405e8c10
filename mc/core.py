"""
Runner shared by all checks: enumerates a finite case space, executes every case on the real code (8 worker processes),
compares with the oracle of the check, writes evidence, reports violations.

A check module (mc/checks/cNN.py) defines

    ID, LEVEL ('model_checking' or 'exploration'), RULE, ASSUMPTIONS
    def spaces(tier): list of (name, iterator factory)      -- each factory yields cases in a fixed order
    def run(case, cov): raises Violation(...)               -- cov is a Coverage to be filled in

The space is partitioned over the workers by index, so that the union is complete and independent of scheduling.
"""
import os, sys, time, json, signal, hashlib, traceback, pickle, resource

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('HYPERTAG_EVID') or os.path.join(ROOT, 'evidence')
KNOWN = os.path.join(ROOT, 'known_findings.txt')


class Violation(Exception):
    """The property is broken by a case. `key` identifies the failing input for the known-findings file."""
    def __init__(self, what, key = None, **details):
        super(Violation, self).__init__(what)
        self.what, self.key, self.details = what, key or what, details


class CaseTimeout(BaseException):
    pass


def h64(obj):
    """Stable 60-bit hash of a repr-able object."""
    s = obj if isinstance(obj, str) else repr(obj)
    return int(hashlib.blake2b(s.encode('utf-8', 'surrogatepass'), digest_size = 8).hexdigest(), 16) >> 4


class Coverage:
    def __init__(self):
        self.cases = 0              # cases taken from the enumeration
        self.execs = 0              # executions of the real code that were compared with the oracle
        self.transitions = 0        # steps taken by the model (or scheduler)
        self.states = set()         # hashes of distinct model states / observations
        self.extra = {}             # named counters
        self.samples = []

    def state(self, obj):
        self.states.add(h64(obj))

    def step(self, n = 1):
        self.transitions += n

    def count(self, name, n = 1):
        self.extra[name] = self.extra.get(name, 0) + n

    def sample(self, text, limit = 3):
        if len(self.samples) < limit: self.samples.append(text)


def load_known(prop):
    known = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding = 'utf-8'):
            line = line.strip()
            if not line.startswith('known: '): continue
            rec = json.loads(line[len('known: '):])
            if rec['property'] == prop: known[rec['key']] = rec['what']
    return known


def _worker(check, tier, wid, nworkers, deadline, limit, conn_path, case_seconds):
    cov = Coverage()
    viols, done = [], True
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))

    def on_alarm(*_):
        raise CaseTimeout()
    signal.signal(signal.SIGALRM, on_alarm)

    per_space = {}
    clock = time.time
    for name, factory in check.spaces(tier):
        n = 0
        index = -1
        tries = 0
        for case in factory():
            index += 1
            if index % nworkers != wid: continue
            tries += 1
            if tries % 8 == 1 and clock() > deadline:
                done = False
                break
            n += 1
            cov.cases += 1
            try:
                signal.setitimer(signal.ITIMER_REAL, case_seconds)
                try:
                    check.run(case, cov)
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
            except Violation as v:
                viols.append((name, index, v.what, v.key, v.details, repr(case)))
            except CaseTimeout:
                viols.append((name, index, 'no result within %s s (hang)' % case_seconds, 'hang ' + repr(case), {}, repr(case)))
            except Exception:
                tb = traceback.format_exc()
                viols.append((name, index, 'exception in check: ' + tb.strip().split('\n')[-1], 'exc ' + repr(case), {'traceback': tb}, repr(case)))
            if len(viols) >= limit:
                done = False
                break
        per_space[name] = n
        if len(viols) >= limit: break
    out = dict(cov = cov.__dict__, viols = viols, done = done, per_space = per_space)
    with open(conn_path, 'wb') as f: pickle.dump(out, f)


def run_check(check, tier, nworkers = None, seconds = None):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    nworkers = nworkers or getattr(check, 'WORKERS', None) or min(8, os.cpu_count() or 1)
    seconds = seconds or (getattr(check, 'QUICK_SECONDS', 400) if tier == 'quick' else getattr(check, 'THOROUGH_SECONDS', 5400))
    deadline = t0 + seconds
    os.makedirs(EVID, exist_ok = True)
    known = load_known(check.ID)
    limit = 200 + len(known)
    case_seconds = getattr(check, 'CASE_SECONDS', 30)

    old = os.path.join(EVID, 'replay-%s.json' % check.ID)
    if os.path.exists(old): os.remove(old)

    try:
        if hasattr(check, 'prepare'): check.prepare(tier)
    except BaseException:
        if hasattr(check, 'finish'): check.finish()
        raise

    import tempfile, shutil
    tmp = tempfile.mkdtemp(prefix = 'mc-%s-' % check.ID)
    pids = {}
    sys.stdout.flush(); sys.stderr.flush()
    try:
        for w in range(nworkers):
            path = os.path.join(tmp, 'w%d' % w)
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    _worker(check, tier, w, nworkers, deadline, limit, path, case_seconds)
                except BaseException:
                    traceback.print_exc()
                    code = 3
                finally:
                    sys.stdout.flush(); sys.stderr.flush()
                    os._exit(code)
            pids[pid] = path

        # a worker that does not come back (a hang that ignores the alarm, a dead process) is itself a finding
        results, lost = [], []
        grace = deadline + 60 + 2 * case_seconds
        while pids:
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                if time.time() > grace:
                    for p in pids:
                        os.kill(p, signal.SIGKILL)
                    grace = float('inf')
                time.sleep(0.02)
                continue
            if pid not in pids: continue
            path = pids.pop(pid)
            if status == 0 and os.path.exists(path):
                results.append(pickle.load(open(path, 'rb')))
            else:
                lost.append(status)
    finally:
        shutil.rmtree(tmp, ignore_errors = True)
        if hasattr(check, 'finish'): check.finish()

    cov = Coverage()
    viols, done, per_space = [], True, {}
    for r in results:
        c = r['cov']
        cov.cases += c['cases']; cov.execs += c['execs']; cov.transitions += c['transitions']
        cov.states |= c['states']
        for k, v in c['extra'].items(): cov.count(k, v)
        cov.samples += c['samples']
        for k, v in r['per_space'].items(): per_space[k] = per_space.get(k, 0) + v
        viols += r['viols']
        done = done and r['done']

    if lost:
        viols.append(('-', 0, 'worker process ended abnormally (status %s): crash or endless loop in the code under test' % lost, 'lost', {}, ''))

    viols.sort(key = lambda v: (len(v[5]), v[0], v[1]))
    new = [v for v in viols if v[3] not in known]
    hit = {}
    for v in viols:
        if v[3] in known: hit[v[3]] = known[v[3]]

    wall = time.time() - t0
    coverage = dict(exhaustive = bool(done and not viols), spaces = per_space, cases = cov.cases,
                    rule = check.RULE, samples = cov.samples[:6] or ['-'])
    if check.LEVEL == 'model_checking':
        coverage.update(states = len(cov.states), transitions = cov.transitions, traces_validated_against_impl = cov.execs)
    else:
        coverage.update(evaluations = cov.execs, distinct_nontrivial = len(cov.states))
    coverage.update(cov.extra)
    evidence = dict(property = check.ID, tier = tier, seed = seed, level = check.LEVEL, coverage = coverage,
                    assumptions = list(getattr(check, 'ASSUMPTIONS', [])), wall_s = round(wall, 2), violations = len(new))
    with open(os.path.join(EVID, check.ID + '.json'), 'w') as f:
        json.dump(evidence, f, indent = 1, ensure_ascii = True, default = repr)

    print('%s %s: %d cases, %d executions compared, %d states, %d transitions, %.1f s%s' % (check.ID, tier, cov.cases, cov.execs,
          len(cov.states), cov.transitions, wall, '' if done else ', NOT exhaustive (stopped early)'))
    for key, what in hit.items():
        print('KNOWN-FINDING: property=%s %s' % (check.ID, what))
    if new:
        path = os.path.join(EVID, 'replay-%s.json' % check.ID)
        recs = [dict(check = check.ID, tier = tier, space = v[0], index = v[1], what = v[2], key = v[3], details = v[4], case = v[5]) for v in new[:20]]
        with open(path, 'w') as f: json.dump(recs, f, indent = 1, ensure_ascii = True, default = repr)
        for v in new[:3]:
            print('  ' + str(v[2])[:1500].encode('ascii', 'backslashreplace').decode())
        print('VIOLATION property=%s replay=%s' % (check.ID, path))
        sys.stdout.flush()
        return 1
    sys.stdout.flush()
    return 0


def replay(check, path):
    """Re-execute the cases recorded in a replay file."""
    recs = json.load(open(path))
    bad = 0
    if hasattr(check, 'prepare'): check.prepare(recs[0]['tier'])
    for rec in recs:
        for name, factory in check.spaces(rec['tier']):
            if name != rec['space']: continue
            for i, case in enumerate(factory()):
                if i != rec['index']: continue
                try:
                    check.run(case, Coverage())
                    print('ok      ', rec['space'], i)
                except Violation as v:
                    bad = 1
                    print('VIOLATED', rec['space'], i, v.what)
                break
    if hasattr(check, 'finish'): check.finish()
    return bad
