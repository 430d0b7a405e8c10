"""C14: concurrent renders on one shared runtime are independent. Real threads under a controlled scheduler."""
import sys, os, threading, tempfile, shutil, itertools
from mc import hy, util
from mc.core import Violation
from hypertag import HyperHTML, Tag

ID = 'C14'
LEVEL = 'model_checking'
TECHNIQUE = 'stateless model checking of real threads: a controlled scheduler (line tracing) preempts a render at every program point, runs other renders there in threads of their own, and resumes it, up to a preemption bound; oracle: each render alone on a fresh runtime'
NOTE = ('preemption of a render at each line of the package that it executes (first two executions of the line) by whole renders of the same or another script on a warm runtime, for all ordered pairs of a pool of scripts by a rotation of all scripts of the pool (imports of equal paths resolved in different folders and packages included), and one document rendered by many threads; '
        'on a cold runtime (first use, first import) one preemption per fresh runtime; two preemptions (A to x, B to y, A to its end, B to its end) at the first call of every function')
RULE = 'pair of scripts x program points of preemption'
ASSUMPTIONS = ['switches of threads take place between lines of the package (in thorough: also between bytecode instructions of runtime.py, structs.py and tag.py)', 'scripts do not mutate objects shared between the renders by the caller or an imported module']
CASE_SECONDS = 300
QUICK_SECONDS = 500

class Echo(Tag):
    name = 'echo'
    def expand(self, body, attrs, kwattrs): return '[%s|%r|%r]' % (body.render(), tuple(attrs), sorted(kwattrs.items()))

MODULES = {
    'a': "$v = 'V'\n$w = [1, 2]\n%t @b q=v k=w\n  div title=$q\n    | $q $k\n    @b\n  $z = q 'z'\n  if q == 'A1'\n    | only A $z\n  else\n    | other $z\n%r n=0\n  i | $n\n%s n\n  | ($n)\n  if n > 1\n    r n=n\n",
    'b': "from .a import %t as at, $v as av\n%u @b x=1\n  $y = x 'y'\n  at y\n    p | in u $x\n    @b\n  | $y $av\n",
    'err': "$q = 1\n| {1/0}\n",
    'syn': "p | {\n",
    'cyc': "from .cyc import $x\n",
}
for _m in 'ABD':                                # folders and packages of the threads
    MODULES['%s/here' % _m] = "$f = 'folder %s'\n%%g x=$__file__\n  | $x $f\n" % _m
    MODULES['%s/there' % _m] = "from .here import %%g as gg, $f\n%%k\n  gg\n  | there %s $f $__file__\n" % _m
S = [   # (name, script): $m is the mark of the thread
  ('text', "p\n  | {m} & $m\n  i : b | x$m\n/ <{m}>\n"),
  ('mini', "from .a import %r\nr $m\n| $m\n"),
  ('import', "from .a import %t, $v\nt {m '1'}\n  | $m $v\nt m k=3\np : t : b | $m\n"),
  ('import2', "from .b import *\nfrom .a import $w, %s as t\nu x=$m\n  i | $m\nu\nt 1\nt {2 if m == 'A' else 1}\n| $w\n"),
  ('control', "$k = 0\nfor i in [m, 1]\n  if i == 'A'\n    | isA\n  elif i == 1\n    $k += 1\n    | one $k\n  else\n    | else $i\nwhile k < 3\n  $k = k + 1\n  try\n    | {1/(k-2)}\n  else\n    | caught $m $k\n| end {m?} {k!}\n"),
  ('hyper', "%h @b x=1 k='d'\n  $l = x k\n  li .$x title=$l\n    @b\n    @b[0]\n  | $l\nh\n  p | 1\n  | $m\nh 5 k=$m : h 6 : i | deep\nh {m 'x'} | inline\n"),
  ('expr', "%g a\n  b | $a\n| {%g(a=m)} {m:str.lower 'x' 3:str} {[m, 1, m][0:2]} {{}}  {{m}}\n| {(m == 'A') and 'yes' or 'no'} { {'k': m}['k'] 2**3**1}\n"),
  ('custom', "context %echo\necho 1 $m k=$m | {m}\ndiv : echo x=5\n  p | $m\n. | {%echo('b', m)}\n"),
  ('library', "merge\n  | a  $m\n  | b\nunique\n  | x\n  | x\n  | $m\nupper | {m}x\nfor c, n in cycle([m, 'z'], [1, 2, 3], stop = 'longest')\n  | $c $n\n"),
  ('alter', "%h @b\n  @b['p']\n  @b.skip('p')\n" + "h\n  p | 1 $m\n  i | 2\n  div\n    p .$m | deep\n"),
  ('shadow', "%p @b\n  div\n    @b\n$len = m\np\n  | $len\n$ str = 5\n| $str\n"),
  ('special', "p\n  | $m \u2768\ndiv\n\tb | $m\n"),
  ('special2', "p\n  | $m \u2768 \u276C\u276D\u276E\u276F\n"),
  ('fail name', "p\n  | $m\n  | $undefined\n"),
  ('fail syntax', "p\n  | $m {\n"),
  ('fail run', "from .a import %t\nt\n  | {m}\nif m == 'A'\n  | {1/0}\n| {m.nope}\n"),
  ('fail import', "| $m\nfrom .err import $q\n| $q\n"),
  ('fail import2', "try\n  | x\nfrom .cyc import $x\n| $m\n"),
  ('fail import3', "from .syn import $x\n| $m\n"),
  ('fail tag', "br | $m\n"),
  ('where', "from .here import $f, %g\n| $f $m $__file__\ng\ng $m\n"),
  ('where2', "| $m\nfrom .there import %k\nfrom .here import $f\nk\n| $f\nfrom ..a import $v\n| $v\n"),
  ('package', "from .c14mod import $x\n| $x $m $__package__\nfrom .c14mod import $y as z\n| $z\n"),
  ('fail where', "from .here import $f\n| $f $m\n| {f!}\n| {''!}\n"),
  ('fail where2', "from .here import $f, $nope\n| $f $m\n"),
  ('fail call', "from .a import %r\nr bad=$m\n"),
]
NAMES = [n for n, _ in S]
DIR, EXP, PTS, WARM = [None], {}, {}, [None]
PKG = os.path.dirname(sys.modules['hypertag'].__file__) + os.sep

def kwargs(i, mark):
    kw = {'m': mark, '__tags__': {'echo': Echo()}}
    if S[i][0] == 'package': kw['__package__'] = 'c14p' + mark.lower()
    else: kw['__file__'] = os.path.join(DIR[0], mark if 'where' in S[i][0] else '', 'main.hy')
    return kw
def script(i): return 'context $m\n' + S[i][1]
def work(rt, i, mark):
    if i == 'doc': fn = rt[1].render
    else:
        if isinstance(rt, tuple): rt = rt[0]
        def fn(): return rt.render(script(i), **kwargs(i, mark))
    try: return ('ok', fn())
    except Exception as ex: return ('err', hy.kind_of(ex), str(ex))
def shared():
    rt = HyperHTML()
    return rt, rt.translate(script(NAMES.index('import')), **kwargs(NAMES.index('import'), 'D')).dom
def expected(i, mark):
    if (i, mark) not in EXP: EXP[i, mark] = work(shared() if i == 'doc' else HyperHTML(), i, mark)
    return EXP[i, mark]

# ----- scheduler
class Tracer:
    """Calls hook(point) at every line (call, opcode) of the package executed by the current thread; point = (file, line, kind, occurrence)."""
    def __init__(self, hook, calls = False, opcodes = (), files = None):
        self.hook, self.calls, self.opcodes, self.files, self.seen = hook, calls, opcodes, files, {}
    def __call__(self, frame, event, arg):
        name = frame.f_code.co_filename
        if not name.startswith(PKG): return None
        f = name[len(PKG):]
        if self.files and f not in self.files: return None
        if f in self.opcodes: frame.f_trace_opcodes = True
        def local(frame, event, arg):
            if event == 'line' or event == 'opcode':
                key = (f, frame.f_lineno, frame.f_lasti if event == 'opcode' else -1)
                self.seen[key] = n = self.seen.get(key, 0) + 1
                self.hook(key + (n,))
            return local
        key = (f, frame.f_code.co_firstlineno, -2)
        self.seen[key] = n = self.seen.get(key, 0) + 1
        self.hook(key + (n,))
        return None if self.calls else local
    def run(self, fn):
        sys.settrace(self)
        try: return fn()
        finally: sys.settrace(None)

def stop_tracing():
    sys.settrace(None)

BLOCKED = [0]
def wait(event, cov):
    """Wait for the other thread; it can be blocked by a lock of the preempted one, then the schedule goes on without it."""
    if event.wait(5.0 if BLOCKED[0] < 3 else 0.05): return True
    BLOCKED[0] += 1
    cov.count('blocked')
    return False

class Thread:
    def __init__(self, rt, i, mark, stop_at = None, tracer = None):
        self.result = None
        self.paused = threading.Event()         # paused or finished
        self.go = threading.Event()
        self.finished = threading.Event()
        self.stop_at, self.tracer = stop_at, tracer or {}
        self.args = (rt, i, mark)
        self.thread = threading.Thread(target = self.main)
        self.thread.daemon = True
        self.thread.start()
    def main(self):
        try:
            if self.stop_at is None: self.result = work(*self.args)
            else:
                done = []
                def hook(point):
                    if point == self.stop_at and not done:
                        done.append(1)
                        stop_tracing()
                        self.paused.set()
                        self.go.wait(60)
                self.result = Tracer(hook, **self.tracer).run(lambda: work(*self.args))
        except BaseException as ex: self.result = ('crash', repr(ex))
        finally:
            self.finished.set()
            self.paused.set()

def points(i, mark, rt, occ, calls = False, files = None, opcodes = ()):
    found = []
    def hook(p):
        if p[3] <= occ: found.append(p)
    Tracer(hook, calls = calls, files = files, opcodes = opcodes).run(lambda: work(rt, i, mark))
    return found

def prepare(tier):
    DIR[0] = tempfile.mkdtemp(prefix = 'mc-c14-')
    for m in 'ABD':
        os.mkdir(os.path.join(DIR[0], m))
        pkg = os.path.join(DIR[0], 'c14p' + m.lower())
        os.mkdir(pkg)
        for n, text in [('__init__', ''), ('c14mod', 'x = "package %s"\ny = [x]\n' % m)]:
            with open(os.path.join(pkg, n + '.py'), 'w') as f: f.write(text)
    sys.path.insert(0, DIR[0])
    for n, text in MODULES.items():
        with open(os.path.join(DIR[0], n + '.hy'), 'w') as f: f.write(text)
    for i in list(range(len(S))) + ['doc']:
        for mark in 'AB': expected(i, mark)
    for k in range(40):
        rt = HyperHTML()
        for i in range(len(S)): work(rt, i, 'A')
    hyper = WARM[0] = shared()
    bad = [S[i][0] for i in range(len(S)) if (EXP[i, 'A'][0] == 'ok') == S[i][0].startswith('fail')]
    if bad: raise Exception('bad scripts: %r %r' % (bad, [EXP[NAMES.index(b), 'A'] for b in bad]))
def finish():
    if DIR[0]:
        if DIR[0] in sys.path: sys.path.remove(DIR[0])
        shutil.rmtree(DIR[0], ignore_errors = True)

RUNTIME = ('core/runtime.py',)
PARTS = 8
COLD = ['import', 'import2', 'where', 'fail import', 'fail import2', 'fail run', 'text']
def warm(pairs, occ, opcodes = ()):
    def it():
        for i, j in pairs:
            for part in range(PARTS): yield ('warm', i, j, part, occ, opcodes)
    return it
def mixed(scripts, occ):
    """A different script at each next point of preemption."""
    def it():
        for i in scripts:
            for part in range(PARTS): yield ('mixed', i, None, part, occ, ())
    return it
def cold(pairs, occ, files = None, opcodes = (), chunk = 16, calls = False):
    def it():
        for i, j in pairs:
            pts = points(i, 'A', HyperHTML(), occ, calls, files, opcodes)
            for k in range(0, len(pts), chunk): yield ('cold', i, j, tuple(pts[k:k + chunk]), files, opcodes, calls)
    return it
def two(pairs, is_cold, occ = 1, calls = True, files = None):
    def it():
        for i, j in pairs:
            rt = HyperHTML() if is_cold else WARM[0]
            pts = points(i, 'A', rt, occ, calls, files)
            rt = HyperHTML() if is_cold else WARM[0]
            pts2 = points(j, 'B', rt, occ, calls, files)
            for p in pts:
                for k in range(0, len(pts2), 12): yield ('two', i, j, p, tuple(pts2[k:k + 12]), is_cold, calls, files)
    return it

def spaces(tier):
    q = tier == 'quick'
    n = list(range(len(S)))
    idx = NAMES.index
    c = [idx(x) for x in COLD]
    same = [(i, i) for i in n]
    rest = [(i, j) for i in n for j in n if i != j]
    some = [(idx('import'), idx('import2')), (idx('hyper'), idx('import')), (idx('shadow'), idx('hyper')), (idx('control'), idx('fail run')), (idx('fail run'), idx('control'))]
    if q: return [('warm, special characters', warm([(idx('text'), idx('special')), (idx('special'), idx('special2')), (idx('special2'), idx('special')), (idx('special'), idx('fail syntax'))], 1)), ('warm, mixed scripts', mixed(n, 1)),
                  ('warm, same script', warm([p for p in same if not S[p[0]][0].startswith('fail') or S[p[0]][0] in ('fail run',)], 1)), ('warm, document', warm([('doc', 'doc')], 3)), ('warm, two scripts', warm(some, 1)),
                  ('cold, loaders', cold([(i, j) for i in c[:5] for j in c[:5] if i == j or i < 3 and j < 3], 2, files = RUNTIME)),
                  ('cold, all functions', cold([(idx('mini'), idx('mini'))], 1, calls = True)),
                  ('two preemptions, cold', two([(c[0], c[0])], True, files = RUNTIME)),
                  ('two preemptions, warm', two([(idx('mini'), idx('mini'))], False, files = ('core/tag.py', 'core/runtime.py')))]
    ops = ('core/runtime.py', 'core/structs.py', 'core/tag.py')
    return [('warm, same script', warm(same, 4)), ('warm, mixed scripts', mixed(n, 6)), ('warm, document', warm([('doc', 'doc'), ('doc', 0), (0, 'doc')], 6)), ('warm, bytecode', warm(same, 1, ops)), ('warm, two scripts', warm(rest, 1)),
            ('cold, loaders', cold([(i, j) for i in c for j in c], 3, files = RUNTIME)), ('cold, bytecode', cold([(c[0], c[0]), (c[0], c[1])], 2, files = RUNTIME, opcodes = RUNTIME)),
            ('cold, all points', cold([(i, j) for i in c[:2] for j in c[:2]], 2)),
            ('two preemptions, cold', two([(i, j) for i in c[:3] for j in c[:3]], True, 2, files = RUNTIME)), ('two preemptions, cold, lines', two([(c[0], c[0]), (c[1], c[0])], True, 1, calls = False, files = RUNTIME)),
            ('two preemptions, warm', two([p for p in same if S[p[0]][0] in ('import', 'hyper', 'control', 'expr', 'custom')], False))]

def name(i): return i if i == 'doc' else S[i][0]
def verify(got, i, mark, where, cov):
    cov.execs += 1
    want = EXP[i, mark]
    if got != want:
        raise Violation('render of %r by thread %s: alone %r, concurrently %r; schedule: %s\n%s' % (name(i), mark, want, got, where, '' if i == 'doc' else script(i)), key = '%s %s %s' % (name(i), mark, where))

def run(case, cov):
    kind, i, j = case[:3]
    if kind in ('warm', 'mixed'):
        part, occ, opcodes = case[3:]
        rt = shared()
        if kind == 'mixed':
            for k in range(len(S)): work(rt, k, 'B')
        elif j != 'doc': work(rt, j, 'B')
        count = [0]
        bad = []
        def hook(p):
            if p[3] > occ: return
            count[0] += 1
            if count[0] % PARTS != part: return
            j = case[2] if kind == 'warm' else (count[0] // PARTS * 7 + part + i) % len(S)
            t = Thread(rt, j, 'B')
            cov.step()
            if not wait(t.finished, cov): return
            cov.execs += 1
            if t.result != EXP[j, 'B']: bad.append((t.result, j, 'A (%s) preempted at %s by B (%s)' % (name(i), p, name(j))))
        res = Tracer(hook, opcodes = opcodes).run(lambda: work(rt, i, 'A'))
        for result, k, where in bad: verify(result, k, 'B', where, cov)
        verify(res, i, 'A', 'preempted by whole renders of %s at %d points' % (repr(name(j)) if kind == 'warm' else 'other scripts', count[0] // PARTS), cov)
        cov.state((kind, i, j, part, count[0]))
    elif kind == 'cold':
        pts, files, opcodes, calls = case[3:]
        for p in pts:
            rt = HyperHTML()
            t = []
            def hook(point):
                if point == p and not t:
                    t.append(Thread(rt, j, 'B'))
                    stop_tracing()
                    wait(t[0].finished, cov)
            res = Tracer(hook, calls, opcodes, files).run(lambda: work(rt, i, 'A'))
            where = 'cold start, A (%s) preempted at %s by B (%s)' % (name(i), p, name(j))
            cov.step()
            cov.state((kind, i, j, p))
            if t:
                t[0].finished.wait(20)
                verify(t[0].result, j, 'B', where, cov)
            verify(res, i, 'A', where, cov)
            verify(work(rt, j, 'A'), j, 'A', 'after: ' + where, cov)
            if i != j: verify(work(rt, i, 'B'), i, 'B', 'after: ' + where, cov)
    else:
        p, pts2, is_cold, calls, files = case[3:]
        for p2 in pts2:
            rt = HyperHTML() if is_cold else WARM[0]
            t = []
            def hook(point):
                if point == p and not t:
                    t.append(Thread(rt, j, 'B', p2, dict(calls = calls, files = files)))
                    stop_tracing()
                    wait(t[0].paused, cov)
            res = Tracer(hook, calls = calls, files = files).run(lambda: work(rt, i, 'A'))
            where = '%s start, A (%s) to %s, B (%s) to %s, A to its end, B to its end' % ('cold' if is_cold else 'warm', name(i), p, name(j), p2)
            cov.step(2)
            cov.state((kind, i, j, p, p2))
            if t:
                t[0].go.set()
                t[0].finished.wait(20)
                verify(t[0].result, j, 'B', where, cov)
            verify(res, i, 'A', where, cov)
