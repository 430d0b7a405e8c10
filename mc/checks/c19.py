"""C19: the Django connector renders what the runtime renders."""
import itertools, os, re, sys, json, shutil, subprocess, tempfile
from mc import hy, util
from mc.core import Violation
from hypertag import HyperHTML

ID = 'C19'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive exploration of all bounded sequences of lookups and renders (template x context x request x way of access) through Django engines, and of all filters in all configurations of a project in processes of their own; oracle: a fresh runtime on the same script, file and values, and Django\'s own functions'
NOTE = ('all steps over a pool of templates, contexts and requests, all sequences of 2 of them on one engine (3 for a smaller pool), with one context object shared by the steps; lookup in all combinations of folders that hold the template; '
        'every filter of Django and humanize with several arguments in 7 configurations')
RULE = 'sequences of (template, context, request, access); folders x names; filters x configuration'
ASSUMPTIONS = ['CSRF tokens are compared after unmasking, Django masks every one with a random key']
CASE_SECONDS = 120

LIB = "$v = 'lib'\n%h @b a=1\n  div q=$a\n    @b\n    | $v\n"
T = {   # name -> (folders that hold it, script)
  'plain.hy': ('1', "html\n  p | plain & text\n"),
  'vars.hy': ('1', "context $x, $y\np .$x\n  | $x $y\n/ $x\n"),
  'maybe.hy': ('2', "context $x\nif x\n  | $x\nelse\n  | empty\n"),
  'request.hy': ('1', "context $request\np | {request.path}\n| {request.GET:str}\n"),
  'reqx.hy': ('2', "context $request, $x\n| {request.path?} $x\n"),
  'csrf.hy': ('1', "context $csrf_token, $csrf_input\nform\n  / $csrf_input\n  input value=$csrf_token\n"),
  'import.hy': ('1', "context $x\nfrom .lib import %h, $v\nh $x\n  p | body $v\n"),
  'import2.hy': ('2', "from .lib2 import %h\nh\n  | two\n"),
  'sub/deep.hy': ('1', "from ..lib import %h\nh 5 | deep\n| {__file__.rsplit('/',1)[1]}\n"),
  'both.hy': ('12', "| both @\n"),
  'app.hy': ('A', "context $x\nfrom .libapp import %h\n| app $x\nh | a\n"),
  'everywhere.hy': ('12A', "| everywhere @\n"),
  'syntax.hy': ('1', "p\n  | a {\n"),
  'fails.hy': ('1', "context $x\n| $x\np | { 1/0 }\n"),
  'undef.hy': ('1', "| $x\n"),
  'empty.hy': ('1', ""),
  'noext': ('2', "| no extension\n"),
}
STRINGS = {'<string 1>': "context $x\nb | from string $x\n", '<string 2>': "| $__file__?\n".replace('$__file__?', 'second'), '<string 3>': "context $request, $csrf_token\n| {request.path} $csrf_token\n"}
class Obj(object):
    def __init__(self): self.path = 'mine'
    def __str__(self): return 'obj<>'
OBJ = Obj()
CONTEXTS = [{}, {'x': 1, 'y': 'Y'}, {'x': '<b>&', 'y': None}, {'x': [1, 2], 'y': OBJ, 'request': OBJ, 'csrf_token': 'own', 'csrf_input': 'inp'}, {'x': '', 'y': 0, 'extra': 5}, None]
REQUESTS = [None, ('/a/', 'A' * 32), ('/b/?q=1', 'B' * 32)]
DIR, ENG, FOLDERS = [None], {}, {}
SETTINGS = {}

def prepare(tier):
    d = DIR[0] = tempfile.mkdtemp(prefix = 'mc-c19-')
    os.makedirs(d + '/pk/mcapp/hypertag')
    for n in '12': os.makedirs(d + '/dir%s/sub' % n)
    FOLDERS.update({'1': d + '/dir1', '2': d + '/dir2', 'A': d + '/pk/mcapp/hypertag'})
    def write(path, text):
        with open(path, 'w') as f: f.write(text)
    write(d + '/pk/mcapp/__init__.py', '')
    for name, (where, script) in T.items():
        for w in where: write(FOLDERS[w] + '/' + name, script.replace('@', w) if '@' in script and len(where) > 1 else script)
    write(d + '/dir1/lib.hy', LIB)
    write(d + '/dir2/lib2.hy', LIB.replace("'lib'", "'lib2'"))
    write(d + '/pk/mcapp/hypertag/libapp.hy', LIB.replace("'lib'", "'libapp'"))
    write(d + '/outside.hy', '| outside\n')
    os.makedirs(d + '/dj')
    write(d + '/dj/dj.html', 'django {{ x }}')
    write(d + '/dj/plain.hy', 'never')
    sys.path.insert(0, d + '/pk')
    import django
    from django.conf import settings
    eng = lambda name, dirs, app: {'BACKEND': 'hypertag.django.backend.Hypertag', 'NAME': name, 'DIRS': [FOLDERS[x] for x in dirs], 'APP_DIRS': app, 'OPTIONS': {}}
    settings.configure(SECRET_KEY = 'k', INSTALLED_APPS = ['mcapp'], ALLOWED_HOSTS = ['*'], ROOT_URLCONF = 'mcapp', TEMPLATES =
        [eng('e%s%s' % (''.join(dirs), app), dirs, app) for dirs in ('', '1', '2', '12', '21') for app in (False, True)] + [{'BACKEND': 'django.template.backends.django.DjangoTemplates', 'NAME': 'dj', 'DIRS': [d + '/dj']}])
    django.setup()
    util.warm(sys.modules[__name__], tier, 4, 50)
def finish():
    if DIR[0]:
        shutil.rmtree(DIR[0], ignore_errors = True)
        if DIR[0] + '/pk' in sys.path: sys.path.remove(DIR[0] + '/pk')

def engine(name, fresh = True):
    """A new engine, or the one that Django keeps."""
    from django.template import engines
    if not fresh: return engines[name]
    e = engines[name]
    return type(e)({'NAME': e.name, 'DIRS': list(e.dirs), 'APP_DIRS': e.app_dirs, 'OPTIONS': {}})

def order(name):
    return list(name[1:].replace('True', '').replace('False', '')) + (['A'] if name.endswith('True') else [])
def find(eng, template):
    """File of the template, by the specification."""
    for w in order(eng):
        p = os.path.normpath(os.path.join(FOLDERS[w], template))
        if p.startswith(FOLDERS[w] + '/') and os.path.isfile(p): return p       # never out of the folder
    return None

def request(r):
    if r is None: return None
    from django.test import RequestFactory
    req = RequestFactory().get(r[0])
    req.META['CSRF_COOKIE'] = r[1]
    return req

def unmask(text, secrets):
    """CSRF tokens (64 characters) -> their secret."""
    from django.middleware.csrf import _unmask_cipher_token
    def sub(m):
        try: return 'TOKEN:' + _unmask_cipher_token(m.group(0))
        except Exception: return m.group(0)
    return re.sub(r'(?<![A-Za-z0-9])[A-Za-z0-9]{64}(?![A-Za-z0-9])', sub, text)

def result(fn):
    try: return ('ok', unmask(str(fn()), None))
    except Exception as ex: return ('err', hy.kind_of(ex), str(ex))

def oracle(template, ci, ri, eng):
    """What the runtime gives for the same script, context and file."""
    from django.template.backends.utils import csrf_input_lazy, csrf_token_lazy
    ctx = dict(CONTEXTS[ci] or {})
    req = request(REQUESTS[ri])
    if req is not None: ctx.update(request = req, csrf_input = csrf_input_lazy(req), csrf_token = csrf_token_lazy(req))
    if template in STRINGS: script = STRINGS[template]
    else:
        path = find(eng, template)
        if path is None: return ('err', 'TemplateDoesNotExist', template)
        with open(path) as f: script = f.read()
        ctx['__file__'] = path
    return result(lambda: HyperHTML().render(script, **ctx))

NAMES = list(T) + list(STRINGS)
STEPS = [(n, c, r) for n in NAMES for c in range(len(CONTEXTS)) for r in range(len(REQUESTS))]
FEW = [(n, c, r) for n in ('vars.hy', 'import.hy', 'reqx.hy', 'csrf.hy', 'fails.hy', 'maybe.hy', '<string 1>', '<string 3>', 'app.hy', 'both.hy', 'undef.hy') for c in (1, 2, 3) for r in (0, 1, 2) if not (r == 2 and c == 2)]
TINY = [(n, c, r) for n in ('vars.hy', 'import.hy', 'csrf.hy', 'fails.hy', '<string 3>') for c, r in ((1, 1), (2, 0), (3, 2))]
MODES = ['get each time', 'keep templates', 'one context object']

def spaces(tier):
    q = tier == 'quick'
    def seqs(pool, n, modes):
        def it():
            for m in modes:
                for s in itertools.product(pool, repeat = n): yield ('seq', s, m)
        return it
    def lookups():
        for eng in ['e%s%s' % (d, a) for d in ('', '1', '2', '12', '21') for a in (False, True)]:
            for n in list(T) + MISSING: yield ('lookup', eng, n)
    def several():
        for n in list(T) + MISSING + ['dj.html']: yield ('engines', n)
    def filters():
        for m in FILTER_MODES: yield ('filters', m)
    def edits():
        for n in ('e12True', 'e1False'):
            for ver in itertools.product(range(3), repeat = 3): yield ('edit', n, ver)
    def middleware():
        for r in (1, 2): yield ('csrf', r)
    return [('filters', filters), ('steps', seqs(STEPS, 1, MODES)), ('lookup', lookups), ('several engines', several), ('edited files', edits), ('csrf', middleware),
            ('sequences of 2', seqs(FEW if q else STEPS[::2], 2, MODES[:1] if q else MODES)), ('sequences of 2, kept', seqs(FEW[::2], 2, MODES[1:]))] + (
            [] if q else [('sequences of 3', seqs(TINY, 3, MODES))])
MISSING = ['nope.hy', 'sub/nope.hy', '../outside.hy', '../dir2/maybe.hy', 'sub/../plain.hy', '/etc/hostname', 'plain']

def bad(key, what, *a): raise Violation(what % a, key = key)

def run(case, cov):
    from django.template import TemplateDoesNotExist, engines, loader
    kind = case[0]
    cov.step()
    if kind == 'seq':
        _, s, mode = case
        eng = engine('e12True')
        def get(n): return eng.from_string(STRINGS[n]) if n in STRINGS else eng.get_template(n)
        kept = {}
        if mode == 'keep templates': kept = {n: get(n) for n, _, _ in s}
        shared = {}
        for j, (n, c, r) in enumerate(s * 2 if mode == 'keep templates' and len(s) == 1 else s):
            ctx = CONTEXTS[c]
            if mode == 'one context object':
                shared.clear()
                shared.update(ctx or {})
                ctx = shared
            before = dict(ctx) if ctx is not None else None
            items = list(before.items()) if before is not None else None
            req = request(REQUESTS[r])
            want = oracle(n, c, r, 'e12True')
            args = (ctx, req) if r or j % 2 else (ctx,) if ctx is not None else ()
            got = result(lambda: (kept.get(n) or get(n)).render(*args))
            cov.execs += 1
            cov.step()
            if got != want: bad('seq %r %s' % (s, mode), 'step %d (%s) of the sequence %r: the runtime gives %r, the backend %r', j + 1, mode, s, want, got)
            if before is not None and (list(ctx.items()) != items or any(a is not b for a, b in zip(ctx.values(), before.values()))):
                bad('ctx %r' % (s,), 'the context of the caller was changed by %r: %r -> %r', (n, c, r), before, ctx)
            cov.state(want)
        cov.sample(repr(s))
    elif kind == 'lookup':
        _, name, n = case
        for fresh in (True, False):
            eng = engine(name, fresh)
            want = find(name, n)
            cov.execs += 1
            try: t = eng.get_template(n)
            except TemplateDoesNotExist as ex:
                if want: bad('lookup %r' % (case,), 'engine %s does not find %r: %r', name, n, ex)
                if str(ex) != n or ex.backend is not eng: bad('lookup %r' % (case,), 'engine %s, missing %r: error %r of backend %r', name, n, ex, ex.backend)
                if n == 'nope.hy' and [str(o) for o, _ in ex.tried] != [FOLDERS[w] + '/' + n for w in order(name)]: bad('tried %r' % (case,), 'engine %s, missing %r: tried %r', name, n, ex.tried)
                continue
            except Exception as ex: bad('lookup %r' % (case,), 'engine %s, template %r: %r', name, n, ex)
            if not want: bad('lookup %r' % (case,), 'engine %s finds %r, which is in no configured folder', name, n)
            ctx = {'x': 1, 'y': 2, 'request': OBJ, 'csrf_token': 't', 'csrf_input': 'i'}
            got = result(lambda: t.render(ctx))
            with open(want) as f: exp = result(lambda: HyperHTML().render(f.read(), __file__ = want, **ctx))
            if got != exp: bad('lookup %r' % (case,), 'engine %s, template %r: expected %r, got %r', name, n, exp, got)
        cov.state(case)
    elif kind == 'engines':
        n = case[1]
        cov.execs += 1
        path = None
        for dirs in ('', '1', '2', '12', '21'):
            for a in (False, True):
                path = path or find('e%s%s' % (dirs, a), n)
        ctx = {'x': '5', 'y': 2}
        for r in range(3):
            got = result(lambda: loader.render_to_string(n, ctx, request(REQUESTS[r])))
            if path is None: want = ('ok', 'django 5') if n == 'dj.html' else ('err', 'TemplateDoesNotExist', n)
            else:
                c = dict(ctx)
                if r:
                    from django.template.backends.utils import csrf_input_lazy, csrf_token_lazy
                    req = request(REQUESTS[r])
                    c.update(request = req, csrf_input = csrf_input_lazy(req), csrf_token = csrf_token_lazy(req))
                with open(path) as f: want = result(lambda: HyperHTML().render(f.read(), __file__ = path, **c))
            if got != want: bad('engines ' + n, 'template %r in a project of several engines: expected %r, got %r', n, want, got)
        if ctx != {'x': '5', 'y': 2}: bad('engines ctx ' + n, 'context changed: %r', ctx)
        got = result(lambda: loader.select_template(['nope.hy', n]).render(ctx))
        if got != result(lambda: loader.get_template(n).render(ctx)) and path: bad('select ' + n, 'select_template: %r', got)
        cov.state(case)
    elif kind == 'edit':
        _, name, ver = case
        eng = engine(name)
        f = '%s/edit%s-%d.hy' % (FOLDERS['1'], ''.join(map(str, ver)), os.getpid())
        texts = ["| one\n", "p | two\n", None]
        try:
            for v in ver:
                if texts[v] is None:
                    if os.path.exists(f): os.remove(f)
                else:
                    with open(f, 'w') as fh: fh.write(texts[v])
                got = result(lambda: eng.get_template(os.path.basename(f)).render({}))
                want = ('err', 'TemplateDoesNotExist', os.path.basename(f)) if texts[v] is None else ('ok', HyperHTML().render(texts[v]))
                cov.execs += 1
                if got != want: bad('edit %r' % (case,), 'a template file edited between renders %r: expected %r, got %r', ver, want, got)
        finally:
            if os.path.exists(f): os.remove(f)
        cov.state(case)
    elif kind == 'csrf':
        # a form rendered with the backend is accepted by the CSRF protection of Django, and only for its own user
        from django.middleware.csrf import CsrfViewMiddleware
        from django.test import RequestFactory
        from django.http import HttpResponse
        r = case[1]
        t = engine('e12True').get_template('csrf.hy')
        for other in (1, 2):
            req = request(REQUESTS[r])
            out = t.render({}, req)
            tokens = re.findall(r'value="([A-Za-z0-9]{64})"', out)
            if len(tokens) != 2: bad('csrf tokens', 'expected 2 tokens in %r', out)
            for tok in tokens:
                post = RequestFactory(enforce_csrf_checks = True).post('/x/', {'csrfmiddlewaretoken': tok})
                post._dont_enforce_csrf_checks = False
                post.COOKIES['csrftoken'] = REQUESTS[other][1]
                mw = CsrfViewMiddleware(lambda r: HttpResponse('ok'))
                mw.process_request(post)
                res = mw.process_view(post, lambda r: HttpResponse('ok'), (), {})
                cov.execs += 1
                if (res is None) != (r == other): bad('csrf %d %d' % (r, other), 'token of user %d used by user %d: %r', r, other, res)
        cov.state(case)
    else: filters(case[1], cov)

# ----- filters, in processes of their own
FILTER_MODES = ['script stand-alone', 'python stand-alone', 'configured project', 'settings module and setup', 'settings module, no setup', 'settings module, setup after', 'inside a template', 'wildcard import']
ARGS = {   # filter -> list of (value, args) as Python sources; the default for others: strings
  'add': [('4', '2'), ("'a'", "'b'"), ('[1]', '[2]')], 'center': [("'a'", '5')], 'cut': [("'a b c'", "' '")], 'date': [('dt', "'Y-m-d H:i'"), ('dt', "'DATE_FORMAT'"), ('dt', '')], 'time': [('dt', "'H:i'"), ('dt', '')],
  'default': [("''", "'x'"), ('5', "'x'")], 'default_if_none': [('None', "'x'"), ("''", "'x'")], 'dictsort': [("[{'a':2},{'a':1}]", "'a'")], 'dictsortreversed': [("[{'a':1},{'a':2}]", "'a'")],
  'divisibleby': [('9', '3'), ('9', '2')], 'filesizeformat': [('123456789', '')], 'first': [('[1,2]', '')], 'last': [('[1,2]', '')], 'floatformat': [('1234.567', ''), ('1234.567', '2'), ('34.0', '-2'), ('1234.5', "'2g'")],
  'get_digit': [('123', '2')], 'join': [('[1,2]', "'-'"), ("['<','b']", "', '")], 'json_script': [("{'a':'<'}", "'id'")], 'length': [('[1,2,3]', '')], 'length_is': [('[1,2]', '2')], 'ljust': [("'a'", '4')], 'rjust': [("'a'", '4')],
  'linenumbers': [("'a\\nb'", '')], 'make_list': [("'abc'", '')], 'pluralize': [('1', ''), ('2', ''), ('2', "'es'"), ('2', "'y,ies'")], 'random': [('[7]', '')], 'safeseq': [("['<']", '')], 'slice': [('[1,2,3]', "':2'")],
  'stringformat': [('5', "'03d'")], 'timesince': [('dt', 'dt2')], 'timeuntil': [('dt2', 'dt')], 'truncatechars': [("'Hypertag rocks'", '6')], 'truncatechars_html': [("'<b>Hypertag</b>'", '4')], 'truncatewords': [("'a b c d'", '2')],
  'truncatewords_html': [("'<b>a b</b> c d'", '2')], 'unordered_list': [("['a',['b']]", '')], 'urlizetrunc': [("'see www.example.com/long now'", '8')], 'urlize': [("'www.example.com <b>'", '')], 'wordcount': [("'a b'", '')], 'wordwrap': [("'aa bb cc'", '5')],
  'yesno': [('True', ''), ('None', ''), ('False', "'y,n,m'")], 'apnumber': [('5', ''), ('50', '')], 'intcomma': [('1234567', ''), ('1234567.5', ''), ("'1234567'", '')], 'intword': [('1200000', ''), ('10**15', '')], 'naturalday': [('today', ''), ('dt', '')],
  'naturaltime': [("'x'", '')], 'ordinal': [('1', ''), ('2', ''), ('11', '')], 'phone2numeric': [("'800-COLLECT'", '')], 'striptags': [("'<b>x</b>'", '')], 'title': [("\"bob's tOWN\"", '')], 'slugify': [("'Hello W\\xf6rld !'", '')],
}
DEFAULT = [("'Hello <World> & \"co\"\\nline two'", '')]
CHILD = r'''
import sys, json, os, datetime
sys.path[:0] = %(path)r
mode = %(mode)r
names = %(names)r
ref = %(ref)r
dt = datetime.datetime(2020, 3, 4, 5, 6); dt2 = datetime.datetime(2021, 5, 4, 5, 6); today = datetime.date.today()
PROJECT = dict(SECRET_KEY = 'k', LANGUAGE_CODE = 'de', USE_I18N = True, USE_L10N = True, USE_THOUSAND_SEPARATOR = True, USE_TZ = False, DATE_FORMAT = 'd/m', INSTALLED_APPS = ['django.contrib.humanize'],
               TEMPLATES = [{'BACKEND': 'hypertag.django.backend.Hypertag', 'DIRS': [], 'APP_DIRS': False, 'OPTIONS': {}}])
import django
from django.conf import settings
out = {}
def state(): return [settings.LANGUAGE_CODE, settings.USE_THOUSAND_SEPARATOR, settings.DATE_FORMAT, list(settings.INSTALLED_APPS), len(settings.TEMPLATES)]
if mode in ('configured project', 'inside a template'):
    settings.configure(**PROJECT); django.setup()
elif mode == 'settings module and setup': django.setup()
if ref:
    if not settings.configured and 'module' not in mode: settings.configure(); django.setup()
    elif 'module' in mode and 'no setup' not in mode: django.setup()
    from django.template.defaultfilters import register as a
    from django.contrib.humanize.templatetags.humanize import register as b
    F = dict(a.filters); F.update(b.filters)
    def call(name, v, args): return F[name](eval(v), *([eval(args)] if args else []))
elif mode in ('script stand-alone', 'inside a template', 'settings module, setup after', 'wildcard import'):
    from hypertag import HyperHTML
    rt = HyperHTML()
    after = []
    def call(name, v, args):
        res = []
        imp = '*' if mode == 'wildcard import' else '$' + name
        src = 'context $v, $a, $put\nfrom hypertag.django.filters import %%s\n$ put(v:%%s)\n' %% (imp, name + ('(a)' if args else ''))
        kw = dict(v = eval(v), a = eval(args) if args else None, put = lambda x: res.append(x) or '')
        if mode == 'inside a template':
            from django.template import engines
            engines.all()[0].from_string(src).render(kw)
        else: rt.render(src, **kw)
        if mode == 'settings module, setup after' and not after:
            after.append(1)
            django.setup()
            return call(name, v, args)
        return res[0]
else:
    import hypertag.django.filters as M
    import hypertag.django.filters
    from hypertag.django.filters import slugify
    if mode == 'settings module, no setup': pass
    def call(name, v, args): return getattr(M, name)(eval(v), *([eval(args)] if args else []))
for name, v, args in names:
    try: r = ['ok', type(call(name, v, args)).__name__, repr(call(name, v, args)), str(call(name, v, args))]
    except Exception as ex: r = ['err', type(ex).__name__]
    out[name + '|' + v + '|' + args] = r
out['settings'] = state()
print('RESULT' + json.dumps(out))
'''
def child(mode, ref, names):
    import hypertag
    path = [os.path.dirname(os.path.dirname(hypertag.__file__)), DIR[0] + '/proj']
    env = dict(os.environ, PYTHONHASHSEED = '0', PYTHONDONTWRITEBYTECODE = '1')
    env.pop('DJANGO_SETTINGS_MODULE', None)
    if 'module' in mode: env['DJANGO_SETTINGS_MODULE'] = 'mcproj'
    code = CHILD % dict(path = path, mode = mode, names = names, ref = ref)
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', code], stdout = subprocess.PIPE, stderr = subprocess.PIPE, universal_newlines = True, env = env, timeout = 110)
    i = p.stdout.rfind('RESULT')
    if i < 0: return ('crash', p.stderr[-800:])
    return json.loads(p.stdout[i + 6:])
def filters(mode, cov):
    os.makedirs(DIR[0] + '/proj', exist_ok = True)
    f = DIR[0] + '/proj/mcproj.py'
    if not os.path.exists(f):
        with open(f + str(os.getpid()), 'w') as fh: fh.write("SECRET_KEY = 'k'\nLANGUAGE_CODE = 'de'\nUSE_I18N = True\nUSE_THOUSAND_SEPARATOR = True\nUSE_TZ = False\nDATE_FORMAT = 'd/m'\nINSTALLED_APPS = ['django.contrib.humanize']\nTEMPLATES = []\n")
        os.replace(f + str(os.getpid()), f)
    from django.template.defaultfilters import register as a
    from django.contrib.humanize.templatetags.humanize import register as b
    every = sorted(set(a.filters) | set(b.filters))
    names = [(n, v, args) for n in every for v, args in ARGS.get(n, DEFAULT)]
    ref = child(mode, True, names)
    got = child(mode, False, names)
    if isinstance(ref, tuple): raise Exception('reference fails: ' + ref[1])
    if isinstance(got, tuple): bad('filters ' + mode, 'filters are not usable (%s): %s', mode, got[1])
    for k in ref:
        cov.execs += 1
        cov.state((mode, k))
        if ref[k] != got.get(k): bad('filter %s %s' % (mode, k), 'filter %s (%s): Django gives %r, through hypertag %r', k, mode, ref[k], got.get(k))
