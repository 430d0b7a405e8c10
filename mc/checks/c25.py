"""C25: every script sees the built-in symbols of its runtime, and no others; runtimes are configured independently."""
import builtins, itertools, os, shutil, sys, tempfile, types
from mc import hy, lang, util
from mc.core import Violation
from mc.hy import DOM, Tag, TagFunction, Markup, HyperHTML
from hypertag import Runtime

ID = 'C25'
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of all built-in symbols x places of use x ways of shadowing, and of all runtime configurations (lists of built-in modules, escape function, order of creation and of renders) '
             'within a bound, executed on the real runtime against a model of the symbol table')
NOTE = ('all Python built-ins, all functions and tags of the standard library x 12 places and imports x 3 runtimes; every built-in of a family x all pairs of shadowing forms x probes before, inside, after, in imported scripts and in the next render; '
        'all ordered lists of up to 3 built-in modules x escape functions x interleavings of two runtimes')
RULE = 'symbols x places; symbols x shadowing forms x probes; lists of modules x escape functions x interleavings'
ASSUMPTIONS = ['symbols with a leading underscore are left out, except __file__ and __package__']

ROOT = [None]
def prepare(tier):
    ROOT[0] = tempfile.mkdtemp(prefix = 'mc-c25-')
    def w(name, text):
        with open(os.path.join(ROOT[0], name), 'w') as f: f.write(text)
    w('use_lib.hy', "%probe a @b\n  | [$a]\n")
    for i, (c, text) in enumerate(MODS_HY.items()): w(c + '.hy', text)
    sys.path.insert(0, ROOT[0])
    util.warm(sys.modules[__name__], tier, 10, 20)
def finish():
    if ROOT[0] and ROOT[0].startswith(tempfile.gettempdir() + os.sep + 'mc-c25-'): shutil.rmtree(ROOT[0], ignore_errors = True)

# ---------------------------------------------------------------------------------------------------------------------------------
#  1. every built-in symbol at every place

PY_NAMES = [n for n in dir(builtins) if n[0] != '_' and n not in ('True', 'False', 'None')]
LIB_FUNS = ['dedent', 'merge', 'inline', 'unique', 'lower', 'upper', 'crop', 'truncate', 'changes', 'cycle']
LIB_TAGS = ['doctype', 'dedent', 'merge', 'inline', 'unique', 'lower', 'upper', 'crop', 'truncate']
HTML_TAGS = lang.NONVOID + lang.VOID
HTML_TAGS = HTML_TAGS + [t.upper() for t in HTML_TAGS] + ['custom', 'comment']

class Plain(Runtime): pass
RTS = {'html': HyperHTML, 'plain': Runtime, 'sub': Plain}

# place -> script around a statement that hands the value of NAME to rec
PLACES = {
    'top': '$ rec(NAME)\n',
    'nested': 'ul\n  li : b\n    $ rec(NAME)\n',
    'null': '.\n  $ rec(NAME)\n',
    'loop': 'for i in [1]\n  if i\n    $ rec(NAME)\n',
    'branch': 'if 0\n  | a\nelse\n  try\n    $ rec(NAME)\n',
    'hyper': '%h_\n  $ rec(NAME)\nh_\n',
    'default': '%h_ a_=NAME\n  $ rec(a_)\nh_\n',
    'body': '%h_ @b_\n  @ b_\nh_\n  $ rec(NAME)\n',
    'late': 'if 1\n  $v_ = NAME\n| x\n$ rec(v_)\n',
    'attr': 'tag_ a=NAME\n',
    'call': '| {rec(NAME)}\n',
    'pipe': '| {NAME : rec}\n',
    'imported': None,
}
def need_html(place): return place == 'nested'

def names_space():
    for rt in RTS:
        for n in PY_NAMES:
            for p in PLACES: yield ('name', (rt, 'py', n, p))
            for p in ('import', 'rename'): yield ('name', (rt, 'py', n, p))
        for n in LIB_FUNS:
            for p in PLACES: yield ('name', (rt, 'lib', n, p))
            for p in ('import', 'rename'): yield ('name', (rt, 'lib', n, p))

class RecTag(Tag):
    name = 'tag_'
    def __init__(self, rec): self.rec = rec
    def expand(self, body, attrs, kwattrs):
        for v in kwattrs.values(): self.rec(v)
        return ''

def run_name(arg, cov):
    rt, kind, name, place = arg
    if need_html(place) and rt != 'html': return
    got = []
    def rec(v):
        got.append(v)
        return ''
    kw = {'__tags__': {'tag_': RecTag(rec)}, '__file__': os.path.join(ROOT[0], 'main.hy')}
    if kind == 'py': value = getattr(builtins, name)
    else:
        import hypertag.builtins
        value = getattr(hypertag.builtins, name)
    path = 'builtins' if kind == 'py' else 'hypertag.builtins'
    if place == 'imported':
        f = os.path.join(ROOT[0], 'own_%s.hy' % name)
        if not os.path.exists(f):
            tmp = f + str(os.getpid())
            with open(tmp, 'w') as h: h.write('$v_ = %s\n%%t_\n  | x\n  $ w_ = %s\n' % (name, name))
            os.rename(tmp, f)
        src = 'context $rec, %%tag_\nfrom .own_%s import $v_, %%t_\n$ rec(v_)\nt_\n' % name
    elif place == 'import': src = 'context $rec, %%tag_\nfrom %s import $%s\n$ rec(%s)\n' % (path, name, name)
    elif place == 'rename': src = 'context $rec, %%tag_\nfrom %s import $%s as v_\n$ rec(v_)\n' % (path, name)
    else: src = 'context $rec, %tag_\n' + PLACES[place].replace('NAME', name)
    r = hy.render(src, hy_runtime(rt), rec = rec, **kw)
    cov.execs += 1
    cov.step()
    cov.state((kind, name, place, r))
    if r[0] != 'ok': raise Violation('built-in %s in the runtime %s: %r for\n%s' % (name, rt, r, src), key = rt + src)
    if not got or any(g is not value for g in got): raise Violation('built-in %s in the runtime %s has the value %r instead of %r in\n%s' % (name, rt, got, value, src), key = rt + src)

_rts = {}
def hy_runtime(name):
    if name not in _rts: _rts[name] = RTS[name]()
    return _rts[name]

# ---- tags
TAG_FORMS = ['plain', 'import', 'rename', 'star', 'expr', 'hyper']
def tags_space():
    for rt in RTS:
        for kind, ts in (('html', HTML_TAGS), ('lib', LIB_TAGS)):
            for t in ts:
                for f in TAG_FORMS: yield ('tag', (rt, kind, t, f))

LIB_TEXT = 'A  b'
LIB_OUT = {'doctype': '<!DOCTYPE html>', 'dedent': 'A  b', 'merge': 'A b', 'inline': 'A  b', 'unique': 'A  b', 'lower': 'a  b', 'upper': 'A  B', 'crop': 'A...', 'truncate': 'A...'}
def run_tag(arg, cov):
    rt, kind, t, form = arg
    module = 'hypertag.html' if kind == 'html' else 'hypertag.builtins'
    head, use = '', t
    if form == 'import': head = 'from %s import %%%s\n' % (module, t)
    elif form == 'rename': head, use = 'from %s import %%%s as t_\n' % (module, t), 't_'
    elif form == 'star': head = 'from %s import *\n' % module
    lower = t.lower()
    if kind == 'html':
        if t == 'custom': attrs, want = " 'x-y'", '<x-y>A  b</x-y>'
        elif t == 'comment': attrs, want = '', '<!--A  b-->'
        elif lower in lang.VOID: attrs, want = '', '<%s />' % t
        else: attrs, want = '', '<%s>A  b</%s>' % (t, t)
    else:
        attrs, want = (' 4' if t in ('crop', 'truncate') else ''), LIB_OUT[t]
        if t in ('crop', 'truncate'): want = 'A...' if len(LIB_TEXT) > 4 else LIB_TEXT
    void = kind == 'html' and lower in lang.VOID or t == 'doctype'
    body = '' if void else ' ! ' + LIB_TEXT
    if form == 'expr':
        args = ', '.join((["None"] if void else ["'" + LIB_TEXT + "'"]) + ([attrs.strip()] if attrs else []))
        src = '/ {%%%s(%s)}\n' % (t, args)
    elif form == 'hyper': src = '%%h_\n  %s%s%s\nh_\n' % (t, attrs, body)
    else: src = head + use + attrs + body + '\n'
    visible = rt == 'html' or kind == 'lib' or head
    want = ('ok', want + '\n') if visible else ('err', 'Name' if form == 'expr' else 'UndefinedTag')
    got = hy.render(src, hy_runtime(rt))
    cov.execs += 1
    cov.step()
    cov.state((kind, t, form, got))
    if got != want: raise Violation('built-in tag %%%s in the runtime %s: expected %r, got %r for\n%s' % (t, rt, want, got, src), key = rt + src)

# ---------------------------------------------------------------------------------------------------------------------------------
#  2. shadowing of built-ins

# kind of symbol, name, text of its use, what the built-in gives
SHADOWED = {
    'unique': ('$', '| {unique("a")}', 'a'), 'len': ('$', '| {len("abc")}', '3'), 'str': ('$', '| {str(5)}', '5'), 'upper': ('$', '| {upper("a")}', 'A'), 'id': ('$', '| {id(1).__class__.__name__}', 'int'),
    'p': ('%', 'p | t', '<p>t</p>'), 'br': ('%', 'br', '<br />'), 'lower': ('%', 'lower | T', 't'), 'DIV': ('%', 'DIV | t', '<DIV>t</DIV>'), 'title': ('%', 'title | t', '<title>t</title>'),
}
# form -> (text before, text inside which the symbol is shadowed (None: in what follows), ...): `own` is what a use gives then
def forms(kind, n):
    if kind == '$':
        return {
            'assign': ('$%s = own\n' % n, ''), 'inplace': ('$%s = own\n$%s = %s\n' % (n, n, n), ''),
            'if': ('if 1\n  $%s = own\n' % n, ''), 'multi': ('$%s, q_ = own, 2\n' % n, ''), 'for': ('for %s in [own]\n  $q_ = 1\n' % n, ''),
            'div': ('div\n  $%s = own\n  USE\n' % n, 'own', 'block'), 'null': ('.\n  $%s = own\n  USE\n' % n, 'own', 'null'), 'deep': ('section\n  if 1\n    $%s = own\n    USE\n' % n, 'own', 'section'),
            'attr': ('%%h_ %s\n  USE\nh_ $own\n' % n, 'own', 'plain'), 'dflt': ('%%h_ %s=own\n  USE\nh_\n' % n, 'own', 'plain'), 'loop': ('.\n  for %s in [own]\n    USE\n' % n, 'own', 'null'),
            'import': ('from .use_own import $own as %s\n' % n, ''), 'star': ('from .m_%s import *\n' % n, ''), 'never': ('if 0\n  $%s = own\n' % n, 'builtin'), 'tagns': ('%%%s @b_\n  | x\n' % n, 'builtin'),
        }
    return {
        'def': ('%%%s @b_\n  | own\n' % n, ''), 'import': ('from .use_own import %%own as %s\n' % n, ''), 'star': ('from .m_%s import *\n' % n, ''),
        'div': ('div\n  %%%s @b_\n    | own\n  USE\n' % n, 'own', 'block'), 'null': ('.\n  %%%s @b_\n    | own\n  USE\n' % n, 'own', 'null'), 'deep': ('section\n  i\n    %%%s @b_\n      | own\n    USE\n' % n, 'own', 'section i'),
        'hyper': ('%%h_\n  %%%s @b_\n    | own\n  USE\nh_\n' % n, 'own', 'plain'), 'varns': ('$%s = 5\n' % n, 'builtin'), 'attrns': ('%%h_ %s\n  USE\nh_ 4\n' % n, 'builtin', 'plain'),
    }
MODS_HY = {'use_own': 'from mc_c25_own import $own\n%own @b_\n  | own\n'}

class Own:
    """A value that stands for any of the shadowed functions."""
    def __call__(self, *a): return 'own'
    def __iter__(self): return iter([self])
    __name__ = 'own'

def shadow_space(n):
    def it():
        for name, (kind, use, out) in SHADOWED.items():
            for fs in itertools.product(forms(kind, name), repeat = n):
                for nxt in (0, 1): yield ('shadow', (name, fs, nxt))
    return it

def run_shadow(arg, cov):
    name, fs, nxt = arg
    kind, use, out = SHADOWED[name]
    if kind == '$': own = {'id': 'str'}.get(name, 'own')
    else: own = 'own'
    table = forms(kind, name)
    lines, want, cur = ['context $own\n'], [], 'builtin'
    def used(state): return own if state == 'own' else out
    def emit(txt, ind): want.append(ind + txt + '\n')
    lines.append(use + '\n')
    emit(used(cur), '')
    for f in fs:
        entry = table[f]
        text, eff = entry[0], entry[1]
        wrap = entry[2] if len(entry) > 2 else None
        if wrap is None:
            if eff == '': cur = 'own'
            lines.append(text)
        else:
            inner = used('own' if eff == 'own' else cur)
            lines.append(text.replace('USE', use))
            if wrap == 'block': want.append('<div>\n  %s\n</div>\n' % inner)
            elif wrap == 'section': want.append('<section>\n  %s\n</section>\n' % inner)
            elif wrap == 'section i': want.append('<section>\n  <i>\n    %s\n  </i>\n</section>\n' % inner)
            elif wrap == 'null': want.append('\n  %s\n' % inner)
            else: want.append('%s\n' % inner)
        lines.append(use + '\n')
        emit(used(cur), '')
    src = ''.join(lines)
    write_modules(name, kind)
    rt = HyperHTML() if nxt else hy.runtime()
    kw = dict(__file__ = os.path.join(ROOT[0], 'main.hy'), own = Own())
    exp = ('ok', ''.join(want))
    got = hy.render(src, rt, **kw)
    cov.execs += 1
    cov.step(len(fs))
    cov.state((name, exp))
    cov.sample(src)
    if got != exp: raise Violation('shadowing of the built-in %s: expected %r, got %r for\n%s' % (name, exp, got, src), key = src)
    # the next render and an imported script see the built-in
    probe = 'from .p_%s import %%probe_\n%s\nprobe_\n' % (name, use)
    exp = ('ok', out + '\n' + out + '\n')
    got = hy.render(probe, rt, **kw)
    cov.execs += 1
    if got != exp: raise Violation('built-in %s in a later render: expected %r, got %r after\n%s' % (name, exp, got, src), key = 'next ' + src)
    # a script that was imported while the symbol was shadowed
    src2 = src + 'from .p_%s import %%probe_\nprobe_\n' % name
    exp2 = ('ok', ''.join(want) + out + '\n')
    got = hy.render(src2, rt, **kw)
    cov.execs += 1
    if got != exp2: raise Violation('built-in %s in an imported script: expected %r, got %r for\n%s' % (name, exp2, got, src2), key = 'imp ' + src)

_written = set()
def write_modules(name, kind):
    if name in _written: return
    _written.add(name)
    kind, use, _ = SHADOWED[name]
    def w(f, text):
        path = os.path.join(ROOT[0], f)
        if os.path.exists(path): return
        tmp = path + '.%d' % os.getpid()
        with open(tmp, 'w') as h: h.write(text)
        os.rename(tmp, path)
    w('p_%s.hy' % name, '%%probe_\n  %s\n' % use)
    w('use_own.hy', MODS_HY['use_own'])
    if kind == '$': w('m_%s.hy' % name, 'from mc_c25_own import $own\n$%s = own\n' % name)
    else: w('m_%s.hy' % name, '%%%s @b_\n  | own\n' % name)
OWN_MOD = types.ModuleType('mc_c25_own')
OWN_MOD.own = Own()
sys.modules['mc_c25_own'] = OWN_MOD

# ---------------------------------------------------------------------------------------------------------------------------------
#  3. configurations of runtimes

def _mod(name, vars, tags):
    m = types.ModuleType(name)
    for k, v in vars.items(): setattr(m, k, v)
    m.__tags__ = {t: Says(t, v) for t, v in tags.items()}
    sys.modules[name] = m
class Says(Tag):
    def __init__(self, name, text): self.name, self.text = name, text
    def expand(self, body, attrs, kwattrs): return self.text
_mod('mc_c25_a', {'x': 'xa', 'y': 'ya'}, {'t': 'ta', 'p': 'pa'})
_mod('mc_c25_b', {'x': 'xb', 'len': 'lenb'}, {'t': 'tb', 'w': 'ub'})
_mod('mc_c25_s', {'x': 'xs', 'z': 'zs'}, {'w': 'us', 'p': 'ps'})
LISTS = {'py': 'builtins', 'lib': 'hypertag.builtins', 'html': 'hypertag.html', 'a': 'mc_c25_a', 'b': 'mc_c25_b', 's': 'mc_c25_s', 'none': 'mc_c25_missing'}
SYMS = {'a': {'$x': 'xa', '$y': 'ya', '%t': 'ta', '%p': 'pa'}, 'b': {'$x': 'xb', '$len': 'lenb', '%t': 'tb', '%w': 'ub'}, 's': {'$x': 'xs', '$z': 'zs', '%w': 'us', '%p': 'ps'},
        'py': {'$len': '&lt;built-in function len&gt;'}, 'lib': {'%upper': ''}, 'html': {'%p': '<p></p>', '%hr': '<hr />'}}
PROBES = ['$x', '$y', '$z', '$len', '%t', '%w', '%p', '%upper', '%hr']
ESC = {'none': None, 'html': lang.html_escape, 'twice': lambda s: lang.html_escape(lang.html_escape(s)), 'brackets': lambda s: s.replace('x', '(x)').replace('z', '[z]'), 'up': lambda s: s.upper()}

def make_runtime(mods, esc):
    ns = {'BUILTINS': [LISTS[m] for m in mods]}
    if ESC[esc] is not None: ns['escape'] = staticmethod(ESC[esc])
    return type('Custom', (Runtime,), ns)()

def expected(mods, probe, esc):
    if 'none' in mods: return ('err', 'Import')
    table = {}
    for m in mods: table.update(SYMS[m])
    if probe not in table: return ('err', 'Name' if probe[0] == '$' else 'UndefinedTag')
    v = table[probe]
    if probe[0] == '$':
        if v.startswith('&lt;'): v = '<built-in function len>'
        f = ESC[esc] or (lambda s: s)
        return ('ok', f(v) + '\n')
    return ('ok', v + '\n')

def configs(n):
    def it():
        for k in range(n + 1):
            for mods in itertools.permutations(LISTS, k):
                for esc in ESC: yield ('config', (mods, esc))
    return it

def run_config(arg, cov):
    mods, esc = arg
    rt = make_runtime(mods, esc)
    kw = {}
    cwd = os.getcwd()
    os.chdir(ROOT[0])
    try:
        for k in range(2):
            for p in PROBES:
                exp = expected(mods, p, esc)
                src = '| %s\n' % p if p[0] == '$' else p[1:] + '\n'
                got = hy.render(src, rt)
                cov.execs += 1
                cov.step()
                cov.state((exp, esc))
                if got != exp: raise Violation('runtime with the built-in modules %r, escape function %s, round %d, script %r: expected %r, got %r' % (mods, esc, k + 1, src, exp, got), key = repr((arg, p)))
    finally: os.chdir(cwd)

def interleavings(n):
    def it():
        kinds = [m for k in range(0, 3) for m in itertools.permutations(['html', 'a', 'b', 's'], k)]
        for m1 in kinds:
            for m2 in kinds:
                for order in itertools.product((0, 1), repeat = n): yield ('inter', (m1, m2, order))
    return it

def run_inter(arg, cov):
    m1, m2, order = arg
    rts = [make_runtime(m1, 'html'), make_runtime(m2, 'brackets')]
    cwd = os.getcwd()
    os.chdir(ROOT[0])
    try:
        for k, i in enumerate(order):
            mods, esc = ((m1, 'html'), (m2, 'brackets'))[i]
            p = PROBES[(3 * k + len(m1) + 2 * len(m2)) % len(PROBES)] if k % 2 else '$x'
            for p in (p, '%p', '%t'):
                exp = expected(mods, p, esc)
                src = '| %s\n' % p if p[0] == '$' else p[1:] + '\n'
                got = hy.render(src, rts[i])
                cov.execs += 1
                cov.step()
                cov.state(exp)
                if got != exp: raise Violation('two runtimes, built-ins %r and %r, order %r, render %d (%r): expected %r, got %r' % (m1, m2, order, k + 1, src, exp, got), key = repr((arg, k, p)))
    finally: os.chdir(cwd)

# ---- __file__ and __package__ of every script
def own_place():
    for how in itertools.product((0, 1), repeat = 2):
        for route in ('direct', 'imported', 'hyper', 'expr'):
            for n in (1, 2): yield ('place', (how, route, n))

def run_place(arg, cov):
    (f, pk), route, n = arg
    lib = os.path.join(ROOT[0], 'placelib.hy')
    if not os.path.exists(lib):
        with open(lib + str(os.getpid()), 'w') as h: h.write('$f_, k_ = __file__, __package__\n%h_\n  | {__file__ or "None"} {__package__ or "None"}\n')
        os.rename(lib + str(os.getpid()), lib)
    kw = {}
    if f: kw['__file__'] = os.path.join(ROOT[0], 'main.hy')
    if pk: kw['__package__'] = 'pack'
    rt = HyperHTML()
    cwd = os.getcwd()
    os.chdir(ROOT[0])
    try:
        for k in range(n):
            mine = '%s %s' % (kw.get('__file__'), kw.get('__package__'))
            show = '| {__file__ or "None"} {__package__ or "None"}\n'
            imp = 'from placelib import $f_, $k_, %h_\n'
            src = {'direct': show, 'imported': imp + show + '| {f_}\n', 'hyper': imp + 'h_\n' + show, 'expr': imp + '/ {%h_()}\n' + show}[route]
            exp = {'direct': mine + '\n', 'imported': mine + '\n' + lib + '\n'}.get(route)
            got = hy.render(src, rt, **kw)
            cov.execs += 1
            cov.step()
            if route in ('hyper', 'expr'):
                good = got[0] == 'ok' and got[1].split('\n')[0].startswith(lib + ' ') and got[1].split('\n')[1] == mine
                if not good: raise Violation('__file__ and __package__ in the script and in an imported hypertag: got %r for\n%s with %r' % (got, src, kw), key = repr(arg))
            elif got != ('ok', exp): raise Violation('__file__ and __package__: expected %r, got %r for\n%s with %r' % (exp, got, src, kw), key = repr(arg))
            cov.state((route, f, pk))
            kw = dict(kw, __file__ = os.path.join(ROOT[0], 'other.hy'))
    finally: os.chdir(cwd)

def spaces(tier):
    q = tier == 'quick'
    return [('names', names_space), ('tags', tags_space), ('shadowing, 1 form', shadow_space(1)), ('shadowing, 2 forms', shadow_space(2)), ('configurations', configs(3 if q else 4)), ('two runtimes', interleavings(2 if q else 4)), ('place of the script', own_place)] + (
        [] if q else [('shadowing, 3 forms', shadow_space(3))])

def run(case, cov):
    kind, arg = case
    {'name': run_name, 'tag': run_tag, 'shadow': run_shadow, 'config': run_config, 'inter': run_inter, 'place': run_place}[kind](arg, cov)
