"""C12: the context declaration is the only way data enters a script."""
import itertools, sys, os, tempfile, shutil
from mc import hy, lang, util
from mc.core import Violation
from hypertag import HyperHTML, Tag, TagFunction, Markup

ID = 'C12'
LEVEL = 'model_checking'
TECHNIQUE = 'bounded exhaustive enumeration of passed x declared symbols x probes, placements of context blocks and histories of renders, on the real runtime against a model of visibility'
NOTE = ('every subset of 7 passed symbols of both namespaces (clashing with built-in variables and tags) x every ordered selection of up to 2 declarations with renaming in one or two blocks (3 thorough) x all probes; '
        'every prolog of up to 4 blocks; every history of up to 3 renders; passing forms and falsy values')
RULE = 'subsets of passed symbols x declarations x probes; sequences of prolog blocks; sequences of renders; modules with context blocks'
ASSUMPTIONS = []

class Obj:
    """Value that shows its identity."""
    def __init__(self, name): self.name = name
    def __str__(self): return '%s@%d' % (self.name, id(self))

class T(Tag):
    def __init__(self, name): self.name = name
    def expand(self, body, attrs, kwattrs): return '(%s@%d)' % (self.name, id(self))

PASS = ['$x', '$len', '$y', '%t', '%p', '%x', '$t']
DECL = ['$x', '$len', '$y', '%t', '%p', '%x', '$x as y', '$x as len', '$len as x', '%t as p', '%t as x', '%p as q', '$y as t', '$t as x', '%x as y', '$zz']
VALS = {s: Obj(s[1:]) if s[0] == '$' else T(s[1:]) for s in PASS}
PV = ['x', 'y', 't', 'len', 'q', 'p']
PT = ['t', 'p', 'x', 'y', 'q', 'len']

def table(n, maxpass = 7):
    def it():
        for k in range(n + 1):
            for d in itertools.permutations(DECL, k):
                for split in ((0, 1) if k > 1 else (0,)): yield ('vis', (d, split))
    return it

KIND = ['context $x', 'context $y as x', 'context $x, %t', '-- c', '# c', '', '| t', 'p', '$a = 1', 'if 1:', '%h\n  | h', 'pass', '$ 1', '. | n', '/ m', '! v', 'for i in [1]:', 'try | a', '<p></p>', 'from .cm import $v', '? | x', 'while 0:', '...p', '< p']
KIND.remove('<p></p>')
NEST = ['p\n  context $x', 'if 1:\n  context $x', '%h\n  context $x', '.\n  context $x', 'for i in [1]:\n  context $x', 'try:\n  context $x', 'else | q', 'div\n  p\n    context $x, %t']
def prologs(n, items):
    def it():
        for k in range(1, n + 1):
            for s in itertools.product(items, repeat = k): yield ('prolog', s)
    return it
def nests():
    for a in NEST:
        for b in (None, '-- c', 'context $x', '| a'): yield ('nest', (a, b))

STEPS = [(p, d) for p in ('', 'x', 'xy', 't', 'xt') for d in ('$x', '$y', '%t', '$x, %t', '$x as y', '', '$y, $x')]
def histories(n):
    def it():
        for s in itertools.product(range(len(STEPS)), repeat = n): yield ('hist', s)
    return it

FALSY = [None, 0, '', [], {}, False, (), 0.0]
def forms():
    for f in range(6):
        for decl in ('$x', '%t', '$x, %t', '%t as u, $x as v', '$x, %zz', '$zz'): yield ('form', (f, decl))
    for i in range(len(FALSY)):
        for d in ('$x', '$x as len', '$len', '$x as y, $x'): yield ('falsy', (i, d))
def positions():
    for a in range(12):
        for declared in (0, 1, 2):
            for passed in (0, 1): yield ('pos', (a, declared, passed))
def modules():
    for k in range(8):
        for passed in (0, 1): yield ('mod', (k, passed))

def spaces(tier):
    q = tier == 'quick'
    return [('visibility', table(2 if q else 3)), ('prologs', prologs(3, KIND)), ('nested context blocks', nests), ('histories of 2', histories(2)), ('histories of 3', histories(3) if not q else histories_few),
            ('forms of passing', forms), ('positions of use', positions), ('imported scripts', modules)] + ([] if q else [('prologs of 4', prologs(4, KIND[:12]))])

def histories_few():
    for s in itertools.product(range(0, len(STEPS), 2), repeat = 3): yield ('hist', s)

DIR = [None]
def prepare(tier):
    DIR[0] = tempfile.mkdtemp(prefix = 'mc-c12-')
    for n, text in MODULES.items():
        with open(os.path.join(DIR[0], n + '.hy'), 'w') as f: f.write(text)
    util.warm(sys.modules[__name__], tier, 10, 40)
def finish():
    if DIR[0]: shutil.rmtree(DIR[0], ignore_errors = True)

def passing(symbols, vals = VALS):
    kw, tags = {}, {}
    for s in symbols:
        if s[0] == '$': kw[s[1:]] = vals[s]
        else: tags[s[1:]] = vals[s]
    if tags: kw['__tags__'] = tags
    return kw

def expect(decls, passed):
    """-> bindings or the name of the missing symbol"""
    bound = {}
    for d in decls:
        sym, _, new = d.partition(' as ')
        if sym not in passed: return None, sym
        bound[sym[0] + new if new else sym] = passed[sym]
    return bound, None

def check(script, want, kw, cov, name = None, rt = None, key = None):
    got = hy.render_ex(script, rt, **kw)
    cov.execs += 1
    cov.step()
    cov.sample(script)
    ex = got[1]
    if got[0] == 'err': got = ('err', hy.kind_of(ex))
    cov.state(want)
    if got != want: raise Violation('expected %r, got %r for the script\n%s\ncalled with %s' % (want, got, script, sorted(kw)), key = key or script)
    if name and name not in str(ex): raise Violation('the error message does not name %s: %s' % (name, ex), key = key or script)

def probe_want(sym, bound):
    if sym[0] == '$':
        if sym in bound: return ('ok', '%s\n' % bound[sym])
        if sym == '$len': return ('ok', '%s\n' % len)
        return ('err', 'Name')
    if sym in bound: return ('ok', bound[sym].expand(None, (), {}) + '\n')
    if sym[1:] in lang.TAGS: return ('ok', '<%s></%s>\n' % (sym[1:], sym[1:]))
    return ('err', 'UndefinedTag')

def run(case, cov):
    kind, arg = case
    if kind == 'vis':
        d, split = arg
        head = ''.join('context %s\n' % i for i in d) if split else 'context %s\n' % ', '.join(d) if d else ''
        need = [i.partition(' as ')[0] for i in d]
        for n in range(len(PASS) + 1):
            for passed in itertools.combinations(PASS, n):
                # everything is decided by the first missing symbol; all probes are made when the declarations are complete
                miss = [s for s in need if s not in passed]
                if miss and n not in (0, len(need) - len(set(miss)), len(PASS) - 1): continue
                if not miss and n not in (len(set(need)), len(set(need)) + 1, len(PASS)): continue
                pas = {s: VALS[s] for s in passed}
                kw = passing(passed)
                bound, missing = expect(d, pas)
                if missing:
                    check(head + '| ok\n', ('err', 'Import'), kw, cov, missing, key = '%r %r %r' % (arg, passed, missing))
                    continue
                probes = ['$' + v for v in PV] + ['%' + t for t in PT]
                # bound names and built-ins in one script
                ok = [s for s in probes if probe_want(s, bound)[0] == 'ok']
                text = ''.join(probe_want(s, bound)[1] for s in ok)
                check(head + ''.join(('/ $%s\n' if s[0] == '$' else '%s\n') % s[1:] for s in ok), ('ok', text), kw, cov, key = '%r %r' % (arg, passed))
                if n < len(PASS) and n > len(set(need)): continue
                for s in probes:
                    if s in ok: continue
                    w = probe_want(s, bound)
                    check(head + (('/ $%s\n' if s[0] == '$' else '%s\n') % s[1:]), w, kw, cov, key = '%r %r %r' % (arg, passed, s))
    elif kind == 'prolog':
        kw = passing(['$x', '$y', '%t'])
        kw['__file__'] = os.path.join(DIR[0], 'main.hy')
        valid, prolog, val = True, True, None
        for s in arg:
            if s.startswith('context'):
                if not prolog: valid = False
                val = {'context $x': '$x', 'context $y as x': '$y', 'context $x, %t': '$x'}[s] if valid else val
            elif s[:1] not in ('-', '#', ''): prolog = False
        lead = [s for s in arg if s]
        script = '\n'.join(arg) + '\n/ last\n'
        if not val and not any(s.startswith('context') for s in arg): return
        got = hy.render(script, **kw)
        cov.execs += 1
        cov.step(len(arg))
        cov.state((arg, valid))
        if valid:
            if got[0] != 'ok': raise Violation('context blocks in the prolog rejected: %r for\n%s' % (got, script), key = script)
            got = hy.render('\n'.join(arg) + '\n/ $x\n', **kw)
            if got[0] != 'ok' or not got[1].endswith('%s\n' % VALS[val]): raise Violation('expected the value of %s at the end, got %r for\n%s' % (val, got, script), key = script)
        elif got != ('err', 'Syntax'): raise Violation('context block after other blocks: expected a syntax error, got %r for\n%s' % (got, script), key = script)
    elif kind == 'nest':
        a, b = arg
        script = (b + '\n' if b else '') + a + '\n/ last\n'
        check(script, ('err', 'Syntax'), passing(['$x', '%t']), cov)
    elif kind == 'hist':
        rt = HyperHTML() if sum(arg) % 10 == 0 else hy.runtime()
        for k, i in enumerate(arg):
            p, d = STEPS[i]
            vals = {'$x': Obj('x%d' % k), '$y': Obj('y%d' % k), '%t': T('t%d' % k)}
            passed = [s for s in ('$x', '$y', '%t') if s[1] in p]
            decls = [x.strip() for x in d.split(',')] if d else []
            bound, missing = expect(decls, {s: vals[s] for s in passed})
            kw = passing(passed, vals)
            head = 'context %s\n' % d if d else ''
            if missing: check(head + '| ok\n', ('err', 'Import'), kw, cov, missing, rt, key = repr(arg))
            else:
                check(head + ''.join(('/ $%s\n' if s[0] == '$' else '%s\n') % s[1:] for s in bound) + '/ end\n', ('ok', ''.join(probe_want(s, bound)[1] for s in bound) + 'end\n'), kw, cov, None, rt, key = repr(arg))
                for s in ('$x', '$y', '%t'):
                    if s not in bound: check(head + ('/ $%s\n' if s[0] == '$' else '%s\n') % s[1:], probe_want(s, bound), kw, cov, None, rt, key = repr(arg) + s)
    elif kind == 'form':
        f, decl = arg
        x, t = Obj('x'), T('t')
        kw = [{'x': x, '__tags__': {'t': t}}, {'x': x, '__tags__': {'%t': t}}, {'$x': x, '__tags__': {'t': t}}, {'$x': x, '%t': t}, {'x': x, '%t': t}, {'__tags__': {'$x': x, '%t': t}}][f]
        decls = [s.strip() for s in decl.split(',')]
        bound, missing = expect(decls, {'$x': x, '%t': t})
        head = 'context %s\n' % decl
        if missing: check(head + '| ok\n', ('err', 'Import'), kw, cov, missing)
        else: check(head + ''.join(('/ $%s\n' if s[0] == '$' else '%s\n') % s[1:] for s in bound), ('ok', ''.join(probe_want(s, bound)[1] for s in bound)), kw, cov)
    elif kind == 'falsy':
        i, d = arg
        v = FALSY[i]
        kw = {'x': v, 'len': v}
        last = d.split(',')[-1].strip()
        name = last.partition(' as ')[2] or last[1:]
        check('context %s\n/ {type(%s).__name__} {str(%s)}\n' % (d, name, name), ('ok', '%s %s\n' % (type(v).__name__, v)), kw, cov, key = repr(arg))
    elif kind == 'pos':
        a, declared, passed = arg
        use = ['/ $x', 'p\n  / $x', 'p / $x', '%h\n  / $x\nh', '%h a=$x\n  / $a\nh', '%h a\n  / $a\nh $x', 'if 1 / $x', 'for i in [x]\n  / $i', '$y = x\n/ $y', 'try / $x', '/ { str(x) }', '%h @b\n  @b\nh\n  / $x'][a]
        out = ['X', '<p>\n  X\n</p>', '<p>X</p>', 'X', 'X', 'X', 'X', 'X', 'X', 'X', 'X', 'X'][a]
        head = ['', 'context $x\n', 'context $y as x\n'][declared]
        kw = {'x': Obj('x'), 'y': Obj('y')} if passed else {}
        if declared and not passed: w = ('err', 'Import')
        elif not declared: w = ('err', 'Name')
        else: w = ('ok', out.replace('X', str(kw['x' if declared == 1 else 'y'])) + '\n')
        check(head + use + '\n', w, kw, cov, key = repr(arg))
    else:
        k, passed = arg
        kw = {'x': Obj('x'), '__tags__': {'t': T('t')}} if passed else {}
        kw['__file__'] = os.path.join(DIR[0], 'main.hy')
        x = str(kw.get('x'))
        head = 'context $x, %t\n' if passed else ''
        script, want = [
            ('from .ctx import $y\n| a\n', ('err', 'Import')),                      # a script with a context block cannot be imported
            ('from .use import $y\n| a\n', ('err', 'Name')),                        # and the context of the caller is not visible in an imported one
            ('from .uset import $y\n| a\n', ('err', 'UndefinedTag')),
            ('from .own import %h\nh\n', ('ok', 'own\n')),
            ('from .own import $x as z\n/ $z\n', ('ok', 'own\n')),
            ('from .own import *\n/ $x\n', ('ok', 'own\n')),
            ('from .tag import %h\nh / ok\n', ('ok', '<i>ok</i>\n')),
            ('from .deep import $y\n| a\n', ('err', 'Name')),
        ][k]
        for rt in (HyperHTML(), hy.runtime()):
            for i in range(2): check(head + script, want, kw, cov, None, rt, key = repr(arg))

MODULES = {'ctx': 'context $x\n$y = x\n', 'use': '$y = x\n', 'uset': '$y = 1\nt\n', 'own': "$x = 'own'\n%h\n  | $x\n", 'tag': '%h @b\n  t @b\n%t @b\n  i @b\n', 'deep': 'from .use import $y\n', 'cm': '$v = 1\n'}
MODULES['tag'] = '%t @b\n  i @b\n%h @b\n  t @b\n'
