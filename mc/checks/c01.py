"""C01: plain text is escaped exactly once; markup and verbatim are left intact."""
import itertools, sys, os, copy, shutil, tempfile
from mc import hy, lang, util
from mc.lang import *
from mc.core import Violation
from mc.util import compare
from hypertag import HyperHTML
from hypertag.core.runtime import Runtime

ID = 'C01'
LEVEL = 'model_checking'
TECHNIQUE = 'bounded exhaustive enumeration of strings x text forms x structural positions x escape functions, executed on the real runtime and compared with a reference model that escapes once'
NOTE = ('all strings of up to 3 characters over the special alphabet as literal text and in every form of embedding, in every text style; every style and form in every structural position '
        'and every pair of nested positions; five runtimes (HTML, none, and three non-idempotent escape functions)')
RULE = 'strings x styles x forms (in rotating positions and runtimes); styles x forms x positions (single and nested in pairs) x runtimes; multi-line texts x positions x runtimes; hypertags in expressions'
ASSUMPTIONS = ['escape functions are character-wise maps: whether the function is called per line or per block is not fixed by the documentation']
CASE_SECONDS = 60

def dbl(s): return ''.join(c if c in ' \n\t' else c + c for c in s)
def rot(s): return ''.join({'a': 'b', 'b': 'c', 'c': 'd', '<': '[', '[': '(', '&': '&&', '$': '{', '{': '$'}.get(c, c) for c in s)
class HNone(HyperHTML): escape = None
class HDbl(HyperHTML): escape = staticmethod(dbl)
class HRot(HyperHTML):
    @staticmethod
    def escape(text): return rot(text)
class Plain(Runtime): pass

def make():
    late = HyperHTML()
    late.escape = lambda s: s.replace('a', 'aa')
    return {'html': (HyperHTML(), html_escape), 'none': (HNone(), None), 'dbl': (HDbl(), dbl), 'rot': (HRot(), rot), 'inst': (late, lambda s: s.replace('a', 'aa'))}
RT = {}

ALPHA = '<>&"\'a;#/!|%@-'
CHARS = '<>&"\'a;'

def strings(n, alpha):
    return [''.join(t) for k in range(1, n + 1) for t in itertools.product(alpha, repeat = k)]

# ---- forms of one line that carries the string s (variable name n holds it)
def quoted(s):
    q = "'" if "'" not in s else '"'
    if q in s: return None
    return q + s.replace('{', '{{').replace('}', '}}').replace('$', '$$') + q
FORMS = {
    'lit': lambda s, n: ('' + s,),
    'xlit': lambda s, n: ('x' + s + 'y',),
    'b': lambda s, n: (Emb(n),),
    's': lambda s, n: (Emb(n, 's'),),
    'd': lambda s, n: (Emb(n, 'd'),),
    'q': lambda s, n: (Emb(n, 'b', '?'),),
    'o': lambda s, n: (Emb(n, 'd', '!'),),
    'str': lambda s, n: None if quoted(s) is None else (Emb(Ex(quoted(s), repr(s))),),
    'raw': lambda s, n: None if quoted(s) is None else (Emb(Ex('r' + quoted(s).replace('{{', '{').replace('}}', '}').replace('$$', '$'), repr(s))),),
    'mix': lambda s, n: ('x' + s + ' ', Emb(n), ' ' + s + 'y'),
    'two': lambda s, n: (Emb(n), Emb(n, 's'), '<', Emb(n, 'd')),
    'cat': lambda s, n: (Emb(Ex("'<' %s" % n, "'<' + %s" % n)),),
    'call': lambda s, n: (Emb("str(%s)" % n), Emb("%s.replace('a', '&')" % n)),
    'fmt': lambda s, n: (Emb(Ex("'{%s}&$%s'" % (n, n), "%s + '&' + %s" % (n, n))),),
    'pipe': lambda s, n: (Emb(Ex("%s:str" % n, "str(%s)" % n)),),
    'obj': lambda s, n: (Emb("Obj(%s)" % n),),
    'lst': lambda s, n: (Emb("[%s, 1]" % n),),
    'if': lambda s, n: (Emb("%s if 1 else 0" % n), Emb(Ex("%s if 0" % n, "''"))),
    'esc': lambda s, n: ('{' + s.strip('{}$') + '}', Emb(n), '$$'),
}
class Obj:
    def __init__(self, s): self.s = s
    def __str__(self): return '<' + self.s + '&>'
class Sub(str): pass

# ---- positions: list of blocks -> list of blocks
def P_(f, one = False): return (f, one)
POS = {
    'top': P_(lambda b: b),
    'p': P_(lambda b: [Struct('p', b)]),
    'pin': P_(lambda b: [Struct('p', inline = b[0])], True),
    'phead': P_(lambda b: [Struct('p', [], head = b[0])], True),
    'pheadb': P_(lambda b: [Struct('p', b, head = Text('h<'))]),
    'col': P_(lambda b: [Struct('div', [Struct('p', b)], colon = True)]),
    'ch': P_(lambda b: [Struct(['div', 'p'], b)]),
    'null': P_(lambda b: [Struct('.', b)]),
    'if': P_(lambda b: [If([Branch('1', b)])]),
    'ifin': P_(lambda b: [If([Branch('1', [], b[0])])], True),
    'else': P_(lambda b: [If([Branch('0', [Text('no')])], Branch(None, b))]),
    'for': P_(lambda b: [For('i', '[1, 2]', b)]),
    'forelse': P_(lambda b: [For('i', '[]', [Text('no')], els = Branch(None, b))]),
    'while': P_(lambda b: [Assign('w', '2'), While('w', b + [Assign('w', 'w-1')])]),
    'try': P_(lambda b: [Try([Branch(None, b)])]),
    'tryelse': P_(lambda b: [Try([Branch(None, [Text([Emb('1/0')])]), Branch(None, b)])]),
    'opt': P_(lambda b: [Opt(Struct('p', b))]),
    'app': P_(lambda b: [Text('t')] + [b[0].at(0, '...')] + b[1:]),
    'ded': P_(lambda b: [Struct('p', [b[0].at(0, '<')] + b[1:])]),
    'gap': P_(lambda b: [Text('t')] + [b[0].at(2)] + b[1:]),
    'def': P_(lambda b: [Def('h', [], None, b), Struct('h'), Struct('h')]),
    'defin': P_(lambda b: [Def('h', [], None, inline = b[0]), Struct('h')], True),
    'body': P_(lambda b: [Def('h', [], 'b', [Embed('b')]), Struct('h', b)]),
    'bodyin': P_(lambda b: [Def('h', [], 'b', [Struct('p', inline = Embed('b'))]), Struct('h', inline = b[0])], True),
    'body2': P_(lambda b: [Def('h', [], 'b', [Struct('p', [Embed('b')]), Embed('b')]), Struct('h', b)]),
    'body0': P_(lambda b: [Def('h', [], 'b', [Text('none')]), Struct('h', b)]),
    'thru': P_(lambda b: [Def('g', [], 'b', [Struct('i', [Embed('b')])]), Def('h', [], 'b', [Struct('g', [Embed('b')])]), Struct('h', b)]),
    'chain': P_(lambda b: [Def('g', [], 'b', [Struct('i', [Embed('b')])]), Struct(['g', 'g'], b)]),
    'part': P_(lambda b: [Def('h', [], 'b', [Embed('b', 'b[:]', lambda ns: ns)]), Struct('h', b)]),
    'up': P_(lambda b: [Struct('lower', b)]),
    'custom': P_(lambda b: [Struct(T('custom', Pos("'x-y'")), b)]),
    'comment': P_(lambda b: [Struct('comment', b)]),
    'attr': P_(lambda b: [Struct(T('a', K('href', "'<&'")), b)]),
    'BIG': P_(lambda b: [Struct('DIV', b)]),
    'imp': P_(lambda b: [Import('M', ['%fr', '%tw'], module()), Struct('fr', b), Struct('tw', b)]),
    'impd': P_(lambda b: [Import('M', ['%df', '$val'], module()), Struct('df'), Text([Emb('val')]), Struct(T('da', K('x', 'val')))] + b),
    'scr': P_(lambda b: [Struct('script', b), Struct('style', b), Struct('pre', b), Struct('textarea', b), Struct('title', b)]),
    'fun': P_(lambda b: [Struct('same', b)]),
    'cls': P_(lambda b: [Struct('keep', b)]),
}

MODULE = "%fr @b\n  section\n    @b\n    | m<\n%tw @b\n  @b\n  p / m&<\n  i @b\n%df\n  | <'df'>\n  / <'df'>\n  ! {<}\n%da x=''\n  | $x<a\n  / $x<a\n  b | {x}\n$val = '<va&l>'\n| not shown\n"
def module():
    blocks = [Def('fr', [], 'b', [Struct('section', [Embed('b'), Text('m<')])]),
              Def('tw', [], 'b', [Embed('b'), Struct('p', inline = Text('m&<', '/')), Struct('i', inline = Embed('b'))]),
              Def('df', [], None, [Text("<'df'>"), Text("<'df'>", '/'), Text('{<}', '!')]),
              Def('da', [('x', "''")], None, [Text([Emb('x', 'd'), '<a']), Text([Emb('x', 'd'), '<a'], '/'), Struct('b', inline = Text([Emb('x')]))]),
              Assign('val', "'<va&l>'"), Text('not shown')]
    return module_table(blocks, CONF[0], MTAGS)
CONF = [html_escape]
DIR = [None]

from hypertag import Tag, TagFunction
def same(body): return body
class Keep(Tag):
    name = 'keep'
    def expand(self, body, attrs, kwattrs): return body.render()
TAGS_REAL = {'same': TagFunction(same), 'keep': Keep()}
MTAGS = {'same': FunTag('same', lambda t: t), 'keep': FunTag('keep', lambda t: t)}

def line(form, s, n): return FORMS[form](s, n)
VSTR = ['<b>', "a&b<c>'\"", '&amp;', '<<&&>>', 'a {b} $c', 'cab[<{$']
MULTI = ['<a>\n&b', 'a\n\n<b\n', '\n<', '&\n  <b>\n a']

def rts(full): return ['html', 'none', 'dbl', 'rot', 'inst'] if full else ['html', 'dbl']

def space_strings(n, alpha, chunk):
    ss = strings(n, alpha)
    def it():
        k = 0
        names = [p for p in POS if not POS[p][1]]
        for i in range(0, len(ss), chunk):
            for style in '|/!':
                for form in (FORMS if style != '!' else ['lit', 'xlit', 'b', 'd', 'mix', 'two', 'str']):
                    k += 1
                    yield ('str', (ss[i:i+chunk], style, form, names[k % len(names)], ['html', 'dbl', 'html', 'rot', 'html', 'none', 'inst'][k % 7]))
    return it

def space_pos(full):
    def it():
        for pos in POS:
            for style in '|/!':
                for form in (FORMS if style != '!' else ['lit', 'b', 'mix']):
                    for rt in rts(full or form in ('lit', 'b', 'mix')): yield ('str', (VSTR, style, form, pos, rt))
    return it

def space_pairs(full):
    outer = [p for p in POS if not POS[p][1]]
    def it():
        for a in outer:
            for b in POS:
                for rt in rts(full): yield ('pair', (a, b, rt))
    return it

def space_triples():
    few = ['p', 'for', 'def', 'body', 'thru', 'try', 'up', 'imp', 'null', 'fun']
    for t in itertools.product(few, repeat = 3):
        for rt in ('html', 'dbl'): yield ('trip', t + (rt,))

def space_multi(full):
    def it():
        for pos in POS:
            for style in '|/!':
                for shape in range(5):
                    for rt in rts(full): yield ('multi', (style, shape, pos, rt))
    return it

def space_calls(full):
    def it():
        for style in '|/':
            for inner in '|/!':
                for form in range(6):
                    for rt in rts(True): yield ('call', (style, inner, form, rt))
    return it

def spaces(tier):
    q = tier == 'quick'
    return [('strings of up to %d characters over %s' % ((2, ALPHA) if q else (2, ALPHA)), space_strings(2, ALPHA, 40)),
            ('strings of up to %d characters over %s' % (3 if q else 4, CHARS), space_strings(3 if q else 4, CHARS, 60)),
            ('forms x positions x runtimes', space_pos(not q)),
            ('pairs of positions', space_pairs(not q)),
            ('multi-line texts', space_multi(not q)),
            ('hypertags in expressions', space_calls(not q))] + ([] if q else [('triples of positions', space_triples)])

def contents(strs, style, form):
    res = []
    for i, s in enumerate(strs):
        parts = FORMS[form](s, 'v%d' % i)
        if parts is None: continue
        if style in '/|' or all(not isinstance(p, Emb) for p in parts) or True: res.append(Text(list(parts), style))
    return res

def place(pos, blocks):
    f, one = POS[pos]
    if not one: return f(blocks)
    return list(itertools.chain(*[f([b]) for b in blocks]))

def fix_defs(blocks):
    """Definitions inside control blocks are not allowed: such combinations are skipped by the model's syntax error."""
    return blocks

def run(case, cov):
    kind, c = case
    if not RT: RT.update(make())
    rt, esc = RT[c[-1]]
    CONF[0] = esc
    ctx = {}
    if kind == 'str':
        strs, style, form, pos, _ = c
        blocks = place(pos, contents(strs, style, form))
        ctx = {'v%d' % i: (s if i % 2 else Sub(s)) for i, s in enumerate(strs)}
    elif kind in ('pair', 'trip'):
        ctx = {'v0': "<a&'b\">", 'v1': 'a\n<b'}
        def base():
            return [Text(['<&', Emb('v0'), '>'] ), Text(['<&', Emb('v0', 'd')], '/'), Text('<&{v0}$v0', '!'), Struct('q', [Text([Emb('v1')])]), Struct('a', inline = Text(['<', Emb('v0', 's')]))]
        blocks = base()
        one = [Text(['<&', Emb('v0'), '>']), Text(['<&', Emb('v0', 'd')], '/'), Text('<&{v0}$v0', '!')]
        blocks = place(c[-2], one if POS[c[-2]][1] else blocks)
        for p in reversed(c[:-2]): blocks = place(p, blocks)
    elif kind == 'multi':
        style, shape, pos, _ = c
        ctx = {'v0': MULTI[0], 'v1': MULTI[1], 'v2': MULTI[2], 'v3': MULTI[3]}
        e = lambda i: Emb('v%d' % i)
        one, two, b3 = ['a<', e(0)], ['&', e(1), '>'], [e(2)]
        t = [lambda: Text(one, style, [('  ', two), ('    ', ['<x>'])]),
             lambda: Text(None, style, [('    ', two), None, ('  ', b3), ('  ', one)]),
             lambda: Text(b3, style), lambda: Text([e(3), '<', e(3)], style),
             lambda: Text(['<'], style, [('     ', ['&lt;']), None, ('   ', [e(0)])])][shape]
        if POS[pos][1]: t0 = [Text([x for x in one], style), Text(b3, style)]
        else: t0 = [t(), Text('<', style)]
        blocks = place(pos, t0)
    elif kind == 'call':
        style, inner, form, _ = c
        ctx = {'v0': "<a&'b\">"}
        d = Def('h', [('x', "'<x>'")], 'b', [Text(['<&', Emb('x')], inner), Embed('b')])
        calls = ["%h()", "%h('<>')", "%h(None, v0)", "%h(v0, x = '&')", "%h(%h('<'))", "str(%h('&'))"]
        blocks = [d, Text(['<', Emb(Ex(calls[form], calls[form].replace('%h(', '_tag_h('))), '>'], style), Struct('p', [Text([Emb(Ex(calls[form], calls[form].replace('%h(', '_tag_h(')))], style)])]
        blocks = [b for b in blocks]
    used = source_names(blocks)
    values = dict(ctx, Obj = Obj)
    names = sorted(n for n in values if n in used)
    pre = [Context(*(['$' + n for n in names] + ['%same', '%keep']))]
    mctx = {'$' + k: v for k, v in values.items()}
    mctx.update({'%same': MTAGS['same'], '%keep': MTAGS['keep']})
    try:
        compare(pre + blocks, cov, ctx = mctx, values = dict(values, __file__ = os.path.join(DIR[0], 'main.hy')), rt = rt, escape = esc, real_tags = TAGS_REAL, what = 'escaping (runtime %s)' % c[-1])
    except Violation: raise

def source_names(blocks):
    import re
    return set(re.findall(r'\w+', lang.source(blocks)))

def prepare(tier):
    DIR[0] = tempfile.mkdtemp(prefix = 'mc-c01-')
    with open(os.path.join(DIR[0], 'M.hy'), 'w') as f: f.write(MODULE)
    util.warm(sys.modules[__name__], tier, 20, 9)
    RT.clear()
def finish():
    if DIR[0] and DIR[0].startswith(tempfile.gettempdir() + os.sep + 'mc-c01-'): shutil.rmtree(DIR[0], ignore_errors = True)
