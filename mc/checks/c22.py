"""C22: custom Python tags receive exactly the body and attributes written in the script."""
import itertools, os, shutil, sys, tempfile, types
from mc import gen, hy, lang, util
from mc.core import Violation
from mc.lang import *
from hypertag import HyperHTML, Tag, TagFunction, DOM
from hypertag import Markup as RealMarkup

ID = 'C22'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive exploration of all bounded combinations of attributes, bodies, access routes and kinds of custom tags, executed on the real code with recording tags; oracle: the calls that the written script denotes (from a reference interpreter), compared call by call'
NOTE = ('all sequences of up to 3 attributes of 34 forms for 4 kinds of tags in 8 positions and by 9 access routes; all characters allowed in XML names and all names of 3 of 9 symbols; all forests of up to 3 (4) blocks of 26 kinds as bodies of '
        '3 kinds of tags with 15 shapes of returned strings; all calls against 14 function signatures; all errors in 15 positions; all expression calls of up to 3 arguments in 9 positions')
RULE = 'kind of tag x access route x position x attribute sequence x body x returned string (or raised error)'
ASSUMPTIONS = ['tags are declared impure, so that every occurrence must be expanded', 'an attribute without a name precedes the named ones in a header']

DIR = [None]
LOG = []
def bad(key, what, *a): raise Violation(what % a, key = key)

# ----- recording tags
class ClassTag(Tag):
    pure = False
    def __init__(self, name, fun): self.name, self.fun = name, fun
    def expand(self, body, attrs, kwattrs):
        if not isinstance(body, DOM): raise Violation('body of a class tag is a %s' % type(body).__name__)
        return self.fun(body.render(), *attrs, **kwattrs)
class TwiceTag(ClassTag):
    """Renders its body again after the first time."""
    def expand(self, body, attrs, kwattrs):
        a = body.render()
        r = self.fun(body.render(), *attrs, **kwattrs)
        if body.render() != a: raise Violation('body renders differently the second time')
        return r
class MarkupTag(RealMarkup):
    pure = False
    def __init__(self, name, fun):
        RealMarkup.__init__(self, 'other')
        self.name, self.fun = name, fun
    def expand(self, body, attrs, kwattrs): return self.fun(body.render(), *attrs, **kwattrs)
def _rename(f, name):
    f.__name__ = name
    return f
def function_tag(name, fun):
    def g(_text, *a, **k): return fun(_text, *a, **k)
    t = TagFunction(_rename(g, name))
    t.pure = False
    return t
def dom_tag(name, fun):
    def g(_body, *a, **k):
        if not isinstance(_body, DOM): raise Violation('body of a function with dom=True is a %s' % type(_body).__name__)
        return fun(_body.render(), *a, **k)
    t = TagFunction(_rename(g, name), dom = True)
    t.pure = False
    return t
class Duck(Tag):
    """A class with class-level name and arguments of other names."""
    pure = False
    def expand(self, dom, positional, keyword): return self.fun(dom.render(), *positional, **keyword)
def duck(name, fun):
    t = type('D', (Duck,), {'name': name, 'fun': staticmethod(fun)})
    return t()
KINDS = {'class': ClassTag, 'fun': function_tag, 'dom': dom_tag, 'markup': MarkupTag, 'twice': TwiceTag, 'duck': duck}

class Obj:
    def __init__(self, n): self.n = n
    def __repr__(self): return 'Obj(%s)' % self.n
    def __add__(self, o): return self
    def __radd__(self, o): return self
OBJ = Obj(1)
LIST, DICT = [1, [2]], {'k': OBJ}
VALS = {'o': OBJ, 'l': LIST, 'd': DICT, 's': 'S<&', 'n': 7, 'f': lambda x: OBJ, 'b': '', 'z': None}

def recorder(log, result = 'OUT'):
    def f(_text, *a, **k):
        log.append((_text, a, list(k.items())))
        return result
    return f

def same(x, y): return x is y or type(x) is type(y) and (x == y if not isinstance(x, (list, tuple)) else len(x) == len(y) and all(same(a, b) for a, b in zip(x, y)))
def same_call(got, exp):
    return len(got) == len(exp) and all(g[0] == e[0] and len(g[1]) == len(e[1]) and all(same(a, b) for a, b in zip(g[1], e[1])) and [k for k, v in g[2]] == [k for k, v in e[2]]
            and all(same(v, w) for (k, v), (_, w) in zip(g[2], e[2])) for g, e in zip(got, exp))

# ----- A. attributes
POS = [('1', 1), ('"x"', 'x'), ('$o', OBJ), ('{l}', LIST), ('$d?', DICT), ('$l[1]', LIST[1]), ('$f(1)', OBJ), ("'a {n}'", 'a 7'), ('True', True), ('None', None), ('{n + 1}', 8), ('$d.get("k")', OBJ),
       ('(1, $n)', (1, 7)), ('[n]', [7]), ('$z?', ''), ('{-2}', -2), ('""', '')]
KW = [('a=1', 'a', 1), ('a="x y"', 'a', 'x y'), ('b=$o', 'b', OBJ), ('c = {l}', 'c', LIST), ('data-x=$s', 'data-x', 'S<&'), ('xml:lang="en"', 'xml:lang', 'en'), ('v-on:click.prevent=True', 'v-on:click.prevent', True),
      ('if=False', 'if', False), ('class=$s', 'class', 'S<&'), ('for = 0', 'for', 0), ('body="b"', 'body', 'b'), ('_text_="t"', '_text_', 't'), ('A=None', 'A', None), ('\u00e9\u6f22=$n', '\u00e9\u6f22', 7),
      ('.k', 'class', 'k'), ('#i-1', 'id', 'i-1'), ('.{s}', 'class', 'S<&'), ('.$s', 'class', 'S<&'), ('#$s', 'id', 'S<&'), ('id="j"', 'id', 'j'), ('a.b=$z', 'a.b', None), ('self_="s"', 'self_', 's'), ('attrs=1', 'attrs', 1),
      ('kwattrs={d}', 'kwattrs', DICT), ('state=1', 'state', 1), ('tag="t"', 'tag', 't'), ('name="n"', 'name', 'n'), ('e=$b?', 'e', ''), ('dom=2', 'dom', 2)]
ALL = [('p',) + p for p in POS] + [('k',) + k for k in KW]
FEW_ = ['1', '$o', '"x"', 'a=1', 'a="x y"', 'data-x=$s', '.k', '#i-1', '.{s}', 'class=$s', 'xml:lang="en"', 'b=$o', 'id="j"']
FEW = [f for f in ALL if f[1] in FEW_]

def attr_sequences(n, forms):
    for seq in itertools.product(range(len(forms)), repeat = n):
        kinds = ''.join(forms[i][0] for i in seq)
        if 'kp' in kinds: continue
        vals = {}
        ok = True
        for i in seq:
            if forms[i][0] == 'k':
                vals.setdefault(forms[i][2], []).append(forms[i][3])
        for v in vals.values():
            if len(v) > 1 and not all(isinstance(x, str) for x in v): ok = False
        if ok: yield tuple(forms[i] for i in seq)

def denoted(seq):
    attrs = tuple(f[2] for f in seq if f[0] == 'p')
    kw = {}
    for f in seq:
        if f[0] == 'k': kw[f[2]] = kw[f[2]] + ' ' + f[3] if f[2] in kw else f[3]
    return attrs, list(kw.items())

def written(seq):
    """One tag header; shortcuts of the beginning also directly after the name."""
    return ''.join(' ' + f[1] for f in seq)
def glued(seq):
    s, first = '', True
    for f in seq:
        if f[1][0] in '.#' and first: s += f[1]
        else:
            s += ' ' + f[1]
            first = False
    return s
def glued_all(seq):
    s, prev = '', True
    for f in seq:
        short = f[1][0] in '.#'
        s += f[1] if short and prev else ' ' + f[1]
        prev = short
    return s

# position of the tag: (script with @ for the header without its name, bodies of the calls, document)
PLACES = {
    'block': ('t@ | body\n', ['body'], 'OUT\n'),
    'void': ('t@\n', [''], 'OUT\n'),
    'outer': ('t@ : p : i | x\n', ['<p><i>x</i></p>'], 'OUT\n'),
    'inner': ('p : i : t@ | x\n', ['x'], '<p><i>OUT</i></p>\n'),
    'opt': ('? t@ | x\n', ['x'], 'OUT\n'),
    'nested': ('div\n  t@\n    | x\n', ['\n  x'], '<div>\n  OUT\n</div>\n'),
    'loop': ('for i in [1, 2]:\n  t@ | $i\n', ['1', '2'], 'OUT\nOUT\n'),
    'try': ('try\n  t@ | x\nelse\n  | y\n', ['x'], 'OUT\n'),
    'colon': ('t@: | x\n', ['x'], 'OUT\n'),
    'dup': ('t@ : t@ | x\n', ['x', 'OUT'], 'OUT\n'),
    'full': ('t@ ! $x\n', ['$x'], 'OUT\n'),
    'condition': ('if n:\n  t@ / <x>\n', ['<x>'], 'OUT\n'),
}

def run_attrs(case, cov):
    kind, place, seq, glue = case
    src, bodies, doc = PLACES[place]
    head = {0: written, 1: glued, 2: glued_all}[glue](seq)
    src = 'context %%t, %s\n' % ', '.join('$' + v for v in sorted(VALS)) + src.replace('@', head)
    log = []
    vals = dict(VALS, __tags__ = {'t': KINDS[kind]('t', recorder(log))})
    got = hy.render_ex(src, **vals)
    cov.execs += 1
    cov.step(len(seq) + 1)
    cov.sample(src)
    cov.state((place, head))
    attrs, kw = denoted(seq)
    exp = [(b, attrs, kw) for b in bodies]
    if got != ('ok', doc): bad(src, 'script %r: expected document %r, got %r', src, doc, got)
    if not same_call(log, exp): bad('call:' + src, 'script %r: expected calls %r, got %r', src, exp, log)

def attr_cases(n, forms, kinds, places, glues = (0,)):
    for seq in attr_sequences(n, forms):
        for glue in glues:
            if glue:
                if glue == 1 and glued(seq) == written(seq) or glue == 2 and glued_all(seq) in (glued(seq), written(seq)): continue
            if '$s.' in (written, glued, glued_all)[glue](seq): continue            # a member of s
            for kind in kinds:
                for place in places:
                    if (kind, place) != ('twice', 'dup'): yield ('attrs', (kind, place, seq, glue))

# ----- names of attributes
START = [(0x3a, 0x3a), (0x41, 0x5a), (0x5f, 0x5f), (0x61, 0x7a), (0xc0, 0xd6), (0xd8, 0xf6), (0xf8, 0x2ff), (0x370, 0x37d), (0x37f, 0x1fff), (0x200c, 0x200d), (0x2070, 0x218f), (0x2c00, 0x2fef), (0x3001, 0xd7ff),
         (0xf900, 0xfdcf), (0xfdf0, 0xfffd), (0x10000, 0xeffff)]
MORE = [(0x2d, 0x2e), (0x30, 0x39), (0xb7, 0xb7), (0x300, 0x36f), (0x203f, 0x2040)]
SYMS = 'aB_0-.:\u00b7\u6f22'
def is_start(c): return c != ':' and any(a <= ord(c) <= b for a, b in START)
def short_names(n):
    for k in range(1, n + 1):
        for t in itertools.product(SYMS, repeat = k):
            w = ''.join(t)
            if is_start(w[0]) and w[-1] != ':': yield w
WORDS = ['from', 'import', 'if', 'else', 'elif', 'try', 'for', 'while', 'break', 'continue', 'pass', 'is', 'in', 'not', 'and', 'or', 'True', 'False', 'None', 'class', 'def', 'lambda', 'self', 'body', 'attrs', 'kwattrs', 'fun', 'name', 'dom',
         'as', 'context', 'state', 'tag', 'node', 'items', 'get', '__class__', '__init__', '__dict__', 'cls', 'kw', 'args', 'kwargs', 'nodes', 'indent', 'outline', 'parent', 'text', 'ifx', 'not-x', 'or.x', 'in:x', 'is_', 'true', 'none', 'NONE', 'x' * 200]
def code_points(tier):
    step = 40 if tier == 'quick' else 1
    for a, b in START + MORE:
        if b > 0xffff and tier == 'quick': b = 0x10fff
        for c in range(a, b + 1, 1 if b - a < 3000 or tier != 'quick' else 7): yield c
def name_cases(tier):
    words = list(short_names(3 if tier == 'quick' else 4)) + WORDS
    for i in range(0, len(words), 25): yield ('names', words[i:i + 25])
    cur = []
    for c in code_points(tier):
        ch = chr(c)
        if is_start(ch): cur.append(ch)
        cur.append('x' + ch + 'y')
        if ch != ':': cur.append('x' + ch)
        if len(cur) >= 60:
            yield ('names', cur)
            cur = []
    if cur: yield ('names', cur)

def run_names(names, cov):
    names = list(dict.fromkeys(names))
    for gap in ('=', ' = '):
        log = []
        src = 'context %t\nt' + ''.join(' %s%s%d' % (n, gap, i) for i, n in enumerate(names)) + ' | b\n'
        got = hy.render_ex(src, __tags__ = {'t': ClassTag('t', recorder(log))})
        cov.execs += 1
        cov.step(len(names))
        cov.state(src)
        if got != ('ok', 'OUT\n'): bad(src, 'attribute names %r: %r', names, got)
        exp = [('b', (), [(n, i) for i, n in enumerate(names)])]
        if log != exp:
            diff = [(a, b) for a, b in zip(log[0][2], exp[0][2]) if a != b] if log else log
            bad('names:' + src, 'attribute names %r are passed differently: %r', names, diff)

# ----- B. bodies and placement of the result
def nl(b): return '\n' if b[:1] == '\n' else ''
SHAPES = {
    'div': lambda b: '<d>' + b + nl(b) + '</d>', 'empty': lambda b: '', 'word': lambda b: 'X', 'nl': lambda b: '\nX', 'two': lambda b: 'a\nb', 'lead': lambda b: '  lead\n more', 'blank': lambda b: 'a\n\n b\n', 'tail': lambda b: 'a\n',
    'id': lambda b: b, 'upper': lambda b: b.upper(), 'pre': lambda b: 'pre' + b, 'bis': lambda b: b + b, 'strip': lambda b: b.strip(), 'push': lambda b: '\n' + b, 'repr': lambda b: repr(b),
}
def shaped(name, shape, log):
    def f(_text, *a, **k):
        log.append((name, _text, a, sorted(k.items(), key = repr)))
        return SHAPES[shape](_text)
    return f

LEAVES = ['x', 'h', 'e', 'raw', 'exp', 'multi', 'void', 'append', 'dedent', 'voidt', 'tline', 'tattr', 'call', 'ctail', 'emb', 'txinl', 'blankx']
CONTS = ['t', 'u', 'tu', 'tp', 'pt', 'p', 'if', 'for', 'opt', 'head', 'tapp']
FEWL, FEWC = ['x', 'multi', 'append', 'tline', 'call', 'blankx'], ['t', 'tp', 'pt', 'p', 'for', 'head']
MINL, MINC = ['x', 'multi', 'tline'], ['t', 'pt', 'for']
def B(f):
    l, kids = f
    body = [B(k) for k in kids]
    if l in CONTS and not body and l not in ('if', 'for', 'opt'): body = []
    if l in ('if', 'for', 'opt') and not body: body = [Text('dflt')]
    return {
        'x': lambda: Text('x'), 'h': lambda: Text('<h>&'), 'e': lambda: Text(Line('v', Emb('v'), '.')), 'raw': lambda: Text('<b>{r}', '!'), 'exp': lambda: Text(Line('<b>', Emb('v')), '/'),
        'multi': lambda: Text('m1', '|', [('    ', 'm2'), None, ('      ', 'm3')]), 'void': lambda: Struct('br'), 'append': lambda: Text('app').at(0, '...'), 'dedent': lambda: Text('ded').at(0, '<'),
        'voidt': lambda: Struct('t'), 'tline': lambda: Struct('t', inline = Text('in')), 'tattr': lambda: Struct([T('t', Pos('1'), K('a', '"<"'), At('.', 'k'))], inline = Text('at', '/')),
        'call': lambda: Struct([T('g', Pos('2'))], [Text('gb')]), 'ctail': lambda: Struct(['p', 't'], inline = Text('ct', '|', [('       ', 'c2')])), 'emb': lambda: Text(Line('q', Emb('v'))),
        'txinl': lambda: Struct('t', inline = Text('l1', '|', [('    ', 'l2'), ('      ', 'l3')])), 'blankx': lambda: Text('bx').at(1),
        't': lambda: Struct('t', body), 'u': lambda: Struct([T('u', Pos('$v', 'v'))], body), 'tu': lambda: Struct(['t', T('u', K('k', '1'))], body), 'tp': lambda: Struct(['t', 'p'], body), 'pt': lambda: Struct(['p', 't'], body),
        'p': lambda: Struct('p', body), 'if': lambda: If([Branch('v', body)]), 'for': lambda: For('i', '[1, 2]', body), 'opt': lambda: Opt(Struct('t', body)), 'head': lambda: Struct('t', body, colon = True, head = Text('hd')),
        'tapp': lambda: Struct('t', body).at(0, '...'),
    }[l]()

def run_body(case, cov):
    kind, shape, shape2, forest = case
    log, log2 = [], []
    tags = {'t': FunTag('t', shaped('t', shape, log)), 'u': FunTag('u', shaped('u', shape2, log))}
    real = {'t': KINDS[kind]('t', shaped('t', shape, log2)), 'u': KINDS['class' if kind == 'fun' else 'fun']('u', shaped('u', shape2, log2))}
    blocks = [Context('%t', '%u', '$v')]
    blocks.append(Def('g', [('n', '1')], 'b', [Struct([T('t', Pos('$n', 'n'))], [Embed('b')])]))
    blocks += [B(f) for f in forest]
    exp = compare_tags(blocks, cov, tags, real, (kind, shape, shape2))
    if exp is None: return
    if log != log2 and kind != 'twice':
        src = lang.source(blocks)
        bad('log:' + src, 'expected expansions %r, got %r in:\n%s', log, log2, src)

def compare_tags(blocks, cov, tags, real, what):
    source = lang.source(blocks)
    lang.steps.n = 0
    try: exp = lang.run_model(blocks, dict({'$v': 'V<'}, **{'%' + n: t for n, t in tags.items()}))
    except Unspecified:
        cov.count('unspecified_skipped')
        return None
    got = hy.render(source, v = 'V<', __tags__ = real)
    cov.execs += 1
    cov.step(lang.steps.n)
    cov.sample(source)
    cov.state((exp, what[1:]))
    if got != exp: raise Violation('tags %s: expected %r, got %r for the script:\n%s' % (what, exp, got, source), key = '%s %s' % (what, source))
    return exp

def has_tag(f): return f[0] not in ('x', 'h', 'e', 'raw', 'exp', 'multi', 'void', 'append', 'dedent', 'blankx', 'emb', 'p', 'if', 'for') or any(has_tag(k) for k in f[1])
def body_cases(n, leaves, conts, kinds, shapes, pairs = False):
    for f in gen.forests(n, leaves, conts):
        if not any(has_tag(t) for t in f): continue
        for k in kinds:
            for s in shapes: yield ('body', (k, s, 'repr' if not pairs else 'two', f))

# ----- C. errors
class Own(Exception): pass
class OwnBase(BaseException): pass
def errors():
    return [ValueError('m'), KeyError('k'), Own(1, 2), OwnBase('b'), StopIteration(3), GeneratorExit(), KeyboardInterrupt('kb'), SystemExit(5), ZeroDivisionError(), SyntaxError('s'), TypeError('t'), NameError('n'), AttributeError('a'),
            ImportError('i'), IndexError(0), UnicodeDecodeError('utf-8', b'x', 0, 1, 'r'), AssertionError(), RecursionError('r'), OSError(2, 'x'), UnboundLocalError('u'), MemoryError('me'), NotImplementedError()]
NERR = len(errors())
# rendering of the document starts after all expressions were evaluated: blocks `try` have no effect on expansion
EPLACES = ['t | x\n', 't\n', 'p : t | x\n', 't : p | x\n', 'div\n  p\n    t\n      | x\n', 'try\n  t | x\nelse\n  | y\n', '? t | x\n', 'for i in [1, 2]:\n  t | $i\n', '%g @b\n  t\n    @b\ng | x\n', '%g @b\n  p\n    @b\ng\n  t | x\n',
           '| a\nt | x\n| b\n', 'try\n  t\n    | x\n| y\n', 't\n  t | y\n', 'if 1:\n  t: | x\n', 'upper : t | x\n']
XPLACES = ['| {%t("x")}\n', 'p a={%t("x")} | y\n', '$v = %t("x")\n', 'if %t("x"):\n  | y\n', 'for i in %t("x"):\n  | y\n', '| a {[%t("x")]} b\n', 'g {%t("x")}\n', '@ %t("x")\n', '%h a={%t("x")}\n  | $a\nh\n', '/ {"x" : %t}\n', 'while %t(2):\n  | z\n']
def run_error(case, cov):
    kind, place, expr, i = case
    err = errors()[i]
    def f(*a, **k): raise err
    src = 'context %t\n' + (XPLACES if expr else EPLACES)[place]
    if 'g {' in src: src = src.replace('g {', '%g a\n  | $a\ng {')
    try: res = HyperHTML().render(src, __tags__ = {'t': KINDS[kind]('t', f)})
    except BaseException as ex:
        cov.execs += 1
        cov.state((place, expr, repr(ex)))
        if ex is err: return
        if type(ex).__name__ == 'CaseTimeout': raise
        if isinstance(ex, type(err)) and all(str(a) in str(ex) or a in ex.args for a in err.args) : return
        e = ex
        while e is not None:
            if e is err and isinstance(err, StopIteration): return             # raised inside of a generator
            e = e.__cause__ or e.__context__
        bad('error %s %r %r' % (kind, src, type(err).__name__), 'error %r raised by a %s tag reaches the caller as %r (%s): %r', err, kind, ex, type(ex).__mro__, src)
    bad('lost %s %r %r' % (kind, src, type(err).__name__), 'error %r raised by a %s tag is lost in %r: %r', err, kind, src, res)

# ----- D. calls in expressions
ARGS = [('1', 1), ('o', OBJ), ('"a{n}"', 'a7'), ('l', LIST), ('None', None), ('f(1)', OBJ), ('(1, n)', (1, 7)), ('n + 1', 8), ('[]', [])]
KWARGS = [('a=1', 'a', 1), ('b = o', 'b', OBJ), ('class="c"', 'class', 'c'), ('body=s', 'body', 'S<&'), ('attrs=l', 'attrs', LIST), ('name=n', 'name', 7), ('dom=None', 'dom', None), ('kwattrs=2', 'kwattrs', 2), ('fun=3', 'fun', 3)]
BODIES = [('"txt"', 'txt'), ('s', 'S<&'), ('""', ''), ('n', '7'), ('"a\\n  b\\n"', 'a\n  b\n'), ('l', '[1, [2]]'), ('o', 'Obj(1)'), ('"<{s}>"', '<S<&>'), ('1.5', '1.5'), ("r'\\n'", '\\n'), ('True', 'True'), ('%t("in")', 'R<'), ('"x" "y"', 'xy'), ('b', ''), ('0', '0'), ('False', 'False'), ('[]', '[]'), ('{}', '{}'), ('0.0', '0.0'), ('(1,)', '(1,)')]
XP = {
    'text': ('| [{@}]\n', '[R&lt;]\n', 1), 'mark': ('/ [{@}]\n', '[R<]\n', 1), 'attr': ('p a={@}\n', '<p a="R&lt;"></p>\n', 1), 'var': ('$v = @\n/ $v\n', 'R<\n', 1), 'if': ('if @\n  | y\n', 'y\n', 1), 'for': ('for c in @:\n  / $c\n', 'R\n<\n', 1),
    'arg': ('/ {g(@)}\n', "'R<'\n", 1), 'cat': ('/ {@ + "."}\n', 'R<.\n', 1), 'two': ('/ {[@, @]}\n', "['R<', 'R<']\n", 2), 'raw': ('%h x=1\n  / $x\nh {@}\n', 'R<\n', 1), 'opt': ('/ {@}?\n', 'R<\n', 1), 'meth': ('/ {@.lower()}\n', 'r<\n', 1),
    'item': ('/ {@[0]}\n', 'R\n', 1), 'len': ('/ {len(@)}\n', '2\n', 1), 'inl': ('p / {@}\n', '<p>R<</p>\n', 1),
}
def call_src(body, args, kws, form):
    """form 0: call; 1: pipe"""
    a = [x[0] for x in args] + [k[0] for k in kws]
    if form == 0: return '%t(' + ', '.join([body[0]] + a) + ')'
    if form == 1: return '((' + body[0] + ')' + ' : %t' + ('(' + ', '.join(a) + ')' if a else '') + ')'
    return '%t (' + ' ,'.join([body[0]] + a) + ', )' if form == 2 else '%t( ' + ' , '.join([body[0]] + a) + ' )'
def run_call(case, cov):
    kind, place, body, args, kws, form = case
    src, doc, times = XP[place]
    log = []
    call = '%t()' if body is None else call_src(body, args, kws, form)
    src = 'context %%t, %s\n' % ', '.join('$' + v for v in sorted(dict(VALS, g = 0))) + src.replace('@', call)
    got = hy.render_ex(src, **dict(VALS, g = repr, __tags__ = {'t': KINDS[kind]('t', recorder(log, 'R<'))}))
    cov.execs += 1
    cov.step(len(args) + len(kws) + 1)
    cov.sample(src)
    cov.state((place, call))
    if got != ('ok', doc): bad(src, 'script %r: expected document %r, got %r', src, doc, got)
    text = '' if body is None else body[1]
    exp = [(text, tuple(a[1] for a in args), [(k[1], k[2]) for k in kws])] * times
    if body is not None and '%t' in body[0]: exp = [('in', (), []), exp[0]] * times
    if not same_call(log, exp): bad('call:' + src, 'script %r: expected calls %r, got %r', src, exp, log)
def call_cases(tier):
    for place in XP:
        for kind in KINDS:
            for form in (0, 1, 2, 3):
                for b in BODIES: yield ('call', (kind, place, b, (), (), form))
            yield ('call', (kind, place, None, (), (), 0))
    kinds = ['class', 'fun'] if tier == 'quick' else list(KINDS)
    for kind in kinds:
        for form in (0, 1):
            for na in range(3 if tier == 'quick' else 4):
                for args in itertools.product(ARGS, repeat = na):
                    for nk in range(3):
                        if na + nk > 2 and (tier == 'quick' or na + nk > 3): continue
                        for kws in itertools.permutations(KWARGS, nk):
                            if na + nk: yield ('call', (kind, 'text', BODIES[0], args, kws, form))

# ----- E. access routes
ROUTES = {
    'context': ('context %t\n', 't', 'tags'), 'rename': ('context %t as w\n', 'w', 'tags'), 'direct': ('context %t\n', 't', 'direct'), 'symbol': ('context %t\n', 't', 'symbol'),
    'module': ('from {M} import %t\n', 't', None), 'modas': ('from {M} import %t as w\n', 'w', None), 'modstar': ('from {M} import *\n', 't', None), 'reexp': ('from lib{N} import %t\n', 't', 'file'), 'reas': ('from lib{N} import %w as v\n', 'v', 'file'),
    'restar': ('from lib{N} import *\n', 't', 'file'), 'reexp2': ('from mid{N} import %t\n', 't', 'file'),
}
NAMES = ['t', 'T', '_tag', 'a1', 'p', 'x_y', 'Ab9']
USES = [('@ 1 .k data-x=2 | b\n', [('b', (1,), [('class', 'k'), ('data-x', 2)])], 'OUT\n'), ('i : @ "s"\n  | b\n', [('\n  b', ('s',), [])], '<i>OUT</i>\n'), ('/ {%@("b", 1, c = 2)}\n', [('b', (1,), [('c', 2)])], 'OUT\n'),
        ('%h2 @b\n  @ c=1\n    @b\nh2 | b\n', [('\n  b', (), [('c', 1)])], 'OUT\n'), ('@ | a\n@ | b\n', [('a', (), []), ('b', (), [])], 'OUT\nOUT\n'), ('$f = %@\n/ {f("q", 3)}\n', [('q', (3,), [])], 'OUT\n')]
COUNT = [0]
def run_route(case, cov):
    kind, route, name, use = case
    if name in ('_tag',) and 'star' in route: return                # private names are not imported by a wildcard
    head, local, how = ROUTES[route]
    log = []
    tag = KINDS[kind](name, recorder(log))
    COUNT[0] += 1
    n = '%d_%d' % (os.getpid(), COUNT[0])
    mod = types.ModuleType('mc_c22_%s' % n)
    mod.__tags__ = {name: tag}
    sys.modules[mod.__name__] = mod
    local = name if local == 't' else local
    head = head.replace('%t', '%' + name).replace('{M}', mod.__name__).replace('{N}', n)
    kw = {}
    files = []
    try:
        if how == 'tags': kw['__tags__'] = {name: tag}
        elif how == 'direct': kw['%' + name] = tag
        elif how == 'symbol': kw['__tags__'] = {'%' + name: tag}
        elif how == 'file':
            for f, text in (('lib', 'from %s import %%%s, %%%s as w\n' % (mod.__name__, name, name)), ('mid', 'from lib%s import *\n' % n if name[0] != '_' else 'from lib%s import %%%s\n' % (n, name))):
                path = os.path.join(DIR[0], f + n + '.hy')
                files.append(path)
                with open(path, 'w') as fh: fh.write(text)
            kw['__file__'] = os.path.join(DIR[0], 'main.hy')
        src0, exp, doc = USES[use]
        src = head + src0.replace('@b', '\0').replace('@', local).replace('\0', '@b')
        got = hy.render_ex(src, HyperHTML(), **kw)
    finally:
        del sys.modules[mod.__name__]
        for f in files: os.unlink(f)
    cov.execs += 1
    cov.step(2)
    cov.sample(src)
    cov.state((route, name, use))
    if got != ('ok', doc): bad('route %s %r' % (route, (name, use)), 'route %s: script %r: expected %r, got %r', route, src, doc, got)
    if not same_call(log, exp): bad('route call %s %r' % (route, (name, use)), 'route %s: script %r: expected calls %r, got %r', route, src, exp, log)

# ----- F. signatures of functions
SIGS = ['body', 'body, a', 'body, a, b', 'body, a=5', 'body, a, b=6', 'body, *a', 'body, **k', 'body, *, a', 'body, *, a=1, b', 'text, /, body=3', 'x, a=1, *b, **c', 'body=2, a=3', '*a, **k', 'body, a, /, b=1, *, c=2']
FUNS = {}
for _s in SIGS:
    _n = [p.strip().split('=')[0] for p in _s.split(',') if p.strip() not in ('*', '/')]
    _ns = {}
    exec('def t(%s): return LOGGED((%s,))' % (_s, ', '.join(repr(p.strip('*')) + ', ' + p.strip('*') for p in _n) if _n else ''), _ns)
    FUNS[_s] = _ns['t']
SPOS = [('1', 1), ('"x"', 'x')]
SKW = [('a=11', 'a', 11), ('b=12', 'b', 12), ('body=13', 'body', 13), ('c=14', 'c', 14), ('d-e=15', 'd-e', 15), ('x=16', 'x', 16)]
def run_sig(case, cov):
    sig, np, kws, dom, expr = case
    fun = FUNS[sig]
    res = []
    fun.__globals__['LOGGED'] = lambda t: res.append(t) or 'OUT'
    pos = [SPOS[i % 2] for i in range(np)]
    if expr: src = 'context %t\n/ {%t(' + ', '.join(['"b"'] + [p[0] for p in pos] + [k[0] for k in kws]) + ')}\n'
    else: src = 'context %t\nt ' + ' '.join([p[0] for p in pos] + [k[0] for k in kws]) + ' | b\n'
    got = hy.render_ex(src, __tags__ = {'t': TagFunction(fun, dom = dom)})
    calls = [tuple(x.render() if isinstance(x, DOM) else tuple(y.render() if isinstance(y, DOM) else y for y in x) if isinstance(x, tuple) else x for x in t) for t in res]
    res[:] = []
    try:
        fun('b', *[p[1] for p in pos], **{k[1]: k[2] for k in kws})
        exp = ('ok', 'OUT\n')
    except TypeError as ex: exp = ('err', ex)
    want = list(res)
    cov.execs += 1
    cov.step(np + len(kws))
    cov.state((sig, np, kws))
    cov.sample(src)
    if exp[0] == 'err':
        if got[0] != 'err' or not isinstance(got[1], TypeError): bad('sig %s %s' % (sig, src), 'def t(%s): script %r: expected TypeError %s, got %r', sig, src, exp[1], got)
    elif got != exp: bad('sig %s %s' % (sig, src), 'def t(%s): script %r: expected %r, got %r', sig, src, exp, got)
    elif calls != want: bad('sig %s %s' % (sig, src), 'def t(%s): script %r: arguments expected %r, got %r', sig, src, want, calls)
def sig_cases(tier):
    for sig in SIGS:
        for np in range(4):
            for nk in range(4 if tier != 'quick' else 3):
                for kws in itertools.permutations(SKW, nk):
                    for dom in (False, True):
                        for expr in (False, True):
                            if expr and any(k[1] in ('d-e',) for k in kws): continue
                            yield ('sig', (sig, np, kws, dom, expr))

# ----- G. markup tags with a name of their own
def run_markup(case, cov):
    name, void, mode, kws, body = case
    src = 'context %t\nt' + ''.join(' ' + k[0] for k in kws) + (' | ' + body if body else '') + '\n'
    got = hy.render(src, __tags__ = {'t': RealMarkup(name, void, mode)})
    cov.execs += 1
    cov.state((case,))
    at = ''
    kw = {}
    for _, n, v in kws: kw[n] = kw[n] + ' ' + v if n in kw else v
    for n, v in kw.items():
        if v is True and mode == 'XHTML': at += ' %s="%s"' % (n, n)
        else: at += attr_text(n, v)
    if void: exp = ('err', 'VoidTag') if body else ('ok', '<%s%s />\n' % (name, at))
    else: exp = ('ok', '<%s%s>%s</%s>\n' % (name, at, body, name))
    if got != exp: bad('markup %r' % (case,), 'Markup(%r, %r, %r) in %r: expected %r, got %r', name, void, mode, src, exp, got)
MKW = [('a=1', 'a', 1), ('b=True', 'b', True), ('c=False', 'c', False), ('.k', 'class', 'k'), ('class="l"', 'class', 'l'), ('#i', 'id', 'i'), ('data-x="<&\'"', 'data-x', "<&'"), ('e=""', 'e', ''), ('f=None', 'f', None), ('xml:g=0', 'xml:g', 0)]
def markup_cases(tier):
    for name in ('mm', 't', 'svg:rect', 'x-y'):
        for void in (False, True):
            for mode in ('HTML', 'XHTML'):
                for n in range(4 if tier == 'quick' else 5):
                    if n > 2 and name != 'mm': continue
                    for kws in itertools.permutations(MKW, n):
                        for body in ('', 'x'): yield ('markup', (name, void, mode, kws, body))

# -----
def prepare(tier):
    DIR[0] = tempfile.mkdtemp(prefix = 'mc-c22-')
    util.warm(sys.modules[__name__], tier, 12, 57)
def finish():
    if DIR[0]: shutil.rmtree(DIR[0], ignore_errors = True)

QUICK_SECONDS = 400
CASE_SECONDS = 60
RUN = {'attrs': run_attrs, 'names': run_names, 'body': run_body, 'error': run_error, 'call': run_call, 'route': run_route, 'sig': run_sig, 'markup': run_markup}
def run(case, cov): RUN[case[0]](case[1], cov)

def spaces(tier):
    q = tier == 'quick'
    def routes():
        for k in KINDS:
            for r in ROUTES:
                for n in NAMES:
                    for u in range(len(USES)): yield ('route', (k, r, n, u))
    def errs():
        for k in KINDS:
            for x, places in ((0, EPLACES), (1, XPLACES)):
                for p in range(len(places)):
                    for i in range(NERR): yield ('error', (k, p, x, i))
    res = [
        ('attributes: 1 attribute, all kinds and positions', lambda: attr_cases(1, ALL, list(KINDS), list(PLACES), (0, 1))),
        ('attributes: none', lambda: attr_cases(0, ALL, list(KINDS), list(PLACES))),
        ('attributes: 2 attributes', lambda: attr_cases(2, ALL, ['class', 'fun'] if q else list(KINDS), ['block'] if q else ['block', 'inner', 'nested'], (0, 1, 2))),
        ('attributes: 2 attributes in all positions', lambda: attr_cases(2, FEW, ['class', 'fun'], list(PLACES), (0,))),
        ('attributes: 3 attributes', lambda: attr_cases(3, FEW if q else ALL, ['class'] if q else ['class', 'fun'], ['block'], (0, 1, 2) if q else (0, 2))),
        ('names', lambda: name_cases(tier)),
        ('bodies: 1 block', lambda: body_cases(1, LEAVES, CONTS, list(KINDS), list(SHAPES))),
        ('bodies: 2 blocks', lambda: body_cases(2, LEAVES, CONTS, ['class'] if q else ['class', 'fun', 'dom'], list(SHAPES) if not q else ['div', 'blank', 'lead', 'id', 'nl'])),
        ('bodies: 2 blocks, two shapes', lambda: body_cases(2, FEWL, FEWC, ['fun', 'twice'], list(SHAPES), True)),
        ('bodies: 3 blocks', lambda: body_cases(3, FEWL if not q else MINL, FEWC if not q else MINC, ['fun'], ['div', 'two', 'id', 'blank', 'empty'] if not q else ['two', 'id'])),
        ('errors', errs),
        ('calls', lambda: call_cases(tier)),
        ('routes', routes),
        ('signatures', lambda: sig_cases(tier)),
        ('markup', lambda: markup_cases(tier)),
    ]
    if not q: res.append(('bodies: 4 blocks', lambda: body_cases(4, MINL, MINC, ['class'], ['two', 'id', 'push'])))
    return res
