"""C02: HTML elements round-trip - parsing the output gives back the tags and attributes."""
import itertools, sys, re, html
from html.parser import HTMLParser
from mc import hy, util, gen
from mc.lang import VOID, NONVOID
from mc.core import Violation
from hypertag import Markup

ID = 'C02'
LEVEL = 'model_checking'
TECHNIQUE = 'bounded exhaustive enumeration of tags, attribute lists, values and element trees; the real output is read back by a strict parser and by the HTML parser of the standard library and compared with the elements that the script specified'
NOTE = ('every built-in tag in both cases x bodies x attributes; all values of up to 3 characters over the special characters in every form of an attribute; all lists of up to 3 attributes over 20 forms; '
        'all element trees of up to 4 nodes; custom elements, comments, user-defined markup tags and calls in expressions')
RULE = 'tags x bodies x attribute lists; values x forms; attribute lists; names; forests; expected error kinds for void tags with a body and for wrong attributes'
ASSUMPTIONS = ['NUL characters cannot be represented in HTML', 'the text of comments contains no "--"; raw markup blocks are left out']

# ---------------------------------------------------------------------------------------------------------------------------------
#  two independent readers

class Bad(Exception): pass
NAME = re.compile(r'[^\s<>/="\'&]+')

def strict(s):
    """-> list of nodes: ('el', name, [(attr, value or None)], void?, kids), ('text', s), ('comment', s)"""
    pos = 0
    root = ('el', None, [], False, [])
    stack = [root]
    while pos < len(s):
        if s[pos] != '<':
            end = s.find('<', pos)
            if end < 0: end = len(s)
            if '>' in s[pos:end]: raise Bad('stray > in %r' % s[pos:end])
            stack[-1][4].append(('text', html.unescape(s[pos:end])))
            pos = end
        elif s.startswith('<!--', pos):
            end = s.find('-->', pos + 4)
            if end < 0: raise Bad('comment not closed')
            stack[-1][4].append(('comment', s[pos + 4:end]))
            pos = end + 3
        elif s.startswith('</', pos):
            m = NAME.match(s, pos + 2)
            if not m or s[m.end():m.end() + 1] != '>': raise Bad('bad end tag')
            if stack[-1][1] != m.group(): raise Bad('end tag %s closes %s' % (m.group(), stack[-1][1]))
            stack.pop()
            pos = m.end() + 1
        else:
            m = NAME.match(s, pos + 1)
            if not m: raise Bad('stray <')
            name, pos, attrs = m.group(), m.end(), []
            while True:
                if s.startswith('>', pos):
                    pos += 1
                    node = ('el', name, attrs, False, [])
                    stack[-1][4].append(node)
                    stack.append(node)
                    break
                if s.startswith(' />', pos):
                    pos += 3
                    stack[-1][4].append(('el', name, attrs, True, []))
                    break
                m = re.compile(r' ([^\s<>/="\'&]+)(=("[^"<>]*"|\'[^\'<>]*\'))?').match(s, pos)
                if not m: raise Bad('bad attribute at %r' % s[pos:pos + 30])
                v = m.group(3)
                if v is not None:
                    if re.search('&(?!#?\\w+;)', v): raise Bad('bare ampersand in %s' % v)
                    v = html.unescape(v[1:-1])
                attrs.append((m.group(1), v))
                pos = m.end()
    if len(stack) > 1: raise Bad('element %s not closed' % stack[-1][1])
    return root[4]

class Std(HTMLParser):
    """Events of the standard parser."""
    CDATA_CONTENT_ELEMENTS = ()
    RCDATA_CONTENT_ELEMENTS = ()
    def __init__(self):
        HTMLParser.__init__(self, convert_charrefs = True)
        self.ev = []
    def set_cdata_mode(self, *a, **k): pass
    def handle_starttag(self, tag, attrs): self.ev.append(('start', tag, attrs))
    def handle_startendtag(self, tag, attrs): self.ev.append(('void', tag, attrs))
    def handle_endtag(self, tag): self.ev.append(('end', tag))
    def handle_comment(self, data): self.ev.append(('comment', data))

def events(nodes):
    for n in nodes:
        if n[0] == 'comment': yield n
        elif n[0] == 'el':
            attrs = [(k.lower(), v) for k, v in n[2]]
            if n[3]: yield ('void', n[1].lower(), attrs)
            else:
                yield ('start', n[1].lower(), attrs)
                for e in events(n[4]): yield e
                yield ('end', n[1].lower())

def norm(nodes):
    """Whitespace that the layout adds is not part of the comparison."""
    res = []
    for n in nodes:
        if n[0] == 'text':
            t = ' '.join(n[1].split())
            if t: res.append(('text', t))
        elif n[0] == 'comment': res.append(('comment', ' '.join(n[1].split())))
        else: res.append(('el', n[1], n[2], n[3], norm(n[4])))
    return res

def check(src, expected, cov, **values):
    got = hy.render(src, **values)
    cov.execs += 1
    cov.sample(src)
    cov.step(len(expected) if isinstance(expected, list) else 1)
    cov.state(repr(expected))
    if isinstance(expected, tuple):
        if got != expected: raise Violation('expected %r, got %r for:\n%s' % (expected, got, util.show(src)), key = src)
        return
    if got[0] != 'ok': raise Violation('expected elements %r, got %r for:\n%s' % (expected, got, util.show(src)), key = src)
    text = got[1]
    try: nodes = norm(strict(text))
    except Bad as ex: raise Violation('output is not well formed (%s): %r for:\n%s' % (ex, util.show(text), util.show(src)), key = src)
    exp = norm(expected)
    if nodes != exp:
        for a, b in itertools.zip_longest(exp, nodes):
            if a != b: raise Violation('expected element %r, the output has %r for:\n%s\noutput: %r' % (a, b, util.show(src), util.show(text)), key = src + repr(a))
    std = Std()
    std.feed(text)
    std.close()
    ev1 = [e if e[0] != 'comment' else ('comment', ' '.join(e[1].split())) for e in std.ev]
    ev2 = list(events(exp))
    if ev1 != ev2: raise Violation('the standard parser reads %r, expected %r for:\n%s' % (util.show(repr(ev1)), util.show(repr(ev2)), util.show(src)), key = src)

def el(name, attrs = (), kids = (), void = False): return ('el', name, list(attrs), void, list(kids))
def tx(s): return ('text', s)

# ---------------------------------------------------------------------------------------------------------------------------------
#  values

CHARS = '"\'<>&=; a'
MORE = '/{}$#`\\\n\t\r-|!?:%@.,()[]é☃😀\x0b\x0c\x7f\x85\xa0\u2028\ufeff\ue000\ue001\u200b\x01\x1f'
WORDS = ['', 'plain', '&amp;', '&lt', '&copy', '&#38;', '&#x26;', '&quot;', '&apos;', '"quoted"', "it's", '"both\'s"', 'a=b c="d"', '/>', '<b>', '</p>', '-->', '<!--', 'http://x.y/?a=1&b=2&copy=3',
         'javascript:alert("x")', '{x}', '$x', '{{x}}', 'a\nb', 'a\r\nb', ' a ', '  ', '\n', '\t', 'True', 'False', 'None', "''", '""', '&', '&&', '&amp', '&#', '&#10;', '&#x0a', 'ąłę', 'x' * 300, '"' * 9, "'\"" * 5]
def values(n):
    res = list(WORDS)
    for k in range(1, n + 1): res += [''.join(t) for t in itertools.product(CHARS, repeat = k)]
    res += list(MORE) + [c + d for c in MORE for d in '"a&'] + [d + c for c in MORE for d in '\'a']
    seen = set()
    return [v for v in res if not (v in seen or seen.add(v))]

class Obj:
    def __init__(self, s): self.s = s
    def __str__(self): return self.s
    def __repr__(self): return 'WRONG'
    def __eq__(self, other): return True
    def __hash__(self): return 1
class Sub(str): pass
class Neg:
    def __bool__(self): return False
    def __str__(self): return 'neg<'
class Int(int): pass
NONSTR = [0, 1, -1, 1.0, 0.0, 1.5, 10**20, [], [1], (), ('"',), {}, {'a': '<'}, set(), Obj('<"&\'>'), Obj(''), Obj('True'), Sub('s<'), Sub(''), Neg(), Int(1), Int(0), b'x"', 1j, 'True', 'False', range(3), Ellipsis, NotImplemented,
          str, frozenset([1])]
def exp_attr(name, v):
    if v is True: return [(name, None)]
    if v is False: return []
    return [(name, str(v))]

def quoted(s, q):
    if '\n' in s or '\r' in s: return None
    if q in s: s = s.replace('\\', '\\\\').replace(q, '\\x%02x' % ord(q))
    else: s = s.replace('\\', '\\\\')
    return q + s.replace('{', '{{').replace('}', '}}').replace('$', '$$') + q

VFORMS = {'$': lambda n, v: '%s=$%s' % ('a', n), 'bare': lambda n, v: 'a=%s' % n, 'brace': lambda n, v: 'a={%s}' % n, 'brace2': lambda n, v: 'a = { %s }' % n, 'cat': lambda n, v: "a={%s ''}" % n,
          'dq': lambda n, v: None if quoted(v, '"') is None else 'a=' + quoted(v, '"'), 'sq': lambda n, v: None if quoted(v, "'") is None else 'a = ' + quoted(v, "'"),
          'emb': lambda n, v: 'a="{%s}"' % n, 'emb2': lambda n, v: "a='$%s'" % n, 'xml': lambda n, v: 'xlink:a-b.c=$%s' % n, 'class': lambda n, v: '.$%s' % n, 'id': lambda n, v: '#{%s}' % n, 'paren': lambda n, v: 'a=(%s)' % n,
          'idx': lambda n, v: 'a=L[%s]' % n[1:], 'q': lambda n, v: 'a=$%s?' % n, 'data': lambda n, v: 'data-v={%s}?' % n}
def vname(f): return {'xml': 'xlink:a-b.c', 'class': 'class', 'id': 'id', 'data': 'data-v'}.get(f, 'a')

def space_values(n, chunk):
    vs = values(n)
    def it():
        for i in range(0, len(vs), chunk):
            for f in VFORMS:
                for tag in ('p', 'br', 'custom', 'DIV'): yield ('val', (f, tag, vs[i:i + chunk]))
        for f in VFORMS:
            if f in ('dq', 'sq', 'emb', 'emb2', 'cat'): continue
            yield ('nonstr', (f, 'p'))
            yield ('nonstr', (f, 'img'))
    return it

# ---- attribute lists
AFORMS = ['a="1"', "b='x'", 'a=$v', 'b={w}', 'a=2', 'c=True', 'c=False', 'd=$t', 'a=$f', '.k', '.l', '#i', '#j', '.m.n', '#h.o', 'class="c1 c2"', 'id=$v', '.$v', '.{w}', 'class=$v', 'data-x=$w', 'DATA="2"', 'xml:lang="e"', 'class=True', 'e=""']
AVAL = dict(v = 'V"', w = "W<'", t = True, f = False)
AMEAN = {'a="1"': [('a', '1')], "b='x'": [('b', 'x')], 'a=$v': [('a', 'V"')], 'b={w}': [('b', "W<'")], 'a=2': [('a', 2)], 'c=True': [('c', True)], 'c=False': [('c', False)], 'd=$t': [('d', True)], 'a=$f': [('a', False)],
         '.k': [('class', 'k')], '.l': [('class', 'l')], '#i': [('id', 'i')], '#j': [('id', 'j')], '.m.n': [('class', 'm'), ('class', 'n')], '#h.o': [('id', 'h'), ('class', 'o')], 'class="c1 c2"': [('class', 'c1 c2')],
         'id=$v': [('id', 'V"')], '.$v': [('class', 'V"')], '.{w}': [('class', "W<'")], 'class=$v': [('class', 'V"')], 'data-x=$w': [('data-x', "W<'")], 'DATA="2"': [('DATA', '2')], 'xml:lang="e"': [('xml:lang', 'e')],
         'class=True': [('class', True)], 'e=""': [('e', '')]}
def meaning(forms):
    """-> expected attributes, or None when values that are no strings would have to be joined"""
    d = {}
    for f in forms:
        for n, v in AMEAN[f]:
            if n in d:
                if not (isinstance(v, str) and isinstance(d[n], str)): return None
                d[n] = d[n] + ' ' + v
            else: d[n] = v
    return [x for n, v in d.items() for x in exp_attr(n, v)]

def space_lists(n, chunk):
    def it():
        for k in range(1, n + 1):
            for first in itertools.product(AFORMS, repeat = max(0, k - 1)): yield ('list', (first,))
    return it

# ---- names
def space_names():
    first = ['a', 'Z', '_', 'é', 'ą', '中', 'À', 'Ͱ', '\U00010000', 'x']
    mid = ['', 'b', 'B', '1', '-', '.', ':', '·', '_', 'é', '\u0300', '--', 'a:b', '\u203f', 'True']
    last = ['', 'c', '2', '-', '.', 'ł']
    for f in first:
        for m in mid: yield ('names', [f + m + l for l in last if not (f + m + l).endswith(':')])
    yield ('names', ['if', 'for', 'in', 'not', 'class', 'id', 'name', 'body', 'attrs', 'kwattrs', 'self', 'from', 'import', 'context', 'pass', 'is', 'and', 'or', 'else', 'try', 'None1', 'lambda', 'def', 'fun', 'text', 'true', 'TRUE', 'onClick', 'v-on:click', 'viewBox'])

# ---- tags
BODIES = [('', ()), (' :', ()), (' | t', (tx('t'),)), (': | t', (tx('t'),)), ('\n  | t', (tx('t'),)), (':\n  | <t>\n  i | u', (tx('<t>'), el('i', (), [tx('u')]))), (' | t\n     u', (tx('t u'),)), ('\n  br\n  hr a=1', (el('br', void = True), el('hr', [('a', '1')], void = True)))]
ATT = [('', ()), (' a="<"', [('a', '<')]), (' .x #y c=True d=False', [('class', 'x'), ('id', 'y'), ('c', None)])]
def space_tags():
    for t in NONVOID + [t.upper() for t in NONVOID] + VOID + [t.upper() for t in VOID]: yield ('tag', t)

EMPTY = ['', ':', ' :', '\n  pass', ':\n  pass', '\n  $x = 1', '\n  -- c', ' -- c', '\n  if 0 | x', '\n  ... for i in []\n    | x', '\n  ... e', '\n  try | {1/0}']
FULL = [' | x', ' / x', ' ! x', ': | x', '\n  | x', '\n  p', '\n  br', ' : p', ' : br', '\n  if 1 | x', '\n  . | x', '\n  e | x', '\n  comment', " |\n   x", '\n  for i in [1] | x', "\n  ... | x", ' | {v}']
def space_void():
    for t in VOID + [t.upper() for t in VOID]:
        for a in ('', ' a=1 .k'): yield ('void', (t, a))

# ---- trees: nodes are labels; containers with children
LEAF = ['t', 'br', 'c', 'e']
CONT = ['p', 'DIV', 'cu', 'cm', '.', 'at', 'ch', 'mk', 'h']
def space_trees(n, leaf, cont):
    def it():
        for k in range(1, n + 1):
            for f in gen.forests(k, leaf, cont): yield ('tree', f)
    return it

def space_misc():
    for i in range(len(MISC)): yield ('misc', i)

MISC = [
    ("custom | x\n", ('err', 'Type')), ("custom 'a' 'b' | x\n", ('err', 'Type')), ("p 'a' | x\n", ('err', 'Type')), ("br 1\n", ('err', 'Type')), ("comment a=1 | x\n", ('err', 'Type')), ("comment 'a' | x\n", ('err', 'Type')), ("p a=1 $v\n", ('err', 'Syntax')),
    ("custom 'x-y' name='n' void=1 body='b' self='s'\n", [el('x-y', [('name', 'n'), ('void', '1'), ('body', 'b'), ('self', 's')])]),
    ("custom $v .k | x\n", [el('my-el', [('class', 'k')], [tx('x')])]), ("custom {v} a=1 b=2\n  | x\n", [el('my-el', [('a', '1'), ('b', '2')], [tx('x')])]),
    ("custom 'X-Y'\n  custom 'x:y' | t\n", [el('X-Y', [], [el('x:y', [], [tx('t')])])]), ("custom 'e-1' : custom 'b' a='1' : p | t\n", [el('e-1', [], [el('b', [('a', '1')], [el('p', [], [tx('t')])])])]),
    ("comment | a <b> & c\n", [('comment', 'a &lt;b&gt; &amp; c')]), ("comment / a <b> & c\n", [('comment', 'a <b> & c')]), ("comment\n  p | x\n  br\n", [('comment', '<p>x</p> <br />')]), ("comment ! {x}\n", [('comment', '{x}')]), ("comment\n", [('comment', '')]),
    ("p : comment | x\n", [el('p', [], [('comment', 'x')])]), ("comment : p a='<' | x\n", [('comment', '<p a="&lt;">x</p>')]),
    ("/ {%p('t', id = v, class_='x')}\n", [el('p', [('id', 'my-el'), ('class_', 'x')], [tx('t')])]), ("/ {%br(a = '\"')} {%hr()} {%br(None, b = True, c = False)}\n", [el('br', [('a', '"')], void = True), el('hr', void = True), el('br', [('b', None)], void = True)]),
    ("/ {%custom('t', 'x-y', a = '<')}\n", [el('x-y', [('a', '<')], [tx('t')])]), ("/ {%DIV(%p('t'))}\n", [el('DIV', [], [el('p', [], [tx('t')])])]), ("/ {%comment('t')}\n", [('comment', 't')]), ("| {%br('t')}\n", ('err', 'VoidTag')), ("| {%p('t', 'a')}\n", ('err', 'Type')),
    ("div title={%p('t', a = '\"')}\n", [el('div', [('title', "<p a='\"'>t</p>")])]),
    ("p a = 1  b\t=\t2   .k\t#i | t\n", [el('p', [('a', '1'), ('b', '2'), ('class', 'k'), ('id', 'i')], [tx('t')])]), ("p .a-b_c-1 #x-9_ | t\n", [el('p', [('class', 'a-b_c-1'), ('id', 'x-9_')], [tx('t')])]),
    ("p.k | t\n", [el('p', [('class', 'k')], [tx('t')])]), ("p.k#i.l\n", [el('p', [('class', 'k l'), ('id', 'i')])]), ("p#i .k | t\n", [el('p', [('id', 'i'), ('class', 'k')], [tx('t')])]), ("a.k : b#i : i.m | t\n", [el('a', [('class', 'k')], [el('b', [('id', 'i')], [el('i', [('class', 'm')], [tx('t')])])])]),
    ("p a='x' a=\"y\" a=$v : b a=1 | t\n", [el('p', [('a', 'x y my-el')], [el('b', [('a', '1')], [tx('t')])])]), ("p a='' a='' .k\n", [el('p', [('a', ' '), ('class', 'k')])]), ("p A='1' a='2'\n", [el('p', [('A', '1'), ('a', '2')])]),
    ("p a=None1\n", ('err', 'Name')), ("$None1 = 1\np a=None1\n", [el('p', [('a', '1')])]), ("p a=v:upper b={v:upper}\n", ('err', 'Type')), ("p a={v:upper} b={v[0]} c=v[1] d=v.upper()\n", [el('p', [('a', 'MY-EL'), ('b', 'm'), ('c', 'y'), ('d', 'MY-EL')])]),
    ("p a=-1\n", ('err', 'Syntax')), ("p a=(-1) b=[1,2] c={1 + 1} d=1.50\n", [el('p', [('a', '-1'), ('b', '[1, 2]'), ('c', '2'), ('d', '1.5')])]), ("Div | t\n", ('err', 'UndefinedTag')), ("x-y | t\n", ('err', 'Syntax')),
    ("p a=1 b=2 c=3 d=4 e=5 f=6 g=7 h=8 i=9 j=10 k=11 l=12\n", [el('p', [(c, str(i + 1)) for i, c in enumerate('abcdefghijkl')])]), ("p l=1 k=2 j=3 i=4\n", [el('p', [(c, str(i + 1)) for i, c in enumerate('lkji')])]),
    ("p %s\n" % ' '.join('.c%d' % i for i in range(30)), [el('p', [('class', ' '.join('c%d' % i for i in range(30)))])]),
]

def spaces(tier):
    q = tier == 'quick'
    return [('values of up to %d characters x attribute forms x tags' % (2 if q else 3), space_values(2 if q else 3, 40)), ('attribute lists of up to 3 forms', space_lists(3 if q else 4, 0)), ('attribute names', space_names), ('built-in tags x bodies x attributes', space_tags),
            ('void tags x empty and non-empty bodies', space_void), ('trees of up to %d nodes' % (3 if q else 4), space_trees(3 if q else 4, LEAF, CONT)), ('particular forms and errors', space_misc)]

def run(case, cov):
    kind, c = case
    if kind in ('val', 'nonstr'):
        if kind == 'nonstr': f, tag, vs = c + (NONSTR + [True, False],)
        else: f, tag, vs = c
        src, exp = [], []
        for i, v in enumerate(vs):
            if kind == 'nonstr' and f in ('q', 'data') and not v: v2 = ''
            else: v2 = v
            t = VFORMS[f]('v%d' % i, v)
            if t is None: continue
            n = el({'custom': 'x-y'}.get(tag, tag), exp_attr(vname(f), v2), void = tag in ('br', 'img'))
            src.append({'custom': "custom 'x-y'"}.get(tag, tag) + ' ' + t)
            exp.append(n)
        if not src: return
        used = set(re.findall(r'v\d+', ' '.join(src)))
        names = ['v%d' % i for i in range(len(vs)) if 'v%d' % i in used]
        if f == 'idx': names = ['L']
        vals = {n: (vs if n == 'L' else vs[int(n[1:])]) for n in names}
        check(('context ' + ', '.join('$' + n for n in names) + '\n' if names else '') + '\n'.join(src) + '\n', exp, cov, **vals)
    elif kind == 'list':
        src, exp = ['context $v, $w, $t, $f'], []
        for last in AFORMS:
            m = meaning(c[0] + (last,))
            if m is None: continue
            src.append('p ' + ' '.join(c[0] + (last,)))
            exp.append(el('p', m))
        src.append('p | end')
        exp.append(el('p', (), [tx('end')]))
        check('\n'.join(src) + '\n', exp, cov, **AVAL)
    elif kind == 'names':
        src, exp = [], []
        for n in c:
            src += ['p %s="1"' % n, 'br %s = True b=2' % n, 'custom "x" %s=3 : p %s=4' % (n, n), 'm %s=5 : v %s=True' % (n, n)]
            exp += [el('p', [(n, '1')]), el('br', [(n, None)] if n != 'b' else [('b', '2')], void = True), el('x', [(n, '3')], [el('p', [(n, '4')])]), el('mm', [(n, '5')], [el('vv', [(n, n)], void = True)])]
            if n != 'b': exp[-3][2].append(('b', '2'))
        check('context %m, %v\n' + '\n'.join(src) + '\n', exp, cov, __tags__ = {'m': Markup('mm'), 'v': Markup('vv', True, 'XHTML')})
    elif kind == 'tag':
        void = c.lower() in VOID
        src, exp = [], []
        for a, ea in ATT:
            for b, eb in BODIES:
                if void and eb: continue
                src.append(c + a + b)
                exp.append(el(c, ea, eb, void))
        for i, e in enumerate(exp):
            src.append('b | %d' % i) if i == 0 else None
        exp.append(el('b', (), [tx('0')]))
        check('\n'.join(x for x in src if x) + '\n', exp, cov)
        # in chains and nested in itself
        if not void:
            check('%s a=1 : %s b=2 | t\n%s\n  %s\n    | u\n    %s .k | w\n' % (c, c, c, c, c), [el(c, [('a', '1')], [el(c, [('b', '2')], [tx('t')])]), el(c, (), [el(c, (), [tx('u'), el(c, [('class', 'k')], [tx('w')])])])], cov)
            check("/ {%%%s('t', a = 1)}{%%%s()}\n" % (c, c), [el(c, [('a', '1')], [tx('t')]), el(c)], cov)
        else: check("/ {%%%s(a = 1)}{%%%s()}\n%s\np : %s a=2\n" % (c, c, c, c), [el(c, [('a', '1')], void = True), el(c, void = True), el(c, void = True), el('p', (), [el(c, [('a', '2')], void = True)])], cov)
    elif kind == 'void':
        t, a = c
        at = [('a', '1'), ('class', 'k')] if a else []
        pre = "%e @b\n  @b\n"
        for b in EMPTY: check(pre + t + a + b + '\np | z\n', [el(t, at, void = True), el('p', (), [tx('z')])], cov)
        for b in FULL: check(pre + "$v = 'x'\n" + t + a + b + '\np | z\n', ('err', 'VoidTag'), cov)
        check(pre + t + a + " | {''}\np | z\n", [el(t, at, void = True), el('p', (), [tx('z')])], cov)
    elif kind == 'tree':
        src, exp, n = [], [], [0]
        def build(f, ind, out):
            res = []
            for lab, kids in f:
                n[0] += 1
                i = n[0]
                if lab == 't':
                    out.append(ind + '| t%d <&>' % i)
                    res.append(tx('t%d <&>' % i))
                elif lab == 'br':
                    out.append(ind + "br a='%d\"'" % i)
                    res.append(el('br', [('a', '%d"' % i)], void = True))
                elif lab == 'c':
                    out.append(ind + 'comment | c%d' % i)
                    res.append(('comment', 'c%d' % i))
                elif lab == 'e':
                    out.append(ind + 'i .c%d' % i)
                    res.append(el('i', [('class', 'c%d' % i)]))
                else:
                    head = {'p': 'p', 'DIV': 'DIV #d%d' % i, 'cu': "custom 'x-y' a=%d" % i, 'cm': 'comment', '.': '.', 'at': "a href='%d' title=\"<'%d'&>\"" % (i, i), 'ch': 'ul .u%d : li b=True' % i, 'mk': 'm k=%d' % i, 'h': 'h x=%d' % i}[lab]
                    out.append(ind + head)
                    ks = build(kids, ind + '  ', out)
                    if lab == 'p': res.append(el('p', (), ks))
                    elif lab == 'DIV': res.append(el('DIV', [('id', 'd%d' % i)], ks))
                    elif lab == 'cu': res.append(el('x-y', [('a', str(i))], ks))
                    elif lab == 'cm': res.append(('raw', ks))
                    elif lab == '.': res += ks
                    elif lab == 'at': res.append(el('a', [('href', str(i)), ('title', "<'%d'&>" % i)], ks))
                    elif lab == 'ch': res.append(el('ul', [('class', 'u%d' % i)], [el('li', [('b', None)], ks)]))
                    elif lab == 'mk': res.append(el('mm', [('k', str(i))], ks))
                    elif lab == 'h': res.append(el('section', [('n', str(i))], ks + [tx('h%d' % i)]))
            return res
        def comments(ns):
            res = []
            for x in ns:
                if x[0] == 'raw':
                    body = ' '.join(plain(k) for k in x[1])
                    res.append(('comment', body))
                elif x[0] == 'el': res.append(('el', x[1], x[2], x[3], comments(x[4])))
                else: res.append(x)
            return res
        exp = build(c, '', src)
        if any(bad(x, False) for x in exp): return
        exp = merge(comments(exp))
        check("context %m\n%h @b x\n  section n=x\n    @b\n    | h{x}\n" + '\n'.join(src) + '\n', exp, cov, __tags__ = {'m': Markup('mm')})
    else:
        src, exp = MISC[c]
        check('context $v\n' + src, exp, cov, v = 'my-el')

def bad(n, inside):
    """Comments inside comments cannot be read back; elements inside comments are kept simple."""
    if n[0] == 'raw': return inside or any(bad(k, True) for k in n[1])
    if n[0] == 'comment': return inside
    if n[0] == 'el':
        return inside or any(bad(k, inside) for k in n[4])
    return False
def plain(n): return n[1].replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;') if n[0] == 'text' else ''
def merge(ns):
    res = []
    for x in ns:
        if x[0] == 'el': x = ('el', x[1], x[2], x[3], merge(x[4]))
        if x[0] == 'text' and res and res[-1][0] == 'text': res[-1] = ('text', res[-1][1] + ' ' + x[1])
        else: res.append(x)
    return res

def prepare(tier):
    util.warm(sys.modules[__name__], tier, 10, 9)
