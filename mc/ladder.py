"""
Ladders of sizes: for every property, families of scripts that grow in one direction (iterations, blocks, attributes, lengths,
nesting, renders ...) with an expected result in closed form. All sizes of the ladder are executed. They complement the
exhaustive exploration of small combinations: behaviour that changes at a threshold is out of reach of small bounds.
"""
import os, sys, re, shutil, signal, tempfile, threading
from html.parser import HTMLParser
from mc.core import Violation
from mc import hy
from mc.hy import DOM, Tag, TagFunction, HyperHTML

SMALL  = list(range(0, 21)) + [24, 31, 32, 33, 48, 50, 63, 64, 65]
MID    = SMALL + [99, 100, 101, 127, 128, 129, 200, 255, 256, 257]
LARGE  = MID + [499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025]
HUGE   = LARGE + [2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 9999, 10000, 10001, 16384, 32768, 65535, 65536, 65537]
NEST   = list(range(0, 31)) + [40, 50, 60]

FAMILIES = {}
def family(prop, sizes, name = None):
    def deco(f):
        FAMILIES.setdefault(prop, []).append((name or f.__name__.replace('_', ' '), [n for n in sizes], f))
        return f
    return deco

def lines(*ls): return '\n'.join(ls) + '\n'
class Rec(Tag):
    name = 'rec'
    def expand(self, body, attrs, kwattrs): return '[%s|%r|%r]' % (body.render().strip(), list(attrs), list(kwattrs.items()))
class Ret(str): pass

# A family yields (script, values, expected): expected is the document, or ('err', kind), or a function of the outcome of hy.render

# ----- C01
@family('C01', HUGE)
def literal_specials(n): yield '| a' + '<' * n + 'b\n', {}, 'a' + '&lt;' * n + 'b\n'
@family('C01', HUGE)
def specials_in_value(n):
    for c, e in (('<', '&lt;'), ('&', '&amp;'), ('>', '&gt;'), ('"', '&quot;')):
        yield 'context $v\n| a{v}b\n', {'v': c * n}, lambda r, w = 'a' + c * n + 'b\n': r[0] == 'ok' and unescape(r[1]) == w and '<' not in r[1] and not re.search('&(?!(lt|gt|amp|quot|#34|#39|#x27);)', r[1])
        yield 'context $v\n/ a{v}b\n', {'v': c * n}, 'a' + c * n + 'b\n'
@family('C01', LARGE)
def many_embeddings(n): yield 'context $v\n| ' + '$v{v},' * n + 'x\n', {'v': '<'}, '&lt;&lt;,' * n + 'x\n'
@family('C01', LARGE)
def many_lines(n):
    yield 'context $v\np\n  | <\n' + '    {v}<\n' * n, {'v': '>'}, '<p>\n  &lt;\n' + '  &gt;&lt;\n' * n + '</p>\n'
    yield 'p\n  ! <\n' + '    {v}<\n' * n, {}, '<p>\n  <\n' + '  {v}<\n' * n + '</p>\n'
@family('C01', NEST)
def nested_tags(n): yield ''.join('  ' * i + 'p\n' for i in range(n)) + '  ' * n + '| <\n', {}, ''.join('  ' * i + '<p>\n' for i in range(n)) + '  ' * n + '&lt;\n' + ''.join('  ' * i + '</p>\n' for i in reversed(range(n)))

def unescape(s):
    import html
    return html.unescape(s)

# ----- C02
class Parser(HTMLParser):
    def __init__(self, text):
        super().__init__(convert_charrefs = True)
        self.got = []
        self.feed(text); self.close()
    def handle_starttag(self, tag, attrs): self.got.append((tag, attrs))
    def handle_startendtag(self, tag, attrs): self.got.append((tag, attrs))
def parsed(want): return lambda r: r[0] == 'ok' and Parser(r[1]).got == want

@family('C02', LARGE)
def many_attributes(n): yield 'p ' + ' '.join('a%d="v%d"' % (i, i) for i in range(n)) + ' | x\n', {}, parsed([('p', [('a%d' % i, 'v%d' % i) for i in range(n)])])
@family('C02', LARGE)
def many_classes(n): yield 'p' + ''.join('.c%d' % i for i in range(n)) + ' | x\n', {}, parsed([('p', [('class', ' '.join('c%d' % i for i in range(n)))] if n else [])])
@family('C02', HUGE)
def long_attribute_values(n):
    for c in ('"', '<', 'x', '&', "'", ' '): yield 'context $v\nimg src=$v\n', {'v': 'a' + c * n + 'b'}, parsed([('img', [('src', 'a' + c * n + 'b')])])
@family('C02', [n for n in HUGE if 0 < n < 5000])
def long_names(n):
    yield 'context $v\nimg data-%s=$v\n' % ('x' * n), {'v': 'q'}, parsed([('img', [('data-' + 'x' * n, 'q')])])
    yield 'custom "%s" | x\n' % ('x' * n), {}, lambda r: r[0] == 'err' or r[1].startswith('<%s>' % ('x' * n))
@family('C02', LARGE)
def many_elements(n): yield 'ul\n' + ''.join('  li id="i%d" | $$\n' % i for i in range(n)), {}, parsed([('ul', [])] + [('li', [('id', 'i%d' % i)]) for i in range(n)])
@family('C02', NEST)
def nested_elements(n): yield ''.join('  ' * i + 'div id=%d\n' % i for i in range(n)) + '  ' * n + 'br\n', {}, parsed([('div', [('id', str(i))]) for i in range(n)] + [('br', [])])

# ----- C03
@family('C03', LARGE)
def blank_lines(n):
    yield 'p' + '\n' * (n + 1) + 'b\n', {}, '<p></p>' + '\n' * (n + 1) + '<b></b>\n'
    yield 'div\n  p' + '\n' * (n + 1) + '  b\n', {}, '<div>\n  <p></p>' + '\n' * (n + 1) + '  <b></b>\n</div>\n'
    yield '| a' + '\n' * (n + 1) + '| b\n', {}, 'a' + '\n' * (n + 1) + 'b\n'
    yield '| a' + '\n' * (n + 1) + '  b\n', {}, 'a' + '\n' * (n + 1) + 'b\n'
    yield 'p' + '\n' * (n + 1), {}, '<p></p>' + '\n' * (n + 1)
@family('C03', [n for n in MID if n])
def wide_indentation(n):
    for c in ' \t':
        yield 'div\n' + c * n + 'p\n' + c * n + 'b | x\n', {}, '<div>\n' + c * n + '<p></p>\n' + c * n + '<b>x</b>\n</div>\n'
        yield 'div\n' + c * n + '| x\n' + c * (n + 2) + 'y\n', {}, '<div>\n' + c * n + 'x\n' + c * n + 'y\n</div>\n' if c == ' ' else (lambda r: r[0] == 'ok' and r[1].split() == ['<div>', 'x', 'y', '</div>'])
@family('C03', [n for n in MID if n])
def control_indentation(n): yield 'div\n' + ' ' * n + 'if 1\n' + ' ' * (2 * n) + 'p\n' + ' ' * (3 * n) + 'b\n', {}, '<div>\n' + ' ' * n + '<p>\n' + ' ' * 2 * n + '<b></b>\n' + ' ' * n + '</p>\n</div>\n'
@family('C03', LARGE)
def many_blocks(n): yield 'p\n  b | x\n' * n + '| e\n', {}, '<p>\n  <b>x</b>\n</p>\n' * n + 'e\n'
@family('C03', LARGE)
def long_text_block(n): yield 'p\n  | a\n' + '    b\n      c\n' * n, {}, '<p>\n  a\n' + '  b\n    c\n' * n + '</p>\n'
@family('C03', NEST)
def deep_blocks(n): yield ''.join('  ' * i + 'div\n' for i in range(n)) + '  ' * n + '| x\n' + ''.join('  ' * i + '| y\n' for i in reversed(range(n))), {}, ''.join('  ' * i + '<div>\n' for i in range(n)) + '  ' * n + 'x\n' + ''.join('  ' * i + '</div>\n' + '  ' * i + 'y\n' for i in reversed(range(n)))
@family('C03', MID)
def many_appends(n): yield '| a\n' + '... b | x\n' * n, {}, 'a' + '<b>x</b>' * n + '\n'

# ----- C04
@family('C04', HUGE)
def iterations(n):
    want = ''.join('%d,' % i for i in range(n)) + '.\n'
    yield 'context $n\n. | \nfor i in range(n)\n  ... | $i,\n... | .\n', {'n': n}, lambda r, w = '\n' + ''.join('%d,' % i for i in range(n)) + '.\n': r == ('ok', w.lstrip('\n')) or r == ('ok', w)
    for seq in (list(range(n)), tuple(range(n)), iter(range(n)), dict.fromkeys(range(n))):
        yield 'context $l\nfor i in l\n  | $i\nelse\n  | none\n', {'l': seq}, ''.join('%d\n' % i for i in range(n)) or 'none\n'
    yield 'context $n\n$i = 0\nwhile i < n\n  $i += 1\n  | $i\nelse\n  | none\n', {'n': n}, ''.join('%d\n' % (i + 1) for i in range(n)) or 'none\n'
@family('C04', LARGE)
def many_branches(n):
    src = 'context $n, $k\nif n == k - 1\n  | if\n' + ''.join('elif k == %d\n  | e%d\n' % (i, i) for i in range(n)) + 'else\n  | else\n'
    for k in {0, n // 2, n - 1, n}: yield src, {'n': n, 'k': k}, 'if\n' if k == n + 1 else 'e%d\n' % k if 0 <= k < n else 'else\n'
@family('C04', [n for n in MID if n < 105])
def nested_loops(n): yield 'context $n\nfor i in range(n)\n  for j in range(n)\n    | $i.$j\n'.replace('$i.$j', '{i}.{j}'), {'n': n}, ''.join('%d.%d\n' % (i, j) for i in range(n) for j in range(n))
@family('C04', [n for n in NEST if n])
def nested_controls(n):
    yield ''.join(' ' * i + 'if %d\n' % (i + 1) for i in range(n)) + ' ' * n + '| x\n', {}, 'x\n'
    yield ''.join(' ' * i + 'for i%d in [%d]\n' % (i, i) for i in range(n)) + ' ' * n + '| ' + ' '.join('$i%d' % i for i in range(n)) + '\n', {}, ' '.join(map(str, range(n))) + '\n'
    yield ''.join(' ' * i + 'if 0\n' + ' ' * i + '  | no\n' + ' ' * i + 'else\n' for i in range(n)) + ' ' * n + '| x\n', {}, 'x\n'
@family('C04', [n for n in MID if n > 1])
def wide_unpacking(n): yield 'context $l\nfor %s in l\n  | %s\n' % (', '.join('x%d' % i for i in range(n)), ' '.join('$x%d' % i for i in range(n))), {'l': [list(range(n)), [7] * n]}, ' '.join(map(str, range(n))) + '\n' + ' '.join(['7'] * n) + '\n'

# ----- C05
@family('C05', LARGE)
def many_variables(n):
    yield ''.join('$x%d = %d\n' % (i, i) for i in range(n)) + '| ' + ' '.join('$x%d' % i for i in reversed(range(n))) + '.\n', {}, ' '.join(str(i) for i in reversed(range(n))) + '.\n'
    yield ''.join('$x%d = %d\n' % (i, i) for i in range(n)) + '| $y\n', {}, ('err', 'Name')
@family('C05', MID)
def many_redefinitions(n): yield '$x = -1\n' + ''.join('$x = %d\np\n  $x = 77\n' % i for i in range(n)) + '| $x\n', {}, '<p></p>\n' * n + '%d\n' % (n - 1)
@family('C05', NEST)
def nested_scopes(n): yield '$x = 0\n' + ''.join('  ' * i + 'p\n' + '  ' * i + '  $x = %d\n' % (i + 1) for i in range(n)) + '  ' * n + '| $x\n' + ''.join('  ' * i + '| $x\n' for i in reversed(range(n))), {}, ''.join('  ' * i + '<p>\n' for i in range(n)) + '  ' * n + '%d\n' % n + ''.join('  ' * i + '</p>\n' + '  ' * i + '%d\n' % i for i in reversed(range(n)))
@family('C05', MID)
def many_hypertags(n): yield ''.join('%%h%d a=%d | {a}\n' % (i, i) for i in range(n)) + ''.join('h%d\n' % i for i in range(n)), {}, ''.join('%d\n' % i for i in range(n))

# ----- C06
OPS = ['+', '-', '*', '|', '&', '^', ' and ', ' or ', ' == ', ' < ', ' <= ', '<<', '//', '%']
@family('C06', [n for n in MID if n])
def long_chains(n):
    for op in OPS:
        vals = [1 + (i % 3) for i in range(n)]
        if op == '<<': vals = [1] * n
        if op in (' < ', ' <= '): vals = list(range(n))
        src = op.join(map(str, vals))
        yield '| {%s}\n' % src, {}, '%s\n' % (eval(src),)
    yield '| {%s}\n' % ' '.join("'%d'" % i for i in range(n)), {}, ''.join(map(str, range(n))) + '\n'
    yield 'context $f\n| {0%s}\n' % (':f' * n), {'f': lambda x: x + 1}, '%d\n' % n
    yield 'context $f\n| {f(%s)}\n' % ', '.join(map(str, range(n))), {'f': lambda *a: sum(a) + len(a)}, '%d\n' % (n * (n - 1) // 2 + n)
    yield 'context $f\n| {f(%s)}\n' % ', '.join('k%d=%d' % (i, i) for i in range(n)), {'f': lambda **k: list(k) == ['k%d' % i for i in range(n)] and sum(k.values())}, '%d\n' % (n * (n - 1) // 2)
    yield 'context $l\n| {l%s}\n' % ('[0]' * n), {'l': deep(n)}, '5\n'
    yield '| {%s}\n' % ('not ' * min(n, 60) + '1'), {}, '%s\n' % eval('not ' * min(n, 60) + '1')
    yield '| {%s}\n' % ('-' * min(n, 1) + '1'), {}, '-1\n'
    if n < 61: yield '| {%s1%s}\n' % ('(' * n, ')' * n), {}, '1\n'
    if n < 31: yield '| {%s}\n' % '**'.join(['2'] + ['1'] * n), {}, '2\n'
    if n < 41: yield '| {%s 0}\n' % ''.join('%d if 0 else ' % i for i in range(n)), {}, '0\n'
def deep(n):
    v = 5
    for _ in range(n): v = [v]
    return v

# ----- C07
@family('C07', MID)
def failing_branches(n):
    yield 'try\n  | {1/0}\n' + 'else\n  | {1/0}\n' * n + 'else\n  | ok\n', {}, 'ok\n'
    yield 'p\ntry\n  | {1/0}\n' + 'else\n  | {1/0}\n' * n + 'b\n', {}, '<p></p>\n<b></b>\n'
@family('C07', LARGE)
def many_try(n):
    yield '| s\n' + '? p | {1/0}\n? b | x\n' * n + '| e\n', {}, 's\n' + '<b>x</b>\n' * n + 'e\n'
    yield '| ' + '{1/0}?{2}!' * n + '.\n', {}, '2' * n + '.\n'
    yield '| ' + '{1/0}?{2}!' * n + '{0}!\n', {}, ('err', 'FalseValue')
    yield 'for i in range(%d)\n  try\n    p | {1/(i%%2)}\n  else\n    | e\n' % n, {}, ''.join('<p>1.0</p>\n' if i % 2 else 'e\n' for i in range(n))
@family('C07', NEST)
def nested_try(n):
    yield ''.join('  ' * i + 'try\n' for i in range(n + 1)) + '  ' * (n + 1) + '| {1/0}\n' + ''.join('  ' * i + 'else\n' + '  ' * i + '  | %d{%s}\n' % (i, '1' if i == n else '1/0') for i in reversed(range(n + 1))), {}, '%d1\n' % n
    yield ''.join('  ' * i + 'try\n' for i in range(n + 1)) + '  ' * (n + 1) + '| x\n' + ''.join('  ' * (i + 1) + '| {1/0}\n' + '  ' * i + 'else\n' + '  ' * i + '  | e%d\n' % i for i in reversed(range(n + 1))), {}, 'e0\n'

# ----- C08
@family('C08', MID)
def many_formals(n):
    names = ['a%d' % i for i in range(n)]
    d = '%h ' + ' '.join(names) + '\n  | ' + ','.join('$' + a for a in names) + '.\n'
    dd = '%h ' + ' '.join('%s=%d' % (a, i) for i, a in enumerate(names)) + '\n  | ' + ','.join('$' + a for a in names) + '.\n'
    want = ','.join(map(str, range(n))) + '.\n'
    yield d + 'h ' + ' '.join(map(str, range(n))) + '\n', {}, want
    yield d + 'h ' + ' '.join('%s=%d' % (a, i) for i, a in reversed(list(enumerate(names)))) + '\n', {}, want
    yield dd + 'h\n', {}, want
    yield d + '| {%%h(%s)}\n' % ', '.join(['""'] + list(map(str, range(n)))) if 0 else d + 'h ' + ' '.join(map(str, range(n // 2))) + ' ' + ' '.join('a%d=%d' % (i, i) for i in range(n // 2, n)) + '\n', {}, want
    if n: yield d + 'h ' + ' '.join(map(str, range(n - 1))) + '\n', {}, ('err', 'Type')
    yield d + 'h ' + ' '.join(map(str, range(n + 1))) + '\n', {}, ('err', 'Type')
    yield dd + 'h z=1\n', {}, ('err', 'Type')
@family('C08', LARGE)
def many_calls(n): yield '%h a b=7 | {a}{b}\n' + ''.join('h %d\n' % i if i % 2 else 'h %d b=8\n' % i for i in range(n)), {}, ''.join('%d%d\n' % (i, 7 if i % 2 else 8) for i in range(n))
@family('C08', NEST)
def call_chain(n): yield '%h0 a\n  | <$a\n' + ''.join('%%h%d a\n  h%d {a+1}\n' % (i + 1, i) for i in range(n)) + 'h%d 0\n' % n, {}, '&lt;%d\n' % n

# ----- C09
@family('C09', MID)
def many_insertions(n):
    yield '%h @b\n' + '  p\n    @b\n' * n + '  @b\nh\n  i | x\n  | y\n', {}, '<p>\n  <i>x</i>\n  y\n</p>\n' * n + '<i>x</i>\ny\n'
    yield 'context $n\n%h @b\n  for i in range(n)\n    p\n      @b\n  | e\nh\n  i\n    | x\n', {'n': n}, '<p>\n  <i>\n    x\n  </i>\n</p>\n' * n + 'e\n'
@family('C09', MID)
def large_bodies(n): yield '%h @b\n  p\n    @b\n  | e\nh\n  | s\n' + '  i\n    | x\n' * n, {}, '<p>\n  s\n' + '  <i>\n    x\n  </i>\n' * n + '</p>\ne\n'
@family('C09', NEST)
def chain_of_hypertags(n): yield '%h0 @b\n  p\n    @b\n' + ''.join('%%h%d @b\n  h%d\n    @b\n    @b\n' % (i + 1, i) if i < 6 else '%%h%d @b\n  h%d\n    @b\n' % (i + 1, i) for i in range(n)) + 'h%d\n  i | x\n' % n, {}, '<p>\n' + '  <i>x</i>\n' * 2 ** min(n, 6) + '</p>\n'
@family('C09', [n for n in NEST if n])
def nested_calls(n): yield '%h @b\n  p\n    @b\n' + ''.join('  ' * i + 'h\n' for i in range(n)) + '  ' * n + 'i | x\n', {}, ''.join('  ' * i + '<p>\n' for i in range(n)) + '  ' * n + '<i>x</i>\n' + ''.join('  ' * i + '</p>\n' for i in reversed(range(n)))

# ----- C10
def check(ok, what):
    if not ok: raise Violation(what, key = what)
@family('C10', LARGE)
def wide_documents(n):
    root = HyperHTML().translate('div\n' + ''.join('  p id=%d\n    i | %d\n' % (i, i) for i in range(n)) + '| e\n').dom
    dom = root.body
    check([x.kwattrs['id'] for x in dom.select('p')] == list(range(n)), 'select of %d nodes' % n)
    check([x.kwattrs['id'] for x in dom.walk() if x.tag and x.tag.name == 'p'] == list(range(n)), 'walk of %d nodes' % n)
    check([x.tag.name for x in dom.walk() if x.tag and x.tag.name in 'div p i'.split()] == ['div'] + ['p', 'i'] * n, 'preorder of %d nodes' % n)
    check([x.tag.name for x in dom.walk(order = 'postorder') if x.tag and x.tag.name in 'div p i'.split()] == ['i', 'p'] * n + ['div'], 'postorder of %d nodes' % n)
    got = dom.select('p')
    check(len(got) == n and all(got[i].kwattrs['id'] == i for i in range(n)), 'indexing of %d nodes' % n)
    check([x.kwattrs['id'] for x in got[n // 3:-1]] == list(range(n))[n // 3:-1], 'slicing of %d nodes' % n)
    check(len(dom.skip('p').select('i')) == 0 and len(dom.select('i')) == n, 'skip of %d nodes' % n)
    text = root.render()
    copy = root.copy()
    dup = copy.body
    check(copy.render() == text, 'copy of %d nodes' % n)
    for x in dup.select('i'): x.kwattrs['class'] = 'z'
    check(root.render() == text and copy.render() == text.replace('<i>', '<i class="z">'), 'independence of a copy of %d nodes' % n)
    yield None
@family('C10', NEST)
def deep_documents(n):
    root = HyperHTML().translate(''.join('  ' * i + 'p id=%d\n' % i for i in range(n)) + '  ' * n + '| x\n').dom
    dom = root.body
    check([x.kwattrs['id'] for x in dom.select('p')] == list(range(n)), 'select at depth %d' % n)
    check([x.kwattrs['id'] for x in dom.select('p', order = 'postorder')] == list(range(n))[::-1], 'postorder at depth %d' % n)
    text = root.render()
    copy = root.copy()
    dup = copy.body
    for x in dup.select('p'): x.kwattrs['id'] = 'z'
    check(root.render() == text and copy.render() == re.sub(r'id="\d+"', 'id="z"', text), 'independence of a copy at depth %d' % n)
    check(len(dom.skip('p', id = n // 2).select('p')) == (n // 2 if n else 0), 'skip at depth %d' % n)
    yield None

# ----- C11
def in_folder(files, main, values = None, rt = None):
    d = tempfile.mkdtemp(prefix = 'mc-ladder-')
    try:
        for name, text in files.items():
            with open(os.path.join(d, name), 'w', encoding = 'utf-8') as f: f.write(text)
        return hy.render(main, rt or HyperHTML(), __file__ = os.path.join(d, 'main.hy'), **(values or {}))
    finally: shutil.rmtree(d)
def expect(got, want, what): check(got == ('ok', want), '%s: expected %r, got %r' % (what, want[:300], (got[0], str(got[1])[:300])))
COUNT = [0]
def bump():
    COUNT[0] += 1
    return COUNT[0]
@family('C11', [n for n in NEST])
def chain_of_modules(n):
    files = {'m0.hy': "$v = 0\n%t a | t{a}{v}\n"}
    for i in range(n): files['m%d.hy' % (i + 1)] = 'from .m%d import $v as w, %%t as u\n$v = w + 1\n%%t a\n  | $v\n  ... u {a}\n'.replace('  | $v\n  ... u {a}\n', '  p | $v\n  u {a}\n') % i
    expect(in_folder(files, 'from .m%d import *\n| $v\nt "q"\n' % n), '%d\n' % n + ''.join('<p>%d</p>\n' % (n - i) for i in range(n)) + 'tq0\n', 'a chain of %d modules' % n)
    yield None
@family('C11', LARGE)
def many_symbols(n):
    m = ''.join('$v%d = %d\n' % (i, i) for i in range(n)) + ''.join('%%t%d | <%d\n' % (i, i) for i in range(n // 10)) + '$e = 1\n'
    use = '| ' + ' '.join('$v%d' % i for i in range(n)) + '.\n' + ''.join('t%d\n' % i for i in range(n // 10))
    want = ' '.join(map(str, range(n))) + '.\n' + ''.join('&lt;%d\n' % i for i in range(n // 10))
    expect(in_folder({'m.hy': m}, 'from .m import *\n' + use), want, 'a wildcard over %d symbols' % n)
    if 0 < n < 300: expect(in_folder({'m.hy': m}, 'from .m import ' + ', '.join(['$v%d as v%d' % (n - 1 - i, i) for i in range(n)]) + '\n| ' + ' '.join('$v%d' % i for i in range(n)) + '\n'), ' '.join(str(n - 1 - i) for i in range(n)) + '\n', '%d renamed symbols' % n)
    yield None
@family('C11', [n for n in MID if n])
def many_imports(n):
    COUNT[0] = 0
    bump_mod(); 
    files = {'c.hy': 'from mc_ladder_bump import $bump\n$v = bump()\n'}
    for i in range(n): files['m%d.hy' % i] = 'from .c import $v\n$w = v\n'
    expect(in_folder(files, ''.join('from .m%d import $w as w%d\n' % (i, i) for i in range(n)) + 'from .c import $v\n| $v ' + ' '.join('$w%d' % i for i in range(n)) + '\n'), '1 ' + ' '.join(['1'] * n) + '\n', 'a module imported by %d others' % n)
    yield None
def bump_mod():
    import types
    m = types.ModuleType('mc_ladder_bump'); m.bump = bump
    sys.modules['mc_ladder_bump'] = m

# ----- C12
@family('C12', LARGE)
def many_context_symbols(n):
    vals = {'x%d' % i: i for i in range(n)}
    use = '| ' + ' '.join('$x%d' % i for i in range(n)) + '.\n'
    want = ' '.join(map(str, range(n))) + '.\n'
    if n: yield 'context ' + ', '.join('$x%d' % i for i in range(n)) + '\n' + use, vals, want
    yield ''.join('context $x%d\n' % i for i in range(n)) + use, vals, want
    yield ''.join('-- c\ncontext $x%d as y%d\n' % (i, i) for i in range(n)) + use.replace('$x', '$y'), vals, want
    yield ''.join('context $x%d\n' % i for i in range(n)) + 'context $z\n', vals, ('err', 'Import')
    yield '| $x%d\n' % (n // 2), vals, ('err', 'Name')

# ----- C13
@family('C13', [0, 1, 2, 3, 5, 10, 33, 65, 129, 257, 513, 1025])
def long_histories(n):
    rt = HyperHTML()
    def script(i): return 'context $v\n$x = %d\n%%h a={x} | <$a $v\np.k%d\n  h\n| {x}?\n' % (i, i), {'v': -i}, '<p class="k%d">\n  &lt;%d %d\n</p>\n%s\n' % (i, i, -i, i or '')
    for rounds in range(2):
        for i in range(n):
            src, vals, want = script(i)
            got = hy.render(src, rt, **vals)
            expect(got, want, 'round %d, script %d of a history of %d renders on one runtime' % (rounds, i, n))
            if i % 7 == 3: hy.render(('p {%d}\n' if i % 2 else 'p\n | $v%d\n') % i, rt)          # a failing one
    yield None
@family('C13', [0, 1, 10, 101, 257, 1025, 2049, 4097])
def one_script_many_contexts(n):
    rt = HyperHTML()
    for i in range(n):
        got = hy.render('context $v\n%h @b a\n  p x={a}\n    @b\nh {v+1} | $v\n', rt, v = i)
        if got != ('ok', '<p x="%d">%d</p>\n' % (i + 1, i)) and got != ('ok', '<p x="%d">\n  %d\n</p>\n' % (i + 1, i)): raise Violation('render %d of a script with %d contexts: %r' % (i, n, got), key = 'contexts')
    yield None
@family('C13', LARGE)
def one_document_many_renders(n):
    dom = HyperHTML().translate('%h @b a=1\n  p x={a}\n    @b\n    @b\nh\n  i | x\n').dom
    for i in range(n + 1): check(dom.render() == '<p x="1">\n  <i>x</i>\n  <i>x</i>\n</p>\n', 'rendering no. %d of a document' % i)
    yield None
@family('C13', MID)
def many_runtimes(n):
    rts = [HyperHTML() for _ in range(n)]
    for r in range(2):
        for i, rt in enumerate(rts): expect(hy.render('context $v\np | $v {len([1])}\n', rt, v = i), '<p>%d 1</p>\n' % i, 'runtime %d of %d' % (i, n))
    yield None

# ----- C14
@family('C14', [n for n in SMALL if n])
def overlapping_renders(n):
    """n threads are in the middle of a render each, then go on in order, in reverse order, or from the middle"""
    src = 'context $f, $v\n%h @b a\n  p x={a} y={f()}\n    @b\n    | $v\nfor i in [1, 2]\n  h {i + v}\n    | $i {f()} $v\n'
    want = lambda v: ''.join('<p x="%d" y="f">\n  %d f %d\n  %d\n</p>\n' % (i + v, i, v, v) for i in (1, 2))
    for order in (0, 1, 2):
        rt = HyperHTML()
        enter, go, out = [threading.Event() for _ in range(n)], [threading.Event() for _ in range(n)], [None] * n
        def main(k):
            first = []
            def f():
                if not first:
                    first.append(1)
                    enter[k].set(); go[k].wait(60)
                return 'f'
            out[k] = hy.render(src, rt, f = f, v = k)
            enter[k].set()
        ts = []
        for k in range(n):
            t = threading.Thread(target = main, args = (k,), daemon = True)
            t.start(); ts.append(t)
            enter[k].wait(60)
        ks = list(range(n))
        if order == 1: ks.reverse()
        if order == 2: ks = ks[n // 2:] + ks[:n // 2]
        for k in ks:
            go[k].set(); ts[k].join(60)
        for k in range(n): expect(out[k] or ('err', 'no result'), want(k), 'render %d of %d overlapping ones, released in order %d' % (k, n, order))
    yield None

# ----- C15
@family('C15', [3, 5, 10, 20, 40, 60])
def repeated_tokens(n):
    from mc.checks import c15
    from mc import core
    cov = core.Coverage()
    for pre in ('', 'ctx', 'inl', 'body', 'multi'):
        for t in c15.TOKENS:
            for sep in ('', ' '):
                src = c15.PREFIXES[pre] + sep.join([t] * n)
                if c15.safe(src): c15.attempt(src, cov)
                yield None
@family('C15', [2, 4, 8, 16, 30])
def repeated_pairs(n):
    from mc.checks import c15
    from mc import core
    cov = core.Coverage()
    for t in c15.TOKENS:
        for u in c15.TOKENS[::3]:
            for src in (c15.PREFIXES['inl'] + (t + u) * n, c15.PREFIXES['ctx'] + (t + ' ' + u + ' ') * n):
                if c15.safe(src): c15.attempt(src, cov)
                yield None

# ----- C16
@family('C16', HUGE)
def long_texts(n):
    body = ''.join(chr(97 + i % 26) for i in range(n))
    yield '| s%se\n' % body, {}, 's%se\n' % body
    yield 'p\n  ! s\n    %se\n' % body, {}, '<p>\n  s\n  %se\n</p>\n' % body
    yield "| {'s%se'}\n" % body, {}, 's%se\n' % body
    yield 'p x="s%se"\n' % body, {}, '<p x="s%se"></p>\n' % body
    yield 'context $v\np x=$v | $v\n', {'v': body + 'e'}, '<p x="%se">%se</p>\n' % (body, body)
    yield '-- %s\n| x\n' % body, {}, 'x\n'
@family('C16', LARGE)
def long_blanks(n):
    b = ' ' * n
    yield '| s%se\n' % b, {}, 's%se\n' % b
    yield 'context $v\n| s{v}e\n', {'v': b}, 's%se\n' % b
    yield 'context $v\np\n  | s{v}e\n', {'v': '\n' * n}, '<p>\n  s%se\n</p>\n' % ('\n' * n) if n < 1 else (lambda r: r[0] == 'ok' and r[1].count('\n') == n + 3)
    yield '| ' + '$$' * n + '{{' * n + '}}' * n + '.\n', {}, '$' * n + '{' * n + '}' * n + '.\n'

# ----- C17
@family('C17', [n for n in MID if n])
def redundancy(n):
    base = 'p\n  | a\nif 1\n  b | y\n'
    want = '<p>\n  a\n</p>\n<b>y</b>\n'
    yield base.replace('p\n', 'p' + ' ' * n + '\n', 1), {}, want
    yield base.replace('if 1', 'if' + ' ' * n + '1' + ' ' * n + ':'), {}, want
    yield base.replace('  | a\n', '  -- c\n' * n + '  | a\n' + '  pass\n' * n), {}, want
    yield '-- c\n' * n + base + '# c\n' * n, {}, want
    yield base.replace('p\n', 'p -- %s\n' % ('c' * n), 1), {}, want
    if n < 61: yield base.replace('if 1', 'if ' + '(' * n + '1' + ')' * n), {}, want
    if n < 61: yield ' : '.join(['i'] * n) + ' | x\n', {}, '<i>' * n + 'x' + '</i>' * n + '\n'
    yield '. | x\n' * n, {}, 'x\n' * n

# ----- C18
@family('C18', LARGE)
def long_arguments(n):
    words = ['w%d' % i for i in range(n)]
    t = '   '.join(words)
    yield 'context $t\n| {merge_spaces(t)}.\n' if 0 else 'context $t\n| {merge(t)}.\n', {'t': t}, ' '.join(words) + '.\n'
    yield 'context $t\n| {upper(t)}{lower(t)}.\n', {'t': t}, t.upper() + t + '.\n'
    u = '\n'.join(words + words)
    yield 'context $t\n/ {unique(t)}.\n', {'t': u}, lambda r: r[0] == 'ok' and r[1].split() == (words[:-1] + [words[-1] + '.'] if n else ['.'])
    for k in (n, n + 1, n + 2, n + 3, max(n - 1, 0)):
        yield 'context $t\n| {crop(t, %d)}\n' % k, {'t': 'x' * n}, lambda r, k = k: k < 4 or r[0] == 'ok' and (r[1] == 'x' * n + '\n' if n <= k else len(r[1].rstrip('\n')) <= k)
@family('C18', [n for n in MID if n])
def long_cycles(n):
    seq = [i // 2 for i in range(n)]
    yield 'context $l\nfor a, b in changes(l)\n  | $a $b\n', {'l': seq}, ''.join('%d %s\n' % (a, i % 2 == 0) for i, a in enumerate(seq))
    for m in {1, 2, n}:
        yield "context $l, $m\nfor a, b in cycle(l, m)\n  | $a $b\n", {'l': seq, 'm': list(range(m))}, ''.join('%d %d\n' % (a, i % m) for i, a in enumerate(seq))
    yield 'context $l\nfor t in cycle(%s)\n  | {t}\n' % ', '.join(['l'] * min(n, 60)), {'l': seq[:3]}, ''.join('%s\n' % (t,) for t in zip(*[seq[:3]] * min(n, 60)))

# ----- C19
def backend(dirs):
    from hypertag.django.backend import Hypertag
    return Hypertag({'NAME': 'ladder', 'DIRS': dirs, 'APP_DIRS': False, 'OPTIONS': {}})
@family('C19', [n for n in MID if n] + [500, 512, 1000, 1025])
def many_templates(n):
    d = tempfile.mkdtemp(prefix = 'mc-ladder-')
    try:
        for i in range(n):
            with open(d + '/t%d.hy' % i, 'w') as f: f.write('context $x\np | %d $x\n' % i)
        eng = backend([d])
        for r in range(2):
            for i in range(n):
                check(str(eng.get_template('t%d.hy' % i).render({'x': i + r})) == '<p>%d %d</p>\n' % (i, i + r), 'template %d of %d of one engine, round %d' % (i, n, r))
                check(str(eng.from_string('context $x\ni | %d $x\n' % i).render({'x': r})) == '<i>%d %d</i>\n' % (i, r), 'string template %d of %d of one engine, round %d' % (i, n, r))
        ts = [eng.get_template('t%d.hy' % i) for i in range(n)]
        for i in reversed(range(n)): check(str(ts[i].render({'x': -i})) == '<p>%d %d</p>\n' % (i, -i), 'template %d of %d kept templates' % (i, n))
        for i in range(n): check(str(ts[n // 2].render({'x': i})) == '<p>%d %d</p>\n' % (n // 2, i), 'render %d of one template' % i)
    finally: shutil.rmtree(d)
    yield None
@family('C19', [n for n in SMALL if n])
def many_folders(n):
    from django.template import TemplateDoesNotExist
    d = tempfile.mkdtemp(prefix = 'mc-ladder-')
    try:
        dirs = ['%s/d%d' % (d, i) for i in range(n)]
        for i, x in enumerate(dirs):
            os.mkdir(x)
            for j in range(i + 1):                  # tJ stands in all folders from J on
                with open(x + '/t%d.hy' % j, 'w') as f: f.write('| folder %d\n' % i)
        for ds in (dirs, dirs[::-1]):
            eng = backend(ds)
            for j in range(n): check(str(eng.get_template('t%d.hy' % j).render()) == '| folder %d\n'[2:] % next(i for i in (range(n) if ds is dirs else reversed(range(n))) if i >= j), 'lookup of t%d in %d folders' % (j, n))
            try: eng.get_template('t%d.hy' % n)
            except TemplateDoesNotExist: pass
            else: raise Violation('a missing template was found', key = 'missing')
    finally: shutil.rmtree(d)
    yield None
@family('C19', LARGE)
def many_context_variables(n):
    ctx = {'x%d' % i: i for i in range(n)}
    t = backend([]).from_string(''.join('context $x%d\n' % i for i in range(n)) + '| ' + ' '.join('$x%d' % i for i in range(n)) + '.\n')
    check(str(t.render(ctx)) == ' '.join(map(str, range(n))) + '.\n' and ctx == {'x%d' % i: i for i in range(n)}, '%d variables of the context' % n)
    yield None

# ----- C20
@family('C20', MID + [500, 512, 1000, 1001])
def error_on_line(n):
    for pre in ('p | x\n', '\n', '-- c\n', 'div\n  | a\n    b\n'):
        k = pre.count('\n')
        if n * k > 1100: continue
        for bad in ('p (\n', '| $undefined_\n', 'undefined_tag\n', '%h a\n  | x\nh 1 2\n'):
            for post in ('', 'p | y\n'):
                want = n * k + bad.count('\n')
                def ok(r, want = want, bad = bad): return r[0] == 'err' and line_of(r[1]) == want
                yield pre * n + bad + post, {}, ('ex', ok)
def line_of(ex):
    m = re.search(r'line (\d+)', str(ex))
    return int(m.group(1)) if m else None

# ----- C21
@family('C21', LARGE)
def many_evaluations(n):
    for shape in ('text', 'attr', 'args', 'blocks', 'list', 'concat'):
        log = []
        def f(i, *_): log.append(i); return i
        if shape == 'text': src = '| ' + ''.join('{f(%d)},' % i for i in range(n)) + '.\n'
        elif shape == 'attr': src = 'p ' + ' '.join('a%d={f(%d)}' % (i, i) for i in range(n)) + '\n'
        elif shape == 'args': src = '$ f(%s)\n' % ', '.join(['-1'] + ['f(%d)' % i for i in range(n)])
        elif shape == 'blocks': src = ''.join('$x = f(%d)\n' % i if i % 3 == 0 else 'p x={f(%d)}\n' % i if i % 3 == 1 else '| {f(%d)}\n' % i for i in range(n)) + '| .\n'
        elif shape == 'list': src = '$x = [%s]\n| .\n' % ', '.join('f(%d)' % i for i in range(n))
        else: src = "| {'' %s}.\n" % ' '.join('f(%d)' % i for i in range(n))
        got = hy.render('context $f\n' + src, f = f)
        want = list(range(n)) + ([-1] if shape == 'args' else [])
        check(got[0] == 'ok' and log == want, 'evaluations of %d expressions (%s): %r, %r' % (n, shape, got[0], log[:50]))
    yield None

# ----- C22
@family('C22', LARGE)
def custom_tag_sizes(n):
    yield ('context %rec\nrec ' + ' '.join(map(str, range(n))) + ' ' + ' '.join('k%d=%d' % (i, i) for i in range(n)) + ' | x\n', {'__tags__': {'rec': Rec()}}, '[x|%r|%r]\n' % (list(range(n)), [('k%d' % i, i) for i in range(n)]))
    yield ('context %rec\nrec\n' + '  p | x\n' * n, {'__tags__': {'rec': Rec()}}, lambda r: r[0] == 'ok' and re.sub(r'\s|\\n', '', r[1]) == '[%s|[]|[]]' % ('<p>x</p>' * n))
    yield ('context %rec\n' + ''.join('rec %d | y\n' % i for i in range(n)), {'__tags__': {'rec': Rec()}}, ''.join('[y|[%d]|[]]\n' % i for i in range(n)))
@family('C22', NEST)
def nested_custom_tags(n): yield ('context %rec\n' + ''.join('  ' * i + 'rec %d\n' % i for i in range(n)) + '  ' * n + '| x\n', {'__tags__': {'rec': Rec()}}, lambda r: r[0] == 'ok' and re.sub(r'\s', '', r[1]) == '[' * n + 'x' + ''.join('|[%d]|[]]' % i for i in reversed(range(n))))

# ----- C23
@family('C23', LARGE)
def large_literals(n):
    for lit in ('[%s]' % ', '.join(map(str, range(n))), '(%s)' % ''.join('%d, ' % i for i in range(n)), '{%s}' % ', '.join('%d: %d' % (i, -i) if 0 else '%d: "%d"' % (i, i) for i in range(n)),
                "'%s'" % ('\\n' * n), '"%s"' % ('\\x41' * n), '"%s"' % ('a' * n), "r'%s'" % ('\\n' * n), '1' * (n + 1), '0.' + '3' * (n + 1), '1' + '0' * (n % 300) + '.5'):
        box = []
        def f(v): box.append(v); return ''
        got = hy.render('context $f\n$v = %s\n$ f(v)\n| x\n' % lit, f = f)
        want = eval(lit)
        check(got == ('ok', 'x\n') and type(box[0]) is type(want) and box[0] == want, 'a literal of size %d: %r ... gives %r' % (n, lit[:60], got if got[0] != 'ok' else repr(box[0])[:80]))
    yield None
@family('C23', [n for n in MID if n])
def large_unpacking(n):
    t = ', '.join('x%d' % i for i in range(n)) + (',' if n == 1 else '')
    use = '| ' + ' '.join('$x%d' % i for i in range(n)) + '\n'
    yield 'context $l\n$%s = l\n' % t + use, {'l': list(range(n))}, ' '.join(map(str, range(n))) + '\n'
    yield 'context $l\n$%s = l\n' % t + use, {'l': list(range(n + 1))}, ('err', 'Value')
    yield 'context $l\n$%s = l\n' % t + use, {'l': list(range(n - 1))}, ('err', 'Value')
    yield '$v = 0\n' + '$v += 1\n' * n + '| $v\n', {}, '%d\n' % n
    yield '$v = 1\n' + '$v *= 2\n' * n + '| $v\n', {}, '%d\n' % 2 ** n
    if n < 61: yield '$v = %s1%s\n| {v%s}\n' % ('[' * n, ']' * n, '[0]' * n), {}, '1\n'

# -----
def run(case, cov):
    _, prop, name, n = case
    if signal.getitimer(signal.ITIMER_REAL)[0]: signal.setitimer(signal.ITIMER_REAL, 400)       # large sizes take longer than usual cases
    f = next(f for nm, _, f in FAMILIES[prop] if nm == name)
    for item in f(n):
        cov.execs += 1
        cov.step(n + 1)
        cov.state((name, n))
        if item is None: continue
        src, values, want = item
        if isinstance(want, tuple) and want[0] == 'ex':
            got = hy.render_ex(src, **values)
            ok = want[1](got)
        else:
            got = hy.render(src, **values)
            ok = want(got) if callable(want) else got == (want if isinstance(want, tuple) else ('ok', want))
        if not ok:
            raise Violation('%s, size %d: expected %s, got %s for\n%s' % (name, n, 'another result' if callable(want) or isinstance(want, tuple) and callable(want[1]) else repr(want)[:400], repr(got)[:400], src[:600]), key = 'ladder %s %d' % (name, n))

class Laddered:
    """A check module extended by the ladders of its property."""
    def __init__(self, module): self.__dict__['_m'] = module
    def __getattr__(self, a): return getattr(self._m, a)
    def spaces(self, tier):
        def it(sizes, name):
            return lambda: (('#', self._m.ID, name, n) for n in sizes)
        return list(self._m.spaces(tier)) + [('sizes: ' + name, it(sizes, name)) for name, sizes, _ in FAMILIES.get(self._m.ID, [])]
    def run(self, case, cov):
        if isinstance(case, tuple) and case and case[0] == '#': return run(case, cov)
        return self._m.run(case, cov)
def attach(module): return Laddered(module) if module.ID in FAMILIES else module
