"""C16: every character of text reaches the output unchanged."""
import itertools, sys
from mc import hy, lang, util
from mc.lang import *
from mc.core import Violation
from mc.util import compare
from hypertag import HyperHTML
from fractions import Fraction
from decimal import Decimal

ID = 'C16'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of all Unicode code points in all textual positions, and of all short strings of blanks, special characters and escape pairs, literal and embedded, executed on the real runtime'
NOTE = ('embedded values whose texts are equal, differ by type or change with every conversion, in up to 3 positions of one document; each of the 63488+2048 code points of the BMP at the start, in the middle and at the end of the text in 17 literal positions, the 1048576 others in dense lines of 64; all 1114112 as embedded values in 8 positions; '
        'all strings of up to 6 pieces over escape pairs and embeddings; all values of up to 5 characters over blanks and line separators')
RULE = 'code points x positions; sequences of escape pairs and embeddings x text styles; strings of blanks x positions; scripts that contain whole ranges of characters'
ASSUMPTIONS = ['the newline is the only line break of a script; trailing blanks (space, tab, CR, FF, VT) of a line are stripped', 'a line that consists of white space only is a blank line']
CASE_SECONDS = 120

TRAIL = ' \t\r\f\v'
rt = hy.runtime

def esc1(c): return {'$': '$$', '{': '{{', '}': '}}'}.get(c, c)
def hesc(s): return html_escape(s)

# literal positions: list of (source line, expected line) for a text line made of characters; s = text with the characters, raw and as written in the script
def both(cs):
    """start, middle and end"""
    return cs + 'x' + cs + 'y' + cs
def lead_ok(s): return s[:1] not in ' \t' and s[-1:] not in TRAIL

def P_text(style, pre = ''):
    def f(s):
        w = ''.join(map(esc1, s)) if style != '!' else s
        return pre + style + ' ' + w, [hesc(s) if style == '|' else s]
    return f
def P_tag(style):
    def f(s):
        l, e = P_text(style)(s)
        return 'p ' + l, ['<p>%s</p>' % e[0]]
    return f
def P_tail(style):
    def f(s):
        w = ''.join(map(esc1, s)) if style != '!' else s
        e = hesc(s) if style == '|' else s
        return '%s\n    a\n    %s\n  %s' % (style, w, w), ['', '    a', '    ' + e, '  ' + e] if False else ['', '  a', '  ' + e, e]
    return f
def P_nest(s):
    w = ''.join(map(esc1, s))
    return 'div\n  p\n    | %s\n  | %s' % (w, w), ['<div>', '  <p>', '    ' + hesc(s), '  </p>', '  ' + hesc(s), '</div>']
def P_str(q, r = ''):
    def f(s):
        if q in s or r and ('\\' in s) and False: return None
        if r: w = s
        else:
            if '\\' in s: return None
            w = ''.join(map(esc1, s))
        return '| {%s%s%s%s}' % (r, q, w, q), [hesc(s)]
    return f
def P_attr(s):
    if '"' in s or '\\' in s: return None
    return 'p a="%s" | t' % ''.join(map(esc1, s)), ['<p%s>t</p>' % attr_text('a', s)]
def P_attr2(s):
    if "'" in s or '\\' in s: return None
    return "br b='%s'" % ''.join(map(esc1, s)), ['<br%s />' % attr_text('b', s)]
def P_comm(s): return '-- %s\np -- %s\n# %s\n| end' % (s, s, s), ['<p></p>', 'end']
def P_comm2(s): return '--%s\n  %s\np | a' % (s, s), ['<p>a</p>']
def P_head(s):
    w = ''.join(map(esc1, s))
    return 'p: | %s\n  | %s' % (w, w), ['<p>%s' % hesc(s), '  %s</p>' % hesc(s)]
def P_assign(s):
    if "'" in s or '\\' in s: return None
    return "$v = ['%s']\n| {v[0]}\n/ $v[0]" % ''.join(map(esc1, s)), [hesc(s), s]
def P_hyper(s):
    if "'" in s or '\\' in s: return None
    w = ''.join(map(esc1, s))
    return "%%h @b x='%s'\n  | $x\n  @b\nh | %s\nh '%s'" % (w, w, w), [hesc(s) + ('' if True else ''), None]
LIT = {'|': P_text('|'), '/': P_text('/'), '!': P_text('!'), 'p|': P_tag('|'), 'p!': P_tag('!'), 'tail|': P_tail('|'), 'tail!': P_tail('!'), 'nest': P_nest, "'": P_str("'"), '"': P_str('"'), "r'": P_str("'", 'r'), 'r"': P_str('"', 'r'),
       'attr': P_attr, 'attr2': P_attr2, 'comm': P_comm, 'comm2': P_comm2, 'head': P_head, 'assign': P_assign}
FEW = ['|', '!', 'tail|', 'nest', "'", 'attr', 'comm']

def space_bmp(n, positions, lo, hi):
    def it():
        for pos in positions:
            for a in range(lo, hi, n): yield ('lit', (pos, a, min(a + n, hi)))
    return it
def space_dense(n, positions):
    def it():
        for pos in positions:
            for a in range(0x10000, 0x110000, n): yield ('dense', (pos, a, a + n))
    return it

def lit(pos, strings, cov, label):
    f = LIT[pos]
    src, exp = [], []
    for s in strings:
        if not lead_ok(s): continue
        r = f(s)
        if r is None: continue
        src.append(r[0])
        exp += r[1]
    if not src: return
    text = '\n'.join(src) + '\n'
    want = '\n'.join(exp) + '\n'
    got = hy.render(text)
    cov.execs += len(src)
    cov.step(len(src))
    cov.state((pos, label))
    if got == ('ok', want): return
    if len(strings) > 1:
        for s in strings: lit(pos, [s], cov, label)
    cs = ' '.join('U+%04X' % ord(c) for c in strings[0][:4])
    raise Violation('text with %s (%s) in position %s: expected %r, got %r for the script:\n%r' % (cs, label, pos, util.show(want), util.show(repr(got)), util.show(text)), key = '%s %s' % (pos, cs))

# ---- embedded values
VALUE = {
    '|': ("for v in L\n  | {v}\n", lambda s: [hesc(s)]), '$': ("for v in L\n  | a$v b\n", lambda s: ['a' + hesc(s) + ' b']), '/': ("for v in L\n  / x{v}y\n", lambda s: ['x' + s + 'y']), 'attr': ("for v in L\n  p a=$v b='-{v}-' | {v}.\n", lambda s: ['<p%s%s>%s.</p>' % (attr_text('a', s), attr_text('b', '-' + s + '-'), hesc(s))]),
    'nest': ("for v in L\n  div\n    p\n      | {v}\n", lambda s: ['<div>', '  <p>'] + ['    ' + l if l else l for l in hesc(s).split('\n')] + ['  </p>', '</div>']),
    'h': ("%h @b x\n  | {x}.\n  @b\nfor v in L\n  h $v\n    i | $v\n", lambda s: [hesc(s) + '.', '<i>%s</i>' % hesc(s)]), 'call': ("%h x\n  / {x}.\nfor v in L\n  / {%h(x = v)}-\n", lambda s: [s + '.-']), 'tail': ("for v in L\n  |\n    a\n      {v}.\n", lambda s: ['', 'a'] + [l for l in ('  ' + hesc(s) + '.').split('\n')]),
}
def space_values(n):
    def it():
        for pos in VALUE:
            for a in range(0, 0x110000, n): yield ('value', (pos, a, a + n))
    return it

TEXTS = dict({k: VALUE[k] for k in ('|', '$', '/', 'nest', 'call', 'tail')}, cat = ("for v in L\n  | {'-' v}\n", lambda s: ['-' + hesc(s)]), fmt = ("for v in L\n  $w = '={v}'\n  | $w\n", lambda s: ['=' + hesc(s)]),
             quot = ("for v in L\n  p a='{v}' | t\n", lambda s: ['<p%s>t</p>' % attr_text('a', s)]), short = ("for v in L\n  p .{'c' v}\n", lambda s: ['<p%s></p>' % attr_text('class', 'c' + s)]),
             once = ("%h @b x\n  @b\n  / {x}\nfor v in L\n  h $v\n", lambda s: [s]), asg = ("for v in L\n  $w = v\n  $u = (w, 1)\n  | {u[0]}\n", lambda s: [hesc(s)]))
def texts(pos, vals, exp, cov):
    src, f = TEXTS[pos]
    got = hy.render('context $L\n' + src, L = vals)
    want = '\n'.join(sum([f(t) for t in exp], [])) + '\n'
    cov.execs += 1
    cov.step(len(vals))
    cov.state((pos, want))
    if got != ('ok', want): raise Violation('embedded values %r in position %s: expected %r, got %r for the script:\n%s' % (vals, pos, want, got, src), key = 'texts %s %r' % (pos, exp))

def value(pos, vals, cov):
    src, f = VALUE[pos]
    got = hy.render('context $L\n' + src, L = vals)
    exp = []
    for v in vals: exp += f(v)
    want = '\n'.join(exp) + '\n'
    cov.execs += len(vals)
    cov.step(len(vals))
    cov.state((pos, vals[0]))
    if got == ('ok', want): return
    if len(vals) > 1:
        h = len(vals) // 2
        value(pos, vals[:h], cov)
        value(pos, vals[h:], cov)
    raise Violation('embedded value %r in position %s: expected %r, got %r for the script:\n%s' % (vals[0][:60], pos, util.show(want), util.show(repr(got)), src), key = 'value %s %r' % (pos, vals[0][:60]))

# ---- values that are equal, or the same, but have other texts
class S2(str):
    def __str__(self): return 'S2:' + self[:]
class Eq:
    def __init__(self, text): self.text = text
    def __eq__(self, other): return isinstance(other, Eq)
    def __hash__(self): return 1
    def __str__(self): return self.text
class Count:
    def __init__(self): self.n = 0
    def __str__(self):
        self.n += 1
        return 'count %d' % self.n
GROUPS = [[1, True, 1.0, Fraction(1), Decimal(1), Decimal('1.0'), 1 + 0j], [0, False, 0.0, -0.0, Decimal(0)], ['a', S2('a'), 'a '], [(1,), (True,), (1.0,)], [frozenset([1]), frozenset([True])], [Eq('e1'), Eq('e2'), Eq('e<3')],
          [2 ** 70, float(2 ** 70), 2 ** 70 + 1], [[1], [True], [1.0]], [{1: 1}, {True: 1.0}], ['', 0, False, ()], ['1', 1, True], [float('nan'), 'nan', float('inf'), -float('inf')]]
def space_equal(n):
    def it():
        for pos in TEXTS:
            for g in range(len(GROUPS)):
                for k in range(1, n + 1): yield ('equal', (pos, g, k))
            for k in range(1, 5): yield ('count', (pos, k))
    return it

# ---- escape pairs
PIECES = ['{{', '}}', '$$', '{x}', '$x', 'a', ' ', '{ x }', '|']
MEAN = {'{{': '{', '}}': '}', '$$': '$', '{x}': '5', '$x': '5', '{ x }': '5'}
def space_pairs(n, pieces):
    def it():
        for k in range(1, n + 1):
            for t in itertools.product(pieces, repeat = max(0, k - 1)): yield ('pairs', (t, pieces))
    return it
def pairs(t, pieces, cov):
    rows = []
    for last in pieces:
        r = t + (last,)
        if any(r[i] == '$x' and r[i+1][0] in 'a' for i in range(len(r) - 1)): continue
        rows.append(r)
    src, exp = ['context $x'], []
    for r in rows:
        w = ''.join(r)
        m = ''.join(MEAN.get(p, p) for p in r)
        raw = ''.join(r)
        body, mean = w.strip(' '), m.strip(' ')
        if not body: continue
        src += ['| .' + w + '.', '/ ' + body, '! .' + w + '.', 'p | ' + body, "| {'%s'}." % w, 'p a="%s"' % w, "i : b | -%s-" % w, '|', '  ' + body]
        exp += ['.' + m + '.', mean, '.' + raw + '.', '<p>' + mean + '</p>', m + '.', '<p%s></p>' % attr_text('a', m), '<i><b>-%s-</b></i>' % m, '', mean]
    if not exp: return
    got = hy.render('\n'.join(src) + '\n', x = 5)
    want = '\n'.join(exp) + '\n'
    cov.execs += len(src) - 1
    cov.step(len(rows))
    cov.state(t)
    if got != ('ok', want):
        if got[0] == 'ok':
            for a, b in itertools.zip_longest(want.split('\n'), got[1].split('\n')):
                if a != b: raise Violation('escape pairs: expected line %r, got %r for the script:\n%s' % (a, b, '\n'.join(src)), key = repr(t))
        raise Violation('escape pairs: %r for the script:\n%s' % (got, '\n'.join(src)), key = repr(t))

# ---- blanks
BLANKS = [' ', '\t', 'a', '\xa0', '  ']
VBL = [' ', '\t', '\n', 'a', '\r', '\x0b', '\u2028', '\x85', '<']
BPOS = {
    'mid': lambda e: [Text(['x', e, 'y'])], 'start': lambda e: [Text([e, 'y'])], 'end': lambda e: [Text(['x', e])], 'alone': lambda e: [Text([e])], 'p': lambda e: [Struct('p', [Text(['x', e, 'y']), Text([e])])], 'pin': lambda e: [Struct('p', inline = Text([e, 'z']))], 'deep': lambda e: [Struct('div', [Struct('p', [Text('t', tail = [('  ', ['x', e]), ('    ', [e, 'y'])])], ind = '    ')])],
    'head': lambda e: [Struct('p', [Text(['q'])], head = Text(['h', e, 'h']))], 'if': lambda e: [If([Branch('1', [Text(['x', e, 'y'])])])], 'tail': lambda e: [Text(None, tail = [('    ', ['x', e, 'y']), None, ('  ', [e, '.'])])], 'body': lambda e: [Def('h', [], 'b', [Struct('i', [Embed('b')])]), Struct('h', [Text(['x', e, 'y'])])],
    'attr': lambda e: [Struct(T('p', K('a', 'v')), inline = Text(['x', e, 'y']))], 'defattr': lambda e: [Def('h', ['q'], None, [Text(['-', Emb('q'), '-'])]), Struct(T('h', Pos('v')))], 'lit2': lambda e: [Struct('p', [Text([e, '   ', e, '  -'], '/')])],
}
def space_blanks(n, m):
    def it():
        for k in range(1, n + 1):
            for t in itertools.product(BLANKS, repeat = k): yield ('blanks', ''.join(t))
        for k in range(0, m + 1):
            for pos in BPOS:
                for t in itertools.product(VBL, repeat = max(0, k - 2)): yield ('vblanks', (pos, t, k))
    return it

# ---- ranges
def space_ranges(full):
    def it():
        for size in ([16, 64, 256, 1024] if full else [64, 1024]):
            for a in range(0x2600, 0x2900, size): yield ('range', (a, a + size))
        for a, b in [(0x21, 0x3000), (0x2700, 0x2800), (0xe000, 0xf900), (0x21, 0xd800), (0x21, 0x10000), (0x2768, 0x276c), (0x2760, 0x2768), (0x2768, 0x2769), (0x276b, 0x276c), (0x276c, 0x2800), (0xd800, 0xe000), (0x10000, 0x20000)]: yield ('range', (a, b))
        for a in range(0x2766, 0x2770):
            for b in range(0x2766, 0x2770): yield ('two', (a, b))
    return it

def spaces(tier):
    q = tier == 'quick'
    return [('BMP characters x literal positions', space_bmp(128, ['|', 'tail|', "'", 'attr'] if q else list(LIT), 0, 0x10000)), ('characters up to U+2800 x all literal positions', space_bmp(128, [p for p in LIT if p not in ('|', 'tail|', "'", 'attr')], 0, 0x2800)),
            ('special areas x all literal positions', space_bmp(128, [p for p in LIT if p not in ('|', 'tail|', "'", 'attr')], 0xd780, 0xe100)), ('the end of the BMP x all literal positions', space_bmp(128, [p for p in LIT if p not in ('|', 'tail|', "'", 'attr')], 0xf880, 0x10000)),
            ('other characters in dense lines', space_dense(4096, ['|', '!', 'tail|', "'", 'attr'] if q else list(LIT))), ('embedded characters', space_values(2048)), ('values with equal or changing texts', space_equal(3 if q else 4)), ('escape pairs and embeddings', space_pairs(4 if q else 6, PIECES if q else PIECES[:7])),
            ('blanks', space_blanks(3 if q else 5, 4 if q else 5)), ('scripts with whole ranges of characters', space_ranges(not q))] + ([] if q else [('other characters one by one', space_bmp(256, ['|', 'nest', "'"], 0x10000, 0x110000))])

def run(case, cov):
    kind, c = case
    if kind == 'lit':
        pos, a, b = c
        chars = [chr(i) for i in range(a, b) if chr(i) != '\n']
        lit(pos, [both(ch) for ch in chars if ch not in TRAIL], cov, a)
        lit(pos, ['x' + ch + 'y' for ch in chars], cov, a)
        if pos in FEW or pos == '|': lit(pos, [ch for ch in chars if not ch.isspace() and ch.strip()], cov, a)
    elif kind == 'dense':
        pos, a, b = c
        lit(pos, [''.join(map(chr, range(i, i + 64))) for i in range(a, b, 64)], cov, a)
    elif kind == 'value':
        pos, a, b = c
        chars = [chr(i) for i in range(a, b) if chr(i) != '\n']
        if a >= 0x10000: chars = [''.join(chars[i:i + 16]) for i in range(0, len(chars), 16)]
        value(pos, chars, cov)
        if a < 0x10000: value(pos, [both(ch) for ch in chars], cov)
    elif kind == 'equal':
        pos, g, k = c
        for vals in itertools.product(GROUPS[g], repeat = k): texts(pos, list(vals), [str(v) for v in vals], cov)
    elif kind == 'count':
        pos, k = c
        texts(pos, [Count()] * k, ['count %d' % (i + 1) for i in range(k)], cov)
    elif kind == 'pairs': pairs(c[0], c[1], cov)
    elif kind == 'blanks':
        s = c
        for pos in LIT: lit(pos, ['x' + s + 'y'], cov, s) if not (pos[:4] in ('tail', 'nest') and False) else None
    elif kind == 'vblanks':
        pos, t, k = c
        if k == 0: tails = ['']
        elif k == 1: tails = VBL
        else: tails = [a + b for a in VBL for b in VBL]
        vals = [''.join(t) + x for x in tails]
        for i in range(0, len(vals), 27):
            blocks = []
            part = vals[i:i + 27]
            pre = []
            inner = BPOS[pos](Emb('v'))
            defs = [b for b in inner if isinstance(b, Def)]
            inner = [b for b in inner if not isinstance(b, Def)]
            blocks = [Context('$L')] + defs + [For('v', 'L', inner)]
            compare(blocks, cov, ctx = {'$L': part}, what = 'embedded blanks')
    elif kind == 'range':
        a, b = c
        s = ''.join(chr(i) for i in range(a, b))
        safe = ''.join(ch for ch in s if not ch.isspace())
        if not lead_ok(safe): return
        for pos in ('|', 'nest') if b - a > 3000 else ('|', '!', 'tail|', 'nest', 'comm', 'p|') + (("'", 'attr') if a > 128 else ()): lit(pos, [safe], cov, c)
    elif kind == 'two':
        for s in (chr(c[0]) + 'x' + chr(c[1]), chr(c[0]) * 2 + chr(c[1])):
            for pos in LIT: lit(pos, [s], cov, c)

def prepare(tier):
    util.warm(sys.modules[__name__], tier, 5, 50)
