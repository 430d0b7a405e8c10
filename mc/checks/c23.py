"""C23: literals and assignments mean the same as in Python."""
import itertools, re, sys
from mc import hy, util
from mc.core import Violation
from hypertag import Tag

ID = 'C23'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive exploration of all literals over bounded lexical alphabets and of all assignment patterns against all bounded value shapes, executed on the real code; oracle: the Python interpreter evaluating the same literal or assignment'
NOTE = ('all strings of up to 4 (5) of 39 tokens (escapes, embeddings, quotes) in both quotings and of 2 tokens in 17 positions; every character; every escape sequence in every spelling; raw strings of up to 4 of 20 tokens; all numerals of up to 5 (6) of 9 characters; '
        'collections of depth 2 with all separators; all target patterns of up to 4 variables against 60 kinds of values in assignments and loops; 11 in-place operators on 40x40 operands of all types; literals of mutable objects evaluate to a new object at every execution')
RULE = 'literal x quoting x position; target pattern x value; operator x left operand x right operand x form'
ASSUMPTIONS = ['literals that Python rejects are left out', 'strings that contain an escape sequence by name \\N{...}, whose braces are an embedding in Hypertag, are left out',
               'Python literals outside of the documented syntax (hexadecimal, imaginary, bytes, triple quotes, unary plus, comprehensions) may be syntax errors but may not evaluate to another value']

def bad(key, what, *a): raise Violation(what % a, key = key)

LOG = []
class Rec(Tag):
    """Records the values of its attributes."""
    name = 'rec'
    pure = False
    def expand(self, body, attrs, kwattrs):
        LOG.append((list(attrs), dict(kwattrs), body.render()))
        return 'R'
REC = Rec()

def deep(x):
    """Canonical form that tells types apart: 1, 1.0 and True; also -0.0 and nan."""
    if isinstance(x, list): return ['l'] + [deep(i) for i in x]
    if isinstance(x, tuple): return ['t'] + [deep(i) for i in x]
    if isinstance(x, dict): return ['d'] + [[deep(k), deep(v)] for k, v in x.items()]
    if isinstance(x, (set, frozenset)): return [type(x).__name__] + sorted(deep(i) for i in x) if len({type(i) for i in x}) < 2 else [type(x).__name__] + sorted([deep(i) for i in x], key = repr)
    return [type(x).__name__, repr(x)]

def values(exprs, ctx, cov, head = '$v%d = %s\n'):
    """Values of expressions assigned to variables -> list, or None if the script fails."""
    del LOG[:]
    src = 'context %rec' + ''.join(', $' + k for k in sorted(ctx)) + '\n' + ''.join(head % (i, e) for i, e in enumerate(exprs)) + 'rec ' + ' '.join('$v%d' % i for i in range(len(exprs))) + '\n'
    try: got = hy.runtime().render(src, **dict(ctx, __tags__ = {'rec': REC}))
    except Exception as ex: return src, ex
    cov.execs += len(exprs)
    cov.sample(src)
    if got != 'R\n' or len(LOG) != 1: return src, Violation('rendered %r' % got)
    return src, LOG[0][0]

def compare(exprs, want, ctx, cov, what):
    """All expressions must have the wanted values."""
    src, vals = values(exprs, ctx, cov)
    cov.step(len(exprs))
    if isinstance(vals, Exception) and len(exprs) > 1:
        for e, w in zip(exprs, want): compare([e], [w], ctx, cov, what)
        bad('together ' + src, '%s: each literal is accepted alone, but not together: %r', what, vals)
    if isinstance(vals, Exception): bad('%s %s' % (what, exprs[0]), '%s: %s should be %r, but fails: %r', what, exprs[0], want[0], vals)
    for e, w, v in zip(exprs, want, vals):
        cov.state((what, e))
        if deep(v) != deep(w): bad('%s %s' % (what, e), '%s: %s should be %r, is %r', what, e, w, v)

def chunks(it, n):
    cur = []
    for x in it:
        cur.append(x)
        if len(cur) == n:
            yield cur
            cur = []
    if cur: yield cur

# ----- 1. formatted strings
CTX = {'v': 'V<', 'n': 3, 'd': {'k': 'K', 'l': [7, 8]}, 'f': lambda *a: 'F%r' % (a,)}
# token -> Python f-string token
TOK = {'a': 'a', ' ': ' ', '\\n': '\\n', '\\\\': '\\\\', '\\x41': '\\x41', '\\u0105': '\\u0105', '\\U0001F600': '\\U0001F600', '\\101': '\\101', '\\7': '\\7', '\\q': '\\q', '\\8': '\\8', '\\t': '\\t', 'n': 'n', 'x41': 'x41', '0': '0', '{{': '{{', '}}': '}}',
       '$$': '$', '{v}': '{v}', '$v': '{v}', '{ n }': '{n}', '{n + 1}': '{n + 1}', '#': '#', '--': '--', '%': '%', '|': '|', '/': '/', '!': '!', '@': '@', ':': ':', '\u00e9': '\u00e9', '\u6f22': '\u6f22', '\U0001F601': '\U0001F601', '\t': '\t', '<': '<',
       '\\r': '\\r', '\\0': '\\0', "\\'": "\\'", '\\"': '\\"', "'": "'", '"': '"', "{d['k']}": "{D['k']}", '{"q"}': '{q}', '$d.k': None}
del TOK['$d.k']
TOKENS = [t for t in TOK]
SHORT = ['a', '\\n', '\\\\', '\\x41', '\\7', '\\q', '{{', '}}', '$$', '{v}', '$v', '0', ' ', '\u6f22', "'", 'n']
TINY = ['a', '\\n', '\\\\', '{{', '$$', '{v}', '\\', '1', '$v', 'x']
OTHER = {"'": '"', '"': "'"}
class _K(dict):
    def __missing__(self, k): return CTX['d'][k]
PYNS = dict(CTX, D = CTX['d'], q = 'q')

def string_cases(n, tokens):
    for k in range(n + 1):
        for seq in itertools.product(tokens, repeat = k):
            for q in '\'"':
                if any(q in t for t in seq if t not in ("{d['k']}", '{"q"}')): continue            # the quote itself cannot be written
                if any(t in ("{d['k']}", '{"q"}') and q in t for t in seq): continue
                txt = ''.join(seq)
                if any(a == '$v' and (b[0].isalnum() or b[0] in '_?![.(' or ord(b[0]) > 127 and b[0].isidentifier()) for a, b in zip(seq, seq[1:])): continue       # the name or its tail continues
                if any(a == '{v}' and b[0] in '?!' for a, b in zip(seq, seq[1:])): continue           # a qualifier
                if any(a == '{n + 1}' and b[0] in '?!' or a == '{ n }' and b[0] in '?!' or a in ("{d['k']}", '{"q"}') and b[0] in '?!' for a, b in zip(seq, seq[1:])): continue
                py = ''.join(TOK.get(t, t) for t in seq)
                if ambiguous(seq): continue
                try: want = eval('f' + q + py + q, {}, PYNS)
                except (SyntaxError, ValueError): continue
                yield q + txt + q, want
def ambiguous(seq):
    """Braces or dollars of neighbour tokens would join in another way."""
    for a, b in zip(seq, seq[1:]):
        if a[-1] == '{' and b[0] == '{' and (a != '{{' or b == '{{' and False): return True
        if a[-1] == '}' and b[0] == '}': return True
        if a[-1:] == '$' and b[0] == '$' and a != '$$': return True
        if a == '{{' and b[0] == '{' and b != '{{': return True
        if a[-1] == '}' and a != '}}' and b == '}}': return True
        if a == '$$' and b[0] == '{' and False: return True
    return False

POSITIONS = {
    'assign': None, 'assign2': None, 'attr': 'rec {0}\n', 'named': 'rec a={0}\n', 'braces': 'rec {{{0}}}\n', 'spaced': 'rec a = {{ {0} }}\n', 'list': '$x = [1, {0}]\nrec $x\n', 'key': '$x = {{{0} : 1}}\nrec $x\n', 'value': '$x = {{1: {0}}}\nrec $x\n',
    'tuple': '$x = {0}, {0}\nrec $x\n', 'arg': 'rec $g({0})\n', 'kwarg': 'rec $h(a={0})\n', 'default': '%h1 a={0}\n  rec $a\nh1\n', 'paren': '$x = ( {0} )\nrec $x\n', 'set': '$x = {{ {0} }}\nrec $x\n', 'eq': '$x = {0} == {0}\nrec $x\n',
    'for': 'for i in [{0}]:\n  rec $i\n', 'index': '$x = [{0}][0]\nrec $x\n', 'loop2': 'for i in {0}, {0}:\n  rec $i\n', 'comment': '$x = {0} -- "c"\nrec $x\n', 'chain': '$y = [[{0}]]\n$x = y[0][0]\nrec $x\n',
}
del POSITIONS['assign'], POSITIONS['assign2'], POSITIONS['set']
WANT = {'list': lambda w: [1, w], 'key': lambda w: {w: 1}, 'value': lambda w: {1: w}, 'tuple': lambda w: (w, w), 'eq': lambda w: True}
def run_pos(case, cov):
    pos, items = case
    for lit, want in items:
        if pos in ('set', 'key'):
            try: hash(want)
            except TypeError: continue
        if pos == 'eq' and want != want: continue
        del LOG[:]
        src = 'context %rec, $g, $h' + ''.join(', $' + k for k in sorted(CTX)) + '\n' + POSITIONS[pos].format(lit)
        try: got = hy.runtime().render(src, **dict(CTX, g = lambda x: x, h = lambda a: a, __tags__ = {'rec': REC}))
        except Exception as ex: bad('%s %s' % (pos, lit), 'position %s: %s should be %r, but fails: %r in %r', pos, lit, want, ex, src)
        cov.execs += 1
        cov.step(1)
        cov.sample(src)
        cov.state((pos, lit))
        w = WANT.get(pos, lambda w: w)(want)
        exp = [([], {'a': w})] if pos in ('named', 'spaced') else [([w], {})] * (2 if pos == 'loop2' else 1)
        if deep([x[:2] for x in LOG]) != deep(exp): bad('%s %s' % (pos, lit), 'position %s: %s should be %r, recorded %r in %r', pos, lit, exp, [x[:2] for x in LOG], src)

# ----- 2. characters
SKIP = set('\n{}$\'"\\')
def char_cases(tier):
    top = 0x2100 if tier == 'quick' else 0x10ffff
    pts = list(range(1, top)) + ([c for c in range(0xd7f0, 0x10100) if c >= 0xe000 or c < 0xd800] + list(range(0x1f5f0, 0x1f620)) if tier == 'quick' else [])
    if tier == 'quick': pts += list(range(0x2100, 0xd7f0, 3))
    pts = [c for c in dict.fromkeys(pts) if not 0xd800 <= c < 0xe000 and chr(c) not in SKIP and chr(c) not in SPECIAL]
    return chunks(pts, 120)
# characters by which the parser marks indentation and line ends, not allowed in any script
SPECIAL = set('\uE001\uE002\uE003\uE004\r') | set('\uE011\uE012\uE013\uE014')
def run_chars(pts, cov):
    lits, want = [], []
    for q in '\'"':
        for p in ('', 'r'):
            lits.append(p + q + ''.join(map(chr, pts)) + q)
            want.append(''.join(map(chr, pts)))
    src, vals = values(lits, CTX, cov)
    if not isinstance(vals, Exception) and deep(vals) == deep(want):
        cov.step(len(pts))
        cov.state(pts[0])
        return
    for c in pts: compare([p + q + 'x' + chr(c) + 'y' + q for p in ('', 'r') for q in '\'"'], ['x' + chr(c) + 'y'] * 4, CTX, cov, 'character U+%04X' % c)
    bad('chars %r' % pts[0], 'characters U+%04X..U+%04X are accepted one by one, but not together', pts[0], pts[-1])

# ----- 2b. escape sequences
def escape_cases(tier):
    """Every escape sequence, in every way of writing its digits, followed by other characters."""
    q = tier == 'quick'
    def lit(s):
        for quote in '\'"':
            try: yield quote + s + quote, eval(quote + s + quote)
            except (SyntaxError, ValueError): continue           # not a string in Python
    for c in map(chr, range(0x20, 0x180)):
        if c in '{}$\'"': continue
        for tail in ('', 'a', '0', '7', ' ', '\\\\', '\\n'):
            for l in lit('\\' + c + tail): yield l
    for s in ("'\\\\\"'", '"\\\'"', "'\\\"'", '"\\\\\'"'): yield s, eval(s)
    for v in range(256):
        for f in ('%02x', '%02X'):
            for tail in ('', '0', 'A', 'g', '\\x41'):
                for l in lit('\\x' + f % v + tail): yield l
    for v in range(0o1000):
        for f in ('%o', '%02o', '%03o'):
            for tail in ('', '0', '8', 'a', '\\7'):
                for l in lit('\\' + f % v + tail): yield l
    for f in ('%04x', '%04X'):
        pts = [c for c in range(0x10000) if not 0xd800 <= c < 0xe000]
        for c in chunks(pts, 64 if q else 16):
            for l in lit(''.join('\\u' + f % x for x in c)): yield l
    for f in ('%08x', '%08X'):
        pts = [c for c in range(0, 0x110000, 17 if q else 1) if not 0xd800 <= c < 0xe000]
        for c in chunks(pts, 64):
            for l in lit(''.join('\\U' + f % x for x in c)): yield l

# ----- 3. raw strings
RAW = ['a', '\\', '\\n', '{', '}', '{{', '$', '$$', '$v', '{v}', "'", '"', ' ', '#', '--', '|', '\u6f22', '\t', '\\x41', '%']
def raw_cases(n):
    for k in range(n + 1):
        for seq in itertools.product(RAW, repeat = k):
            t = ''.join(seq)
            for q in '\'"':
                if q in t: continue
                if (len(t) - len(t.rstrip('\\'))) % 2: continue           # Python has no such literal
                yield 'r' + q + t + q, t

# ----- 4. numbers
NUMCH = '019.eE+-_'
DEC = r'(?:(?:[1-9][0-9]*|0+)(?![0-9.eE])|(?:[0-9]+\.[0-9]*|\.[0-9]+|[0-9]+(?=[eE]))(?:[eE][+-]?[0-9]+)?)'
RE_PLAIN = re.compile(r'-?%s([+-]%s)*\Z' % (DEC, DEC))
EXTRA = ['0x1F', '0XfF', '0b101', '0o17', '1_000', '1_0.5', '1j', '2.5J', '1e3j', '1_0e1_0', '0_0', '+1', '-+1', '~1', '2+-1', '1e5', '1E5', '1e+5', '1e-5', '1.5e300', '1e308', '1e309', '-1e309', '5e-324', '1e-400', '0.1', '.1e1', '1.e1',
         '123456789012345678901234567890', '-123456789012345678901234567890', '0.1234567890123456789', '9007199254740993', '9007199254740993.0', '1e22', '1e23', '100000000000000000000000.0', '0.30000000000000004', '2.220446049250313e-16', '179769313486231570000000000000e280',
         '00', '000', '00.5', '01.5', '09e1', '0e0', '0.0', '-0.0', '-0', '0e5', '1.', '.5', '5.', '10000', '65536', '4294967296', '18446744073709551616', '1e0', '1e00', '1e01', '1e-0', 'True', 'False', 'None', '...', 'b"x"', "b'x'", "u'x'", "u\"x\"", "f'x'", "R'x\\n'",
         "'''x'''", '"""x"""', "rb'x'", "br'x'", "fr'{v}'", "rf'{v}'", "F'{v}'", "U'x'", "B'x'", "Rb'x'", "''''''", "r''''''", "''", '""', "r''", 'r""', "u''", "b''", '1if n else 2', '1 .real', '1.0.real', '0xfor n', '1_', '_1', '1__0', '0b', '1e', '1e+', '.e1', '.', '1..real']
def number_cases(n):
    for k in range(1, n + 1):
        for seq in itertools.product(NUMCH, repeat = k):
            s = ''.join(seq)
            if s[0] in 'eE_+' or '--' in s: continue         # -- starts a comment
            yield s
    for s in EXTRA: yield s
def run_numbers(strs, cov):
    lits, want, opt = [], [], []
    for s in strs:
        try: v = eval(s, {}, CTX)
        except Exception: continue
        if RE_PLAIN.match(s) or s in ('True', 'False', 'None'):
            lits.append(s)
            want.append(v)
        else: opt.append((s, v))
    if lits:
        for i in range(0, len(lits), 60): compare(lits[i:i + 60], want[i:i + 60], CTX, cov, 'number')
    for s, v in opt:
        src, vals = values([s], CTX, cov)
        if isinstance(vals, Exception):
            if isinstance(vals, (SyntaxError, NameError)): continue
            bad('number ' + s, '%s fails with %r', s, vals)
        if deep(vals[0]) != deep(v): bad('number ' + s, '%s is accepted, but evaluates to %r rather than %r', s, vals[0], v)

# ----- 5. collections
ATOMS = ['1', '"a"', 'n', '2.5', 'None']
def items(xs, style):
    """styles: '1,2'  '1, 2'  '1 ,2'  '( 1 , 2 )'  with and without the trailing comma"""
    sep, pad, trail = style
    return pad + sep.join(xs) + trail + (pad if xs or trail else '')
STYLES = [(s, p, t) for s in (',', ', ', ' ,', ' , ', '\t,\t') for p in ('', ' ') for t in ('', ',', ' ,')]
def collection(kind, xs, style):
    if kind == 'list':
        if not xs and style[2]: return None
        return '[' + items(xs, style) + ']'
    if kind == 'tuple':
        if not xs and style[2]: return None
        if len(xs) == 1 and not style[2]: return None
        return '(' + items(xs, style) + ')'
    if kind == 'set':
        if not xs: return None
        return '{' + items(xs, style) + '}'
    if kind == 'dict':
        if not xs and style[2]: return None
        colon = ':' if style[1] == '' else ' : '
        keys = ['"k%d"' % i for i in range(len(xs))]
        return '{' + items([k + colon + x for k, x in zip(keys, xs)], style) + '}'
    if kind == 'idict':
        if not xs: return None
        return '{' + items([x + ': ' + x for x in xs], style) + '}'
KINDS = ['list', 'tuple', 'set', 'dict', 'idict']
def flat(style):
    for kind in KINDS:
        for k in range(4):
            for xs in itertools.product(ATOMS, repeat = k):
                c = collection(kind, xs, style)
                if c: yield c
def nested(depth, style, width = 2):
    """Collections of collections."""
    inner = ['1', '"a"'] if depth == 1 else [c for c in nested(depth - 1, style, width)] + ['1']
    for kind in KINDS:
        for k in range(width + 1):
            for xs in itertools.product(inner, repeat = k):
                c = collection(kind, xs, style)
                if c: yield c
def coll_cases(tier):
    def gen():
        for st in STYLES: yield from flat(st)
        for st in ((', ', '', ''), (',', ' ', ','), (',', '', ',')) if tier == 'quick' else STYLES: yield from nested(2, st, 2 if tier == 'quick' else 2)
        if tier != 'quick':
            yield from nested(3, (', ', '', ''), 1)
            yield from nested(2, (', ', '', ''), 3)
        for c in ['[]', '()', '{}', '[ ]', '( )', '{ }', '[[]]', '[()]', '((),)', '{():[]}', '[{}]', '{():{}}', '((1))', '((1),)', '(((1,),),)', '[[[[1]]]]', '1,', '1, 2', '1 , 2 ,', '(1,), 2', '[1], [2],', '(), ()', '1, (2, 3), [4]', '"a", "b"', '{1}, {2: 3}', '{1, 1.0, True}',
                  '{1: 2, 1: 3}', '{True: 1, 1: 2}', '{"a": 1, "b": 2, "a": 3}', '{None: None}', '{(1, 2): 3}', '[n, n]', '{n: n}', '{n}', '(n)', '(n,)', '[-1, -2]', '(-1,)', '{-1}', '{-1: -2}', '[1 if n else 2, 3]', '[not n, n]', '(n or 0, n and 0)', '{n > 2, n < 2}', '[n][0]',
                  '{"k": 1}["k"]', '(1, 2)[1]', '[1, 2][-1]', '[[1, 2], [3]][0][1]', '{1: {2: [3]}}[1][2]', "{'a': 'b'}", '["a", \'b\']', '[r"a", "b"]', "{'x': r'\\n'}", '{1:2,3:4}', '{1:2 ,3:4 , }', '{ 1 :2}', '[1,2,]', '[1,2 , ]', '[ 1]', '{1 ,}', '( 1 , )']: yield c
    return gen()
def run_colls(exprs, cov):
    lits, want = [], []
    for e in exprs:
        try: v = eval(e, {}, CTX)
        except TypeError as ex:
            src, vals = values([e], CTX, cov)
            if not isinstance(vals, TypeError): bad('coll ' + e, '%s should fail with %r, but: %r', e, ex, vals)
            continue
        lits.append(e)
        want.append(v)
    if lits: compare(lits, want, CTX, cov, 'collection')

# ----- 6. targets
def patterns(leaves, depth):
    """All target lists with exactly `leaves` variables: strings with the mark V for variables. A list is a sequence of items with optional trailing comma; an item is V or a list in parentheses."""
    for k in range(1, leaves + 1):
        for sizes in compositions(leaves, k):
            opts = []
            for s in sizes:
                o = ['V'] if s == 1 else []
                if depth > 0: o += ['(' + p + ')' for p in patterns(s, depth - 1)]
                opts.append(o)
            for parts in itertools.product(*opts):
                yield ', '.join(parts)
                if k == 1 or depth > 0 or True: yield ', '.join(parts) + ','
def compositions(n, k):
    if k == 1:
        yield (n,)
        return
    for i in range(1, n - k + 2):
        for r in compositions(n - i, k - 1): yield (i,) + r
NAMES = 'abcdefgh'
def name_pattern(p, names = NAMES):
    it = iter(names)
    return ''.join(next(it) if c == 'V' else c for c in p)
def top_ok(p):
    return True

class Seq:
    """Old-style sequence."""
    def __init__(self, n): self.n = n
    def __getitem__(self, i):
        if i >= self.n: raise IndexError(i)
        return i * 10
class It:
    """Iterable that counts steps and may fail."""
    def __init__(self, n, fail = None): self.n, self.fail, self.count = n, fail, 0
    def __iter__(self):
        for i in range(self.n):
            self.count += 1
            yield i
        self.count += 1
        if self.fail: raise self.fail
class NotIter:
    __iter__ = None
class BadIter:
    def __iter__(self): return 5
def gen(n):
    for i in range(n): yield i
def endless():
    i = 0
    while True:
        yield i
        i += 1
def nested_value(shape):
    """shape: nested tuple of kinds"""
    return shape
def VALUES():
    base = {
        '0': 0, 'None': None, 'True': True, '1.5': 1.5, "''": '', "'x'": 'x', "'xy'": 'xy', "'xyz'": 'xyz', '()': (), '(1,)': (1,), '(1,2)': (1, 2), '(1,2,3)': (1, 2, 3), '[1]': [1], '[1,2]': [1, 2], '[]': [], '{}': {}, '{1:2}': {1: 2}, '{1:2,3:4}': {1: 2, 3: 4},
        '{7}': {7}, 'frozen': frozenset([7]), 'range2': range(2), 'range3': range(3), 'bytes': b'ab', 'lambda': VALUES, '((1,),)': ((1,),), '((1,2),)': ((1, 2),), '[[1],[2]]': [[1], [2]], '(1,(2,3))': (1, (2, 3)), '((1,2),3)': ((1, 2), 3), '((1,2),(3,4))': ((1, 2), (3, 4)),
        "('ab','cd')": ('ab', 'cd'), "'ab',1": ('ab', 1), '(1,(2,))': (1, (2,)), '((),())': ((), ()), '((1,),(2,))': ((1,), (2,)), '[(1,2),3,4]': [(1, 2), 3, 4], '(1,2,3,4)': (1, 2, 3, 4), '(1,(2,(3,4)))': (1, (2, (3, 4))), '((1,(2,3)),4)': ((1, (2, 3)), 4),
        '(((1,),),)': (((1,),),), '(1,None)': (1, None), '(None,1)': (None, 1), '(1,2,(3,4))': (1, 2, (3, 4)), '(1,(2,3),4)': (1, (2, 3), 4), '((1,2,3),4)': ((1, 2, 3), 4), '(1,(2,3,4))': (1, (2, 3, 4)), '{1:{2:3}}': {1: {2: 3}},
    }
    fac = {'v:' + k: (lambda v = v: v) for k, v in base.items()}
    for n in range(5):
        fac['gen%d' % n] = lambda n = n: gen(n)
        fac['iter%d' % n] = lambda n = n: iter(list(range(n)))
        fac['it%d' % n] = lambda n = n: It(n)
        fac['seq%d' % n] = lambda n = n: Seq(n)
        fac['itfail%d' % n] = lambda n = n: It(n, ZeroDivisionError('z'))
        fac['ittype%d' % n] = lambda n = n: It(n, TypeError('t'))
    fac['endless'] = endless
    fac['map'] = lambda: map(str, [1, 2])
    fac['zip'] = lambda: zip([1, 2], [3, 4])
    fac['items'] = lambda: {1: 2, 3: 4}.items()
    fac['notiter'] = NotIter
    fac['baditer'] = BadIter
    fac['genpair'] = lambda: (gen(2), gen(2))
    fac['itpair'] = lambda: [It(2), 5]
    fac['nestgen'] = lambda: (gen(i) for i in (1, 2))
    return fac
FAC = VALUES()

def python_assign(pat, val):
    ns = {'V_': val}
    try: exec(pat + ' = V_', ns)
    except Exception as ex: return ('err', kind(ex))
    return ('ok', {k: v for k, v in ns.items() if k in NAMES})
def kind(ex): return [t.__name__ for t in (TypeError, ValueError, ZeroDivisionError) if isinstance(ex, t)][:1] or [type(ex).__name__]
def plain(x):
    """Results of generators are compared by type and what is left in them."""
    return x

FORMS = {'assign': '$%s = val\nrec %s\n', 'spaced': '$ %s  =  $val\nrec %s\n', 'tight': '$%s=val\nrec %s\n', 'for': 'for %s in [val]:\n  rec %s\n', 'forb': 'for %s in (val,)\n  rec %s\n', 'inner': 'if 1:\n  $%s = val\n  rec %s\n', 'call': '$%s = fv(1) -- comment\nrec %s\n',
         'tag': '%%h1 x\n  $%s = x\n  rec %s\nh1 $val\n'}
def run_target(case, cov):
    pat, vname, form = case
    names = NAMES[:pat.count('V')]
    p = name_pattern(pat)
    v1, v2 = FAC[vname](), FAC[vname]()
    if form == 'tight': ptxt = p.replace(', ', ',')
    elif form == 'spaced': ptxt = p.replace(', ', ' , ').replace('(', '( ').replace(')', ' )')
    else: ptxt = p
    exp = python_assign(p, v1)
    del LOG[:]
    src = 'context %rec, $val, $fv\n' + FORMS[form] % (ptxt, ' '.join('$' + n for n in names))
    got = hy.render_ex(src, val = v2, fv = lambda x: v2, __tags__ = {'rec': REC})
    cov.execs += 1
    cov.step(len(names))
    cov.sample(src)
    cov.state((pat, vname, form))
    key = 'target %s %s %s' % (form, pat, vname)
    if exp[0] == 'err':
        if got[0] != 'err' or kind(got[1]) != exp[1]: bad(key, '%r with val of kind %s: expected %s, got %r', src, vname, exp, got)
    else:
        if got[0] == 'err': bad(key, '%r with val of kind %s: expected %s, got %r', src, vname, exp, got)
        w = [exp[1][n] for n in names]
        if len(LOG) != 1 or not alike(LOG[0][0], w): bad(key, '%r with val of kind %s: expected %r, recorded %r', src, vname, w, LOG)
    if isinstance(v1, It) and v1.count != v2.count: bad(key, '%r with val of kind %s: takes %s steps of the iterator, Python takes %s', src, vname, v2.count, v1.count)
def alike(a, b):
    """Equal up to identity of iterators and other opaque objects."""
    if type(a) is not type(b): return False
    if isinstance(a, (list, tuple)): return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, (It, Seq, NotIter, BadIter)): return True
    if isinstance(a, (int, float, str, bytes, dict, set, frozenset, type(None), range)): return a == b
    if hasattr(a, '__next__'):
        la, lb = list(itertools.islice(a, 6)), list(itertools.islice(b, 6))
        return alike(la, lb)
    return True
SOME = ['v:0', 'v:None', "v:'xy'", 'v:(1,)', 'v:(1,2)', 'v:[1,2]', 'v:(1,2,3)', 'v:{1:2,3:4}', 'v:((1,2),)', 'v:(1,(2,3))', 'v:((1,2),3)', "v:('ab','cd')", 'v:((1,),(2,))', 'v:(1,None)', 'gen2', 'gen3', 'it2', 'it3', 'itfail2', 'ittype1', 'seq2', 'endless', 'genpair', 'v:((1,2,3),4)']
def target_cases(n, forms, vals, depth, least = 1):
    for leaves in range(least, n + 1):
        for p in patterns(leaves, depth):
            for v in vals:
                for f in forms: yield ('target', (p, v, f))

# repeated names and names bound before
def repeat_cases():
    for leaves in (2, 3):
        for p in patterns(leaves, 1):
            for names in itertools.product('ab', repeat = leaves):
                for v in ((1, 2), (1, 2, 3), ((1, 2), 3), (1, (2, 3)), ((1, 2),), (1,)): yield ('repeat', (p, names, v))
def run_repeat(case, cov):
    p, names, v = case
    pat = name_pattern(p, names)
    ns = {'a': 'A', 'b': 'B'}
    try:
        exec('%s = %r' % (pat, v), ns)
        exp = [ns['a'], ns['b']]
    except (TypeError, ValueError) as ex: exp = kind(ex)
    del LOG[:]
    src = 'context %%rec\n$a = "A"\n$b = "B"\n$%s = %r\nrec $a $b\n' % (pat, v)
    got = hy.render_ex(src, __tags__ = {'rec': REC})
    cov.execs += 1
    cov.step(2)
    cov.state((pat, v))
    cov.sample(src)
    if got[0] == 'err':
        if kind(got[1]) != exp: bad('repeat ' + src, '%r: expected %r, got %r', src, exp, got)
    elif deep(LOG[0][0]) != deep(exp): bad('repeat ' + src, '%r: expected %r, got %r', src, exp, LOG[0][0])

# the value is evaluated before anything is bound: swaps and rotations; right sides without parentheses
def swap_cases():
    for n in (1, 2, 3):
        for left in itertools.permutations('abc', n):
            for right in itertools.product(['a', 'b', 'c', '[a, b]', '(b, c)', 'a + b', '"x"'], repeat = n):
                for lt in ('', ','):
                    for rt in ('', ','):
                        for par in (0, 1): yield ('swap', (left, right, lt, rt, par))
def run_swap(case, cov):
    left, right, lt, rt, par = case
    l, r = ', '.join(left) + lt, ', '.join(right) + rt
    if par: r = '(' + r + ')'
    ns = {'a': 1, 'b': 2, 'c': 3}
    try:
        exec(l + ' = ' + r, ns)
        exp = [ns[x] for x in 'abc']
    except (TypeError, ValueError) as ex: exp = kind(ex)
    del LOG[:]
    src = 'context %%rec\n$a, b, c = 1, 2, 3\n$%s = %s\nrec $a $b $c\n' % (l, r)
    got = hy.render_ex(src, __tags__ = {'rec': REC})
    cov.execs += 1
    cov.step(3)
    cov.state((l, r))
    if got[0] == 'err':
        if kind(got[1]) != exp: bad('swap ' + src, '%r: expected %r, got %r', src, exp, got)
    elif deep(LOG[0][0]) != deep(exp): bad('swap ' + src, '%r: expected %r, got %r', src, exp, LOG[0][0])

# ----- 7. in-place operators
OPS = ['+', '-', '*', '/', '//', '%', '<<', '>>', '&', '|', '^']
class Num:
    """Records which operator is called; the in-place methods must not be used."""
    def __init__(self, n): self.n = n
    def __repr__(self): return 'Num(%s)' % self.n
class Left(Num): pass
class Right(Num): pass
class InPlace(Num): pass
for _n in 'add sub mul truediv floordiv mod lshift rshift and or xor pow matmul'.split():
    setattr(Left, '__%s__' % _n, lambda s, o, _n = _n: ('L', _n, s.n, repr(o)))
    setattr(Right, '__r%s__' % _n, lambda s, o, _n = _n: ('R', _n, s.n, repr(o)))
    setattr(InPlace, '__%s__' % _n, lambda s, o, _n = _n: ('L', _n, s.n, repr(o)))
    setattr(InPlace, '__i%s__' % _n, lambda s, o, _n = _n: ('IN-PLACE', _n, s.n, repr(o)))
OPERANDS = {
    '0': 0, '1': 1, '2': 2, '7': 7, '-3': -3, 'True': True, 'False': False, '2.5': 2.5, '-0.5': -0.5, '0.0': 0.0, 'inf': float('inf'), 'big': 10 ** 20, "''": '', "'ab'": 'ab', "'%s'": '%s', "'%s,%s'": '%s,%s', "'%d%%'": '%d%%', '[]': [], '[1]': [1], '[1,2]': [1, 2], '()': (), '(1,)': (1,), '(1,2)': (1, 2),
    'set()': set(), '{1}': {1}, '{1,2}': {1, 2}, 'frozen': frozenset([2]), '{}': {}, '{1:2}': {1: 2}, '{1:3}': {1: 3}, 'None': None, "b'x'": b'x', '1j': 1j, 'range': range(2), 'Left': Left(1), 'Right': Right(2), 'InPlace': InPlace(3), 'Num': Num(4), 'type': int, 'lambda': len,
}
BIG = {'big', 'inf'}
IFORMS = {'plain': '$x = val\n$x {op}= w\nrec $x\n', 'tight': '$x=val\n$x{op}=w\nrec $x\n', 'alias': '$x = val\n$y = x\n$x {op}= w\nrec $x $y\n', 'ctx': '$val {op}= $w\nrec $val\n', 'twice': '$x = val\n$x {op}= w\n$x {op}= w\nrec $x\n', 'loop': '$x = val\nfor i in [w, w]:\n  $x {op}= i\nrec $x\n',
          'tag': '%h1 x\n  $x {op}= w\n  rec $x\nh1 $val\n', 'paren': '$x = val\n$ x {op}= (w)\nrec $x\n', 'if': '$x = val\nif 1:\n  $x {op}= w\nrec $x\n', 'self': '$x = val\n$x {op}= x\nrec $x\n'}
def run_inplace(case, cov):
    op, l, r, form = case
    import copy
    a, b = OPERANDS[l], OPERANDS[r]
    before = deep(a)
    rb = a if form == 'self' else b
    ex = None
    if op in ('<<',) and (r in BIG or form in ('twice', 'loop', 'self') and l == 'big' or form == 'self' and isinstance(a, int) and a > 100): return
    if op == '*' and ('big' in (l, r) and not (isinstance(a, (int, float, complex)) and isinstance(b, (int, float, complex)))): return
    try:
        x = eval('a %s b' % op, {'a': a, 'b': rb})
        if form in ('twice', 'loop'): x = eval('a %s b' % op, {'a': x, 'b': rb})
    except Exception as e: ex = e
    del LOG[:]
    src = 'context %rec, $val, $w\n' + IFORMS[form].replace('{op}', op)
    got = hy.render_ex(src, val = a, w = b, __tags__ = {'rec': REC})
    cov.execs += 1
    cov.step(1)
    cov.sample(src)
    cov.state((op, l, r, form))
    key = 'inplace %s %s %s %s' % (op, l, r, form)
    if deep(a) != before: bad(key, '%r with val=%s, w=%r: the value itself has changed: %r', src, before, b, a)
    if ex is not None:
        if got[0] != 'err' or type(ex) is not type(got[1]) and not isinstance(got[1], type(ex)): bad(key, '%r with val=%r, w=%r: expected %r, got %r', src, a, b, ex, got)
        return
    if got[0] == 'err': bad(key, '%r with val=%r, w=%r: expected %r, got %r', src, a, b, x, got)
    want = [x, a] if form == 'alias' else [x]
    if deep(LOG[0][0]) != deep(want): bad(key, '%r with val=%r, w=%r: expected %r, got %r', src, a, b, want, LOG[0][0])
    if form == 'alias' and LOG[0][0][1] is not a: bad(key, '%r: the alias is not the original object', src)
def inplace_cases(tier):
    for op in OPS:
        for l in OPERANDS:
            for r in OPERANDS:
                for f in (['plain', 'alias'] if tier == 'quick' else IFORMS): 
                    if f == 'self' and r != '0': continue
                    yield ('inplace', (op, l, r, f))
        if tier == 'quick':
            for l in ('7', '-3', '2.5', "'ab'", '[1]', '{1}', '(1,)', 'InPlace', 'Left', '{1:2}', 'frozen'):
                for r in ('2', '7', '[1,2]', '{1,2}', "'ab'", '(1,2)', 'Right'):
                    for f in IFORMS:
                        if f not in ('plain', 'alias'): yield ('inplace', (op, l, r, f))
# whole right-hand side is an operand
RHS = ['2 + 3', '2 * 3', '-1', 'y', 'y - 1', 'y if x else 1', 'x', 'x - 1', 'x * x', '2 ** 2', '(1, 2)[0]', '[4][0]', 'y << 1', '7 & 5', '6 ^ 3', '8 | 1', '1 < 2', 'not x', 'x or 0', 'y and 5', 'f(2)', '"ab".count("a")', '10 // 3', '10 % 4', 'd["k"]', '1 == 1', 'x > y', 'len([1, 2])', '- y', '3 - 2 - 1']
def rhs_cases():
    for op in OPS:
        for r in RHS:
            for sp in ('$x %s= %s', '$x%s=%s', '$ x  %s=  %s', '$x %s= %s -- comment', '$x %s= %s # c'): yield ('rhs', (op, r, sp))
def run_rhs(case, cov):
    op, r, form = case
    ns = {'x': 20, 'y': 3, 'f': lambda a: a + 1, 'd': {'k': 2}}
    ex = None
    try: want = eval('x %s (%s)' % (op, r), ns)
    except Exception as e: ex = e
    del LOG[:]
    src = 'context %rec, $f, $d\n$x = 20\n$y = 3\n' + form % (op, r) + '\nrec $x $y\n'
    got = hy.render_ex(src, f = ns['f'], d = ns['d'], __tags__ = {'rec': REC})
    cov.execs += 1
    cov.step(1)
    cov.state((op, r))
    cov.sample(src)
    if ex is not None:
        if got[0] != 'err' or not isinstance(got[1], type(ex)): bad('rhs ' + src, '%r: expected %r, got %r', src, ex, got)
    elif got[0] == 'err' or deep(LOG[0][0]) != deep([want, 3]): bad('rhs ' + src, '%r: expected %r, got %r, recorded %r', src, want, got, LOG)
# tuples as operands; several targets are not allowed
MISC = [('$x = (1,)\n$x += 2, 3\nrec $x\n', (1, 2, 3)), ('$x = (1,)\n$x += 2,\nrec $x\n', (1, 2)), ('$x = (1, 2)\n$x += ()\nrec $x\n', (1, 2)), ('$x = "%s-%s"\n$x %= 1, 2\nrec $x\n', '1-2'), ('$x = "%s"\n$x %= [1, 2]\nrec $x\n', '[1, 2]'),
        ('$x = 1\n$x += 1\n$x *= 5\n$x -= 3\n$x //= 2\n$x <<= 3\n$x |= 1\n$x ^= 2\n$x &= 254\n$x >>= 1\n$x %= 10\n$x /= 4\nrec $x\n', ((((((((1 + 1) * 5 - 3) // 2) << 3) | 1) ^ 2) & 254) >> 1) % 10 / 4),
        ('$x = 5\n$x -= 1\n$y = x\n$x -= 1\nrec {[x, y]}\n', [3, 4]), ('$x = "a"\n$x += "b" "c"\nrec $x\n', 'abc'), ('$x = [1]\n$y = [x, x]\n$x += [2]\nrec {[x, y]}\n', [[1, 2], [[1], [1]]]),
        ('$x = 0\nfor i in [1, 2, 3]:\n  $x += i\n  $x *= 2\nrec $x\n', ((0 + 1) * 2 + 2) * 2 * 1 + 0 if False else (((0 + 1) * 2 + 2) * 2 + 3) * 2), ('$x = 3\n$y = 0\nwhile x:\n  $x -= 1\n  $y += 10\nrec {[x, y]}\n', [0, 30]),
        ('$x, y = 1, 2\n$x, y = y, x\n$x += y\nrec {[x, y]}\n', [3, 1]), ('$x = 1\n$x = x + 1\n$x = x + x\nrec $x\n', 4), ('$(x) = 5\nrec $x\n', 5), ('$((x)) = 5\nrec $x\n', 5), ('$(x,) = [5]\nrec $x\n', 5), ('$((x,),) = [[5]]\nrec $x\n', 5), ('$(x, y) = 1, 2\nrec {[x, y]}\n', [1, 2]),
        ('$x = {1, 2}\nrec $x\n', {1, 2}), ('$x = {"a": 1}\nrec $x\n', {'a': 1}), ('$x = {}\nrec $x\n', {}), ('$x = ""\nrec $x\n', ''), ('$x = None\nrec $x\n', None), ('$x = x0 = 1\nrec $x\n', SyntaxError), ('$x, y += 1, 2\nrec $x\n', SyntaxError), ('$(x, y) += 1, 2\nrec $x\n', SyntaxError), ('$x, = 1, 2\nrec $x\n', ValueError),
        ('$x + y = 1\nrec 1\n', SyntaxError), ('$() = []\nrec 1\n', SyntaxError), ('$1 = 2\nrec 1\n', SyntaxError), ('$x, *y = 1, 2\nrec $x\n', SyntaxError), ('$q += 1\nrec $q\n', NameError), ('$q = q\nrec 1\n', NameError), ('$x = \nrec 1\n', SyntaxError), ('$x = 1 2\nrec $x\n', '12')]
def run_misc(i, cov):
    src, want = MISC[i]
    del LOG[:]
    got = hy.render_ex('context %rec\n' + src, __tags__ = {'rec': REC})
    cov.execs += 1
    cov.state(src)
    if isinstance(want, type) and issubclass(want, Exception):
        if got[0] != 'err' or not isinstance(got[1], want): bad('misc ' + src, '%r: expected %s, got %r', src, want.__name__, got)
    elif got[0] == 'err' or deep(LOG[0][0]) != deep([want]): bad('misc ' + src, '%r: expected %r, got %r, recorded %r', src, want, got, LOG)

# ----- 8. identifiers that start like literals
IDS = ['True_', 'Truex', 'true', 'TRUE', 'None1', 'none', 'Nonesuch', 'False0', 'r', 'rx', 'e5', 'E', 'x1e5', '_', '_1', 'inf', 'nan', 'b', 'u', 'f', 'rb', 'iff', 'notx', 'orx', 'andx', 'inx', 'isx', 'forx', 'elsex', 'tryx', 'passx', 'importx', 'fromx', 'contextx', 'asx', 'x_', 'X', 'lambdax', 'len', 'str', 'None_', 'e', 'j', 'o', 'l']
def run_id(name, cov):
    for src, want in (('$%s = 5\nrec $%s\n', 5), ('$%s = 5\nrec {%s + 1}\n', 6), ('$%s = "s"\nrec "a{%s}b"\n', 'asb'), ('$%s = "s"\nrec "a$%s b"\n', 'as b'), ('$%s = 5\n$%s += 1\nrec {[@]}\n', [6]), ('$%s, zz = 1, 2\nrec [@,zz]\n'.replace('@', '%s'), [1, 2]), ('$zz = {"%s": 1}\nrec $zz["%s"]\n', 1), ('$%s = 5\nrec {[%s]}\n', [5])):
        s = src.replace('@', name).replace('%s', name)
        del LOG[:]
        got = hy.render_ex('context %rec\n' + s, __tags__ = {'rec': REC})
        cov.execs += 1
        cov.state(s)
        if got[0] == 'err' or deep(LOG[0][0]) != deep([want]): bad('id ' + s, '%r: expected %r, got %r, recorded %r', s, want, got, LOG)

# ----- 9. embeddings inside of strings
class O:
    a = 'A'
    def m(self, *a, **k): return 'M%r%r' % (a, sorted(k.items()))
    def __str__(self): return 'O'
EMB = {'{v}': '{v}', '$v': '{v}', '{n}': '{n}', '{n + 1}': '{n + 1}', '{n * 2.5}': '{n * 2.5}', '$d.k': None, '{o}': '{o}', '$o.a': '{o.a}', '$o.m(1)': '{o.m(1)}', '{o.m(n, x=1)}': '{o.m(n, x=1)}', '$l[0]': '{l[0]}', '$l[1:]': '{l[1:]}', '{l}': '{l}', '{(1, n)}': '{(1, n)}', '{ {1: n} }': '{ {1: n} }', '{[n, n][1]}': '{[n, n][1]}',
       '{f(v)}': '{f(v)}', '$f(n)': '{f(n)}', '{n if n else 0}': '{n if n else 0}', '{not n}': '{not n}', '{True}': '{True}', '{1.50}': '{1.50}', '{-n}': '{-n}', '{z}': '{z}', '{v.lower()}': '{v.lower()}', '{n > 2}': '{n > 2}', '{n, v}': '{(n, v)}', '{n,}': '{(n,)}', '{1e3}': '{1e3}', '{b}': '{b}'}
del EMB['$d.k']
ECTX = dict(CTX, o = O(), l = [1, 'two', [3]], z = '', b = b'x')
AFTER = ['', ' ', 'a', '.', ',', '$$', '{{', '\\n', ':', ')', ']', '-', "'", '|', '{v}', '$n']
def emb_cases():
    for e, py in EMB.items():
        for before in ('', 'a', '\\n', '$$', '{{', '}}', ' ', '\\\\', '{n}'):
            for after in AFTER:
                if e[0] == '$' and after[:1] in ('a', '.'): continue
                yield '"' + before + e + after + '"', eval('f"""' + before.replace('$$', '$') + py + after.replace('$$', '$').replace('$n', '{n}') + '"""', {}, ECTX)
NESTED = [("\"{'a'}\"", 'a'), ("'{\"a\"}'", 'a'), ("\"{'b{n}'}\"", 'b3'), ("\"x{'y{\"z\"}'}w\"", 'xyzw'), ("'{[\"p\", \"q\"][1]}'", 'q'), ("\"{f('a', 'b')}\"", CTX['f']('a', 'b')), ("\"{d['k'] + '!'}\"", 'K!'), ("\"{{'a'}}\"", "{'a'}"), ("\"{r'\\n'}\"", '\\n'), ("\"{'\\n'}\"", '\n'), ("\"{'{{'}\"", '{'),
          ("\"{'$$'}\"", '$'), ("\"{'}}'}\"", '}'), ("\"{r'{v}'}\"", '{v}'), ("\"{\"a\"}\"", 'a'), ("\"{'a' 'b'}\"", 'ab'), ("\"{d['l'][0]}-{d['l'][1]}\"", '7-8'), ("\"$d['k']\"", 'K'), ("'$d[\"k\"]'", 'K'), ("\"$f('a')\"", CTX['f']('a')), ("\"{n : str}\"", '3'), ("\"{'x' : f}\"", CTX['f']('x'))]

# every execution of a literal makes a new object: it is changed after each use
FRESH = ['[]', '[ ]', '{}', '[1]', '[n]', '{1}', '{n}', '{1: 2}', '{n: 1}', '[None]', '[True]', '["a"]', "['{n}']", '[r"x"]', '[1.5]', '[[]]', '[[1], 2]', '[n, [n]]', '([],)', '([1], {2})', '{"k": []}', '{"k": {}}', '{"k": [n]}', '[{}]', '[{1: [2]}]', '[([],)]', '[1, 2, 3]', '{1, 2}', '(1, [2])', '[-1]', '[(1)]', '[len("ab")]']
PLACES = {      # § is the literal; number of uses
    'assigned in for': ('for i in [1, 2, 3]\n  $L = §\n  $ mut(L)\n', 3),
    'assigned in while': ('$k = 0\nwhile k < 3\n  $k += 1\n  $L = §\n  div\n    $ mut(L)\n', 3),
    'unpacked': ('for i in [1, 2]\n  $a, (b, c) = §, (1, §)\n  $ mut(a)\n  $ mut(c)\n', 4),
    'in-place': ('for i in [1, 2]\n  $L = 0\n  $L = [§]\n  $L += [§]\n  $ mut(L[0])\n  $ mut(L[1])\n', 4),
    'argument': ('for i in [1, 2, 3]\n  $ mut(§)\n', 3),
    'keyword argument': ('for i in [1, 2, 3]\n  | {mut(x = §)}\n', 3),
    'piped': ('for i in [1, 2, 3]\n  | {(§) : mut}\n', 3),
    'embedded': ("for i in [1, 2]\n  div class={'a' mut(§)}\n    / {mut(§)}\n", 4),
    'condition': ('for i in [1, 2]\n  if mut(§) == 1\n    | x\n  elif mut(§) == 2\n    | x\n', 4),
    'choice': ('for i in [1, 2]\n  $ mut(§ if i == 1 else §)\n  $ mut(0 or (§) or (§) or 5)\n', None),
    'item': ('for i in [1, 2]\n  $ mut([§, 1][0])\n  $ mut({"k": §}["k"])\n  $ mut((1, §)[-1])\n', 6),
    'default': ('%h x={§}\n  $ mut(x)\nh\nh\nh\n', 3),
    'default, tags': ('%h @b x={§}\n  $ mut(x)\n  @b\nh\n  h\np\n  h\n', 3),
    'default, expression': ('%h x={§}\n  | {mut(x)}\n| {%h()} {%h()}\nh : h\n'.replace('h : h', 'h'), 3),
    'hypertag': ('%h\n  $x = §\n  $ mut(x)\nh\ndiv\n  h\n  h\n', 3),
    'attribute': ('%h x\n  $ mut(x)\nfor i in [1, 2, 3]\n  h {§}\n', 3),
    'named attribute': ('%h x\n  $ mut(x)\nfor i in [1, 2, 3]\n  h x={§}\n', 3),
    'attribute of a tag': ('for i in [1, 2, 3]\n  log {§}\n', 3),
    'named attribute of a tag': ('for i in [1, 2, 3]\n  log x={§}\n', 3),
    'twice': ('$a = §\n$b = §\n$ mut(a)\n$ mut(b)\n$c = §\n$ mut(c)\n', 3),
    'twice on a line': ('| {mut(§)} {mut(§)}\n', 2),
    'twice in hypertags': ('%g\n  $x = §\n  $ mut(x)\n%h\n  $x = §\n  $ mut(x)\ng\nh\ng\n', 3),
    'loop': ('for i in [1, 2]\n  for x in [§, §]\n    $ mut(x)\n', 4),
    'failed': ('for i in [1, 2]\n  try\n    $x = §\n    $ mut(x)\n    | {1/0}\n  else\n    $x = §\n    $ mut(x)\n', 4),
    'qualified': ('for i in [1, 2]\n  | {mut(§)?}{(mut(§) + 1/0)?}\n', 4),
}
def change(x):
    if isinstance(x, (list, tuple)):
        for y in list(x): change(y)
    if isinstance(x, dict):
        for y in list(x.values()): change(y)
        x['new'] = 1
    if isinstance(x, list): x.append('new')
    if isinstance(x, set): x.add('new')
class Mut(Tag):
    name = 'log'
    pure = False
    def __init__(self): self.log = []
    def __call__(self, x):
        self.log.append(deep(x))
        change(x)
        return '.'
    def expand(self, body, attrs, kwattrs): return self(kwattrs['x'] if kwattrs else attrs[0])
def run_fresh(case, cov):
    lit, place = case
    text, n = PLACES[place]
    src = 'context $mut, %log, $n\n' + text.replace('§', lit)
    plain = lit.replace("'{n}'", "'3'")
    want = deep(eval(plain, {}, {'n': 3}))
    rt = hy.runtime()
    for turn in (1, 2):                     # the second render on the same runtime
        mut = Mut()
        got = hy.render_ex(src, rt, mut = mut, n = 3, __tags__ = {'log': mut})
        cov.execs += 1
        cov.step(len(mut.log))
        cov.state((case, turn))
        cov.sample(src)
        if got[0] != 'ok': bad('fresh %s %s' % (lit, place), 'render %d of the script fails with %r:\n%s', turn, got, src)
        for i, v in enumerate(mut.log):
            if n and v != want: bad('fresh %s %s' % (lit, place), 'literal %s, %s: use %d in render %d has the value %r instead of %r:\n%s', lit, place, i + 1, turn, v, want, src)
            if not n and v != (want if i % 2 == 0 or eval(plain, {}, {'n': 3}) else deep(5)): bad('fresh %s %s' % (lit, place), 'literal %s, %s: use %d in render %d has the value %r instead of %r:\n%s', lit, place, i + 1, turn, v, want, src)
        if len(mut.log) != (n or 4): bad('fresh %s %s' % (lit, place), 'literal %s, %s: %d uses instead of %d:\n%s', lit, place, len(mut.log), n or 4, src)
def fresh_cases():
    for lit in FRESH:
        for place in PLACES: yield ('fresh', (lit, place))

# -----
def prepare(tier): util.warm(sys.modules[__name__], tier, 12, 57)

QUICK_SECONDS = 400
CASE_SECONDS = 60
def run_strings(items, cov): compare([i[0] for i in items], [i[1] for i in items], CTX, cov, 'string')
def run_raws(items, cov): compare([i[0] for i in items], [i[1] for i in items], CTX, cov, 'raw string')
def run_embs(items, cov): compare([i[0] for i in items], [i[1] for i in items], ECTX, cov, 'embedding')
RUN = {'strings': run_strings, 'raws': run_raws, 'pos': run_pos, 'chars': run_chars, 'numbers': run_numbers, 'colls': run_colls, 'target': run_target, 'repeat': run_repeat, 'swap': run_swap, 'inplace': run_inplace, 'rhs': run_rhs, 'misc': run_misc, 'id': run_id, 'embs': run_embs, 'fresh': run_fresh}
def run(case, cov): RUN[case[0]](case[1], cov)

def spaces(tier):
    q = tier == 'quick'
    def packed(name, it, n = 40):
        def f():
            for c in chunks(it(), n): yield (name, c)
        return f
    def pos():
        lits = list(string_cases(1, TOKENS)) + list(string_cases(2, SHORT if q else TOKENS)) + [(l, w) for l, w in raw_cases(1)] + [(s, eval(s)) for s in EXTRA if RE_PLAIN.match(s)] + [(s, eval(s, {}, CTX)) for s in ('True', 'False', 'None', '[]', '[1, 2]', '(1,)', '{1: 2}', '{1}', '{"a": [n]}', '()', '{}')]
        for p in POSITIONS:
            ls = lits
            if p in ('braces', 'default', 'attr', 'named', 'spaced', 'eq', 'loop2', 'comment', 'tuple'): ls = [x for x in lits if not (x[0][:1] in '{' or x[0][:1] == '-' and p in ('attr', 'named', 'default'))]
            if p == 'key': ls = [x for x in ls if x[0][0] not in '[{']
            for c in chunks(ls, 20): yield ('pos', (p, c))
    forms = ['assign', 'for'] if q else list(FORMS)
    res = [
        ('strings', packed('strings', lambda: string_cases(2, TOKENS))),
        ('strings, 3 tokens', packed('strings', lambda: string_cases(3, SHORT if q else TOKENS))),
        ('strings, 4 tokens', packed('strings', lambda: string_cases(4, TINY if q else SHORT))),
        ('positions', pos),
        ('characters', lambda: (('chars', c) for c in char_cases(tier))),
        ('escape sequences', packed('strings', lambda: escape_cases(tier))),
        ('raw strings', packed('raws', lambda: raw_cases(3 if q else 4))),
        ('numbers', packed('numbers', lambda: number_cases(5 if q else 6), 400)),
        ('collections', packed('colls', lambda: coll_cases(tier))),
        ('targets', lambda: target_cases(2, forms, list(FAC), 2)),
        ('targets, 3 variables', lambda: target_cases(3, ['assign'] if q else forms, SOME if q else list(FAC), 1, 3)),
        ('targets, all forms', lambda: target_cases(2, list(FORMS), SOME, 1)),
        ('targets, repeated names', repeat_cases),
        ('right sides', swap_cases),
        ('in-place', lambda: inplace_cases(tier)),
        ('in-place, right sides', rhs_cases),
        ('various', lambda: (('misc', i) for i in range(len(MISC)))),
        ('identifiers', lambda: (('id', i) for i in IDS)),
        ('embeddings', packed('embs', emb_cases)),
        ('new objects', fresh_cases),
        ('nested strings', packed('strings', lambda: iter(NESTED), 1)),
    ]
    if not q: res.append(('targets, 4 variables', lambda: target_cases(4, ['assign'], SOME, 1, 4)))
    if not q: res.append(('targets, deep', lambda: target_cases(3, ['assign'], SOME, 2, 3)))
    if not q: res.append(('strings, 5 tokens', packed('strings', lambda: string_cases(5, TINY))))
    return res
