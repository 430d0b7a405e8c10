"""C15: every script either renders or is rejected with a proper error."""
import itertools, sys, re, os, subprocess
from mc import hy, util
from mc.core import Violation
from hypertag import HyperHTML, Tag
from hypertag.core import errors as E

ID = 'C15'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of all token strings up to a bounded length over the alphabet of the language, in every syntactic place of a script, and of nesting families up to a bounded depth, executed on the real runtime'
NOTE = ('all strings of up to 3 tokens over 70 tokens (including indentation, keywords and control characters), all fillings of 44 places of script templates with up to 2 tokens, all one-token edits (deletion, insertion, replacement, swap) of a '
        'pool of valid scripts, 33 nesting families up to depth 100 on the main thread and in other threads')
RULE = 'token strings x prefixes; templates x token strings; edits of valid scripts; whitespace scripts; nesting families x depths; outcome must be a string or a documented error, or an error that Python raises for an operation of the script'
ASSUMPTIONS = ['the variables of the scripts hold an object that supports every operation, so that other exceptions than those of the language can only come from literals', 'endless while loops are left out', 'RecursionError is acceptable at nesting of several hundred levels']
CASE_SECONDS = 60
QUICK_SECONDS = 500

class U:
    """Supports every operation."""
    def __init__(self): self.n = 0
    def __str__(self): return 'u'
    def __bool__(self):
        self.n += 1
        return self.n % 2 == 1
    def __getattr__(self, name):
        if name[:2] == '__': raise AttributeError(name)
        return self
    def __iter__(self): return iter((self, self))
    def __len__(self): return 2
    def __hash__(self): return 5
    def __index__(self): return 1
    def __call__(self, *a, **k): return self
    def __contains__(self, x): return True
def _op(self, *a): return self
for _n in 'getitem add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod rmod pow rpow and rand or ror xor rxor lshift rlshift rshift rrshift lt gt le ge eq ne neg pos invert'.split():
    setattr(U, '__%s__' % _n, _op)

class H(Tag):
    name = 'h'
    def expand(self, body, attrs, kwattrs): return '(%s%r%r)' % (body.render(), attrs, sorted(kwattrs))

TOKENS = ['|', '!', '/', 'p', 'x', 'h', '.', '..', '...', '$', '%', '@', '=', '==', '!=', '<', '>', '?', '-', '--', '#', '+', '*', '**', '&', '^', '~', ':', ',', ';', '(', ')', '[', ']', '{', '}', '{{', '}}', '$$',
          "'", '"', '1', '1.', '\\', 'r', 'if', 'elif', 'else', 'try', 'for', 'in', 'not', 'and', 'is', 'from', 'import', 'as', 'context', 'pass', 'True', 'None', '\n', '\n  ', '\n\t', '\n ', '\t', ' ', 'é', '$x', '{x}', '()', '%h']
ODD = ['\x00', '\r', '\x0b', '\x0c', '\x1c', '\x85', '\u2028', '\ufeff', '\ud800', '\udfff', '\ue000', '\ue001', '\U0010ffff', '\x7f', '\xa0', '\xad', '\u200b', '⇥', '⇤', '→', '←', '↦', '↤']
WORDS = ['|', '!', '/', 'p', 'x', 'h', '.', '...', '$x', '%h', '@', '@ x', '=', '<', '?', '--', ':', ',', '(', ')', '{x}', "'a'", '1', 'if', 'elif', 'else', 'try', 'for', 'in', 'not', 'and', 'or', 'is', 'from', 'import', 'as', 'context', 'pass', '*', 'a=1', '\n', '\n ', '\n   ', '%k', '.k', '#i', 'is not', 'while x\n ', 'while x |', 'while 0:']
SMALL = ['|', 'p', 'x', '$', '=', '{', '}', '(', ')', ':', "'", '1', '.', ' ', '\n', '\n ', 'if', '@', '%', '?']

PRE = 'context $x, %h\n'
PREFIXES = {'': '', 'ctx': PRE, 'body': PRE + 'p\n  ', 'def': PRE + '%g @b y=x\n  ', 'after': PRE + 'p\n  | t\n', 'if': PRE + 'if x\n    | a\n', 'multi': PRE + '|\n  a\n', 'inl': PRE + 'p | '}

# the hole is marked by \1
HOLES = [PRE + 'p \1\n', PRE + 'p \1 | t\n', PRE + 'p a=\1\n', PRE + 'p a=\1 b=1\n', PRE + 'p: \1\n  | t\n', PRE + 'p \1: | t\n  | u\n', PRE + 'p : h \1\n', PRE + '| \1\n', PRE + '| a\1b\n', PRE + '| {\1}\n', PRE + '| { \1 x }\n', PRE + '| $x\1\n', PRE + '| {x\1}?\n',
         PRE + '/ \1\n', PRE + '! \1\n', PRE + '$\1\n', PRE + '$y = \1\n', PRE + '$y\1 = x\n', PRE + '$y \1= x\n', PRE + '$\1, y = x\n', PRE + '$ \1\n', PRE + 'if \1\n  | a\nelse\n  | b\n', PRE + 'if \1 | a\n', PRE + 'if 1 \1\nelif x\n  | b\n', PRE + 'if x | a\n\1 | b\n', PRE + 'if x\n  | a\nelse \1\n  | b\n',
         PRE + 'for \1 in x\n  | a\n', PRE + 'for y in \1\n  | a\n', PRE + 'for y \1 x\n  | a\n', PRE + 'for y in x \1\n', PRE + 'try \1\n  | a\nelse\n  | b\n', PRE + '? \1\n', PRE + '%\1\n  | a\n', PRE + '%g \1\n  | a\ng\n', PRE + '%g \1 | a\n', PRE + '%g @b y=\1\n  @b\ng | t\n', PRE + '%g @b\n  @ \1\ng\n  | t\n', PRE + '%g @b\n  p \1\n    @b\ng\n  | t\n', PRE + '%g a b=2\n  | a\ng \1\n',
         'context \1\n', 'context $x, \1\n', 'from \1 import $y\n', 'from builtins import \1\n', 'from builtins import $len \1\n| x\n', 'import \1\n', PRE + '-- \1\n', PRE + 'p -- \1\n', PRE + '<\1\n', PRE + '... \1\n', PRE + 'p\n\1  | t\n', PRE + 'p\n  | t\n\1 | u\n', PRE + "| {'\1'}\n", PRE + "p a='\1'\n", PRE + '| {x[\1]}\n', PRE + '| {x(\1)}\n', PRE + '| {x:\1}\n', PRE + '| {{\1:x}}\n', PRE + '|\n   a\n \1\n', PRE + '/ {%h(\1)}\n', PRE + 'h \1\n  | t\n', PRE + 'p .\1 #\1\n', '\1\nfrom builtins import $len\n', '\1\ncontext $x\n', 'context $x\n\1\ncontext %h\n']

VALID = [
    "context $x, %h\n-- comment\nul .k #i a='v' b=x\n  li: | one $x\n    | two {x}?\n  for i, j in [(1, 2), (3, 4)]:\n    li | {i + j}\n  else\n    | none\n",
    "context $x, %h\n%g @body a b='d' c=None\n  div class=a : p\n    @ body\n    | {b}\ng 1 c={x}\n  | t\n  ... | u\n< g a=2 : h 3 | v\n",
    "context $x, %h\n$y, (z, w) = [1, (2, 3)]\n$y += 1\nif y == 2 and not x: | a\nelif z < w <= 3 or x\n  | b\nelse | c\ntry\n  | {y!}\nelse\n  ? p | {x.a[1:2](3, k=4):h}\n",
    "from builtins import $len, $str as s, *\np\n\n  |\n    multi\n      line $len\n\n   text {s(1) 'a' 2}\n! verb {x}\n/ <b>{[1, 2,] 3}</b>\n. : b\n  pass\n",
    "context $x, %h\ntable\n\ttr : td a={{'k': 1, 'l': {1, 2}}} b=(1,)\n\t\t| {-1 ** 2 // 3 % 4 if x else (not x)}\n\ttr .a.b#c d = $x! | t -- no\nh {%h(x, 1, b=2)} : p\n",
]
LEX = re.compile(r"\.\.\.|--|\*\*|//|<=|[A-Za-z_]+|\d+|\n[ \t]*|[ \t]+|.", re.S)

def toks(s): return LEX.findall(s)
EDITS = ['|', 'p', 'x', '$', '=', '{', '}', '(', ')', '[', ':', "'", '"', '1', '.', ' ', '\n', '\n ', '\n\t', 'if', 'else', '@', '%', '?', '!', ',', '--', 'for', 'in', '...', '<', '#', '*', 'pass', '\x00', '\ue000']

def space_tokens(n, alphabet, prefixes, sep):
    def it():
        for k in range(0, n + 1):
            for pre in prefixes:
                if k == 0: yield ('src', PREFIXES[pre])
                elif k == 1:
                    for t in alphabet: yield ('src', PREFIXES[pre] + t)
                else:
                    for t in itertools.product(alphabet, repeat = k - 1): yield ('row', (PREFIXES[pre], t, alphabet, sep))
    return it

def space_odd():
    some = ['', '|', 'p', 'x', ' ', '\n', '\n  ', "'", '$', '{', '=', '-- ', '| ', 'p ', '%', '%h', '$x', "p a='", '| {', 'if ']
    for o in ODD:
        for pre in PREFIXES:
            yield ('list', [PREFIXES[pre] + s for a in some for b in some for s in (a + o + b, a + b + o, a + o + o + b)])

def space_holes(n, alphabet):
    def it():
        for h in HOLES:
            yield ('list', [h.replace('\1', t) for t in [''] + alphabet + ODD])
            if n > 1:
                for t in alphabet: yield ('list', [h.replace('\1', t + s) for s in alphabet] + [h.replace('\1', t + ' ' + s) for s in alphabet])
            if n > 2:
                for t in itertools.product(SMALL, repeat = 2): yield ('list', [h.replace('\1', ''.join(t) + s) for s in SMALL])
    return it

def space_edits(full):
    def it():
        for v in VALID:
            ts = toks(v)
            for i in range(len(ts)):
                l = [ts[:i] + ts[i+1:], ts[:i] + ts[i:i+1] + ts[i:], ts[:i]] + ([ts[:i] + [ts[i+1], ts[i]] + ts[i+2:]] if i + 1 < len(ts) else [])
                for e in EDITS: l += [ts[:i] + [e] + ts[i:], ts[:i] + [e] + ts[i+1:]]
                l = [''.join(x) for x in l]
                for k in range(0, len(l), 20): yield ('list', l[k:k+20])
            if full:
                for i in range(len(ts)):
                    for j in range(i + 1, len(ts)): yield ('list', [''.join(ts[:i] + ts[i+1:j] + ts[j+1:]), ''.join(ts[:i] + ts[j:]), ''.join(ts[:i] + [ts[j]] + ts[i+1:j] + [ts[i]] + ts[j+1:])])
    return it

def space_lines():
    """Every line of the valid scripts with every other indentation, removed, doubled, swapped with each other line."""
    for v in VALID:
        ls = v.split('\n')
        for i, l in enumerate(ls):
            res = []
            for ind in ('', ' ', '  ', '   ', '    ', '      ', '\t', '\t\t', ' \t', '\t ', '\n', '\n\n  '): res.append(ls[:i] + [ind + l.lstrip()] + ls[i+1:])
            for j in range(len(ls)):
                if j != i:
                    m = list(ls)
                    m[i], m[j] = m[j], m[i]
                    res.append(m)
                    res.append(ls[:i] + [ls[j]] + ls[i:])
            for k in range(0, len(res), 10): yield ('list', ['\n'.join(m) for m in res[k:k+10]])

def space_white(n):
    def it():
        for k in range(n + 1):
            for t in itertools.product(' \t\n', repeat = k): yield ('white', ''.join(t))
    return it

NEST = {
    'p': lambda n: ''.join('  ' * i + 'p\n' for i in range(n)) + '  ' * n + '| x\n', 'p1': lambda n: ''.join(' ' * i + 'p:\n' for i in range(n)), 'tab': lambda n: ''.join('\t' * i + 'p | x\n' if i == n - 1 else '\t' * i + 'p\n' for i in range(n)),
    'if': lambda n: ''.join('  ' * i + 'if 1\n' for i in range(n)) + '  ' * n + '| x\n', 'else': lambda n: ''.join('  ' * i + 'if 0 | a\n' + '  ' * i + 'else\n' for i in range(n)) + '  ' * n + '| x\n', 'for': lambda n: ''.join('  ' * i + 'for i in [1]\n' for i in range(n)) + '  ' * n + '| x\n',
    'try': lambda n: ''.join('  ' * i + 'try\n' for i in range(n)) + '  ' * n + '| x\n', 'def': lambda n: ''.join('  ' * i + '%%h%d\n' % i for i in range(n)) + '  ' * n + '| x\n', 'null': lambda n: ''.join('  ' * i + '.\n' for i in range(n)) + '  ' * n + '| x\n',
    'mixed': lambda n: ''.join('  ' * i + ['p\n', 'if 1\n', 'for i in [1]\n', 'try\n'][i % 4] for i in range(n)) + '  ' * n + '| x\n', 'paren': lambda n: '| {' + '(' * n + '1' + ')' * n + '}\n', 'list': lambda n: '| {' + '[' * n + '1' + ']' * n + '}\n', 'call': lambda n: '| {' + 'str(' * n + '1' + ')' * n + '}\n',
    'dict': lambda n: '| { ' + '{1:' * n + '1' + '}' * n + ' }\n', 'tup': lambda n: '$x = ' + '(' * n + '1' + ',)' * n + '\n', 'tgt': lambda n: '$x = [1]\n' + '$' + '(' * n + 'a' + ',)' * n + ' = ' + '[' * n + '1' + ']' * n + '\n', 'chain': lambda n: ' : '.join(['p'] * n) + ' | x\n', 'plus': lambda n: '| {' + '+'.join(['1'] * n) + '}\n',
    'cmp': lambda n: '| {' + '<'.join(['1'] * n) + '}\n', 'cat': lambda n: '| {' + ' '.join(['1'] * n) + '}\n', 'pow': lambda n: '| {' + '**'.join(['1'] * n) + '}\n', 'not': lambda n: '| {' + 'not ' * n + '1}\n', 'ife': lambda n: '| {' + '1 if 0 else ' * n + '1}\n', 'pipe': lambda n: '| {1' + ':str' * n + '}\n',
    'member': lambda n: '| {(1)' + '.real' * n + '}\n', 'emb': lambda n: '| ' + '{1}' * n + '\n', 'tail': lambda n: '|\n' + ''.join(' ' * (i + 1) + 'x\n' for i in range(n)), 'elif': lambda n: 'if 0\n' + 'elif 0\n' * n, 'telse': lambda n: 'try | {1/0}\n' + 'else | {1/0}\n' * n, 'lines': lambda n: '| x\n' * (n * 10), 'attrs': lambda n: 'p ' + ' '.join('a%d=1' % i for i in range(n)) + '\n',
    'calls': lambda n: ''.join('%%h%d @b\n  p\n    @b\n' % i for i in range(n)) + ' : '.join('h%d' % i for i in range(n)) + ' | x\n', 'thru': lambda n: '%h0 @b\n  @b\n' + ''.join('%%h%d @b\n  h%d\n    @b\n' % (i, i - 1) for i in range(1, n)) + 'h%d\n  | x\n' % (n - 1), 'half': lambda n: '| {' + '(' * n + '1}\n', 'halfl': lambda n: '| {' + '[' * n + '1}\n',
    'halfb': lambda n: '| ' + '{' * n + '\n', 'quote': lambda n: '| {' + "'a' " * n + "'}\n", 'stairs': lambda n: ''.join('  ' * i + 'p\n' for i in range(n)) + ''.join('  ' * i + '| x\n' for i in range(n, -1, -1)), 'blank': lambda n: '\n' * n + '| x' + '\n' * n, 'mods': lambda n: ''.join('  ' * i + ('< p\n' if i else 'p\n') for i in range(n)) + '  ' * n + '< | x\n',
    'long': lambda n: '| ' + 'x' * n * 100 + '\n', 'name': lambda n: '$' + 'x' * n * 10 + ' = 1\n', 'defs': lambda n: ''.join('%%h%d a=%d\n  | $a\n' % (i, i) for i in range(n)), 'vars': lambda n: ''.join('$v%d = %d\n' % (i, i) for i in range(n)) + ''.join('| $v%d\n' % i for i in range(n)), 'ctx': lambda n: '%a\n  | x\n' + 'a\n' * n,
}
BAD = {'half', 'halfl', 'halfb', 'quote'}
def space_nest(depths):
    def it():
        for k in NEST:
            for n in depths: yield ('nest', (k, n))
            yield ('deep', k)
    return it

def spaces(tier):
    q = tier == 'quick'
    return [('errors of the language for values of all kinds', space_paths), ('nesting families', space_nest([1, 2, 3, 5, 10, 20, 40, 70, 100] if q else list(range(1, 101)))),
            ('whitespace scripts of up to %d characters' % (7 if q else 9), space_white(7 if q else 9)),
            ('strings of up to %d tokens' % 2, space_tokens(2, TOKENS, ['', 'body', 'def', 'after', 'if', 'multi', 'inl'], '')),
            ('strings of up to %d tokens after a context' % 3, space_tokens(3, TOKENS if not q else TOKENS, ['ctx'], '')),
            ('odd characters', space_odd),
            ('templates', space_holes(2 if q else 3, TOKENS if not q else SMALL + ['/', '!', '@', '[', ']', ',', '<', '--', '#', '*', 'else', 'in', 'for', '%h', '\n\t', '"', 'True', '{x}', '...', '-', 'not', 'é'])),
            ('edits of valid scripts', space_edits(not q)), ('lines of valid scripts', space_lines),
            ('strings of up to %d words' % (2 if q else 3), space_tokens(2 if q else 3, WORDS, ['ctx', 'after', 'body'] if q else list(PREFIXES), ' '))] + \
           ([] if q else [('strings of up to 4 tokens over a small alphabet', space_tokens(4, SMALL, ['ctx', 'inl', 'body'], '')), ('strings of up to 4 words', space_tokens(4, WORDS[:20], ['ctx'], ' '))])

CALM = re.compile(r"[\d'\"\[({)%:]|True|None|h|@|len|builtins|p|for")        # anything but operations on the universal object

def legit(ex, src):
    """Errors that the operations of the script itself raise."""
    if isinstance(ex, (E.HError, IndentationError)): return True
    if isinstance(ex, (AssertionError, RecursionError, NotImplementedError, MemoryError, SystemError, LookupError)) and not (isinstance(ex, LookupError) and '[' in src): return False
    if isinstance(ex, AttributeError):
        m = re.search(r"attribute '?(\w+)'?$", str(ex))
        return bool(m and re.search(r'\.\s*' + m.group(1), src))
    if isinstance(ex, (NameError, SyntaxError, ImportError)): return type(ex) in (ModuleNotFoundError, ImportError) and 'import' in src
    if isinstance(ex, (TypeError, ValueError, ArithmeticError, LookupError)): return bool(CALM.search(src.replace(PRE, '')))
    return False

_rt = []
def attempt(src, cov):
    if not _rt: _rt.append(HyperHTML())
    vals = {'x': U()} if 'context' in src else {}
    cov.execs += 1
    try:
        out = _rt[0].render(src, __tags__ = {'h': H()}, **vals)
    except Exception as ex:
        cov.state(type(ex).__name__ + re.sub(r"'[^']*'|\d+|\(.*", '', str(ex))[:60])
        cov.count('rejected')
        if not legit(ex, src): raise Violation('%s: %s for the script:\n%r' % (type(ex).__name__, str(ex)[:300], src), key = src)
        try: str(ex), repr(ex)
        except Exception as ex2: raise Violation('the error of the script cannot be printed (%s): %r' % (type(ex2).__name__, src), key = src)
        return ex
    if not isinstance(out, str): raise Violation('render() returned %r for %r' % (out, src), key = src)
    cov.state(out)
    return out

def safe(src):
    """Endless loops of the script's own making are left out."""
    return 'while' not in src or re.match(r'(?s)[^w]*while (x\n|x \||0:)', src) is not None and src.count('while') == 1

def run(case, cov):
    kind, c = case
    if kind == 'src': c = [c]
    elif kind == 'row':
        pre, t, alphabet, sep = c
        c = [pre + sep.join(t + (a,)) for a in alphabet] + ([pre + sep.join(t + (a,)) + '\n' for a in alphabet] if len(t) < 2 else [])
    elif kind == 'white':
        out = attempt(c, cov)
        cov.step()
        if not isinstance(out, str) or out.strip(' \t\n'): raise Violation('whitespace script %r gives %r' % (c, out), key = c)
        return
    elif kind == 'nest':
        k, n = c
        src = NEST[k](n)
        cov.step(n)
        try: out = ('ok', hy.runtime().render(src))
        except Exception as ex: out = ('err', ex)
        cov.execs += 1
        cov.state(repr(c))
        good = out[0] == 'err' and isinstance(out[1], E.HError) if k in BAD and not (k == 'halfb' and n % 2 == 0) else out[0] == 'ok'
        if not good: raise Violation('nesting %s at depth %d: %s %s' % (k, n, out[0], repr(out[1])[:300]), key = 'nest %s %d' % c)
        if n in (20, 100): in_thread(src, out, c)
        return
    elif kind == 'deep':
        deep(c, cov)
        return
    elif kind == 'path':
        path(c, cov)
        return
    for src in c:
        if not safe(src): continue
        cov.step()
        attempt(src, cov)

def in_thread(src, out, c):
    import threading
    res = []
    def go():
        try: res.append(('ok', HyperHTML().render(src)))
        except Exception as ex: res.append(('err', ex))
    t = threading.Thread(target = go)
    t.start()
    t.join()
    if not res or res[0][0] != out[0] or out[0] == 'ok' and res[0] != out: raise Violation('nesting %s at depth %d in a thread: %r instead of %r' % (c + (util.show(repr(res)), util.show(repr(out)))), key = 'thread %s %d' % c)

DEEP = '''
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, %r)
import hypertag
from hypertag import HyperHTML
from hypertag.core.errors import HError
rt = HyperHTML()
for src in eval(sys.stdin.read()):
    try: rt.render(src)
    except (HError, RecursionError): pass
print('done')
'''
def deep(k, cov):
    """Excessive nesting must not crash the process: run in a process of its own."""
    import hypertag
    root = os.path.dirname(os.path.dirname(os.path.abspath(hypertag.__file__)))
    srcs = [NEST[k](n) for n in (250, 400)]
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', DEEP % root], input = repr(srcs), stdout = subprocess.PIPE, stderr = subprocess.PIPE, universal_newlines = True, timeout = 55)
    cov.execs += 2
    cov.step(2)
    if p.returncode != 0 or p.stdout.strip() != 'done': raise Violation('nesting %s at depth 250 or 400 ends the process with status %s: %s' % (k, p.returncode, p.stderr[-300:]), key = 'deep ' + k)

# ----- errors that the language itself reports, for values of all kinds
class Falsy:
    def __bool__(self): return False
    def __str__(self): return '100% %s {x}'
class Weird:
    """A true value with a name, a length and a string that formatting could trip over."""
    name, __name__ = '%d', '%s'
    def __str__(self): return '%s %d {0} $x'
    __repr__ = __str__
class It:
    def __iter__(self): return iter(())
FALSE = {'0': 0, '0.0': 0.0, 'False': False, 'empty string': '', 'empty bytes': b'', 'empty tuple': (), 'empty list': [], 'empty dict': {}, 'empty set': set(), 'empty frozenset': frozenset(), 'range(0)': range(0), 'falsy object': Falsy(), 'None': None, '0j': 0j}
TRUE = {'1': 1, '-2.5': -2.5, 'True': True, 'x': 'x', '%s': '%s', '%': '%', '{x}': '{x} $x', '(1,)': (1,), '(1, 2)': (1, 2), "('%s', ())": ('%s', ()), '((),)': ((),), '[1]': [1], '[()]': [()], "{'a': 1}": {'a': 1}, "{'%s': 1}": {'%s': 1}, '{1}': {1}, 'bytes': b'%s', 'weird': Weird(), 'iterable': It(), 'type': int, 'class': Weird,
        'function': (lambda: 1), 'exception': ValueError('%s'), 'Ellipsis': ..., 'newlines': '\n\n  x', 'unicode': '\u2768 \ue000', 'nan': float('nan'), 'range': range(3), 'module': re}
VALUES = dict(FALSE, **TRUE)
def nodeless(v):
    """Embedding of the value is an error of the language."""
    try: return len(list(v)) > 0 and not all(x is None for x in v) and not (isinstance(v, (list, tuple)) and all(x == [] for x in v))
    except TypeError: return True
def items(n):
    def bad(v):
        try: return len(list(v)) != n
        except TypeError: return False
    return bad
ANY = lambda v: True
DEFS = '%g a b=2\n  | {a?}\n%bd @c a=1\n  p\n    @c\n'
PATHS = [   # (script, error, for which values)
    ('| {v}!\n', E.FalseValueEx, lambda v: not v), ('| $v!\n', E.FalseValueEx, lambda v: not v), ('p a={v}! | x\n', E.FalseValueEx, lambda v: not v), ('p a=$v! | x\n', E.FalseValueEx, lambda v: not v), ('p a=v! | x\n', E.FalseValueEx, lambda v: not v), ('g $v!\n', E.FalseValueEx, lambda v: not v), ('g {v}! 1\n', E.FalseValueEx, lambda v: not v),
    ('$y = v!\n', E.FalseValueEx, lambda v: not v), ('| {[v!]}\n', E.FalseValueEx, lambda v: not v), ('if v! | x\n', E.FalseValueEx, lambda v: not v), ('%h z={v}!\n  | x\nh\n', E.FalseValueEx, lambda v: not v), ('| {f(v!)}\n', E.FalseValueEx, lambda v: not v), ("$y = '{v}!'\n", E.FalseValueEx, lambda v: not v), ('| {(v)!}\n', E.FalseValueEx, lambda v: not v), ('| {[v][0]!}\n', E.FalseValueEx, lambda v: not v),
    ('| {v}\n', E.NoneStringEx, lambda v: v is None), ('| $v\n', E.NoneStringEx, lambda v: v is None), ("$y = 'a' v\n", E.NoneStringEx, lambda v: v is None), ("$y = 'a{v}'\n", E.NoneStringEx, lambda v: v is None), ("$y = v v\n", E.NoneStringEx, lambda v: v is None),
    ('@ v\n', E.TypeErrorEx, nodeless), ('p @ v\n', E.TypeErrorEx, nodeless), ('@ [v, v]\n', E.TypeErrorEx, lambda v: v is not None and v != []), ('div\n  bd\n    @ v\n', E.TypeErrorEx, nodeless),
    ('g 1 2 $v\n', E.TypeErrorEx, ANY), ('g $v zz=$v\n', E.TypeErrorEx, ANY), ('g $v a=$v\n', E.TypeErrorEx, ANY), ('g b=$v\n', E.TypeErrorEx, ANY), ('g $v | {f(v)}\n', E.VoidTagEx, ANY), ('bd c=$v\n', E.TypeErrorEx, ANY), ('bd 1 $v\n', E.TypeErrorEx, ANY), ("| {%g('', v, v, v)}\n", E.TypeErrorEx, ANY), ("| {%g('', v, zz=v)}\n", E.TypeErrorEx, ANY), ("| {%bd('', c=v)}\n", E.TypeErrorEx, ANY),
    ('br | x {f(v)}\n', E.VoidTagEx, ANY), ('p $v | x\n', E.TypeErrorEx, ANY), ('br $v\n', E.TypeErrorEx, ANY), ('custom\n', E.TypeErrorEx, ANY), ('custom $v $v\n', E.TypeErrorEx, ANY), ('custom a=$v\n', E.TypeErrorEx, ANY), ('comment a=$v\n', E.TypeErrorEx, ANY), ('comment $v\n', E.TypeErrorEx, ANY),
    ('$a, b = v\n', E.ValueErrorEx, items(2)), ('$a, (b, c), d = v\n', E.ValueErrorEx, items(3)), ('$a, = v\n', E.ValueErrorEx, items(1)), ('$(a, b), c = [v, v]\n', E.ValueErrorEx, items(2)), ('for a, b, c in [v]\n  | x\n', E.ValueErrorEx, items(3)),
    ('context %t\nt | x\n', E.NotATagEx, ANY), ('context %t\nt $v | x\n', E.NotATagEx, ANY), ('context %t\np : t\n  | x\n', E.NotATagEx, ANY),
    ('| {v} $undefined\n', E.NameErrorEx, ANY), ('p $undefined $v\n', E.NameErrorEx, ANY), ('undef $v | x\n', E.UndefinedTagEx, ANY), ('| {%undef(v)}\n', E.NameErrorEx, ANY), ('if 0\n  $w = v\n| $w\n', E.UnboundLocalEx, ANY), ('for q in []\n  $w = v\n| {[v, w]}\n', E.UnboundLocalEx, ANY), ('context $missing\n| $v\n', E.ImportErrorEx, ANY), ('from .nowhere import $v\n', E.ImportErrorEx, ANY), ('from os import $nothing_, $path\n', E.ImportErrorEx, ANY),
    ('$v, w += v\n', E.SyntaxErrorEx, ANY), ('%h a a\n  | $v\n', E.SyntaxErrorEx, ANY), ('| {f(a=v, a=v)}\n', E.SyntaxErrorEx, ANY), ('if v\n  %h\n    | x\n', E.SyntaxErrorEx, ANY), ('p\n  | x\ncontext $v as z\n', E.SyntaxErrorEx, ANY), ('p a=$v 1 | x\n', E.SyntaxErrorEx, ANY),
]
def space_paths():
    for i in range(len(PATHS)):
        for v in VALUES: yield ('path', (i, v))
def path(case, cov):
    i, name = case
    body, err, when = PATHS[i]
    v = VALUES[name]
    if not when(v): return
    pre = 'context $v, $f' + (', ' + body[len('context '):body.index('\n')] if body.startswith('context ') else '') + '\n' + DEFS
    if 'p\n  | x\ncontext' in body: pre = ''
    src = pre + (body[body.index('\n') + 1:] if body.startswith('context ') else body)
    hy_ = HyperHTML()
    for kind in ('plain', 'nested', 'hypertag', 'try'):
        s = src
        if kind != 'plain':
            if not pre or 'context' in body or 'from ' in body or '%h' in body: continue
            head = {'nested': 'div\n  p\n', 'hypertag': '%outer\n  div\n', 'try': 'try\n  div\n'}[kind]
            s = pre + head + ''.join('    ' + l + '\n' for l in body.split('\n')[:-1]) + {'nested': '', 'hypertag': 'outer\n', 'try': 'else\n  | caught\n'}[kind]
        cov.execs += 1
        cov.step()
        cov.state((i, name, kind))
        try: out = hy_.render(s, v = v, f = lambda *a, **k: 'f', __tags__ = {'t': v})
        except Exception as ex:
            if kind == 'try' and err is E.FalseValueEx: raise Violation('%s escapes from a try block: %s\n%s with v = %r' % (type(ex).__name__, ex, s, v), key = 'path %d %s %s' % (i, name, kind))
            if not isinstance(ex, err): raise Violation('expected %s, got %s: %s for the script:\n%s\nwith v = %r' % (err.__name__, type(ex).__name__, str(ex)[:200], s, v), key = 'path %d %s %s' % (i, name, kind))
            str(ex), repr(ex)
            continue
        if kind == 'try': continue
        raise Violation('expected %s, got %r for the script:\n%s\nwith v = %r' % (err.__name__, out, s, v), key = 'path %d %s %s' % (i, name, kind))

def prepare(tier):
    util.warm(sys.modules[__name__], tier, 6, 50)
