"""C06: expressions follow Python semantics, grouping and laziness."""
import itertools, sys, zlib
from mc import hy, util
from mc.core import Violation

ID = 'C06'
LEVEL = 'model_checking'
TECHNIQUE = ('bounded exhaustive enumeration of expression trees, printed with only the parentheses that the documented priorities require, evaluated by the real '
             'runtime over tracer operands and compared with Python evaluating the fully parenthesised equivalent')
NOTE = ('every expression tree up to the bound (2 operators of all 46 kinds, 3 operators of one kind per priority level; thorough: 3 of all kinds, 4 of one per level), '
        'with every truth assignment of the operands where laziness matters: value, kind of error and log of evaluated operands must equal those of Python')
RULE = ('trees of operators over distinct operands; operands are tracers that record how they are combined and evaluated; second part: the same with integers, '
        'other spacing, redundant parentheses, and in every position where a script takes an expression')
ASSUMPTIONS = ['unary minus in front of the right operand of an arithmetic operator, unary plus and ~ are not part of the language',
               'order of evaluation of the function name in a pipeline is not observed']

# ---------------------------------------------------------------------------------------------------------------------------------
#  Tracers

class Log:
    value = None
    truth = {}
    log = []

class T:
    __slots__ = ('t',)
    def __init__(self, t): object.__setattr__(self, 't', t)
    def __bool__(self):
        v = Log.truth.get(self.t)
        if v is None: v = bool(zlib.crc32(self.t.encode()) & 4)
        if Log.log[-1:] != ['?' + self.t]: Log.log.append('?' + self.t)     # testing the same value twice in a row is not observable
        return v
    def __str__(self): return '<%s>' % self.t
    __repr__ = __str__
    def __hash__(self): return hash(self.t)
    def __contains__(self, x):
        Log.log.append('%s in %s' % (show(x), self.t))
        return bool(zlib.crc32((show(x) + self.t).encode()) & 4)
    def __call__(self, *a, **k):
        t = '%s(%s)' % (self.t, ','.join([show(x) for x in a] + ['%s=%s' % (n, show(x)) for n, x in k.items()]))
        Log.log.append(t)
        return T(t)
    def __getitem__(self, i): return T('%s[%s]' % (self.t, show(i)))
    def __getattr__(self, n):
        if n[:2] == '__': raise AttributeError(n)
        return T('%s.%s' % (self.t, n))
    def __neg__(self): return T('(-%s)' % self.t)
    def __iter__(self): raise TypeError('tracer is not iterable')

def _bin(op):
    def f(self, o):
        t = '(%s%s%s)' % (self.t, op, show(o))
        Log.log.append(t)
        return T(t)
    def r(self, o):
        t = '(%s%s%s)' % (show(o), op, self.t)
        Log.log.append(t)
        return T(t)
    return f, r

for _n, _op in [('pow', '**'), ('mul', '*'), ('truediv', '/'), ('floordiv', '//'), ('mod', '%'), ('add', '+'), ('sub', '-'), ('lshift', '<<'), ('rshift', '>>'),
                ('and', '&'), ('xor', '^'), ('or', '|')]:
    _f, _r = _bin(_op)
    setattr(T, '__%s__' % _n, _f)
    setattr(T, '__r%s__' % _n, _r)
for _n, _op in [('eq', '=='), ('ne', '!='), ('lt', '<'), ('gt', '>'), ('le', '<='), ('ge', '>=')]:
    setattr(T, '__%s__' % _n, _bin(_op)[0])

def show(v):
    if isinstance(v, T): return v.t
    if isinstance(v, slice): return ':'.join('' if x is None else show(x) for x in (v.start, v.stop, v.step)) + ':'
    if isinstance(v, (list, tuple)): return ('[%s]' if isinstance(v, list) else '(%s,)') % ','.join(show(x) for x in v)
    if isinstance(v, dict): return '{%s}' % ','.join(show(x) + ':' + show(y) for x, y in v.items())
    if isinstance(v, (set, frozenset)): return 'set(%s)' % ','.join(sorted(show(x) for x in v))
    return '%s %r' % (type(v).__name__, v)

# ---------------------------------------------------------------------------------------------------------------------------------
#  Operators:  name -> (level, arity);   levels as documented

LEVEL_OF = {'**': 13, '*': 12, '/': 12, '//': 12, '%': 12, '+': 11, '-': 11, '<<': 10, '>>': 10, '&': 9, '^': 8, '|': 7, 'cat': 5, 'and': 2, 'or': 1}
CMP = ['==', '!=', '<>', '<', '>', '<=', '>=', 'in', 'not in', 'is', 'is not']
for _c in CMP: LEVEL_OF[_c] = 4
BINARY = list(LEVEL_OF)
UNARY = ['neg', 'not', ':f', ':f()', ':f.m', ':f[]', '.m', '[1]', '[:]', '[:1]', '()', 'list', 'tuple1', 'dictv', 'set', 'par']
BIN2 = [':f(x)', ':f(k=x)', ':f.m(x)', '[x]', '[x:]', '[:x]', '[::x]', '(x)', '(k=x)', 'list2', 'tuple2', 'dict', 'if1', '[,]']
TERN = ['if', '[x:x]', '(x,x)', ':f(x,k=x)']
LOGIC = {'and', 'or', 'not', 'if', 'if1'} | set(CMP)
ARITY = dict([(o, 2) for o in BINARY + BIN2] + [(o, 1) for o in UNARY] + [(o, 3) for o in TERN])

def level(op):
    if op in LEVEL_OF: return LEVEL_OF[op]
    if op in ('neg',): return 11
    if op == 'not': return 3
    if op[0] == ':': return 6
    if op in ('if', 'if1'): return 0
    if op in ('list', 'tuple1', 'dictv', 'set', 'list2', 'tuple2', 'dict', 'par'): return 15
    return 14

class Unprintable(Exception): pass

def pr(e, need, sp, full = False):
    """Hypertag text of `e` in a place that requires level >= need."""
    if isinstance(e, str): return e
    op, a = e[0], e[1:]
    s = _pr(op, a, sp, full)
    if op == 'chain': l = 4
    else: l = level(op)
    if l < need or (full and l < 14): return '(%s%s%s)' % (sp[2:], s, sp[2:])
    return s

def _pr(op, a, sp, full):
    P = lambda x, n: pr(x, n, sp, full)
    o = (' ' if sp else '')
    if op == 'chain':
        res = P(a[0], 5)
        for i in range(1, len(a), 2): res += op_text(a[i], sp) + P(a[i+1], 5)
        return res
    if op in CMP: return P(a[0], 5) + op_text(op, sp) + P(a[1], 5)
    if op == 'cat':
        x, y = P(a[0], 5), P(a[1], 6)
        if y[0] in '([-.': raise Unprintable()
        return x + (sp or ' ') + y
    if op == '**': return P(a[0], 14) + op_text(op, sp) + P(a[1], 13)
    if op in LEVEL_OF:
        l = LEVEL_OF[op]
        return P(a[0], l) + op_text(op, sp) + P(a[1], l + 1)
    if op == 'neg': return '-' + P(a[0], 12)
    if op == 'not': return 'not' + (sp or ' ') + P(a[0], 3)
    if op == 'if': return P(a[0], 1) + (sp or ' ') + 'if' + (sp or ' ') + P(a[1], 1) + (sp or ' ') + 'else' + (sp or ' ') + P(a[2], 0)
    if op == 'if1':
        return P(a[0], 1) + (sp or ' ') + 'if' + (sp or ' ') + P(a[1], 1)
    if op[0] == ':': 
        f = {':f': 'f', ':f()': 'f()', ':f.m': 'f.m', ':f[]': 'f[1]', ':f(x)': 'f(%s)', ':f(k=x)': 'f(k=%s)', ':f.m(x)': 'f.m(%s)', ':f(x,k=x)': 'f(%s, k=%s)'}[op]
        if '%' in f: f %= tuple(P(x, 0) for x in a[1:])
        return P(a[0], 6) + sp + ':' + sp + f
    x = a[0]
    if op == '.m': return P(x, 14) + '.m'
    if op == '[1]': return P(x, 14) + '[1]'
    if op == '[:]': return P(x, 14) + '[:]'
    if op == '[:1]': return P(x, 14) + '[:' + o + '1]'
    if op == '()': return P(x, 14) + '()'
    if op == '[x]':
        i = P(a[1], 0)
        return P(x, 14) + '[' + (i if ':' not in i else '(%s)' % i) + ']'       # the colon would make a slice
    if op == '[,]':
        i = P(a[1], 0)
        return P(x, 14) + '[' + (i if ':' not in i else '(%s)' % i) + ',' + o + '2]'
    if op == '[x:]': return P(x, 14) + '[' + P(a[1], 7) + ':]'
    if op == '[:x]': return P(x, 14) + '[:' + P(a[1], 7) + ']'
    if op == '[::x]': return P(x, 14) + '[::' + P(a[1], 7) + ']'
    if op == '[x:x]': return P(x, 14) + '[' + P(a[1], 7) + ':' + P(a[2], 7) + ']'
    if op == '(x)': return P(x, 14) + '(' + P(a[1], 0) + ')'
    if op == '(k=x)': return P(x, 14) + '(k' + o + '=' + o + P(a[1], 0) + ')'
    if op == '(x,x)': return P(x, 14) + '(' + P(a[1], 0) + ',' + o + P(a[2], 0) + ')'
    if op == 'list': return '[' + P(x, 0) + ']'
    if op == 'par': return '(' + P(x, 0) + ')'
    if op == 'tuple1': return '(' + P(x, 0) + ',)'
    if op == 'set':
        i = P(x, 0)
        return '{' + (i if ':' not in i else '(%s)' % i) + '}'
    if op == 'dictv': return '{1:' + P(x, 0) + '}'
    if op == 'list2': return '[' + P(x, 0) + ',' + o + P(a[1], 0) + ']'
    if op == 'tuple2': return '(' + P(x, 0) + ',' + o + P(a[1], 0) + ')'
    if op == 'dict': return '{' + P(x, 7) + ':' + o + P(a[1], 0) + '}'
    raise KeyError(op)

def op_text(op, sp):
    if op[0].isalpha(): return (sp or ' ') + op.replace(' ', sp or ' ') + (sp or ' ')
    return sp + op + sp

def py(e):
    """Python text, fully parenthesised."""
    if isinstance(e, str): return e
    op, a = e[0], e[1:]
    if op == 'chain':
        return '(' + ' '.join(({'<>': '!='}.get(x, x) if i % 2 else py(x)) for i, x in enumerate(a)) + ')'
    a = [py(x) for x in a]
    if op in LEVEL_OF: 
        if op == 'cat': return '_cat(%s, %s)' % tuple(a)
        return '(%s %s %s)' % (a[0], {'<>': '!='}.get(op, op), a[1])
    F = {'neg': '(-%s)', 'not': '(not %s)', ':f': 'f(%s)', ':f()': 'f(%s)', ':f.m': 'f.m(%s)', ':f[]': 'f[1](%s)', '.m': '%s.m', '[1]': '%s[1]', '[:]': '%s[:]', '[:1]': '%s[:1]',
         '()': '%s()', 'list': '[%s]', 'tuple1': '(%s,)', 'dictv': '{1: %s}', 'set': '{%s}', 'par': '(%s)', ':f(x)': 'f(%s, %s)', ':f(k=x)': 'f(%s, k=%s)', ':f.m(x)': 'f.m(%s, %s)',
         '[x]': '%s[%s]', '[x:]': '%s[%s:]', '[:x]': '%s[:%s]', '[::x]': '%s[::%s]', '(x)': '%s(%s)', '(k=x)': '%s(k=%s)', 'list2': '[%s, %s]', 'tuple2': '(%s, %s)',
         'dict': '{%s: %s}', 'if1': "(%s if %s else '')", '[,]': '%s[%s, 2]', 'if': '(%s if %s else %s)', '[x:x]': '%s[%s:%s]', '(x,x)': '%s(%s, %s)', ':f(x,k=x)': 'f(%s, %s, k=%s)'}
    return F[op] % tuple(a)

def _cat(a, b):
    for x in (a, b):
        if x is None: raise hy.E.NoneStringEx('none')
    return str(a) + str(b)

# ---------------------------------------------------------------------------------------------------------------------------------
#  Enumeration

def trees(n, ops, nleaf = [0]):
    """Trees with exactly n operators, leaves are None."""
    if n == 0:
        yield None
        return
    for op in ops:
        k = ARITY[op]
        for sizes in splits(n - 1, k):
            for kids in itertools.product(*[list(trees(s, ops)) for s in sizes]): yield (op,) + kids

def splits(n, k):
    if k == 1:
        yield (n,)
        return
    for i in range(n + 1):
        for r in splits(n - i, k - 1): yield (i,) + r

def named(t, leaf):
    """Fill leaves in order with leaf(i)."""
    count = [0]
    def rec(t):
        if t is None:
            count[0] += 1
            return leaf(count[0] - 1)
        return (t[0],) + tuple(x if isinstance(x, str) and t[0] == 'chain' else rec(x) for x in t[1:])
    return rec(t), count[0]

def ops_of(t):
    if t is None or isinstance(t, str): return set()
    if t[0] == 'chain': return {'<'} | set().union(*[ops_of(x) for x in t[1::2]])
    return {t[0]}.union(*[ops_of(x) for x in t[1:]])

CALL = lambda i: 'abcdefgh'[i] + '()' if i < 5 else 'ghijk'[i - 5] + '()'
NAMES = 'abcdeghijk'        # f is the filter
CALL = lambda i: NAMES[i] + '()'
VARL = lambda i: NAMES[i]

def cases(n, ops, sps = (' ',), truths = True, leaf = CALL, full = False):
    def it():
        for t in trees(n, ops):
            e, k = named(t, leaf)
            logic = truths and bool(ops_of(t) & LOGIC)
            for sp in sps:
                for bits in itertools.product((0, 1), repeat = k) if logic else [(1,) * k]: yield ('tree', (e, k, sp, bits, full))
    return it

def chains(m, ops):
    def it():
        for cs in itertools.product(ops, repeat = m):
            t = ['chain', CALL(0)]
            for i, c in enumerate(cs): t += [c, CALL(i + 1)]
            yield ('tree', (tuple(t), m + 1, ' ', (1,) * (m + 1), False))
    return it

VALUES = [(2, 3, 5, 7, 4), (7, 2, 0, 1, 3), (0, 1, 0, 1, 2), (5, 3, 2, 2, 0), (1, 1, 1, 1, 1), (9, 4, -2, 3, 6)]
INTOPS = [o for o in BINARY if o not in ('in', 'not in')] + ['neg', 'not', 'if', 'if1', ':f', ':f(x)']
def ints(n, ops):
    def it():
        for t in trees(n, ops):
            e, k = named(t, VARL)
            for vals in VALUES: yield ('int', (e, vals))
    return it

REPS = ['**', '*', '+', '<<', '&', '^', '|', 'cat', '<', 'and', 'or', 'neg', 'not', ':f', '.m', 'if']
REPS2 = ['**', '//', '-', '>>', '&', '|', 'cat', 'in', 'or', 'neg', 'not', ':f(x)', '()', 'if1']

POS = ['{}', '{} x', 'string', 'string2', 'if', 'elif', 'while', 'for', 'rhs', 'inplace', 'attr', 'attrpos', 'default', 'arg', 'kwarg', 'nested', 'embed', 'short', 'eval', 'dollar', 'strict', 'strictpos']
PTREES = [t for n in (0, 1) for t in trees(n, BINARY + UNARY + BIN2 + TERN)] + [t for t in trees(2, ['**', '-', '|', 'cat', '==', 'or', 'neg', 'not', ':f(x)', '.m', 'if', 'if1', '[x]', '(x)', 'dict'])]
def positions():
    for t in PTREES:
        e, k = named(t, VARL)
        for pos in POS: yield ('pos', (e, k, pos))

def spaces(tier):
    ALL = BINARY + UNARY + BIN2 + TERN
    sp = [('1 operator', cases(1, ALL, (' ', '', '  ', '\t'))), ('1 operator, variables', cases(1, ALL, leaf = VARL)),
          ('positions', positions),
          ('comparison chains of 3', chains(3, CMP if tier != 'quick' else ['==', '<>', '<', '>=', 'in', 'not in', 'is', 'is not'])),
          ('2 operators', cases(2, ALL if tier != 'quick' else BINARY + ['neg', 'not', ':f', '.m', '()', ':f(x)', '[x]', '(k=x)', 'if', 'if1', 'dict', 'list2', '[x:]', 'list', '[:x]'], truths = tier != 'quick')),
          ('2 operators, laziness', cases(2, ['and', 'or', 'not', 'if', 'if1', '<', 'in', '+', 'cat', ':f(x)', 'neg'])),
          ('2 operators, no spaces', cases(2, [o for o in BINARY if o not in CMP[3:]] + ['neg', ':f', '(x)', '.m'], ('',), False)),
          ('2 operators, all parentheses', cases(2, REPS, (' ', '  '), False, full = True)),
          ('2 operators, integers', ints(2, INTOPS if tier != 'quick' else [o for o in INTOPS if o not in ('<=', '>', '!=', 'is not', '>>', '^')])),
          ('3 operators, one per level', cases(3, REPS, truths = False)),
          ]
    if tier != 'quick':
        sp += [('comparison chains of 4', chains(4, ['==', '<>', '<', 'in', 'is not'])),
               ('3 operators, binary', cases(3, BINARY + ['neg', 'not', ':f', 'if1'], truths = False)),
               ('3 operators, second choice', cases(3, REPS2)),
               ('4 operators, one per level', cases(4, ['**', '*', '-', '<<', '|', 'cat', '<', 'or', 'neg', 'not', ':f'], truths = False))]
    else:
        sp += [('3 operators, laziness', cases(3, ['and', 'or', 'not', 'if', '<']))]
    return sp

def prepare(tier): util.warm(sys.modules[__name__], tier, 40, 60)

ENV = {'_cat': _cat}
def python(text, names, values):
    Log.log = []
    g = dict(ENV)
    g.update(zip(names, values))
    try:
        v = eval(text, g)
        Log.value = v
        return ('ok', show(v)), Log.log
    except Exception as ex: return ('err', hy.kind_of(ex)), Log.log

def run(case, cov):
    kind, arg = case
    if kind == 'tree':
        e, k, sp, bits, full = arg
        try: src = pr(e, 0, sp, full)
        except Unprintable:
            cov.count('not_expressible')
            return
        names = NAMES[:k]
        Log.truth = {}
        for n, b in zip(names, bits):
            Log.truth[n] = Log.truth[n + '()'] = bool(b)
        vals = [T(n) for n in names]
        exp, elog = python(py(e), list(names) + ['f'], vals + [T('f')])
        check(cov, src, '$ out(%s)' % src, names, vals, exp, elog)
    elif kind == 'int':
        e, values = arg
        try: src = pr(e, 0, ' ')
        except Unprintable: return
        names = NAMES[:5]
        fun = lambda x, y = 10: (x, y)
        exp, elog = python(py(e), list(names) + ['f'], list(values) + [fun])
        check(cov, src, '$ out(%s)' % src, names, list(values), exp, [], fun)
    else:
        e, k, pos = arg
        try: src = pr(e, 0, ' ')
        except Unprintable: return
        names = NAMES[:k]
        Log.truth = {}
        vals = [T(n) for n in names]
        exp, elog = python(py(e), list(names) + ['f'], vals + [T('f')])
        if exp[0] == 'err': return
        script, want = position(pos, e, src, py(e), exp)
        if script is None: return
        if want is not None:
            exp, elog = want
        check(cov, src, script, names, vals, exp, None)

def position(pos, e, src, pysrc, exp):
    """-> script that passes the value of the expression to out(); (expected value, log) if it is not the value itself."""
    text = ('ok', None)
    simple = not isinstance(e, tuple) or level(e[0]) >= 14
    S = '(%s)' % src
    if pos == '{}': return '| { %s }' % src, None
    if pos == '{} x': return '/ a{%s} b' % (src if src[0] != '{' else ' ' + src), None
    if pos == 'string': return '$ out(\'{%s}\')' % (src if src[0] != '{' else ' ' + src), None
    if pos == 'string2': return '$ out("x{ %s }")' % src, None
    if pos == 'if': return 'if out(%s):\n  pass' % src, None
    if pos == 'elif': return 'if 0:\n  pass\nelif %s:\n  pass\n$ out(%s)' % (S, src), None
    if pos == 'while': return 'while not_(out(%s)):\n  pass' % src, None
    if pos == 'for': return 'for q in [%s]:\n  $ out(q)' % src, None
    if pos == 'rhs': return '$q = %s\n$ out(q)' % src, None
    if pos == 'inplace': return '$q = []\n$q += [%s]\n$ out(q[0])' % src, None
    if pos == 'attr': return 'p a={ %s }' % src, None
    if pos == 'attrpos': return '%%H q\n  $ out(q)\nH { %s }' % src, None
    if pos == 'default': return '%%H q={ %s }\n  $ out(q)\nH' % src, None
    if pos == 'arg': return '$ out(%s)' % src, None
    if pos == 'kwarg': return '$ out(v=%s)' % src, None
    if pos == 'nested': return '$ [{1: (out(%s),)}]' % src, None
    if pos == 'embed': return '@ node(out(%s))' % src, None
    if pos == 'short': return 'p #{ %s }' % src, None
    if pos == 'eval': return '$ out([%s][0])' % src, None
    if pos == 'dollar':
        if not simple or not src[0].isalpha() or ' ' in src.replace(', ', ','): return None, None
        return '/ a $%s b' % src, None
    if pos == 'strict':
        if not simple or src[0] == '{': src = S
        return 'p a=%s' % src, None
    if pos == 'strictpos':
        if not simple or src[0] == '{': src = S
        return '%%H q\n  $ out(q)\nH %s' % src, None

def check(cov, src, script, names, vals, exp, elog, fun = None):
    seen = []
    def out(v):
        seen.append(show(v))
        return v
    value = Log.value
    ctx = dict(zip(names, vals), f = fun or T('f'), out = out, not_ = lambda v: False, node = lambda v: [])
    full = 'context %s\n%s\n' % (', '.join('$' + n for n in ctx), script)
    Log.log = []
    got = hy.render(full, **ctx)
    log = Log.log
    cov.execs += 1
    cov.step(len(log) + 1)
    cov.sample(src)
    cov.state(exp)
    if got[0] == 'ok' and exp[0] == 'ok':
        if 'out(' in script:
            want = exp[1]
            if "'{" in script: want = 'str %r' % str(value)
            if '"x{' in script: want = 'str %r' % ('x' + str(value))
            ok = seen == [want]
            res = seen
        else:
            if exp[1] == 'NoneType None': return
            s = str(value)
            E = s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
            if script[0] == '|': want = E + '\n'
            elif script[:3] == '/ a': want = ('a%s b\n' if '{' in script else 'a %s b\n') % s
            else:
                if exp[1] in ('bool True', 'bool False'): return
                q = "'" if '"' in s else '"'
                want = '<p %s=%s%s%s></p>\n' % ('id' if '#' in script else 'a', q, E, q)
                if '"' in s and "'" in s: want = '<p %s="%s"></p>\n' % ('id' if '#' in script else 'a', E.replace('"', '&quot;'))
            ok = got[1] == want
            res = got[1]
        if ok and elog is not None: ok = log == elog
    else:
        ok = got == exp
        want, res = exp, got
    if not ok:
        raise Violation('expression %s: expected %r, got %r; evaluations expected %r, got %r; script:\n%s' % (src, want, res, elog, log, full), key = full)

