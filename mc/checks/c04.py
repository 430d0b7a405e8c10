"""C04: control blocks execute exactly the branches and iterations demanded."""
import itertools, sys
from functools import lru_cache
from mc import hy, lang, util
from mc.lang import *
from mc.util import compare

ID = 'C04'
LEVEL = 'model_checking'
TECHNIQUE = 'bounded exhaustive enumeration of control-flow programs and of all outcomes of their conditions, run on the real runtime in lock-step with a reference interpreter'
NOTE = ('every program up to the size bound over if/elif/else, for/else, while/else, try/else, tags, assignments and texts, under every outcome pattern of '
        'every condition; both the document and the sequence of evaluated conditions must equal the reference interpreter (mc/lang.py)')
RULE = ('programs: all block lists with the stated number of nodes; conditions and loop sequences are calls of a recording function whose results are '
        'enumerated (never, always, alternating; 0-2 iterations); second part: all clause layouts (missing, inline, outlined body; colon or not); third: '
        'all loop targets against all item shapes and kinds of iterables')
ASSUMPTIONS = ['loops of at most 3 iterations', 'the layout of a blank line that opens a control body is unspecified (skipped)']

# ---- part 1: programs

def compositions(n, k):
    if k == 1:
        yield (n,)
        return
    for i in range(n + 1):
        for rest in compositions(n - i, k - 1): yield (i,) + rest

CLAUSES = {'if': 1, 'ife': 2, 'ifi': 2, 'ifie': 3, 'for': 1, 'fore': 2, 'while': 1, 'whilee': 2, 'try': 1, 'trye': 2, 'p': 1, '.': 1}
COND = {'if': 1, 'ife': 1, 'ifi': 2, 'ifie': 2, 'for': 1, 'fore': 1, 'while': 1, 'whilee': 1}

@lru_cache(None)
def lists(n, leaves, conts):
    if n == 0: return ((),)
    res = []
    for k in range(1, n + 1):
        for s in stmts(k, leaves, conts):
            for rest in lists(n - k, leaves, conts): res.append((s,) + rest)
    return tuple(res)

@lru_cache(None)
def stmts(k, leaves, conts):
    res = []
    if k == 1: res += [(l,) for l in leaves]
    for c in conts:
        for sizes in compositions(k - 1, CLAUSES[c]):
            for bodies in itertools.product(*[lists(s, leaves, conts) for s in sizes]): res.append((c,) + bodies)
    return tuple(res)

def ncond(prog):
    return sum(COND.get(s[0], 0) + sum(ncond(b) for b in s[1:]) for s in prog)

def condkinds(prog):
    res = []
    for s in prog:
        k = {'if': 'i', 'for': 'f', 'fore': 'f', 'while': 'w', 'whilee': 'w'}.get(s[0])
        if s[0] in COND: res += [k or 'i'] * COND[s[0]]
        for b in s[1:]: res += condkinds(b)
    return res

IF_PATTERNS   = [(0,), (1,), (1, 0), (0, 1)]
LOOP_PATTERNS = [0, 1, 2]

class Build:
    def __init__(self):
        self.n = self.c = 0
    def lab(self):
        self.n += 1
        return 'abcdefghijklmnopqrstuvwxyz'[self.n - 1]
    def cond(self):
        self.c += 1
        return self.c - 1
    def body(self, prog): return [self.stmt(s) for s in prog]
    def stmt(self, s):
        k, x = s[0], self.lab()
        if k == 't':  return Text(x)
        if k == 'tv': return Text([x, Emb('v')])
        if k == 'a':  return Assign('v', "'%s'" % x)
        if k == 'w':  return Assign('v', "'%s'" % x, '+')
        if k == 'pt': return Struct('p', inline = Text([x, Emb('v')]))
        if k == 'xx': return Text([x, Emb('1/0')])
        if k == 'x':  return Text([x, Emb('x%d' % max(self.c - 1, 0))])
        bodies = s[1:]
        if k in ('p', '.'): return Struct(k, self.body(bodies[0]))
        if k in ('try', 'trye'): return Try([Branch(None, self.body(b)) for b in bodies])
        conds = [self.cond() for _ in range(COND[k])]
        bs = [self.body(b) for b in bodies]
        els = Branch(None, bs[-1]) if k in ('ife', 'ifie', 'fore', 'whilee') else None
        if k[:2] == 'if': return If([Branch('c(%d)' % i, b) for i, b in zip(conds, bs)], els)
        if k[:3] == 'for': return For('x%d' % conds[0], 's(%d)' % conds[0], bs[0], els = els)
        return While('c(%d)' % conds[0], bs[0], els = els)

class Oracle:
    """Recording functions: c(k) yields the outcomes of pattern k cyclically, s(k) the items of loop k."""
    def __init__(self, patterns):
        self.patterns, self.calls, self.log = patterns, {}, []
    def c(self, k):
        i = self.calls.get(k, 0)
        self.calls[k] = i + 1
        p = self.patterns[k]
        if isinstance(p, int): p = (1,) * p + (0,)
        r = p[i % len(p)]
        self.log.append((k, r))
        return r
    def s(self, k):
        self.log.append((k, 's'))
        return ['%d%s' % (k, 'yz'[i]) for i in range(self.patterns[k])]

def fresh_of(patterns):
    def fresh():
        o = Oracle(patterns)
        return {'$c': o.c, '$s': o.s}, o.log
    return fresh

def programs(n, leaves, conts, pre = (0, 1), patterns = IF_PATTERNS, maxcond = 3):
    def it():
        for prog in lists(n, leaves, conts):
            kinds = condkinds(prog)
            if not kinds or len(kinds) > maxcond: continue
            for pats in itertools.product(*[patterns if k == 'i' else LOOP_PATTERNS for k in kinds]):
                for v in pre: yield ('prog', (prog, pats, v))
    return it

# ---- part 2: clause layouts

BODIES = ['-', ':', '|', '/', '!', '|2', 't', 'pp', '$']
def layouts():
    for kind, nmin, nmax in (('if', 1, 3), ('for', 1, 2), ('while', 1, 2), ('try', 1, 3)):
        for n in range(nmin, nmax + 1):
            for bodies in itertools.product(BODIES, repeat = n):
                for els in ((False, True) if kind == 'if' and n > 1 else (True,)):
                    nc = {'if': n - (1 if els and n > 1 else 0), 'for': 1, 'while': 1, 'try': 0}[kind]
                    for pats in itertools.product((0, 1), repeat = nc): yield ('layout', (kind, bodies, els, pats))

def layout_blocks(kind, bodies, els):
    fix = []
    def clause(head, b, label):
        fail = kind == 'try' and label != 'c'
        x = [label, Emb('1/0')] if fail else label
        if b == '-': return Branch(None), head
        if b == ':': return Branch(None), head + ':'
        if b in '|/!': return Branch(None, inline = Text(x, b)), head
        if b == '|2': return Branch(None, inline = Text(x, '|', [('    ', label + '2'), ('  ', label + '3')])), head
        if b == 't': return Branch(None, [Text(x)]), head + (':' if label == 'a' else '')
        if b == 'pp': return Branch(None, [Struct('p', inline = Text(x)), Struct('div', [Text(label)])]), head + ':'
        if b == '$': return Branch(None, [Assign('v', "'%s'%s" % (label, '[9]' if fail else ''))]), head + ':'
    heads = []
    n = len(bodies)
    for i, b in enumerate(bodies):
        last = els and n > 1 and i == n - 1
        if kind == 'if': h = 'else' if last else '%s (c(%d))' % ('elif' if i else 'if', i)
        elif kind == 'for': h = 'else' if i else 'for x in (s(0))'
        elif kind == 'while': h = 'else' if i else 'while (c(0))'
        else: h = 'else' if i else 'try'
        heads.append(clause(h, b, 'abc'[i]))
    return heads

class Layout(Control):
    """Control block with explicitly given clause headers."""
    def __init__(self, inner, heads):
        self.inner, self.heads = inner, heads
    def lines(self):
        res = []
        for br, head in self.heads:
            if br.inline is not None:
                br.inline.column = len(head) + 1
                il = br.inline.lines()
                res += [head + ' ' + il[0]] + il[1:]
            else: res += [head] + indented(br.body, '  ')
        return res
    def resolve_(self, scope): self.inner.resolve_(scope)
    def nodes(self, fr): return self.inner.nodes(fr)

def make_layout(kind, bodies, els):
    heads = layout_blocks(kind, bodies, els)
    brs = [h[0] for h in heads]
    last = brs[-1] if els and len(brs) > 1 else None
    if kind == 'if':
        main = brs[:-1] if last else brs
        for i, b in enumerate(main): b.cond = X('c(%d)' % i)
        inner = If(main, last)
    elif kind == 'for':
        inner = For('x', 's(0)', brs[0].body, brs[0].inline, last)
    elif kind == 'while':
        inner = While('c(0)', brs[0].body, brs[0].inline, last)
    else: inner = Try(brs)
    return Layout(inner, heads)

# ---- part 3: loop targets and iterables

TARGETS = ['x', 'x,', '(x)', 'x, y', '(x, y)', '(x, y),', 'x, (y, z)', '(x, y), z', 'x, y, z', '((x, y), z)', '((x,),)', '_']
ITEMS = ['1', '(1, 2)', '[1]', '(1, (2, 3))', '((1, 2), 3)', '(1, 2, 3)', '"ab"', '"a"', '((1,),)', '{1: 2}', '()', 'None', '((1, 2),)', '[[1, 2], [3]]']
ITERABLES = ['[%s]', '[%s, %s]', '(%s,)', '[]', 'iter([%s])', '{0: %s}.values()', '{0: %s}.items()', 'enumerate([%s])', 'zip([%s, %s], [5, 6])',
             '(%s, %s)', 'reversed([%s])', 'list(range(2))', '%s', 'sorted([0])']
FREE = ['1, 2', '%s, %s', '%s,']        # sequences given as tuples without parentheses

def targets():
    for t in TARGETS:
        for item in ITEMS:
            for seq in ITERABLES:
                yield ('targets', (t, seq.replace('%s', item), 0))
            for seq in FREE: yield ('targets', (t, seq.replace('%s', item), 1))

FORS = ['\'abc\'', '""', 'range(0)', 'range(3)', '{1, 2}', '{}', '{1: 2}', 'None', '5', '(1/0)', 'undefined', 'dict(a=1)', '[0, None, ""]', 'x', 'l', 'l[1:]', 'g()', 'iter(l)',
        'map(str, l)', 'gx()', '[i2]', 'len', 'l if 0 else []', 'not l', 'l and [9]', 'l * 2', 'l + l']
def sequences():
    for s in FORS:
        for body in ('', 'x', 'app', 'set', 'brk'):
            for els in (0, 1, 2):
                for wrap in ('', 'p', 'try', 'H'): yield ('seq', (s, body, els, wrap))

CONDS = ['0', '1', '""', "'0'", '[]', '[0]', '{}', 'None', '0.0', 'True', 'False', 'x', 'not x', 'l', 'l[0]', 'x == 1', 'x > 0 and l', 'x or l', 'x if l else 0', '()', '(0,)',
         'len(l)', '(1/0)', 'undefined', '"a" in "abc"', 'x is None', '-1', 'x?', 'l[9]?', 'x!', 'o', 'z']
PY = {'x?': 'x', 'l[9]?': "''", 'x!': 'x'}
def conditions():
    for form in range(8):
        for c in CONDS:
            for c2 in CONDS[:12]: yield ('conds', (form, c, c2))

class Truth:
    def __init__(self, log, v): self.log, self.v = log, v
    def __bool__(self):
        self.log.append('bool')
        if self.v is None: raise ValueError()
        return self.v

def spaces(tier):
    A = ('t', 'a', 'tv')
    B = ('tv', 'w')
    C1 = ('if', 'ife', 'ifi', 'ifie', 'for', 'fore', 'while', 'whilee', 'p')
    sp = [('all clause layouts', layouts), ('loop targets', targets), ('loop sequences', sequences), ('condition expressions', conditions),
          ('programs, size 1', programs(1, ('t',), C1)),
          ('programs, size 2', programs(2, ('t', 'a', 'tv', 'w', 'pt', 'x'), C1 + ('trye', 'try', '.')))]
    if tier == 'quick':
        sp += [('programs, size 3', programs(3, ('a', 'tv'), ('ife', 'ifi', 'fore', 'whilee', 'p'), (1,), [(0,), (1,), (0, 1)])),
               ('programs, size 4', programs(4, ('a', 'tv'), ('ife', 'fore'), (0,), [(0,), (1,)], 2))]
    else:
        sp += [('programs, size 3', programs(3, ('t', 'a', 'tv', 'w', 'x', 'xx'), C1 + ('trye',))),
               ('programs, size 4', programs(4, ('a', 'tv'), ('if', 'ife', 'ifi', 'fore', 'whilee', 'p', 'trye'), (0, 1), [(0,), (1,), (0, 1)])),
               ('programs, size 5', programs(5, ('a', 'tv'), ('ife', 'fore', 'whilee'), (0,), [(0,), (1,)], 3))]
    return sp

def prepare(tier): util.warm(sys.modules[__name__], tier)

def run(case, cov):
    kind, arg = case
    pre = [Context('$c', '$s')]
    if kind == 'prog':
        prog, pats, v = arg
        b = Build()
        body = b.body(prog)
        blocks = pre + ([Assign('v', "'0'")] if v else []) + body + [Text(['.', Emb('v')]) if v or 'a' in repr(prog) else Text('.')]
        compare(blocks, cov, what = 'control', fresh = fresh_of(pats))
    elif kind == 'layout':
        k, bodies, els, pats = arg
        blocks = pre + [Assign('v', "'0'"), Text('('), make_layout(k, bodies, els), Text([')', Emb('v')])]
        compare(blocks, cov, what = 'clauses', fresh = fresh_of(pats))
        blocks = pre + [Assign('v', "'0'"), Struct('div', [make_layout(k, bodies, els), Text(['-', Emb('v')])], ind = '    ')]
        compare(blocks, cov, what = 'clauses', fresh = fresh_of(pats))
    elif kind == 'targets':
        t, seq, free = arg
        names = sorted(set(c for c in t if c in 'xyz_'))
        body = [Text([Emb('str(%s)' % n) for n in names])]
        f = For(t, seq, body, els = Branch(None, [Text('none')]))
        compare([Assign('x', "'s'"), Try([Branch(None, [f, Text(['after', Emb('str(%s)' % names[0])])]), Branch(None, [Text('failed')])])], cov, what = 'loop targets')
        f = For(t, seq, body)
        compare([f, Text([Emb('str(%s)' % names[-1])])], cov, what = 'loop targets')
    elif kind == 'seq':
        s, body, els, wrap = arg
        log = []
        def fresh():
            log = []
            l = [1, 2]
            def g():
                log.append('g')
                for i in range(2):
                    log.append(i)
                    yield i
            def gx():
                log.append('gx')
                yield 1
                raise KeyError(1)
            return {'$l': l, '$g': g, '$gx': gx, '$x': [7, 8], '$log': log.append}, log
        bodies = {'': [], 'x': [Text([Emb('str(x)')])], 'app': [Eval('log(x)'), If([Branch('len(l) < 4', [Eval('l.append(x)')])])],
                  'set': [Text([Emb('str(x)')]), Assign('x', '5'), Text([Emb('x')])], 'brk': [Struct('p', [Assign('x', '6'), Text([Emb('x')])]), Text([Emb('str(x)')])]}
        e = [None, Branch(None), Branch(None, [Text(['else', Emb('str(x)')]), Assign('x', '0')])][els]
        blocks = [For('x', s, bodies[body], els = e), Text(['end', Emb('str(x)')])]
        if wrap == 'p': blocks = [Struct('p', blocks)]
        elif wrap == 'try': blocks = [Try([Branch(None, blocks), Branch(None, [Text(['failed', Emb('str(x)')])])])]
        elif wrap == 'H': blocks = [Def('H', ['l2'], body = blocks), Struct(T('H', Pos('1'))), Struct(T('H', Pos('2')))]
        compare([Context('$l', '$g', '$gx', '$x', '$log')] + blocks, cov, what = 'for', fresh = fresh)
    elif kind == 'conds':
        form, c, c2 = arg
        c = Ex(c, PY.get(c))
        def fresh():
            log = []
            return {'$x': 1, '$l': [3], '$o': Truth(log, True), '$z': Truth(log, False)}, log
        a, b, d = [Text('a')], [Text('b')], Branch(None, [Text('c')])
        if form == 0: bl = [If([Branch(c, a), Branch(c2, b)], d)]
        elif form == 1: bl = [If([Branch(c, inline = Text('a')), Branch(c2, inline = Text('b'))], d, colon = False)]
        elif form == 2: bl = [If([Branch(c, a)], Branch(None, [If([Branch(c2, b)], d)]))]
        elif form == 3: bl = [If([Branch(c, [If([Branch(c2, b)])])], d)]
        elif form == 4: bl = [Try([Branch(None, [If([Branch(c, a), Branch(c2)], d)]), Branch(None, [Text('failed')])])]
        elif form == 5: bl = [Assign('n', '0'), While(Ex('n < 2 and (%s)' % c.src, 'n < 2 and (%s)' % c.py), [Text('a'), Assign('n', '1', '+'), If([Branch(c2, b)], d)], els = d)]
        elif form == 6: bl = [Def('H', ['q'], body = [If([Branch('q', a), Branch(c2, b)], d)]), Struct(T('H', Pos('(%s)' % c.src, c.py)))]
        else: bl = [If([Branch(c)]), If([Branch(c, [Pass()]), Branch(c2, [Comment(), Text('b')])], d)]
        compare([Context('$x', '$l', '$o', '$z')] + bl, cov, what = 'conditions', fresh = fresh)
