"""C21: each expression is evaluated exactly once per execution, in script order."""
import itertools, os, shutil, sys, tempfile
from mc import gen, hy, lang, util
from mc.core import Violation
from mc.lang import *
from hypertag import Tag

ID = 'C21'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive exploration of all bounded scripts with a recording function in every expression position, under all outcomes of their conditions and with a failure injected at every single evaluation; oracle: the log of evaluations of a reference interpreter (of Python for the inside of expressions)'
NOTE = ('all forests of up to 2 (3) blocks of 30 kinds, all outcomes of conditions and all fault points; all compositions of 2 operators of 40 with recorders as operands in 12 positions, all truth values; '
        're-rendering, re-insertion, selection and repeated import of documents; lazily consumed iterators')
RULE = 'forest of blocks x outcomes of conditions x position of an injected failure; operator x operand x operator x truth values x position'
ASSUMPTIONS = ['attributes of a tag precede its body, as in the script; default values are evaluated on expansion, in the order of definition, after the given attributes and body']

DIR = [None]
def prepare(tier):
    DIR[0] = tempfile.mkdtemp(prefix = 'mc-c21-')
    util.warm(sys.modules[__name__], tier, 12, 57)
def finish():
    if DIR[0]: shutil.rmtree(DIR[0], ignore_errors = True)
def bad(key, what, *a): raise Violation(what % a, key = key)

# ----- recorders
class Boom(ZeroDivisionError): pass
class Rec:
    """r(i) records i and returns a value; c(i) gives the outcome of a condition; it(i) - an iterator."""
    def __init__(self, pattern, fault = None):
        self.log, self.pattern, self.fault, self.nc = [], pattern, fault, 0
    def _add(self, x):
        self.log.append(x)
        if len(self.log) > 400: raise Exception('too many')
        if self.fault is not None and len(self.log) == self.fault + 1: raise Boom()
    def r(self, i):
        self._add(i)
        return i
    def c(self, i):
        self._add(('c', i))
        self.nc += 1
        return self.pattern[(self.nc - 1) % len(self.pattern)]
    def it(self, i):
        self._add(('it', i))
        self.nc += 1
        n = self.pattern[(self.nc - 1) % len(self.pattern)]
        return self._gen(i, 2 if n else 0)
    def _gen(self, i, n):
        for k in range(n):
            self._add(('next', i, k))
            yield k
        self._add(('end', i))

class Builder:
    """Forest -> blocks, every expression position holds a recorder of its own number."""
    def __init__(self): self.n = 0
    def i(self):
        self.n += 1
        return self.n
    def R(self): return 'r(%d)' % self.i()
    def E(self): return Emb(self.R())
    def forest(self, f): return [self.block(l, kids) for l, kids in f]
    def block(self, label, kids):
        R, E, i = self.R, self.E, self.i
        if label == 'text': return Text(['a', E(), ' ', E()], tail = [('  ', ['b', E()]), None, ('    ', [E()])])
        if label == 'markup': return Text([E(), '-', E()], '/', [('  ', [E()])])
        if label == 'assign': return Assign('v', R())
        if label == 'unpack': return Assign('v, (w, u)', '[%s, [%s, %s]]' % (R(), R(), R()))
        if label == 'inplace': return Assign('v', R(), '+')
        if label == 'eval': return Eval(R())
        if label == 'use': return Text([Emb('v'), E()])
        if label == 'g': return Struct('g')
        if label == 'g1': return Struct(T('g', Pos('(%s)' % R(), R_(self))))
        if label == 'g2': return Struct(T('g', K('k', R()), K('a', R())))
        if label == 'g3':
            x = R()
            return Struct(T('g', Pos('{%s}' % x, x), K('k', R())))
        if label == 'xg': return self.xg()
        if label == 'chain': return Struct([T('p', K('q', R()), K('z', R())), T('b', K('q', R()))], inline = Text([E(), E()]))
        if label == 'short': return self.short()
        if label == 'inline': return Struct(T('p', K('a', R())), inline = Text([E()], '/'))
        if label == 'full': return Struct('p', colon = True, head = Text([E()]), body = [Eval(R())])
        if label == 'void': return Struct(T('img', K('a', R())))
        if label == 'opt': return Opt(Struct(T('p', K('a', R())), [Eval(R())]))
        if label == 'opttext': return Opt(Text([E(), E()]))
        if label == 'def': return Def('f%d' % i(), [('a', R())], body = [Eval(R())])
        if label == 'none': return Def('g', [('a', R()), ('k', R())], body = [Text([Emb('a'), Emb('k'), E()])])
        if label == 'comment': return Comment(' {r(%d)} $ r(%d)' % (i(), i()), tail = [('  ', '| {r(77)}')])
        if label == 'verb': return Text('{r(5)} $v', '!')
        # containers
        if label == 'p':
            t = T('p', K('a', R()))
            return Struct(t, self.forest(kids))
        if label == 'pp':
            t = [T('p', K('a', R())), T('h', K('a', R())), T('b')]
            return Struct(t, self.forest(kids))
        if label == 'h':
            t = T('h')
            return Struct(t, self.forest(kids))
        if label == 'h1':
            t = T('h', K('a', R()))
            return Struct(t, self.forest(kids))
        if label == 'h0':
            x = R()
            t = T('h0', Pos('(%s)' % x, x))
            return Struct(t, self.forest(kids))
        if label == '.': return Struct('.', self.forest(kids))
        if label == 'if':
            c = 'c(%d)' % i()
            return If([Branch(c, self.forest(kids))])
        if label == 'ifelse':
            a, body = 'c(%d)' % i(), self.forest(kids)
            b = 'c(%d)' % i()
            return If([Branch(a, body), Branch(b, [Eval(R())])], Branch(None, [Text([E()])]))
        if label == 'else':
            a, b = 'c(%d)' % i(), 'c(%d)' % i()
            x = [Eval(R())]
            return If([Branch(a, x), Branch(b, inline = Text([E()]))], Branch(None, self.forest(kids)))
        if label == 'for':
            c = 'it(%d)' % i()
            return For('x', c, self.forest(kids) + [Text([Emb('x'), E()])])
        if label == 'forelse':
            c = 'it(%d)' % i()
            return For('x', c, [Eval(R())], els = Branch(None, self.forest(kids)))
        if label == 'while':
            c = 'c(%d)' % i()
            return While(c, self.forest(kids), els = Branch(None, [Eval(R())]))
        if label == 'try':
            body = [Eval(R())] + self.forest(kids) + [Text([E()])]
            return Try([Branch(None, body), Branch(None, [Eval(R()), Text([E()])])])
        if label == 'tryelse':
            return Try([Branch(None, [Text([E(), Emb('1/0')])]), Branch(None, self.forest(kids)), Branch(None, [Eval(R())])])
        if label == 'defh':
            name = 'd%d' % i()
            return [Def(name, [('a', R())], 'b', self.forest(kids) + [Embed('b')]), Struct(name, [Text([E()])]), Struct(T(name, Pos('5')), [Text([E()])])]
        raise KeyError(label)
    def short(self):
        a, b, c = self.R(), self.R(), self.R()
        return Struct(T('p', At('.', X('{str(%s)}' % a, 'str(%s)' % a)), At('#', X('{%s}' % b, b)), At('.', X('{str(%s)}' % c, 'str(%s)' % c))), inline = Text([self.E()]))
    def xg(self):
        a, b, c = self.R(), self.R(), self.R()
        return Text([Emb(X('%%g(a=%s, k=%s)' % (a, b), '_tag_g(None, a=%s, k=%s)' % (a, b))), Emb(c)])
def R_(b): return 'r(%d)' % b.n

LEAVES = ['text', 'markup', 'assign', 'unpack', 'inplace', 'eval', 'use', 'g', 'g1', 'g2', 'g3', 'xg', 'chain', 'short', 'inline', 'full', 'void', 'opt', 'opttext', 'def', 'none', 'comment', 'verb']
CONTS = ['p', 'pp', 'h', 'h1', 'h0', '.', 'if', 'ifelse', 'else', 'for', 'forelse', 'while', 'try', 'tryelse', 'defh']
CONTROL = {'if', 'ifelse', 'else', 'for', 'forelse', 'while', 'try', 'tryelse'}

def prelude():
    return [Context('$r', '$c', '$it'), Assign('v', '0'),
            Def('g', [('a', 'r(1001)'), ('k', 'r(1002)')], body = [Text([Emb('a'), Emb('k'), Emb('r(1003)')])]),
            Def('h', [('a', 'r(1011)')], 'b', body = [Struct(T('div', K('q', 'a')), [Embed('b'), Eval('r(1012)'), Embed('b')]), Embed('b')]),
            Def('h0', [('a', 'r(1021)')], 'b', body = [Text([Emb('r(1022)')])])]

def flat(blocks):
    out = []
    for b in blocks:
        if isinstance(b, list): out += flat(b)
        else:
            for name in ('body',):
                if isinstance(getattr(b, name, None), list): setattr(b, name, flat(getattr(b, name)))
            for br in getattr(b, 'branches', None) or getattr(b, 'clauses', None) or []: br.body = flat(br.body)
            if getattr(b, 'els', None): b.els.body = flat(b.els.body)
            out.append(b)
    return out

def program(f):
    b = Builder()
    return flat(prelude() + b.forest(f) + [Eval('r(2000)')])

def conds(f):
    """Number of evaluations of conditions to be enumerated."""
    n = 0
    for l, kids in f:
        n += {'if': 1, 'ifelse': 2, 'else': 2, 'for': 1, 'forelse': 1, 'while': 2}.get(l, 0) + conds(kids)
    return n
def has_def(f, inside = False):
    for l, kids in f:
        if inside and l in ('def', 'none', 'defh'): return True
        if has_def(kids, inside or l in CONTROL): return True
    return False

# ----- expressions
OPS = [     # (hypertag, python, arity); operands @1 @2 ... are complete parenthesised expressions
  ('@1 + @2', None, 2), ('@1 - @2', None, 2), ('@1 * @2', None, 2), ('@1 / @2', None, 2), ('@1 // @2', None, 2), ('@1 % @2', None, 2), ('@1 ** @2', None, 2), ('-@1', None, 1), ('@1 << @2', None, 2), ('@1 & @2', None, 2), ('@1 | @2', None, 2), ('@1 ^ @2', None, 2),
  ('@1 - @2 + @3', None, 3), ('@1 * @2 // @3', None, 3), ('@1 ** @2 ** @3', None, 3), ('@1 >> @2', None, 2), ('@1 <> @2', '@1 != @2', 2), ('@1 & @2 & @3', None, 3), ('@1 @2 @3', "str(@1) + str(@2) + str(@3)", 3), ('@1 or @2 or @3', None, 3), ('not not @1', 'not not @1', 1), ('@1 and @2 and @3', None, 3),
  ('@1 if @2 else @3 if @4 else @5', None, 5), ('f(k=@1, j=@2, i=@3)', None, 3), ('[[@1], (@2, {@3})]', None, 3), ('o.m(@1) == o', None, 1),
  ('@1 and @2', None, 2), ('@1 or @2', None, 2), ('not @1', None, 1), ('@1 and @2 or @3', None, 3), ('@1 or @2 and @3', None, 3), ('@1 if @2 else @3', None, 3), ('@1 if @2', "@1 if @2 else ''", 2),
  ('@1 < @2 < @3', None, 3), ('@1 == @2', None, 2), ('@1 in [@2, @3]', None, 3), ('@1 != @2 >= @3 == 1', None, 3), ('@1 is not @2', None, 2), ('@1 not in (@2,)', None, 2),
  ('[@1, @2, @3]', None, 3), ('(@1, @2)', None, 2), ('{@1, @2}', None, 2), ('{@1: @2, 7: @3}', None, 3), ('{0: @1, @2: @3}', None, 3),
  ('f(@1, @2, k=@3)', None, 3), ('f(a=@1, b=@2)', None, 2), ('f(@1)(@2)', 'f(@1)(@2)', 2), ('o.m(@1).m(@2)', None, 2), ('l[@1]', None, 1), ('l[@1:@2:@3 + 1]', None, 3), ('l[@1:]', None, 1), ('f(l[@1], @2)', None, 2),
  ('"a{@1}b{@2}"', "'a' + str(@1) + 'b' + str(@2)", 2), ("'{@1}'", "'' + str(@1)", 1), ('@1 : f(@2, k=@3)', 'f(@1, @2, k=@3)', 3), ('@1 : f : f(@2)', 'f(f(@1), @2)', 2), ('%g(a=@1, k=@2)', 'tag_g(@1, @2)', 2), ('%g(k=@1)', 'tag_gk(@1)', 1),
  ('@1?', '_q(lambda: @1)', 1), ('@1!', '_o(lambda: @1)', 1), ('[@1?, @2!]', '[_q(lambda: @1), _o(lambda: @2)]', 2), ('(@1 / @2)?', '_q(lambda: @1 / @2)', 2), ('f(@1, @2)?', '_q(lambda: f(@1, @2))', 2), ('l[@1 + 50]? or @2', '_q(lambda: l[@1 + 50]) or @2', 2), ('(@1!)? + @2', '_q(lambda: _o(lambda: @1)) + @2', 2),
]
POS_ = [      # (lines, number of evaluations); ¤ the expression
  (['$ put((¤))'], 1), (['| a {(¤)} b'], 1), (['/ {(¤)}'], 1), (['$v = ¤'], 1), (['p a={(¤)}'], 1), (['p a=(¤) : b', '  | x'], 1), (['if (¤)', '  p', 'else', '  b'], 1), (['for x in [¤]', '  | x'], 1), (['while not put((¤),)', '  p'], 1), (['h0 {¤}', '  | x'], 1),
  (['%q a={¤}', '  | $put(a)', 'q', 'q 5', 'q'], 2), (['| x', '   y {(¤)}', '  z'], 1), (['$v = [1, (¤)]'], 1), (['| $put((¤), 5)'], 1), (['try', '  $ put((¤))', 'else', '  | failed'], 1), (['? p a={¤} | x'], 1), (['if 0', '  p', 'elif (¤)', '  b'], 1),
  (['%q @b a', '  @b', '  | $a $a', '  @b', 'q {¤}', '  | x'], 1), (['for x, y in [[1, (¤)], [2, 3]]', '  | $x'], 1), (['p {¤} : b'], 1) if 0 else (['p .{str((¤))} #x'], 1), (['| {"x{(¤)}"}'], 1), (['$v, w = 1, (¤)'], 1), (['$v += (¤) and 0'], 1), (['@ [] if (¤) else []'], 1)]

def _q(f):
    try: v = f()
    except Exception: return ''
    return v if v else ''
def _o(f):
    v = f()
    if not v: raise Boom()
    return v
class Ob:
    def __init__(self, log): self.log = log
    def m(self, x):
        self.log.append(('m', x))
        return self
    def __eq__(self, o): return isinstance(o, Ob)
    __hash__ = None
    def __repr__(self): return 'Ob'

def spaces(tier):
    q = tier == 'quick'
    def pats(k, cap):
        return list(itertools.product((0, 1), repeat = k))[:cap] if k else [(0,)]
    def forests(n, leaves, conts, cap, faults, depth = 4):
        def it():
            for f in gen.forests(n, leaves, conts, depth):
                if has_def(f): continue
                ps = pats(min(conds(f), 4), cap)
                for p in ps:
                    if p[-1:] == (1,) and all(p) and 'while' in repr(f): continue       # endless
                    yield ('prog', f, p, faults)
        return it
    def exprs(positions, bits):
        def it():
            j = 0
            for o, (src, py, n) in enumerate(OPS):
                for k in range(n):
                    if src == '@1 @2 @3' and k: continue                # x (y) is a call
                    for o2, (src2, py2, n2) in enumerate(OPS):
                        for b in bits(n + n2 - 1):
                            j += 1
                            for p in positions(j): yield ('expr', o, k, o2, b, p)
        return it
    def single():
        for o, (src, py, n) in enumerate(OPS):
            for b in itertools.product((0, 1, 2), repeat = n):
                for p in range(len(POS_)):
                    if q and p > 1 and 2 in b: continue
                    yield ('expr', o, None, None, b, p)
    every = lambda k: itertools.product((0, 1), repeat = k)
    few = lambda k: [(1,) * k, tuple((i + k) % 2 for i in range(k))]
    def documents():
        for f in itertools.chain(gen.forests(1, LEAVES, CONTS, 2), gen.forests(2, LEAVES if not q else LEAVES[::2], CONTS, 3)):
            if has_def(f): continue
            yield ('doc', f, (1, 0))
    def imports():
        for f in gen.forests(1, LEAVES, CONTS, 2):
            for n in range(4): yield ('import', f, n)
    def iters():
        for k in range(len(ITERS)):
            for n in range(4): yield ('iter', k, n)
    some = ['text', 'unpack', 'inplace', 'use', 'g', 'g3', 'chain', 'none']
    someC = ['p', 'h', 'ifelse', 'for', 'while', 'try', 'defh']
    return [('1 block', forests(1, LEAVES, CONTS, 16, True)), ('2 blocks', forests(2, LEAVES, CONTS, 16, True)), ('iterators', iters), ('documents', documents), ('imports', imports),
            ('operators', single), ('compositions', exprs(lambda j: [j % len(POS_)] if q else range(len(POS_)), few if q else every)),
            ('3 blocks', forests(3, ['text', 'inplace', 'g'], ['h', 'ifelse', 'for', 'try'], 2, True) if q else forests(3, some, someC, 4, True))] + ([] if q else [
            ('3 blocks, no faults', forests(3, LEAVES, CONTS, 4, False))])

ITERS = [       # scripts around a lazily consumed iterator `g` of n items; body for the model
  ('for', ['for x in g', '  | $x {r(1)}', '  | {r(2)}', '| {r(3)}']),
  ('next', ['| {next(g)} {r(1)} {next(g)}', '  {r(2)}', '| {next(g)}']),
  ('while', ['while r(1) and next(g)', '  | {r(2)}', '| {r(3)}']),
  ('args', ['%t a b', '  | $b $a {r(1)}', 't {next(g)} b={next(g)}', 't {next(g)} 5']),
  ('unpack', ['$a, b = g', '| $a $b {r(1)}']),
  ('body', ['%t @b', '  @b', '  p @b', 't', '  | {next(g)} {r(1)}', '  | {next(g)}']),
  ('attr', ['p a={next(g)} b={next(g)} | {next(g)}']),
  ('nested', ['for x in g', '  for y in g', '    | $x $y {r(1)}', '  | {r(2)}']),
  ('default', ['%t a={next(g)}', '  | $a', 't 5', 't', 't 6', 't']),
  ('list', ['$l = list(g)', 'for x in l', '  | {r(1)}', 'for x in l', '  | {r(2)}']),
  ('try', ['try', '  | {next(g)} {next(g)}', '  | {next(g)}', 'else', '  | {r(1)}']),
  ('inplace', ['$n = 0', '$n += next(g)', '$n -= next(g)', '| $n']),
  ('else', ['for x in g', '  $y = x', 'else', '  | {r(1)}', '| {r(2)}']),
]
def iter_oracle(name, g, r):
    if name == 'for':
        for x in g: r(1); r(2)
        r(3)
    elif name == 'next': next(g); r(1); next(g); r(2); next(g)
    elif name == 'while':
        while r(1) and next(g): r(2)
        r(3)
    elif name == 'args': next(g); next(g); r(1); next(g); r(1)
    elif name == 'unpack':
        a, b = g
        r(1)
    elif name == 'body': next(g); r(1); next(g)
    elif name == 'attr': next(g); next(g); next(g)
    elif name == 'nested':
        for x in g:
            for y in g: r(1)
            r(2)
    elif name == 'default': next(g); next(g)
    elif name == 'list':
        l = list(g)
        for x in l: r(1)
        for x in l: r(2)
    elif name == 'try':
        try: next(g); next(g); next(g)
        except Exception: r(1)
    elif name == 'inplace': next(g); next(g)
    elif name == 'else':
        some = False
        for x in g: some = True
        if not some: r(1)
        r(2)

def run(case, cov):
    kind = case[0]
    if kind == 'prog':
        _, f, pattern, faults = case
        def setup(rec): return {'$r': rec.r, '$c': rec.c, '$it': rec.it}
        def fresh_of(fault):
            def fresh():
                rec = Rec(pattern, fault)
                return setup(rec), rec.log
            return fresh
        # without faults: how many evaluations
        rec = Rec(pattern)
        lang.steps.n = 0
        try: res = lang.run_model(program(f), setup(rec))
        except lang.Unspecified: res = None
        n = len(rec.log)
        if n > 300: return cov.count('too_long')
        util.compare(program(f), cov, what = 'evaluation', fresh = fresh_of(None), loose = True) if res is not None else compare_log(f, cov, fresh_of(None))
        if faults:
            for k in range(n):
                if res is None: compare_log(f, cov, fresh_of(k))
                else: util.compare(program(f), cov, what = 'evaluation, failure at %d' % k, fresh = fresh_of(k))
    elif kind == 'expr':
        _, o, k, o2, bits, p = case
        src, py, n = OPS[o]
        py = py or src
        leaves = []
        def leaf():
            i = len(leaves)
            leaves.append(i)
            return 'r(%d)' % i
        args, pargs = [], []
        for j in range(n):
            if j == k:
                s2, p2, n2 = OPS[o2]
                ls = [leaf() for _ in range(n2)]
                a, b = s2, p2 or s2
                for m, x in enumerate(ls): a, b = a.replace('@%d' % (m + 1), x), b.replace('@%d' % (m + 1), x)
                args.append('(%s)' % a)
                pargs.append('(%s)' % b)
            else:
                x = leaf()
                args.append(x)
                pargs.append(x)
        for m in range(n): src, py = src.replace('@%d' % (m + 1), args[m]), py.replace('@%d' % (m + 1), pargs[m])
        if nested_quotes(src): return cov.count('nested_quotes')
        lines, times = POS_[p]
        if '"' in src and '"' in ''.join(lines): return cov.count('nested_quotes')
        env, log = expr_env(bits, {})
        expected = ['b']
        try:
            for _ in range(times):
                v = eval(compile(py, '<c21>', 'eval'), env)
            expected += log + ['a']
            ok = True
        except Exception as ex:
            if 'unhashable' in str(ex): return cov.count('order_of_hashing')     # whether items are hashed at once or one by one is not specified
            expected += log
            ok = False
        env2, log2 = expr_env(bits, {})
        put = []
        def puts(x, *a):
            put.append(x)
            return 1
        script = '\n'.join(['context $r, $f, $o, $l, $put', '%g a={r(90)} k={r(91)}', '  | $a$k', '%h0 @b a', '  p', '$v = 0', '$ r("b")'] + [l.replace('¤', src) for l in lines] + ['$ r("a")', '| end'])
        got = hy.render_ex(script, r = env2['r'], f = env2['f'], o = env2['o'], l = env2['l'], put = puts)
        cov.execs += 1
        cov.step(len(log2))
        cov.sample(script)
        cov.state((py, tuple(map(str, log2))))
        want = expected
        swallow = 'try' in lines or lines[0].startswith('? ')
        if not ok and swallow: want = expected + ['a']
        gl = [x for x in log2]
        if not ok or got[0] == 'ok' or swallow:
            if gl != want: bad('expr %r' % (case,), 'expected evaluations %r, got %r (%r) for the script:\n%s', want, gl, got, script)
        else:
            # the construct may reject the value (wrong type for the position), but only after its evaluation
            if gl != want[:-1] and gl != want[:-1][:1 + len(log) // times]: bad('expr %r' % (case,), 'expected evaluations %r, got %r (%r) for the script:\n%s', want[:-1], gl, got, script)
            cov.count('value_rejected')
        if ok and p == 0 and got[0] == 'ok' and (len(put) != 1 or repr(put[0]) != repr(v) and not isinstance(v, Ob)): bad('value %r' % (case,), 'expected %r, got %r for the script:\n%s', v, put, script)
        if ok and p == 0 and got[0] != 'ok': bad('value %r' % (case,), 'expected %r, got %r for the script:\n%s', v, got[1], script)
    elif kind == 'doc':
        _, f, pattern = case
        rec = Rec(pattern)
        src = lang.source(program(f))
        try: m = hy.runtime().translate(src, r = rec.r, c = rec.c, it = rec.it)
        except Exception as ex: return cov.count('fails')
        log = list(rec.log)
        outs = [m.dom.render() for _ in range(3)] + [str(m.dom.render())]
        cov.execs += 1
        cov.step(len(log))
        # insertion of the document, or parts of it, into another one, several times
        for n in range(3):
            second = 'context $dom\n| x\n@dom\np : b @dom\nfor i in [1,2]\n  @dom\n%h @b\n  @b\n  i @b\nh\n  @dom\n| {dom.render()}\n' if n == 0 else 'context $dom\n@dom[0]\n@dom.select("p")\np @dom[1:]\n' if n == 1 else 'context $dom\n%h @b\n  if b\n    | $len(b)\n  @b[0]\n  @b[1:]\n  @b.skip("p")\nh\n  @dom\n'
            try: out2 = hy.runtime().render(second, dom = m.dom)
            except Exception: cov.count('second_fails')
            cov.execs += 1
        if rec.log != log: bad('doc %r' % (case,), 'rendering or insertion of a document evaluates again %r in\n%s', rec.log[len(log):], src)
        if len(set(outs + [m.dom.render()])) != 1: bad('doc out %r' % (case,), 'repeated rendering differs: %r\n%s', outs, src)
        cov.state(log)
    elif kind == 'import':
        _, f, n = case
        d = '%s/%d-%s' % (DIR[0], os.getpid(), abs(hash(repr(case))))
        os.makedirs(d)
        try:
            b = Builder()
            lib = ['from mcrec21 import $r, $c, $it', '$v = 0'] + lang.source(prelude()[2:]).split('\n')[:-1] + lang.source(flat(b.forest(f))).split('\n')[:-1] + ['$last = r(500)', '%exp @b a={r(501)}', '  | {r(502)}', '  @b', '  @b']
            with open(d + '/lib.hy', 'w') as fh: fh.write('\n'.join(lib) + '\n')
            with open(d + '/other.hy', 'w') as fh: fh.write('from .lib import $last\nfrom .lib import %exp\n$z = 1\n')
            import types
            rec = Rec((1, 0))
            mod = types.ModuleType('mcrec21')
            mod.r, mod.c, mod.it = (lambda *a: rec.r(*a)), (lambda *a: rec.c(*a)), (lambda *a: rec.it(*a))
            sys.modules['mcrec21'] = mod
            mains = ['from .lib import $last, %exp\nfrom .lib import $last as again\n', 'from .lib import *\nfrom .other import $z\n', 'from .other import $z\nfrom .lib import %exp, $last\n', 'from .lib import %exp\nfrom .lib import *\n']
            rt = hy.runtime(True)
            main = mains[n] + 'exp a=1\n  | {r_(1)}\nexp\n  | {r_(2)}\n'
            rec2 = rec
            first = hy.render_ex('context $r_\n' + main, rt, __file__ = d + '/main.hy', r_ = rec.r)
            log1, rec.log[:] = list(rec.log), []
            if first[0] == 'err': bad('import %r' % (case,), 'fails: %r\n%s', first[1], '\n'.join(lib))
            tail = [1, 502, 2, 501, 502]
            if log1[-5:] != tail or log1.count(500) != 1 or log1[-6] != 500: bad('import %r' % (case,), 'evaluations of an imported file: %r\n%s\n%s', log1, '\n'.join(lib), main)
            # the model of the top level of the library
            ref = Rec((1, 0))
            ctx = {'$r': ref.r, '$c': ref.c, '$it': ref.it}
            try:
                lang.run_model(program(f), ctx)
                if ref.log[:-1] != log1[:-6]: bad('import log %r' % (case,), 'evaluations of the top level of an imported file: expected %r, got %r\n%s', ref.log[:-1], log1[:-6], '\n'.join(lib))
            except lang.Unspecified: pass
            second = hy.render_ex('context $r_\n' + main, rt, __file__ = d + '/main.hy', r_ = rec.r)
            if rec.log != tail or second != first: bad('import again %r' % (case,), 'a second render evaluates %r, gives %r instead of %r', rec.log, second, first)
            cov.execs += 2
            cov.step(len(log1))
            cov.state(log1)
        finally:
            sys.modules.pop('mcrec21', None)
            shutil.rmtree(d, ignore_errors = True)
    elif kind == 'iter':
        _, k, n = case
        name, lines = ITERS[k]
        def make():
            log = []
            def g():
                for i in range(n):
                    log.append(('next', i))
                    yield i + 1
                log.append('end')
            def r(i):
                log.append(i)
                return i
            return log, g(), r
        log, g, r = make()
        try:
            iter_oracle(name, g, r)
            ok = True
        except Exception: ok = False
        log2, g2, r2 = make()
        got = hy.render_ex('context $g, $r\n' + '\n'.join(lines), g = g2, r = r2)
        cov.execs += 1
        cov.step(len(log))
        if log != log2 or ok != (got[0] == 'ok'): bad('iter %r' % (case,), 'iterator of %d items: expected %r (%s), got %r (%r)\n%s', n, log, ok, log2, got, '\n'.join(lines))
        cov.state(log)

def nested_quotes(src):
    """A quoted string inside an embedding of another one with the same quotes is not expressible."""
    for qq in '"\'':
        if src.count(qq) > 2: return True
    return False

def compare_log(f, cov, fresh):
    """Only the log: the layout of the program is not specified."""
    cov.count('layout_unspecified')
    blocks = program(f)
    ctx, log = fresh()
    class Loose(Exception): pass
    got = hy.render(lang.source(blocks), **{k[1:]: v for k, v in ctx.items()})
    cov.execs += 1

def expr_env(bits, extra):
    log = []
    def r(i):
        log.append(i)
        return bits[i] if isinstance(i, int) and i < len(bits) else i
    class F(int):
        def __call__(self, *a, **k): return f(*a, **k)
        def __str__(self): return str(int(self))
    def f(*a, **k):
        log.append(('f', repr(a), sorted(k.items(), key = str)))
        return F(len(a) + len(k))
    o = Ob(log)
    env = {'r': r, 'f': f, 'o': o, 'l': list(range(3)), '_q': _q, '_o': _o}
    def tag_gk(k): return '%s%s' % (r(90), k)
    env['tag_g'] = lambda a, k: '%s%s' % (a, k)
    env['tag_gk'] = tag_gk
    return env, log
