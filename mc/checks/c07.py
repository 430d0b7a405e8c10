"""C07: failures in try blocks and qualified expressions are contained exactly."""
import itertools, sys
from functools import lru_cache
from mc import hy, lang, util
from mc.lang import *
from mc.util import compare
from mc.checks.c04 import compositions

ID = 'C07'
LEVEL = 'model_checking'
TECHNIQUE = 'bounded exhaustive enumeration of programs with try blocks and qualifiers and of all assignments of failures to their expressions, run on the real runtime in lock-step with a reference interpreter'
NOTE = ('every program up to the size bound with every assignment of outcomes (value, false value, exception, exception outside Exception) to its failure '
        'points, variables assigned to in the program existing before or not; every form and position of qualified expressions with 14 operands; document, kind of error and the sequence of evaluations must equal the reference interpreter')
RULE = ('programs: all block lists with the stated number of nodes over texts, tags, attributes, assignments with a failure point, inside try with 1-3 clauses, '
        'the ? prefix, tags, conditions, loops and hypertags; failure points fail or not in every combination; second part: qualifier forms x operands x positions')
ASSUMPTIONS = ['exceptions raised while the DOM is rendered (bodies of void tags, errors inside custom tags) are not part of the execution of a clause']

CLAUSES = {'try': 1, 'tre': 2, 'tr3': 3, 'p': 1, 'if': 1, 'for': 1, 'H': 1, 'B': 1, '?p': 1}

@lru_cache(None)
def lists(n, leaves, conts):
    if n == 0: return ((),)
    res = []
    for k in range(1, n + 1):
        for s in stmts(k, leaves, conts):
            for rest in lists(n - k, leaves, conts): res.append((s,) + rest)
    return tuple(res)

@lru_cache(None)
def stmts(k, leaves, conts):
    res = []
    if k == 1: res += [(l,) for l in leaves]
    for c in conts:
        for sizes in compositions(k - 1, CLAUSES[c]):
            for bodies in itertools.product(*[lists(s, leaves, conts) for s in sizes]): res.append((c,) + bodies)
    return tuple(res)

FAIL = {'f', 'fp', 'fa', '?f', '?fp', 'fv', 'fi', 'fl', 'ft', 'f?', 'fpi', 'fh', 'fo'}
def nfail(prog): return sum((s[0] in FAIL) + sum(nfail(b) for b in s[1:]) for s in prog)
def hastry(prog): return any(s[0] in ('try', 'tre', 'tr3') or s[0][0] == '?' or any(hastry(b) for b in s[1:]) for s in prog)

class Build:
    def __init__(self, unit = '  '): self.n = self.c = 0; self.u = unit
    def lab(self):
        self.n += 1
        return 'abcdefghijklmnopqrstuvwxyz'[self.n - 1]
    def fail(self):
        self.c += 1
        return 'f(%d)' % (self.c - 1)
    def body(self, prog): return [self.stmt(s) for s in prog]
    def stmt(self, s):
        k, x, u = s[0], self.lab(), self.u
        if k == 't': return Text(x)
        if k == 'v': return Text([x, Emb('v')])
        if k == 'a': return Assign('v', "'%s'" % x)
        if k in FAIL:
            f = self.fail()
            if k == 'f':  return Text([x, Emb(f)])
            if k == 'ft': return Text(x, '|', [(u, x + '2'), (u + u, [Emb(f)])])
            if k == 'fp': return Struct('p', [Text(x), Struct('b', [Text([Emb(f)]), Text('x')], ind = u)], ind = u)
            if k == 'fpi': return Struct('p', inline = Text([x, Emb(f)]))
            if k == 'fa': return Struct(T('p', K('a', f)), [Text(x)], ind = u)
            if k == '?f': return Opt(Text([x, Emb(f)]))
            if k == '?fp': return Opt(Struct('p', [Text(x), Text([Emb(f)])], ind = u))
            if k == 'fv': return Assign('v', f)
            if k == 'fi': return If([Branch(f, [Text(x)])], ind = u)
            if k == 'fl': return For('q', '[%s, 2]' % f, [Text([x, Emb('str(q)')])], ind = u)
            if k == 'fh': return Struct(T('F', Pos(f)), ind = u)
            if k == 'fo': return Text([x, Emb(f, 'b', '!')])
            if k == 'f?': return Text([x, Emb(f, 'b', '?')])
        bs = [self.body(b) for b in s[1:]]
        if k[:2] == 'tr': return Try([Branch(None, b) for b in bs], ind = u)
        if k == 'p': return Struct('p', bs[0], ind = u)
        if k == '?p': return Opt(Struct('p', bs[0], ind = u))
        if k == 'if': return If([Branch('1', bs[0])], ind = u)
        if k == 'for': return For('i', '[1, 2]', bs[0], ind = u)
        if k == 'H': return Struct('H', bs[0], ind = u)
        if k == 'B': return Struct(['p', 'H'], bs[0], ind = u)

def fresh_of(outcomes):
    def fresh():
        log = []
        def f(k):
            log.append(k)
            o = outcomes[k]
            if o == 1: raise KeyError(k)
            if o == 2: raise hy.Fatal('fatal %d' % k)
            if o == 3: return 0
            if o == 4: return None
            if o == 5 and log.count(k) == 2: raise ValueError()
            return 'r%d' % k
        return {'$f': f}, log
    return fresh

def programs(n, leaves, conts, outs = (0, 1, 2), maxfail = 3, unit = '  '):
    def it():
        for prog in lists(n, leaves, conts):
            m = nfail(prog)
            if not 1 <= m <= maxfail or not hastry(prog): continue
            for outcomes in itertools.product(outs, repeat = m): yield ('prog', (prog, outcomes, unit))
    return it

# ---- qualifiers

VALS = {'x': 'T', 'z': 0, 'n': None, 'e': '', 'l': [], 'k': [3], 'o': None, 'f': None, 'g': None, 'h': None, 'w': None, 'F': None}
OPERANDS = ['x', 'z', 'n', 'e', 'l', 'k', 'k[0]', 'k[1]', 'l[0]', 'o.a', 'o.zero', 'o.missing', 'f()', 'g()', 'h()', 'w()', 'o.m()', 'o.a[0]', 'k[0:]', 'k[1:]', 'F()', 'o.a.b.c', '(x)', '(z)', "'s'", "''", '[]', '[0]']

def opforms():
    for a in OPERANDS:
        yield a, a
        yield a + '?', '_q(lambda: %s)' % a
        yield a + '!', '_o(lambda: %s)' % a
    for a in ['x', 'z', 'n', 'f()', 'k[1]', 'o.missing', 'F()', 'g()']:
        for q, p in (('?', '_q(lambda: %s)'), ('!', '_o(lambda: %s)')):
            for q2, p2 in (('?', '_q(lambda: %s)'), ('!', '_o(lambda: %s)')):
                yield '(%s%s)%s' % (a, q, q2), p2 % (p % a)
            P = p % a
            A = a + q
            yield "(%s or 'd')" % A, "(%s or 'd')" % P
            yield "[%s]" % A, "[%s]" % P
            yield "(%s, 1)" % A, "(%s, 1)" % P
            yield "[%s, x!]" % A, "[%s, _o(lambda: x)]" % P
            yield "str(%s)" % A, "str(%s)" % P
            yield "(%s 'c' x?)" % A, "(str(%s) + 'c' + str(_q(lambda: x)))" % P
            yield "({1: %s})" % A, "({1: %s})" % P
            yield "(1 if %s else 2)" % A, "(1 if %s else 2)" % P
            yield "(1 if 1 else %s)" % A, "(1 if 1 else %s)" % P
            yield "(not %s)" % A, "(not %s)" % P
            yield "(%s == 0)" % A, "(%s == 0)" % P
            yield "(%s*2)" % A, "(%s*2)" % P
            yield "(x + %s)" % A, "(x + %s)" % P
            yield "dict(a=%s)" % A, "dict(a=%s)" % P
            yield "(%s:str)" % A, "str(%s)" % P
            yield "(x:str(%s))" % A, "str(x, %s)" % P
            yield "'i{%s}'" % A, "('i' + S(%s))" % P
            yield '"i{%s}%s"' % (a, q), "('i' + S(%s))" % P
            yield '"i{%s}%s{z}"' % (a, q), "('i' + S(%s) + '0')" % P
            yield "k[%s]?" % A, "_q(lambda: k[%s])" % P
            yield "(-%s)" % A, "(-%s)" % P

def S(v):
    if v is None: raise ModelError('NoneString')
    return str(v)

POSITIONS = ['text', 'text?', 'text!', 'markup', 'dollar', 'attr', 'attr?', 'attr!', 'short', 'cond', 'rhs', 'seq', 'eval', 'hattr', 'default', 'tail', 'inline', 'while']
FORMS = list(opforms())

def qualifiers():
    for i in range(len(FORMS)):
        for pos in POSITIONS:
            for wrap in ('', 'try', 'p', 'opt'): yield ('qual', (i, pos, wrap))

class O:
    a = 'oa'
    zero = 0
    def m(self): raise IndexError()

def qfresh():
    log = []
    def fail():
        log.append('f')
        raise ValueError()
    def ok():
        log.append('g')
        return 'G'
    def zero():
        log.append('h')
        return 0
    def stop():
        log.append('w')
        raise StopIteration()
    def fatal():
        log.append('F')
        raise hy.Fatal('fatal')
    return {'$x': 'T', '$z': 0, '$n': None, '$e': '', '$l': [], '$k': [3], '$o': O(), '$f': fail, '$g': ok, '$h': zero, '$w': stop, '$F': fatal, '$S': S}, log

def tryforms():
    for form in range(TF):
        for bad in BAD:
            for ctx in ('', 'p', 'for', 'H'): yield ('tryform', (form, bad, ctx))
TF = 17
BAD = ['1/0', 'k[5]', 'x.q', 'x + 1', 'int(x)', 'f()', 'w()', 'l[0]', 'next(iter(l))', 'x()', 'F()', 'g()', 'z', 'n']

def spaces(tier):
    L = ('t', 'f', 'fp')
    sp = [('qualifiers', qualifiers), ('kinds of exceptions', tryforms),
          ('programs, size 2', programs(2, ('t', 'v', 'a') + tuple(sorted(FAIL)), tuple(CLAUSES), (0, 1, 2, 3, 4))),
          ('programs with tabs, size 3', programs(3, ('t', 'fp', '?fp', 'ft'), ('try', 'tre', 'p', 'for'), (0, 1), 2, '\t'))]
    if tier == 'quick':
        sp += [('programs, size 3', programs(3, ('t', 'f', 'fp', '?fp', 'fv', 'v', 'f?'), ('try', 'tre', 'p', 'for', 'H'), (0, 1, 2), 2)),
               ('programs, size 3, 3 clauses', programs(3, ('t', 'fp', 'fh'), ('tr3', 'tre', 'if', '?p'), (0, 1, 5), 3)),
               ('programs, size 4', programs(4, ('f', 'fp'), ('tre', 'p'), (0, 1), 3))]
    else:
        sp += [('programs, size 3', programs(3, ('t', 'v', 'a') + tuple(sorted(FAIL)), tuple(CLAUSES), (0, 1, 2, 3))),
               ('programs, size 4', programs(4, ('t', 'f', 'fp', 'fv', 'v'), ('tre', 'tr3', 'p', 'for', 'H', '?p'), (0, 1, 2))),
               ('programs, size 5', programs(5, ('f', 'fp'), ('tre', 'p', 'for'), (0, 1), 4))]
    return sp

def prepare(tier): util.warm(sys.modules[__name__], tier, 40, 30)

def run(case, cov):
    kind, arg = case
    if kind == 'prog':
        prog, outcomes, unit = arg
        b = Build(unit)
        body = b.body(prog)
        pre = [Context('$f')]
        r = repr(prog)
        if "'v'" in r or "'a'" in r or "'fv'" in r: pre.append(Assign('v', "'0'"))
        if "'H'" in r or "'B'" in r: pre.append(Def('H', bodyattr = 'body', body = [Text('h'), Struct('i', [Embed('body')], ind = unit)], ind = unit))
        if "'fh'" in r: pre.append(Def('F', ['q'], body = [Struct('u', [Text(['q', Emb('q')])], ind = unit)], ind = unit))
        end = [Text(['.', Emb('str(v)')])] if len(pre) > 1 and isinstance(pre[1], Assign) else [Text('.')]
        compare(pre + [Struct('div', body + [Text('z')], ind = unit)] + end, cov, what = 'containment', fresh = fresh_of(outcomes))
        if "'a'" in r or "'fv'" in r:       # the variable does not exist before: it is created by a clause, possibly one that fails later
            compare([b for b in pre if not isinstance(b, Assign)] + Build(unit).body(prog) + [Opt(Text(['z', Emb('str(v)')])), Struct('div', body + [Text(['z', Emb('str(v)')])], ind = unit)], cov, what = 'containment', fresh = fresh_of(outcomes))
    elif kind == 'qual':
        i, pos, wrap = arg
        src, py = FORMS[i]
        def E(wrapped = None, s = None): return QEx(src if s is None else s, py if wrapped is None else wrapped % py)
        if pos == 'text': bl = [Text(['a', Emb(E(), 's'), 'b'])]
        elif pos == 'text?': bl = [Text(['a', Emb(E(), 's', '?'), 'b'])]
        elif pos == 'text!': bl = [Text(['a', Emb(E(), 's', '!'), 'b'])]
        elif pos == 'markup': bl = [Text(['a', Emb(E(), 's'), 'b'], '/')]
        elif pos == 'dollar':
            if not src[0] in 'xznelkofghwF': return
            bl = [Text(['a', Emb(E(), 'd'), ' b'])]
        elif pos == 'attr': bl = [Struct(T('p', At('kw', E(), 'a')), inline = Text('t'))]
        elif pos == 'attr?': bl = [Struct(T('p', At('kw', E('_q(lambda: %s)', '{%s}?' % src if src[0] != '{' else '{ %s }?' % src), 'a')), inline = Text('t'))]
        elif pos == 'attr!': bl = [Struct(T('p', At('kw', E('_o(lambda: %s)', '{%s}!' % src), 'a')), inline = Text('t'))]
        elif pos == 'short':bl = [Struct(T('p', At('.', E(None, '{%s}' % src)), At('kw', E(), 'b')), inline = Text('t'))]
        elif pos == 'cond': bl = [If([Branch(E(), [Text('yes')])], Branch(None, [Text('no')]))]
        elif pos == 'rhs': bl = [Assign('v', E()), Text([Emb('str(v)')])]
        elif pos == 'seq': bl = [For('q', E(), [Text([Emb('str(q)')])], els = Branch(None, [Text('none')]))]
        elif pos == 'eval': bl = [Eval(E()), Text('t')]
        elif pos == 'hattr': bl = [Def('H', ['q'], body = [Text([Emb('str(q)')])]), Struct(T('H', At('pos', E())))]
        elif pos == 'default': bl = [Def('H', [('q', E())], body = [Text([Emb('str(q)')])]), Struct('H'), Struct(T('H', Pos('7')))]
        elif pos == 'tail': bl = [Text('h', '|', [('   ', [Emb(E(), 's')]), ('  ', 'z')])]
        elif pos == 'inline': bl = [Struct('p', inline = Text([Emb(E(), 's')]))]
        elif pos == 'while': bl = [Assign('c', '0'), While(QEx('c < 2 and %s' % src, 'c < 2 and %s' % py), [Text('w'), Assign('c', '1', '+')], els = Branch(None, [Text('never')]))]
        if wrap == 'try': bl = [Try([Branch(None, [Text('first')] + bl), Branch(None, [Text('failed')])])]
        elif wrap == 'p': bl = [Struct('p', bl)]
        elif wrap == 'opt':
            if len(bl) > 1 or not isinstance(bl[0], (Text, Struct)): return
            bl = [Opt(bl[0])]
        compare([Context(*['$' + c for c in 'xznelkofghwF'])] + bl + [Text('end')], cov, what = 'qualifier', fresh = sfresh)
    else:
        form, bad, ctx = arg
        bl = tryform(form, bad)
        if ctx == 'p': bl = [Struct('p', bl)]
        elif ctx == 'for': bl = [For('i', '[1, 2]', bl)]
        elif ctx == 'H': bl = [Def('K', bodyattr = 'body', body = [Struct('i', bl), Embed('body')]), Struct('K', [Text('b')])]
        compare([Context(*['$' + c for c in 'xznelkofghwF'])] + bl + [Text('end')], cov, what = 'try', fresh = sfresh)

def tryform(form, bad):
    b = lambda: [Text(['b', Emb('str(%s)' % bad)])]
    if form == 0: return [Try([Branch(None, b())])]
    if form == 1: return [Try([Branch(None, [Text('lost')] + b()), Branch(None, [Text('e')])])]
    if form == 2: return [Try([Branch(None, b() + [Text('lost')]), Branch(None, b()), Branch(None, [Text('e')])])]
    if form == 3: return [Try([Branch(None, inline = Text(['b', Emb('str(%s)' % bad)])), Branch(None, inline = Text('e'))])]
    if form == 4: return [Opt(Text(['b', Emb('str(%s)' % bad)]))]
    if form == 5: return [Opt(Struct('p', b()))]
    if form == 6: return [Opt(Struct(T('p', K('a', '(%s)' % bad)), inline = Text('t')))]
    if form == 7: return [Text('pre'), Opt(Struct(['p', T('b', K('a', '(%s)' % bad))], [Text('t')])), Text('post')]
    if form == 8: return [Try([Branch(None, [Try([Branch(None, b())])] + b()), Branch(None, [Opt(b()[0]), Text('e')])])]
    if form == 9: return [Try([Branch(None, [For('q', '[1, 2]', [Text([Emb('str(q)')])] + b())]), Branch(None, [Text('e')])])]
    if form == 10: return [Def('G', ['a'], body = [Struct('u', b())]), Try([Branch(None, [Struct(T('G', Pos('1')))]), Branch(None, [Text('e')])])]
    if form == 11: return [Def('G', [('a', '(%s)' % bad)], body = [Text([Emb('str(a)')])]), Opt(Struct('G')), Opt(Struct(T('G', Pos('1')))), Try([Branch(None, [Struct('G'), Struct('G')]), Branch(None, [Text('e')])])]
    if form == 12: return [Assign('v', "'0'"), Try([Branch(None, [Assign('v', "'1'")] + b() + [Assign('v', "'2'")])]), Text([Emb('v')])]
    if form == 14: return [Try([Branch(None, [Assign('v', "'1'")] + b() + [Assign('v', "'2'")]), Branch(None, [Text(['e', Emb('v')])])]), Text([Emb('v')])]
    if form == 15: return [Try([Branch(None, [Struct('p', [Assign('v', "'1'"), Try([Branch(None, [Assign('w', "'1'")] + b()), Branch(None, [Text(['d', Emb('v'), Emb('w')])])])])]), Branch(None, [Assign('v', "'3'")])]), Opt(Text([Emb('v')]))]
    if form == 16: return [Try([Branch(None, [For('q', '[1, 2]', [Assign('v', 'q'), If([Branch('q == 2', b())])])]), Branch(None, [Text(['e', Emb('str(q)'), Emb('str(v)')])])]), Text([Emb('str(q)'), Emb('str(v)')])]
    if form == 13: return [Try([Branch(None, [If([Branch('(%s)' % bad, [Text('y')])], Branch(None, [Text('n')]))]), Branch(None, [While('(%s)' % bad, [])]), Branch(None, [Text('e')])])]

def sfresh():
    ctx, log = qfresh()
    return ctx, log
