"""C08: hypertag calls bind attributes like keyword/positional calls with defaults."""
import itertools, sys, copy
from mc import hy, lang, util
from mc.lang import *
from mc.util import compare

ID = 'C08'
LEVEL = 'model_checking'
TECHNIQUE = 'bounded exhaustive enumeration of signatures x call shapes x call forms, run on the real runtime in lock-step with a reference model of the binding'
NOTE = ('every signature with up to 3 attributes, with every subset of defaults, with and without a body, called with 0-4 positional values, every ordered selection of up to '
        '3 keywords (known, unknown, doubled, the body name) and with or without a body, as a block and inside an expression; compositions of hypertags of up to 4 calls')
RULE = ('signatures x positional counts x keyword selections x body forms x call form; value forms; default forms over repeated expansions; '
        'all nestings of calls of five mutually calling hypertags up to the stated number of calls')
ASSUMPTIONS = ['the body given as an empty text is not distinguished from no body for hypertags without a body attribute']

NAMES = 'abc'
def signatures():
    for n in range(4):
        for mask in itertools.product((0, 1), repeat = n):
            for body in (0, 1): yield mask, body

def kwsets(names, m):
    for k in range(m + 1):
        for s in itertools.permutations(names, k): yield s
    for x in 'ab': yield (x, x)
    yield ('a', 'b', 'a')

def calls(form, maxkw, names = 'abcz', wraps = ('',)):
    def it():
        for mask, body in signatures():
            for pos in range(5):
                for kws in kwsets(names, maxkw):
                    for passed in (0, 1, 2) if form == 'block' else (0, 1):
                        for wrap in wraps: yield ('call', (mask, body, pos, kws, passed, form, wrap))
    return it

# ---- forms of values
VALS = [("'s'", "'s'"), ('"d e"', '"d e"'), ('5', '5'), ('1.5', '1.5'), ('True', 'True'), ('None', 'None'), ('$x', 'x'), ('{x}', 'x'), ('{x + 1}', 'x + 1'), ('x', 'x'), ('[1,2]', '[1,2]'),
        ('{[x, 2]}', '[x, 2]'), ('(x)', 'x'), ('(x + 2)', '(x + 2)'), ('()', '()'), ("{'a' x}", "'a' + str(x)"), ('l[1]', 'l[1]'), ('$l[0]', 'l[0]'), ('{l[0]}', 'l[0]'), ('len(l)', 'len(l)'),
        ("'a{x}b'", "'a' + str(x) + 'b'"), ("''", "''"), ('{x if 0 else 7}', '7'), ('{%G}', None), ("{%G(x)}", "_tag_G(x)"), ("{}", None)]
def values():
    for i in range(len(VALS)):
        if VALS[i][1] is None: continue
        for j in range(len(VALS)):
            if VALS[j][1] is None: continue
            for shape in range(7): yield ('value', (i, j, shape))

DEFAULTS = ["'d'", 'x', 'n()', '[]', "(x 'q')", 'x + 1', '{1: x}', 'None', 'l']
def defaults():
    for d1 in range(len(DEFAULTS)):
        for d2 in range(len(DEFAULTS)):
            for shape in range(6): yield ('default', (d1, d2, shape))

# ---- compositions
# A a b='A'        | a,b          B @body a b='B'  p a @body      C @body a='C'   calls A and B with its own attribute
# D @body a b='D'  inserts body twice, B around body               E a='E'        recursion of defaults
LEAF = ['A1', 'A2', 'Ax', 'E', 'E1', 't', 'Ae', 'n']
CONT = ['B1', 'B2', 'C', 'D1', 'BC', 'CB', 'pB', 'Bp', 'DD']
def comps(n, leaf, cont, depth = 9):
    from mc.gen import forests
    def it():
        for f in forests(n, leaf, cont, depth): yield ('comp', f)
    return it

def spaces(tier):
    q = tier == 'quick'
    return [('calls in blocks', calls('block', 2 if q else 4, wraps = ('',) if q else ('', 'p', 'try'))), ('calls in expressions', calls('expr', 2 if q else 4, wraps = ('',) if q else ('', 'p', 'try'))),
            ('calls in try and tags', calls('block', 1, 'az' if q else 'abcz', wraps = ('p', 'try', 'for'))),
            ('the body by name', calls('block', 1, ['body'])), ('the body by name in expressions', calls('expr', 1, ['body'])),
            ('values', values), ('defaults', defaults),
            ('compositions of 2', comps(2, LEAF, CONT)), ('compositions of 3', comps(3, LEAF if not q else LEAF[:5], CONT if not q else CONT[:7]))] + (
            [] if q else [('compositions of 4', comps(4, ['A1', 'E', 'A2'], ['B1', 'C', 'D1', 'BC']))])

def prepare(tier): util.warm(sys.modules[__name__], tier, 40, 60)

def prelude():
    return [Def('A', ['a', ('b', "'A'")], body = [Text([Emb('a'), ',', Emb('b')])]),
            Def('B', ['a', ('b', "'B'")], bodyattr = 'body', body = [Struct(T('p', K('a', 'a'), K('b', 'b')), [Embed('body'), Text([Emb('a'), Emb('b')])])]),
            Def('C', [('a', "'C'")], bodyattr = 'x', body = [Struct(T('A', Pos("{a 'A'}", "a + 'A'"))), Struct(T('B', K('b', 'a'), K('a', "'c'")), [Embed('x'), Text([Emb('a')])]), Text([Emb('a')])]),
            Def('D', ['a', ('b', "'D'")], bodyattr = 'body', body = [Embed('body'), Struct(T('B', Pos('b'), Pos('a')), [Struct('i', [Embed('body')])]), Text([Emb('a'), Emb('b')])]),
            Def('E', [('a', "'E'")], body = [Struct(T('A', K('b', 'a'), K('a', "'e'"))), Struct(T('A', Pos('a'))), Text([Emb('a')])])]

class Comp:
    def __init__(self): self.n = 0
    def block(self, node):
        k, kids = node
        self.n += 1
        x = "'%d'" % self.n
        if k == 'A1': return Struct(T('A', Pos(x)))
        if k == 'A2': return Struct(T('A', Pos(x), K('b', x)))
        if k == 'Ax': return Text(['x', Emb(Ex('%%E(None, %s)' % x, '_tag_E(None, %s)' % x), 's')])
        if k == 'Ae': return Struct('A')
        if k == 'E': return Struct('E')
        if k == 'E1': return Struct(T('E', K('a', x)))
        if k == 'n': return Struct('D', [Text('q')])
        if k == 't': return Text('t%d' % self.n)
        body = [self.block(b) for b in kids]
        if k == 'B1': return Struct(T('B', Pos(x)), body)
        if k == 'B2': return Struct(T('B', K('b', x), K('a', "'y'")), body)
        if k == 'C': return Struct('C', body)
        if k == 'D1': return Struct(T('D', Pos(x), K('b', "'z'")), body)
        if k == 'BC': return Struct([T('B', Pos(x)), T('C', K('a', x))], body)
        if k == 'CB': return Struct([T('C'), T('B', Pos(x), Pos("'w'"))], body)
        if k == 'pB': return Struct(['p', T('B', Pos(x))], body)
        if k == 'Bp': return Struct([T('B', Pos(x)), T('p', K('a', x))], body)
        if k == 'DD': return Struct([T('D', Pos(x)), T('D', K('a', x))], body)

def wrapped(b, wrap):
    if wrap == 'p': return [Struct('div', [b, Text('z')])]
    if wrap == 'try': return [Try([Branch(None, [Text('first'), b]), Branch(None, [Text('failed')])])]
    if wrap == 'for': return [For('q', '[1, 2]', [b])]
    return [b]

def counter():
    log = []
    def n():
        log.append('n')
        return 'N%d' % len(log)
    return {'$n': n, '$x': 3, '$l': [1, 2]}, log

def run(case, cov):
    kind, arg = case
    if kind == 'call':
        mask, body, pos, kws, passed, form, wrap = arg
        names = NAMES[:len(mask)]
        show = [Text(['<'] + list(itertools.chain(*[(Emb('str(%s)' % n), ';') for n in names])))]
        if body: show += [Struct('p', [Embed('body')])]
        d = Def('H', [(n, "'d%s'" % n) if m else n for n, m in zip(names, mask)], bodyattr = 'body' if body else None, body = show)
        if form == 'block':
            t = T('H', *([Pos("'p%d'" % i) for i in range(pos)] + [K(k, "'k%s%d'" % (k, i)) for i, k in enumerate(kws)]))
            b = [Struct(t), Struct(t, inline = Text('body')), Struct(t, [Text('one'), Struct('b', [Text('two')])])][passed]
        else:
            if len(set(kws)) < len(kws):
                src = "%%H(None, %s)" % ', '.join("%s='%d'" % (k, i) for i, k in enumerate(kws))
                got = hy.render(lang.source([d, Raw(['/ a{ %s }b' % src])]))
                cov.execs += 1
                if got[0] != 'err' or got[1] not in ('Syntax', 'Type'):
                    raise util.Violation('doubly given keyword: expected an error, got %r for %s' % (got, src), key = src)
                return
            args = ["'body'" if passed else 'None'] + ["'p%d'" % i for i in range(pos)] + ["%s='k%s%d'" % (k, k, i) for i, k in enumerate(kws)]
            if not passed and not pos: args = args[1:]
            s = 'H(%s)' % ', '.join(args)
            if kws == ('body',) and args[0] != 'None': return      # the name of the wrapper's own parameter is not observable
            b = Text([Emb(Ex('%' + s, '_tag_' + s), 's')], '/')
        compare([d] + wrapped(b, wrap) + [Text('end')], cov, what = 'binding')
    elif kind == 'value':
        i, j, shape = arg
        v1, v2 = QV(i), QV(j)
        d = Def('H', ['a', ('b', "'dd'")], body = [Text([Emb('str(a)'), '|', Emb('str(b)')])])
        ats = [[At('pos', v1), At('pos', v2)], [At('pos', v1), At('kw', v2, 'b')], [At('kw', v1, 'a'), At('kw', v2, 'b')], [At('kw', v2, 'b'), At('kw', v1, 'a')], [At('pos', v1)], [At('kw', v1, 'a')],
               [At('kw', v2, 'b')]][shape]
        if shape > 3 and (j if shape != 6 else i): return
        compare([Context('$x', '$l'), Def('G', [('q', "'g'")], bodyattr = 'y', body = [Text(['G', Emb('q')])]), d, Struct(T('H', *ats)), Struct('p', [Struct(T('H', *copy.deepcopy(ats)))])], cov, what = 'values',
                ctx = {'$x': 3, '$l': [1, 2]})
    elif kind == 'default':
        d1, d2, shape = arg
        D = lambda n: Ex('{%s}' % DEFAULTS[n] if DEFAULTS[n][0] != '{' else '{ %s }' % DEFAULTS[n], "str(x) + 'q'" if DEFAULTS[n] == "(x 'q')" else DEFAULTS[n])
        d = Def('H', [('a', D(d1)), ('b', D(d2))], body = [Text([Emb('str(a)'), ' ', Emb('str(b)')]), If([Branch('isinstance(a, list)', [Eval('a.append(7)')])])])
        H = lambda *a: Struct(T('H', *a))
        seq = [[H(), H()], [H(Pos('1')), H(), H(K('b', '2')), H(Pos('1'), Pos('2'))], [H(), Assign('x', '4'), H(), Struct('div', [Assign('x', '5'), H(), H(K('a', '0'))]), H()],
               [For('i', '[1, 2, 3]', [Assign('x', 'i'), H(K('b', 'i'))]), H()], [Text([Emb(Ex('%H()', '_tag_H()'), 's'), Emb(Ex('%H(None, 1)', '_tag_H(None, 1)'), 's')], '/'), H(), Text([Emb(Ex('%H(b=2)', '_tag_H(b=2)'), 's')], '/')],
               [Try([Branch(None, [H(), H(K('zz', '1'))]), Branch(None, [H()])]), H()]][shape]
        def fresh():
            ctx, log = counter()
            return ctx, log
        compare([Context('$n', '$l', ('$x', 'x0')), Assign('x', 'x0'), d] + seq, cov, what = 'defaults', fresh = fresh)
    else:
        c = Comp()
        compare(prelude() + [c.block(b) for b in arg] + [Text('end')], cov, what = 'composition')

def QV(i):
    src, py = VALS[i]
    return Ex(src, py)
