"""C05: names resolve by hierarchical scope, in two namespaces."""
import copy, itertools, sys, types
from mc import hy, lang, util
from mc.lang import *
from mc.gen import forests
from mc.core import Violation
from mc.util import compare

ID = 'C05'
LEVEL = 'model_checking'
TECHNIQUE = 'bounded exhaustive enumeration of arrangements of definitions, uses and scopes, run on the real runtime in lock-step with a reference interpreter with explicit lexical scopes'
NOTE = ('every forest of up to 4 (thorough: 5) definitions, uses and scope-opening or scope-less blocks, for variables, tags and both; every form of use of an '
        'undefined or unbound name in every kind of place; assignments, loops and defaults that use a variable (a global or outer one) while giving it its own value; 233 names that start with or resemble reserved words and internal names, for tags, variables and attributes, in 45 scripts and 3 surroundings (32 of them in all 19; thorough: all in 19): same output as with a plain name; trusts the scope model of mc/lang.py')
RULE = ('all ordered forests with the stated number of nodes over: assignment, in-place assignment, use, hypertag definition, tag use, import; inside tags, '
        'null tags, if (true, false), for, try, hypertag definitions and bodies passed to hypertags; every forest is rendered; a log shows that rejected '
        'scripts execute nothing; second part: use forms x use places x definition places')
ASSUMPTIONS = ['a variable assigned only in a branch that was not executed keeps the value of the outer variable of the same name, if there is one']

MOD = types.ModuleType('mc_scope_module')
MOD.x, MOD.y, MOD._z = 'Mx', 'My', 'Mz'
from hypertag import Tag
class _MT(Tag):
    name = 'T'
    def expand(self, body, attrs, kw): return 'MT(' + body.render() + ')'
MOD.__tags__ = {'T': _MT()}
sys.modules['mc_scope_module'] = MOD
TABLE = {'$x': 'Mx', '$y': 'My', '$_z': 'Mz', '%T': FunTag('T', lambda t: 'MT(' + t + ')')}

class Build:
    def __init__(self, names = {}):
        self.n = self.h = 0
        self.names = names
    def nm(self, n): return self.names.get(n, n)
    def imp(self, sym): return (sym, self.nm(sym[1:])) if self.nm(sym[1:]) != sym[1:] else sym
    def lab(self):
        self.n += 1
        return 'abcdefghijklmnopqrstuvwxyz'[self.n - 1]
    def body(self, forest): return [b for node in forest for b in self.node(node)]
    def node(self, node):
        k, kids = node
        x = self.lab()
        if k[0] in '+=' and len(k) == 2: return [Assign(self.nm(k[1]), "'%s'" % x, '' if k[0] == '=' else '+')]
        if k[0] == '~': return [Assign(self.nm(k[1]), "%s + '%s'" % (self.nm(k[1]), x))]
        if k[0] == 'u': return [Text([x, Emb(self.nm(k[1:]), 'd')])]
        if k[0] == '?': return [Opt(Text([x, Emb(self.nm(k[1:]))]))]
        if k[0] == 'T': return [Struct(self.nm(k[1:]), inline = Text(x))]
        if k[0] == 't': return [Text([x, Emb(Ex("%" + self.nm(k[1:]) + "('e')", "_tag_" + self.nm(k[1:]) + "('e')"))])]
        if k[0] == 'D' and not kids and k != 'D': return [Def(self.nm(k[1:]), bodyattr = 'b_', body = [Text(x), Embed('b_')])]
        if k == 'I': return [Import('mc_scope_module', [self.imp('$x'), self.imp('%T')], TABLE)]
        if k == 'I2': return [Import('mc_scope_module', [('$y', self.nm('x'))], TABLE)]
        if k == 'I*': return [Import('mc_scope_module', ['*'], TABLE)]
        b = self.body(kids)
        if k == 'p': return [Struct('p', b)]
        if k == '.': return [Struct('.', b)]
        if k == 'if1': return [If([Branch('1', b)])]
        if k == 'if0': return [If([Branch('0', b)], Branch(None, [Text(x)]))]
        if k == 'else': return [If([Branch('0', [Assign(self.nm('x'), "'%s'" % x)])], Branch(None, b))]
        if k == 'for': return [For(self.nm('x'), "['%s1', '%s2']" % (x, x), b)]
        if k == 'forx': return [For(self.nm('x'), self.nm('x'), b)]
        if k == 'for2': return [For('i', "[1, 2]", b)]
        if k == 'Hs': return [Def('G', [(self.nm('x'), self.nm('x'))], body = b + [Text(['g', Emb(self.nm('x'))])]), Struct(T('G')), Struct(T('G', Pos("'p%s'" % x))), Struct('p', [Struct(T('G'))])]
        if k == 'fory': return [For(self.nm('y'), "['%s1', '%s2']" % (x, x), b)]
        if k == 'for0': return [For(self.nm('y'), "[]", b)]
        if k == 'try': return [Try([Branch(None, b + [Text([Emb('1/0')])]), Branch(None, [Text(x)])])]
        if k == 'H': return [Def(self.nm('T'), bodyattr = 'b_', body = b + [Embed('b_')])]                # redefines T
        if k == 'Hx': return [Def(self.nm('T'), [self.nm('x')], bodyattr = 'b_', body = b + [Embed('b_')]), Struct(T(self.nm('T'), Pos("'%sq'" % x)), [Text([x, Emb(self.nm('x'))])])]
        if k == 'Hd': return [Def('G', [(self.nm('x'), "'d%s'" % x), (self.nm('y'), self.nm('x'))], body = b + [Text(['y', Emb(self.nm('y'))])]), Struct(T('G')), Struct(T('G', K(self.nm('x'), "'k%s'" % x)))]
        if k == 'C': return [Struct(self.nm('T'), b)]
        if k == 'h2': return [Def('F', body = b), Struct('F'), Struct('p', [Struct('F')])]
        raise KeyError(k)

PRE = {0: lambda: [], 1: lambda: [Assign('x', "'0'")], 2: lambda: [Assign('x', "'0'"), Def('T', bodyattr = 'b_', body = [Text(['T', Emb('x')]), Embed('b_')])],
       3: lambda: [Context('$x')]}

def space(n, leaves, conts, pres):
    def it():
        for f in forests(n, leaves, conts):
            if not any(l[0] in 'ut?T' for l in flat(f)): continue
            for p in pres: yield ('tree', (f, p))
    return it

# the same with names of built-in variables and tags
BUILTIN = {'x': 'str', 'y': 'len', 'T': 'b', 'G': 'i'}
def builtin_space(n, leaves, conts):
    def it():
        for f in forests(n, leaves, conts):
            if any(l[0] in 'ut?T' for l in flat(f)): yield ('tree', (f, 0, 1))
    return it

def flat(forest):
    for l, kids in forest:
        yield l
        for x in flat(kids): yield x

# ---- part 2

USES = {
    'text': lambda n: [Text([Emb(n)])],
    'dollar': lambda n: [Text([Emb(n, 'd')])],
    'attr': lambda n: [Struct(T('p', K('a', n)), inline = Text('t'))],
    'short': lambda n: [Struct(T('p', At('.', Ex('{%s}' % n, n))), inline = Text('t'))],
    'cond': lambda n: [If([Branch("%s == '7'" % n, [Text('yes')])], Branch(None, [Text('no')]))],
    'elif': lambda n: [If([Branch('0', [Text('yes')]), Branch(n, [Text(['x'])])])],
    'elif-not-reached': lambda n: [If([Branch('1', [Text('yes')]), Branch(n, [Text(['x'])])])],
    'seq': lambda n: [For('q', n, [Text([Emb('q')])])],
    'while': lambda n: [Assign('w', '1'), While("w and %s" % n, [Text('w'), Assign('w', '0')])],
    'rhs': lambda n: [Assign('q', n), Text([Emb('q')])],
    'inplace': lambda n: [Assign(n, "'+'", '+'), Text([Emb(n)])],
    'self assign': lambda n: [Assign(n, n + " + 'a'"), Text([Emb(n)])],
    'self for': lambda n: [For(n, n, [Text([Emb(n)])])],
    'self for, after': lambda n: [For(n, n, [Text('i')], els = Branch(None, [Text('none')])), Text([Emb(n)])],
    'self unpack': lambda n: [Assign('%s, q' % n, "(%s + 'a', %s)" % (n, n)), Text([Emb(n), Emb('q')])],
    'self default': lambda n: [Def('G', [(n, n)], body = [Text([Emb(n)]), Assign(n, "'l'")]), Struct('G'), Struct('G'), Text([Emb(n)])],
    'self attr': lambda n: [Def('G', [n], body = [Assign(n, n + " + 'a'"), Text([Emb(n)])]), Struct(T('G', K(n, n))), Struct(T('G', K(n, n))), Text([Emb(n)])],
    'fstr': lambda n: [Text([Emb(Ex("'f{%s}'" % n, "'f' + str(%s)" % n))])],
    'fstr-nested': lambda n: [Struct(T('p', K('a', '"$%s"' % n, 'str(%s)' % n)))],
    'call': lambda n: [Text([Emb('str(%s)' % n)])],
    'kwarg': lambda n: [Text([Emb('dict(a=%s)' % n)])],
    'filter': lambda n: [Text([Emb(Ex('%s:str' % n, 'str(%s)' % n))])],
    'default': lambda n: [Def('G', [('a', n)], body = [Text([Emb('a')])]), Struct('G')],
    'default-unused': lambda n: [Def('G', [('a', n)], body = [Text([Emb('a')])]), Struct(T('G', Pos('5')))],
    'not-executed': lambda n: [If([Branch('0', [Text([Emb(n)])])])],
    'for-else': lambda n: [For('q', '[1]', [Text('i')], els = Branch(None, [Text([Emb(n)])]))],
    'for-else-done': lambda n: [For('q', '[]', [Text('i')], els = Branch(None, [Text([Emb(n)])]))],
    'try': lambda n: [Try([Branch(None, [Text(['t', Emb(n)])]), Branch(None, [Text('failed')])])],
    'try-not-reached': lambda n: [Try([Branch(None, [Text('ok')]), Branch(None, [Text([Emb(n)])])])],
    'opt': lambda n: [Opt(Text(['o', Emb(n)]))],
    'optq': lambda n: [Text(['q', Emb(n, 'b', '?')])],
    'and': lambda n: [Text([Emb('0 and %s' % n)])],
    'ifelse': lambda n: [Text([Emb('1 if 1 else %s' % n)])],
    'list': lambda n: [Text([Emb('[%s][0]' % n)])],
    'index': lambda n: [Text([Emb("{'7': 1, 'o': 2}.get(%s)" % n, 's')])],
    'markup': lambda n: [Text([Emb(n)], '/')],
    'tail': lambda n: [Text('h', '|', [('  ', [Emb(n)])])],
    'def-not-called': lambda n: [Def('G', body = [Text([Emb(n)])])],
    'hyper-attr': lambda n: [Def('G', ['a'], body = [Text([Emb('a')])]), Struct(T('G', Pos(n)))],
    'def-called': lambda n: [Def('G', body = [Text([Emb(n)])]), Struct('G')],
    'passed': lambda n: [Def('G', bodyattr = 'b_', body = [Embed('b_')]), Struct('G', [Text([Emb(n)])])],
}
PLACES = {
    'top': lambda u: u,
    'p': lambda u: [Struct('p', u)],
    'null': lambda u: [Struct('.', u)],
    'pp': lambda u: [Struct('div', [Struct('p', u)])],
    'if': lambda u: [If([Branch('1', u)])],
    'else': lambda u: [If([Branch('0', [Text('n')])], Branch(None, u))],
    'for': lambda u: [For('i', '[1, 2]', u)],
    'body': lambda u: [Def('B', bodyattr = 'b_', body = [Struct('i', [Embed('b_')])]), Struct('B', u)],
    'def': lambda u: [Def('B', body = u), Struct('B')],
    'defp': lambda u: [Def('B', body = [Struct('p', u)]), Struct('p', [Struct('B')])],
    'for-p': lambda u: [For('i', '[1, 2]', [Struct('p', u)])],
    'def-twice': lambda u: [Def('B', bodyattr = 'b_', body = [Struct('p', u + [Embed('b_')])]), Struct('B', [Struct('B')])],
}
def dx(v): return Assign('x', v)
# each definition place: program with a hole for the use
DEFS = {
    'none': lambda u: u,
    'before': lambda u: [dx("'7'")] + u,
    'before2': lambda u: [dx("'6'"), dx("'7'")] + u,
    'after': lambda u: u + [dx("'7'")],
    'in p before': lambda u: [Struct('p', [dx("'7'")])] + u,
    'in null before': lambda u: [Struct('.', [dx("'7'")])] + u,
    'in p around': lambda u: [Struct('p', [dx("'7'")] + u)],
    'p shadows': lambda u: [dx("'o'"), Struct('p', [dx("'7'")] + u), Text([Emb('x')])],
    'p shadowed before': lambda u: [dx("'o'"), Struct('p', [dx("'7'")])] + u,
    'in if1 before': lambda u: [If([Branch('1', [dx("'7'")])])] + u,
    'in if0 before': lambda u: [If([Branch('0', [dx("'7'")])])] + u,
    'in if0 before, outer': lambda u: [dx("'o'"), Struct('p', [If([Branch('0', [dx("'7'")])])] + u)],
    'in if1 before, outer': lambda u: [dx("'o'"), Struct('p', [If([Branch('1', [dx("'7'")])])] + u), Text([Emb('x')])],
    'in else, outer': lambda u: [dx("'o'"), Struct('p', [If([Branch('0', [dx("'7'")])], Branch(None, u + [dx("'8'")])), Text([Emb('x')])])],
    'other clause': lambda u: [If([Branch('0', [dx("'7'")])], Branch(None, u))],
    'for var': lambda u: [For('x', "['7', '8']", u)],
    'for var after': lambda u: [For('x', "['7', '8']", [Text('i')])] + u,
    'for var empty': lambda u: [For('x', "[]", [Text('i')])] + u,
    'for in p': lambda u: [Struct('p', [For('x', "['7', '8']", [Text('i')])])] + u,
    'for second': lambda u: [For('i', '[1, 2]', [If([Branch('i == 2', u)], Branch(None, [dx("'7'")]))])],
    'for p second': lambda u: [For('i', '[1, 2]', [Struct('p', [If([Branch('i == 1', [dx("'7'")])])] + u)])],
    'try failed': lambda u: [Try([Branch(None, [dx("'7'"), Text([Emb('1/0')])])])] + u,
    'try not reached': lambda u: [Try([Branch(None, [Text([Emb('1/0')]), dx("'7'")])])] + u,
    'attr': lambda u: [Def('A', ['x'], body = u), Struct(T('A', Pos("'7'")))],
    'attr default': lambda u: [Def('A', [('x', "'7'")], body = u), Struct(T('A'))],
    'attr after': lambda u: [Def('A', ['x'], body = [Text('a')]), Struct(T('A', Pos("'7'")))] + u,
    'attr body': lambda u: [Def('A', ['x'], bodyattr = 'b2', body = [Embed('b2')]), Struct(T('A', Pos("'7'")), u)],
    'def local': lambda u: [Def('A', body = [dx("'7'"), Text('a')]), Struct('A')] + u,
    'def local body': lambda u: [Def('A', bodyattr = 'b2', body = [dx("'7'"), Embed('b2')]), Struct('A', u)],
    'def second call': lambda u: [Def('A', ['n'], body = [If([Branch('n == 1', [dx("'7'")])])] + u), Struct(T('A', Pos('1'))), Struct(T('A', Pos('2')))],
    'def dynamic': lambda u: [dx("'o'"), Def('A', body = u), dx("'7'"), Struct('A'), Struct('p', [dx("'9'"), Struct('A')])],
    'defined later than def': lambda u: [Def('A', body = u), dx("'7'"), Struct('A')],
    'caller p': lambda u: [Def('A', body = u), Struct('p', [dx("'7'"), Struct('A')])],
    'context': lambda u: [Context('$x')] + u,
    'context renamed': lambda u: [Context(('$y', 'x'))] + u,
    'context other': lambda u: [Context('$y')] + u,
    'import': lambda u: [Import('mc_scope_module', ['$x'], TABLE)] + u,
    'import other': lambda u: [Import('mc_scope_module', ['$y'], TABLE)] + u,
    'import renamed': lambda u: [Import('mc_scope_module', [('$y', 'x')], TABLE)] + u,
    'import away': lambda u: [Import('mc_scope_module', [('$x', 'y')], TABLE)] + u,
    'import wild': lambda u: [Import('mc_scope_module', ['*'], TABLE)] + u,
    'import in p': lambda u: [Struct('p', [Import('mc_scope_module', ['$x'], TABLE)])] + u,
    'import around': lambda u: [dx("'o'"), Struct('p', [Import('mc_scope_module', ['$x'], TABLE)] + u), Text([Emb('x')])],
    'tag only': lambda u: [Def('x', body = [Text('t')]), Struct('x')] + u,
    'tag and var': lambda u: [dx("'7'"), Def('x', body = [Text('t')])] + u + [Struct('x')],
    'unpack': lambda u: [Assign('y, x', "('1', '7')")] + u,
    'unpack failed': lambda u: [Try([Branch(None, [Assign('x, y', "['7']")])])] + u,
    'inplace': lambda u: [dx("'o'"), Struct('p', [Assign('x', "'7'", '+')] + u), Text([Emb('x')])],
}
def uses(quick):
    def it():
        for d in DEFS:
            for p in PLACES:
                for u in USES: yield ('use', (d, p, u))
    return it

# tags: uses of a tag name in definition places
TUSES = {
    'block': lambda n: [Struct(n, inline = Text('z'))],
    'chain': lambda n: [Struct(['p', n], inline = Text('z'))],
    'chain2': lambda n: [Struct([n, 'p'], inline = Text('z'))],
    'expr': lambda n: [Text([Emb(Ex("%%%s('z')" % n, "_tag_%s('z')" % n))])],
    'not executed': lambda n: [If([Branch('0', [Struct(n)])])],
    'in try': lambda n: [Try([Branch(None, [Struct(n)])])],
    'in def': lambda n: [Def('G', body = [Struct(n, inline = Text('z'))]), Struct('G')],
    'in def not called': lambda n: [Def('G', body = [Struct(n, inline = Text('z'))])],
    'self': lambda n: [Def(n, bodyattr = 'b_', body = [Struct(n, [Embed('b_')])]), Struct(n, inline = Text('z'))],
    'as variable': lambda n: [Text([Emb(n)])],
    'in attr': lambda n: [Struct(T('p', K('a', "{%%%s('z')}" % n, "_tag_%s('z')" % n)))],
    'opt': lambda n: [Opt(Struct(n, inline = Text('z')))],
    'upper': lambda n: [Struct(n.upper(), inline = Text('z'))],
}
def dt(name, label): return Def(name, bodyattr = 'b_', body = [Text(label), Embed('b_')])
TDEFS = {
    'none': lambda n, u: u,
    'before': lambda n, u: [dt(n, '1')] + u,
    'redefined': lambda n, u: [dt(n, '1'), dt(n, '2')] + u,
    'redefined between': lambda n, u: [dt(n, '1')] + u + [dt(n, '2')] + copy.deepcopy(u),
    'after': lambda n, u: u + [dt(n, '1')],
    'in p': lambda n, u: [Struct('div', [dt(n, '1'), Struct(n)])] + u,
    'around': lambda n, u: [Struct('div', [dt(n, '1')] + u)],
    'shadow': lambda n, u: [dt(n, '1'), Struct('div', [dt(n, '2')] + u), Struct(n, inline = Text('o'))],
    'in def': lambda n, u: [Def('W', body = [dt(n, '1')] + u), Struct('W')],
    'in def, used outside': lambda n, u: [Def('W', body = [dt(n, '1')]), Struct('W')] + u,
    'def uses outer': lambda n, u: [dt(n, '1'), Def('W', body = u), dt(n, '2'), Struct('W')],
    'var only': lambda n, u: [Assign(n, "'v'"), Text([Emb(n)])] + u,
    'var and tag': lambda n, u: [dt(n, '1'), Assign(n, "'v'")] + u + [Text([Emb(n)])],
    'import': lambda n, u: [Import('mc_scope_module', ['%T'], TABLE)] + u,
    'import as': lambda n, u: [Import('mc_scope_module', [('%T', n)], TABLE)] + u,
    'import var': lambda n, u: [Import('mc_scope_module', [('$x', n)], TABLE)] + u,
    'import wild': lambda n, u: [Import('mc_scope_module', ['*'], TABLE)] + u,
    'import in div': lambda n, u: [Struct('div', [Import('mc_scope_module', [('%T', n)], TABLE)])] + u,
    'wild over def': lambda n, u: [dt(n, '1'), Import('mc_scope_module', ['*'], TABLE)] + u,
    'def over wild': lambda n, u: [Import('mc_scope_module', ['*'], TABLE), dt(n, '1')] + u,
    'control': lambda n, u: [If([Branch('1', [dt(n, '1')])])] + u,
    'import control': lambda n, u: [For('i', '[1]', [Import('mc_scope_module', ['%T'], TABLE)])] + u,
    'in for p': lambda n, u: [For('i', '[1, 2]', [Struct('p', [dt(n, '1')] + u)])],
}
def taguses():
    for n in ('T', 'b', 'upper', 'x', 'null', 'div'):
        for d in TDEFS:
            for u in TUSES:
                for p in ('top', 'p', 'if', 'body', 'def', 'for-p'): yield ('tag', (n, d, u, p))

# ----- names: any name that is not reserved means the same as any other one; `@@` stands for the name
KW = ['from', 'import', 'if', 'else', 'elif', 'try', 'for', 'while', 'break', 'continue', 'pass', 'is', 'in', 'not', 'and', 'or', 'as', 'context', 'None', 'True', 'False', 'r', 'dom']
NAMES = [k + s for k in KW for s in ('x', '_', '1', '_0', 'X', 'not', 'in')] + [k.upper() for k in KW if k.upper() != k] + [k.capitalize() for k in KW[:18]] + \
        ['as', 'def', 'lambda', 'none', 'true', 'r', 'dom', 'self', 'body', 'attrs', 'kwattrs', 'kwargs', 'args', 'name', 'tag', 'state', 'value', 'key', 'node', 'func', 'ctx', 'frame', 'indent', 'e1', 'E5', 'x', 'notin_', 'ifelse', 'div_', '_', 'x__']
NAMES = [n for n in NAMES if n not in ('break', 'continue', 'isnot', 'notin', 'r') or n in ('r', 'isnot', 'notin')]
TAGN = [                # a hypertag of the name and its uses
    ['%@@', '  | T', '@@'], ['%@@', '  | T', '@@:'], ['%@@|T', 'p', '  @@', '  | x'], ['%@@ @b k=0', '  | $k', '  @b', '@@ | a', '@@ ! b', '@@ / c', '@@: | d', '@@', '  | e', '@@ 5', '@@ k=6 | f', '@@ 7:', '  i'],
    ['%@@ @b', '  @b', 'p : @@ : i | x', '@@ : p', '  | y', '@@ : @@ | z'], ['%@@ @b', '  @b', '@@ -- c', '@@ # c', '@@ | x -- c', '@@: -- d', '  | x'],
    ['%@@ a=1', '  | $a', '| { %@@() } { %@@(a=2) }', '$ %@@(a=3)', 'p title={ %@@(a=4) } | x', '| { %@@() 2} {%@@(a=%@@())} {-1 if one else %@@()} {not %@@()}'], ['%@@', '  | T', '? @@', '?@@', 'try', '  @@', 'else', '  @@'],
    ['%@@', '  | T', '< @@', '... @@', 'p', '  < @@', '  ... @@'], ['p', '  %@@ | T', '  @@'], 
    ['%@@ @b', '  @b', '%g @b', '  @@ @ b', '@@ | x', 'g | y'], ['from mc_names_module import %T as @@', '@@ | x', '@@', '  | y'], ['%@@ class="" id=""', '  | $class $id', '@@.a#b', '@@#$one', '@@ .a .c']]
VARN = [
    ['$@@ = 5', '| $@@ {@@} {$@@} {@@ + 1} {-@@} {1 - @@} $@@. {@@}x', '/ $@@', 'p title=$@@ alt={@@} | x'], ['$@@ = 5', '| {@@ if @@ else @@} {1 if @@ else 2} {@@ if @@} {0 if not @@ else @@}'],
    ['$@@ = 0', '| {not @@} {not not @@} {@@ and 1} {@@ or 2} {1 and @@} {0 or @@} {not @@ and not @@} {1 or @@ if @@ else @@}'], ['$@@ = [1]', '| {1 in @@} {1 not in @@} {@@ in [@@]} {@@ not in [@@]} {not 1 in @@}'],
    ['$@@ = None', '$y = 5', '| {y is @@} {y is not @@} {@@ is @@} {@@ is not @@} {@@ is not y} {(y)is(@@)} {(y)is not(@@)}'], ['$@@ = [1, 2]', '| {@@[0]} {@@[0:1]} {[5, 6][@@[0]]} $@@[1] {@@[@@[0]]} {@@ : len}'],
    ['$@@ = 2', '| {(@@, 1)} {(1, @@)} {[@@]} {[@@, @@]} { {@@} } { {@@: 1} } { {1: @@} } {@@, 1} {dict(@@ = 1)} {dict(@@=@@, b=@@)}'], ['$@@ = "a"', "| {@@ 'b'} {'b' @@} {@@ @@} {@@ 1 @@} {1 @@} {@@ + 'r'} {'r' + @@} {@@ 'x' if @@ else @@ 'y'}"],
    ['$@@ = "ab"', '| {@@:upper} {@@ : upper : lower} {"x" : fn(@@)} {"x" : fn(k = @@)} {@@.upper()} {@@ . upper()} {fn(@@)} {fn(@@, @@ = 1)} {fn(1, k=@@)}'], ['$@@ = fn', '| {@@()} {@@(1)} {1 : @@} {1 : @@(2)} $@@(3) {@@ (4)}'],
    ['$@@ = 1', '$@@ += 2', '$ @@ = @@ + 1', '$@@, y = @@, 2', '$(y, @@) = y, @@', '$@@', '$ @@', '$@@ *= @@', '| $@@ $y'], ['for @@ in [1, 2]', '  | $@@', '| $@@'], ['for @@, y in [(1, 2)] | $@@ $y', 'for (y, @@) in [(1, 2)] | $@@ $y', 'for y, @@ in [(1, 2)]', '  | {y}{@@}'],
    ['$@@ = [1, 2]', 'for y in @@', '  | $y', 'for y in @@ | $y', 'for y in @@:', '  | $y', 'for y in @@, @@ : -- c', '  | $y'], ['$@@ = 1', 'if @@', '  | a', 'else', '  | b', 'if (not @@) | c', 'elif @@ | d', 'if 0 | e', 'elif (not @@) ! f', 'else | g', 'if @@ ! h', 'if @@ and @@ :', '  / i', 'if @@ # c', '  | j'],
    ['$@@ = 3', 'while @@ > 1', '  | $@@', '  $@@ = @@ - 1', 'while @@', '  $@@ = 0'], ['$@@ = ""', "| $@@? {@@}? {@@?}x", 'try', '  | {@@!}', 'else', '  | e', '| $@@ {one != @@} {one!=@@}'], ['%h @@', '  | $@@ {@@}', 'h 1', 'h @@=2', 'h @@ = 3', 'h @@="a b"'],
    ['%h @b a @@=3 c=4', '  p title=$@@ | $a {@@} $c', '  @b', 'h 1 | x', 'h 1 @@=2 | x', 'h 1 2 | x', 'h 1 c=5 @@=6', '  | y'], ['%h @ @@ a=1', '  p', '    @ @@', '  @@@', 'h | x', 'h 2', '  | y'], ['$@@ = 7', '%h a=@@ b={@@}', '  | $a $b', 'h', 'h @@ @@', 'h {@@} $@@', 'h b=@@ a=$@@'],
    ['$@@ = "v"', 'p title=@@ lang=$@@ alt={@@} | x', 'p .$@@ #{@@} | x', 'p class=@@ | y'], ['| $o.@@ {o.@@} {o . @@} {o.@@ 1}'], ['from mc_names_module import $v as @@', '| $@@ {@@}', '$@@ = 2', '| $@@'], ['$one_ = 1', '| "$one_" {"{one_}@@"} {\'@@\'} @@ $one_ @@ {r"@@"} {"@@" "@@"}'],
    ['try', '  $@@ = 1', '  | $@@', 'else', '  | $@@', '? | $@@', '| $@@'], ['if one', '  $@@ = 1', 'else', '  $@@ = 2', '| $@@', 'p', '  $@@ = 3', '  | $@@', '| $@@'], ['-- $@@', '$@@ = 1 -- c', '$@@ # c', '| $@@']]
XML = [['p @@="1" | x', 'p @@=one k={one} | y', 'p @@ = 5'], ['p .k @@=1 #i', '  | x'], ['rec @@=1', 'rec @@="a" b=2 @@x={one} | y'], ['p .@@ | x', 'p #@@ .a | y', 'p .@@.@@1']]
AROUND = {
    'plain': lambda f: f, 'first': lambda f: f, 'if': lambda f: ['if one', '  | w'] + f, 'if0': lambda f: ['if not one', '  | w'] + f, 'if-else': lambda f: ['if one ! w', 'elif one ! u', 'else | v'] + f, 'for': lambda f: ['for z_ in [1]', '  | w'] + f,
    'while': lambda f: ['while not one', '  | w'] + f, 'try': lambda f: ['try', '  | w'] + f, 'try-else': lambda f: ['try | w', 'else | v'] + f, '?': lambda f: ['? | w'] + f, 'text': lambda f: ['| w', ''] + f + ['| w'], 'tag': lambda f: ['p'] + f + ['p'],
    'in if': lambda f: ['if one:'] + lang_ind(f) + ['else', '  | n'], 'in else': lambda f: ['if not one', '  | n', 'else'] + lang_ind(f), 'in for': lambda f: ['for z_ in [1]'] + lang_ind(f), 'in try': lambda f: ['try'] + lang_ind(f) + ['| w'], 'in p': lambda f: ['p'] + lang_ind(f), 'in h': lambda f: ['%w_ @b', '  @b', 'w_'] + lang_ind(f),
    'in def': lambda f: ['%w_'] + lang_ind(f) + ['w_']}
def lang_ind(f): return ['  ' + l if l else l for l in f]
NMOD = types.ModuleType('mc_names_module')
NMOD.v, NMOD.__tags__ = 'Nv', {'T': _MT()}
sys.modules['mc_names_module'] = NMOD
class _Rec(Tag):
    name = 'rec'
    def expand(self, body, attrs, kw): return '[%s %r %r]' % (body.render(), attrs, sorted(kw.items(), key = lambda i: repr(i[1])))
class _Any(object):
    def __getattr__(self, n): return 'attribute ' + n if not n.startswith('__') else object.__getattribute__(self, n)
NEUTRAL = 'qzq'
def space_names(names, around):
    def it():
        for a in around:
            for r, T in (('tag', TAGN), ('var', VARN), ('xml', XML)):
                for k in range(len(T)):
                    for n in names: yield ('name', (r, k, a, n))
    return it
_neutral = {}
def name_case(r, k, a, n, cov):
    if n == 'context' and r == 'tag': return
    T = {'tag': TAGN, 'var': VARN, 'xml': XML}[r][k]
    if a[:3] == 'in ' and any(l[0] == '%' and i and T[i - 1][0] not in '% ' or l[:3] == '  %' or l[:5] == 'from ' for i, l in enumerate(T)): return
    def go(name):
        L = [l.replace('@@@', '@\0').replace('@@', name).replace('\0', name) for l in T]
        k = 0
        if a[:3] == 'in ':                  # a definition of a hypertag is not allowed inside a control block
            while L[k][0] == '%' or k and L[k][0] == ' ': k += 1
        s = '\n'.join(['context $one, $fn, $o, %rec'] + L[:k] + AROUND[a](L[k:]) + ['| end', ''])
        g = {'one': 1, 'fn': lambda *x, **y: '%r%r' % (x, sorted(y.items())), 'o': _Any(), '__tags__': {'rec': _Rec()}}
        cov.execs += 1
        return s, hy.render(s, **g)
    if (r, k, a) not in _neutral: _neutral[r, k, a] = go(NEUTRAL)
    s0, o0 = _neutral[r, k, a]
    if o0[0] != 'ok': raise Violation('a script with a plain name fails: %r\n%s' % (o0, s0))
    s, o = go(n)
    cov.state((r, k, a, n)); cov.step(len(T))
    if not isinstance(o[1], str) or o[1] != o0[1].replace(NEUTRAL, n): raise Violation('name %r: got %r, expected (as with the name %s) %r for the script:\n%s' % (n, o, NEUTRAL, o0[1].replace(NEUTRAL, n), s))

def spaces(tier):
    V = ['=x', 'ux', '+x', '=y', 'uy']
    T1 = ['=x', 'ux', 'TT', 'tT', 'DT']
    sp = [('uses of variables', uses(tier == 'quick')), ('uses of tags', taguses), ('names', space_names(NAMES, ['plain', 'if', 'try'] if tier == 'quick' else list(AROUND))), ('names and neighbours', space_names(NAMES[::9] + ['tryx', 'elsex', 'elifx', 'forx', 'passx', 'as'], list(AROUND))),
          ('variables, size 3', space(3, V, ['p', '.', 'if1', 'if0', 'else', 'for', 'for0', 'try', 'h2', 'Hx', 'Hd'], [0, 1])),
          ('variables and tags, size 3', space(3, ['=x', 'ux', '=T', 'uT', 'TT', 'tT', 'DT', 'I', 'I2', 'I*'], ['p', 'if1', 'H', 'C', 'h2'], [0, 2]))]
    sp += [('own value, size 3', space(3, ['=x', 'ux', '~x'], ['p', 'forx', 'for2', 'if1', 'h2', 'Hs'], [1])), ('own value, size 4', space(4, ['ux', '~x'] if tier == 'quick' else ['=x', 'ux', '~x'], ['p', 'forx', 'for2'] if tier == 'quick' else ['p', 'forx', 'for2', 'if0', 'Hs'], [1]))]
    sp += [('built-in names, size %d' % n, builtin_space(n, ['=x', 'ux', '=T', 'uT', 'TT', 'tT', 'DT', 'I', 'I2'], ['p', 'if1', 'if0', 'for', 'for0', 'try', 'H', 'Hx', 'Hd', 'C', 'h2'] if n < 3 or tier != 'quick' else ['p', 'if0', 'H', 'C'])) for n in (1, 2, 3)]
    if tier == 'quick':
        sp += [('variables, size 4', space(4, ['=x', 'ux'], ['p', 'if1', 'if0', 'for', 'h2'], [0, 1])),
               ('tags, size 4', space(4, ['=x', 'ux', 'TT'], ['p', 'H', 'C'], [0, 2]))]
    else:
        sp += [('variables, size 4', space(4, ['=x', 'ux', '+x', '?x'], ['p', '.', 'if1', 'if0', 'else', 'for', 'try', 'h2', 'Hx', 'Hd'], [0, 1, 3])),
               ('variables and tags, size 4', space(4, ['=x', 'ux', 'TT', 'tT', 'DT', 'I'], ['p', 'if1', 'H', 'C', 'h2'], [0, 2])),
               ('variables, size 5', space(5, ['=x', 'ux'], ['p', 'if1', 'if0', 'for'], [0, 1])),
               ('tags, size 5', space(5, ['ux', 'TT'], ['p', 'H', 'C'], [2]))]
    return sp

def prepare(tier): util.warm(sys.modules[__name__], tier, 20, 50)

def fresh():
    log = []
    return {'$x': 'cx', '$y': 'cy', '$z': 'cz', '$log': log.append}, log

def run(case, cov):
    kind, arg = case
    if kind == 'tree':
        f, p = arg[:2]
        names = BUILTIN if len(arg) > 2 else {}
        if p == 3: blocks = [Context('$log', '$x')]
        else: blocks = [Context('$log')] + PRE[p]()
        blocks += [Eval('log(1)')] + Build(names).body(f)
        compare(blocks, cov, what = 'scope', fresh = fresh)
    elif kind == 'use':
        d, p, u = arg
        use = USES[u]('x')
        blocks = DEFS[d](PLACES[p](use))
        head = [Context('$log')]
        if d == 'context other': head = [Context('$log')]
        i = 1 if isinstance(blocks[0], Context) else 0
        blocks = head + blocks[:i] + [Eval('log(1)')] + blocks[i:] + [Text('end'), Eval('log(2)')]
        compare(blocks, cov, what = 'use of a variable', fresh = fresh)
    elif kind == 'name': name_case(*arg, cov)
    else:
        n, d, u, p = arg
        if n == 'upper' and u == 'as variable': return
        use = TUSES[u](n)
        blocks = [Context('$log'), Eval('log(1)')] + TDEFS[d](n, PLACES[p](use)) + [Text('end'), Eval('log(2)')]
        compare(blocks, cov, what = 'use of a tag', fresh = fresh)
