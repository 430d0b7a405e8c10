"""C17: alternative spellings of a construct are equivalent."""
import itertools, re, sys, os, tempfile, shutil
from mc import hy, util
from mc.core import Violation
from hypertag import Tag

ID = 'C17'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive exploration of all combinations of alternative spellings (all pairs of sites, full products of small fragments) of a family of fragments in every bounded context; oracle: all spellings give the output of the canonical one'
NOTE = ('fragments covering every documented pair of equivalent spellings, each site with all its alternatives, in 19 single contexts and all their nested pairs; 1 and 2 deviating sites in every single context, '
        '1 in nested ones; the canonical spelling must render without an error and non-trivially')
RULE = 'fragment x context x assignment of alternatives with at most 2 (3 in thorough) deviations'
ASSUMPTIONS = ['comments and pass are inserted only between sibling blocks, not inside text blocks']

class Rec(Tag):
    name = 'rec'
    def expand(self, body, attrs, kwattrs): return '[%s|%r|%r]' % (body.render(), attrs, kwattrs)

PRELUDE = r'''context $s, $n, $l, $d, $f, $o, %rec
%h @b a=1 k='kk'
  div q={a}
    | $k {a}
    @b
%g a=1 k='kk'
  i | ($a-$k)
'''.split('\n')[:-1]
class Obj(object):
    a = 5
    def m(self, *a, **k): return 'm%r%r' % (a, sorted(k.items()))
def values(): return {'s': 'a<b>&"c\'', 'n': 3, 'l': [3, 1, 2], 'd': {'k': 'v', 1: [7, 8]}, 'f': (lambda *a, **k: '%r%r' % (a, sorted(k.items()))), 'o': Obj(), '__tags__': {'rec': Rec()}}

CM = ['', '-- c', '#c', '--', 'pass', 'pass -- c', '-- a {\n   b $\n\n     c )', '# | x\n -- y', '$ 0', '$ x_ = 1']      # lines that give no output
def subst(lines):
    """-> list of sites (list of alternatives), list of line templates (tuples of str | site index)"""
    sites, out = [], []
    for line in lines:
        parts = []
        for p in re.split('(⟦[^⟧]*⟧)', line):
            if p.startswith('⟦'):
                body = p[1:-1]
                alts = CM if body == '#' else body.split('¦')
                for old, new in (('-- c', '--'), ('# c', '#')):         # an inline comment may be empty
                    add = [a[:-len(old)] + new for a in alts if a.endswith(old) and a != old]
                    if alts is not CM: alts = alts + add[:1]
                sites.append(alts)
                parts.append(len(sites) - 1)
            elif p: parts.append(p)
        out.append(parts)
    return sites, out
def fill(template, sites, choice):
    out = []
    for parts in template:
        if len(parts) == 2 and isinstance(parts[1], int) and sites[parts[1]] is CM or len(parts) == 1 and isinstance(parts[0], int) and sites[parts[0]] is CM:
            i = parts[-1]
            alt = CM[choice[i]]
            if alt:
                ind = parts[0] if len(parts) == 2 else ''
                out += [ind + a if a else a for a in alt.split('\n')]
            continue
        out += ''.join(p if isinstance(p, str) else sites[p][choice[p]] for p in parts).split('\n')
    return out

# ----- contexts
def ind(lines, by = '  '): return [by + l if l.strip() else l for l in lines]
CTX = {
    'top':    lambda f: f,
    'p':      lambda f: ['p'] + ind(f),
    'p:':     lambda f: ['p a=1 :'] + ind(f, '    '),
    'tab':    lambda f: ['p'] + ind(f, '\t'),
    'a:b':    lambda f: ['div : p .k'] + ind(f),
    'after':  lambda f: ['| before'] + f + ['| after'],
    'mid':    lambda f: ['p', '  i | x', ''] + ind(f) + ['  b | y'],
    'if':     lambda f: ['if n'] + ind(f) + ['else', '  | no'],
    'else':   lambda f: ['if not n', '  | no', 'else'] + ind(f),
    'for':    lambda f: ['for z_ in [1, 2]'] + ind(f),
    'while':  lambda f: ['$w_ = 2', 'while w_ > 0', '  $w_ -= 1'] + ind(f),
    'try':    lambda f: ['try'] + ind(f),
    'tryelse': lambda f: ['try', '  | {1/0}', 'else'] + ind(f),
    '?':      lambda f: ['? p'] + ind(f),
    'def':    lambda f: ['%t'] + ind(f) + ['t', 'p : t'],
    'body':   lambda f: ['h'] + ind(f),
    'body2':  lambda f: ['%t @b', '  @b', '  p @b', 't'] + ind(f),
    'class':  lambda f: ['merge'] + ind(f),
    'append': lambda f: ['p |x', '... b'] + ind(f),
    'dedent': lambda f: ['div', '  < p'] + ind(f),
}
NODEF = {'if', 'else', 'for', 'while', 'try', 'tryelse', '?'}          # definitions and imports are not allowed inside of these

# ----- fragments: (name, restrictions, lines)
F = [
 # --- headers: trailing colon, comments, blanks
 ('tag header', '', ['⟦p¦p:¦p :¦p -- c¦p : # c¦p  ¦p :  ¦p: ¦p--c¦p :--c⟧', '  | text', '  b⟦¦:¦ :¦ # c⟧', '    | x', '⟦#⟧']),
 ('tag header inline', '', ['p⟦: ¦:¦ :¦  : ⟧b⟦ ¦: ¦ : ¦⟧| text']),
 ('tag header void', '', ['br⟦¦:¦ :¦ -- c¦ # {⟧', 'p⟦¦:¦ :¦ -- c¦ : -- c⟧', 'img src="x"⟦¦:¦ :¦ # c⟧', 'i']),
 ('attrs header', '', ['a href="x" .k⟦¦:¦ :¦ -- c¦ : -- c¦  ⟧', '  | t', 'b #i⟦¦:¦ :¦ # c⟧', '  / u']),
 ('header and text', '', ['p ⟦|¦ |⟧ x', '  y', 'div⟦ ¦: ¦ : ¦:¦⟧/ x', 'i⟦ ¦: ¦ : ¦:¦⟧! x', 'div⟦ ¦: ¦ : ⟧| head', 'b⟦: ¦ : ¦:⟧| head', '  i | sub']),
 ('if header', '', ['⟦if n¦if n:¦if n :¦if (n)¦if  n -- c¦if $n¦if n: # c⟧', '  | yes', '⟦else¦else:¦else :¦else -- c⟧', '  | no']),
 ('if header 2', '', ['⟦if not n¦if not n:¦if n == 0 :¦if not (n)¦if n <> 3⟧', '  | yes', '⟦elif n¦elif n:¦elif (n) :¦elif n -- c¦elif n # c⟧', '  | no', '⟦else¦else:¦else :⟧', '  | other']),
 ('elif', '', ['if n == 1', '  p | 1', '⟦elif n == 2\n  p | 2\nelif n == 3\n  p | 3\nelse\n  p | other¦else\n  if n == 2\n    p | 2\n  elif n == 3\n    p | 3\n  else\n    p | other¦else\n  if n == 2\n    p | 2\n  else\n    if n == 3\n      p | 3\n    else\n      p | other⟧', '| end']),
 ('inline if', '', ['⟦if n | yes¦if n\n  | yes¦if (n) | yes¦if n:\n  | yes⟧', '⟦else | no¦else\n  | no⟧', '⟦if not n | yes¦if not n\n  | yes⟧', '⟦else | no¦else\n  | no¦else : | no¦else:| no⟧'][:1]),
 ('for header', '', ['⟦for i in l¦for i in l:¦for i in l :¦for  i  in  (l)¦for i in $l -- c¦for i in l: # c¦for i in [3, 1, 2]¦for i in 3, 1, 2⟧', '  b | $i', '| end']),
 ('for unpack', '', ['for ⟦i, j¦i , j¦i,j¦(i, j)¦(i , j) ,¦( i,j )⟧ in⟦ ¦  ⟧⟦[(1, 2), (3, 4)]¦[ (1,2),(3,4) ]¦((1, 2), (3, 4))¦(1, 2), (3, 4)⟧⟦¦:¦ :⟧'.replace('(i , j) ,¦', ''), '  | $i-$j']),
 ('while header', '', ['$ j = 2', '⟦while j > 0¦while j > 0:¦while (j > 0)¦while j>0 :¦while j > 0 -- c¦while 0 < j: # c⟧', '  ⟦$j -= 1¦$j = j - 1¦$ j = j-1¦$j=j-1¦$ j -=1¦$j = $j - 1⟧', '  | $j', '| end']),
 ('try header', '', ['⟦try¦try:¦try :¦try -- c¦try: # c⟧', '  | {1/0}', '⟦else¦else:¦else :¦else # c⟧', '  b | ok']),
 ('try short', '', ['⟦?| { n }¦try| { n }¦? | { n }¦try | { n }¦try\n  | { n }¦?:\n  | { n }¦try:\n  | { n }¦?\n  | { n }⟧', '| e']),
 ('try short 2', '', ['| b', '⟦? p | x¦?p | x¦try\n  p | x¦try:\n  p: | x¦?:\n  p | x¦?\n  p | x⟧', '⟦? p\n  | {1/0}¦try\n  p\n    | {1/0}¦try\n  p | {1/0}¦?:\n  p\n    | {1/0}¦? | { 1/0 }¦try | {1/0}¦pass¦-- none⟧', '| e']),
 ('def header', 'd', ['⟦%t¦%t:¦%t :¦%t -- c¦% t¦%t: # c¦%t  ⟧', '  | x', 't', 't']),
 ('def attrs', 'd', ['%t ⟦@b a=1 k=2¦@b a = 1 k = 2¦@ b  a=1  k=(2)¦@b a={1} k= 2¦@b a=1 k=2:¦@b a=1 k=2 -- c¦@b a=(1) k=2 :⟧', '  p x={a} y={k}', '    @b', 't 5', '  | x', 't k=6 a=7']),
 ('def inline', 'd', ['⟦%t a | x{a}y¦%t a : | x{a}y¦%t a\n  | x{a}y¦%t a:\n  | x{a}y⟧', 'div', '  t 1', '  p : t 2']),
 # --- shortcuts
 ('class', '', ['p ⟦.k¦class="k"¦class=\'k\'¦class = "k"¦class={"k"}¦class=("k")⟧', '  | x', 'p⟦.k-1¦ .k-1¦ class="k-1"¦ .{"k-1"}⟧⟦¦:¦ :⟧', '  | y']),
 ('id', '', ['p ⟦#k¦id="k"¦id=\'k\'¦id = "k"¦id={"k"}¦#{"k"}⟧ a=1 | x', 'p⟦#k-1¦ #k-1¦ id="k-1"⟧⟦ |¦: |⟧ y']),
 ('classes', '', ['p⟦.a.b .c¦.a .b .c¦ .a.b.c¦ .a .b.c¦ class="a b c"¦ class="a" class="b" class="c"¦ .a class="b" .c¦ .a class="b c"¦.a.b.c¦ class="a b" .c⟧ | x']),
 ('class id', '', ['p⟦.a.b#i¦.a #i.b¦ .a .b #i¦ .a.b #i¦ class="a b" id="i"¦ class="a" id="i" class="b"¦.a#i.b¦ class="a" #i .b⟧'.replace('#i.b', '#i .b').replace('.a#i .b', '.a#i .b') + ' | x']),
 ('class value', '', ['p ⟦.$s¦.{s}¦class=$s¦class={s}¦class=s¦class={ s }¦class=(s)¦.{ $s }¦class={"" s}⟧ #⟦$n¦{n}¦{ n }¦3¦{1+2}⟧ | x']),
 ('class rec', '', ['rec ⟦.a¦class="a"⟧ ⟦#b¦id="b"⟧ ⟦.c¦class="c"⟧'.replace(' ⟦.c¦class="c"⟧', ''), 'rec ⟦1¦{1}¦(1)⟧⟦ .a¦ class="a"¦ .{"a"}⟧']),
 # --- embeddings
 ('embed text', '', ['| ⟦$s¦{s}¦{$s}¦{ s }¦{(s)}¦{s\t}⟧ ⟦$n¦{n}¦{ n }¦{1+2}¦{ 1 + 2 }¦{n:str}¦{n : str}⟧.', '/ ⟦$s¦{s}¦{ $s }⟧']),
 ('embed member', '', ['| ⟦$o.a¦{o.a}¦{$o.a}¦{o .a}¦{o. a}¦{ (o).a }⟧-⟦$d["k"]¦{d["k"]}¦{d[\'k\']}¦$d[\'k\']¦{d [ "k" ]}¦{$d["k"]}⟧-⟦$f(1, k=2)¦{f(1, k=2)}¦{f(1,k = 2)}¦{f (1 , k=2)}¦$f(1,k=2)¦$f( 1, k=2, )¦{1:f(k=2)}¦{1 : f(k=2)}⟧']),
 ('embed chain', '', ['p | ⟦$o.m(n)[0:3]¦{o.m(n)[0:3]}¦{ o.m(n)[:3] }¦{$o.m($n)[ : 3]}⟧|⟦$d[1][0]¦{d[1][0]}¦{ d [1] [0] }¦{7}⟧|']),
 ('embed attr', '', ['a x=⟦$s¦{s}¦s¦(s)¦{ s }¦($s)¦{(s)}¦ $s¦ {s}¦ s⟧ y⟦=¦ = ¦= ¦ =⟧⟦$d[\'k\']¦{d["k"]}¦d["k"]¦(d [ "k" ])⟧ z=⟦$n¦{n}¦n¦3¦{ 1 + 2 }¦(1+2)⟧ | x']),
 ('embed pos', '', ['g ⟦$n¦{n}¦n¦(n)¦3¦{ 3 }⟧ k=⟦$s¦s¦{s}⟧', 'h ⟦k=$s¦k=s¦1 $s¦1 s¦a=1 k={s}¦{1} {s}¦$o.a-4 k=s⟧'.replace('¦$o.a-4 k=s', ''), '  | x']),
 ('embed string', '', ['| {⟦"a$s b"¦"a{s} b"¦\'a{ s } b\'¦"a" s " b"¦("a" + s + " b")¦\'a$s b\'¦"a{$s}" r" b"⟧}', 'p x=⟦"$n-{n}"¦\'{n}-$n\'¦"3-3"¦r"3-3"¦{"3-" n}⟧']),
 ('embed tail', '', ['p', '  | a', '    ⟦$s¦{s}¦{ s }⟧', '    b ⟦$n.¦{n}.⟧', 'p | ⟦$s?¦{s}¦{s}?¦{s?}¦$s!¦{s!}¦{s}!⟧']),
 ('embed cond', '', ['| {⟦s if n else 0¦s if n¦(s) if (n) else (0)¦n and s¦n and s or 0¦s if not not n else 0¦0 if not n else s⟧}', '| {⟦0? s¦("") s¦"" s¦s if 1⟧}']),
 ('escapes', '', ['| ⟦$$¦{"$$"}¦{\'$$\'}¦{r"$"}⟧ ⟦{{¦{"{{"}¦{r"{"}⟧ ⟦}}¦{"}}"}¦{r"}"}⟧ ⟦<¦{"<"}⟧']),
 # --- comments, pass
 ('comments', '', ['⟦#⟧', 'p', '  ⟦#⟧', '  | a', '  ⟦#⟧', '  b | x', '  ⟦#⟧', '⟦#⟧', '| z', '⟦#⟧']),
 ('comments 2', '', ['⟦#⟧', '| text', '  more', '⟦#⟧', '/ markup', '⟦#⟧', 'div', '  ⟦#⟧', '  p', '    ⟦#⟧', '    | z', '⟦#⟧']),
 ('comments blank', '', ['| a', '', '⟦#⟧', '| b', '⟦#⟧', '', 'p', '  | c']),
 ('comments control', '', ['⟦#⟧', 'if n', '  ⟦#⟧', '  | a', '  ⟦#⟧', 'else', '  | b', '⟦#⟧', 'for i in l', '  ⟦#⟧', '  | $i', '  ⟦#⟧', '⟦#⟧']),
 ('comments else', '', ['if not n', '  ⟦#⟧', 'elif n', '  ⟦#⟧', '  p', '    ⟦#⟧', 'else', '  ⟦#⟧', 'try', '  ⟦#⟧', '  | {1/0}', 'else', '  ⟦#⟧', '  | ok']),
 ('comments def', 'd', ['⟦#⟧', '%t @b', '  ⟦#⟧', '  p', '    ⟦#⟧', '    @b', '    ⟦#⟧', '⟦#⟧', 't', '  ⟦#⟧', '  | a', '  ⟦#⟧', '⟦#⟧']),
 ('comments assign', '', ['⟦#⟧', '$v = 1⟦¦ -- c¦ # c¦--c¦  ⟧', '⟦#⟧', '$ v += 1⟦¦ -- c¦# c⟧', '$ f(v)⟦¦ -- c⟧', '| $v']),
 ('empty bodies', '', ['p⟦¦\n  pass¦\n  -- c¦:\n  # c\n  pass¦ :¦:\n  pass\n  pass⟧', 'if n⟦:¦\n  pass¦\n  -- c¦ :¦:\n  pass⟧', '| x', 'for i in l⟦:¦\n  pass¦:\n  # c¦ :⟧', '| y', 'try⟦¦:¦\n  pass¦:\n  -- c⟧'.replace('⟦¦:¦', '⟦:¦'), '| z']),
 ('comment import', 'dc', ['from .m17 import %t, $v⟦¦ -- c¦ # c¦  ⟧', 't⟦¦ -- c¦:⟧', '| $v']),
 # --- null tag
 ('null', '', ['⟦. | x¦| x¦. : | x¦.: | x⟧', '⟦. / <i>¦/ <i>⟧', '⟦. ! {$¦! {$¦.! {$⟧', '⟦.\n  p | y¦.:\n  p | y¦. :\n  p: | y⟧', '| z']),
 ('null multi', '', ['⟦. | x\n    y\n      z¦| x\n  y\n    z¦| x\n    y\n      z⟧'.replace('¦| x\n    y\n      z', '')]),
 ('null embed', 'd', ['%t @b', '  ⟦@b¦@ b¦@b -- c¦@b[:]¦@(b)⟧', '  p ⟦@b¦@ b¦ @b⟧', 't', '  i | x', '  | y']),
 # --- chained tags / nested inline tags
 ('chain', '', ['⟦p : b : i | x¦p:b:i| x¦p :b : i: | x¦p\n  ...b\n    ...i | x¦p\n  ... b\n    ... i\n      ...| x¦p: b\n  ... i | x¦p\n  ... b : i | x¦p : b\n  ...i\n    ... | x⟧']),
 ('chain attrs', '', ['⟦p .a : a href="u" x=$n : i #j | x¦p class="a" :a href="u" x={n}:i id="j"| x¦p.a\n  ... a href="u" x=n\n    ... i#j | x¦p.a : a href="u" x=(n) : i#j : | x⟧', '⟦div : p\n  | y¦div:p:\n  | y⟧']),
 ('chain hyper', '', ['⟦h 1 : p | x¦h a=1 : p: | x¦h : p | x⟧', '⟦p : g 5¦p\n  ... g 5¦p: g a=5¦p: g {5}⟧', '⟦div : h : b\n  | q¦div\n  ... h\n    ... b\n      | q⟧'.replace('¦div\n  ... h\n    ... b\n      | q', '¦div: h: b:\n  | q')]),
 # --- expressions
 ('blanks', '', ['| {⟦1+2*n¦1 + 2 * n¦(1 + (2 * n))¦ 1+ 2 *n ¦(1)+(2)*(n)¦1 + (2*$n)⟧} {⟦-n**2¦- n ** 2¦-(n**2)¦(-(n ** 2))⟧} {⟦n<4==True¦n < 4 == True¦(n < 4) and (4 == True)¦n <4 ==True⟧} {⟦n//2%2¦n // 2 % 2¦((n//2)%2)⟧}']),
 ('blanks 2', '', ['| {⟦l[0]+l[-1]¦l [0] + l [ -1 ]¦(l)[0] + (l)[-1]¦(l[0] + l[-1])⟧} {⟦l[1:]¦l[1 : ]¦l [ 1:3 ]¦(l)[1:]¦l[1::]¦l[1::1]⟧} {⟦f(1,2,k=3)¦f( 1 , 2 , k = 3 )¦f(1,2,k=3,)¦(f)(1,(2),k=(3))¦f (1, 2, k =3)⟧} {⟦o.m(1)¦o . m ( 1 )¦(o.m)(1)¦((o).m)(1)¦1:o.m¦1 : o.m()⟧}']),
 ('blanks 3', '', ['| {⟦n or 0 and 1¦n or (0 and 1)¦(n)  or  (0  and 1)¦n or 0  and 1⟧} {⟦not n == 2¦not (n == 2)¦(not (n==2))¦not  n==2¦n <> 2¦n != 2¦n!=2⟧} {⟦2 in l¦2  in l¦(2) in (l)¦not 2 not in l¦not (2 not  in l)⟧} {⟦n is not None¦n is  not None¦not n is None¦not (n is None)⟧}']),
 ('blanks 4', '', ['| {⟦1 | 2 ^ 3 & n << 1¦1|2^3&n<<1¦(1 | (2 ^ (3 & (n << 1))))¦1|(2^3&n<<1)⟧} {⟦s n¦s  n¦s str(n)¦s + str(n)¦(s) n:str¦s "" n⟧} {⟦2**n**2¦2 ** n ** 2¦2**(n**2)⟧}']),
 ('literals', '', ['| {⟦[1,"a"]¦[ 1 , \'a\' ]¦[1, "a",]¦[(1), ("a")]⟧} {⟦(1,2)¦( 1 , 2 )¦(1, 2,)¦1, 2¦1,2,⟧} { ⟦{1:2}¦{ 1 : 2 }¦{1:2,}¦{(1) : (2)}⟧ } { ⟦{1}¦{ 1 }¦{1,}¦{1 , }⟧ } {⟦"a"¦\'a\'¦r"a"¦("a")¦"" "a"⟧} {⟦0.5¦.5¦5e-1¦(0.5)¦ .5⟧} {⟦()¦( )¦(())⟧}']),
 ('pipeline', '', ['| {⟦s:f¦s : f¦s:f()¦f(s)¦(s):f¦(s) : f()¦s :f⟧} {⟦n:f(1):f(k=2)¦n : f(1) : f(k=2)¦f(f(n,1),k=2)¦f(n:f(1), k=2)¦(n:f(1)):f(k=2)¦n:f(1,) :f( k = 2 )⟧} {⟦s:str.upper¦s:str.upper()¦str.upper(s)¦s.upper()¦s : str.upper¦upper(s)¦s:upper⟧}']),
 ('pipeline prio', '', ['| {⟦n+1:str 2¦(n + 1) : str  2¦(n+1):str 2¦str(n+1) 2⟧} {⟦s:f if n¦(s:f) if n¦f(s) if n else None¦s:f if n else None⟧}']),
 # --- assignments
 ('in-place', '', ['$v = 7'] + ['$v ⟦%s= %s¦= v %s %s¦=v%s%s¦%s=%s¦= (v) %s (%s)¦= $v %s %s⟧' % (op, k, op, k, op, k, op, k, op, k, op, k) for op, k in [('+', 3), ('*', 4), ('-', 1), ('//', 2), ('**', 2)] if op != '**'] + ['| $v']),
 ('in-place 2', '', ['$v = 7'] + ['$v ⟦%s= %s¦= v %s %s¦=v%s%s¦%s=%s¦= (v) %s (%s)⟧' % (op, k, op, k, op, k, op, k, op, k) for op, k in [('%', 4), ('<<', 3), ('>>', 1), ('|', 3), ('&', 11), ('^', 2), ('/', 2)]] + ['| $v']),
 ('in-place seq', '', ['$v = [1]', '⟦$v += [2]¦$v = v + [2]¦$ v += [ 2 ]¦$ v.append(2)⟧', '$w = "a"', '⟦$w += s¦$w = w + s¦$w = w s¦$w = "{w}{s}"¦$w = "$w$s"⟧', '$w ⟦*= 2¦= w * 2¦= 2 * w¦+= w¦= w w⟧', '| $v $w']),
 ('in-place expr', '', ['$v = 2', '$v ⟦*= n + 1¦= v * (n + 1)¦*= (n + 1)¦= v*(n+1)⟧', '$v ⟦-= 1 if n else 2¦= v - (1 if n else 2)¦-= (1 if n else 2)⟧', '$v ⟦**= 1¦= v¦+= 0⟧'.replace('**= 1¦', ''), '| $v']),
 ('assign', '', ['$⟦¦ ⟧a⟦ = ¦=¦= ¦ =⟧⟦n¦(n)¦$n¦3⟧', '$⟦a, b¦a,b¦(a, b)¦a , b¦a, b ,¦( a,b )⟧ = ⟦1, 2¦(1, 2)¦1,2,¦[1,2]¦(1,2)⟧', '| $a $b']),
 ('assign unpack', '', ['$⟦a, (b, c)¦(a, (b, c))¦a,(b,c)¦a, ( b , c ), ¦(a,(b,c),)⟧ = ⟦1, (2, 3)¦(1, (2, 3))¦[1, [2, 3]]¦1, [2, 3]¦1, "23":list⟧'.replace('¦1, "23":list', '').replace('¦(a,(b,c),)', '').replace(', ¦', '¦'), '| $a $b $c']),
 # --- tags: own name, imported name, function form
 ('import name', 'dc', ['from .m17 import ⟦%t as u¦%t as u, $v¦%t as u, %t¦%t  as  u¦%t as u -- c¦$v, %t as u⟧', 'u', 'p : u 5', '| {%u()}']),
 ('import names', 'dc', ['⟦from .m17 import %t, $v¦from .m17 import %t\nfrom .m17 import $v¦from .m17 import $v , %t¦from .m17 import *¦from  .m17  import  %t,$v¦from .m17 import $v\nfrom .m17 import %t¦from .m17 import %t as t, $v as v¦from .m17 import *\nfrom .m17 import $v⟧', 't $v', '| $v']),
 ('import rename', 'dc', ['⟦from .m17 import $v as w, %t as u¦from .m17 import $v, %t\n$w = v\n%u a=1\n  t a¦from .m17 import *\n$w = v\n%u a=1 | {%t(a)}¦from .m17 import *\n$w = v\n%u a=1\n  . : t a¦from .m17 import *\n$w = v\n%u a=1 : t a⟧'.replace('¦from .m17 import *\n$w = v\n%u a=1 | {%t(a)}', '').replace('¦from .m17 import *\n$w = v\n%u a=1\n  . : t a', '').replace('¦from .m17 import *\n$w = v\n%u a=1 : t a', ''), 'u', 'u $w', '  pass', '| $w']),
 ('import file', 'dc', ['from ⟦.m17¦.m17.¦m17⟧ import $v'.replace('¦.m17.', ''), '| $v']),
 ('builtin names', 'dc', ['⟦p | x¦from hypertag.html import %p as q\nq | x¦from hypertag.html import %p\np | x¦from builtins import %p\np | x⟧'.replace('¦from builtins import %p\np | x', '')]),
 ('context', 'x', ['⟦context $s, %rec¦context $s\ncontext %rec¦context %rec,$s¦context  %rec , $s -- c¦-- c\ncontext $s\n# c\ncontext %rec¦context $s as s, %rec as rec¦context $s, %rec, $n⟧', '⟦¦-- c\n¦pass\n⟧| $s', 'rec $s']),
 ('context rename', 'x', ['⟦context $s as v, %rec as r¦context $s, $s as v, %rec as r¦context %rec as r, $s as v¦context $s as v\ncontext %rec as r⟧', 'r $v k=$v', '| $v']),
 ('function', '', ['⟦. / {%b("x")}¦/ {%b("x")}¦/ {% b("x")}¦/ {(%b)("x")}¦/ {"x":%b}¦/ {"x" : %b()}¦/ <b>x</b>¦. : b / x¦b / x¦b / {"x"}⟧'.replace('¦/ {% b("x")}', '').replace('¦. : b / x', ''), '/ ⟦{%i(s, title="t")}¦{s:%i(title="t")}¦{s : %i( title = \'t\' )}¦<i title="t">{s}</i>⟧']),
 # --- trailing blanks
 ('trailing', '', ['p⟦¦ ¦   ¦\t⟧', '  | text⟦¦ ¦   ⟧', '  | a⟦¦ ⟧', '    b⟦¦  ⟧', 'if n⟦¦  ⟧', '  / x⟦¦ ⟧', '$v = 1⟦¦  ⟧', '| $v⟦¦ ⟧']),
]
FR = [(name, restr) + subst(lines) for name, restr, lines in F]
M17 = "$v = 'V<'\n%t a=1\n  div | t$a\n"

def program(f, choice, ctxs):
    _, restr, sites, template = FR[f]
    lines = fill(template, sites, choice)
    for c in ctxs: lines = CTX[c](lines)
    if 'x' not in restr: lines = PRELUDE + lines
    return '\n'.join(lines)

DIR, RT = [None], [None]
def prepare(tier):
    DIR[0] = tempfile.mkdtemp(prefix = 'mc-c17-')
    with open(os.path.join(DIR[0], 'm17.hy'), 'w') as f: f.write(M17)
    RT[0] = hy.runtime()
    util.warm(sys.modules[__name__], tier, 30, 17)
def finish():
    if DIR[0]: shutil.rmtree(DIR[0], ignore_errors = True)

def choices(sites, k):
    zero = [0] * len(sites)
    for idx in itertools.combinations(range(len(sites)), k):
        for alt in itertools.product(*[range(1, len(sites[i])) for i in idx]):
            c = list(zero)
            for i, a in zip(idx, alt): c[i] = a
            yield tuple(c)

def allowed(restr, ctxs):
    if 'x' in restr: return not ctxs
    if 'd' in restr: return not (NODEF & set(ctxs))
    return True
def allowed_f(f, ctxs):
    return allowed(FR[f][1], ctxs) and not (set(ctxs) & NODEF and any(c in ('def', 'body2') and NODEF & set(ctxs[i + 1:]) for i, c in enumerate(ctxs)))
ONE = [()] + [(c,) for c in CTX if c != 'top']
TWO = [(a, b) for a in CTX for b in CTX if a != 'top' and b != 'top']

def space(ctxss, k, chunk = 20):
    def it():
        for f in range(len(FR)):
            for ctxs in ctxss:
                if not allowed_f(f, ctxs): continue
                ch = choices(FR[f][2], k)
                while True:
                    part = tuple(itertools.islice(ch, chunk))
                    if not part: break
                    yield (f, part, ctxs)
    return it

def spaces(tier):
    q = tier == 'quick'
    return [('1 deviation', space(ONE, 1)), ('2 deviations', space([(), ('p',)] if q else ONE, 2))] + (
            [] if q else [('canonical, nested', space(TWO, 0)), ('1 deviation, nested', space(TWO, 1)), ('3 deviations', space([()], 3))])

def out(f, choice, ctxs):
    src = program(f, choice, ctxs)
    return src, hy.render(src, RT[0], __file__ = os.path.join(DIR[0], 'main.hy'), **values())

def run(case, cov):
    f, part, ctxs = case
    base = out(f, (0,) * len(part[0]), ctxs)
    if base[1][0] != 'ok' or not base[1][1].strip(): raise Violation('the canonical form fails: %r\n%s' % (base[1], base[0]), key = 'base %s %r' % (FR[f][0], ctxs))
    cov.execs += 1
    cov.state(base[1])
    for choice in part:
        if not any(choice): continue
        src, got = out(f, choice, ctxs)
        cov.execs += 1
        cov.step(sum(1 for c in choice if c))
        cov.sample(src)
        if got != base[1]:
            raise Violation('%s: two spellings of one construct differ: %r for\n%s\n--- and %r for\n%s' % (FR[f][0], base[1], base[0], got, src), key = src)
