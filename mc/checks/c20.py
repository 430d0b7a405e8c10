"""C20: errors point at the place that caused them."""
import itertools, os, re, shutil, tempfile
from mc import gen, hy, util
from mc.core import Violation
from mc.checks import c17

ID = 'C20'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive exploration of all bounded valid scripts x every line as the place of a fault x every kind of fault, and of all truncations of each valid script; oracle: the position at which the fault was injected'
NOTE = ('syntax faults: all forests of up to 3 (4) blocks of 16 kinds with several layouts of blank and comment lines, a fault at every block boundary and every line of text; language errors: about 90 faults of all kinds in 20 contexts (and their pairs) '
        'after 8 preambles, in a string, a named script, an imported file and an imported hypertag; truncation: every prefix of complete lines of the same scripts and of all fragments of C17 in their contexts')
RULE = 'script x line x fault; script x line x truncation'
ASSUMPTIONS = ['the line and the column are the numbers after the words "line" and "column" in the message; the text quoted in a located error must stand there', 'errors raised by Python code inside expressions, and by built-in markup tags when rendered, are not covered by the statement']

DIR = [None]
def prepare(tier):
    DIR[0] = tempfile.mkdtemp(prefix = 'mc-c20-')
    util.warm(__import__(__name__, fromlist = ['x']), tier, 6, 211)
def finish():
    if DIR[0]: shutil.rmtree(DIR[0], ignore_errors = True)

def bad(key, what, *a): raise Violation(what % a, key = key)
def number(line): return '\n'.join('%3d  %s' % (i + 1, l) for i, l in enumerate(line.split('\n')))
def said(msg):
    m = re.search(r'\bline (\d+)', msg)
    return int(m.group(1)) if m else None

# ----- family of valid scripts: blocks as lists of (depth, text, kind) where kind is 'b' - a block starts here, 't' - a continuation of text, 'x' - other
LEAF = {
  'T':  [(0, '| text {x} $y', 'b')],
  'TM': [(0, '| one {x}', 'b'), (1, 'two', 't'), (0, '', 'x'), (2, 'three $y', 't'), (1, 'four', 't')],
  'MM': [(0, '/ <b>', 'b'), (1, 'two {x}', 't'), (1, '</b>', 't')],
  'VM': [(0, '! raw {', 'b'), (1, '} $ {', 'x'), (2, '{{', 'x')],
  'PT': [(0, 'p .k | text', 'b'), (1, 'more {x}', 't'), (1, 'again', 't')],
  'PB': [(0, 'p #i : b | x', 'b')],
  'C':  [(0, '-- comment {', 'b'), (2, 'more ) "', 'x'), (1, '', 'x'), (1, 'if', 'x')],
  'A':  [(0, '$z = x + 1', 'b')],
  'V':  [(0, 'br', 'b')],
  'IE': [(0, 'if x', 'b'), (1, '| yes', 'b'), (0, 'elif y', 'x'), (1, '| or', 'b'), (0, 'else', 'x'), (1, 'br', 'b')],
}
CONT = {'P': 'p .k a={x}', 'PC': 'div : p b=1:', 'I': 'if x', 'F': 'for i in l', 'R': 'try', 'O': '? p', 'W': 'p: | text'}
LAYOUTS = ['plain', 'blank', 'spaces', 'comments', 'tabs']

def lines_of(forest, layout):
    """-> [(indentation, text, kind)]"""
    unit = '\t' if layout == 'tabs' else '  '
    out = []
    count = [0]
    def emit(trees, depth):
        for label, kids in trees:
            count[0] += 1
            if layout == 'blank' and count[0] % 2 == 0: out.append(('', '', 'x'))
            if layout == 'spaces' and count[0] % 2 == 1: out.append((unit * (depth + 1), '  ', 'x')); out.append(('', '', 'x'))
            if layout == 'comments': out.append((unit * depth, '# c } $', 'b'))
            if label in LEAF: out.extend((unit * (depth + d) if t else '', t, k) for d, t, k in LEAF[label])
            else:
                out.append((unit * depth, CONT[label] + ('   ' if layout == 'spaces' else ''), 'b'))
                emit(kids, depth + 1)
    emit(forest, 0)
    return out

FAULTS = ['p | {', '= 5', 'p a=', 'if', 'for x', '$x =', 'p "abc', '@', ') x', '1 + 1', 'p : : b', '%', 'p a=1 b=(2', '| {x', '| a {1 +} long text that goes beyond the limit', 'p {x', 'while', 'import', 'from a import', '? ? p',
          'else', '|text}{', '& x', '/ <b>{</b>', '%h 5', 'elif x', '$a b = 1', 'p b="', "p (1", '.. x', '<']
TFAULTS = ['bad {', 'more {x', 'text {1 +} tail which is longer than that', '$x {']

LANG_SETUP = ["context $e, $nn, $five, $l, $d, $f, $s, $n, $dd, $o, %nt, %rec", "%h1 a", "  | $a", "%h0 @b c=1", "  @b", "  | $c", "%hv", "  p", "%h @b a=1", "  @b"]
def values():
    v = c17.values()
    v.update(e = '', nn = None, five = 5, dd = {})
    v['__tags__']['nt'] = 5
    return v
# (flags, fault): s - detected before execution, d - definition or import (not inside control blocks), t - top level only
L_ = [
 ('s', '| a $nope¶'), ('s', '| a\n  b\n  c $nope¶\n  d'), ('s', '/ a\n\n  {nope}¶'), ('s', 'p | x\n  y $nope¶\n  z'), ('s', 'p a=$nope¶\n  | x'), ('s', 'p : b a={nope} : i¶\n  | x'), ('s', 'if nope¶\n  | x'),
 ('s', 'if 0\n  | x\nelif nope¶\n  | y\nelse\n  | z'), ('s', 'for i in nope¶\n  | x'), ('s', 'while nope¶\n  | x'), ('s', '$y = nope¶'), ('s', '$y = [1, {2: nope}]¶'), ('s', '$nope += 1¶'), ('s', '$ nope¶'), ('s', '@nope¶'), ('s', 'p #$nope¶'),
 ('s', '| {[1].index(nope)}¶'), ('s', '| {"a $nope"}¶'), ('s', '| {%h1(a=nope)}¶'), ('s', 'p: | t $nope¶\n  i\n  b'), ('s', 'p {nope}¶'), ('s', '| a\n\n\n    b {nope}¶'), ('s', 'p\n  i\n  b $l a={nope}¶'), ('s', 'p\n  i\n    b | x\n\n  | $nope¶'),
 ('s', '| $l $nope¶ $l\n  {x y}'.replace('\n  {x y}', '\n  $l')), ('s', 'if 1\n  | x\nelse\n  | $nope¶'), ('s', 'try\n  p\nelse\n  | $nope¶'), ('s', 'try\n  | $nope¶\nelse\n  p'), ('s', '? p $nope¶'), ('s', 'p.a.b $nope¶ | x') ,('s', '| {f(1, [nope], a=2)}¶'), ('s', '| {l:f(nope)}¶'), ('s', '| {d[nope]}¶'), ('s', '| {5 if nope else 3}¶'),
 ('s', '| {l[1:nope]}¶'), ('s', '| $l.nope.x $nope¶'), ('s', 'div\n  p : b : i\n    | $nope¶\n  p'), ('sdt', '%hq a={nope}¶\n  | $a\nhq'), ('sdt', '%hq @b a={5}\n  p\n    @b\n    | $nope¶'),
 ('s', 'nope¶'), ('s', 'p : nope¶ | x'), ('s', 'nope a=1¶\n  | x'), ('s', '| a\n  {%nope("x")}¶'), ('s', '$y = %nope()¶'), ('s', 'p\n  b : nope¶\n    i\n  i'), ('s', 'if 0\n  nope¶'), ('s', 'p a={%nope("x")}¶'), ('s', 'if %nope("x")¶\n  p'), ('s', '? nope¶'), ('sdt', '%hq\n  nope¶'), ('s', '... nope¶'), ('s', '< nope¶'),
 ('', 'nt¶'), ('', 'p : nt¶ | x'), ('', 'p\n  nt¶\n    | x'),
 ('', '| {e!}¶'), ('', '| a\n  b {e!} c¶\n  d'), ('', 'p a={e!}¶'), ('', '$y = e!¶'), ('', 'if e!¶\n  | x'), ('', 'for i in dd!¶\n  | x'), ('', 'p | x\n  $e!¶'), ('', '/ x\n\n  y\n    $e!¶'), ('', 'p\n  i\n  b | {l[0]} {e!}¶'), ('', 'h1 {e!}¶'), ('', '| {f({e!})}¶'.replace('{e!}', 'e!')), ('', 'for i in l\n  | $i\n  | {e!}¶'), ('', 'if five\n  p\n    | $e!¶'),
 ('', 'if e\n  p\nelif e!¶\n  p'), ('', 'if e\n  p\nelse\n  | $e!¶'), ('', 'h\n  p | x\n  p | $e!¶'), ('', 'h : p a={e!}¶'), ('', 'while e!¶\n  p'), ('dt', '%hq @b\n  @b\n  p a={e!}¶\nhq\n  | x'), ('dt', '%hq @b\n  @b\nhq\n  | x\n  | {e!}¶'), ('dt', '%hq a={e!}¶\n  | $a\nhq'),
 ('', '| $nn¶'), ('', '| a\n  $nn¶'), ('', '/ $nn¶'), ('', 'p | x\n  y\n   {nn}¶'), ('', 'h\n  | $nn¶'), ('dt', '%hq\n  p\n\n  | {nn}¶\nhq'),
 ('', '@five¶'), ('', 'p\n  | x\n  @l¶'), ('', 'p : b\n  @five¶'),
 ('', '$a_, b_ = [1]¶'), ('', '$a_, b_ = [1,2,3]¶'), ('', 'for a_, b_ in [[1]]¶\n  | x'), ('', 'p\n  $a_, (b_, c_) = [1, [1]]¶'),
 ('', 'h1¶'), ('', 'h1 1 2¶'), ('', 'h1 z=1¶'), ('', 'h1 1 a=2¶'), ('', 'h0 b=1¶'), ('', 'hv | x¶'), ('', 'p : h1¶'), ('', 'hv¶\n  | x'), ('', '| {%h1()}¶'), ('', '| x\n  {%h1(1, 2, 3)}¶'), ('', 'p\n  i\n  h1 1 2¶\n'), ('', 'for i in l\n  h1 $i $i¶'), ('', 'h\n  p\n  h1¶'), ('', 'p : b : h0 z=1¶\n  | x\n  | y'),
 ('dt', '%hq\n  p\n  h1¶\nhq'), ('dt', '%hq a\n  %hr b\n    | $b\n  hr¶\n\nhq 1'),
 ('sd', 'from nowhere import $q¶'), ('sd', 'from hypertag.builtins import $q¶'), ('sd', 'from os import %x¶'), ('sd', 'from os import $path, $zzz¶'), ('sd', 'from .....x import $q¶'), ('sd', 'from . import $q¶'), ('sd', 'from .gone import *¶'), ('sd', 'from .circ import $q¶'), ('sd', 'p\n  from nowhere import $q¶\n  | x'),
 ('s', 'if 0\n  %hz¶\n    p'), ('s', 'for i in l\n  from os import $path¶'), ('sd', '%ha a a¶\n  p'), ('s', '$ f(a=1,a=2)¶'), ('s', 'p a=1 5¶'), ('s', 'p\n  context $e¶'), ('s', 'p\n  i\n  | x {f(a=1, a=3)}¶'), ('s', 'p : b a=1 5¶\n  | x'), ('s', 'if 1\n  p\n    %hz¶\n      | x'), ('s', 'try\n  import $x'.replace('import $x', 'from os import $path¶')), ('s', '| {%h1(a=1, a=2)}¶'),
 ('', 'if 0\n  $u_ = 1\n| $u_¶'), ('', 'if e\n  $u_ = 1\np\n  | x\n    y {u_}¶'), ('', '$y_ = 1\nif e\n  $u_ = 1\n$y_ = u_¶'),
]
PRE = [[], ['', ''], ['-- comment', '   more {', '', '| text', '', '  more'], ['div', '\tp', '\t\t| x', '\t', '%q_', '    | def', '  '], ['! verb {', '   $', '| α ❨ ❩ ⁅ tail   ', '    ', '# c'], ['if five', '  | y', 'else', '', '  | z', '']
       , ['p', '  i | x', '', '', '  b', '    | a', '   '], ['$v_ = "a{five}"', 'h a={five}', '  p | x', '    y', '  ', '  | x', 'try', '  | $e!', '']]
CTX = dict(c17.CTX)
CTX.update({'textafter': lambda f: ['| before', '  and', '', '    more'] + f + ['', '| after {'.replace(' {', '')]})
RUNSKIP = {'try', '?', 'tryelse'}
MODES = ['string', '__file__', 'import', 'hypertag', 'package']

def spaces(tier):
    q = tier == 'quick'
    def forests(n, leaves, conts, depth): return gen.forests(n, leaves, conts, depth)
    labels = list(LEAF), list(CONT)
    few = ['T', 'TM', 'PT', 'IE', 'C'], ['P', 'I', 'R']
    def scripts(n, pool, layouts, depth = 4):
        for f in forests(n, pool[0], pool[1], depth):
            for l in layouts: yield f, l
    def syntax(n, pool, layouts, faults, tfaults, stride = 1):
        def it():
            i = 0
            for f, l in scripts(n, pool, layouts):
                lines = lines_of(f, l)
                for k in range(len(lines) + 1):
                    i += 1
                    fs = faults if stride == 1 else faults[i % stride::stride]
                    ts = tfaults if stride == 1 else tfaults[i % 4::4]
                    if k == len(lines):
                        for x in fs: yield ('syn', f, l, k, x)
                    elif lines[k][2] == 'b':
                        for x in fs: yield ('syn', f, l, k, x)
                    elif lines[k][2] == 't':
                        for x in ts: yield ('syn', f, l, k, x)
        return it
    def alone():
        for x in FAULTS + ['| ' + t for t in TFAULTS]:
            for pre in ('', '\n', '\n\n   \n', '# c\n'):
                for post in ('', '\n', '\n\n', '\n| x', '\n\n  | x', '\np\n  | {'): yield ('alone', pre, x, post)
    def long():
        # a fault anywhere in a longer script: all paths of the search for the line
        for n in range(1, 18 if q else 34):
            for k in range(n):
                for j in range(k, n if q or n < 20 else min(n, k + 3)):
                    for kind in range(3): yield ('long', n, k, j, kind)
    def trunc(n, pool, layouts):
        def it():
            for f, l in scripts(n, pool, layouts): yield ('trunc', '\n'.join(a + t for a, t, _ in lines_of(f, l)))
        return it
    def trunc17(ctxs):
        def it():
            for name, restr, lines in c17.F:
                sites, tmpl = c17.subst(lines)
                for alts in ([0] * len(sites), [1] * len(sites), [-1] * len(sites)):
                    frag = c17.fill(tmpl, sites, [a % len(s) for a, s in zip(alts, sites)])
                    for c in ctxs: yield ('trunc17', c, '\n'.join(CTX[c](frag)))
        return it
    def lang(pres, ctxs, modes):
        def it():
            for flags, fault in L_:
                for c in ctxs:
                    if not allowed(flags, c): continue
                    for p in pres:
                        for m in modes: yield ('lang', fault, c, p, m)
        return it
    def lang2():
        cs = sorted(CTX)
        i = 0
        for flags, fault in L_:
            for c in cs:
                for c2 in cs:
                    i += 1
                    if not allowed(flags, c) or not allowed(flags, c2) or c in ('def', 'body2') and c2 in c17.NODEF or q and i % 7: continue
                    yield ('lang', fault, (c, c2), i // 7 % len(PRE), i % 3)
    def callers():
        for i, (flags, fault) in enumerate(L_):
            if 's' in flags or 't' in flags: continue
            for c in ('top', 'p', 'if', 'for', 'body'):
                if allowed(flags, c): yield ('caller', fault, c)
    def contexts():
        for pre in (0, 1, 2, 4):
            for lead in ('', '-- c\n   more\n\n', '\n\n'):
                for c in ('context $q¶', 'context $e, $q¶', 'context $e\ncontext $q¶', 'context $e\n\n# c\ncontext $n, %q¶', 'context %q¶\n| x'):
                    for m in range(3): yield ('context', lead, c, m)
    def indents():
        for n, l in [(1, 'plain'), (2, 'plain'), (2, 'blank')] + ([] if q else [(3, 'plain')]):
            for f in forests(n, few[0], few[1], 3):
                lines = lines_of(f, l)
                for k in range(1, len(lines) + 1): yield ('indent', f, l, k)
    lay = LAYOUTS
    return [('single faults', alone), ('long scripts', long), ('language errors', lang(range(len(PRE)), ['top', 'def'], [0, 2])), ('in all contexts', lang([0, 3], sorted(CTX), [0, 1, 2])),
            ('nested contexts', lang2), ('imported hypertags', callers), ('context blocks', contexts), ('indentation', indents),
            ('syntax 1', syntax(1, labels, lay, FAULTS, TFAULTS)), ('syntax 2', syntax(2, labels, lay, FAULTS, TFAULTS, 18 if q else 1)), ('syntax 3', syntax(3, few if q else labels, lay[1:2] if q else lay, FAULTS, TFAULTS, 36 if q else 18)),
            ('truncation 1-2', trunc(1, labels, lay)), ('truncation 2', trunc(2, labels, lay)), ('truncation 3', trunc(3, few if q else labels, lay[1:2] if q else lay)), ('truncation of fragments', trunc17(['top', 'p', 'tryelse', 'def'] if q else sorted(CTX)))] + (
            [] if q else [('syntax 4', syntax(4, few, lay[1:4], FAULTS, TFAULTS, 36)), ('truncation 4', trunc(4, few, lay[1:4])), ('all modes', lang(range(len(PRE)), sorted(CTX), [0, 1, 2]))])

def allowed(flags, c):
    if 't' in flags: return c in ('top', 'after')
    if 's' not in flags and c in RUNSKIP: return False
    if 'd' in flags and c in c17.NODEF: return False
    return True

def expect_syntax(script, line, text, key, cov):
    got = hy.render_ex(script)
    cov.execs += 1
    if got[0] == 'ok': bad(key, 'a script with a syntax error on line %d is accepted:\n%s', line, number(script))
    ex = got[1]
    if not isinstance(ex, SyntaxError): bad(key, 'a script with a syntax error on line %d fails with %r:\n%s', line, ex, number(script))
    if said(str(ex)) != line: bad(key, 'a syntax error on line %d is reported as "%s":\n%s', line, ex, number(script))
    if text[:15] not in str(ex): bad(key, 'a syntax error on line %d, %r, is reported as "%s":\n%s', line, text, ex, number(script))

def parses(script, key, cov, full = None):
    got = hy.render_ex(script)
    cov.execs += 1
    if got[0] == 'err' and isinstance(got[1], SyntaxError): bad(key, 'a valid script, truncated after a complete line, is rejected: "%s"\n%s\n-- full script --\n%s', got[1], number(script), full)

def run(case, cov):
    kind = case[0]
    cov.step()
    if kind == 'syn':
        _, f, l, k, fault = case
        lines = lines_of(f, l)
        if k == len(lines):
            # at the end: as a sibling of every open block
            for ind in sorted({a for a, t, kd in lines if kd == 'b'} | {''}):
                last = [a for a, t, kd in lines if kd == 'b'][-1]
                if fault in ('else', 'elif x'): continue
                if not last.startswith(ind): continue
                out = [a + t for a, t, _ in lines] + [ind + fault]
                expect_syntax('\n'.join(out), len(out), fault, 'syn %r' % (case,), cov)
        else:
            if fault in ('else', 'elif x') and any(lines[i][1].split()[:1] in (['if'], ['try'], ['elif'], ['for'], ['while'], ['else']) or True for i in range(k)) and k > 0: return
            out = [a + t for a, t, _ in lines]
            ind = lines[k][0]
            if lines[k][2] == 'b': out.insert(k, ind + fault)
            else: out[k] = ind + fault
            expect_syntax('\n'.join(out), k + 1, fault, 'syn %r' % (case,), cov)
            cov.sample('\n'.join(out))
        cov.state(case[1:4])
    elif kind == 'alone':
        _, pre, x, post = case
        script = pre + x + post
        expect_syntax(script, pre.count('\n') + 1, x.strip(), 'alone %r' % script, cov)
        cov.state(script)
    elif kind == 'long':
        _, n, k, j, kd = case
        unit = [['| line %d' % i, 'p', '  | x %d' % i][i % 3] if kd == 0 else ['p', '  | a {5}', '    tail', '', '  b', '$x = 1'][i % 6] if kd == 1 else '  ' * i + 'p' for i in range(n)]
        ind = unit[k][:len(unit[k]) - len(unit[k].lstrip())]
        if kd == 1 and k % 6 == 2: fault = 'bad {'
        else: fault = 'p | {'
        if kd == 1 and k % 6 == 3: ind = '  '
        unit[k] = ind + fault
        if j > k:                                   # a second error below, the first one counts
            unit[j] = unit[j][:len(unit[j]) - len(unit[j].lstrip())] + ')) bad'
        expect_syntax('\n'.join(unit), k + 1, fault, 'long %r' % (case,), cov)
        cov.state(case)
    elif kind == 'trunc':
        lines = case[1].split('\n')
        for k in range(len(lines) + 1):
            parses('\n'.join(lines[:k]), 'trunc %r' % case[1], cov, case[1])
            cov.step()
        parses(case[1] + '\n', 'trunc %r' % case[1], cov, case[1])
        cov.state(case[1])
    elif kind == 'trunc17':
        full = '\n'.join(c17.PRELUDE) + '\n' + case[2]
        vals = c17.values()
        got = hy.render_ex(full, **vals)
        if got[0] == 'err' and isinstance(got[1], SyntaxError):
            cov.count('fragment_not_valid_here')
            return
        lines = full.split('\n')
        for k in range(len(c17.PRELUDE), len(lines)):
            parses('\n'.join(lines[:k]), 'trunc17 %r' % case[2], cov, full)
            cov.step()
        cov.state(case[1:])
    elif kind == 'lang':
        _, fault, c, p, mode = case
        frag = fault.split('\n')
        for x in (c if isinstance(c, tuple) else (c,)): frag = CTX[x](frag)
        lines = LANG_SETUP + PRE[p] + frag
        locate(lines, mode, case, cov)
    elif kind == 'context':
        _, lead, c, mode = case
        locate((lead + c).split('\n'), mode, case, cov)
    elif kind == 'caller':
        # the fault is in a hypertag of another file, or in the caller of it
        _, fault, c = case
        imp = "from .mclib import %h1, %h0, %hv, %h"
        lib = LANG_SETUP[1:]
        body = CTX[c](fault.split('\n'))
        body = ['  ' + b if b.strip() else b for b in body]
        d, n = scratch()
        try:
            write(d + '/mclib.hy', '\n'.join(lib))
            # in the imported hypertag
            lib2 = ["from .mclib import %h1, %h0, %hv, %h", '', '%tt e nn five l d f n s dd o', ] + body
            if 'nt' in fault.replace('int', ''): return
            line = [i for i, x in enumerate(lib2) if '¶' in x][0] + 1
            write(d + '/lib2.hy', '\n'.join(lib2).replace('¶', ''))
            v = values()
            v.pop('__tags__')
            main = "context $e, $nn, $five, $l, $d, $f, $n, $s, $dd, $o\n\nfrom .lib2 import %tt\np\n\n  tt $e $nn $five $l $d $f $n $s $dd $o\n"
            check(main, d + '/main.hy', v, line, d + '/lib2.hy', case, cov, '\n'.join(lib2))
            # in the main file, hypertags imported
            main = ["context $e, $nn, $five, $l, $d, $f, $n, $s, $dd, $o", '', imp, ''] + CTX[c](fault.split('\n'))
            line = [i for i, x in enumerate(main) if '¶' in x][0] + 1
            check('\n'.join(main).replace('¶', ''), d + '/main.hy', v, line, d + '/main.hy', case, cov, '')
        finally: shutil.rmtree(d, ignore_errors = True)
    elif kind == 'indent':
        _, f, l, k = case
        lines = lines_of(f, l)
        out = [a + t for a, t, _ in lines]
        prev = [a for a, t, _ in lines[:k] if t][-1:]
        prev = prev[0] if prev else ''
        for badind in ('\t' if prev else None, prev[:-1] + '\t' if prev else None, ' \t' if prev[:1] == ' ' and len(prev) > 1 else None):
            if badind is None or prev.startswith(badind) or badind.startswith(prev): continue
            script = '\n'.join(out[:k] + [badind + 'p'] + out[k:])
            got = hy.render_ex(script)
            cov.execs += 1
            if got[0] == 'ok' or not isinstance(got[1], SyntaxError): bad('indent %r' % script, 'inconsistent indentation on line %d gives %r:\n%s', k + 1, got, number(script))
            if said(str(got[1])) != k + 1: bad('indent %r' % script, 'inconsistent indentation on line %d is reported as "%s":\n%s', k + 1, got[1], number(script))
            cov.state(script)

_n = itertools.count()
def scratch():
    n = next(_n)
    d = '%s/%d-%d' % (DIR[0], os.getpid(), n)
    os.makedirs(d)
    return d, n
def write(path, text):
    with open(path, 'w') as f: f.write(text)

CODES = '❨❩❪❫'           # marks of indentation
def check(script, file, v, line, where, case, cov, note):
    key = 'lang %r' % (case,)
    got = hy.render_ex(script, hy.runtime(True) if where and where != file else None, **(dict(v, __file__ = file) if file else v))
    cov.execs += 1
    if got[0] == 'ok': bad(key, 'no error although line %d is wrong:\n%s\n%s', line, number(script), note)
    msg = str(got[1])
    if said(msg) != line: bad(key, 'an error on line %d is reported as %s "%s":\n%s\n%s', line, type(got[1]).__name__, msg, number(script), number(note) if note else '')
    m = re.search(r"\bline (\d+), column (\S+) \((.*)\)$", msg, re.S)
    if m:                                       # the quoted fragment stands at the place that the message names
        begin = m.group(3).split('\n')[0]
        if begin == m.group(3) and begin.endswith('...'): begin = begin[:-3]
        column = int(m.group(2)) if m.group(2).isdigit() else 0
        if column < 1 or not (note or script).split('\n')[line - 1][column - 1:].startswith(begin.rstrip(CODES)): bad(key, 'an error on line %d is reported as %s "%s", but at column %s there is no %r:\n%s', line, type(got[1]).__name__, msg, m.group(2), begin, number(note or script))
    if where and where not in msg: bad(key, 'an error in %s, line %d, does not name the file: %s "%s"', os.path.basename(where), line, type(got[1]).__name__, msg)
    cov.state((script, note))

def locate(lines, mode, case, cov):
    line = [i for i, x in enumerate(lines) if '¶' in x][0] + 1
    script = '\n'.join(lines).replace('¶', '')
    cov.sample(script)
    v = values()
    if mode == 0:
        if '.circ' in script: return
        return check(script, None, v, line, None, case, cov, '')
    d, n = scratch()
    try:
        if '.circ' in script:
            write(d + '/circ.hy', 'from .circ2 import $q\n')
            write(d + '/circ2.hy', 'from .circ import $q\n')
            if mode == 2: return
            # the error is in the file that closes the circle
            got = hy.render_ex(script, hy.runtime(True), __file__ = d + '/main.hy', **v)
            cov.execs += 1
            msg = str(got[1])
            if got[0] == 'ok' or said(msg) != 1 or 'circ2.hy' not in msg: bad('circular', 'a circular import is reported as %r', got)
            return
        if mode == 1: check(script, d + '/main.hy', v, line, d + '/main.hy', case, cov, '')
        else:
            # the same script as an imported file: its context is empty, so the values are given by assignments
            own = script.split('\n')
            if not own[0].startswith('context') or 'nt' in case[1] or case[0] == 'context': return
            own[:1] = ['$e = ""', '$nn = None', '$five = 5', '$l = [3, 1, 2]', '$d = dict(k = "v")', '$dd = dict()', '$n = 3', '$s = "a"', '$f = dict', '$o = 5']
            write(d + '/lib.hy', '\n'.join(own) + '\n$last_ = 5\n')
            check('| x\n\nfrom .lib import $last_\n', d + '/main.hy', {}, line + 9, d + '/lib.hy', case, cov, '\n'.join(own))
    finally: shutil.rmtree(d, ignore_errors = True)
