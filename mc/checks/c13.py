"""C13: a render depends only on its script and inputs, not on earlier renders."""
import itertools, sys, os, tempfile, shutil, pickle
from mc import hy, util
from mc.core import Violation
from hypertag import HyperHTML, Runtime, Tag, TagFunction, DOM

ID = 'C13'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive exploration of all bounded histories of renders, translations and renderings of kept documents over a pool of scripts on shared runtimes; oracle: the same step alone in a fresh process'
NOTE = ('all sequences of 2 steps over a pool of 48 renders and of 3 steps over a pool of 16 (4 steps over 8), on one and on two different runtimes; all orders of translating, rendering and re-rendering; '
        'the expected result of each step is computed in a process of its own that has rendered nothing else')
RULE = 'sequences over the pool of scripts x kind of step (render, translate now and render documents later, repeatedly)'
ASSUMPTIONS = ['scripts do not mutate objects that the caller or an imported module shares between renders']

class Rec(Tag):
    name = 'rec'
    def expand(self, body, attrs, kwattrs): return '[%s|%r|%r]' % (body.render(), tuple(attrs), sorted(kwattrs.items()))
class Other(HyperHTML):
    escape = staticmethod(lambda s: s.upper())

MODULES = {
    'a': "$x = 'mx'\n%t a=x\n  | t $a $x\n$x = x '2'\n%u @b n=1\n  $c = n\n  for i in range(n)\n    $c += i\n    @b\n  | $c\n",
    'b': "from .a import %t as at, $x as y\n%t\n  at\n  at y\n  $z = y 'b'\n  | $z\n",
    'bad': "$x = 1\n$y = 1 / 0\n",
    'syn': "p\n   | a\n  | b\n )(\n",
    'cyc': "from .cyc import $x\n",
    'd': "%v n=3 @b\n  | no\n",
    'e': "%t n l=[]\n  $ l.append(n)\n  | $l\n%w n\n  if n == 1\n    $ q = n\n  | {q}\n",
    'over': "$len = 'L'\n%p @b\n  div @b\n%q\n  p | x\n",
}
CTX1 = {'x': 'cx', 'n': 3}
CTX2 = {'x': '<other>', 'n': 0}
P = [   # (script, context): pool
    ("| plain & text\n", {}),
    ("$x = 1\n| $x\n", {}),
    ("| $x\n", {}),                                             # undefined
    ("context $x\n| $x\n", CTX1),
    ("context $x\n| $x\n", CTX2),
    ("context $x\n| $x\n", {}),                                 # missing
    ("$len = 5\n| $len\n$str = 7\n| $str\n", {}),
    ("| {len('abc')} {str(5)}\n", {}),
    ("%p @b\n  div\n    @b\np | shadowed\n", {}),
    ("p\n  | normal\n", {}),
    ("from .a import *\nt\nt 'k'\nu 2\n  p | body\n| $x\n", {}),
    ("from .a import %u, %t as p, $x as len\nu : p 1\n| $len\n", {}),
    ("from .b import %t\nt\ndiv\n  t\n", {}),
    ("from .b import %t\n$y = 'mine'\n$x = 0\nt\n| $y\n", {}),
    ("from .bad import $x\n| $x\n", {}),
    ("from .syn import $x\n| $x\n", {}),
    ("from .cyc import $x\n| $x\n", {}),
    ("from .nope import $x\n", {}),
    ("p\n    | a\n  b\n      | c\n )( \n", {}),                  # syntax error
    ("| {\n", {}),
    ("p\n  | { 1 / 0 }\n", {}),                                 # fails during translation
    ("br | text\n", {}),                                        # fails during rendering
    ("rec 1 k=2 | b\n", {'__tags__': {'rec': Rec()}}),
    ("context %rec\nrec 1 k=2 | b\ndiv : rec k=1\n  p | q\n", {'__tags__': {'rec': Rec()}}),
    ("$l = [1]\n$ l.append(2)\n| $l\n", {}),
    ("%h n l=[]\n  $ l.append(n)\n  | $l\nh 1\nh 2\nh 3\n", {}),
    ("from .e import %t, %w\nt 1\nt 2\nw 1\n", {}),
    ("from .e import %w\nw 2\n", {}),
    ("merge\n  | a\n  | b  c\nupper / x\nunique\n  | a\n  | a\n", {}),
    ("for c, n in cycle(['a','b'], [1,2,3], stop = 'longest')\n  | {c} {n}\n", {}),
    ("if 1\n  $v = 1\nif 0\n  $w = 1\n| $v\ntry | $w\nelse | unbound\n", {}),
    ("if 0\n  $v = 1\ntry | $v\nelse | no\n", {}),
    ("try\n  div\n    | { 1/0 }\nelse\n  p\n    | ok\n", {}),
    ("div\n    p\n        | deep\n        i\n          | er\n", {}),
    ("\tp\n\t\t| tab\n", {}),
    ("", {}),
    ("\n\n| margins\n\n", {}),
    ("doctype\nhtml\n  body.a #b c=$d\n", {}),
    ("doctype\nhtml\n  body .a #b c={1}\n", {}),
    ("| $__package__ x\n", {}),
    ("/ {__file__.rsplit('/')[-1]}\n", {}),
    ("from .over import *\np | a\nq\n| $len\n", {}),
    ("! {raw} $x\n/ <b>\n", {}),
    ("$a, b = 1, 2\n$a += b\n| {a:str} {b?} {0?}x\n", {}),
    ("| {'%s' : dict}\n", {}),
    ("%h @b\n  @b\n  p @b\nh\n  i | x\n  for k in [1,2]\n    b | $k\n", {}),
    ("| {%h(1)}\n", {}),
    ("%h a\n  | $a $b\nh 1\n", {}),
    # special characters, that require other parsers
    ("p\n  | a \u2768\n", {}),
    ("div\n\tp\n\t\t| b \u2769\u276C\u276D\n\ti | \u276E\u276F\n", {}),
    ("p\n  | c \u2768\u276D\n   |\u2770 syntax error )(\n\u276C\n", {}),
    ("%h @b\n  div\n    @b\nh\n  | \u276A \u276B \u276C $nothing\n", {}),
    # the same scripts as above in another folder, package
    ("from .a import *\nt\nt 'k'\nu 2\n  p | body\n| $x\n", {'__file__': 'sub/main.hy'}),
    ("from .b import %t\nt\ndiv\n  t\n", {'__file__': 'sub/main.hy'}),
    ("from .b import %t\nt\ndiv\n  t\n", {'__file__': None}),
    ("| $__package__ x\n", {'__package__': 'pk.g'}),
    ("/ {__file__.rsplit('/')[-1]}\n", {'__file__': 'other.hy'}),
]
SPECIALS = list(range(len(P) - 9, len(P) - 5))
FOLDERS = list(range(len(P) - 5, len(P)))
MODULES['sub/a'] = "%t a='sub'\n  | sub $a\n$x = 'sx'\n%u n @b\n  | none\n".replace(' n @b', ' @b n=0')
FEW = [0, 3, 4, 6, 7, 8, 9, 10, 12, 18, 20, 21, 25, 26, 31, 32]
TINY = [4, 6, 7, 10, 12, 20, 26, 32]

DIR, EXP = [None], {}
def kwargs(i):
    d = dict(P[i][1])
    f = d.get('__file__', 'main.hy')
    return dict(d, __file__ = f and os.path.join(DIR[0], f))
def step(rt, i):
    try: return ('ok', rt.render(P[i][0], **kwargs(i)))
    except Exception as ex: return ('err', hy.kind_of(ex), str(ex))
def runtime(k): return HyperHTML() if k == 0 else Other()

def alone(i, k):
    """Result of one step in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            data = pickle.dumps(step(runtime(k), i))
            os.write(w, data)
        finally: os._exit(0)
    os.close(w)
    data = b''
    while True:
        part = os.read(r, 65536)
        if not part: break
        data += part
    os.close(r)
    os.waitpid(pid, 0)
    return pickle.loads(data)

def prepare(tier):
    DIR[0] = tempfile.mkdtemp(prefix = 'mc-c13-')
    os.mkdir(os.path.join(DIR[0], 'sub'))
    for n, text in MODULES.items():
        with open(os.path.join(DIR[0], n + '.hy'), 'w') as f: f.write(text)
    for i in range(len(P)):
        for k in (0, 1): EXP[i, k] = alone(i, k)
    util.warm(sys.modules[__name__], tier, 10, 40)
def finish():
    if DIR[0]: shutil.rmtree(DIR[0], ignore_errors = True)

def seqs(pool, n, rts = ((0,),)):
    def it():
        for s in itertools.product(pool, repeat = n):
            for r in rts: yield ('seq', (s, r))
    return it
def docs(pool, n):
    """translate n scripts, then render the documents in every order, twice, with other renders in between"""
    def it():
        for s in itertools.product(pool, repeat = n):
            for mode in range(3): yield ('docs', (s, mode))
    return it

def spaces(tier):
    q = tier == 'quick'
    every = range(len(P))
    return [('repeated', seqs(every, 1, (('rep', 0), ('rep', 1)))), ('sequences of 2', seqs(every, 2)), ('sequences of 2, two runtimes', seqs(every if not q else FEW, 2, ((0, 1), (1, 0)))),
            ('sequences of 3', seqs(FEW[::2] + [25, 26] if q else every, 3)), ('sequences of 3, special characters', seqs(SPECIALS + [0, 9, 10], 3)), ('sequences of 3, folders', seqs(FOLDERS + [10, 12, 39, 40], 3)), ('documents of 1', docs(every, 1)), ('documents of 2', docs(FEW if q else every, 2))] + (
            [] if q else [('sequences of 4', seqs(FEW, 4)), ('sequences of 3, two runtimes', seqs(FEW, 3, ((0, 1, 0), (1, 0, 1)))), ('documents of 3', docs(FEW, 3))])

def same(got, want, what, i, cov):
    cov.execs += 1
    cov.step()
    if got != want: raise Violation('%s: expected %r (alone), got %r for\n%s\nwith %s' % (what, want, got, P[i][0], P[i][1]), key = what + repr(i))

def snap(nodes): return tuple((type(n).__name__, n.tag and n.tag.name, tuple(map(repr, n.attrs or ())), tuple(map(repr, (n.kwattrs or {}).items())), getattr(n, 'text', None), n.indent, n.outline, snap(n.body or [])) for n in nodes)

def run(case, cov):
    kind, (s, r) = case
    if kind == 'seq':
        if r[0] == 'rep':
            rts = [runtime(r[1])]
            s, order = s * 4, [0] * 4
        else:
            rts = {}
            for k in set(r): rts[k] = runtime(k)
            order = [r[j % len(r)] for j in range(len(s))]
            if len(r) == 1: rts = [rts[0]]
        for j, i in enumerate(s):
            k = order[j]
            kind_rt = r[1] if r[0] == 'rep' else k
            same(step(rts[k] if r[0] != 'rep' else rts[0], i), EXP[i, kind_rt], 'step %d of the history %r on runtimes %r' % (j + 1, s, r), i, cov)
        cov.state(tuple(EXP[i, 0] for i in s))
    else:
        rt = hy.runtime() if sum(s) % 7 else HyperHTML()
        kept = []
        for i in s:
            try: kept.append((i, rt.translate(P[i][0], **kwargs(i)).dom))
            except Exception as ex:
                res = ('err', hy.kind_of(ex), str(ex))
                same(res, EXP[i, 0], 'translation in the history %r' % (s,), i, cov)
        snaps = [snap([d]) for _, d in kept]
        order = [list(range(len(kept))), list(range(len(kept)))[::-1], list(range(len(kept))) * 2][r]
        for _ in range(2):
            for x in order:
                i, d = kept[x]
                try: res = ('ok', d.render())
                except Exception as ex: res = ('err', hy.kind_of(ex), str(ex))
                same(res, EXP[i, 0], 'rendering of a kept document, history %r mode %d' % (s, r), i, cov)
                if snap([d]) != snaps[x]: raise Violation('rendering changed the document of\n' + P[i][0], key = 'doc %d' % i)
            if r: same(step(rt, s[0]), EXP[s[0], 0], 'render between documents, history %r mode %d' % (s, r), s[0], cov)
        for (i, d), sn in zip(kept, snaps):
            if snap([d]) != sn: raise Violation('a document was changed by later renders: %r\n%s' % (s, P[i][0]), key = 'doc %r %d' % (s, i))
            c = d.copy()
            try: res = ('ok', c.render())
            except Exception as ex: res = ('err', hy.kind_of(ex), str(ex))
            same(res, EXP[i, 0], 'rendering of a copy of the document, history %r' % (s,), i, cov)
        cov.state((s, r))
