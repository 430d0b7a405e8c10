"""C09: a body passed to a hypertag is inserted faithfully at every place."""
import itertools, sys, copy
from mc import hy, lang, util
from mc.lang import *
from mc.util import compare

ID = 'C09'
LEVEL = 'model_checking'
TECHNIQUE = 'bounded exhaustive enumeration of hypertag definitions x bodies x call places on the real runtime in lock-step with an immutable-tree reference model'
NOTE = ('every sequence of up to 3 insertions (direct, nested at two depths and widths, inline, modified, in control blocks, through further hypertags, by part), every body of a family of 24, '
        'every call place of a family; chains of up to 3 hypertags; nested calls; hypertags of an imported module')
RULE = 'sequences of insertion forms x bodies x call places; chains of wrappers x insertions x bodies; forests of calls; parts x bodies'
ASSUMPTIONS = ['bodies that start with a blank line are left out: where the blank line goes is not documented']

# ---- bodies of the call: (list of blocks, inline block)
def tx(*p): return Text(list(p))
BODIES = {
    'none': lambda: ([], None),
    'inl': lambda: ([], tx('one')),
    'inl2': lambda: ([], Text('one', tail = [('      ', 'two'), ('        ', 'three')])),
    'inlm': lambda: ([], Text('<i>a</i>', '/')),
    'txt': lambda: ([tx('one')], None),
    'txt2': lambda: ([tx('one'), tx('two')], None),
    'multi': lambda: ([Text('one', tail = [('  ', 'two'), ('    ', 'three')])], None),
    'hmulti': lambda: ([Text(None, tail = [('  ', 'two'), None, ('    ', 'three')]), tx('x')], None),
    'p': lambda: ([Struct('p', inline = tx('one'))], None),
    'pp': lambda: ([Struct('p', inline = tx('one')), Struct('p', [tx('two')])], None),
    'po': lambda: ([Struct('p', [tx('one'), Struct('i', [tx('two')])])], None),
    'deep': lambda: ([Struct('ul', [Struct('li', [Struct('p', [tx('deep'), tx('down')])], ind = '   '), Struct('li', inline = tx('b'))])], None),
    'gap': lambda: ([tx('one'), Struct('p', [tx('two')]).at(1), tx('three').at(2)], None),
    'gapin': lambda: ([Struct('p', [tx('one'), tx('two').at(1)]), tx('z')], None),
    'for': lambda: ([For('i', '[1, 2]', [Struct('p', [tx(Emb('i'))])])], None),
    'forin': lambda: ([Struct('ul', [For('i', '[1, 2]', [Struct('li', [tx(Emb('i'))])])])], None),
    'if': lambda: ([If([Branch('1', [tx('yes'), Struct('p', [tx('q')])])]), tx('z')], None),
    'app': lambda: ([tx('one'), tx('two').at(0, '...'), Struct('p', [tx('three')]).at(0, '...')], None),
    'ded': lambda: ([tx('one'), Struct('p', [tx('two')]).at(0, '<'), tx('z')], None),
    'dedin': lambda: ([Struct('p', [tx('two').at(0, '<'), tx('q')])], None),
    'mix': lambda: ([Struct('p', [tx('b'), Struct('i', inline = tx('c'))], head = tx('a'))], None),
    'null': lambda: ([Struct('.', [tx('a'), Struct('p', [tx('b')])]), tx('z')], None),
    'call': lambda: ([Struct('K', [tx('k'), Struct('p', [tx('l')])]), tx('z')], None),
    'calli': lambda: ([Struct('K', inline = tx('k'))], None),
    'upper': lambda: ([Struct('upper', [tx('a'), Struct('p', [tx('b')])])], None),
    'silent': lambda: ([Assign('v', '1')], None),
    'void': lambda: ([Struct('br'), Struct('hr')], None),
    'comm': lambda: ([tx('a'), Comment(), tx('b')], None),
}
B_ALL = list(BODIES)
B_FEW = ['inl2', 'pp', 'deep', 'gap', 'ded', 'call', 'mix']
B_MID = B_FEW + ['txt2', 'none', 'hmulti', 'forin', 'app', 'null', 'gapin']

def E(sel = None, mod = ''):
    if sel is None: return Embed('body').at(0, mod)
    src, fun = SEL[sel]
    return Embed('body', src, fun).at(0, mod)

def nested(ns):
    for n in ns:
        if n.margin: continue
        yield n
        if n.tag is not None:
            for m in nested(n.kids): yield m
def by_tag(name): return lambda ns: [n for n in nested(ns) if n.tag is not None and n.tag.name == name]
def without(ns): return [n.having(kids = without(n.kids)) for n in ns if not (n.tag is not None and n.tag.name == 'p')]
def bodies(dom): return [n.body for n in dom['p']]
SEL = {'0': ('body[0]', lambda ns: [ns[0]]), '-1': ('body[-1]', lambda ns: [ns[-1]]), '1:': ('body[1:]', lambda ns: ns[1:]), ':1': ('body[:1]', lambda ns: ns[:1]), ':': ('body[:]', lambda ns: ns),
       '::2': ('body[::2]', lambda ns: ns[::2]), 'rev': ('body[::-1]', lambda ns: ns[::-1]), 'p': ("body['p']", by_tag('p')), 'i': ("body['i']", by_tag('i')), 'sel': ("body.select('li')", by_tag('li')),
       'list': ('[n for n in body]', None), 'copy': ('body.copy()', lambda ns: ns), 'twice': ('[body, body]', lambda ns: ns + ns), 'tree': ('list(body)', lambda ns: ns), 'opt': ('body?', lambda ns: ns),
       'nul': ('[]', lambda ns: []), 'bod': ('bodies(body)', lambda ns: list(itertools.chain(*[n.kids for n in by_tag('p')(ns)]))), 'skip': ("body.skip('p')", lambda ns: without(ns)),
       'same': ('[body[0], body[0]]', lambda ns: [ns[0]] * 2), 'x3': ('[body[0]] * 3 + [body[-1]]', lambda ns: [ns[0]] * 3 + [ns[-1]]), 'aba': ('[body[0], body[-1], [body[0], body[0]]]', lambda ns: [ns[0], ns[-1], ns[0], ns[0]]),
       'psame': ("[body['p'][0], body['p'][0]]", lambda ns: [by_tag('p')(ns)[0]] * 2), 'sl2': ('[body[:1], body[:1], body]', lambda ns: ns[:1] * 2 + ns),
       'nest': ('[body[0], [body[1:]]]', lambda ns: [ns[0]] + ns[1:])}

INS = {
    'e': lambda: [E()],
    'pe': lambda: [Struct('p', [E()])],
    'pE': lambda: [Struct('p', [E()], ind = '     ')],
    'dpe': lambda: [Struct('div', [Struct('p', [E()], ind = ' ')])],
    'pi': lambda: [Struct('p', inline = E())],
    'dpi': lambda: [Struct('div', [Struct('p', inline = E())])],
    'che': lambda: [Struct(['div', 'p'], [E()])],
    'chi': lambda: [Struct(['div', 'p'], inline = E())],
    'hd': lambda: [Struct('p', [E()], head = tx('head'))],
    'tet': lambda: [tx('<'), E(), tx('>')],
    'pte': lambda: [Struct('p', [tx('t'), E(), tx('u')])],
    'ae': lambda: [tx('t'), E(mod = '...')],
    'de': lambda: [Struct('p', [E(mod = '<')])],
    'ge': lambda: [Struct('p', [tx('t'), E().at(1)])],
    'if': lambda: [If([Branch('1', [E()])], els = Branch(None, [tx('no')]))],
    'for': lambda: [For('i', '[1, 2]', [E()])],
    'pfor': lambda: [Struct('ul', [For('i', '[1, 2]', [Struct('li', [E()])])])],
    'try': lambda: [Try([Branch(None, [Struct('p', [E(), tx(Emb('1/0'))])]), Branch(None, [Struct('q', [E()])])])],
    'qe': lambda: [Opt(Struct('p', [E()]))],
    'null': lambda: [Struct('.', [E()])],
    'G': lambda: [Struct('G', [E()])],
    'Gi': lambda: [Struct('G', inline = E())],
    'pG': lambda: [Struct('p', [Struct('G', [tx('g'), E()])])],
    'GG': lambda: [Struct(['G', 'G'], [E()])],
    'Gp': lambda: [Struct('G', [Struct('p', [E()])])],
    'T': lambda: [Struct('T', [E()])],
    'up': lambda: [Struct('upper', [E()])],
    'no': lambda: [tx('none')],
}
I_ALL = list(INS)
I_FEW = ['e', 'pe', 'pi', 'dpe', 'G', 'de', 'ae', 'pfor']
I_MID = I_FEW + ['T', 'try', 'che', 'hd', 'null', 'GG', 'up']

PLACES = {
    'top': lambda c: [c],
    'div': lambda c: [Struct('div', [c])],
    'divt': lambda c: [Struct('div', [tx('before'), c, tx('after')])],
    'deep': lambda c: [Struct('div', [Struct('ul', [c], ind = '    ')])],
    'for': lambda c: [Struct('ul', [For('j', '[1, 2]', [c])])],
    'app': lambda c: [tx('before'), c.at(0, '...')],
    'ded': lambda c: [Struct('div', [c.at(0, '<'), tx('z')])],
    'K': lambda c: [Struct('K', [c, tx('z')])],
    'KK': lambda c: [Struct(['K', 'T'], [c])],
    'if': lambda c: [If([Branch('1', [c])])],
    'gap': lambda c: [tx('before'), c.at(1), tx('after').at(1)],
}
P_ALL = list(PLACES)

def prelude():
    return [Def('K', [], 'b', [Struct('section', [Embed('b')])]),
            Def('G', [('n', "''")], 'b', [Struct('div', [tx('G'), Embed('b')])]),
            Def('T', [('n', "''")], 'c', [Struct('a', [Embed('c')]), Struct('b', inline = Embed('c')), Embed('c')])]

def call(body, tags = 'H'):
    blocks, inline = BODIES[body]()
    return Struct(tags, blocks) if inline is None else Struct(tags, inline = inline)

def singles(ins, bodies, places):
    def it():
        for i in ins:
            for b in bodies:
                for p in places: yield ('ins', ((i,), b, p))
    return it
def multi(n, ins, bodies, places):
    def it():
        for i in itertools.product(ins, repeat = n):
            for b in bodies:
                for p in places: yield ('ins', (i, b, p))
    return it

# ---- parts
def parts(sels, bodies):
    def it():
        for s in sels:
            for form in range(7):
                for b in bodies: yield ('part', (s, form, b))
    return it
def parts2():
    for s in SEL:
        for t in ('0', '1:', 'p', ':'):
            for b in ('pp', 'deep', 'mix', 'call'):
                for form in (0, 1, 2): yield ('part2', (s, t, form, b))

# ---- chains: H = D0 around ... ; every level passes its body through a form
def chains(n, ins, bodies, places):
    def it():
        for f in itertools.product(ins, repeat = n):
            for b in bodies:
                for p in places: yield ('chain', (f, b, p))
    return it

# ---- forests of calls of three fixed hypertags
def forests(n, leaf, cont):
    from mc.gen import forests
    def it():
        for f in forests(n, leaf, cont, 9): yield ('forest', f)
    return it

def spaces(tier):
    q = tier == 'quick'
    return [('single insertions', singles(I_ALL, B_ALL, P_ALL)),
            ('two insertions', multi(2, I_MID if q else I_ALL, B_MID if q else B_ALL, ['div'] if q else ['div', 'K', 'app'])),
            ('three insertions', multi(3, I_FEW if q else I_MID, B_FEW[:4] if q else B_MID, ['top'])),
            ('parts', parts(SEL, B_ALL)), ('two parts', parts2),
            ('chains of 2', chains(2, I_ALL, B_FEW if q else B_ALL, ['div'] if q else P_ALL)),
            ('chains of 3', chains(3, I_FEW if q else I_MID, B_FEW[:3] if q else B_MID, ['top'])),
            ('forests of calls, 3', forests(3, ['t', 'T0', 'm'], ['G', 'T', 'W', 'p', 'GT', 'f'])),
            ('forests of calls, 4', forests(4, ['t', 'm'], ['G', 'T', 'p', 'W'] if q else ['G', 'T', 'W', 'p', 'GT', 'f'])),
            ('forests of calls, 5', forests(5, ['t'], ['T', 'W'] if q else ['G', 'T', 'p', 'W', 'f']))]

def prepare(tier): util.warm(sys.modules[__name__], tier, 20, 60)

def fblock(node):
    k, kids = node
    if k == 't': return tx('t')
    if k == 'm': return Text('m', tail = [('  ', 'n')])
    if k == 'T0': return Struct('T', inline = tx('i'))
    body = [fblock(b) for b in kids]
    if k == 'f': return For('i', '[1, 2]', body) if body else tx('f')
    return Struct({'GT': ['G', 'T']}.get(k, k), body)

def part_places(s, form, mk = None):
    e = lambda: E(s)
    return [lambda: [e()], lambda: [Struct('p', [e()])], lambda: [Struct('p', inline = e())], lambda: [Struct('div', [Struct('q', [e()], ind = '    '), e()])], lambda: [Struct('p', [tx('x'), e().at(0, '<')])],
            lambda: [Struct('G', [e()]), E()], lambda: [E(), Struct('p', [e()]), E()]][form]()

def has_margin(body): return body in ('gap',)

def run(case, cov):
    kind, arg = case
    if kind == 'ins':
        ins, b, p = arg
        d = Def('H', [], 'body', list(itertools.chain(*[INS[i]() for i in ins])))
        compare(prelude() + [d] + PLACES[p](call(b)) + [tx('end')], cov, what = 'insertion')
    elif kind == 'part':
        s, form, b = arg
        if has_margin(b) or SEL[s][1] is None: return
        d = Def('H', [], 'body', part_places(s, form))
        compare([Context('$bodies')] + prelude() + [d, Struct('div', [call(b)]), tx('end')], cov, what = 'part', ctx = {'$bodies': bodies})
    elif kind == 'part2':
        s, t, form, b = arg
        if SEL[s][1] is None: return
        d = Def('H', [], 'body', part_places(s, form) + [Struct('h1', [E(t)]), E()])
        compare([Context('$bodies')] + prelude() + [d, Struct('div', [call(b)]), tx('end')], cov, what = 'parts', ctx = {'$bodies': bodies})
    elif kind == 'chain':
        forms, b, p = arg
        ds = []
        for k, f in enumerate(forms):
            blocks = INS[f]()
            ds.append(Def('D%d' % k, [], 'body', blocks if k == 0 else [Struct('D%d' % (k - 1), blocks), tx('l%d' % k)]))
        compare(prelude() + ds + PLACES[p](call(b, 'D%d' % (len(forms) - 1))) + [tx('end')], cov, what = 'chain')
    else:
        w = Def('W', [], 'body', [Struct('G', [Embed('body'), Struct('T', [tx('w'), Embed('body')])]), Struct('i', inline = Embed('body'))])
        compare(prelude() + [w] + [fblock(b) for b in arg] + [tx('end')], cov, what = 'forest')
