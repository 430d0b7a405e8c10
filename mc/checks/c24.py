"""C24: the DOM of a translated script mirrors its execution, and changing the DOM before rendering changes exactly that."""
import itertools, sys
from mc import hy, lang, util
from mc.lang import *
from mc.core import Violation
from mc.gen import forests
from hypertag import DOM, Markup as RealMarkup, HyperHTML, Tag as RealTag

ID = 'C24'
LEVEL = 'model_checking'
TECHNIQUE = ('bounded exhaustive enumeration of scripts x manipulations of the translated DOM at every node, on the real runtime in lock-step with the output tree of the reference interpreter')
NOTE = ('all forests of up to 3 blocks (4 thorough) of 28 kinds; attributes also False, None and lists; for every tagged node of the translated DOM: removal, copying, change of attributes, of the tag and of the body, insertion before and after; '
        'selection by tag of every node; the same on copies and on the nodes handed to a hypertag')
RULE = 'forests of blocks x (structure, every manipulation at every node)'
ASSUMPTIONS = ['nodes without a tag and the division of text among text nodes are not judged, only the text between tagged nodes, blanks aside']

def tx(*p): return Text(list(p))
class Shout(ModelTag):
    name = 'shout'
    def expand(self, kids, attrs, kw): return '(%s|%s|%s)' % (','.join(map(str, attrs)), ','.join('%s=%s' % a for a in kw.items()), outs(kids).upper())
class RealShout(RealTag):
    name = 'shout'
    def expand(self, body, attrs, kwattrs): return '(%s|%s|%s)' % (','.join(map(str, attrs)), ','.join('%s=%s' % a for a in kwattrs.items()), body.render().upper())
TAGS_M, TAGS_R = {'shout': Shout()}, {'shout': RealShout()}

KINDS = {
    't': lambda k: tx('text & more'),
    'v': lambda k: tx('value ', Emb('len("abc")')),
    'm': lambda k: Text('one', tail = [('  ', 'two'), None, ('    ', 'three')]),
    'raw': lambda k: Text('<u>markup</u>', '/'),
    'br': lambda k: Struct(T('br', K('id', "'x'"), K('hid', 'False'))),
    'com': lambda k: Struct('comment', inline = Text('note', '!')),
    'pi': lambda k: Struct(T('p', At('.', 'a'), At('.', 'b')), inline = tx('inline')),
    'set': lambda k: Assign('z', '5'),
    'rem': lambda k: Comment(),
    'call': lambda k: Struct(T('h', Pos("'A'"))),
    'call2': lambda k: Struct(T('h2', Pos('0'), K('b', "''"))),
    'p': lambda k: Struct('p', k),
    'div': lambda k: Struct(T('div', K('id', "'d'"), K('n', '(1 + 1)'), K('on', 'True'), K('off', 'False'), K('none', 'None')), k),
    'pq': lambda k: Struct(['p', T('q', K('n', '0'))], k),
    'nul': lambda k: Struct('.', k),
    'sh': lambda k: Struct(T('shout', Pos('1'), K('b', "'B'"), K('c', 'False'), K('l', '[1, True]')), k),
    'up': lambda k: Struct('upper', k),
    'cu': lambda k: Struct(T('custom', Pos("'x-y'"), At('#', 'i')), k),
    'H': lambda k: Struct('hb', k),
    'HH': lambda k: Struct('twice', k),
    'if': lambda k: If([Branch('1', k)]),
    'no': lambda k: If([Branch('0', k)]),
    'for': lambda k: For('i', '[1, 2]', k),
    'try': lambda k: Try([Branch(None, [Struct('p', [tx(Emb('1 / 0'))])]), Branch(None, k)]),
    'opt': lambda k: Opt(Struct('i', k)),
    'DIV': lambda k: Struct('DIV', [tx('first')] + k),
    'app': lambda k: Struct('b', k).at(0, '...'),
    'gap': lambda k: Struct('p', k).at(1),
}
LEAVES = ['t', 'v', 'm', 'raw', 'br', 'com', 'pi', 'set', 'rem', 'call', 'call2']
CONTS = [k for k in KINDS if k not in LEAVES]

def prelude():
    return [Def('h', [('a', "'dflt'")], body = [Struct(T('em', K('id', 'a')), [tx(Emb('a'))])]),
            Def('h2', ['a', ('b', '1'), ('c', 'None')], body = [tx(Emb('a'), Emb('b'), Emb('c is None'))]),
            Def('hb', [], 'b', [Struct('section', [Embed('b')])]),
            Def('twice', [], 'b', [Struct('q', [Embed('b')]), Embed('b')])]

def build(forest):
    res = []
    for kind, kids in forest: res.append(KINDS[kind](build(kids)))
    return res
def ok(forest): return all((kids or kind in LEAVES or kind not in ('if', 'no', 'for', 'try')) and ok(kids) for kind, kids in forest)

# ---------------------------------------------------------------------------------------------------------------------------------
#  model side: tagged nodes, incl. those of hypertags, which keep the attributes given by name

def visible(n): return n.tag is not None
def deep(n):
    """copy of an output tree, so that shared nodes (bodies inserted twice) become separate"""
    return n.having(kids = [deep(k) for k in n.kids], kw = dict(n.kw), attrs = list(n.attrs))
def walk_m(ns):
    for n in ns:
        if n.text is not None: continue
        if visible(n): yield n
        for m in walk_m(n.kids): yield m
def replace_m(ns, target, f):
    res = []
    for n in ns:
        if n is target: res += f(n)
        elif n.text is not None: res.append(n)
        else: res.append(n.having(kids = replace_m(n.kids, target, f)))
    return res

def shape_m(ns):
    """nested structure, texts merged and without blanks"""
    res = []
    for n in ns:
        if n.text is not None: add_text(res, n.text)
        elif visible(n): res.append((n.tag.name, tuple(map(repr, n.attrs)), tuple((a, repr(v)) for a, v in n.kw.items()), shape_m(n.kids)))
        else:
            for x in shape_m(n.kids):
                if isinstance(x, str): add_text(res, x)
                else: res.append(x)
    return res
def shape_r(nodes):
    res = []
    for n in nodes:
        if isinstance(n, DOM.Text): add_text(res, n.text)
        elif n.tag is not None: res.append((n.tag.name, tuple(map(repr, n.attrs or ())), tuple((a, repr(v)) for a, v in (n.kwattrs or {}).items()), shape_r(n.body)))
        else:
            for x in shape_r(n.body):
                if isinstance(x, str): add_text(res, x)
                else: res.append(x)
    return res
def add_text(res, t):
    t = ''.join(t.split())
    if not t: return
    if res and isinstance(res[-1], str): res[-1] += t
    else: res.append(t)

# ---------------------------------------------------------------------------------------------------------------------------------
#  manipulations: name -> (on the model: node -> list of nodes, on the DOM: node -> list of nodes)

SEC_M, SEC_R = lang.Markup('sec'), RealMarkup('sec')
def real_kw(n, **kw):
    n.kwattrs = dict(n.kwattrs or {}, **kw)
    return [n]
def real_item(n, **kw):
    if n.kwattrs is None: n.kwattrs = {}
    n.kwattrs.update(kw)
    return [n]
def real_set(n, **kw):
    for k, v in kw.items(): setattr(n, k, v)
    return [n]
def one(n): return n
OPS = {
    'remove': (lambda n: [], lambda n: []),
    'kwattr': (lambda n: [n.having(kw = dict(n.kw, id = 'new&'))], lambda n: real_kw(n, id = 'new&')),
    'kwset': (lambda n: [n.having(kw = dict(n.kw, id = 5))], lambda n: real_item(n, id = 5)),
    'nokw': (lambda n: [n.having(kw = {})], lambda n: real_set(n, kwattrs = {})),
    'tag': (lambda n: [n.having(tag = SEC_M)], lambda n: real_set(n, tag = SEC_R)),
    'empty': (lambda n: [n.having(kids = [])], lambda n: real_set(n, body = DOM())),
    'copy': (lambda n: [n], lambda n: [n.copy()]),
    'double': (lambda n: [n, n], lambda n: [n, n.copy()]),
    'before': (lambda n: [N(text = '[new]'), n], lambda n: [DOM.Text('[new]'), n]),
    'after': (lambda n: [n, N(text = '[<b>]')], lambda n: [n, DOM.Text('[<b>]')]),
    'body': (lambda n: [n.having(kids = n.kids + [N(text = 'end')])], lambda n: real_set(n, body = DOM(n.body, DOM.Text('end')))),
    'bodytag': (lambda n: [n.having(kids = [N(SEC_M, kw = {'a': 1}), N(text = 'x')])], lambda n: real_set(n, body = DOM(DOM.Node(tag = SEC_R, kwattrs = {'a': 1}), DOM.Text('x')))),
}

def real_outcome(f):
    try: return ('ok', f())
    except Exception as ex: return ('err', hy.kind_of(ex))
def model_outcome(f):
    try: return ('ok', f())
    except ModelError as ex: return ('err', ex.kind)
    except Exception as ex: return ('err', hy.kind_of(ex))

def translate(src, cov):
    cov.execs += 1
    return hy.runtime().translate(src, __tags__ = TAGS_R).dom

def run_forest(arg, cov):
    forest, ops = arg
    prog = [Context('%shout')] + prelude() + build(forest)
    src = lang.source(prog)
    lang.steps.n = 0
    try:
        res = lang.run_model(prog, {'%shout': TAGS_M['shout']}, tree = True)
    except lang.Unspecified:
        cov.count('unspecified_skipped')
        return
    assert res[0] == 'ok', src
    kids = [deep(n) for n in res[1]]
    cov.sample(src)
    cov.step(lang.steps.n)
    def bad(what, exp, got): raise Violation('%s: expected %s, got %s for the script:\n%s' % (what, util.show(repr(exp)), util.show(repr(got)), src), key = what + src)
    dom = translate(src, cov)
    # 1. structure
    want, got = shape_m(kids), shape_r(dom.body)
    cov.state(want)
    if want != got: bad('structure of the DOM', want, got)
    nodes_m, nodes_r = list(walk_m(kids)), [n for n in dom.body.walk() if n.tag is not None]
    # 2. selection by name and by tag
    for name in set(n.tag.name for n in nodes_m):
        sel = dom.body.select(name)
        exp = [i for i, n in enumerate(nodes_m) if n.tag.name == name]
        pos = [[j for j, m in enumerate(nodes_r) if m is n] for n in sel]
        if any(e not in p for e, p in zip(exp, pos)) or len(pos) != len(exp): bad('nodes selected by the tag %s' % name, exp, pos)
    # 3. rendering does not change the DOM
    doc = model_outcome(lambda: lang.document(kids))
    for k in range(2):
        got = real_outcome(dom.render)
        if got != doc: bad('render %d of the DOM' % (k + 1), doc, got)
    if shape_r(dom.body) != want: bad('structure of the DOM after rendering', want, shape_r(dom.body))
    # 4. manipulations at every node of a fresh DOM, each on the DOM itself and on a copy
    for op in ops:
        fm, fr = OPS[op]
        for i in range(len(nodes_m)):
            for way in (0, 1):
                dom = translate(src, cov)
                got = real_outcome(dom.render)              # a render must not fix anything that is changed later
                if got != doc: bad('render of the DOM', doc, got)
                work = dom.copy() if way else dom
                target = [n for n in work.body.walk() if n.tag is not None][i]
                # a node that stands at several places (a body inserted twice) may be shared
                places = [n for n in work.body.walk() if n is target]
                if len(places) > 1: bad('node %d stands at several places' % i, 1, len(places))
                exp = model_outcome(lambda: lang.document(replace_m(kids, nodes_m[i], fm)))
                done = []
                def transform(n):
                    if n is target and not done:
                        done.append(1)
                        return fr(n)
                    return [n]
                work.body.alter(transform, order = 'postorder')
                got = real_outcome(work.render)
                cov.step()
                cov.state(exp)
                if got != exp: bad('document after the operation %s at tagged node %d%s' % (op, i, ' of a copy' if way else ''), exp, got)
                if way:
                    got = real_outcome(dom.render)
                    if got != doc: bad('document after the operation %s at tagged node %d of a copy of the DOM' % (op, i), doc, got)

# ---- the same inside a hypertag: the body handed to it is manipulated by a function and inserted
def run_inside(arg, cov):
    forest, op = arg
    prog = prelude()
    fm, fr = OPS[op]
    for i in itertools.count():
        count = []
        def model_change(ns):
            ns = [deep(n) for n in ns]
            targets = list(walk_m(ns))
            count.append(len(targets))
            return replace_m(ns, targets[i], fm) if i < len(targets) else ns
        def real_change(dom):
            dom = dom.copy()
            targets = [n for n in dom.walk() if n.tag is not None]
            if i >= len(targets): return dom
            done = []
            def transform(n):
                if n is targets[i] and not done:
                    done.append(1)
                    return fr(n)
                return [n]
            return dom.alter(transform, order = 'postorder')
        blocks = [Context('$change', '%shout')] + prog + [Def('edit', [], 'b', [Struct('main', [Embed('b', 'change(b)', model_change)]), Embed('b')]), Struct('edit', build(forest))]
        util.compare(blocks, cov, ctx = {'$change': model_change, '%shout': TAGS_M['shout']}, values = {'change': real_change}, real_tags = TAGS_R, what = 'body manipulated (%s at tagged node %d) inside a hypertag' % (op, i))
        if not count or i + 1 >= count[0]: break

def structure(n, leaves, conts, ops):
    def it():
        for f in forests(n, leaves, conts):
            if ok(f): yield ('forest', (f, ops))
    return it
def inside(n, leaves, conts):
    def it():
        for f in forests(n, leaves, conts):
            if ok(f):
                for op in OPS: yield ('inside', (f, op))
    return it

def prepare(tier): util.warm(sys.modules[__name__], tier, 10, 20)

ALL = list(OPS)
def spaces(tier):
    q = tier == 'quick'
    few_l, few_c = ['t', 'm', 'pi', 'call', 'br'], ['p', 'div', 'pq', 'nul', 'sh', 'HH', 'for', 'app', 'gap']
    return [('1 block', structure(1, LEAVES, CONTS, ALL)), ('2 blocks', structure(2, LEAVES, CONTS, ALL)), ('inside a hypertag, 1 block', inside(1, LEAVES, CONTS)), ('inside a hypertag, 2 blocks', inside(2, LEAVES, CONTS)),
            ('3 blocks, structure', structure(3, ['t', 'm', 'pi', 'br', 'set', 'call', 'call2'] if q else LEAVES, [c for c in CONTS if c not in ('no', 'DIV', 'cu', 'opt')] if q else CONTS, []))] + (
           [('3 blocks', structure(3, few_l[:3], few_c[:5], ['remove', 'double', 'kwattr']))] if q else
           [('3 blocks', structure(3, LEAVES, CONTS, ALL)), ('4 blocks, structure', structure(4, few_l, CONTS, [])), ('4 blocks', structure(4, few_l[:3], few_c[:6], ['remove', 'double', 'kwattr', 'body'])),
            ('inside a hypertag, 3 blocks', inside(3, few_l, few_c))])

def run(case, cov):
    kind, arg = case
    {'forest': run_forest, 'inside': run_inside}[kind](arg, cov)
