"""C10: DOM traversal, selection, copying and alteration agree with the tree."""
import itertools, sys
from mc import hy, lang, util
from mc.core import Violation
from mc.gen import forests
from hypertag import DOM, Markup, HyperHTML

ID = 'C10'
LEVEL = 'model_checking'
TECHNIQUE = ('bounded exhaustive enumeration of document trees x operation sequences on the real DOM in lock-step with a mirror model of mutable nodes; '
             'after every operation all documents produced so far are compared, including the identity of shared nodes')
NOTE = ('all forests of up to 4 nodes (5 thorough) over tagged, attributed, null, untagged, hypertag and text nodes, built through the API and by translation of a script; every walk (order x skip), '
        'every selection of a family of criteria, every transform; all sequences of 2 (3) operations')
RULE = 'forests x single operations; forests x sequences of operations from a family of 30'
ASSUMPTIONS = ['transforms that return the same node twice, or that wrap a node at every level in preorder, are left out (no finite or tree-shaped result is promised)']

class Lenient(Markup):
    def expand(self, body, attrs, kwattrs): return Markup.expand(self, body, (), kwattrs)
P, P2, Q, NUL, SEC = Markup('p'), Lenient('p'), Markup('q'), None, Markup('section')
class Ident(Markup):
    """Tag that compares equal to everything: selection by tag is by identity."""
    def __eq__(self, other): return True
    def __hash__(self): return 1
EQ = Ident('e')
A0 = []                         # a value compared by equality, not identity

# label -> (tag, positional, keywords)
LABELS = {
    'p': (P, [], {}),
    'pa': (P, [], {'a': 1}),
    'pb': (P, [], {'a': 2, 'b': 'x'}),
    'p2': (P2, [7], {'a': 1, 'data-x': None}),
    'q': (Q, [], {'b': 'x'}),
    'e': (EQ, [], {'a': 0}),
    'u': (None, [], {}),
    's': (SEC, [], {'c': True, 'a': [1]}),
}
CONTS, LEAVES = ['p', 'pa', 'p2', 'q', 'u'], ['t']
C_FULL = ['p', 'pa', 'pb', 'p2', 'q', 'e', 'u', 's']

# ---------------------------------------------------------------------------------------------------------------------------------
#  model

class M:
    """mirror of a node"""
    def __init__(self, tag, attrs, kw, kids, text = None): self.tag, self.attrs, self.kw, self.kids, self.text = tag, attrs, kw, kids, text
    def copy(self): return M(self.tag, list(self.attrs), dict(self.kw), [k.copy() for k in self.kids], self.text)

def m_walk(ms, skip, order):
    for m in ms:
        if skip and skip(m): continue
        if order == 'preorder': yield m
        for x in m_walk(m.kids, skip, order): yield x
        if order == 'postorder': yield m

def m_alter(ms, f, skip, order):
    """-> new list of nodes; children are changed in place"""
    def below(m):
        if skip and skip(m): return
        m.kids = m_alter(m.kids, f, skip, order)
    if order == 'postorder':
        for m in ms: below(m)
    new = []
    for m in ms: new += f(m)
    if order == 'preorder':
        for m in new: below(m)
    return new

def m_match(m, tag, attrs):
    if tag is not None:
        if isinstance(tag, str):
            if m.tag is None or m.tag.name != tag: return False
        elif m.tag is not tag: return False
    for a, v in attrs:
        if a not in m.kw: return False
        if v is not ANY and m.kw[a] != v: return False
    return True

def m_skip(ms, tag, attrs):
    return [M(m.tag, list(m.attrs), dict(m.kw), m_skip(m.kids, tag, attrs), m.text) for m in ms if not m_match(m, tag, attrs)]

class Any: pass
ANY = Any()

# ---------------------------------------------------------------------------------------------------------------------------------
#  construction

def build(forest):
    """-> (DOM, list of M)"""
    counter = [0]
    def one(t):
        label, kids = t
        counter[0] += 1
        if label == 't':
            text = 't%d' % counter[0]
            return DOM.Text(text), M(None, [], {}, [], text)
        tag, attrs, kw = LABELS[label]
        both = [one(k) for k in kids]
        params = {}
        if tag is not None: params['tag'] = tag
        if attrs: params['attrs'] = list(attrs)
        if kw: params['kwattrs'] = dict(kw)
        return DOM.Node(DOM(*[b[0] for b in both]), **params), M(tag, list(attrs), dict(kw), [b[1] for b in both])
    both = [one(t) for t in forest]
    return DOM(*[b[0] for b in both]), [b[1] for b in both]

# ---------------------------------------------------------------------------------------------------------------------------------
#  comparison: the real document and the model must be isomorphic, nodes being shared exactly as in the model

class Iso:
    def __init__(self): self.r2m, self.m2r = {}, {}
    def same(self, r, m, path = ''):
        k = id(r)
        if k in self.r2m:
            if self.r2m[k][1] is not m: return '%s: another node than expected (shared or not copied)' % path
        elif id(m) in self.m2r: return '%s: expected the same node as elsewhere, got a copy' % path
        else: self.r2m[k], self.m2r[id(m)] = (r, m), (r, m)
        if r.tag is not m.tag: return '%s: tag %s instead of %s' % (path, r.tag and r.tag.name, m.tag and m.tag.name)
        if list(r.attrs or []) != m.attrs: return '%s: attrs %r instead of %r' % (path, r.attrs, m.attrs)
        if list((r.kwattrs or {}).items()) != list(m.kw.items()): return '%s: kwattrs %r instead of %r' % (path, r.kwattrs, m.kw)
        if m.text is not None and r.text != m.text: return '%s: text %r instead of %r' % (path, r.text, m.text)
        if isinstance(r, DOM.Text) != (m.text is not None): return '%s: type of node' % path
        return self.sames(list(r.body or []), m.kids, path)
    def sames(self, rs, ms, path = ''):
        if len(rs) != len(ms): return '%s: %d nodes instead of %d' % (path, len(rs), len(ms))
        for i, (r, m) in enumerate(zip(rs, ms)):
            e = self.same(r, m, '%s/%d' % (path, i))
            if e: return e
    def known(self, rs, ms, what):
        """Same sequence of already known nodes."""
        rs = list(rs)
        if len(rs) != len(ms): return '%s: %d nodes instead of %d' % (what, len(rs), len(ms))
        for i, (r, m) in enumerate(zip(rs, ms)):
            if id(r) not in self.r2m: return '%s: node %d is not a node of the document' % (what, i)
            if self.r2m[id(r)][1] is not m: return '%s: node %d is another one than expected' % (what, i)

def shape(ms): return tuple((m.tag.name if m.tag else None, tuple(map(repr, m.attrs)), repr(m.kw), m.text, shape(m.kids)) for m in ms)

# ---------------------------------------------------------------------------------------------------------------------------------
#  predicates and transforms: one definition for both sides (r is true for real nodes)

def kids_of(n): return list(n.body or []) if isinstance(n, DOM.Node) else n.kids
def kw_of(n): return (n.kwattrs or {}) if isinstance(n, DOM.Node) else n.kw
def text_of(n): return n.text if isinstance(n, DOM.Text) or isinstance(n, M) else None
def name_of(n): return n.tag.name if n.tag is not None else None

SKIPS = {
    'no': None,
    'p': lambda n: name_of(n) == 'p',
    'a': lambda n: 'a' in kw_of(n),
    'text': lambda n: text_of(n) is not None,
    'all': lambda n: True,
    'leaf': lambda n: not kids_of(n),
    'truthy': lambda n: 'yes' if name_of(n) == 'q' else 0,
}
CRIT = [(None, []), ('p', []), ('q', []), ('zz', []), ('', []), (P, []), (P2, []), (EQ, []), (None, [('a', ANY)]), (None, [('a', 1)]), (None, [('a', 2)]), (None, [('a', 0)]), (None, [('a', None)]),
        (None, [('data-x', ANY)]), (None, [('data-x', None)]), ('p', [('a', 1)]), (P2, [('a', 1)]), ('p', [('b', 'x')]), (None, [('a', [1])]), (None, [('c', True)]), (None, [('c', 1)]), ('q', [('a', ANY)]),
        (None, [('a', 2), ('b', 'x')]), ('p', [('a', ANY), ('b', 'x')]), ('p', [('a', 1), ('b', 'x')]), ('e', [('a', 0)]), ('section', []), ('null', []), (None, [('zz', ANY)]), ('p', [('zz', None)])]

def crit_args(c, form):
    """forms of the call: attr= (with or without value), keyword arguments, or both"""
    tag, attrs = c
    args, kw = [], {}
    if tag is not None:
        if form % 2: kw['tag'] = tag
        else: args.append(tag)
    attrs = list(attrs)
    if attrs and (form < 2 or attrs[0][1] is ANY):
        (a, v) = attrs.pop(0)
        if form % 2 or not args:
            kw['attr'] = a
            if v is not ANY: kw['value'] = v
        else:
            args.append(a)
            if v is not ANY: args.append(v)
    for a, v in attrs: kw[a] = v
    return args, kw

def fresh(side, text): return DOM.Text(text) if side else M(None, [], {}, [], text)
def wrap(side, n):
    if side: return DOM.Node(n, tag = SEC)
    return M(SEC, [], {}, [n])
def cp(side, n): return n.copy()

def t_keep(side): return lambda n: [n]
def t_drop(pred): return lambda side: lambda n: [] if pred(n) else [n]
def t_unwrap(pred): return lambda side: lambda n: (n.body if side else list(n.kids)) if pred(n) else [n]
def t_dup(side): return lambda n: [n, cp(side, n)] if text_of(n) is None else [n]
def t_text(side): return lambda n: [fresh(side, 'T')] if text_of(n) is not None else [n]
def t_repl(side): return lambda n: [fresh(side, 'R'), n] if name_of(n) == 'p' else [n]
def t_wrap(side): return lambda n: [wrap(side, n)] if text_of(n) is not None else [n]
def t_gen(side):
    def f(n):
        if name_of(n) != 'q': yield n
        if text_of(n) is not None: yield fresh(side, 'g')
    if side: return f
    return lambda n: list(f(n))
def t_nest(side):
    if side: return lambda n: [[n], None, (x for x in [fresh(1, 'n')])] if name_of(n) == 'p' else (n,)
    return lambda n: [n, fresh(0, 'n')] if name_of(n) == 'p' else [n]
def t_dom(side): return lambda n: (DOM(n) if side else [n]) if name_of(n) == 'p' else (DOM() if side else [])
def t_edit(side):
    def f(n):
        if text_of(n) is not None: n.text = n.text + '!'
        return [n]
    return f
TRANS = {'keep': t_keep, 'drop p': t_drop(SKIPS['p']), 'drop text': t_drop(SKIPS['text']), 'drop a': t_drop(SKIPS['a']), 'drop all': t_drop(lambda n: 1), 'unwrap p': t_unwrap(SKIPS['p']),
         'unwrap q': t_unwrap(lambda n: name_of(n) == 'q'), 'unwrap leafless': t_unwrap(lambda n: bool(kids_of(n))), 'dup': t_dup, 'text': t_text, 'replace': t_repl, 'gen': t_gen, 'nest': t_nest, 'dom': t_dom, 'edit': t_edit}
POST_ONLY = {'wrap': t_wrap}

# ---- sequences of operations
OPS = ['copy', 'sel p', 'sel a', 'sel P2', 'sel all', 'sel post', 'skip p', 'skip a1', 'skip all', 'drop text', 'drop p post', 'unwrap p', 'unwrap q post', 'dup', 'replace', 'wrap post', 'edit', 'gen skip p', 'slice1', 'slice0',
       'rev', 'node copy', 'node alter', 'set kw', 'set text', 'append', 'flatten', 'new node', 'body', 'idx p']
OPS_FEW = ['copy', 'sel a', 'sel all', 'skip p', 'drop text', 'unwrap q post', 'dup', 'edit', 'set kw', 'set text', 'node alter', 'slice0', 'node copy']

def iter_forests(n, leaves, conts):
    for k in range(1, n + 1):
        for f in forests(k, leaves, conts): yield f

def spaces(tier):
    q = tier == 'quick'
    n = 3 if q else 4
    def singles(kind, params, n, leaves, conts):
        def it():
            yield (kind, ((), params[0]))
            for f in iter_forests(n, leaves, conts):
                for x in params: yield (kind, (f, x))
        return it
    walks = [(s, o, r) for s in SKIPS for o in ('preorder', 'postorder', None) for r in (0, 1)]
    sels = [(i, f, o) for i in range(len(CRIT)) for f in range(4) for o in (None, 'preorder', 'postorder')]
    skips = [(i, f) for i in range(len(CRIT)) for f in range(4)]
    alters = [(t, s, o, r) for t in list(TRANS) + list(POST_ONLY) for s in SKIPS for o in ('preorder', 'postorder', None) for r in (0, 1) if t in TRANS or o == 'postorder']
    def seqs(k, n, leaves, conts, ops):
        def it():
            for f in iter_forests(n, leaves, conts):
                for s in itertools.product(ops, repeat = k): yield ('seq', (f, s))
        return it
    return [('walks', singles('walk', [walks], n + 1, LEAVES, ['p', 'pa', 'q'])), ('selections', singles('select', [sels], n - 1, LEAVES, C_FULL)), ('skips', singles('skip', [skips], n - 1, LEAVES, C_FULL)),
            ('selections in larger trees', singles('select', [sels], n, LEAVES, ['pa', 'p2', 'q'])), ('skips in larger trees', singles('skip', [skips], n, LEAVES, ['pb', 'p2', 'q', 'u'])),
            ('alterations', singles('alter', [alters], n, LEAVES, CONTS)), ('alterations of larger trees', singles('alter', [alters], n + 1, LEAVES, ['p', 'q'])),
            ('indexing', singles('index', [None], n + 1, LEAVES, CONTS)), ('trees of scripts', singles('script', [None], 3, ['t', 'm'], ['p', 'pa', '.', 'H', 'Hx', 'up', 'for', 'ch'])),
            ('sequences of 2', seqs(2, 3, LEAVES, ['pa', 'p2', 'q'], OPS)), ('sequences of 3', seqs(3, 2 if q else 3, LEAVES, ['pa', 'q'], OPS_FEW if q else OPS))] + (
            [] if q else [('sequences of 4', seqs(4, 3, LEAVES, ['pa', 'q'], OPS_FEW))])

def prepare(tier): util.warm(sys.modules[__name__], tier, 60, 20)

def fail(what, f, x): raise Violation('%s, operation %r, on the forest %r' % (what, x, f), key = '%s %r %r' % (what, f, x))

def snapshot(dom): return tuple((id(n), n.tag and n.tag.name, tuple(n.attrs or ()), tuple(map(repr, (n.kwattrs or {}).items())), getattr(n, 'text', None), n.indent, n.outline, snapshot(n.body or [])) for n in dom)

def run(case, cov):
    kind, (f, params) = case
    if kind == 'script': return run_script(f, cov)
    if kind == 'seq': return run_seq(f, params, cov)
    if kind == 'index': return run_index(f, cov)
    for x in params if isinstance(params, list) else [params]:
        dom, ms = build(f)
        iso = Iso()
        err = iso.sames(list(dom), ms)
        if err: fail('construction: ' + err, f, None)
        before = snapshot(dom)
        cov.execs += 1
        cov.step(1)
        try: err = single(kind, x, dom, ms, iso, before, cov)
        except Violation: raise
        except Exception as ex: err = 'exception %s: %s' % (type(ex).__name__, ex)
        if err: fail('%s: %s' % (kind, err), f, x)
        cov.state((kind, f, shape(ms)))

def single(kind, x, dom, ms, iso, before, cov):
    if kind == 'walk':
        s, o, r = x
        kw = {}
        if o: kw['order'] = o
        calls = []
        def skip(n):
            calls.append(n)
            return SKIPS[s](n)
        if SKIPS[s]: kw['skip'] = skip
        mcalls = []
        def mskip(n):
            mcalls.append(n)
            return SKIPS[s](n)
        if r == 0: got, exp = list(dom.walk(**kw)), list(m_walk(ms, SKIPS[s] and mskip, o or 'preorder'))
        else:
            if not len(dom): return
            got, exp = list(dom[0].walk(**kw)), list(m_walk(ms[:1], SKIPS[s] and mskip, o or 'preorder'))
        err = iso.known(got, exp, 'nodes') or iso.known(calls, mcalls, 'calls of skip')
        if not err and snapshot(dom) != before: err = 'the document was changed'
        return err
    if kind == 'select':
        i, form, o = x
        args, kw = crit_args(CRIT[i], form)
        if o: kw['order'] = o
        got = dom.select(*args, **kw)
        exp = [m for m in m_walk(ms, None, o or 'preorder') if m_match(m, *CRIT[i])]
        if not isinstance(got, DOM): return 'result is not a DOM'
        err = iso.known(got, exp, 'nodes')
        if not err and form == 0 and CRIT[i][0] is not None and not CRIT[i][1]: err = iso.known(dom[CRIT[i][0]], exp if o != 'postorder' else [m for m in m_walk(ms, None, 'preorder') if m_match(m, *CRIT[i])], 'dom[tag]')
        if not err and snapshot(dom) != before: err = 'the document was changed'
        return err
    if kind == 'skip':
        i, form = x
        args, kw = crit_args(CRIT[i], form)
        got = dom.skip(*args, **kw)
        exp = m_skip(ms, *CRIT[i])
        if not isinstance(got, DOM): return 'result is not a DOM'
        err = iso.sames(list(got), exp)
        if not err and snapshot(dom) != before: err = 'the document was changed'
        return err
    if kind == 'alter':
        t, s, o, r = x
        kw = {}
        if o: kw['order'] = o
        trace, mtrace = [], []
        tr = TRANS.get(t) or POST_ONLY[t]
        rf, mf = tr(True), tr(False)
        def f(n):
            trace.append(n)
            return rf(n)
        def g(n):
            mtrace.append(n)
            return mf(n)
        if SKIPS[s]: kw['skip'] = SKIPS[s]
        if r == 0:
            res = dom.alter(f, **kw)
            new = m_alter(ms, g, SKIPS[s], o or 'preorder')
            if res is not dom: return 'result is not the DOM itself'
        else:
            if not len(dom): return
            res = dom[0].alter(f, **kw)
            new = list(ms)
            if not (SKIPS[s] and SKIPS[s](ms[0])): ms[0].kids = m_alter(ms[0].kids, g, SKIPS[s], o or 'preorder')
            if res is not dom[0]: return 'result is not the node itself'
        err = iso.sames(list(dom), new)
        if not err and trace:
            it = Iso()
            it.r2m, it.m2r = dict(iso.r2m), dict(iso.m2r)
            if len(trace) != len(mtrace): err = 'transform called %d times instead of %d' % (len(trace), len(mtrace))
            else:
                for a, b in zip(trace, mtrace):
                    if id(a) in it.r2m and it.r2m[id(a)][1] is not b: err = 'transform called in another order'
        return err

def run_index(f, cov):
    dom, ms = build(f)
    iso = Iso()
    iso.sames(list(dom), ms)
    before = snapshot(dom)
    n = len(ms)
    if len(dom) != n or bool(dom) != bool(n): fail('len or truth value', f, None)
    err = iso.known([x for x in dom], ms, 'iteration') or iso.known(dom.nodes, ms, 'nodes')
    for k in range(-n - 2, n + 2):
        cov.execs += 1
        try: got = dom[k]
        except IndexError: got = None
        exp = ms[k] if -n <= k < n else None
        if exp is None and got is not None or exp is not None and (got is None or id(got) not in iso.r2m or iso.r2m[id(got)][1] is not exp): err = err or 'dom[%d]' % k
    for a in [None] + list(range(-2, n + 2)):
        for b in [None] + list(range(-2, n + 2)):
            for c in (None, 1, 2, -1):
                got = dom[a:b:c]
                if not isinstance(got, DOM): err = 'slice is not a DOM'
                err = err or iso.known(got, ms[a:b:c], 'dom[%s:%s:%s]' % (a, b, c))
                cov.step(1)
    for r, m in zip(dom, ms):
        for a in ('a', 'b', 'data-x', 'zz', 'c'):
            d = object()
            if r.get(a, d) != m.kw.get(a, d) or r.get(a) != m.kw.get(a): err = err or 'node.get(%r)' % a
            try: v = r[a]
            except Exception: v = d
            if v != m.kw.get(a, d): err = err or 'node[%r]' % a
    for order in ('preorder', 'postorder'):
        for node, m in zip(dom, ms): err = err or iso.known(node.walk(order = order), list(m_walk([m], None, order)), 'node.walk')
    if snapshot(dom) != before: err = err or 'the document was changed'
    exp = tree_text(ms)
    if dom.tree() != exp: err = err or 'tree(): %r instead of %r' % (dom.tree(), exp)
    cp = dom.copy()
    if snapshot(dom) != before or cp.render() != dom.render(): err = err or 'copy renders differently or changed the original'
    cov.state(f)
    if err: fail('indexing: ' + err, f, None)

def tree_text(ms, ind = ''):
    s = ''
    for m in ms:
        name = '<Text>' if m.text is not None else m.tag.name if m.tag else '<Node>'
        s += ind + name + ''.join(' %s' % a for a in m.attrs) + ''.join(' %s=%s' % i for i in m.kw.items()) + '\n' + tree_text(m.kids, ind + '  ')
    return s

def run_seq(f, ops, cov):
    dom, ms = build(f)
    iso = Iso()
    iso.sames(list(dom), ms)
    docs = [(dom, ms)]                          # all documents; the last one is operated on
    for k, op in enumerate(ops):
        d, m = docs[-1]
        try: r = apply_op(op, d, m, docs)
        except Exception as ex: fail('%s: exception %s: %s' % (op, type(ex).__name__, ex), f, ops)
        cov.execs += 1
        cov.step(1)
        if r is not None: docs.append(r)
        new = Iso()
        new.r2m, new.m2r = iso.r2m, iso.m2r
        for i, (a, b) in enumerate(docs):
            err = iso.sames(list(a), b)
            if err: fail('document %d after step %d (%s): %s' % (i, k, op, err), f, ops)
        iso.keep = getattr(iso, 'keep', []) + [docs]    # nodes stay alive: no reuse of identities
    cov.state((f, ops, shape(docs[-1][1])))

def apply_op(op, d, m, docs):
    """Performs the operation on both sides; returns a new document or None when the current one was changed in place."""
    def alter(tr, order = 'preorder', skip = None):
        d.alter(tr(True), skip, order)
        m[:] = m_alter(m, tr(False), skip, order)
    if op == 'copy': return d.copy(), [x.copy() for x in m]
    if op == 'sel p': return d.select('p'), [x for x in m_walk(m, None, 'preorder') if m_match(x, 'p', [])]
    if op == 'idx p': return d['p'], [x for x in m_walk(m, None, 'preorder') if m_match(x, 'p', [])]
    if op == 'sel a': return d.select(attr = 'a'), [x for x in m_walk(m, None, 'preorder') if m_match(x, None, [('a', ANY)])]
    if op == 'sel P2': return d.select(P2), [x for x in m_walk(m, None, 'preorder') if m_match(x, P2, [])]
    if op == 'sel all': return d.select(), list(m_walk(m, None, 'preorder'))
    if op == 'sel post': return d.select(order = 'postorder'), list(m_walk(m, None, 'postorder'))
    if op == 'skip p': return d.skip('p'), m_skip(m, 'p', [])
    if op == 'skip a1': return d.skip(a = 1), m_skip(m, None, [('a', 1)])
    if op == 'skip all': return d.skip(), []
    if op == 'drop text': return alter(TRANS['drop text'])
    if op == 'drop p post': return alter(TRANS['drop p'], 'postorder')
    if op == 'unwrap p': return alter(TRANS['unwrap p'])
    if op == 'unwrap q post': return alter(TRANS['unwrap q'], 'postorder')
    if op == 'dup': return alter(t_dup) if len(list(m_walk(m, None, 'preorder'))) < 40 else None
    if op == 'replace': return alter(t_repl)
    if op == 'wrap post': return alter(t_wrap, 'postorder') if len({id(x) for x in m_walk(m, None, 'preorder')}) == len(list(m_walk(m, None, 'preorder'))) else None
    if op == 'edit': return alter(t_edit)
    if op == 'gen skip p': return alter(t_gen, 'preorder', SKIPS['p'])
    if op == 'slice1': return d[:1], m[:1]
    if op == 'slice0': return d[1:], m[1:]
    if op == 'rev': return d[::-1], m[::-1]
    if op == 'node copy': return (DOM(d[0].copy(), d), [m[0].copy()] + m) if m else None
    if op == 'node alter':
        if m:
            d[0].alter(TRANS['drop text'](True))
            m[0].kids = m_alter(m[0].kids, TRANS['drop text'](False), None, 'preorder')
        return
    if op == 'set kw':
        for r, x in zip(d.walk(), m_walk(m, None, 'preorder')):
            if x.kw: r.kwattrs['a'] = x.kw['a'] = 9
        return
    if op == 'set text':
        for r, x in zip(list(d.walk()), list(m_walk(m, None, 'preorder'))):
            if x.text is not None: r.text = x.text = 'new'
            if x.attrs:
                r.attrs.append(8)
                x.attrs.append(8)
        return
    if op == 'append':
        n = DOM.Text('added')
        x = M(None, [], {}, [], 'added')
        d.nodes.append(n)
        m.append(x)
        return
    if op == 'flatten': return DOM([d, None, [d[:1]]]), m + m[:1]
    if op == 'new node': return DOM(DOM.Node(d, tag = Q)), [M(Q, [], {}, list(m))]
    if op == 'body': return (d[0].body, m[0].kids) if m and m[0].kids else None
    raise Exception(op)

# ---- documents of scripts
SCRIPT_HEAD = "%H @b a=1 c=2\n  @ b\n"
def run_script(f, cov):
    counter = [0]
    lines = []
    def block(t, ind):
        """emits source; -> list of expected nodes as (name, attrs, kw, kids, text)"""
        label, kids = t
        counter[0] += 1
        n = counter[0]
        if label == 't':
            lines.append(ind + '| t%d' % n)
            return [('<Text>', [], {}, [], 't%d' % n)]
        if label == 'm':
            lines.append(ind + '/ m%d' % n)
            lines.append(ind + '  more')
            return [('<Text>', [], {}, [], 'm%d\nmore' % n)]
        head = {'p': 'p', 'pa': "p a=%d .k #i%d" % (n, n), '.': '.', 'H': 'H %d' % n, 'Hx': 'X a=%d' % n, 'up': 'upper', 'for': 'for i in [1,2]', 'ch': "div: p x='y'"}[label]
        if label == 'Hx': head = 'H c=%d' % n
        lines.append(ind + head + ':')
        here = len(lines)
        ks = []
        for k in kids: ks += block(k, ind + '  ')
        if label == 'p': return [('p', [], {}, ks, None)]
        if label == 'pa': return [('p', [], {'a': n, 'class': 'k', 'id': 'i%d' % n}, ks, None)]
        if label == '.': return [('null', [], {}, ks, None)]
        if label == 'H': return [('H', [], {'a': n}, ks, None)]
        if label == 'Hx': return [('H', [], {'c': n}, ks, None)]
        if label == 'up': return [('upper', [], {}, ks, None)]
        if label == 'for': return ks + ks
        if label == 'ch': return [('div', [], {}, [('p', [], {'x': 'y'}, ks, None)], None)]
    exp = []
    for t in f: exp += block(t, '')
    script = SCRIPT_HEAD + '\n'.join(lines) + '\n'
    cov.execs += 1
    cov.sample(script)
    module = hy.runtime().translate(script)
    root = module.dom
    def struct(dom):
        return [(type(n).__name__ if n.tag is None else n.tag.name, list(n.attrs or []), dict(n.kwattrs or {}), struct(n.body or []), getattr(n, 'text', None)) for n in dom]
    got = [(n if n != 'Text' else '<Text>', a, k, b, t) for n, a, k, b, t in fix(struct(root.body))]
    while got and got[-1][0] == '<Text>' and not got[-1][4].strip(): got.pop()
    cov.state(got)
    cov.step(len(exp))
    if got != exp: raise Violation('document of a script: expected %r, got %r for\n%s' % (exp, got, script), key = script)
    if not isinstance(root, DOM.Root): raise Violation('result of translation is not a Root for\n' + script, key = script)
    text = hy.runtime().render(script)
    before = snapshot([root])
    nodes = list(root.walk())
    if nodes[0] is not root: raise Violation('walk of the root does not start with the root', key = script)
    if [n for n in nodes[1:]] != list(root.body.walk()): raise Violation('walk of the root', key = script)
    d2 = root.copy()
    if root.render() != text or d2.render() != text: raise Violation('rendering of the document or its copy differs from render()\n' + script, key = script)
    a = root.body.skip('p').render()
    b = root.body.copy().alter(lambda n: [] if n.tag is not None and n.tag.name == 'p' else [n]).render()
    if a != b: raise Violation("skip('p') and removal by alter() differ: %r, %r\n%s" % (a, b, script), key = script)
    root.body.select('p'), root.body['p'], list(root.body.walk(order = 'postorder'))
    d2.body.alter(lambda n: [])
    for n in d2.walk(): n.kwattrs and n.kwattrs.update(z = 1)
    if snapshot([root]) != before or root.render() != text: raise Violation('the document was changed by operations that must not change it\n' + script, key = script)

def fix(nodes): return [('<Text>' if n == 'Text' else n, a, k, fix(b), t) for n, a, k, b, t in nodes]
