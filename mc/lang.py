"""
Reference model of the Hypertag language: abstract syntax, printer to script text, and an independent interpreter.

The interpreter follows the documentation (docs/index.md), not the implementation: programs are resolved by lexical scope,
executed over immutable output trees, and laid out by one compositional rule:

  - a block yields a list of nodes; the first one starts a new line unless the block is appended ("...");
  - a node's own lines are relative to the block; the enclosing tag adds the block's relative indentation to every
    non-empty line after the first newline; control blocks and hypertag definitions add none; "<" removes it;
  - a markup element whose content starts with a newline gets its closing tag on a line of its own.
"""
import ast as pyast, builtins
from mc.steps import Steps

class ModelError(Exception):
    """An error that the language must report; `kind` as in hy.kind_of()."""
    def __init__(self, kind):
        super(ModelError, self).__init__(kind)
        self.kind = kind

class Unspecified(Exception):
    """The program's meaning is not fixed by the documentation: the case is skipped."""

steps = Steps()

# ---------------------------------------------------------------------------------------------------------------------------------
#  Expressions: source text + Python text evaluated by Python itself

_cache = {}
def _compiled(py):
    r = _cache.get(py)
    if r is None:
        if len(_cache) > 50000: _cache.clear()
        tree = pyast.parse(py, mode = 'eval')
        bound = {n.id for n in pyast.walk(tree) if isinstance(n, pyast.Name) and not isinstance(n.ctx, pyast.Load)}
        names = []
        for n in pyast.walk(tree):
            if isinstance(n, pyast.Name) and n.id not in names and n.id not in bound: names.append(n.id)
        r = _cache[py] = (compile(tree, '<model>', 'eval'), names)
    return r

BUILTIN_NAMES = set(dir(builtins))

class Ex:
    """Expression. `src` is the Hypertag text, `py` the Python text of the same meaning (tags appear as _tag_NAME)."""
    def __init__(self, src, py = None):
        self.src = src
        self.py = src if py is None else py
        self.cells = None

    def resolve(self, scope):
        code, names = _compiled(self.py)
        cells = {}
        for n in names:
            sym = '%' + n[5:] if n.startswith('_tag_') else '$' + n
            cell = scope.lookup(sym)
            if cell is None:
                if sym[0] == '$' and n in BUILTIN_NAMES: continue
                raise ModelError('Name')
            cells[n] = cell
        self.cells = cells

    def ev(self, fr):
        steps.n += 1
        code, names = _compiled(self.py)
        return eval(code, {'__builtins__': builtins, '_fr': fr}, _Env(self.cells, fr))

class _Env:
    __slots__ = ('cells', 'fr')
    def __init__(self, cells, fr): self.cells, self.fr = cells, fr
    def __getitem__(self, name):
        cell = self.cells.get(name)
        if cell is None: raise KeyError(name)
        v = self.fr.get(cell)
        if isinstance(v, Closure): return lambda body = None, *a, **kw: v.call(body, a, kw)
        if isinstance(v, ModelTag): return lambda body = None, *a, **kw: v.expand([N(text = str(body))] if body is not None else [], a, kw)
        return v

class QEx(Ex):
    """Expression with qualifiers: in `py`, x? is written _q(lambda: x) and x! is written _o(lambda: x)."""
    def resolve(self, scope):
        code, names = _compiled(self.py)
        cells = {}
        for n in names:
            if n in ('_q', '_o', 'S'): continue
            cell = scope.lookup('$' + n)
            if cell is None:
                if n in BUILTIN_NAMES: continue
                raise ModelError('Name')
            cells[n] = cell
        self.cells = cells
    def ev(self, fr):
        steps.n += 1
        g = {'__builtins__': builtins, '_q': _q, '_o': _o, 'S': to_str}
        for n, cell in self.cells.items():
            try: g[n] = fr.get(cell)
            except ModelError: pass
        try: return eval(_compiled(self.py)[0], g)
        except NameError: raise ModelError('Unbound')

def _q(f):
    try: v = f()
    except Exception: return ''
    return v if v else ''

def _o(f):
    v = f()
    if not v: raise ModelError('FalseValue')
    return v

def X(src, py = None): return src if isinstance(src, Ex) else Ex(src, py)

# ---------------------------------------------------------------------------------------------------------------------------------
#  Scopes and frames

class Cell:
    __slots__ = ('sym', 'func', 'outer')
    def __init__(self, sym, func, outer = None): self.sym, self.func, self.outer = sym, func, outer

class Scope:
    def __init__(self, parent, func):
        self.parent, self.func, self.table = parent, func, {}
    def lookup(self, sym):
        s = self
        while s is not None:
            if sym in s.table: return s.table[sym]
            s = s.parent
        return None
    def declare(self, sym):
        """Definition of `sym` here: rebinds the cell of this very scope or opens a new one."""
        if sym not in self.table: self.table[sym] = Cell(sym, self.func, self.lookup(sym))
        return self.table[sym]
    def define(self, sym):
        """New definition of `sym` by a hypertag, import or context block: earlier uses keep denoting the earlier definition."""
        self.table[sym] = Cell(sym, self.func, self.lookup(sym))
        return self.table[sym]
    def sub(self, func = None): return Scope(self, func or self.func)

class Frame:
    def __init__(self, func, parent, conf):
        self.func, self.parent, self.vals, self.conf = func, parent, {}, conf
    def _home(self, cell):
        f = self
        while f.func is not cell.func: f = f.parent
        return f
    def get(self, cell):
        while True:
            vals = self._home(cell).vals
            if cell in vals: return vals[cell]
            if cell.outer is None: break
            cell = cell.outer               # the definition was not executed: the one that it overrides is in force
        if cell.sym[0] == '$' and cell.sym[1:] in BUILTIN_NAMES: return getattr(builtins, cell.sym[1:])
        raise ModelError('Unbound')
    def set(self, cell, v):
        self._home(cell).vals[cell] = v

class Conf:
    """Environment of one render: escape function of the runtime."""
    def __init__(self, escape): self.escape = escape

def html_escape(s):
    return ''.join({'&': '&amp;', '<': '&lt;', '>': '&gt;'}.get(c, c) for c in s)

# ---------------------------------------------------------------------------------------------------------------------------------
#  Output tree

class N:
    __slots__ = ('tag', 'attrs', 'kw', 'kids', 'text', 'rel', 'outline', 'margin')
    def __init__(self, tag = None, kids = (), text = None, rel = '', outline = False, attrs = (), kw = None, margin = False):
        self.tag, self.kids, self.text, self.rel, self.outline, self.attrs, self.kw, self.margin = tag, list(kids), text, rel, outline, attrs, kw or {}, margin
    def having(self, **ch):
        n = N(self.tag, self.kids, self.text, self.rel, self.outline, self.attrs, self.kw, self.margin)
        for k, v in ch.items(): setattr(n, k, v)
        return n

def indent_lines(s, ind):
    if not ind: return s
    lines = s.split('\n')
    return '\n'.join([lines[0]] + [ind + l if l else l for l in lines[1:]])

def out(n):
    if n.text is not None: s = n.text
    elif n.tag is None: s = outs(n.kids)
    else: s = n.tag.expand(n.kids, n.attrs, n.kw)
    if n.outline: s = '\n' + s
    return indent_lines(s, n.rel)

def outs(kids): return ''.join([out(k) for k in kids])

class ModelTag:
    name = None
    def expand(self, kids, attrs, kw): raise NotImplementedError

def attr_text(name, value):
    if value is True: return ' ' + name
    if value is False: return ''
    v = str(value).replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
    v = v.replace('\n', '&#10;').replace('\r', '&#13;').replace('\t', '&#9;')
    if '"' in v:
        if "'" in v: v = '"%s"' % v.replace('"', '&quot;')
        else: v = "'%s'" % v
    else: v = '"%s"' % v
    return ' %s=%s' % (name, v)

class Markup(ModelTag):
    def __init__(self, name, void = False): self.name, self.void = name, void
    def expand(self, kids, attrs, kw):
        if attrs: raise ModelError('Type')
        return self.element(self.name, kids, kw)
    def element(self, name, kids, kw):
        head = name + ''.join(attr_text(k, v) for k, v in kw.items())
        body = outs(kids)
        if self.void:
            if body: raise ModelError('VoidTag')
            return '<%s />' % head
        return '<%s>%s%s</%s>' % (head, body, '\n' if body[:1] == '\n' else '', name)

class Custom(Markup):
    def __init__(self): Markup.__init__(self, 'custom')
    def expand(self, kids, attrs, kw):
        if len(attrs) != 1: raise ModelError('Type')
        return self.element(attrs[0], kids, kw)

class CommentTag(ModelTag):
    name = 'comment'
    def expand(self, kids, attrs, kw):
        if attrs or kw: raise ModelError('Type')
        body = outs(kids)
        return '<!--' + body + ('\n' if body[:1] == '\n' else '') + '-->'

class FunTag(ModelTag):
    """Tag made of a function of rendered text."""
    def __init__(self, name, fun): self.name, self.fun = name, fun
    def expand(self, kids, attrs, kw): return self.fun(outs(kids), *attrs, **kw)

VOID = "area base br col command embed hr img input link meta param source track wbr".split()
NONVOID = "a abbr acronym address applet article aside audio b basefont bdi bdo big blockquote body " \
          "button canvas caption center cite code colgroup data datalist dd del details dfn dialog dir " \
          "div dl dt em fieldset figcaption figure font footer form frame frameset h1 h2 h3 h4 h5 h6 " \
          "head header html i iframe ins kbd label legend li main map mark meter nav noframes noscript " \
          "object ol optgroup option output p picture pre progress q rp rt ruby s samp script section " \
          "select small span strike strong style sub summary sup svg table tbody td template textarea " \
          "tfoot th thead time title tr tt u ul var video".split()
TAGS = {}
for _n in NONVOID:
    TAGS[_n], TAGS[_n.upper()] = Markup(_n), Markup(_n.upper())
for _n in VOID:
    TAGS[_n], TAGS[_n.upper()] = Markup(_n, True), Markup(_n.upper(), True)
TAGS['custom'], TAGS['comment'] = Custom(), CommentTag()
TAGS['upper'], TAGS['lower'] = FunTag('upper', lambda t: t.upper()), FunTag('lower', lambda t: t.lower())
TAGS['inline'] = FunTag('inline', lambda t: t.replace('\n', '&#10;'))
TAGS['merge'] = FunTag('merge', lambda t: ' '.join(t.split()))
TAGS['doctype'] = FunTag('doctype', lambda t, value = 'html': '<!DOCTYPE %s>' % value)

class NullTag(ModelTag):
    name = 'null'
    def expand(self, kids, attrs, kw): return outs(kids)
NULL = NullTag()

class NativeTag(ModelTag):
    def __init__(self, name): self.name = name
    def expand(self, kids, attrs, kw): return outs(kids)

# ---------------------------------------------------------------------------------------------------------------------------------
#  Text

class Emb:
    """Embedded expression. form: 'b' {x}, 's' { x }, 'd' $x;  q: '', '?', '!'"""
    def __init__(self, ex, form = 'b', q = ''): self.ex, self.form, self.q = X(ex), form, q
    def src(self):
        t = self.ex.src
        return {'b': '{%s}', 's': '{ %s }', 'd': '$%s'}[self.form] % t + self.q
    def value(self, fr): return qualified(self.ex, self.q, fr)

def qualified(ex, q, fr):
    try: v = ex.ev(fr)
    except Exception:
        if q == '?': return ''
        raise
    if v: return v
    if q == '?': return ''
    if q == '!': raise ModelError('FalseValue')
    return v

def to_str(v):
    if v is None: raise ModelError('NoneString')
    return str(v)

def esc_lit(s): return s.replace('$', '$$').replace('{', '{{').replace('}', '}}')

class Line:
    """Parts of one line of text: str and Emb."""
    def __init__(self, *parts): self.parts = parts
    def src(self, style):
        return ''.join(p.src() if isinstance(p, Emb) else (p if style in '!-' else esc_lit(p)) for p in self.parts)
    def resolve(self, scope):
        for p in self.parts:
            if isinstance(p, Emb): p.ex.resolve(scope)
    def text(self, style, fr):
        if style == '!': return ''.join(p.src() if isinstance(p, Emb) else p for p in self.parts)
        t = ''.join(to_str(p.value(fr)) if isinstance(p, Emb) else p for p in self.parts)
        if style == '|' and fr.conf.escape: t = fr.conf.escape(t)
        return t

def L(x): return x if isinstance(x, Line) else Line(*x) if isinstance(x, (list, tuple)) else Line(x)

# ---------------------------------------------------------------------------------------------------------------------------------
#  Blocks

class Block:
    margin = 0              # number of blank lines before
    mod = ''                # '', '...', '<'
    modgap = ' '
    def at(self, margin = 0, mod = ''):
        self.margin, self.mod = margin, mod
        return self
    def lines(self):
        """-> list of source lines, relative to the block's own indentation (None = blank line)"""
        raise NotImplementedError
    def resolve(self, scope): pass
    def nodes(self, fr): return []

    def full_lines(self):
        ls = self.lines()
        if self.mod: ls = [self.mod + self.modgap + ls[0]] + ls[1:]
        return [''] * self.margin + ls

    def full_nodes(self, fr):
        steps.n += 1
        ns = self.nodes(fr)
        pre = [N(text = '\n' * self.margin, margin = True)] if self.margin else []
        if ns:
            if self.mod != '...':
                if ns[0].margin: raise Unspecified()            # blank line at the start of a control body or inserted body
                ns = [ns[0].having(outline = True)] + ns[1:]
        return pre + ns

def indented(blocks, ind):
    res = []
    for b in blocks:
        for l in b.full_lines(): res.append(ind + l if l else l)
    return res

def resolve_all(blocks, scope):
    for b in blocks: b.resolve(scope)

def body_nodes(blocks, fr, rel):
    """Nodes of a body whose blocks are indented by `rel` relative to the owner."""
    res = []
    for b in blocks:
        for n in b.full_nodes(fr):
            if n.margin: res.append(n)
            else: res.append(n.having(rel = '' if b.mod == '<' else rel))
    return res

class Text(Block):
    """style in | / !;  head: Line or None;  tail: list of (indent string, Line) or None for blank lines."""
    def __init__(self, head, style = '|', tail = (), gap = ' '):
        self.style, self.gap = style, gap
        self.head = None if head is None else L(head)
        self.tail = [t if t is None else (t[0], L(t[1])) for t in tail]
        self.column = 0                         # position of the marker in the headline
    def lines(self):
        ls = [self.style + (self.gap + self.head.src(self.style) if self.head is not None else '')]
        for t in self.tail:
            ls.append('' if t is None else t[0] + t[1].src(self.style))
        return ls
    def resolve(self, scope):
        if self.style == '!': return
        if self.head is not None: self.head.resolve(scope)
        for t in self.tail:
            if t is not None: t[1].resolve(scope)
    def text(self, fr):
        col = self.column + (len(self.mod) + 1 if self.mod else 0) + 1        # first column after the marker
        raw = None if self.head is None else self.gap + self.head.src(self.style)
        if raw is not None and not raw.strip(' \t'): raw = None
        rows = []                               # (indentation, text)
        if raw is None: first = None
        else:
            lit = raw[:len(raw) - len(raw.lstrip(' \t'))]
            t = self.head.text(self.style, fr)
            # leading literal blanks belong to the indentation of the headline
            full = self.gap + t
            first = (' ' * col + lit, full[len(lit):])
        rows = [t if t is None else (t[0], t[1].text(self.style, fr)) for t in self.tail]
        known = [r[0] for r in [first] + rows if r is not None]
        common = known[0] if known else ''
        for k in known:
            while not k.startswith(common): common = common[:-1]
        common = common[:col + 1]
        res = []
        if first is None: res.append('')
        else:
            ind = first[0][len(common):]
            if len(common) < col:               # tail starts to the left of the headline's text: headline's lead and gap are dropped
                ind = first[0][col:]
                if ind[:1] in (' ', '\t'): ind = ind[1:]
            res.append(ind + first[1])
        for r in rows: res.append('' if r is None else r[0][len(common):] + r[1])
        return '\n'.join(res)
    def nodes(self, fr): return [N(text = self.text(fr))]

class Comment(Block):
    def __init__(self, text = ' note', mark = '--', tail = ()): self.t, self.mark, self.tail = text, mark, tail
    def lines(self): return [self.mark + self.t] + [i + t for i, t in self.tail]

class Pass(Block):
    def lines(self): return ['pass']

class Assign(Block):
    """targets: Python-like pattern text (for example 'x' or 'a, (b, c)')."""
    def __init__(self, targets, ex, op = ''): self.t, self.ex, self.op = targets, X(ex), op
    def lines(self): return ['$%s %s= %s' % (self.t, self.op, self.ex.src)]
    def resolve(self, scope):
        self.ex.resolve(scope)
        if self.op:
            self.read = scope.lookup('$' + self.t)
            if self.read is None and not self.t in BUILTIN_NAMES: raise ModelError('Name')
        self.pat = pyast.parse(self.t, mode = 'eval').body
        self.cells = {}
        declare_pattern(self.pat, scope, self.cells)
    def nodes(self, fr):
        v = self.ex.ev(fr)
        if self.op:
            cur = fr.get(self.read)
            v = eval('a %s b' % self.op, {'a': cur, 'b': v})
        bind_pattern(self.pat, v, self.cells, fr)
        return []

def declare_pattern(p, scope, cells):
    if isinstance(p, pyast.Name): cells[p.id] = scope.declare('$' + p.id)
    else:
        for e in p.elts: declare_pattern(e, scope, cells)

def bind_pattern(p, v, cells, fr):
    if isinstance(p, pyast.Name): fr.set(cells[p.id], v)
    else:
        vals = []
        for x in v:
            if len(vals) >= len(p.elts): raise ModelError('Value')
            vals.append(x)
        if len(vals) != len(p.elts): raise ModelError('Value')
        for e, x in zip(p.elts, vals): bind_pattern(e, x, cells, fr)

class Eval(Block):
    def __init__(self, ex): self.ex = X(ex)
    def lines(self): return ['$ ' + self.ex.src]
    def resolve(self, scope): self.ex.resolve(scope)
    def nodes(self, fr):
        self.ex.ev(fr)
        return []

class At:
    """Actual attribute: kind 'pos', 'kw', '.', '#';  value: Ex (or literal text for '.', '#')"""
    def __init__(self, kind, value, name = None):
        self.kind, self.name, self.value = kind, name, value
    def src(self):
        v = self.value.src if isinstance(self.value, Ex) else self.value
        return {'pos': v, 'kw': '%s=%s' % (self.name, v), '.': '.' + v, '#': '#' + v}[self.kind]
    def resolve(self, scope):
        if isinstance(self.value, Ex): self.value.resolve(scope)
    def val(self, fr): return self.value.ev(fr) if isinstance(self.value, Ex) else self.value

def K(name, src, py = None): return At('kw', X(src, py), name)
def Pos(src, py = None): return At('pos', X(src, py))

class T:
    """Use of a tag in a header: name ('.' = null) and attributes."""
    def __init__(self, name, *attrs): self.name, self.attrs = name, list(attrs)
    def src(self):
        s = self.name
        prev_short = False
        for a in self.attrs: s += ' ' + a.src()
        return s
    def resolve(self, scope):
        if self.name == '.': return
        for a in self.attrs: a.resolve(scope)
        self.cell = scope.lookup('%' + self.name)
        if self.cell is None: raise ModelError('UndefinedTag')
    def eval_attrs(self, fr):
        pos, kw = [], {}
        if self.name == '.': return pos, kw
        for a in self.attrs:
            if a.kind == 'pos': pos.append(a.val(fr))
        for a in self.attrs:
            if a.kind == 'pos': continue
            name = {'.': 'class', '#': 'id'}.get(a.kind, a.name)
            v = a.val(fr)
            kw[name] = kw[name] + ' ' + v if name in kw else v
        return pos, kw
    def apply(self, kids, fr, attrs):
        steps.n += 1
        if self.name == '.': return [N(NULL, kids)]
        pos, kw = attrs
        tag = fr.get(self.cell)
        if isinstance(tag, Closure): return [tag.expand(kids, pos, kw)]
        if isinstance(tag, ModelTag): return [N(tag, kids, attrs = pos, kw = kw)]
        raise ModelError('NotATag')

class Struct(Block):
    """Tagged block.  body: list of blocks;  inline: Text/Embed block put in the headline (full body), or with colon: headline text"""
    def __init__(self, tags, body = (), inline = None, colon = False, head = None, ind = '  ', tail = ''):
        self.tags = [t if isinstance(t, T) else T(t) for t in (tags if isinstance(tags, (list, tuple)) else [tags])]
        self.body, self.inline, self.colon, self.head, self.ind, self.tail = list(body), inline, colon, head, ind, tail
    def header(self): return ' : '.join(t.src() for t in self.tags)
    def lines(self):
        h = self.header()
        if self.inline is not None:
            h += ' :' if self.colon else ''
            self.inline.column = len(h) + 1 + (len(self.mod) + 1 if self.mod else 0)
            il = self.inline.lines()
            return [h + ' ' + il[0]] + il[1:]
        if self.head is not None: h += ': ' + self.head.lines()[0]
        elif self.colon: h += ':'
        return [h + self.tail] + indented(self.body, self.ind)
    def resolve(self, scope):
        for t in self.tags: t.resolve(scope)
        sub = scope.sub()
        if self.head is not None: self.head.resolve(sub)
        if self.inline is not None: self.inline.resolve(sub)
        resolve_all(self.body, sub)
    def nodes(self, fr):
        attrs = [t.eval_attrs(fr) for t in self.tags]           # left to right, before the body
        kids = []
        if self.inline is not None: kids += self.inline.nodes(fr)
        if self.head is not None: kids += [N(text = self.head.head.text(self.head.style, fr) if self.head.head is not None else '')]
        kids += body_nodes(self.body, fr, self.ind)
        for t, a in reversed(list(zip(self.tags, attrs))): kids = t.apply(kids, fr, a)
        return kids

class Control(Block):
    ind = '  '
    colon = True
    depth = 0               # number of control blocks around, during name resolution
    def resolve(self, scope):
        Control.depth += 1
        try: self.resolve_(scope)
        finally: Control.depth -= 1
    def clause(self, head, body, inline):
        if inline is not None:
            inline.column = len(head) + 1
            il = inline.lines()
            return [head + ' ' + il[0]] + il[1:]
        return [head + (':' if self.colon else '')] + indented(body, self.ind)
    def run(self, body, inline, fr):
        ns = []
        if inline is not None: ns += inline.nodes(fr)
        ns += body_nodes(body, fr, '')
        return ns

class Branch:
    """One clause: condition (or None), body blocks or inline Text."""
    def __init__(self, cond, body = (), inline = None): self.cond, self.body, self.inline = (None if cond is None else X(cond)), list(body), inline

class If(Control):
    def __init__(self, branches, els = None, ind = '  ', colon = True):
        self.branches, self.els, self.ind, self.colon = branches, els, ind, colon
    def lines(self):
        res = []
        for i, b in enumerate(self.branches):
            c = b.cond.src if b.inline is None else '(%s)' % b.cond.src
            res += self.clause('%s %s' % ('elif' if i else 'if', c), b.body, b.inline)
        if self.els: res += self.clause('else', self.els.body, self.els.inline)
        return res
    def resolve_(self, scope):
        for b in self.branches + ([self.els] if self.els else []):
            if b.cond is not None: b.cond.resolve(scope)
            if b.inline is not None: b.inline.resolve(scope)
            resolve_all(b.body, scope)
    def nodes(self, fr):
        for b in self.branches:
            if b.cond.ev(fr): return self.run(b.body, b.inline, fr)
        if self.els: return self.run(self.els.body, self.els.inline, fr)
        return []

class For(Control):
    def __init__(self, targets, seq, body = (), inline = None, els = None, ind = '  ', colon = True):
        self.t, self.seq, self.body, self.inline, self.els, self.ind, self.colon = targets, X(seq), list(body), inline, els, ind, colon
    def lines(self):
        c = self.seq.src if self.inline is None else '(%s)' % self.seq.src
        res = self.clause('for %s in %s' % (self.t, c), self.body, self.inline)
        if self.els: res += self.clause('else', self.els.body, self.els.inline)
        return res
    def resolve_(self, scope):
        self.seq.resolve(scope)
        self.pat = pyast.parse(self.t, mode = 'eval').body
        self.cells = {}
        declare_pattern(self.pat, scope, self.cells)
        if self.inline is not None: self.inline.resolve(scope)
        resolve_all(self.body, scope)
        if self.els:
            if self.els.inline is not None: self.els.inline.resolve(scope)
            resolve_all(self.els.body, scope)
    def nodes(self, fr):
        ns, some = [], False
        for v in self.seq.ev(fr):
            some = True
            bind_pattern(self.pat, v, self.cells, fr)
            ns += self.run(self.body, self.inline, fr)
        if not some and self.els: return self.run(self.els.body, self.els.inline, fr)
        return ns

class While(Control):
    def __init__(self, cond, body = (), inline = None, els = None, ind = '  ', colon = True):
        self.cond, self.body, self.inline, self.els, self.ind, self.colon = X(cond), list(body), inline, els, ind, colon
    def lines(self):
        c = self.cond.src if self.inline is None else '(%s)' % self.cond.src
        res = self.clause('while %s' % c, self.body, self.inline)
        if self.els: res += self.clause('else', self.els.body, self.els.inline)
        return res
    def resolve_(self, scope):
        self.cond.resolve(scope)
        if self.inline is not None: self.inline.resolve(scope)
        resolve_all(self.body, scope)
        if self.els:
            if self.els.inline is not None: self.els.inline.resolve(scope)
            resolve_all(self.els.body, scope)
    def nodes(self, fr):
        ns, some, n = [], False, 0
        while self.cond.ev(fr):
            some = True
            n += 1
            if n > 50: raise Unspecified()
            ns += self.run(self.body, self.inline, fr)
        if not some and self.els: return self.run(self.els.body, self.els.inline, fr)
        return ns

class Try(Control):
    """clauses: list of Branch(None, ...)"""
    def __init__(self, clauses, ind = '  ', colon = True): self.clauses, self.ind, self.colon = clauses, ind, colon
    def lines(self):
        res = []
        for i, b in enumerate(self.clauses): res += self.clause('else' if i else 'try', b.body, b.inline)
        return res
    def resolve_(self, scope):
        for b in self.clauses:
            if b.inline is not None: b.inline.resolve(scope)
            resolve_all(b.body, scope)
    def nodes(self, fr):
        for b in self.clauses:
            try: return self.run(b.body, b.inline, fr)
            except Unspecified: raise
            except Exception: pass
        return []

class Opt(Control):
    """Short form of try:  ? BLOCK"""
    def __init__(self, block): self.block = block
    def lines(self):
        b = self.block
        if isinstance(b, Text): b.column = 2
        elif isinstance(b, Struct) and b.inline is not None: pass
        ls = b.lines()
        if isinstance(b, Struct) and b.inline is not None: b.inline.column += 2
        return ['? ' + ls[0]] + ls[1:]
    def resolve_(self, scope): self.block.resolve(scope)
    def nodes(self, fr):
        try: return self.block.nodes(fr)
        except Unspecified: raise
        except Exception: return []

class Embed(Block):
    """@ expression.  `fun` maps (frame, cell values) to nodes; default: a body attribute by name."""
    def __init__(self, name, src = None, select = None): self.name, self.s, self.select = name, src or name, select
    def lines(self): return ['@ ' + self.s]
    column = 0
    def resolve(self, scope):
        self.cell = scope.lookup('$' + self.name)
        if self.cell is None: raise ModelError('Name')
    def nodes(self, fr):
        v = fr.get(self.cell)
        if self.select: v = self.select(v)
        return [n if n.margin else n.having(rel = '') for n in v]

class Def(Block):
    """% name @body attr attr=default : body"""
    def __init__(self, name, attrs = (), bodyattr = None, body = (), inline = None, ind = '  ', colon = False):
        self.name, self.bodyattr, self.body, self.inline, self.ind, self.colon = name, bodyattr, list(body), inline, ind, colon
        self.attrs = [(a, None) if isinstance(a, str) else (a[0], X(a[1])) for a in attrs]
    def lines(self):
        h = '%' + self.name + (' @' + self.bodyattr if self.bodyattr else '')
        for a, d in self.attrs: h += ' ' + a + ('=' + d.src if d else '')
        if self.inline is not None:
            self.inline.column = len(h) + 1
            il = self.inline.lines()
            return [h + ' ' + il[0]] + il[1:]
        return [h + (':' if self.colon else '')] + indented(self.body, self.ind)
    def resolve(self, scope):
        if Control.depth: raise ModelError('Syntax')            # not allowed in control blocks
        sub = Scope(scope, self)
        for a, d in self.attrs:
            if d: d.resolve(scope)
        self.cells = {}
        if self.bodyattr: self.cells[self.bodyattr] = sub.declare('$' + self.bodyattr)
        for a, d in self.attrs:
            if a in self.cells: raise ModelError('Syntax')
            self.cells[a] = sub.declare('$' + a)
        if self.inline is not None: self.inline.resolve(sub)
        resolve_all(self.body, sub)
        self.cell = scope.define('%' + self.name)
    def nodes(self, fr):
        fr.set(self.cell, Closure(self, fr))
        return []

class Closure:
    def __init__(self, d, frame): self.d, self.frame = d, frame
    def bind(self, kids, pos, kw):
        d = self.d
        names = [a for a, _ in d.attrs]
        fr = Frame(d, self.frame, self.frame.conf)
        if len(pos) > len(names): raise ModelError('Type')
        vals = dict(zip(names, pos))
        for k, v in kw.items():
            if k not in names or k in vals: raise ModelError('Type')
            vals[k] = v
        for a, e in d.attrs:
            if a not in vals:
                if e is None: raise ModelError('Type')
                vals[a] = e.ev(self.frame)
        for a, v in vals.items(): fr.set(d.cells[a], v)
        if d.bodyattr: fr.set(d.cells[d.bodyattr], kids)
        elif kids: raise ModelError('VoidTag')
        return fr
    def expand(self, kids, pos, kw):
        steps.n += 1
        fr = self.bind(kids, pos, kw)
        ns = []
        if self.d.inline is not None: ns += self.d.inline.nodes(fr)
        ns += body_nodes(self.d.body, fr, '')
        if ns and not ns[0].margin: ns = [ns[0].having(outline = False)] + ns[1:]
        elif ns: raise Unspecified()
        return N(NativeTag(self.d.name), ns, kw = dict(zip([a for a, _ in self.d.attrs], pos), **kw))
    def call(self, body, pos, kw):
        kids = [N(text = str(body))] if body is not None else []
        return out(self.expand(kids, list(pos), dict(kw)))

class Context(Block):
    """items: list of (symbol with mark, rename or None)"""
    def __init__(self, *items): self.items = [(i, None) if isinstance(i, str) else i for i in items]
    def lines(self):
        return ['context ' + ', '.join(s + (' as ' + r if r else '') for s, r in self.items)]
    def resolve(self, scope):
        self.cells = []
        for s, r in self.items:
            if s not in scope.ctx: raise ModelError('Import')
            self.cells.append((scope.define(s[0] + r if r else s), scope.ctx[s]))
    def nodes(self, fr):
        for c, v in self.cells: fr.set(c, v)
        return []

class Import(Block):
    """from PATH import items; `table` holds the symbols of the module ('$x', '%t') with their values in the model"""
    def __init__(self, path, items, table): self.path, self.table, self.items = path, table, [(i.partition(' as ')[0], i.partition(' as ')[2] or None) if isinstance(i, str) else i for i in items]
    def lines(self): return ['from %s import %s' % (self.path, ', '.join(s + (' as ' + r if r else '') for s, r in self.items))]
    def resolve(self, scope):
        if Control.depth: raise ModelError('Syntax')
        self.cells = []
        for s, r in self.items:
            if s == '*':
                for n, v in self.table.items():
                    if n[1] != '_': self.cells.append((scope.define(n), v))
                continue
            if s not in self.table: raise ModelError('Import')
            self.cells.append((scope.define(s[0] + r if r else s), self.table[s]))
    def nodes(self, fr):
        for c, v in self.cells: fr.set(c, v)
        return []

class Raw(Block):
    """Literal source lines with a given meaning (function of frame -> nodes), for constructs outside the model."""
    def __init__(self, lines, fun = None): self.ls, self.fun = lines, fun
    def lines(self): return list(self.ls)
    def nodes(self, fr): return self.fun(fr) if self.fun else []

# ---------------------------------------------------------------------------------------------------------------------------------

def source(blocks, ind = '', trailing = 0):
    return '\n'.join(indented(blocks, ind)) + '\n' + '\n' * trailing

class Top(Scope): pass

def module_table(blocks, escape = html_escape, tags = None):
    """Run an imported script: -> its top-level symbols with their values at the end. Errors propagate."""
    base = Top(None, None)
    base.ctx = {}
    fr = Frame(None, None, Conf(escape))
    for name, tag in list(TAGS.items()) + list((tags or {}).items()): fr.set(base.declare('%' + name), tag)
    top = Scope(base, None)
    top.ctx = {}
    depth, Control.depth = Control.depth, 0
    try:
        resolve_all(blocks, top)
        for b in blocks: b.full_nodes(fr)
    finally: Control.depth = depth
    table = {}
    for sym, cell in top.table.items():
        try: table[sym] = fr.get(cell)
        except ModelError: pass
    return table

def document(kids):
    text = outs(kids)
    return text[1:] if text[:1] == '\n' else text

def run_model(blocks, ctx = None, escape = html_escape, trailing = 0, tags = None, tree = False):
    """-> ('ok', text) or ('err', kind).  ctx: values by symbol ('$x', '%t'); extra tags are ModelTag objects. tree: -> ('ok', list of output nodes)"""
    base = Top(None, None)
    base.ctx = ctx or {}
    fr = Frame(None, None, Conf(escape))
    for name, tag in TAGS.items(): fr.set(base.declare('%' + name), tag)
    if tags:
        for name, tag in tags.items(): fr.set(base.declare('%' + name), tag)
    top = base
    try:
        resolve_all(blocks, top)
        kids = []
        for b in blocks: kids += b.full_nodes(fr)
        kids.append(N(text = '\n' + '\n' * trailing))
        if tree: return ('ok', kids)
        return ('ok', document(kids))
    except ModelError as ex:
        return ('err', ex.kind)
    except Unspecified:
        raise
    except Exception as ex:
        from mc.hy import kind_of
        return ('err', kind_of(ex))
    except BaseException as ex:
        from mc.hy import Fatal
        if not isinstance(ex, Fatal): raise
        return ('fatal', str(ex))
