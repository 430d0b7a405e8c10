"""C03: layout of the output."""
import itertools
from mc import hy, lang
from mc.lang import *
from mc.gen import forests
from mc.util import compare
from mc.core import Violation, Coverage

ID = 'C03'
LEVEL = 'model_checking'
RULE = ('every ordered forest of blocks up to the stated size over the stated block kinds, layout modifiers (none, ..., <), margins and indentation '
        'units is rendered and compared with the layout model; a second part renders each program shifted and with other indentation strings and '
        'compares with the original output; programs whose layout the documentation leaves open are counted as unspecified_skipped')
ASSUMPTIONS = ['layout of a blank line that opens the body of a control block or hypertag, and of "..." before a control block, is not specified']
TECHNIQUE = 'bounded exhaustive enumeration of scripts, executed on the real runtime in lock-step with a reference model of the layout'
NOTE = ('every script of the bounded grammar is rendered by the real code and must equal the model; trusts the layout model (mc/lang.py) and the bounds: '
        'up to 4 blocks (thorough: 5), 48 block kinds, indentation units of up to 8 characters')
QUICK_SECONDS = 300

M_SRC = r"'u\n  v\nw'"
PRELUDE = {
    'Hv': lambda: Def('Hv', body = [Text('h1'), Struct('i', [Text('h2')])]),
    'Hb': lambda: Def('Hb', bodyattr = 'body', body = [Struct('div', [Text('pre'), Embed('body')]), Text('post')]),
    'Hi': lambda: Def('Hi', bodyattr = 'body', inline = None, body = [Embed('body')]),
    'Hn': lambda: Def('Hn', bodyattr = 'body', body = [Struct('ul', [Struct('li', [Embed('body')])])]),
    'w': lambda: Assign('w', '[0, 1] * 9'),
    'm': lambda: Assign('m', M_SRC),
}

class B:
    """Builder of blocks from specifications (kind, mod, margin)."""
    def __init__(self, ind = '  '):
        self.n, self.ind, self.need = 0, ind, []
    def label(self):
        self.n += 1
        return 'abcdefghijklmnop'[self.n - 1]
    def use(self, name):
        if name not in self.need: self.need.append(name)
    def block(self, node):
        (kind, mod, margin), kids = node
        b = self.make(kind, kids)
        return b.at(margin, mod)
    def body(self, kids): return [self.block(k) for k in kids]
    def make(self, k, kids):
        i, x = self.ind, self.label()
        if k == 't':   return Text(x)
        if k == 't2':  return Text(x, '|', [('  ', x + '2'), ('  ', x + '3')])
        if k == 't3':  return Text(x, '|', [('    ', x + '2'), None, ('   ', x + '3')])
        if k == 't0':  return Text(None, '|', [('  ', x + '2'), None, None, ('    ', x + '3'), ('  ', x + '4')])
        if k == 't1':  return Text(x, '/', [('  ', x), ('     ', x + '2')], gap = '   ')
        if k == 'g':   return Text(x, '|', gap = '')
        if k == 'm':   self.use('m'); return Text([x, Emb('m'), x])
        if k == 'm2':  self.use('m'); return Text([x, Emb('m')], '/', [('    ', [Emb('m')]), ('  ', [x])])
        if k == '0':   return Text(None)
        if k == '/':   return Text('<i>&', '/')
        if k == '!':   return Text('{x} $y &', '!', [('   ', '{{z')])
        if k == 'c':   return Comment(tail = [('  ', 'more | p')])
        if k == '#':   return Comment(mark = '#')
        if k == '$':   return Assign('v', '1')
        if k == 'ev':  return Eval('1+1')
        if k == 'pass':return Pass()
        if k == 'df':  return Def('D', body = [Text('no'), Struct('p')], ind = i)
        if k == 'pi':  return Struct('p', inline = Text(x))
        if k == 'pi2': return Struct('p', inline = Text(x, '|', [('  ', x + '2'), ('      ', x + '3')]))
        if k == 'pi3': return Struct(['p', 'b'], inline = Text(x, '/', [(' ', x + '2'), None, ('  ', x + '3')]))
        if k == 'pic': return Struct('p', inline = Text(x), colon = True)
        if k == 'pm':  self.use('m'); return Struct('p', inline = Text([x, Emb('m'), x]))
        if k == 'pm2': self.use('m'); return Struct('p', inline = Text([Emb('m'), x], '|', [('     ', [x, Emb('m')])]))
        if k == 'br':  return Struct('br')
        if k == 'pt':  return Struct('p', tail = ' -- note')
        if k == 'Hv':  self.use('Hv'); return Struct('Hv')
        if k == 'u':   return Struct(['p', 'upper'], inline = Text(x))
        if k == '?':   return Opt(Struct('p', inline = Text(x)))
        if k == '?x':  return Opt(Struct('p', inline = Text([x, Emb('1/0')])))
        if k == 'ii':  return If([Branch('1', inline = Text(x))])
        if k == 'fi':  return For('q', '[1, 2]', inline = Text([x, Emb('q')]))
        if k == 'fi2': return For('q', '[1, 2]', inline = Text([x, Emb('q')], '|', [('  ', x)]))
        if k == 'cm':  return Struct('comment', self.body(kids), ind = i)
        body = lambda: self.body(kids)
        if k == 'p':   return Struct('p', body(), ind = i)
        if k == 'p:':  return Struct('p', body(), colon = True, ind = i)
        if k == 'ph':  return Struct('p', body(), head = Text(x), ind = i)
        if k == 'pb':  return Struct(['p', 'b'], body(), ind = i)
        if k == '.':   return Struct('.', body(), ind = i)
        if k == 'up':  return Struct('upper', body(), ind = i)
        if k == 'if':  return If([Branch('1', body())], ind = i)
        if k == 'for': return For('q', '[1, 2]', body(), ind = i)
        if k == 'try': return Try([Branch(None, body())], ind = i)
        if k == 'tre': return Try([Branch(None, [Text('lost'), Text([Emb('1/0')])]), Branch(None, body())], ind = i, colon = False)
        if k == 'ife': return If([Branch('0', [Text('no')])], Branch(None, body()), ind = i)
        if k == 'el':  return If([Branch('0', [Text('no')]), Branch('1', body())], ind = i)
        if k == 'fe':  return For('q', '[]', [Text('no')], els = Branch(None, body()), ind = i)
        if k == 'we':  return While('0', [Text('no')], els = Branch(None, body()), ind = i)
        if k == 'w1':  self.use('w'); return While('w.pop()', body(), ind = i)
        if k == '?b':  return Opt(Struct('p', body(), ind = i))
        if k == 'wh':
            return For('q', '[1]', [Struct('p', [Assign('w', '0'), While('w < 2', body() + [Assign('w', '1', '+')], ind = i)], ind = i)], ind = i)
        if k == 'Hb':  self.use('Hb'); return Struct('Hb', body(), ind = i)
        if k == 'Hi':  self.use('Hi'); return Struct('Hi', body(), ind = i)
        if k == 'Hn':  self.use('Hn'); return Struct(['Hn', 'Hb'], body(), ind = i) if self.use('Hb') is None else None
        raise KeyError(k)
    def program(self, forest):
        blocks = self.body(forest)
        return [PRELUDE[n]() for n in self.need] + blocks

LEAVES = ['t', 't2', 't3', 't0', 't1', 'g', 'm', 'm2', '0', '/', '!', 'c', '#', '$', 'ev', 'pass', 'df', 'pi', 'pi2', 'pi3', 'pic', 'pm', 'pm2', 'br', 'pt',
          'Hv', 'u', '?', '?x', 'ii', 'fi', 'fi2']
CONTS = ['p', 'p:', 'ph', 'pb', '.', 'up', 'if', 'for', 'try', 'tre', 'ife', 'wh', 'el', 'fe', 'we', 'w1', '?b', 'Hb', 'Hi', 'Hn', 'cm']
MODS = ['', '...', '<']

def deco(kinds, mods, margins): return list(itertools.product(kinds, mods, margins))

CONTROL = {'ii', 'fi', 'fi2', 'if', 'for', 'try', 'tre', 'ife', 'wh', '?', '?x', 'el', 'fe', 'we', 'w1', '?b'}
def specified(forest):
    for (kind, mod, margin), kids in forest:
        if mod == '...' and kind in CONTROL: return False
        if not specified(kids): return False
    return True

def space(n, leaves, conts, depth = 99):
    def it():
        for f in forests(n, leaves, conts, depth):
            if specified(f): yield ('tree', f)
    return it

def space_margins(n, leaves, conts, margins):
    """Forests without margins elsewhere than at one node."""
    def put(forest, at, m, counter):
        res = []
        for (kind, mod, _), kids in forest:
            i = counter[0]
            counter[0] += 1
            res.append(((kind, mod, m if i == at else 0), put(kids, at, m, counter)))
        return tuple(res)
    def it():
        for f in forests(n, leaves, conts):
            if not specified(f): continue
            for at in range(n):
                for m in margins: yield ('tree', put(f, at, m, [0]))
    return it

def compatible(tail):
    """Indentations of adjacent lines must be prefixes of each other."""
    t = [x for x in tail if x is not None]
    return all(a.startswith(b) or b.startswith(a) for a, b in zip(t, t[1:]))

def texts():
    """Text blocks: all shapes of headline and tail, after various headers."""
    for style in '|/!':
        for header in ['', 'p', 'a href="x":b', 'nest', 'if', 'e']:
            for gap in ['', ' ', '   ', '\t']:
                for head in [None, 'h']:
                    if head is None and gap != ' ': continue
                    for n in (0, 1, 2):
                        for tail in itertools.product([None, ' ', '  ', '   ', '     ', '        ', '\t', ' \t'], repeat = n):
                            if tail and (tail[-1] is None): continue
                            if not compatible(tail): continue
                            yield ('text', (style, header, gap, head, tail))

def texts3():
    for header in ['', 'p', 'nest']:
        for head in [None, 'h']:
            for tail in itertools.product([None, ' ', '  ', '    ', '      ', '          '], repeat = 3):
                if tail[-1] is None: continue
                yield ('text', ('|', header, ' ', head, tail))

SHAPES = [f for n in (1, 2) for f in forests(n, [(k, '', 0) for k in LEAVES], [(k, '', 0) for k in CONTS])]
UNITS = [' ', '   ', '    ', '        ', '\t', '\t\t', ' \t', '\t ']

def units(quick):
    def it():
        for f in SHAPES if not quick else SHAPES[::6]:
            for u in UNITS: yield ('unit', (f, u))
    return it

SHIFTS = [' ', '  ', '    ', '\t', '\t\t', '  \t', '\t  ']
def shifts(quick):
    def it():
        for f in SHAPES if not quick else SHAPES[1::5]:
            for s in SHIFTS: yield ('shift', (f, s))
    return it

def edges(quick):
  def it():
    for i, f in enumerate(SHAPES):
        if quick and i >= len(LEAVES + CONTS): 
            yield ('edge', (f, i % 2 + 1, i // 2 % 3))
            continue
        for lead in range(3):
            for trail in range(3): yield ('edge', (f, lead, trail))
  return it

def spaces(tier):
    q = tier == 'quick'
    sp = [('size 1, all kinds, modifiers, margins 0-3', space(1, deco(LEAVES, MODS, [0, 1, 2, 3]), deco(CONTS, MODS, [0, 1, 2, 3]))),
          ('text block shapes', texts),
          ('text block shapes with 3 tail lines', texts3),
          ('uniform shifts', shifts(q)),
          ('indentation units', units(q)),
          ('leading and trailing blank lines', edges(q)),
          ]
    K3 = ['t', 'pi', 't2', 'm', 'p', 'if', '.', 'Hb']
    if q:
        sp += [('size 2, all kinds, modifiers', space(2, deco(LEAVES, MODS, [0]), deco(CONTS, MODS, [0]))),
               ('size 3, 8 kinds, modifiers', space(3, deco(['t', 't2', 'pi'], MODS, [0]), deco(['p', '.', 'if', 'Hb'], MODS, [0]))),
               ('size 2, one margin', space_margins(2, deco(LEAVES, [''], [0]), deco(CONTS, [''], [0]), [1, 2])),
               ('size 3, one margin', space_margins(3, deco(['t', 'pi', 'm', 'c'], [''], [0]), deco(['p', 'if', 'Hb', 'ph'], [''], [0]), [1])),
               ('size 4, 5 kinds', space(4, deco(['t', 'pi'], [''], [0]), deco(['p', 'for', 'Hb'], [''], [0])))]
    else:
        sp += [('size 2, all kinds, modifiers, margins', space(2, deco(LEAVES, MODS, [0, 1, 2]), deco(CONTS, MODS, [0, 1, 2]))),
               ('size 3, all kinds', space(3, deco(LEAVES, [''], [0]), deco(CONTS, [''], [0]))),
               ('size 3, 12 kinds, modifiers', space(3, deco(['t', 't3', 'm', 'pi', 'pi2', 'Hv', 'br'], MODS, [0]), deco(['p', '.', 'if', 'Hb', 'Hi', 'ph', 'for', 'pb'], MODS, [0]))),
               ('size 3, one margin', space_margins(3, deco(['t', 't2', 'pi', 'm', 'c', 'br', 'df'], ['', '<'], [0]), deco(['p', 'if', 'Hb', 'ph', '.', 'for', 'Hi'], [''], [0]), [1, 2])),
               ('size 4, 7 kinds, modifiers', space(4, deco(['t', 'pi'], ['', '<'], [0]), deco(['p', 'for', 'Hb', 'Hi'], ['', '...'], [0]))),
               ('size 5, 5 kinds', space(5, deco(['t', 'pi'], [''], [0]), deco(['p', 'if', 'Hb'], [''], [0])))]
    return sp

def prepare(tier):
    cov = Coverage()
    for i, (name, it) in enumerate(spaces(tier)):
        for case in itertools.islice(it(), 0, 300, 6):
            try: run(case, cov)
            except Violation: pass

def run(case, cov):
    kind, arg = case
    if kind == 'tree':
        blocks = B().program(arg)
        compare(blocks, cov, what = 'layout')
    elif kind == 'text':
        style, header, gap, head, tail = arg
        t = Text(head, style, [x if x is None else (x, 't%d' % i) for i, x in enumerate(tail)], gap = gap)
        if header == '': b = t
        elif header == 'p': b = Struct('p', inline = t)
        elif header == 'nest': b = Struct('div', [Struct('p', inline = t), Text('z')])
        elif header == 'if': b = If([Branch('1', inline = t)])
        elif header == 'e': b = Struct('div', [If([Branch('0', [Text('n')])], Branch(None, [Text('w'), t]))], ind = '   ')
        else: b = Struct([T('a', K('href', '"x"')), T('b')], inline = t)
        compare([Text('0'), b, Text('9')], cov, what = 'text block')
    elif kind == 'unit':
        f, unit = arg
        blocks = B(unit).program(f)
        compare([Struct('section', blocks, ind = unit), Text('end')], cov, what = 'indentation unit')
    elif kind == 'shift':
        f, s = arg
        blocks = [Struct('section', B().program(f)), Text('end')]
        base = compare(blocks, cov, what = 'layout')
        if base is None: return
        src = lang.source(blocks, s)
        got = hy.render(src)
        cov.execs += 1
        exp = base
        if base[0] == 'ok':
            exp = ('ok', '\n'.join(s + l if l else l for l in base[1].split('\n')))
        if got != exp:
            raise Violation('script shifted by %r: expected %r, got %r for the script:\n%s' % (s, exp, got, src), key = src)
    elif kind == 'edge':
        f, lead, trail = arg
        blocks = B().program(f)
        src = '\n' * lead + lang.source(blocks, '', trail)
        base = compare(blocks, cov, what = 'layout')
        if base is None: return
        got = hy.render(src)
        exp = base
        if base[0] == 'ok': exp = ('ok', '\n' * lead + base[1] + '\n' * trail)
        cov.execs += 1
        if got != exp:
            raise Violation('%d leading and %d trailing blank lines: expected %r, got %r for the script:\n%s' % (lead, trail, exp, got, src), key = src)
