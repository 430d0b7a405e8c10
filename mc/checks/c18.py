"""C18: library text tags and functions meet their documented contract."""
import itertools, sys, importlib
from mc import hy, util
from mc.core import Violation
from hypertag import Tag, TagFunction

ID = 'C18'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of all strings up to a length over an adversarial alphabet, all grids of parameters and all short sequences, for every library function and every form of calling it; oracle: specifications written from the documentation; tags against functions on all bodies of a bounded family in all contexts'
NOTE = ('merge, dedent, unique, inline, lower, upper, crop: all strings of up to 7-9 characters; crop with the full grid of parameters; cycle and changes: all tuples of sequences of up to 4 elements, of several iterable types; '
        'every function in all call forms inside scripts; every tag around a family of bodies in a family of contexts')
RULE = 'strings x parameters x call form; bodies x tags x contexts'
ASSUMPTIONS = ['blank lines inside of text given to dedent are left unspecified, the documentation speaks of indentation only']

FUN = {}
def lib(name):
    if not FUN:
        m = importlib.import_module('hypertag.builtins')
        for n in 'merge dedent unique inline lower upper doctype crop truncate cycle changes'.split(): FUN[n] = getattr(m, n)
    return FUN[name]

# ----- specifications
def spec_merge(s): return ' '.join(s.split())
def spec_unique(s, strip = True):
    out = []
    for l in s.splitlines():
        if strip:
            l = l.strip()
            if not l: continue
        if l not in out: out.append(l)
    return '\n'.join(out)
def spec_inline(s): return ''.join('&#10;' if c == '\n' else c for c in s)
def nonblank(s): return [l for l in s.split('\n') if l.strip()]
def spec_dedent(s): return [l.lstrip() for l in nonblank(s)]
def spec_dedent0(s):
    ls = nonblank(s)
    if not ls: return []
    n = 0
    while all(len(l) > n for l in ls) and ls[0][n].isspace() and len({l[n] for l in ls}) == 1: n += 1
    return [l[n:] for l in ls]
def spec_crop(s, length = 255, end = '...', killwords = False, maxdrop = 10, leeway = 0):
    if len(s) <= length + leeway: return s
    keep = length - len(end)
    cut = s[:keep]
    if not killwords and ' ' in cut:
        words = cut[:cut.rindex(' ')]                       # the last word is discarded
        if keep - len(words) <= maxdrop: cut = words        # ... unless too much would be lost only due to this
    return cut + end
def spec_cycle(seqs, stop):
    if not seqs: return []
    seqs = [list(s) for s in seqs]
    n = len(seqs[0]) if stop == 'first' else max(map(len, seqs)) if stop == 'longest' else None
    out, i = [], 0
    while (n is None or i < n) and i < LIMIT:
        if not all(seqs): break
        out.append(tuple(s[i % len(s)] for s in seqs))
        i += 1
    return out
LIMIT = 9
def spec_changes(seq, first = True):
    out = []
    for i, v in enumerate(seq): out.append((v, first if i == 0 else v != seq[i - 1]))
    return out

def words(alpha, n):
    for k in range(n + 1):
        for t in itertools.product(alpha, repeat = k): yield ''.join(t)
ALPHA = {'merge': ('a \n\t', 'ab \u00a0'), 'dedent': ('a \n\t',), 'unique': ('ab \n', 'A\t\n'), 'inline': ('a\n<', '\n&#1'), 'lower': ('aB ß', '<İ\n'), 'upper': ('aB ß', '<ŉ\n')}
CROP = list(itertools.product(range(0, 10), ('...', '', '.', '--'), (False, True), (0, 1, 3, 10), (0, 1, 3)))
DEFCROP = [{}, {'length': 5}, {'length': 4, 'end': ''}, {'killwords': True, 'length': 6}, {'maxdrop': 0, 'length': 8}, {'leeway': 2, 'length': 5}]

def direct_cases(q):
    for name, alphas in ALPHA.items():
        for a in alphas:
            n = {2: 9, 3: 8, 4: 7 if q else 9, 5: 6}[len(a)]
            for pre in words(a, 2): yield ('direct', name, a, pre, n)
def crop_cases(q):
    for alpha, n in (('a ', 8 if q else 11), ('ab', 5)):
        for pre in itertools.product(alpha, repeat = 3): yield ('crop', alpha, ''.join(pre), n)
SEQ = [()] + [tuple('abcd'[:k]) for k in (1, 2, 3, 4)]
def cycle_cases(q):
    for k in range(0, 4):
        for seqs in itertools.product(SEQ if k < 3 or not q else SEQ[:4], repeat = k):
            for stop in ('default', 'first', 'longest', False): yield ('cycle', seqs, stop)
def changes_cases(q):
    for k in range(0, 5 if q else 7):
        for seq in itertools.product((1, 'a', None, True) if k < 5 else (1, 2, None), repeat = k): yield ('changes', seq)

# ----- call forms
class Out(list):
    def __call__(self, *values):
        for v in values: self.append(v)
        return ''
STRINGS = ['', 'a', ' a ', 'a  b\n c', '\n  a\n    b\n  a\n', 'Ab\t<c>\nAB', 'one two three four five', 'a&b\n\n\nx', '  x\n y', 'ÀÉ ß', ' \n ', 'x' * 20, '{x} $y {{', 'a b\na b\n a b']
ARGS = {'merge': [''], 'dedent': ['', 'full=False', 'full=True', 'False', 'True'], 'unique': ['', 'strip=False', 'strip=True', 'False'], 'inline': [''], 'lower': [''], 'upper': [''],
        'crop': ['', '10', 'length=5', '6 end=\'\'', '8 \'.\' True', 'length=9 maxdrop=0', '7 leeway=4', '12 killwords=True', 'length=10 end=\'--\' killwords=False maxdrop=2 leeway=1'], 'doctype': ['', "'svg'", 'value=\'x y\'']}
ARGS['truncate'] = ARGS['crop']
def py(args):
    def f(*a, **k): return a, k
    return eval('f(%s)' % ', '.join(args.split(' ')) if "'x y'" not in args else 'f(value="x y")', {'f': f}) if args else ((), {})
def comma(args): return args.replace(' ', ', ') if "'x y'" not in args else args
def spec(name, s, a, k):
    if name == 'doctype': return '<!DOCTYPE %s>' % (list(a) + [k.get('value', 'html')])[0]
    if name == 'merge': return spec_merge(s)
    if name == 'unique': return spec_unique(s, *a, **k)
    if name == 'inline': return spec_inline(s)
    if name in ('crop', 'truncate'): return spec_crop(s, *a, **k)
    if name == 'lower': return s.lower()
    if name == 'upper': return s.upper()
    return lib(name)(s, *a, **k)
def forms_cases(q):
    for name in ARGS:
        for args in ARGS[name]:
            for s in STRINGS: yield ('forms', name, args, s)

# ----- tags around bodies
BODY = [
    ['| text  x'], ['| a', '| a', '|  b'], ['| multi', '    line', '  line'], ['p | x', 'p | x'], ['div', '  p', '    | Deep <x>', '  | z'], ['p | x', '', 'p | y', ''], ['/ <b>  B</b>', '! {x}'],
    ['if 1', '  | yes', '| no'], ['for i in [1, 2, 1]', '  li | it $i'], ['h', '  b | in', '| after'], ['-- comment'], ['merge', '  | q', '  | w', '| e'], ['| a', 'upper', '  p | b'], ['pre : inline', '  | l1', '  | l2', '| x'],
    ['p', '  | a', '... b | c'], ['div', '  < p', '    | x'], ['| {s}', '| $s'], ['try', '  | {1/0}', 'else', '  | caught'], ['br', 'hr class="X"', '| Y'], ['@c'],
]
INLINE = ['| text  Text', '/ <b>  X</b>', '! {a}  b', '| {s} x', ': p | a  B', ': b : i / x', ': merge | a  b', '@c', ': h | q', ': p : upper | xy', '|', ': br']
TAGS = [(n, a) for n in ARGS for a in ARGS[n]]
def flat(l, by): return [by + x if x else x for x in l]
CTXS = [lambda b: b, lambda b: ['div'] + flat(b, '  '), lambda b: ['div', '  p | before'] + flat(['section'] + flat(b, '    '), '  ') + ['| after'], lambda b: ['for j in [1, 2]'] + flat(b, '  '),
        lambda b: ['h'] + flat(b, '  '), lambda b: ['%t'] + flat(b, '  ') + ['t', 'ul : t'], lambda b: ['unique'] + flat(b, '  '), lambda b: ['| x'] + ['... ' + b[0]] + b[1:], lambda b: ['div', '  < ' + b[0]] + flat(b[1:], '  ')]
def bodies_cases(q):
    for t in range(len(TAGS)):
        for c in range(len(CTXS)):
            for b in range(len(BODY)): yield ('tag', t, c, b, False)
            for b in range(len(INLINE)): yield ('tag', t, c, b, True)
def loops_cases(q):
    for seq in itertools.chain.from_iterable(itertools.product('aab'[1:], repeat = k) for k in range(5)):
        for seq2 in ((1,), (1, 2), (1, 2, 3), ()):
            yield ('loop', seq, seq2)

def spaces(tier):
    q = tier == 'quick'
    return [('strings', lambda: direct_cases(q)), ('crop', lambda: crop_cases(q)), ('cycle', lambda: cycle_cases(q)), ('changes', lambda: changes_cases(q)),
            ('call forms', lambda: forms_cases(q)), ('loops', lambda: loops_cases(q)), ('tags around bodies', lambda: bodies_cases(q))]

def prepare(tier):
    hy.runtime()
    util.warm(sys.modules[__name__], tier, 10, 20)

def bad(what, key, *a): raise Violation(what % a, key = key)

def iters(seq):
    yield list(seq)
    yield tuple(seq)
    yield iter(list(seq))
    yield (x for x in seq)
    yield ''.join(map(str, seq)) if all(isinstance(x, str) and len(x) == 1 for x in seq) else list(seq)
    yield dict.fromkeys(seq) if len(set(map(repr, seq))) == len(seq) and len(set(seq)) == len(seq) else list(seq)

def run(case, cov):
    kind = case[0]
    cov.step()
    if kind == 'direct':
        _, name, alpha, pre, n = case
        f = lib(name)
        for w in (words(alpha, n - len(pre)) if len(pre) == 2 else ['']):
            s = pre + w
            cov.execs += 1
            got = f(s)
            if name == 'dedent':
                if [l for l in nonblank(got)] != spec_dedent(s) or any(l[:1].isspace() for l in got.split('\n') if l): bad('dedent(%r) = %r', 'dedent' + s, s, got)
                if '\n\n' not in s and not any(l.isspace() for l in s.split('\n')) and s[:1] != '\n' and s[-1:] != '\n' and got != '\n'.join(spec_dedent(s)): bad('dedent(%r) = %r', 'dedent' + s, s, got)
                got = f(s, full = False)
                if nonblank(got) != spec_dedent0(s) or len(got.split('\n')) != len(s.split('\n')): bad('dedent(%r, full=False) = %r', 'dedent0' + s, s, got)
                if f(s, True) != f(s) or f(s, False) != got: bad('dedent(%r): positional', 'dedentp' + s, s)
            elif name == 'unique':
                for strip in (True, False):
                    got = f(s, strip)
                    if got != spec_unique(s, strip): bad('unique(%r, %r) = %r, expected %r', 'unique' + s, s, strip, got, spec_unique(s, strip))
                if f(s) != f(s, strip = True): bad('unique(%r): default strip', 'unique' + s, s)
            else:
                if got != spec(name, s, (), {}): bad('%s(%r) = %r, expected %r', name + s, name, s, got, spec(name, s, (), {}))
        cov.state((name, pre))
    elif kind == 'crop':
        _, alpha, pre, n = case
        f = lib('crop')
        for w in words(alpha, n - len(pre)):
            s = pre + w
            for p in CROP:
                length, end, killwords, maxdrop, leeway = p
                cov.execs += 1
                try: got = f(s, length, end, killwords, maxdrop, leeway)
                except Exception as ex: got = None
                if length < len(end):
                    if got is not None and len(got) > length + leeway: bad('crop(%r, *%r) = %r, longer than allowed', 'crop %r %r' % (s, p), s, p, got)
                    continue
                want = spec_crop(s, *p)
                if got != want: bad('crop(%r, *%r) = %r, expected %r', 'crop %r %r' % (s, p), s, p, got, want)
            for k in DEFCROP:
                cov.execs += 1
                for g in ('crop', 'truncate'):
                    got = lib(g)(s * 3, **k)
                    if got != spec_crop(s * 3, **k): bad('%s(%r, **%r) = %r, expected %r', 'crop %r %r' % (s, k), g, s * 3, k, got, spec_crop(s * 3, **k))
        s = 'word ' * 60
        for m in range(250, 265):
            if lib('crop')(s[:m]) != spec_crop(s[:m]): bad('crop of %d characters with defaults = %r', 'crop %d' % m, m, lib('crop')(s[:m]))
        cov.state((alpha, pre))
    elif kind == 'cycle':
        _, seqs, stop = case
        f = lib('cycle')
        for forms in zip(*[list(iters(s)) for s in seqs]) if seqs else [()]:
            cov.execs += 1
            got = list(itertools.islice(f(*forms, **({} if stop == 'default' else {'stop': stop})), LIMIT))
            want = spec_cycle(seqs, 'first' if stop == 'default' else stop)
            if got != want: bad('cycle(%r, stop=%r) = %r, expected %r', 'cycle %r %r' % (seqs, stop), seqs, stop, got, want)
        try: list(f([1], nope = 1))
        except Exception: pass
        else: bad('cycle() accepts an unknown argument%s', 'cycle arg', '')
        cov.state((seqs, stop))
    elif kind == 'changes':
        _, seq = case
        f = lib('changes')
        for form in iters(seq):
            for first in ('default', True, False, None, 'x'):
                cov.execs += 1
                form2 = list(seq) if hasattr(form, '__next__') and first != 'default' else form
                got = list(f(form2) if first == 'default' else f(form2, first) if first != 'x' else f(form2, first = first))
                want = spec_changes(seq, True if first == 'default' else first)
                if [(v, c) for v, c in got] != want or [type(v) for v, _ in got] != [type(v) for v, _ in want]: bad('changes(%r, %r) = %r, expected %r', 'changes %r' % (seq,), seq, first, got, want)
        cov.state(seq)
    elif kind == 'forms':
        _, name, args, s = case
        a, k = py(args)
        want = spec(name, s, a, k)
        c = comma(args)
        both = 's' + (', ' + c if c else '')
        forms = ['%s(%s)' % (name, both), 's:%s' % name + ('(%s)' % c if c else ''), 's : %s(%s)' % (name, c), '%%%s(%s)' % (name, both), 's:%%%s(%s)' % (name, c), 'f(%s)' % both, '%%t(%s)' % both, 's:f(%s)' % c, 'm.%s(%s)' % (name, both)]
        out = Out()
        src = ['context $s, $out, $m', 'from hypertag.builtins import $%s as f, %%%s as t' % (name, name)] + ['$ out(%s)' % x for x in forms]
        res = hy.render('\n'.join(src) + '\n', s = s, out = out, m = importlib.import_module('hypertag.builtins'))
        cov.execs += len(forms)
        cov.sample('\n'.join(src))
        if res[0] != 'ok' or list(out) != [want] * len(forms): bad('%s of %r with %r: expected %r in all call forms, got %r %r\n%s', 'forms %s %s %r' % (name, args, s), name, s, args, want, res, list(out), '\n'.join(src))
        for t in (name, 't'):
            src = ['context $s', 'from hypertag.builtins import %%%s as t' % name, '%s %s / $s' % (t, args)]
            got = hy.render('\n'.join(src), s = s)
            cov.execs += 1
            if got != ('ok', want): bad('tag %s %s on %r gives %r, the function %r\n%s', 'tag %s %s %r' % (t, args, s), t, args, s, got, want, '\n'.join(src))
        cov.state((name, args, s))
    elif kind == 'loop':
        _, seq, seq2 = case
        src = ('context $seq, $seq2\nfor x, y in cycle(seq, seq2)\n  | $x$y\nelse\n  | none\nfor x, y in cycle(seq, seq2, stop=\'longest\')\n  | $x$y\nelse\n  | none\n'
               'for v, c in changes(seq)\n  if c\n    | new $v\n  else\n    | same $v\nfor v, c in changes(seq, first=False)\n  | $v $c\nfor x in cycle(seq)\n  | {x[0]}\n. | end')
        want = [x + str(y) for x, y in spec_cycle((seq, seq2), 'first')] or ['none']
        want += [x + str(y) for x, y in spec_cycle((seq, seq2), 'longest')] or ['none']
        want += [('new ' if c else 'same ') + v for v, c in spec_changes(seq)] + ['%s %s' % p for p in spec_changes(seq, False)] + list(seq) + ['end']
        got = hy.render(src, seq = list(seq), seq2 = list(seq2))
        cov.execs += 1
        cov.sample(src)
        if got != ('ok', '\n'.join(want)): bad('%r %r: expected %r, got %r\n%s', 'loop %r' % (case,), seq, seq2, '\n'.join(want), got, src)
        cov.state(case)
    else:
        _, t, c, b, inl = case
        name, args = TAGS[t]
        a, k = py(args)
        seen = []
        def cap(text):
            seen.append(text)
            return spec(name, text, a, k)
        def block(tag, args):
            if inl: return ['%s %s %s' % (tag, args, INLINE[b])]
            return ['%s %s' % (tag, args)] + flat(BODY[b], '  ')
        def prog(tag, args):
            body = CTXS[c](block(tag, args))
            if any('@c' in l for l in body): body = ['%k @c'] + flat(body, '  ') + ['k', '  | emb  x', '  b | y']
            return ['context $s, %cap', '%h @b', '  div', '    @b'] + body
        src, ref = '\n'.join(prog(name, args)) + '\n', '\n'.join(prog('cap', '')) + '\n'
        tags = {'cap': TagFunction(cap)}
        got = hy.render(src, s = 'S <v>\n  w', __tags__ = tags)
        want = hy.render(ref, s = 'S <v>\n  w', __tags__ = tags)
        cov.execs += 2
        cov.sample(src)
        cov.state(got)
        if want[0] != 'ok' or not seen: 
            bad('reference fails: %r\n%s', 'ref ' + ref, want, ref)
        if got != want: bad('a tag differs from the same-named function on the rendered text %r: tag %r, function %r\n%s', src, seen, got, want, src)
