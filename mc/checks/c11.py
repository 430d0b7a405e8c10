"""C11: imports deliver exactly the requested symbols of the right module, executed once."""
import itertools, sys, os, shutil, tempfile, importlib
from mc import hy, lang, util
from mc.lang import *
from mc.core import Violation
from mc.util import compare
from hypertag import HyperHTML

ID = 'C11'
LEVEL = 'model_checking'
TECHNIQUE = ('bounded exhaustive enumeration of file arrangements, import forms, import graphs and module/importer programs, executed on the real loaders in scratch folders '
             'against reference models of path resolution, execution count and lexical environments')
NOTE = ('every subset of candidate files x every spelling of the path x how the importing script was given; modules of up to 3 blocks that bind their symbols in every way (assignments in blocks and branches, definitions, imports, loops) x importers that take one, several or all of them; all import graphs over 3 scripts incl. cycles and self-imports in 5 spelling assignments; '
        'all ordered selections of up to 2 symbols with renaming and wildcards; all programs of up to 4 blocks importing from a family of modules')
RULE = 'subsets of files x paths x referrers; graphs x spellings; sequences of imports x renders; symbol selections; module family x sequences of importer blocks'
ASSUMPTIONS = ['the files do not change while the runtime lives (modules are cached by design)', 'relative paths that leave the top-level package while the importing script has a file are left out']
CASE_SECONDS = 60

ROOT = [None]
def prepare(tier):
    ROOT[0] = tempfile.mkdtemp(prefix = 'mc-c11-')
    write_family()
    util.warm(sys.modules[__name__], tier, 10, 20)
    os.chdir('/')
def finish():
    if ROOT[0] and ROOT[0].startswith(tempfile.gettempdir() + os.sep + 'mc-c11-'): shutil.rmtree(ROOT[0], ignore_errors = True)

COUNT = [0]
class Sandbox:
    """Scratch folder of a case: site/ is on sys.path, cwd/ is the working folder; K, P, m ... get unique names."""
    def __enter__(self):
        COUNT[0] += 1
        self.uid = '%d_%d' % (os.getpid(), COUNT[0])
        self.dir = os.path.join(ROOT[0], 'c' + self.uid)
        for d in ('site', 'cwd', 'ref', 'ref/deep'): os.makedirs(os.path.join(self.dir, d))
        self.site = os.path.join(self.dir, 'site')
        sys.path.insert(0, self.site)
        importlib.invalidate_caches()
        os.chdir(os.path.join(self.dir, 'cwd'))
        self.modules = set(sys.modules)
        return self
    def __exit__(self, *_):
        os.chdir('/')
        sys.path.remove(self.site)
        for m in set(sys.modules) - self.modules:
            if self.uid in m: del sys.modules[m]
        for k in list(sys.path_importer_cache):
            if k.startswith(self.dir): del sys.path_importer_cache[k]
        shutil.rmtree(self.dir, ignore_errors = True)
    def name(self, n): return n + 'z' + self.uid
    def write(self, rel, text):
        path = os.path.join(self.dir, rel)
        os.makedirs(os.path.dirname(path), exist_ok = True)
        with open(path, 'w') as f: f.write(text)
        return path

# ---------------------------------------------------------------------------------------------------------------------------------
#  resolution

# candidates: where -> file (K: package folder, P: package of the importing script, m: the module)
CANDS = {
    'm': ['cwd/{m}.hy', 'ref/{m}.hy', 'site/{m}.py', 'site/{m}.hy'],
    'K.m': ['site/{K}/{m}.hy', 'cwd/{K}/{m}.hy', 'ref/{K}/{m}.hy', 'site/{K}/{m}.py', 'site/{K}/__init__.py', 'ref/{m}.hy'],
    'K.L.m': ['site/{K}/{L}/{m}.hy', 'cwd/{K}/{L}/{m}.hy', 'ref/{K}/{L}/{m}.hy', 'site/{K}/{L}/{m}.py', 'site/{K}/__init__.py', 'site/{K}/{L}/__init__.py'],
    'K.x.m': ['site/{K}/{m}.hy', 'site/{K}/__init__.py', 'site/{K}/x.py', 'ref/{K}/x/{m}.hy'],
    '.m': ['ref/{m}.hy', 'cwd/{m}.hy', 'site/{P}/{m}.py', 'site/{m}.py', 'site/{P}/{m}.hy', 'ref/../{m}.hy'],
    '.K.m': ['ref/{K}/{m}.hy', 'cwd/{K}/{m}.hy', 'site/{P}/{K}/{m}.py', 'site/{K}/{m}.py', 'ref/{m}.hy'],
    '..m': ['ref/../{m}.hy', 'ref/{m}.hy', 'site/{P}/{m}.py', 'cwd/../{m}.hy', 'site/{m}.py'],
    '..K.m': ['ref/../{K}/{m}.hy', 'ref/{K}/{m}.hy', 'site/{P}/{K}/{m}.py'],
    '...m': ['ref/../../{m}.hy', 'ref/../{m}.hy', 'site/{P}/{m}.py'],
}
# how the importing script is given
REFS = ['none', 'file', 'relfile', 'pkg', 'pkg2', 'file+pkg', 'file+pkg2', 'script', 'pkgscript']

def resolution(full):
    def it():
        for p in CANDS:
            for mask in itertools.product((0, 1), repeat = len(CANDS[p])):
                for r in REFS: yield ('res', (p, mask, r))
    return it

def expected(path, files, ref_dir, package, sb, init):
    """-> relative name of the file that must be imported, or None. `files`: set of existing normalised paths; init: set of importable packages"""
    def have(*parts):
        f = os.path.normpath(os.path.join(*parts))
        return f if f in files else None
    D = sb.dir
    if path[0] == '.':
        dots = len(path) - len(path.lstrip('.'))
        rest = path[dots:]
        if ref_dir:
            base = ref_dir
            for _ in range(dots - 1): base = os.path.dirname(base)
            f = have(base, rest.replace('.', '/') + '.hy')
            if f: return f
        if package is None: return None
        pk = package.split('.')
        if len(pk) < dots: return None
        pk = pk[:len(pk) - dots + 1]
        return have(D, 'site', *(pk + rest.split('.'))) or have(D, 'site', '/'.join(pk + rest.split('.')) + '.py')
    parts = path.split('.')
    if len(parts) > 1 and '.'.join(parts[:-1]) in init:
        f = have(D, 'site', '/'.join(parts) + '.hy')
        if f: return f
    f = have(D, 'cwd', '/'.join(parts) + '.hy')
    if f: return f
    if ref_dir:
        f = have(ref_dir, '/'.join(parts) + '.hy')
        if f: return f
    return have(D, 'site', '/'.join(parts) + '.py')

def run_resolution(arg, cov):
    p, mask, ref = arg
    with Sandbox() as sb:
        names = {n: sb.name(n) for n in 'KLPQm'}
        files = set()
        for cand, on in zip(CANDS[p], mask):
            if not on: continue
            rel = cand.format(**names)
            if rel.startswith('ref/'):
                # the folder of the importing script is two levels deep, so that parents stay inside the sandbox
                rel = 'ref/deep/' + rel[4:]
            text = ('w = %r\n' % cand) if cand.endswith('.py') else ("$w = '%s'\n" % cand.replace('{', '{{').replace('}', '}}'))
            files.add(os.path.normpath(sb.write(rel, text if '__init__' not in cand else '')))
        path = ''.join(names.get(c, c) for c in p)
        # packages that Python can import as regular packages
        init = set()
        for pk in (names['K'], names['K'] + '.' + names['L']):
            if os.path.normpath(os.path.join(sb.site, pk.replace('.', '/'), '__init__.py')) in files: init.add(pk)
        if names['K'] not in init and names['K'] + '.' + names['L'] in init: pass        # namespace package: still importable
        for f in ('P', 'Q'): pass
        os.makedirs(os.path.join(sb.site, names['P'], names['Q']), exist_ok = True)
        os.makedirs(os.path.join(sb.dir, 'ref/deep'), exist_ok = True)
        ref_dir, package, kw = None, None, {}
        refdir = os.path.join(sb.dir, 'ref/deep')
        if 'file' in ref or ref == 'script': ref_dir = refdir
        if ref in ('file', 'file+pkg', 'file+pkg2'): kw['__file__'] = os.path.join(refdir, 'main.hy')
        if ref == 'relfile': kw['__file__'] = os.path.join('..', 'ref', 'deep', 'main.hy')
        if ref in ('pkg', 'file+pkg'): package = names['P']
        if ref in ('pkg2', 'file+pkg2'): package = names['P'] + '.' + names['Q']
        if package: kw['__package__'] = package
        if ref_dir and package and len(package.split('.')) < len(p) - len(p.lstrip('.')): return     # beyond the top-level package: not promised
        script = 'from %s import $w\n| $w\n' % path
        if ref == 'script':
            sb.write('ref/deep/mid.hy', 'from %s import $w\n$v = w\n' % path)
            script, kw = 'from .mid import $v\n| $v\n', {'__file__': os.path.join(refdir, 'main.hy')}
        if ref == 'pkgscript':
            sb.write('site/%s/__init__.py' % names['P'], '')
            sb.write('site/%s/mid.hy' % names['P'], 'from %s import $w\n$v = w\n' % path)
            script, kw = 'from %s.mid import $v\n| $v\n' % names['P'], {}
            ref_dir, package = os.path.join(sb.site, names['P']), names['P']
            if p.startswith('..'): return
        importlib.invalidate_caches()
        exp = expected(path, files, ref_dir, package, sb, init)
        if exp is not None:
            rel = [c for c, on in zip(CANDS[p], mask) if on and os.path.normpath(os.path.join(sb.dir, ('ref/deep/' + c[4:] if c.startswith('ref/') else c).format(**names))) == exp][0]
            want = ('ok', rel + '\n')
        else: want = ('err', 'Import')
        rt = HyperHTML()
        for k in range(2):
            got = hy.render(script, rt, **kw)
            cov.execs += 1
            cov.step()
            if got != want:
                raise Violation('import of %s with files %r by a script given as %s (render %d): expected %r, got %r' % (p, [c for c, on in zip(CANDS[p], mask) if on], ref, k + 1, want, got), key = repr(arg))
        cov.state((p, ref, want))

# ---------------------------------------------------------------------------------------------------------------------------------
#  graphs of imports

def graphs(spellings, most = 9):
    def it():
        edges = [(i, j) for i in range(3) for j in range(3)]
        for mask in itertools.product((0, 1), repeat = 9):
            if sum(mask) > most: continue
            for sp in spellings: yield ('graph', (mask, sp))
    return it

def spelled(sp, i, j, sb, pkg):
    k = {'rel': 0, 'abs': 1, 'pkg': 2, 'mix': (i + j) % 3, 'mix2': (2 * i + j + 1) % 3}[sp]
    return ['.m%d' % j, 'm%d' % j, '%s.m%d' % (pkg, j)][k]

def run_graph(arg, cov):
    mask, sp = arg
    with Sandbox() as sb:
        pkg, cnt = sb.name('K'), sb.name('cnt')
        sb.write('site/%s.py' % cnt, 'log = []\ndef hit(n): log.append(n)\n')
        sb.write('site/%s/__init__.py' % pkg, '')
        for i in range(3):
            text = 'from %s import $hit\n' % cnt
            outs = [j for j in range(3) if mask[3 * i + j]]
            for j in outs: text += 'from %s import $v as v%d, %%t as t%d\n' % (spelled(sp, i, j, sb, pkg), j, j)
            text += "$ hit(%d)\n$v = '%d'" % (i, i) + ''.join(' v%d' % j for j in outs) + '\n%t\n  | t' + str(i) + '$v\n' + ''.join('  t%d\n' % j for j in outs)
            sb.write('site/%s/m%d.hy' % (pkg, i), text)
        importlib.invalidate_caches()
        # model
        log, cyc, done = [], [False], {}
        def visit(i, path):
            if i in path:
                cyc[0] = True
                return
            if i in done or cyc[0]: return
            for j in range(3):
                if mask[3 * i + j]: visit(j, path + [i])
            if cyc[0]: return
            log.append(i)
            done[i] = '%d' % i + ''.join(done[j] for j in range(3) if mask[3 * i + j])
        visit(0, [])
        if not cyc[0]:
            def text(i): return 't%d%s\n' % (i, done[i]) + ''.join(text(j) for j in range(3) if mask[3 * i + j])
            want = ('ok', done[0] + '\n' + text(0))
        else: want = ('err', 'Import')
        rt = HyperHTML()
        for k in range(2):
            spell = ['%s.m0' % pkg, '.m0', 'm0'][(k + len(sp)) % 3]
            kw = {} if spell.startswith(pkg) else {'__file__': os.path.join(sb.site, pkg, 'main.hy')}
            got = hy.render('from %s import $v, %%t\n| $v\nt\n' % spell, rt, **kw)
            cov.execs += 1
            cov.step(len(log) + 1)
            if got != want: raise Violation('import graph %r (spelling %s), render %d: expected %r, got %r' % (mask, sp, k + 1, want, got), key = repr(arg))
        got = list(sys.modules[cnt].log) if cnt in sys.modules else []
        if not cyc[0] and got != log: raise Violation('import graph %r (spelling %s): modules executed %r instead of %r' % (mask, sp, got, log), key = repr(arg))
        cov.state((mask, want))

# ---- sequences of import statements with different spellings, over several renders
SPELLS = ['.m', 'm', '{K}.m', '{K}.n>m', '.n>m', '.L.m', '.L.o>m', '{K}.L.o>m']
def sequences(n, full = True):
    def it():
        for s in itertools.product(range(len(SPELLS)), repeat = n):
            for cut in (range(n) if full else ((s[0] + s[1] + s[-1]) % n,)): yield ('seq', (s, cut))
    return it

def run_seq(arg, cov):
    s, cut = arg
    with Sandbox() as sb:
        K, cnt = sb.name('K'), sb.name('cnt')
        sb.write('site/%s.py' % cnt, 'log = []\ndef hit(n):\n  log.append(n)\n  return [n]\n')
        sb.write('site/%s/__init__.py' % K, '')
        sb.write('site/%s/L/__init__.py' % K, '')
        sb.write('site/%s/m.hy' % K, "from %s import $hit\n$obj = hit('m')\n" % cnt)
        sb.write('site/%s/L/m.hy' % K, "from %s import $hit\n$obj = hit('L')\n" % cnt)
        sb.write('site/%s/n.hy' % K, 'from .m import $obj\n')
        sb.write('site/%s/L/o.hy' % K, 'from ..m import $obj\n')
        importlib.invalidate_caches()
        lines, want, order = [], [], []
        for k, i in enumerate(s):
            path = SPELLS[i].format(K = K).split('>')[0]
            lines.append('from %s import $obj as o%d' % (path, k))
            mod = 'L' if SPELLS[i] == '.L.m' else 'm'
            want.append(mod)
            if mod not in order: order.append(mod)
        rt = HyperHTML()
        seen = []
        scripts = [lines[:cut], lines[cut:]] if cut else [lines]
        k0 = 0
        for ls in scripts:
            script = 'context $seen\n' + '\n'.join(ls) + '\n' + ''.join('$ seen.append(o%d)\n' % (k0 + i) for i in range(len(ls)))
            got = hy.render(script, rt, __file__ = os.path.join(sb.site, K, 'main.hy'), seen = seen)
            cov.execs += 1
            cov.step(len(ls))
            if got[0] != 'ok': raise Violation('imports %r: %r' % (ls, got), key = repr(arg))
            k0 += len(ls)
        log = sys.modules[cnt].log
        names = [o[0] for o in seen]
        if names != want: raise Violation('imports %r: symbols of modules %r instead of %r' % (lines, names, want), key = repr(arg))
        if log != order: raise Violation('imports %r: modules executed %r instead of %r' % (lines, log, order), key = repr(arg))
        for a in seen:
            for b in seen:
                if a[0] == b[0] and a is not b: raise Violation('imports %r: different objects of one module' % lines, key = repr(arg))
        cov.state((s, cut))

# ---------------------------------------------------------------------------------------------------------------------------------
#  binding of symbols

SYMS = ['$x', '%x', '$y', '%t', '$_p', '%_q', '$z', '$len', '%p', '$imp', '%dtt', '$loc', '$cond', '$unb']
def selections(n, full):
    items = [s for s in SYMS if s not in ('%dtt',)] + ['*', '$x as y', '%x as t', '$x as x2', '%t as p', '$_p as pub', '%_q as pub', '%t as x', '$y as len', '$none', '%none', '$none as x']
    def it():
        for kind in ('hy', 'py'):
            for k in range(1, n + 1):
                for s in itertools.product(items, repeat = k):
                    for split in ((0, 1) if k > 1 else (0,)):
                        for pre in ((0, 1) if k == 1 or full else (0,)): yield ('sel', (kind, s, split, pre))
    return it

HY_MOD = """from .lib import $imp
$x = 'X'
%x | tX
$y, z = 'Y', 'Z'
%t | tT
$_p = 'P'
%_q | tQ
$len = 'L'
%p | tP
div
  $loc = 1
  %dtt | no
if 1:
  $cond = 'C'
if 0:
  $unb = 1
"""
PY_MOD = """from hypertag import Tag
class T(Tag):
    def __init__(self, name, text): self.name, self.text = name, text
    def expand(self, body, attrs, kwattrs): return self.text
x, y, z, _p, len, imp, cond = 'X', 'Y', 'Z', 'P', 'L', 'I', 'C'
__tags__ = {'x': T('x', 'tX'), 't': T('t', 'tT'), '_q': T('_q', 'tQ'), 'p': T('p', 'tP')}
"""
TABLE = {'$x': 'X', '%x': 'tX', '$y': 'Y', '$z': 'Z', '%t': 'tT', '$_p': 'P', '%_q': 'tQ', '$len': 'L', '%p': 'tP', '$imp': 'I', '$cond': 'C'}
PROBES_V = ['x', 'y', 'z', '_p', 'len', 'imp', 'cond', 'x2', 'pub', 'loc', 'unb', 'none', 't', 'T', 'Tag']
PROBES_T = ['x', 't', '_q', 'p', 'pub', 'dtt', 'none', 'y']

FAM = {}
def write_family():
    """Files that do not change: modules of the selection and isolation spaces."""
    d = os.path.join(ROOT[0], 'fam')
    os.makedirs(d)
    FAM['dir'] = d
    FAM['name'] = 'famz%d' % os.getpid()
    def w(name, text):
        with open(os.path.join(d, name), 'w') as f: f.write(text)
    w('lib.hy', "$imp = 'I'\n")
    w('hy.hy', HY_MOD)
    site = os.path.join(ROOT[0], 'site')
    os.makedirs(site)
    sys.path.insert(0, site)
    with open(os.path.join(site, FAM['name'] + '.py'), 'w') as f: f.write(PY_MOD)
    for name, mod in MODS.items():
        w(name + '.hy', lang.source(mod(TABLES)))
        try: TABLES[name] = lang.module_table(mod(TABLES))
        except lang.ModelError as ex: raise Exception('bad family module %s: %s' % (name, ex))

def run_sel(arg, cov):
    kind, items, split, pre = arg
    path = '.hy' if kind == 'hy' else FAM['name']
    kw = {'__file__': os.path.join(FAM['dir'], 'main.hy')}
    bound = {}
    if pre: bound.update({'$x': 'main', '%t': 'main'})
    err = None
    for it in items:
        if it == '*': bound.update({s: v for s, v in TABLE.items() if s[1] != '_'})
        else:
            sym, _, new = it.partition(' as ')
            if sym not in TABLE:
                err = ('err', 'Import')
                break
            bound[sym[0] + new if new else sym] = TABLE[sym]
    imp = ('from %s import %s\n' % (path, ', '.join(items))) if not split else ''.join('from %s import %s\n' % (path, i) for i in items)
    head = ("$x = 'main'\n%t | main\n" if pre else '') + imp
    rt = hy.runtime()
    if err:
        probes = [('| ok', None)]
    else: probes = [('| $%s' % v, '$' + v) for v in PROBES_V] + [(t, '%' + t) for t in PROBES_T] + [('div\n  | ${len}', '$len')]
    # names that must be visible are probed in one script, the others one by one
    vis = [(src, sym) for src, sym in probes if sym in bound and not src.startswith('div')]
    want = ('ok', ''.join(bound[sym] + '\n' for src, sym in vis))
    script = head + '\n'.join(src for src, sym in vis) + '\n'
    if err: script, want = head + '| ok\n', err
    got = hy.render(script, rt, **kw)
    cov.execs += 1
    cov.step(len(items))
    cov.sample(script)
    if got != want: raise Violation('imported symbols: expected %r, got %r for\n%s' % (want, got, script), key = script)
    cov.state(sorted(bound.items()))
    if err or len(items) > 1 and '*' not in items and pre: return
    for src, sym in probes:
        if sym in bound or sym in ('$len',): continue
        if sym in ('$T', '$Tag') and kind == 'py' and '*' in items: continue
        w = ('err', 'Name') if sym[0] == '$' else ('err', 'UndefinedTag')
        if sym == '%p': w = ('ok', '<p></p>\n')
        got = hy.render(head + src + '\n', rt, **kw)
        cov.execs += 1
        if got != w: raise Violation('%s must not be imported: expected %r, got %r for\n%s' % (sym, w, got, head + src), key = head + src)

# ---------------------------------------------------------------------------------------------------------------------------------
#  isolation of environments

def tx(*p): return Text(list(p))
TABLES = {}
def imp(path, items, tables): return Import(path, items, tables[path[1:]])
MODS = {'a': None,
    'b': lambda T_: [Def('h', [], body = [tx('mh')]), Def('t', ['a'], body = [Assign('x', 'a'), tx(Emb('x')), Struct('h')]), Def('h', [], body = [tx('mh2')]), Def('u', [('x', "'d'")], 'b', [Assign('x', Ex("x 'q'", "str(x) + 'q'")), tx(Emb('x')), Embed('b')]),
                     Assign('x', '5')],
    'c': lambda T_: [imp('.a', ['%t as at', '$x as y'], T_), Def('t', [], body = [Struct('at'), Struct(T('at', Pos("'c'"))), tx(Emb('y'))]), Assign('x', Ex("y 'c'", "y + 'c'")), Def('p', [], 'b', [tx('P'), Embed('b')]),
                     Def('u', [], 'b', [Struct('p', [Embed('b')])])],
    'd': lambda T_: [imp('.c', ['*'], T_), imp('.b', ['%h'], T_), Def('uu', [], 'b', [Struct('u', [Struct('h'), Embed('b'), Struct('t')])]), Assign('x', Ex("x 'd'", "x + 'd'"))],
}
MODS['a'] = lambda T_: [Assign('x', "'mx'"), Def('t', [('a', 'x')], body = [tx('t', Emb('a'), Emb('x'))]), Assign('x', Ex("x 'end'", "x + 'end'")), Def('u', [], 'b', [Struct('p', [Embed('b'), Struct('t')])])]
MODS['e'] = lambda T_: [Def('t', [('n', '2')], body = [For('i', 'range(n)', [tx(Emb('i')), Assign('k', 'i')]), Opt(tx(Emb('k'))), If([Branch('n == 2', [Assign('z', 'n')])]), Try([Branch(None, [tx(Emb('z'))]), Branch(None, [tx('unbound')])])]),
                        Assign('x', "'ex'"), Def('u', [], 'b', [Def('v', [], body = [tx('v', Emb('x'))]), Struct('v'), Embed('b')])]

MAIN = ['x=', 'h', 'pdef', 't', 'tk', 'u', 'ut', 'texpr', '$x', 'for t', 'div imp', 'div x t', 'imp t', 'imp *', 'imp x', 'imp t as p', 'imp2', 'hyper', 'p']
def mains(n, mods, items, firsts = ('imp *', 'imp t', 'imp tu', 'imp ux')):
    def it():
        for m in mods:
            for first in firsts:
                for s in itertools.product(items, repeat = n): yield ('iso', (m, (first,) + s))
    return it

def piece(k, m, other):
    arg = "'k'" if m in 'abcd' else '0'
    targs = [] if m in 'acde' else [Pos("'q'")]
    I = lambda mod, *items: Import('.' + mod, list(items), TABLES[mod])
    if k == 'x=': return Assign('x', "'main'")
    if k == 'h': return Def('h', [], body = [tx('main h')])
    if k == 'pdef': return Def('p', [], 'b', [tx('main p'), Embed('b')])
    if k == 't': return Struct(T('t', *targs))
    if k == 'tk': return Struct(T('t', Pos(arg))) if m in 'abe' else Struct('t')
    if k == 'u': return Struct('u', [tx('body')])
    if k == 'ut': return Struct('u', [Struct(T('t', *targs)), Struct('p', inline = tx('in'))])
    if k == 'texpr': return Text([Emb(Ex('%%t(%s)' % ("None, 'q'" if m == 'b' else ''), '_tag_t(%s)' % ("None, 'q'" if m == 'b' else '')), 's')], '/')
    if k == '$x': return tx('x=', Emb('x'))
    if k == 'for t': return For('x', '[1, 2]', [Struct(T('t', *targs)), tx(Emb('x'))])
    if k == 'div imp': return Struct('div', [I(other, '*'), Struct('u', [tx('o')]), tx(Emb('x'))])
    if k == 'div x t': return Struct('div', [Assign('x', "'inner'"), Struct(T('t', *targs)), tx(Emb('x'))])
    if k == 'imp t': return I(m, '%t')
    if k == 'imp tu': return I(m, '%t', '%u')
    if k == 'imp ux': return I(m, '%u', '%t', '$x')
    if k == 'imp *': return I(m, '*')
    if k == 'imp x': return I(m, '$x')
    if k == 'imp t as p': return I(m, '%t as p') if 0 else Import('.' + m, [('%t', 'p')], TABLES[m])
    if k == 'imp2': return Import('.' + other, ['%u', ('$x', 'x')], TABLES[other])
    if k == 'hyper': return Def('t', [], body = [tx('own t')])
    if k == 'p': return Struct(T('p'), [tx('text')]) if m != 'b' else Struct('p', inline = tx('t'))
    raise Exception(k)

def run_iso(arg, cov):
    m, seq = arg
    other = {'a': 'b', 'b': 'a', 'c': 'e', 'd': 'a', 'e': 'c'}[m]
    blocks = [piece(k, m, other) for k in seq]
    src = lang.source(blocks)
    lang.steps.n = 0
    try: exp = lang.run_model(blocks)
    except lang.Unspecified:
        cov.count('unspecified_skipped')
        return
    rt = HyperHTML() if len(seq) < 4 and seq[0] == 'imp tu' else hy.runtime()
    for k in range(2 if len(seq) < 4 and seq[0] == 'imp tu' else 1):
        got = hy.render(src, rt, __file__ = os.path.join(FAM['dir'], 'main.hy'))
        cov.execs += 1
        cov.step(lang.steps.n)
        cov.state(exp)
        if got != exp: raise Violation('imported tags (module %s, render %d): expected %r, got %r for the script:\n%s\nmodule:\n%s' % (m, k + 1, exp, got, src, lang.source(MODS[m](TABLES))), key = m + src)

# ---------------------------------------------------------------------------------------------------------------------------------
#  loaders: a resolve function of HyLoader, the order of loaders in a runtime, loaders of the user

from hypertag.core.runtime import HyLoader, PyLoader, Loader

# what resolve(path, referrer) returns
RESOLVED = ['none', 'empty', 'file', 'missing', 'same', 'unnormal']
RES_PATHS = ['m', 'K.m', '.m']
RES_CANDS = {'m': ['cwd/{m}.hy', 'ref/{m}.hy', 'site/{m}.py'], 'K.m': ['site/{K}/{m}.hy', 'cwd/{K}/{m}.hy', 'ref/{K}/{m}.hy', 'site/{K}/{m}.py'], '.m': ['ref/{m}.hy', 'cwd/{m}.hy']}

def resolving():
    for p in RES_PATHS:
        for mask in itertools.product((0, 1), repeat = len(RES_CANDS[p])):
            for r in RESOLVED:
                for ref in (0, 1): yield ('resolve', (p, mask, r, ref))

def run_resolve(arg, cov):
    p, mask, how, ref = arg
    with Sandbox() as sb:
        names = {n: sb.name(n) for n in 'Km'}
        sb.write('site/%s/__init__.py' % names['K'], '')
        cnt = sb.name('cnt')
        sb.write('site/%s.py' % cnt, 'log = []\ndef hit(n): log.append(n)\n')
        here = {}
        for cand, on in zip(RES_CANDS[p], mask):
            if not on: continue
            rel = cand.format(**names)
            here[cand] = sb.write(rel, ('from %s import hit\nhit(%r)\nw = %r\n' % (cnt, cand, cand)) if cand.endswith('.py') else
                                       ("from %s import $hit\n$ hit('%s')\n$w = '%s'\n" % ((cnt,) + (cand.replace('{', '{{').replace('}', '}}'),) * 2)))
        # the module picked by resolve() imports its neighbour
        other = sb.write('else/where.txt', "from %s import $hit\nfrom .near import $n\n$ hit('resolved')\n$w = 'resolved ' n\n" % cnt)
        sb.write('else/near.hy', "$n = 'near'\n")
        value = {'none': None, 'empty': '', 'file': other, 'missing': os.path.join(sb.dir, 'else', 'nothing.hy'), 'same': here.get('cwd/{m}.hy' if p != 'K.m' else 'cwd/{K}/{m}.hy', None),
                 'unnormal': os.path.join(sb.dir, 'cwd', '..', 'else', '.', 'where.txt')}[how]
        calls = []
        main = os.path.join(sb.dir, 'ref', 'main.hy')
        def resolve(path, referrer):
            calls.append((path, referrer.filename))
            return value if path == names_path else None
        importlib.invalidate_caches()
        names_path = '.'.join(names.get(c, c) for c in p.split('.'))
        absolute = p[0] != '.'
        order = {'m': ['cwd/{m}.hy', 'ref/{m}.hy', 'site/{m}.py'], 'K.m': ['site/{K}/{m}.hy', 'cwd/{K}/{m}.hy', 'ref/{K}/{m}.hy', 'site/{K}/{m}.py'], '.m': ['ref/{m}.hy']}[p]
        found = [c for c in order if c in here and (ref or not c.startswith('ref/'))]
        if absolute and how in ('file', 'unnormal'): want = 'resolved near'
        elif absolute and how == 'same' and value: want = 'cwd/{m}.hy' if p == 'm' else 'cwd/{K}/{m}.hy'
        else: want = found[0] if found else None
        want = ('ok', want + '\n') if want else ('err', 'Import')
        rt = HyperHTML(loaders = [HyLoader(resolve = resolve), PyLoader])
        kw = {'__file__': main} if ref else {}
        for k in range(2):
            del calls[:]
            got = hy.render('from %s import $w\n| $w\n' % names_path, rt, **kw)
            cov.execs += 1
            cov.step()
            if got != want: raise Violation('import of %s when resolve() returns %s, with files %r, render %d: expected %r, got %r' % (p, how, sorted(here), k + 1, want, got), key = repr(arg))
            mine = [c for c in calls if c[0] == names_path]
            if absolute and mine != [(names_path, kw.get('__file__'))]: raise Violation('import of %s: resolve() called with %r' % (p, calls), key = repr(arg))
            if not absolute and mine: raise Violation('resolve() called for a relative path: %r' % (calls,), key = repr(arg))
        log = sys.modules[cnt].log if cnt in sys.modules else []
        once = [want[1].split()[0]] if want[0] == 'ok' else []
        if list(log) != once: raise Violation('import of %s when resolve() returns %s: modules executed %r instead of %r' % (p, how, log, once), key = repr(arg))
        cov.state((p, how, want))

# loaders of a runtime in every order; d: a loader of the user which keeps scripts in a dict, D: the same, given as a class, n: a loader that never finds anything
LOADERS = ['hy', 'HY', 'py', 'PY', 'd', 'D', 'n']
def orders(n):
    def it():
        for k in range(0, n + 1):
            for s in itertools.permutations(LOADERS, k):
                for mask in itertools.product((0, 1), repeat = 3): yield ('loaders', (s, mask))
    return it

def run_loaders(arg, cov):
    order, mask = arg
    with Sandbox() as sb:
        m = sb.name('m')
        if mask[0]: sb.write('ref/%s.hy' % m, "$w = 'hy'\n")
        if mask[1]: sb.write('site/%s.py' % m, "w = 'py'\n")
        importlib.invalidate_caches()
        calls = []
        class Mine(Loader):
            def load(self, path, referrer, runtime):
                calls.append((path, referrer.filename, runtime))
                if path != m or not mask[2]: return None
                if path not in self.cache: self.cache[path] = runtime.translate("$w = 'd'\n| not output\n")
                return self.cache[path]
        class Never(Loader): pass
        make = {'hy': HyLoader(), 'HY': HyLoader, 'py': PyLoader(), 'PY': PyLoader, 'd': Mine(), 'D': Mine, 'n': Never()}
        rt = HyperHTML(loaders = [make[o] for o in order]) if order else HyperHTML()
        kw = {'__file__': os.path.join(sb.dir, 'ref', 'main.hy')}
        eff = order or ('HY', 'PY')
        # without a loader of Python modules the standard symbols cannot be loaded
        if not any(o.lower() == 'py' for o in eff): want = ('err', 'Import')
        else:
            found = [o for o in eff if {'hy': mask[0], 'py': mask[1], 'd': mask[2], 'n': 0}[o.lower()]]
            want = ('ok', found[0].lower() + '\n') if found else ('err', 'Import')
        for k in range(2):
            del calls[:]
            got = hy.render('from %s import $w\n| $w\n' % m, rt, **kw)
            cov.execs += 1
            cov.step()
            if got != want: raise Violation('import with the loaders %r, files %r, render %d: expected %r, got %r' % (order, mask, k + 1, want, got), key = repr(arg))
            mine = [c for c in calls if c[0] == m]
            if any(c[1] != kw['__file__'] or c[2] is not rt for c in mine): raise Violation('a loader called with the wrong script or runtime: %r' % (mine,), key = repr(arg))
            if want[0] == 'ok':
                first = [o.lower() for o in eff].index(want[1].strip())
                n = len([o for o in eff[:first + 1] if o.lower() == 'd'])
                if len(mine) != n: raise Violation('import with the loaders %r, files %r: the loader of the user asked %d times instead of %d' % (order, mask, len(mine), n), key = repr(arg))
        cov.state((order, want))

# ---------------------------------------------------------------------------------------------------------------------------------
#  symbols exported by a module that binds them in several ways and many times

EXP = {
    'x': lambda i: Assign('x', "'x%d'" % i),
    'y': lambda i: Assign('y', "'y%d'" % i),
    'xy': lambda i: Assign('x, y', "('p%d', 'q%d')" % (i, i)) if 0 else Assign('y', Ex("x 'c'", "x + 'c'")),
    'x+': lambda i: Assign('x', "'+%d'" % i, '+'),
    '%x': lambda i: Def('x', [], body = [tx('tag%d' % i)]),
    '%y': lambda i: Def('y', [], body = [tx('y%d ' % i, Emb('x'))]),
    '%yx': lambda i: Def('y', [('a', 'x')], body = [Struct('x'), tx(Emb('a'))]),
    'lx': lambda i: Import('.lib2', ['$x'], LIB2),
    'l%x': lambda i: Import('.lib2', ['%x'], LIB2),
    'lyx': lambda i: Import('.lib2', [('$y', 'x'), ('%y', 'x')], LIB2),
    'l*': lambda i: Import('.lib2', ['*'], LIB2),
    'for': lambda i: For('x', "['f', 'g%d']" % i, [Assign('y', 'x')]),
    'for0': lambda i: For('x', '[]', [Assign('y', 'x')]),
    'if': lambda i: If([Branch('1', [Assign('x', "'if%d'" % i)])]),
    'if0': lambda i: If([Branch('0', [Assign('x', "'no'")])]),
    'try': lambda i: Try([Branch(None, [Assign('x', "'try%d'" % i), tx(Emb('1 / 0'))])]),
    'div': lambda i: Struct('div', [Assign('x', "'in'"), Def('x', [], body = [tx('in')]), Struct('x')]),
    'use': lambda i: Struct('x'),
}
LIB2_PROG = [Assign('x', "'lx'"), Assign('y', "'ly'"), Def('x', [], body = [tx('lt ', Emb('x'))]), Def('y', [], body = [tx('ly ', Emb('y'))])]
LIB2 = {}
EXP_MAIN = [['*'], ['$x'], ['%x'], ['%y'], ['$y', ('$x', 'y')], ['%x', '$x', ('%y', 'x')], [('%x', 'y'), ('%y', 'x')]]
def exports(n, kinds):
    def it():
        for t in itertools.product(kinds, repeat = n): yield ('exp', t)
    return it
def run_exports(kinds, cov):
    if not LIB2: LIB2.update(lang.module_table(LIB2_PROG))
    d = os.path.join(FAM['dir'], 'e%d' % os.getpid())
    if not os.path.exists(d):
        os.makedirs(d)
        with open(os.path.join(d, 'lib2.hy'), 'w') as f: f.write(lang.source(LIB2_PROG))
    COUNT[0] += 1
    name = 'e%d' % COUNT[0]
    mod = [EXP[k](i) for i, k in enumerate(kinds)]
    with open(os.path.join(d, name + '.hy'), 'w') as f: f.write(lang.source(mod))
    try:
        rt = HyperHTML() if len(kinds) < 3 else hy.runtime()
        for items in EXP_MAIN:
            for pre in (0, 1):
                err = table = None
                try: table = lang.module_table([EXP[k](i) for i, k in enumerate(kinds)])
                except lang.Unspecified: return cov.count('unspecified_skipped')
                except lang.ModelError as ex: err = ('err', ex.kind)
                uses = [Opt(tx(Emb('x'))), Opt(tx(Emb('y'))), Struct('p', [Struct('x')]), Struct('y')]
                before = [Assign('x', "'mx'"), Assign('y', "'my'"), Def('x', [], body = [tx('main x')]), Def('y', [], body = [tx('main y')])]
                main = (before if pre else []) + [Import('.' + name, items, table or {})]
                syms = [i if isinstance(i, str) else i[0][0] + i[1] for i in items]
                if pre: main += uses
                elif '*' in syms: main += [u for u, sym in zip(uses, ('$x', '$y', '%x', '%y')) if table and sym in table]
                else: main += [u for u, sym in zip(uses, ('$x', '$y', '%x', '%y')) if sym in syms]
                exp = err or lang.run_model(main)
                src = lang.source(main)
                got = hy.render(src, rt, __file__ = os.path.join(d, 'main.hy'))
                cov.execs += 1
                cov.step()
                cov.state(exp)
                if got != exp: raise Violation('symbols exported by a module: expected %r, got %r for the script:\n%s\nmodule:\n%s' % (exp, got, src, lang.source(mod)), key = lang.source(mod) + src)
    finally: os.remove(os.path.join(d, name + '.hy'))

def spaces(tier):
    q = tier == 'quick'
    few = ['x=', 'pdef', 't', 'ut', '$x', 'div imp', 'imp2', 'h', 'div x t', 'hyper']
    return [('resolution', resolution(not q)), ('import graphs', graphs(['rel', 'abs', 'pkg', 'mix', 'mix2'] if not q else ['rel', 'mix2'], 9 if not q else 4)), ('import sequences of 2', sequences(2)),
            ('import sequences of 3', sequences(3, not q)), ('selections', selections(2, not q)), ('resolve function', resolving), ('exports, 1 block', exports(1, EXP)), ('exports, 2 blocks', exports(2, EXP)), ('exports, 3 blocks', exports(3, ['x', '%x', '%y', 'lx', 'l*', 'for', 'if', 'div', 'xy'] if q else EXP)), ('loaders', orders(2 if q else 4)),
            ('isolation, 2 blocks', mains(2, 'abcde', MAIN, ('imp *', 'imp tu') if q else ('imp *', 'imp t', 'imp tu', 'imp ux'))), ('isolation, 3 blocks', mains(3, 'abcde', few[:6] if q else MAIN))] + (
            [] if q else [('import sequences of 4', sequences(4)), ('isolation, 4 blocks', mains(4, 'abcde', few))])

def run(case, cov):
    kind, arg = case
    {'res': run_resolution, 'resolve': run_resolve, 'loaders': run_loaders, 'graph': run_graph, 'seq': run_seq, 'sel': run_sel, 'iso': run_iso, 'exp': run_exports}[kind](arg, cov)
