"""Comparison of the model with the implementation, shared by the checks that use mc.lang."""
from mc import hy, lang
from mc.core import Violation

def show(s): return s if len(s) < 1500 else s[:1500] + '...'

def compare(blocks, cov, ctx = None, values = None, what = 'render', trailing = 0, ind = '', rt = None, tags = None, real_tags = None,
            kinds = True, escape = lang.html_escape, src = None, fresh = None, loose = False):
    """
    Run the model and the implementation on one program and compare the document or the kind of error.
    fresh: function returning (ctx, log) - called once for each side; the two logs must be equal, too.
    """
    source = lang.source(blocks, ind, trailing) if src is None else src
    lang.steps.n = 0
    log = log2 = None
    if fresh: ctx, log = fresh()
    try:
        exp = lang.run_model(blocks, ctx, escape = escape, trailing = trailing, tags = tags)
    except lang.Unspecified:
        cov.count('unspecified_skipped')
        return None
    if fresh: ctx, log2 = fresh()
    if values is None: values = {k[1:]: v for k, v in (ctx or {}).items() if k[0] == '$'}
    if real_tags: values = dict(values, __tags__ = real_tags)
    got = hy.render(source, rt, **values)
    cov.execs += 1
    cov.sample(source)
    cov.step(lang.steps.n)
    cov.state(exp)
    if got[0] == 'err' and exp[0] == 'err' and not kinds: same = True
    else: same = got == exp
    if not same:
        raise Violation('%s: expected %s, got %s for the script:\n%s' % (what, show(repr(exp)), show(repr(got)), show(source)), key = source,
                        source = source, expected = repr(exp), got = repr(got))
    if log != log2:
        raise Violation('%s: expected evaluations %r, got %r in the script:\n%s' % (what, log, log2, show(source)), key = 'log:' + source,
                        source = source, expected = repr(log), got = repr(log2))
    return exp

def warm(check, tier, per_space = 40, stride = 7):
    """Run some cases in the parent process, so that the workers inherit compiled code."""
    import itertools
    from mc.core import Coverage
    cov = Coverage()
    for name, it in check.spaces(tier):
        for case in itertools.islice(it(), 0, per_space * stride, stride):
            try: check.run(case, cov)
            except Exception: pass
