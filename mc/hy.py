"""Adaptor to the code under test: only its public interface is used."""
import sys
from hypertag import HyperHTML, DOM, Tag, TagFunction, Markup
from hypertag.core import errors as E

class Fatal(BaseException):
    """Exception outside the Exception hierarchy, for containment checks."""

# names of documented error kinds -> predicate on exceptions
KINDS = [('Name', NameError), ('Syntax', SyntaxError), ('Import', ImportError)]

def kind_of(ex):
    """Coarse, refactoring-proof classification of an exception."""
    if isinstance(ex, E.FalseValueEx): return 'FalseValue'
    if isinstance(ex, E.VoidTagEx): return 'VoidTag'
    if isinstance(ex, E.UndefinedTagEx): return 'UndefinedTag'
    if isinstance(ex, E.NotATagEx): return 'NotATag'
    if isinstance(ex, E.NoneStringEx): return 'NoneString'
    if isinstance(ex, UnboundLocalError): return 'Unbound'
    if isinstance(ex, NameError): return 'Name'
    if isinstance(ex, IndentationError): return 'Indent'
    if isinstance(ex, SyntaxError): return 'Syntax'
    if isinstance(ex, ImportError): return 'Import'
    if isinstance(ex, TypeError): return 'Type'
    if isinstance(ex, ZeroDivisionError): return 'Zero'
    if isinstance(ex, ValueError): return 'Value'
    if isinstance(ex, StopIteration) or isinstance(ex, RuntimeError) and isinstance(ex.__cause__, StopIteration): return 'Stop'
    return type(ex).__name__

_runtime = None
def runtime(fresh = False, cls = HyperHTML):
    global _runtime
    if fresh or cls is not HyperHTML: return cls()
    if _runtime is None: _runtime = HyperHTML()
    return _runtime

def render(script, rt = None, **kw):
    """-> ('ok', text) or ('err', kind)"""
    try:
        return ('ok', (rt or runtime()).render(script, **kw))
    except Exception as ex:
        return ('err', kind_of(ex))
    except Fatal as ex:
        return ('fatal', str(ex))

def render_ex(script, rt = None, **kw):
    """-> ('ok', text) or ('err', exception)"""
    try:
        return ('ok', (rt or runtime()).render(script, **kw))
    except Exception as ex:
        return ('err', ex)

def warm(scripts, n = 300):
    """Let the JIT of the parent process compile the hot paths before forking."""
    rt = runtime()
    for i in range(n):
        for s in scripts:
            try: rt.render(s)
            except Exception: pass
