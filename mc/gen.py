"""Enumeration of ordered forests and other finite structures."""
import itertools

def forests(n, leaves, conts, depth = 99):
    """All ordered forests with exactly n nodes; a node is (label, children); only labels of `conts` have children."""
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for t in trees(k, leaves, conts, depth):
            for rest in forests(n - k, leaves, conts, depth):
                yield (t,) + rest

def trees(k, leaves, conts, depth = 99):
    if depth <= 0: return
    if k == 1:
        for l in leaves: yield (l, ())
        for l in conts: yield (l, ())
    elif depth > 1:
        for l in conts:
            for f in forests(k - 1, leaves, conts, depth - 1):
                yield (l, f)

def pairs(a, b): return list(itertools.product(a, b))
