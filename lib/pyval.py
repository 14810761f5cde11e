"""Bridge between Python values handled by pyamf and abstract values.

canon_py() maps a Python value to the same nested tuples amfspec.canon() maps
abstract values to, so that "isomorphic" is tuple equality.
"""
import calendar
import datetime

import pyamf
from pyamf import amf3, xml as pxml

import amfspec
from amfspec import Node

EPOCH = datetime.datetime(1970, 1, 1)


def ms_of(d):
    """Exact milliseconds since the epoch of a naive UTC datetime."""
    if not isinstance(d, datetime.datetime):
        d = datetime.datetime(d.year, d.month, d.day)
    t = d - EPOCH
    return (t.days * 86400 + t.seconds) * 1000.0 + t.microseconds / 1000.0


def us_of(d):
    if not isinstance(d, datetime.datetime):
        d = datetime.datetime(d.year, d.month, d.day)
    t = d - EPOCH
    return (t.days * 86400 + t.seconds) * 1000000 + t.microseconds


class Foreign(Exception):
    """A value the property does not allow the decoder to produce."""


def is_element(v):
    return hasattr(v, 'tag') and hasattr(v, 'getchildren')


def xml_text(v):
    s = pxml.tostring(v)
    if isinstance(s, str):
        s = s.decode('utf-8')
    return s


def state_of(o):
    """Attributes of an instance of a harness class."""
    d = {}
    for k, x in vars(o).items() if hasattr(o, '__dict__') else []:
        d[k] = x
    for k in getattr(type(o), '__slots__', ()):
        if hasattr(o, k):
            d[k] = getattr(o, k)
    return d


def canon_py(root, classes=None, attrs=state_of):
    """classes: {type: wire alias} of the classes registered by the harness.

    A tuple, generator or other sequence canonicalises to an array.
    """
    classes = classes or {}
    seen = {}
    keep = []

    def pairs(d):
        return tuple(sorted(((amfspec.canon_key(k), x) for k, x in d.items()),
                            key=lambda p: p[0]))

    def go(v):
        if v is None:
            return ('null',)
        if v is pyamf.Undefined:
            return ('undef',)
        if isinstance(v, bool):
            return ('b', v)
        if isinstance(v, (int, long, float)):
            return amfspec.canon_num(v)
        if isinstance(v, unicode):
            return ('s', v)
        if isinstance(v, str):
            return ('s', v.decode('utf-8'))
        if isinstance(v, (datetime.datetime, datetime.date)):
            # whole milliseconds survive the doubles of the wire; compare
            # with a tolerance of 50 microseconds around them
            return ('date', (us_of(v) + 50) // 100)
        if is_element(v):
            return ('xml', xml_text(v))
        k = id(v)
        if k in seen:
            return ('ref', seen[k])
        n = seen[k] = len(seen)
        keep.append(v)
        t = getattr(v, '__class__', type(v))
        if t in classes:
            return ('typed', n, classes[t],
                    tuple([(kk, go(x)) for kk, x in pairs(attrs(v))]))
        if isinstance(v, amf3.ByteArray):
            return ('ba', n, v.getvalue())
        if isinstance(v, pyamf.TypedObject):
            return ('typed', n, unicode(v.alias),
                    tuple([(kk, go(x)) for kk, x in pairs(v)]))
        if isinstance(v, pyamf.MixedArray):
            if not v:
                return ('ecma', n, ())
            return ('ecma', n, tuple([(kk, go(x)) for kk, x in pairs(v)]))
        if isinstance(v, dict):
            return ('obj', n, tuple([(kk, go(x)) for kk, x in pairs(v)]))
        if isinstance(v, (list, tuple)):
            return ('array', n, tuple([go(x) for x in v]))
        raise Foreign('%s.%s' % (t.__module__, t.__name__))

    return go(root)


# ------------------------------------------------------- graph enumeration
def graphs(maxn, kinds, leaves, maxslots, scalars, fixed=None):
    """Every graph of at most maxn nodes, each exactly once.

    Yields lists of (kind, slots); slot ('s', i) is scalar i, ('n', j) node j.
    Nodes are numbered in order of discovery from node 0, all reachable.
    kinds have 0..maxslots slots (fixed[kind] slots where given); leaves none.
    """
    fixed = fixed or {}

    def fill(nodes, m):
        i = len(nodes)
        if i == m:
            yield list(nodes)
            return
        for kind in kinds:
            sizes = [fixed[kind]] if kind in fixed else range(maxslots + 1)
            for size in sizes:
                for slots, m2 in slotseqs(size, m):
                    nodes.append((kind, slots))
                    for g in fill(nodes, m2):
                        yield g
                    nodes.pop()
        for kind in leaves:
            nodes.append((kind, ()))
            for g in fill(nodes, m):
                yield g
            nodes.pop()

    def slotseqs(size, m):
        if size == 0:
            yield (), m
            return
        for head, m1 in slotseqs(size - 1, m):
            for s in range(scalars):
                yield head + (('s', s),), m1
            for j in range(m1):
                yield head + (('n', j),), m1
            if m1 < maxn:
                yield head + (('n', m1),), m1 + 1

    # roots that are leaves are covered too
    return fill([], 1)


def gid(g):
    """Compact readable name of a graph."""
    return ' '.join('%s(%s)' % (k, ','.join('%s%d' % s for s in slots))
                    for k, slots in g)
