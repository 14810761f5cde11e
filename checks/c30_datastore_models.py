"""C30: Datastore entities keep their key, properties and references.

The adapters are the real ones, the App Engine libraries below them are those
of lib/gae_model.py.
"""
import datetime
import itertools

import pyamf
from pyamf.adapters import models as registry

import amfspec
import gae_model
import mc
from amfspec import Node

gae_model.install()

from google.appengine.ext import blobstore, db, ndb
from google.appengine.ext.db import polymodel
from google.appengine.ext.ndb import polymodel as npolymodel
from google.appengine.api import datastore_types

D = datetime.datetime
DAY = datetime.date


# ---------------------------------------------------------------- the models
class XA(db.Model):
    s = db.StringProperty()
    n = db.IntegerProperty()
    f = db.FloatProperty()
    b = db.BooleanProperty()
    when = db.DateTimeProperty()
    day = db.DateProperty()
    nums = db.ListProperty(long)


class XB(db.Model):
    name = db.StringProperty()
    a = db.ReferenceProperty(XA)
    me = db.SelfReferenceProperty()


class XE(db.Expando):
    s = db.StringProperty()


class XF(db.Expando):
    """nothing is declared"""


class XP(polymodel.PolyModel):
    s = db.StringProperty()


class XQ(XP):
    n = db.IntegerProperty()


class XR(db.Model):
    p = db.ReferenceProperty(XP)


class Address(ndb.Model):
    city = ndb.StringProperty()


class NA(ndb.Model):
    s = ndb.StringProperty()
    n = ndb.IntegerProperty()
    f = ndb.FloatProperty()
    b = ndb.BooleanProperty()
    when = ndb.DateTimeProperty()
    day = ndb.DateProperty()
    nums = ndb.IntegerProperty(repeated=True)


class NB(ndb.Model):
    name = ndb.StringProperty()
    a = ndb.KeyProperty(kind='NA')
    keys = ndb.KeyProperty(repeated=True)
    days = ndb.DateProperty(repeated=True)
    size = ndb.ComputedProperty(lambda self: len(self.name or ''))
    home = ndb.StructuredProperty(Address)
    all = ndb.LocalStructuredProperty(Address, repeated=True)


class NE(ndb.Expando):
    s = ndb.StringProperty()


class NF(ndb.Expando):
    """nothing is declared"""


class NP(npolymodel.PolyModel):
    s = ndb.StringProperty()


class NQ(NP):
    n = ndb.IntegerProperty()


class NR(ndb.Model):
    """the datastore knows the property by another name"""
    name = ndb.StringProperty('q')
    day = ndb.DateProperty('d')


CLASSES = [XA, XB, XE, XF, XP, XQ, XR, Address, NA, NB, NE, NF, NP, NQ, NR]
XDB = (db.Model,)
XATTRS = ('s', 'n', 'f', 'b', 'when', 'day', 'nums')


def props_of(cls):
    """The attributes of the declared properties."""
    if issubclass(cls, db.Model):
        return sorted(n for n in cls.properties() if n != '_class')
    return sorted(p._code_name for p in cls._properties.values()
                  if p._name != 'class')


def dynamic_of(o):
    if isinstance(o, db.Model):
        return sorted(o.dynamic_properties())
    return sorted(set(o._properties) - set(type(o)._properties))


def key_text(o):
    if isinstance(o, db.Model):
        return unicode(o.key()) if o.is_saved() else None
    return o.key.urlsafe() if o.key else None


def ident(o):
    """What makes an entity the same as another one."""
    if isinstance(o, db.Model):
        # by its key, once it is saved
        return (type(o), key_text(o)) if o.is_saved() else id(o)
    return (type(o), o.key.urlsafe()) if o.key and o.key.id() else id(o)


def snapshot(v, seen=None):
    """Everything there is to an entity."""
    seen = {} if seen is None else seen
    if isinstance(v, (list, tuple)):
        return (type(v), [snapshot(x, seen) for x in v])
    if isinstance(v, dict):
        return sorted((k, snapshot(x, seen)) for k, x in v.items())
    if isinstance(v, (db.Model, ndb.Model)):
        if id(v) in seen:
            return seen[id(v)]
        seen[id(v)] = ('entity', len(seen))
        return (type(v), key_text(v), [
            (n, snapshot(raw(v, n), seen))
            for n in props_of(type(v)) + dynamic_of(v)])
    if isinstance(v, (db.Key, ndb.Key)):
        return ('key', repr(v))
    return (unicode if isinstance(v, basestring) else type(v), v)


def raw(o, n):
    """The value of an attribute, without loading what it refers to."""
    if isinstance(o, db.Model):
        p = type(o).properties().get(n)
        if p is not None:
            return p.get_value_for_datastore(o)
    return getattr(o, n)


# ------------------------------------------------------------- the wire form
def ms(d):
    delta = d - D(1970, 1, 1)
    return (delta.days * 86400 + delta.seconds) * 1000 + \
        delta.microseconds / 1000


class O(object):
    def __init__(self, name):
        self.name = name
        self.pairs = {}


def form(roots):
    seen = {}

    def go(v):
        if isinstance(v, (Node, O, list)):
            if id(v) in seen:
                return ('ref', seen[id(v)])
            n = seen[id(v)] = len(seen)
            if isinstance(v, list):
                return ('list', n, [go(x) for x in v])
            if isinstance(v, Node) and v.kind in ('array', 'strict'):
                return ('list', n, [go(x) for x in v.items])
            pairs = v.pairs.items() if isinstance(v, O) else v.pairs
            return ('obj', n, v.name or None,
                    [(k, go(x)) for k, x in sorted(pairs)])
        if isinstance(v, tuple):
            if v[0] == 'null':
                return None
            if v[0] == 'date':
                return ('date', v[1])
            if v[0] == 'n':
                return float(v[1])
            return v[1]
        if isinstance(v, D):
            return ('date', ms(v))
        if isinstance(v, DAY):
            return ('date', ms(D(v.year, v.month, v.day)))
        if isinstance(v, bool) or v is None or isinstance(v, basestring):
            return v
        return float(v)
    return [go(v) for v in roots]


def expected(v, seen):
    """The wire value: one object for each entity."""
    if isinstance(v, list):
        if id(v) not in seen:
            seen[id(v)] = out = []
            out.extend([expected(x, seen) for x in v])
        return seen[id(v)]
    if isinstance(v, (db.Key, ndb.Key)):
        o = db.get(v) if isinstance(v, db.Key) else v.get()
        return None if o is None else expected(o, seen)
    if not isinstance(v, (db.Model, ndb.Model)):
        return v
    k = ident(v)
    if k in seen:
        return seen[k]
    out = seen[k] = O(unicode('c30.' + type(v).__name__))
    seen['keep', id(v)] = v
    out.pairs['_key'] = key_text(v)
    for n in props_of(type(v)) + dynamic_of(v):
        x = raw(v, n)
        if isinstance(v, ndb.Model):
            # keys are sent as such
            if isinstance(x, ndb.Key):
                x = x.urlsafe()
            elif isinstance(x, list):
                x = [y.urlsafe() if isinstance(y, ndb.Key) else
                     expected(y, seen) for y in x]
            else:
                x = expected(x, seen)
        else:
            p = type(v).properties().get(n)
            if isinstance(p, db.ReferenceProperty):
                try:
                    x = getattr(v, n)
                except db.ReferencePropertyResolveError:
                    x = None
                if x is not None and not x.is_saved():
                    # not saved, but known by its key within the value
                    kk = (type(x), str(x.key()))
                    x = seen.setdefault(('unsaved', kk), x)
            x = expected(x, seen)
        out.pairs[n] = x
    return out


def encode(vs, version):
    e = pyamf.get_encoder(version)
    for v in vs:
        e.writeElement(v)
    return e.stream.getvalue()


def written(ctx, sig, desc, vs, version):
    """Encode values and read them independently; the bytes, if right."""
    ctx.step()
    ctx.trace()
    seen = {}
    want = form([expected(v, seen) for v in vs])
    before = snapshot(list(vs))
    r = mc.attempt(encode, vs, version)
    if r[0] != 'ok':
        ctx.violation(sig, '%s: AMF%d raises %r' % (desc, version, r[1:]))
        return None
    s = mc.attempt(lambda: form(amfspec.read_all(r[1], version)))
    if s[:2] != ('ok', want):
        ctx.violation(sig, '%s: AMF%d writes %r, expected %r' % (
            desc, version, s[1:], want))
        return None
    if snapshot(list(vs)) != before:
        ctx.violation(sig + '-changed', '%s: AMF%d, encoding changes the '
                      'entity to %r' % (desc, version, snapshot(list(vs))))
        return None
    return r[1]


def decode(data, version):
    gae_model.clear_cache()
    return list(pyamf.decode(data, encoding=version))


# ---------------------------------------------------------------- the values
TEXTS = [None, u'', u'\xe9']
NUMS = [None, 0, -1, 2 ** 28, 2 ** 40]
FLOATS = [None, 0.0, 3.0, 0.5]
BOOLS = [None, False, True]
WHENS = [None, D(2009, 3, 8, 23, 30, 47, 770000)]
DAYS = [None, DAY(2009, 3, 8), DAY(1, 1, 1)]
LISTS = [[], [0, 2 ** 33], [-1, 5, 2 ** 29]]


def same(got, want):
    if isinstance(want, list):
        return isinstance(got, list) and len(got) == len(want) and all(
            same(g, w) for g, w in zip(got, want))
    if isinstance(want, basestring):
        return got == want and isinstance(got, basestring)
    if isinstance(want, (int, long)) and not isinstance(want, bool):
        return got == want and isinstance(got, (int, long)) and \
            not isinstance(got, bool)
    return type(got) is type(want) and got == want


def make(cls, state, **kw):
    """A new entity, an entity with a key, one that is saved."""
    if issubclass(cls, db.Model):
        o = cls(key_name=None if state == 'new' else 'k', **kw)
    else:
        o = cls(id=None if state == 'new' else 'k', **kw)
    if state == 'saved':
        o.put()
    return o


def values(ctx):
    """Every combination of property values there and back."""
    space = list(itertools.product(TEXTS, NUMS, FLOATS, BOOLS, WHENS, DAYS,
                                   LISTS))
    ctx.bound('property values', len(space))
    for i, v in enumerate(space):
        cid = 'values %d' % i
        if not ctx.mine(cid):
            continue
        for cls in (XA, NA):
            # not ctx.thorough: each state with each value of each property,
            # all combinations of the values with one state
            for state in ('new', 'keyed', 'saved'):
                if not ctx.thorough and 'saved new keyed'.split()[
                        i % 3] != state:
                    continue
                gae_model.clear()
                kw = dict(zip(XATTRS, v))
                kw['nums'] = list(kw['nums'])
                o = make(cls, state, **kw)
                desc = '%s %s %r' % (state, cls.__name__, v)
                ctx.state(desc)
                for version in (0, 3):
                    data = written(ctx, 'values', desc, [o], version)
                    if data is not None:
                        value_back(ctx, desc, o, v, version, data)


def value_back(ctx, desc, o, v, version, data):
    cls = type(o)
    saved = key_text(o) is not None
    r = mc.attempt(decode, data, version)
    if r[0] != 'ok' or len(r[1]) != 1 or type(r[1][0]) is not cls:
        ctx.violation('values', '%s: AMF%d reads as %r' % (
            desc, version, r[1:]))
        return
    b = r[1][0]
    wrong = [(n, getattr(b, n)) for n, x in zip(XATTRS, v)
             if not same(getattr(b, n), x)]
    if key_text(b) != key_text(o):
        wrong.append(('key', key_text(b)))
    if isinstance(o, db.Model) and b.is_saved() != saved:
        wrong.append(('is_saved', b.is_saved()))
    if wrong:
        ctx.violation('values', '%s: AMF%d reads with %r' % (
            desc, version, wrong))


def partial(ctx):
    """What is not sent is what is stored."""
    full = dict(zip(XATTRS, (u'x', 7, 0.5, True, WHENS[1], DAYS[1], [3])))
    sent = dict(zip(XATTRS, (u'\xe9', 5, 4, False, D(2001, 1, 2, 3, 4, 5),
                             D(2001, 1, 2), [1, 2])))
    want = dict(sent, day=DAY(2001, 1, 2), f=4.0)
    subs = list(itertools.product(('absent', 'value', 'null'), repeat=7))
    if not ctx.thorough:
        subs = [s for s in subs if s.count('null') < 2]
    ctx.bound('sent attributes', len(subs))
    for sub in subs:
        cid = 'partial %r' % (sub,)
        if not ctx.mine(cid):
            continue
        for cls in (XA, NA):
            for stored in ('saved', 'deleted', 'no key'):
                gae_model.clear()
                o = make(cls, 'saved', **dict(full, nums=[3]))
                key = key_text(o)
                if stored != 'saved':
                    gae_model.clear()
                if stored == 'no key':
                    key = None
                pairs, exp = [], {}
                for n, how in zip(XATTRS, sub):
                    exp[n] = full[n] if stored == 'saved' else (
                        [] if n == 'nums' else None)
                    if how == 'value':
                        pairs.append((n, sent[n]))
                        exp[n] = want[n]
                    elif how == 'null':
                        pairs.append((n, None))
                        exp[n] = [] if n == 'nums' else None
                if key is not None or len(pairs) % 2:
                    pairs.append(('_key', key))
                ctx.state((cid, cls, stored))
                for version in (0, 3):
                    ctx.step()
                    ctx.trace()
                    data = payload('c30.' + cls.__name__, pairs, version)
                    gae_model.clear_cache()
                    r = mc.attempt(decode, data, version)
                    desc = '%s %s is sent as %r' % (stored, cls.__name__,
                                                    pairs)
                    if r[0] != 'ok' or type(r[1][0]) is not cls:
                        ctx.violation('partial', '%s: AMF%d reads as %r' % (
                            desc, version, r[1:]))
                        continue
                    b = r[1][0]
                    wrong = [(n, getattr(b, n)) for n in XATTRS
                             if not same(getattr(b, n), exp[n])]
                    got = b.key() if cls is XA and key else \
                        None if cls is XA else b.key
                    got = got and (str(got) if cls is XA else got.urlsafe())
                    if got != key:
                        wrong.append(('key', got))
                    if wrong:
                        ctx.violation('partial', '%s: AMF%d reads with %r' % (
                            desc, version, wrong))


def wire(v):
    """A value for the independent writer."""
    if v is None:
        return amfspec.NULL
    if isinstance(v, bool):
        return ('b', v)
    if isinstance(v, D):
        return ('date', float(ms(v)))
    if isinstance(v, (int, long, float)):
        return ('n', v)
    if isinstance(v, basestring):
        return ('s', unicode(v))
    out = Node('array')
    out.items = [wire(x) for x in v]
    return out


def payload(name, pairs, version):
    """The bytes of an object, written independently."""
    out = Node('typed', unicode(name))
    out.pairs = [(unicode(n), wire(v)) for n, v in pairs]
    return amfspec.write(out, version)


# ---------------------------------------------------------------- the graphs
def xgraphs(ctx):
    """Two XBs with every wiring to each other and to XAs."""
    targets = ['none', 'dangling', 'key0', 'key1', 0, 1]
    space = list(itertools.product(
        ('saved', 'new'), ('same', 'other'), targets, targets, targets,
        targets))
    ctx.bound('graphs of references', len(space))
    for i, (b_state, a_keys, a1, a2, m1, m2) in enumerate(space):
        cid = 'xgraph %d' % i
        if not ctx.mine(cid):
            continue
        if b_state == 'new' and not (
                set((m1, m2)) <= set(('none', 'dangling'))):
            # only what has a key can be referred to
            continue
        gae_model.clear()
        a = [XA(key_name='a', s=u'a'), XA(key_name='b', s=u'b')]
        for o in a:
            o.put()
        if a_keys == 'same':
            # another instance of the same entity
            a[1] = db.get(a[0].key())
        b = [XB(key_name='b%d' % j if b_state == 'saved' else None,
                name=u'b%d' % j) for j in (0, 1)]
        if b_state == 'saved':
            for o in b:
                o.put()
        for o, x in ((b[0], a1), (b[1], a2)):
            xwire(o, 'a', x, a)
        for o, x in ((b[0], m1), (b[1], m2)):
            xwire(o, 'me', x, b)
        if b_state == 'saved':
            for o in b:
                o.put()
        desc = 'XAs %s, %s XBs to XA %r and XB %r' % (
            a_keys, b_state, (a1, a2), (m1, m2))
        ctx.state(desc)
        shapes = [[b[0], b[1]], [[a[0], b[1], a[1], b[0], a[0].key()]],
                  [a[1], [b[0], b[1]], [b[1]]]]
        if b_state == 'saved':
            shapes.append([b[1].key(), db.get(b[0].key()), b[0]])
        for j, vs in enumerate(shapes):
            for version in (0, 3):
                d = '%s, as %d' % (desc, j)
                data = written(ctx, 'graph', d, vs, version)
                if data is not None:
                    xback(ctx, d, vs, version, data)


def xwire(o, name, x, pool):
    if x == 'none':
        setattr(o, name, None)
    elif x == 'dangling':
        setattr(o, name, db.Key.from_path('XA' if name == 'a' else 'XB', 'z'))
    elif isinstance(x, str):
        setattr(o, name, pool[int(x[-1])].key())
    else:
        setattr(o, name, pool[x])


def graph_form(roots):
    """The graph of decoded entities."""
    seen = {}

    def go(v):
        if isinstance(v, list):
            return [go(x) for x in v]
        if isinstance(v, (db.Model, ndb.Model)):
            k = id(v)
            if k in seen:
                return ('ref', seen[k])
            n = seen[k] = len(seen)
            out = [type(v), n, key_text(v)]
            for p in props_of(type(v)):
                out.append((p, go(getattr(v, p))))
            return out
        if isinstance(v, O):
            k = id(v)
            if k in seen:
                return ('ref', seen[k])
            n = seen[k] = len(seen)
            cls = [c for c in CLASSES if 'c30.' + c.__name__ == v.name][0]
            out = [cls, n, v.pairs['_key']]
            for p in props_of(cls):
                out.append((p, go(v.pairs[p])))
            return out
        return v
    return [go(v) for v in roots]


def xback(ctx, desc, vs, version, data):
    ctx.step()
    want = graph_form([expected(v, s) for s in [{}] for v in vs])
    r = mc.attempt(decode, data, version)
    if r[0] != 'ok':
        ctx.violation('graph-back', '%s: AMF%d raises %r' % (
            desc, version, r[1:]))
        return
    got = mc.attempt(graph_form, r[1])
    if got[:2] != ('ok', want):
        ctx.violation('graph-back', '%s: AMF%d reads as %r, expected %r' % (
            desc, version, got[1:], want))


def ngraphs(ctx):
    """Two NBs with keys, instances of the same entity and parts."""
    space = list(itertools.product(
        ('saved', 'keyed', 'new'), (None, 'here', 'gone'),
        ([], ['here'], ['gone', 'here', 'here']),
        ([], [DAYS[1]], [DAYS[1], DAYS[2]]), (None, 'x', 'shared'),
        ([], ['x'], ['shared', 'y', 'shared']), (True, False)))
    ctx.bound('entities with keys and parts', len(space))
    for i, (state, a, keys, days, home, all_, twice) in enumerate(space):
        cid = 'ngraph %d' % i
        if not ctx.mine(cid):
            continue
        gae_model.clear()
        NA(id='here', s=u'a').put()
        shared = Address(city=u'shared')

        def part(x):
            if x is None:
                return None
            return shared if x == 'shared' else Address(city=unicode(x))

        def build():
            return make(NB, state, name=u'nam', a=a and ndb.Key('NA', a),
                        keys=[ndb.Key('NA', k) for k in keys],
                        days=list(days), home=part(home),
                        all=[part(x) for x in all_])
        o = build()
        # another instance of the same entity, or a second entity
        other = build() if twice else o
        desc = '%s NB%r' % (state, (a, keys, days, home, all_, twice))
        ctx.state(desc)
        key = ndb.Key('NA', 'here')
        for j, vs in enumerate(([o], [[o, other, o]], [other, [key, o, key]])):
            for version in (0, 3):
                d = '%s, as %d' % (desc, j)
                data = written(ctx, 'ngraph', d, vs, version)
                if data is not None and j < 2:
                    nback(ctx, d, vs, o, version, data)


def nback(ctx, desc, vs, o, version, data):
    ctx.step()
    r = mc.attempt(decode, data, version)
    if r[0] != 'ok':
        ctx.violation('ngraph-back', '%s: AMF%d raises %r' % (
            desc, version, r[1:]))
        return
    got = r[1][0] if isinstance(vs[0], NB) else r[1][0][0]
    if type(got) is not NB or not mc.attempt(lambda: got == o)[1] is True:
        ctx.violation('ngraph-back', '%s: AMF%d reads as %r' % (
            desc, version, mc.attempt(snapshot, got)))
    elif isinstance(vs[0], list):
        first = [[x is y for y in r[1][0]] for x in r[1][0]]
        want = [[ident(x) == ident(y) for y in vs[0]] for x in vs[0]]
        if first != want:
            ctx.violation('ngraph-back', '%s: AMF%d reads with the identities '
                          '%r' % (desc, version, first))


# ---------------------------------------------------------------- the others
def kinds(ctx):
    """Expandos, polymorphic models, renamed properties."""
    extras = list(itertools.product(
        (None, 5, u'x', 0.5, True, [1, u'y']), (None, u'y'), (False, True)))
    for cls in (XE, XF, NE, NF):
        for state in ('new', 'keyed', 'saved'):
            for e1, e2, sub in extras:
                cid = 'expando %s %s %r' % (cls.__name__, state,
                                            (e1, e2, sub))
                if not ctx.mine(cid):
                    continue
                gae_model.clear()
                o = make(cls, 'new' if state == 'new' else 'keyed')
                if cls in (XE, NE):
                    o.s = u's'
                if e1 is not None:
                    o.one = e1
                if e2 is not None:
                    o.two = e2
                if state == 'saved':
                    o.put()
                if state == 'saved' and sub:
                    # after it is saved
                    o.one = u'new'
                ctx.state(cid)
                for version in (0, 3):
                    data = written(ctx, 'expando', cid, [o], version)
                    if data is None:
                        continue
                    r = mc.attempt(decode, data, version)
                    if r[0] != 'ok' or snapshot(r[1]) != snapshot([o]):
                        ctx.violation('expando', '%s: AMF%d reads as %r' % (
                            cid, version, snapshot(r[1]) if r[0] == 'ok'
                            else r[1:]))
    for p, q in ((XP, XQ), (NP, NQ)):
        for state in ('new', 'keyed', 'saved'):
            for s in TEXTS:
                cid = 'poly %s %s %r' % (p.__name__, state, s)
                if not ctx.mine(cid):
                    continue
                for cls, kw in ((p, {}), (q, {'n': 5})):
                    gae_model.clear()
                    o = make(cls, state, s=s, **kw)
                    ctx.state((cid, cls))
                    roots = [[o], [[o, o]]]
                    if state == 'saved' and p is XP:
                        ref = XR(p=o)
                        lazy = XR(p=o.key())
                        roots += [[o, ref, lazy], [lazy, [o, ref]],
                                  [ref, db.get(o.key()), o.key()],
                                  [o, o.key()], [o.key(), o, lazy]]
                    if state == 'saved' and p is NP:
                        other = cls(key=o.key, s=s, **kw)
                        roots += [[o.key, o], [o, o.key], [other, o.key],
                                  [o.key, [other, o]]]
                    for vs in roots:
                        for version in (0, 3):
                            data = written(ctx, 'poly', '%s %s' % (
                                cid, cls.__name__), vs, version)
                            if data is not None:
                                xback(ctx, cid, vs, version, data)
    for name in TEXTS:
        for day in DAYS:
            for state in ('new', 'keyed', 'saved'):
                cid = 'renamed %r %r %s' % (name, day, state)
                if not ctx.mine(cid):
                    continue
                gae_model.clear()
                o = make(NR, state, name=name, day=day)
                ctx.state(cid)
                for version in (0, 3):
                    data = written(ctx, 'renamed', cid, [o], version)
                    if data is None:
                        continue
                    r = mc.attempt(decode, data, version)
                    if r[0] != 'ok' or snapshot(r[1]) != snapshot([o]):
                        ctx.violation('renamed', '%s: AMF%d reads as %r' % (
                            cid, version, snapshot(r[1]) if r[0] == 'ok'
                            else r[1:]))
    for n in range(3):
        cid = 'query %d' % n
        if not ctx.mine(cid):
            continue
        for a in (XA, NA):
            gae_model.clear()
            for i in range(n):
                make(a, 'new', s=unicode(i)).put()
            q = a.all() if a is XA else a.query()
            ctx.state((cid, a))
            for version in (0, 3):
                want = form([[expected(x, {}) for x in q]])
                r = mc.attempt(lambda: form(amfspec.read_all(
                    encode([q], version), version)))
                if r[:2] != ('ok', want):
                    ctx.violation('query', '%s: AMF%d writes %r' % (
                        cid, version, r[1:]))
    points = [0.0, 1.5, -90.0]
    for lat, lon in itertools.product(points, points):
        cid = 'point %r' % ((lat, lon),)
        if ctx.mine(cid):
            ctx.state(cid)
            o = datastore_types.GeoPt(lat, lon)
            for version in (0, 3):
                r = mc.attempt(lambda: decode(encode([[o, o]], version),
                                              version)[0])
                if r[0] != 'ok' or r[1][0] is not r[1][1] or (
                        type(r[1][0]), r[1][0].lat, r[1][0].lon) != (
                        datastore_types.GeoPt, lat, lon):
                    ctx.violation('point', '%s: AMF%d reads as %r' % (
                        cid, version, r[1:]))
    for key, size in itertools.product((u'foo', u'a-b_c='), (0, 2 ** 30)):
        cid = 'blob %r %r' % (key, size)
        if ctx.mine(cid):
            ctx.state(cid)
            info = {'size': size, 'filename': u'x', 'content_type': u't/p',
                    'creation': WHENS[1]}
            o = blobstore.BlobInfo(blobstore.BlobKey(key), info)
            for version in (0, 3):
                want = O(u'google.appengine.ext.blobstore.BlobInfo')
                want.pairs = dict(info, key=key)
                r = mc.attempt(encode, [o, [o]], version)
                s = r[0] == 'ok' and mc.attempt(
                    lambda: form(amfspec.read_all(r[1], version)))
                if not s or s[:2] != ('ok', form([want, [want]])):
                    ctx.violation('blob', '%s: AMF%d writes %r' % (
                        cid, version, s or r[1:]))
                    continue
                r = mc.attempt(decode, r[1], version)
                if r[0] != 'ok' or type(r[1][0]) is not blobstore.BlobInfo \
                        or r[1][0].key() != blobstore.BlobKey(key) or \
                        r[1][1][0] is not r[1][0]:
                    ctx.violation('blob', '%s: AMF%d reads as %r' % (
                        cid, version, r[1:]))


def refused(ctx):
    """What a property does not take is not made to fit."""
    for n, v in (('n', 5.5), ('n', -0.5), ('n', u'x'), ('nums', [1, 2.5]),
                 ('nums', [u'x']), ('day', u'x'), ('f', u'x'), ('b', 7),
                 ('when', 5), ('s', 5)):
        cid = 'refused %s=%r' % (n, v)
        if not ctx.mine(cid):
            continue
        for cls in (XA, NA):
            for stored in (False, True):
                gae_model.clear()
                o = make(cls, 'saved')
                key = key_text(o)
                if not stored:
                    gae_model.clear()
                ctx.state((cid, cls, stored))
                for version in (0, 3):
                    ctx.step()
                    ctx.trace()
                    data = payload('c30.' + cls.__name__, [
                        (n, v), ('_key', key)], version)
                    r = mc.attempt(decode, data, version)
                    if r[0] == 'ok':
                        ctx.violation('refused', '%s: AMF%d reads a %s with '
                                      '%r' % (cid, version, cls.__name__,
                                              getattr(r[1][0], n)))


def sequences(ctx):
    """Values of one stream, each with entities that are stored, or not."""
    steps = ['x-saved', 'x-gone', 'x-new', 'n-saved', 'n-gone', 'n-new',
             'pair', 'plain']
    depth = 4 if ctx.thorough else 3
    ctx.bound('values of a stream', depth)
    for seq in mc.seqs_upto(steps, depth):
        cid = 'sequence %s' % ' '.join(seq)
        if not seq or not ctx.mine(cid):
            continue
        gae_model.clear()
        for j in range(depth):
            XA(key_name='k%d' % j, s=u'stored', n=j).put()
            NA(id='k%d' % j, s=u'stored', n=j).put()
        ctx.state(cid)
        roots, want = [], []
        for j, s in enumerate(seq):
            cls = {'x': XA, 'n': NA}.get(s[0])
            if s == 'plain':
                roots.append(Node('obj'))
                roots[-1].pairs = [(u'x', ('n', j))]
                want.append({'x': j})
                continue
            if s == 'pair':
                roots.append(Node('array'))
                roots[-1].items = [tobj(XA, 'k%d' % j, j), tobj(NA, None, j)]
                want.append([(XA, u's%d' % j, j, 'k%d' % j),
                             (NA, u's%d' % j, None, None)])
                continue
            key = None if s.endswith('new') else (
                'k%d' % j if s.endswith('saved') else 'gone%d' % j)
            roots.append(tobj(cls, key, j))
            want.append((cls, u's%d' % j, j if s.endswith('saved') else None,
                         key))
        for version in (0, 3):
            ctx.step()
            ctx.trace()
            data = ''.join([amfspec.write(
                x, version, **({'strings': False, 'traits': False}
                               if version == 3 else {})) for x in roots])
            r = mc.attempt(lambda: [seen_as(x) for x in decode(
                data, version)])
            if r[:2] != ('ok', want):
                ctx.violation('sequence', '%s: AMF%d reads as %r, expected %r'
                              % (cid, version, r[1:], want))


def messages(ctx):
    """Messages of one cleared codec do not know of each other."""
    steps = ['x', 'x-again', 'x-new', 'n', 'n-again', 'n-new', 'stored']
    depth = 4 if ctx.thorough else 3
    ctx.bound('messages of a codec', depth)
    for seq in mc.seqs_upto(steps, depth):
        cid = 'messages %s' % ' '.join(seq)
        if not seq or not ctx.mine(cid):
            continue
        ctx.state(cid)
        for version in (0, 3):
            gae_model.clear()
            e = pyamf.get_encoder(version)
            d = pyamf.get_decoder(version)
            for j, s in enumerate(seq):
                ctx.step(2)
                ctx.trace()
                if s == 'stored':
                    XA(key_name='k', s=u'stored %d' % j, n=j).put()
                    NA(id='k', s=u'stored %d' % j, n=j).put()
                    continue
                kw = {} if s.endswith('new') else (
                    {'key_name': 'k'} if s[0] == 'x' else {'id': 'k'})
                o = {'x': XA, 'n': NA}[s[0]](s=u's%d' % j, n=j, **kw)
                v = [o, o] if s.endswith('again') else o
                e.context.clear()
                start = e.stream.tell()
                r = mc.attempt(e.writeElement, v)
                e.stream.seek(start)
                got = e.stream.read()
                fresh = encode([v], version)
                if r[0] != 'ok' or got != fresh:
                    ctx.violation('messages', '%s: AMF%d, a cleared encoder '
                                  'writes message %d as %r, a new one as %r'
                                  % (cid, version, j, got, fresh))
                    break
                name = None if s.endswith('new') else 'k'
                data = amfspec.write(tobj(type(o), name, j), version)
                d.context.clear()
                d.stream.truncate(0)
                d.stream.append(data)
                r = mc.attempt(lambda: seen_as(d.readElement()))
                fresh = mc.attempt(lambda: seen_as(decode(data, version)[0]))
                if r[:2] != fresh[:2]:
                    ctx.violation('messages', '%s: AMF%d, a cleared decoder '
                                  'reads message %d as %r, a new one as %r'
                                  % (cid, version, j, r[1:], fresh[1:]))
                    break


def tobj(cls, name, j):
    """The payload of an entity of which one property is sent."""
    out = Node('typed', u'c30.' + unicode(cls.__name__))
    key = None
    if name is not None:
        key = str(db.Key.from_path('XA', name)) if cls is XA else \
            ndb.Key('NA', name).urlsafe()
    out.pairs = [(u's', ('s', u's%d' % j)), (u'_key', wire(key))]
    return out


def seen_as(v):
    if isinstance(v, list):
        return [seen_as(x) for x in v]
    if isinstance(v, (XA, NA)):
        if isinstance(v, XA):
            key = v.key().id_or_name() if v.has_key() else None
        else:
            key = v.key.id() if v.key else None
        return (type(v), v.s, v.n, key)
    return dict(v)


# -------------------------------------------------------------- the handlers
def handlers(ctx):
    """Every history of registering and using handlers of properties."""
    reg = [('reg', c, r) for c in 'ABCD' for r in (False, True)]
    use = [('use', c) for c in 'ABCD']
    depth = 5 if ctx.thorough else 4
    ctx.bound('history of handlers', depth)
    for seq in itertools.product(reg + use, repeat=depth):
        if seq[0][0] == 'use' or (seq[-1][0] == 'reg' and seq[-1][2]):
            continue
        cid = 'handlers %r' % (seq,)
        if not ctx.mine(cid):
            continue
        ctx.state(cid)
        ctx.trace()
        for kind in ('encode', 'decode'):
            problem = history(ctx, kind, seq)
            if problem:
                ctx.violation('handlers', '%s, %s: %s' % (kind, cid, problem))


def history(ctx, kind, seq):
    # classes of its own for each history
    A = type('A', (object,), {})
    B = type('B', (A,), {})
    C = type('C', (A,), {})
    classes = {'A': A, 'B': B, 'C': C, 'D': type('D', (B, C), {})}
    known = {}
    if kind == 'encode':
        register = registry.register_property_encoder
        one = registry.encode_model_property
        many = registry.encode_model_properties
        opposite = registry.decode_model_property
    else:
        register = registry.register_property_decoder
        one = registry.decode_model_property
        many = registry.decode_model_properties
        opposite = registry.encode_model_property
    obj = object()
    for n, op in enumerate(seq):
        ctx.step()
        cls = classes[op[1]]
        if op[0] == 'reg':
            def handler(o, prop, value, n=n):
                return (n, o is obj, prop, value)
            r = mc.attempt(lambda: register(cls, replace=op[2])(handler))
            if cls in known and not op[2]:
                if r[:2] != ('exc', 'KeyError'):
                    return 'step %d registers a second handler' % n
                continue
            if r[0] != 'ok' or r[1] is not handler:
                return 'step %d raises %r' % (n, r[1:])
            known[cls] = n
        else:
            prop = cls()
            h = [known[c] for c in cls.__mro__ if c in known]
            want = (h[0], True, prop, u'v') if h else u'v'
            r = mc.attempt(one, obj, prop, u'v')
            if r[:2] != ('ok', want):
                return 'step %d gives %r, not %r' % (n, r[1:], want)
            attrs = {'p': u'v', 'q': u'w'}
            r = mc.attempt(many, obj, {'p': prop, 'z': prop}, attrs)
            if r[:2] != ('ok', {'p': want, 'q': u'w'}):
                return 'step %d gives %r for all properties' % (n, r[1:])
            if mc.attempt(opposite, obj, prop, u'v')[:2] != ('ok', u'v'):
                return 'step %d is used in the other direction, too' % n
    return None


def run(ctx):
    for mod in ('google.appengine.ext.db', 'google.appengine.ext.ndb',
                'google.appengine.api.datastore_types',
                'google.appengine.ext.blobstore'):
        r = mc.attempt(pyamf.get_adapter, mod)
        if r[0] != 'ok':
            ctx.violation('adapter', '%s: %r' % (mod, r[1:]))
            return
    for cls in CLASSES:
        pyamf.register_class(cls, 'c30.' + cls.__name__)
    for f in (handlers, values, partial, xgraphs, ngraphs, kinds, refused,
              sequences, messages):
        f(ctx)
