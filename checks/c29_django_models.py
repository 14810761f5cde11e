"""C29: Django models keep their fields, relations and identity.

No database is needed: what a model is related to is loaded already (assigned
or prefetched), and rows are looked up through a manager of the models which
answers from a dict.
"""
import datetime
import itertools
import os
import sys
import types
import warnings

import pyamf
from pyamf import remoting

import amfspec
import mc
from amfspec import Node

m = types.ModuleType('c29_settings')
m.SECRET_KEY = 'k'
m.INSTALLED_APPS = ['django.contrib.contenttypes', 'django.contrib.auth']
sys.modules['c29_settings'] = m
os.environ['DJANGO_SETTINGS_MODULE'] = 'c29_settings'
warnings.simplefilter('ignore')

import django
django.setup()
from django.contrib.auth.models import User, Group
from django.db import models
from django.db.models import fields, query
from django.utils.translation import ugettext_lazy, ungettext_lazy

MISSING = fields.NOT_PROVIDED
D = datetime.datetime
ROWS = {}
LOOKUPS = []


class Rows(list):
    """the part of a query that is used here"""

    def filter(self, pk):
        LOOKUPS.append(pk)
        return Rows([f() for (c, p), f in ROWS.items()
                     if c is self.model and p == pk])

    def all(self):
        return self


class Store(models.Manager):
    def get_queryset(self):
        r = Rows()
        r.model = self.model
        return r

    def filter(self, **kw):
        return self.get_queryset().filter(**kw)


class Base(models.Model):
    class Meta:
        abstract = True
        app_label = 'c29'
    objects = Store()

    def __repr__(self):
        return '<%s %r>' % (type(self).__name__, self.pk)


class A(Base):
    name = models.CharField(max_length=9, null=True)
    n = models.IntegerField(null=True)
    when = models.DateTimeField(null=True)
    day = models.DateField(null=True)
    t = models.TimeField(null=True)
    f = models.FileField(null=True)

    class Meta:
        app_label = 'c29'


class K(Base):
    code = models.CharField(max_length=9, primary_key=True)
    flag = models.BooleanField(default=False)

    class Meta:
        app_label = 'c29'


class B(Base):
    a = models.ForeignKey(A, null=True)
    k = models.ForeignKey(K, null=True)
    me = models.ForeignKey('self', null=True)

    class Meta:
        app_label = 'c29'


class C(A):
    z = models.IntegerField(null=True)

    class Meta:
        app_label = 'c29'


class Z(models.Model):
    """a model with rules of its own"""
    name = models.CharField(max_length=9, null=True)
    secret = models.CharField(max_length=9, null=True)
    fixed = models.CharField(max_length=9, null=True)
    objects = Store()

    class Meta:
        app_label = 'c29'

    class __amf__:
        exclude = ('secret',)
        readonly = ('fixed',)


class M(Base):
    many = models.ManyToManyField(A)
    one = models.OneToOneField(K, null=True)

    class Meta:
        app_label = 'c29'


class Query(query.QuerySet):
    """a query that has been run"""

    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(self.items)

    def __len__(self):
        return len(self.items)


NAMES = {A: u'c29.A', K: u'c29.K', B: u'c29.B', C: u'c29.C', Z: u'c29.Z',
         M: u'c29.M'}


# ------------------------------------------------------------- the wire form
def ms(d):
    delta = d - D(1970, 1, 1)
    return (delta.days * 86400 + delta.seconds) * 1000 + \
        delta.microseconds / 1000


class O(object):
    """An expected object of the wire."""

    def __init__(self, name, pairs=()):
        self.name = name
        self.pairs = dict(pairs)


def form(roots):
    """Nested tuples, equal for isomorphic graphs."""
    seen = {}

    def go(v):
        if isinstance(v, Node):
            if id(v) in seen:
                return ('ref', seen[id(v)])
            n = seen[id(v)] = len(seen)
            if v.kind in ('array', 'strict'):
                return ('list', n, [go(x) for x in v.items])
            return ('obj', n, v.name or None, [
                (k, go(x)) for k, x in sorted(v.pairs)])
        if isinstance(v, O):
            if id(v) in seen:
                return ('ref', seen[id(v)])
            n = seen[id(v)] = len(seen)
            return ('obj', n, v.name, [
                (k, go(x)) for k, x in sorted(v.pairs.items())])
        if isinstance(v, list):
            if id(v) in seen:
                return ('ref', seen[id(v)])
            n = seen[id(v)] = len(seen)
            return ('list', n, [go(x) for x in v])
        if isinstance(v, tuple):
            if v[0] == 'null':
                return None
            if v[0] == 'undef':
                return 'undefined'
            if v[0] == 'date':
                return ('date', v[1])
            if v[0] == 'n':
                return float(v[1])
            return v[1]
        if v is MISSING:
            return 'undefined'
        if isinstance(v, D):
            return ('date', ms(v))
        if isinstance(v, bool) or v is None or isinstance(v, basestring):
            return v
        return float(v)
    return [go(v) for v in roots]


def field_value(f, v):
    """How the value of a field is represented."""
    if v is None or v is MISSING:
        return v
    if isinstance(f, models.DateTimeField):
        return v
    if isinstance(f, models.DateField):
        return D(v.year, v.month, v.day)
    if isinstance(f, models.TimeField):
        return D(1970, 1, 1, v.hour, v.minute, v.second, v.microsecond)
    if isinstance(f, models.FileField):
        return getattr(v, 'name', v)
    return v


def key_of(o):
    return id(o) if o.pk is None else (type(o), o.pk)


def expected(v, seen):
    """The wire objects of a value, one for each row or unsaved object."""
    if isinstance(v, Query):
        # a new list each time
        return [expected(x, seen) for x in v]
    if isinstance(v, list):
        if id(v) not in seen:
            seen[id(v)] = out = []
            out.extend(expected(x, seen) for x in v)
        return seen[id(v)]
    if not isinstance(v, models.Model):
        return v
    k = key_of(v)
    if k in seen:
        return seen[k]
    out = seen[k] = O(NAMES[type(v)])
    relations = [f for f in v._meta.fields if isinstance(
        f, models.ForeignKey)]
    hidden = ('secret', 'a_ptr_id', 'a_ptr')
    for f in v._meta.fields:
        if f not in relations and f.name not in hidden:
            out.pairs[f.name] = field_value(f, getattr(v, f.name))
    for f in relations:
        if '_%s_cache' % f.name in v.__dict__ and f.name not in hidden:
            out.pairs[f.name] = expected(getattr(v, f.name), seen)
    for f in v._meta.many_to_many:
        out.pairs[f.name] = [expected(x, seen) for x in
                             v.__dict__.get('_prefetched_objects_cache', {})
                             .get(f.name, [])]
    known = set(f.attname for f in v._meta.fields)
    for a in v.__dict__:
        if not a.startswith('_') and a not in known:
            out.pairs[a] = v.__dict__[a]
    return out


def encode(vs, version):
    e = pyamf.get_encoder(version)
    for v in vs:
        e.writeElement(v)
    return e.stream.getvalue()


def written(ctx, sig, desc, vs, version, seen=None):
    """Encode values and read them independently; the bytes, if right."""
    ctx.step()
    ctx.trace()
    want = form([expected(v, seen) for seen in [{}] for v in vs])
    r = mc.attempt(encode, vs, version)
    if r[0] != 'ok':
        ctx.violation(sig, '%s: AMF%d raises %r' % (desc, version, r[1:]))
        return None
    s = mc.attempt(lambda: form(amfspec.read_all(r[1], version)))
    if s[:2] != ('ok', want):
        ctx.violation(sig, '%s: AMF%d writes %r, expected %r' % (
            desc, version, s[1:], want))
        return None
    return r[1]


# ---------------------------------------------------------------- the values
TEXTS = [None, u'', u'\xe9\u20ac']
NUMS = [None, 0, -1, 2 ** 28]
WHENS = [None, D(2009, 3, 8, 23, 30, 47, 770000), D(1901, 1, 1)]
DAYS = [None, datetime.date(2009, 3, 8), datetime.date(1, 1, 1),
        datetime.date(9999, 12, 31)]
TIMES = [None, datetime.time(0), datetime.time(23, 59, 59, 999000)]
FILES = [None, u'', u'a/b.txt']


def same(got, want):
    """Are two field values the same, with the types that matter?"""
    if isinstance(want, (int, float, long)) and not isinstance(want, bool):
        return got == want and not isinstance(got, bool)
    return type(got) is type(want) and got == want or (
        isinstance(want, basestring) and isinstance(got, basestring) and
        got == want)


def values(ctx):
    """Every combination of field values there and back."""
    space = list(itertools.product(TEXTS, NUMS, WHENS, DAYS, TIMES, FILES))
    ctx.bound('field values', len(space))
    for i, v in enumerate(space):
        cid = 'values %d' % i
        if not ctx.mine(cid):
            continue
        for pk in (None, 3):
            ROWS.clear()
            ROWS[A, 3] = lambda: A(id=3, name=u'old', n=77, f=u'old.txt',
                                   day=datetime.date(2000, 1, 1))
            o = A(pk, *v)
            desc = 'A%r' % ((pk,) + v,)
            ctx.state(desc)
            for version in (0, 3):
                data = written(ctx, 'values', desc, [o], version)
                if data is None:
                    continue
                r = mc.attempt(lambda: list(pyamf.decode(
                    data, encoding=version)))
                if r[0] != 'ok' or len(r[1]) != 1 or type(r[1][0]) is not A:
                    ctx.violation('values', '%s: AMF%d reads as %r' % (
                        desc, version, r[1:]))
                    continue
                b = r[1][0]
                wrong = [(n, getattr(b, n)) for n, x in zip(
                    ('id', 'name', 'n', 'when', 'day', 't'), (pk,) + v)
                    if not same(getattr(b, n), x)]
                # files can't be changed by the other side
                if (b.f.name or None) != (u'old.txt' if pk else None):
                    wrong.append(('f', b.f.name))
                if wrong:
                    ctx.violation('values', '%s: AMF%d reads with %r' % (
                        desc, version, wrong))
    # values that were not given, and what else an instance may have
    names = ['name', 'n', 'when', 'day', 't']
    for sub in itertools.product((False, True), repeat=5):
        cid = 'missing %r' % (sub,)
        if not ctx.mine(cid):
            continue
        for extra in ({}, {'x': 5}, {'_x': 5}, {'x': u'y', '_y': 1, 'z': None}):
            ctx.state((cid, sorted(extra)))
            o = A(1, *[v[1] for v in (TEXTS, NUMS, WHENS, DAYS, TIMES, FILES)])
            for n, s in zip(names, sub):
                if s:
                    setattr(o, n, MISSING)
            o.__dict__.update(extra)
            for version in (0, 3):
                written(ctx, 'missing', cid, [o], version)
    for o in (C(name=u'x', z=4), C(id=4, a_ptr_id=4, name=u'y', z=None),
              K(u'', True), K(u'x'), Z(1, u'n', u's', u'f'),
              Z(None, None, u's'), M(), M(id=3)):
        for sub in (lambda: [o], lambda: [o, o], lambda: [[o, o], o]):
            if isinstance(o, M) and o.pk:
                o._prefetched_objects_cache = {'many': Rows()}
            for version in (0, 3):
                if ctx.mine('kinds'):
                    ctx.state((repr(o), version))
                    written(ctx, 'kinds', repr(o), sub(), version)


def keys(ctx):
    """Rows are known by their key, whatever it is; only None is no key."""
    make = [lambda: A(id=0, name=u'a'), lambda: A(name=u'a'),
            lambda: A(id=2, name=u'a'), lambda: K(u''), lambda: K(u'k'),
            lambda: B(id=0), lambda: C(id=0, a_ptr_id=0, name=u'c'),
            lambda: Z(0, u'n')]
    n = 4 if ctx.thorough else 3
    seqs = [s for j in range(1, n + 1)
            for s in itertools.product(range(len(make)), repeat=j)]
    ctx.bound('sequences of rows', len(seqs))
    for s in seqs:
        if not ctx.mine('keys %r' % (s,)):
            continue
        ctx.state(('keys', s))
        os = [make[j]() for j in s]
        b = B(id=5, a=([o for o in os if type(o) is A] or [None])[-1])
        for version in (0, 3):
            kept(ctx, s, os, version)
            written(ctx, 'keys', 'rows %r' % (os,), [os, b], version)
            written(ctx, 'keys', 'rows %r' % (os,), [b] + os, version)


def kept(ctx, s, os, version):
    """What one message says of a row is not what the next one says."""
    e = pyamf.get_encoder(version)
    for i, o in enumerate(os):
        if 'name' in o.__dict__:
            o.name = u'name %d' % i
        e.context.clear()
        start = e.stream.tell()
        ctx.step()
        e.writeElement(o)
        e.stream.seek(start)
        got = e.stream.read()
        if got != encode([o], version):
            ctx.violation('kept', 'rows %r, AMF%d: a cleared encoder writes '
                          'row %d as %r' % (os, version, i, got))
            return


# ---------------------------------------------------------------- the graphs
def graphs(ctx):
    """Two Bs with every wiring to each other and to As and Ks."""
    apks = [(None, None), (1, 1), (1, 2), (None, 1)]
    targets = ['unset', 'unloaded', 'none', 0, 1]
    space = list(itertools.product(
        range(len(apks)), (None, 1, 2), (None, 1, 2), targets, targets,
        targets, targets))
    ctx.bound('graphs', len(space))
    for i, (ap, p1, p2, a1, a2, m1, m2) in enumerate(space):
        cid = 'graph %d' % i
        if not ctx.mine(cid):
            continue
        a = [A(id=apks[ap][j], name=u'a' if apks[ap][0] == apks[ap][1]
               else u'a%d' % j) for j in (0, 1)]
        b = [B(id=p1), B(id=p2)]
        k = K(u'k')
        for o, x in ((b[0], a1), (b[1], a2)):
            wire(o, 'a', x, a)
        for o, x in ((b[0], m1), (b[1], m2)):
            wire(o, 'me', x, b)
        b[1].k = k
        if p1 is not None and p1 == p2:
            b[0].k = k
            if [key(b[0], n) for n in ('a', 'me')] != [
                    key(b[1], n) for n in ('a', 'me')]:
                continue
        desc = 'As %r, Bs %r to A %r and B %r' % (
            apks[ap], (p1, p2), (a1, a2), (m1, m2))
        ctx.state(desc)
        for j, vs in enumerate(([b[0], b[1]], [[a[0], b[1], a[1], b[0], k]],
                                [a[1], Query([b[0], b[1]]), [b[1]]])):
            for version in (0, 3):
                data = written(ctx, 'graph', '%s, as %d' % (desc, j), vs,
                               version)
                if data is not None and j < 2 and (ctx.thorough or
                                                   version == 3):
                    back(ctx, '%s, as %d' % (desc, j), vs, version, data)


def wire(o, name, x, pool):
    if x == 'none':
        setattr(o, name, None)
    elif x == 'unloaded':
        setattr(o, name + '_id', 9)
    elif x != 'unset':
        setattr(o, name, pool[x])


def key(o, name):
    if '_%s_cache' % name not in o.__dict__:
        return getattr(o, name + '_id')
    v = getattr(o, name)
    return v and (type(v), key_of(v))


def back(ctx, desc, vs, version, data):
    """Decode again, with the rows of everything that was saved."""
    ctx.step()
    ROWS.clear()
    for cls in (A, B):
        for pk in (1, 2):
            ROWS[cls, pk] = lambda cls=cls, pk=pk: cls(id=pk)
    ROWS[K, u'k'] = lambda: K(u'k', True)
    r = mc.attempt(lambda: list(pyamf.decode(data, encoding=version)))
    if r[0] != 'ok':
        ctx.violation('graph read', '%s: AMF%d raises %r' % (
            desc, version, r[1:]))
        return
    got = mc.attempt(lambda: form([expected(v, seen) for seen in [{}]
                                   for v in r[1]]))
    want = form([expected(v, seen) for seen in [{}] for v in vs])
    if got[:2] != ('ok', want):
        ctx.violation('graph read', '%s: AMF%d reads as %r, expected %r' % (
            desc, version, got[1:], want))


# ------------------------------------------------------------- what is read
def wire_date(d):
    return ('date', float(ms(d)))


def absent():
    pass


READ = [
    ('id', [absent, ('null',), ('n', 0.0), ('undef',), ('n', 3.0)]),
    ('name', [absent, ('null',), ('s', u'new'), ('undef',)]),
    ('n', [absent, ('null',), ('n', 0.0), ('undef',)]),
    ('when', [absent, ('null',), wire_date(D(2010, 1, 2, 3, 4, 5))]),
    ('day', [absent, ('null',), wire_date(D(2010, 1, 2, 3, 4, 5)),
             ('undef',)]),
    ('t', [absent, ('null',), wire_date(D(1970, 1, 1)), ('undef',)]),
    ('f', [absent, ('s', u'evil.txt')]),
    ('x', [absent, ('n', 5.0)]),
]


def reading(ctx):
    """Every selection of attributes that a client may send."""
    space = list(itertools.product(*[range(len(v)) for n, v in READ]))
    ctx.bound('objects read', len(space))
    for sel in space:
        cid = 'read ' + ''.join(map(str, sel))
        if not ctx.mine(cid):
            continue
        ctx.state(cid)
        node = Node('typed', u'c29.A')
        sent = {}
        for (n, v), i in zip(READ, sel):
            if v[i] is not absent:
                node.pairs.append((n, v[i]))
                sent[n] = v[i]
        stored = sent.get('id') == ('n', 3.0)
        want = dict.fromkeys(['id', 'name', 'n', 'when', 'day', 't', 'f'])
        if stored:
            want.update(id=3, name=u'old', n=77, f=u'old.txt',
                        day=datetime.date(2000, 1, 1))
        for n, v in sent.items():
            if n == 'f':
                continue
            if v[0] == 'null' or n == 'id' and v == ('n', 0.0):
                want[n] = None
            elif v[0] == 'undef':
                want[n] = MISSING
            elif v[0] == 'date':
                d = D(1970, 1, 1) + datetime.timedelta(milliseconds=v[1])
                want[n] = d.date() if n == 'day' else d.time() \
                    if n == 't' else d
            else:
                want[n] = v[1]
        for version in (0, 3) if ctx.thorough or sum(sel) % 2 else (3,):
            ROWS.clear()
            ROWS[A, 3] = lambda: A(id=3, name=u'old', n=77, f=u'old.txt',
                                   day=datetime.date(2000, 1, 1))
            del LOOKUPS[:]
            ctx.step()
            ctx.trace()
            data = amfspec.write(node, version)
            r = mc.attempt(lambda: list(pyamf.decode(data,
                                                     encoding=version)))
            if r[0] != 'ok' or len(r[1]) != 1 or type(r[1][0]) is not A:
                ctx.violation('reading', 'AMF%d A with %r reads as %r' % (
                    version, sent, r[1:]))
                continue
            o = r[1][0]
            wrong = []
            for n, x in want.items():
                g = o.f.name or None if n == 'f' else o.__dict__.get(n)
                if not same(g, x):
                    wrong.append((n, g, x))
            if o.__dict__.get('x') != want.get('x'):
                wrong.append(('x', o.__dict__.get('x')))
            if wrong or [p for p in LOOKUPS if p != 3]:
                ctx.violation('reading', 'AMF%d A with %r: got and expected '
                              '%r, looked up %r' % (version, sent, wrong,
                                                    LOOKUPS))
    for fixed, secret, name in itertools.product(
            (absent, ('s', u'evil'), ('null',)), repeat=3):
        cid = 'rules %r' % ((fixed, secret, name),)
        if not ctx.mine('rules'):
            continue
        ctx.state((fixed, secret, name))
        for version, row in itertools.product((0, 3), (False, True)):
            ROWS.clear()
            ROWS[Z, 1] = lambda: Z(1, u'old', u'old', u'old')
            node = Node('typed', u'c29.Z')
            node.pairs = [(n, v) for n, v in (
                ('fixed', fixed), ('secret', secret), ('name', name))
                if v is not absent]
            if row:
                node.pairs.append(('id', ('n', 1.0)))
            ctx.step()
            r = mc.attempt(lambda: list(pyamf.decode(amfspec.write(
                node, version), encoding=version))[0])
            old = u'old' if row else None
            want = (old, old, old if name is absent else
                    None if name[0] == 'null' else name[1])
            got = isinstance(r[1], Z) and (r[1].fixed, r[1].secret, r[1].name)
            if got != want:
                ctx.violation('rules', '%s AMF%d: %r, expected %r' % (
                    cid, version, got or r, want))


# ------------------------------------------------------------------ histories
def histories(ctx):
    """One encoder, several values: rows are sent once until it is cleared."""
    def ops():
        a1, a2, u = A(id=1, name=u'a'), A(id=2, name=u'b'), A(name=u'u')
        k = K(u'1')
        b = B(id=1)
        b.a = A(id=1, name=u'a')
        b.k = K(u'1')
        c = C(id=1, a_ptr_id=1, name=u'c')
        mm = M(id=1)
        mm.one = K(u'1')
        mm._prefetched_objects_cache = {'many': Rows(
            [a2, A(id=1, name=u'a'), A(name=u'v')])}
        lst = [a1, A(id=1, name=u'a')]
        return [a1, A(id=1, name=u'a'), a2, u, k, b, c, mm, lst,
                Query([a2, b]), None]
    n = 4 if ctx.thorough else 3
    count = len(ops())
    for seq in mc.seqs_upto(range(count), n):
        cid = 'history %r' % (seq,)
        if not ctx.mine(cid):
            continue
        ctx.state(cid)
        for version in (0, 3):
            ctx.step(len(seq))
            ctx.trace()
            vals = ops()
            e = pyamf.get_encoder(version)
            parts, part = [], []
            for i in seq:
                if vals[i] is None:
                    parts.append((part, e.stream.getvalue()))
                    part = []
                    e.stream.truncate()
                    e.context.clear()
                    continue
                r = mc.attempt(e.writeElement, vals[i])
                if r[0] != 'ok':
                    ctx.violation('history', '%s: AMF%d raises %r' % (
                        cid, version, r[1:]))
                part.append(vals[i])
            parts.append((part, e.stream.getvalue()))
            for part, data in parts:
                want = form([expected(v, seen) for seen in [{}]
                             for v in part])
                s = mc.attempt(lambda: form(amfspec.read_all(data, version)))
                if s[:2] != ('ok', want):
                    ctx.violation('history', '%s: AMF%d writes %r, expected '
                                  '%r' % (cid, version, s[1:], want))


# -------------------------------------------------------------------- others
def others(ctx):
    """Lazy text, missing values, queries, and the users of Django."""
    lazy = [ugettext_lazy(u'text \xe9'), ugettext_lazy('text'),
            ugettext_lazy(u'')]
    plain = [u'text \xe9', u'text', u'']
    for i, (l, p) in enumerate(zip(lazy, plain)):
        for version in (0, 3):
            for wrap in (lambda x: x, lambda x: [x, x], lambda x: {u'k': x},
                         lambda x: A(name=x)):
                if not ctx.mine('lazy'):
                    continue
                ctx.state((i, version))
                ctx.step()
                ctx.trace()
                r = mc.attempt(encode, [wrap(l)], version)
                w = encode([wrap(p)], version)
                if r[:2] != ('ok', w):
                    ctx.violation('lazy', 'lazy %r: AMF%d writes %r' % (
                        p, version, r[1:]))
    for vs, want in (([MISSING], [MISSING]), ([[MISSING, 1]], [[MISSING, 1]]),
                     ([Query([])], [[]]), ([Query([1, None])], [[1, None]])):
        for version in (0, 3):
            if not ctx.mine('missing'):
                continue
            ctx.step()
            r = mc.attempt(lambda: form(amfspec.read_all(encode(
                vs, version), version)))
            if r[:2] != ('ok', form(want)):
                ctx.violation('missing', '%r: AMF%d writes %r' % (
                    vs, version, r[1:]))
    for pk, version, loaded in itertools.product(
            (None, 1), (0, 3), (False, True)):
        if not ctx.mine('users'):
            continue
        ctx.state(('user', pk, version, loaded))
        ctx.step()
        ctx.trace()
        u = User(id=pk, username=u'joe', password=u'pa55', email=u'e')
        if pk:
            u._prefetched_objects_cache = {
                'groups': Rows([Group(name=u'g')] if loaded else []),
                'user_permissions': Rows()}
            for g in u._prefetched_objects_cache['groups']:
                pass
        elif loaded:
            continue
        r = mc.attempt(encode, [u], version)
        s = mc.attempt(lambda: amfspec.read_all(r[1], version)[0])
        d = s[0] == 'ok' and dict(s[1].pairs)
        if not d or s[1].name != 'django.contrib.auth.models.User' or \
                'password' in d or 'pa55' in r[1] or \
                d['username'] != ('s', u'joe') or d['email'] != ('s', u'e') \
                or len(d['groups'].items) != int(loaded):
            ctx.violation('users', 'user %r: AMF%d writes %r' % (
                pk, version, r[1:]))
            continue
        for names in itertools.product((False, True), repeat=3):
            node = Node('typed', u'django.contrib.auth.models.User')
            sent = [n for n, x in zip(('username', 'password', 'email'),
                                      names) if x]
            node.pairs = [(n, ('s', u'evil')) for n in sent]
            ctx.step()
            r = mc.attempt(lambda: list(pyamf.decode(
                amfspec.write(node, version), encoding=version))[0])
            got = isinstance(r[1], User) and (r[1].username, r[1].password, r[1].email)
            want = (u'', u'', u'evil' if 'email' in sent else u'')
            if got != want:
                ctx.violation('users', 'user with %r: AMF%d reads %r' % (
                    sent, version, got or r))


def run(ctx):
    for c in NAMES:
        pyamf.register_class(c, NAMES[c].encode('ascii'))
    values(ctx)
    keys(ctx)
    graphs(ctx)
    reading(ctx)
    histories(ctx)
    others(ctx)
    ctx.sample('B(id=1) and B(id=1) to A(id=1) and A(id=1), the same rows')
    ctx.assume('two instances of one row that are encoded together hold the '
               'same values; a client only names rows that exist; there is '
               'no database, relations are assigned or prefetched')
