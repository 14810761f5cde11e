"""C31: Objects mapped by SQLAlchemy keep what is loaded and what is not.

The adapters are the real ones, the libraries below them are those of
lib/sa_model.py.
"""
import itertools

import pyamf

import amfspec
import mc
import sa_model
from amfspec import Node

sa_model.install()

import sqlalchemy
import sqlalchemy.orm
import sqlalchemy.orm.collections
import elixir
import elixir.entity

from sa_model import ColumnProperty as Col, RelationProperty as Rel

state_of = sa_model.instance_state


# ---------------------------------------------------------------- the models
class Base(object):
    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)


class User(Base):
    def __init__(self, **kw):
        Base.__init__(self, **kw)
        # nothing of this may show in an object that is decoded
        self.name = u'made by __init__'
        self.addresses = []


class Address(Base):
    pass


class Person(Base):
    _rw = u'rw'

    @property
    def ro(self):
        return u'ro'

    def _get(self):
        return self._rw

    def _set(self, v):
        self._rw = v
    rw = property(_get, _set)


class Worker(Person):
    pass


class NoKey(Base):
    class __amf__:
        exclude = ['sa_key']


class NoLazy(Base):
    class __amf__:
        exclude = ['sa_lazy']


class Static(Base):
    class __amf__:
        static = ['name', 'id']


class Sealed(Base):
    class __amf__:
        dynamic = False


class Plain(object):
    """not mapped"""


class SubUser(User):
    """not mapped itself"""


class Old:
    pass


class Movie(elixir.Entity):
    _descriptor = sa_model.Descriptor('movie', [['director_id', 'studio_id']])


class Director(elixir.Entity):
    _descriptor = sa_model.Descriptor('person', polymorphic='row_type')


class Star(Director):
    _descriptor = sa_model.Descriptor(
        'star', [['person_id'], ['agent_id']], parent=Director,
        polymorphic='row_type')


COLS = ('id', 'name', 'n')


def cols(*names):
    return [(n, Col()) for n in names]


def map_all():
    sa_model.mapper(User, cols('id', 'name', 'n') + [
        ('addresses', Rel(Address, True, 'user')),
        ('best', Rel(Address))], ['id'])
    sa_model.mapper(Address, cols('id', 'kind', 'email') + [
        ('user', Rel(User, False, 'addresses'))], ['id', 'kind'])
    sa_model.mapper(Person, cols('id', 'name') + [
        ('label', sa_model.SynonymProperty('name'))], ['id'])
    sa_model.mapper(Worker, cols('pay'), ['id'], inherits=Person)
    for c in (NoKey, NoLazy, Static, Sealed):
        sa_model.mapper(c, cols('id', 'name', 'n'), ['id'])
    sa_model.mapper(Movie, cols('title', 'year', 'director_id', 'studio_id')
                    + [('director', Rel(Director, False, 'movies'))],
                    ['title', 'year'])
    sa_model.mapper(Director, cols('id', 'name', 'row_type') + [
        ('movies', Rel(Movie, True, 'director'))], ['id'])
    sa_model.mapper(Star, cols('person_id', 'agent_id', 'fee'), ['id'],
                    inherits=Director)
    for c in (User, Address, Person, Worker, Movie, Director, Star, Plain,
              SubUser, NoKey, NoLazy, Static, Sealed):
        pyamf.register_class(c, 'c31.' + c.__name__)


#: what is not sent: the keys to other tables, and the type of the row
HIDDEN = {Movie: ('director_id', 'studio_id'), Director: ('row_type',),
          Star: ('row_type', 'person_id', 'agent_id'),
          NoKey: ('sa_key',), NoLazy: ('sa_lazy',)}
EXTRA = {Person: ('ro', 'rw'), Worker: ('ro', 'rw')}


def props_of(cls):
    return [p.key for p in sa_model.class_mapper(cls).iterate_properties]


def is_mapped(v):
    return type(v) in sa_model._mappers


# ------------------------------------------------------------- the wire form
class O(object):
    def __init__(self, name):
        self.name = name
        self.pairs = {}


def form(roots):
    seen = {}

    def go(v):
        if isinstance(v, (Node, O, list)):
            if id(v) in seen:
                return ('ref', seen[id(v)])
            n = seen[id(v)] = len(seen)
            if isinstance(v, list):
                return ('list', n, [go(x) for x in v])
            if isinstance(v, Node) and v.kind in ('array', 'strict'):
                return ('list', n, [go(x) for x in v.items])
            pairs = v.pairs.items() if isinstance(v, O) else v.pairs
            return ('obj', n, v.name or None,
                    [(k, go(x)) for k, x in sorted(pairs)])
        if isinstance(v, tuple):
            if v[0] == 'null':
                return None
            if v[0] == 'n':
                return float(v[1])
            return v[1]
        if isinstance(v, bool) or v is None or isinstance(v, basestring):
            return v
        return float(v)
    return [go(v) for v in roots]


def value_of(o, name):
    """The value of an attribute, from the rows if it is not loaded."""
    prop = dict((p.key, p) for p in
                sa_model.class_mapper(type(o)).iterate_properties)[name]
    if isinstance(prop, sa_model.SynonymProperty):
        return value_of(o, prop.name)
    if name in o.__dict__:
        return o.__dict__[name]
    st = state_of(o)
    if st.key is None:
        return [] if isinstance(prop, Rel) and prop.uselist else None
    v = st.session.rows[st.key].get(name)
    if isinstance(prop, Rel):
        if prop.uselist:
            return [st.session.get(*x) for x in v or ()]
        return st.session.get(*v) if v else None
    return v


def expected(v, seen):
    if isinstance(v, (list, tuple)):
        if isinstance(v, sa_model.InstrumentedList):
            # converted each time
            return [expected(x, seen) for x in v]
        if id(v) not in seen:
            seen['keep', id(v)] = v
            seen[id(v)] = out = []
            out.extend([expected(x, seen) for x in v])
        return seen[id(v)]
    if not is_mapped(v):
        return v
    if id(v) in seen:
        return seen[id(v)]
    cls = type(v)
    out = seen[id(v)] = O(unicode('c31.' + cls.__name__))
    names = [n for n in props_of(cls) if n not in HIDDEN.get(cls, ())]
    for n in names:
        x = value_of(v, n)
        if isinstance(x, list) and n not in v.__dict__:
            # made when it is read
            x = list(x)
        out.pairs[n] = expected(x, seen)
    for n in EXTRA.get(cls, ()):
        out.pairs[n] = getattr(v, n)
    for n in v.__dict__:
        if n not in out.pairs and n not in HIDDEN.get(cls, ()) and \
                not n.startswith('_sa_') and n != '_rw':
            out.pairs[n] = v.__dict__[n]
    if '_rw' in v.__dict__:
        out.pairs['_rw'] = v._rw
    if cls is not NoKey:
        out.pairs['sa_key'] = expected(
            [value_of(v, k)
             for k in sa_model.class_mapper(cls).primary_key], seen)
    if cls is not NoLazy:
        out.pairs['sa_lazy'] = LAZY
    return out


#: the names of what remains unloaded, see lazy_names
LAZY = O('lazy')


def encode(vs, version):
    e = pyamf.get_encoder(version)
    for v in vs:
        e.writeElement(v)
    return e.stream.getvalue()


def decode(data, version):
    return list(pyamf.decode(data, encoding=version))


def strip_lazy(nodes, found):
    """Replaces the lists of lazy attributes by a mark."""
    seen = set()

    def go(v):
        if isinstance(v, Node) and id(v) not in seen:
            seen.add(id(v))
            keep = []
            for i, (k, x) in enumerate(v.pairs or ()):
                if k == 'sa_lazy' and v.name:
                    if isinstance(x, Node):
                        found.append((v.name, [y[1] for y in x.items]))
                    else:
                        found.append((v.name, x))
                    continue
                keep.append((k, x))
                go(x)
            if v.pairs:
                v.pairs[:] = keep
            for x in v.items or ():
                go(x)
    for n in nodes:
        go(n)


def strip_mark(o, seen):
    if isinstance(o, O) and id(o) not in seen:
        seen.add(id(o))
        o.pairs.pop('sa_lazy', None)
        for x in o.pairs.values():
            strip_mark(x, seen)
    elif isinstance(o, list) and id(o) not in seen:
        seen.add(id(o))
        for x in o:
            strip_mark(x, seen)


def objects_of(vs):
    out = []

    def go(v):
        if isinstance(v, (list, tuple)):
            for x in v:
                go(x)
        elif is_mapped(v) and not [o for o in out if o is v]:
            out.append(v)
            for n in sorted(v.__dict__):
                if not n.startswith('_sa_'):
                    go(v.__dict__[n])
    go(vs)
    return out


def written(ctx, sig, desc, vs, version):
    """Encode values and read them independently; the bytes, if right."""
    ctx.step()
    ctx.trace()
    seen = {}
    want = [expected(v, seen) for v in vs]
    marked = set()
    for w in want:
        strip_mark(w, marked)
    want = form(want)
    before = [(state_of(o), state_of(o).modified,
               dict(state_of(o).committed_state)) for o in objects_of(vs)]
    r = mc.attempt(encode, vs, version)
    if r[0] != 'ok':
        ctx.violation(sig, '%s: AMF%d raises %r' % (desc, version, r[1:]))
        return None
    nodes = mc.attempt(amfspec.read_all, r[1], version)
    if nodes[0] != 'ok':
        ctx.violation(sig, '%s: AMF%d writes %r' % (desc, version, r[1]))
        return None
    lazy = []
    strip_lazy(nodes[1], lazy)
    got = mc.attempt(form, nodes[1])
    if got[:2] != ('ok', want):
        ctx.violation(sig, '%s: AMF%d writes %r, expected %r' % (
            desc, version, got[1:], want))
        return None
    for name, names in lazy:
        # everything has been loaded, only other names are never in there
        cls = [c for c in sa_model._mappers
               if name == 'c31.' + c.__name__][0]
        never = [k for k, p in sa_model.class_mapper(cls)._props
                 if isinstance(p, sa_model.SynonymProperty)
                 or k in HIDDEN.get(cls, ())]
        if not isinstance(names, list) or not set(names) <= set(never):
            ctx.violation(sig + '-lazy', '%s: AMF%d, a %s is written with '
                          'its values and sa_lazy %r' % (
                              desc, version, name, names))
            return None
    for st, modified, committed in before:
        if st.modified != modified or st.committed_state != committed:
            ctx.violation(sig + '-modified', '%s: AMF%d, encoding marks %r '
                          'as modified: %r' % (desc, version, st.instance,
                                               st.committed_state))
            return None
    return r[1]


# ------------------------------------------------------------------- values
VALUES = {'id': [None, 1, u'k'], 'name': [None, u'', u'\xe9'],
          'n': [0, -1, 2 ** 40, 0.5, True]}


def values(ctx):
    """Every combination of values, in every state, with anything loaded."""
    space = list(itertools.product(
        VALUES['id'], VALUES['name'], VALUES['n'], (0, 1, 2)))
    loads = [tuple(itertools.compress(
        ('id', 'name', 'n', 'addresses', 'best'), b))
        for b in itertools.product((0, 1), repeat=5)]
    ctx.bound('values', len(space))
    ctx.bound('loaded attributes', len(loads))
    for i, (id_, name, n, many) in enumerate(space):
        for j, loaded in enumerate(('transient',) + tuple(loads)):
            cid = 'values %d %d' % (i, j)
            if not ctx.mine(cid):
                continue
            for version in (0, 3):
                row = {'id': id_, 'name': name, 'n': n,
                       'addresses': [(Address, (7, u'x')),
                                     (Address, (8, u'y'))][:many],
                       'best': (Address, (7, u'x')) if many else None}
                rows = {(User, (id_,)): row}
                for a in (7, 8):
                    key = (a, u'x' if a == 7 else u'y')
                    rows[(Address, key)] = {
                        'id': a, 'kind': key[1], 'email': u'e%d' % a,
                        'user': (User, (id_,))}
                s = sa_model.Session(rows)
                if loaded == 'transient':
                    u = sa_model.class_mapper(
                        User).class_manager.new_instance()
                    u.id, u.name, u.n = id_, name, n
                    u.addresses = [Address(id=7, kind=u'x'),
                                   Address(id=8, kind=u'y')][:many]
                    if many:
                        u.best = u.addresses[0]
                else:
                    u = s.get(User, (id_,), loaded)
                desc = 'a user %r with %r loaded' % (row, loaded)
                ctx.state((i, j))
                data = written(ctx, 'values', desc, [u], version)
                if data is not None:
                    back(ctx, 'values', desc, [u], data, version)


def graph_form(roots):
    """What the objects are, by their attributes."""
    seen = {}

    def go(v):
        if isinstance(v, list):
            return [go(x) for x in v]
        if is_mapped(v):
            if id(v) in seen:
                return ('ref', seen[id(v)])
            n = seen[id(v)] = len(seen)
            cls = type(v)
            names = set(props_of(cls)) - set(HIDDEN.get(cls, ()))
            names.update(k for k in v.__dict__ if not k.startswith('_sa_'))
            names.update(EXTRA.get(cls, ()))
            names.discard('_rw')
            names -= set(HIDDEN.get(cls, ()))
            return (cls, n, [(k, go(getattr(v, k))) for k in sorted(names)])
        if isinstance(v, (int, long, float)) and not isinstance(v, bool):
            return float(v)
        return v
    return [go(v) for v in roots]


def back(ctx, sig, desc, vs, data, version):
    ctx.step()
    want = graph_form(vs)
    r = mc.attempt(decode, data, version)
    if r[0] != 'ok':
        ctx.violation(sig + '-back', '%s: AMF%d raises %r' % (
            desc, version, r[1:]))
        return
    got = mc.attempt(graph_form, r[1])
    if got[:2] != ('ok', want):
        ctx.violation(sig + '-back', '%s: AMF%d reads as %r, expected %r' % (
            desc, version, got[1:], want))


# ------------------------------------------------------------------ decoding
def wire(v):
    if v is None:
        return amfspec.NULL
    if v is pyamf.Undefined:
        return amfspec.UNDEF
    if isinstance(v, bool):
        return ('b', v)
    if isinstance(v, (int, long, float)):
        return ('n', v)
    if isinstance(v, basestring):
        return ('s', unicode(v))
    if isinstance(v, Node):
        return v
    out = Node('array')
    out.items = [wire(x) for x in v]
    return out


def payload(name, pairs, version):
    out = Node('typed', unicode(name))
    out.pairs = [(unicode(n), wire(v)) for n, v in pairs]
    return amfspec.write(out, version)


def lazy(ctx):
    """
    Each attribute is sent or not, and named as lazy or not: what is lazy is
    left for the database, what is sent is a change.
    """
    sent = {'id': 5, 'name': u'sent', 'n': 0.5}
    hows = ('absent', 'value', 'null', 'undefined')
    for cls in (User, NoKey, NoLazy, Static, Sealed, Worker):
        names = ('id', 'name', 'pay') if cls is Worker else COLS
        for sub in itertools.product(hows, repeat=3):
            for named in itertools.product((0, 1), repeat=3):
                for shape in ('list', 'none', 'null', 'list other'):
                    cid = 'lazy %s %r' % (cls.__name__, (sub, named, shape))
                    if not ctx.mine(cid):
                        continue
                    if shape in ('none', 'null') and any(named):
                        continue
                    if cls is Static and (
                            sub[0] == 'absent' or sub[1] == 'absent'):
                        continue
                    lazy_one(ctx, cid, cls, names, sub, named, shape, sent)


def lazy_one(ctx, cid, cls, names, sub, named, shape, sent):
    pairs, want = [], {}
    for n, how, l in zip(names, sub, named):
        v = {'value': sent.get(n, 3), 'null': None,
             'undefined': pyamf.Undefined, 'absent': None}[how]
        if how != 'absent':
            pairs.append((n, v))
            if not l or cls is NoLazy:
                want[n] = v
    if shape.startswith('list'):
        names_ = [n for n, l in zip(names, named) if l]
        if shape == 'list other':
            # there is no such attribute any more
            names_.insert(0, u'gone')
        pairs.insert(len(pairs) // 2, ('sa_lazy', names_))
    elif shape == 'null':
        pairs.append(('sa_lazy', None))
    pairs.append(('sa_key', [5]))
    ctx.state(cid)
    for version in (0, 3):
        ctx.step()
        ctx.trace()
        data = payload('c31.' + cls.__name__, pairs, version)
        desc = 'a %s is sent as %r' % (cls.__name__, pairs)
        r = mc.attempt(decode, data, version)
        if r[0] != 'ok' or type(r[1][0]) is not cls:
            ctx.violation('lazy', '%s: AMF%d reads as %r' % (
                desc, version, r[1:]))
            continue
        o = r[1][0]
        got = dict(o.__dict__)
        st = got.pop('_sa_instance_state', None)
        if got != want:
            ctx.violation('lazy', '%s: AMF%d leaves %r, expected %r' % (
                desc, version, got, want))
        elif st is not state_of(o) or set(st.committed_state) != set(want):
            ctx.violation('lazy', '%s: AMF%d marks %r as modified, expected '
                          '%r' % (desc, version, st and st.committed_state,
                                  sorted(want)))


def fresh(ctx):
    """
    What __init__ or an earlier event has put in place of what is lazy is
    removed, along with the mark of the change.
    """
    names = ('name', 'addresses', 'best')
    for before in itertools.product((0, 1, 2), repeat=3):
        for named in itertools.product((0, 1), repeat=3):
            cid = 'fresh %r' % ((before, named),)
            if not ctx.mine(cid):
                continue
            ctx.state(cid)
            ctx.step()
            alias = pyamf.get_class_alias(User)
            u = alias.createInstance()
            vals = {'name': u'old', 'addresses': [Address(id=1)],
                    'best': Address(id=2)}
            for n, b in zip(names, before):
                if b == 2:
                    # what it had was empty, and had been stored
                    u.__dict__[n] = [] if n == 'addresses' else None
                if b:
                    setattr(u, n, vals[n])
            keep = [n for n, b, l in zip(names, before, named)
                    if b and not l]
            attrs = {'id': 3, 'sa_key': [3], 'sa_lazy': [
                n for n, l in zip(names, named) if l]}
            r = mc.attempt(alias.applyAttributes, u, attrs)
            got = sorted(k for k in u.__dict__ if not k.startswith('_sa_'))
            mod = sorted(state_of(u).committed_state)
            want = sorted(keep + ['id'])
            if r[0] != 'ok' or got != want or mod != want or u.id != 3:
                ctx.violation('fresh', '%s: %r, has %r, modified %r, '
                              'expected %r' % (cid, r[1:], got, mod, want))


# ------------------------------------------------------------------- graphs
def graphs(ctx):
    """Two users and two addresses with every wiring and repetition."""
    space = list(itertools.product(
        ('transient', 'persistent', 'some'), (None, 0, 1), (None, 0, 1),
        (None, 0, 1), (None, 0, 1)))
    ctx.bound('graphs', len(space))
    for i, (state, o1, o2, b1, b2) in enumerate(space):
        cid = 'graph %d' % i
        if not ctx.mine(cid):
            continue
        for version in (0, 3):
            for j in range(4):
                us, as_ = build(state, (o1, o2), (b1, b2))
                vs = [[us[0], us[1]], [[us[1], as_[0], us[1], as_[1], us[0]]],
                      [as_[0], as_[1], [us[0]], us[0]],
                      [us[0].addresses, us[0], [us[1].addresses,
                                                us[1].addresses]]][j]
                ctx.state((cid, j))
                desc = '%s users with addresses of %r, best %r, as %d' % (
                    state, (o1, o2), (b1, b2), j)
                data = written(ctx, 'graph', desc, vs, version)
                if data is not None:
                    back(ctx, 'graph', desc, vs, data, version)


def build(state, owners, best):
    if state == 'transient':
        new = lambda c: sa_model.class_mapper(c).class_manager.new_instance()
        us, as_ = [new(User), new(User)], [new(Address), new(Address)]
        for k, u in enumerate(us):
            u.id, u.name = k, u'u%d' % k
        for k, a in enumerate(as_):
            a.id, a.kind, a.email = k, u'k', u'e%d' % k
            if owners[k] is not None:
                a.user = us[owners[k]]
        for k, u in enumerate(us):
            if best[k] is not None:
                u.best = as_[best[k]]
        return us, as_
    rows = {}
    for k in (0, 1):
        rows[(User, (k,))] = {
            'id': k, 'name': u'u%d' % k, 'n': 3,
            'addresses': [(Address, (a, u'k')) for a in (0, 1)
                          if owners[a] == k],
            'best': (Address, (best[k], u'k'))
            if best[k] is not None else None}
        rows[(Address, (k, u'k'))] = {
            'id': k, 'kind': u'k', 'email': u'e%d' % k,
            'user': (User, (owners[k],)) if owners[k] is not None else None}
    s = sa_model.Session(rows)
    some = state == 'some'
    return [s.get(User, (k,), ('addresses', 'name') if some and k else ())
            for k in (0, 1)], \
        [s.get(Address, (k, u'k'), ('user',) if some and k else ())
         for k in (0, 1)]


# -------------------------------------------------------------- collections
def collections(ctx):
    """The collections of relations are written as what they are."""
    m = sqlalchemy.orm.collections
    items = (None, u'a', 1, [2], u'\xe9')
    for size in range(4):
        for vals in itertools.product(items, repeat=size):
            cid = 'collections %r' % (vals,)
            if not ctx.mine(cid):
                continue
            ctx.state(cid)
            plain = list(vals)
            for version in (0, 3):
                cases = [(m.InstrumentedList(plain), [plain]),
                         (m.CollectionAdapter(plain), [plain]),
                         (m.InstrumentedDict((unicode('k%d' % k), v) for k, v
                                             in enumerate(plain)),
                          [dict((unicode('k%d' % k), v)
                                for k, v in enumerate(plain))])]
                if not [v for v in vals if isinstance(v, list)]:
                    cases.append((m.InstrumentedSet(plain),
                                  [list(p) for p in itertools.permutations(
                                      set(plain))]))
                for coll, wants in cases:
                    ctx.step()
                    r = mc.attempt(encode, [coll], version)
                    ok = [mc.attempt(encode, [w], version)[1] for w in wants]
                    if isinstance(coll, dict):
                        # in any order
                        n = mc.attempt(lambda: sorted(
                            amfspec.read_all(r[1], version)[0].pairs))
                        w = sorted(amfspec.read_all(ok[0], version)[0].pairs)
                        good = n[0] == 'ok' and form(
                            [x[1] for x in n[1]]) == form(
                            [x[1] for x in w]) and [
                                x[0] for x in n[1]] == [x[0] for x in w]
                    else:
                        good = r[0] == 'ok' and r[1] in ok
                    if not good:
                        ctx.violation('collections', '%r: AMF%d writes %r' % (
                            coll, version, r[1:]))


# ------------------------------------------------------- kinds of classes
def kinds(ctx):
    """Which classes are treated as mapped, and what of them is sent."""
    if not ctx.mine('kinds'):
        return
    sub = SubUser.__new__(SubUser)
    plain = Plain()
    plain.x = 1
    old = Old()
    old.x = 1
    for o, has in ((plain, False), (old, False), ({'x': 1}, False)):
        for version in (0, 3):
            ctx.step()
            r = mc.attempt(lambda: amfspec.read_all(
                encode([o], version), version)[0])
            got = r[0] == 'ok' and sorted(k for k, v in r[1].pairs)
            if got != [u'x']:
                ctx.violation('kinds', '%r: AMF%d writes %r' % (
                    o, version, r[1:]))
    del sub


def flavours(ctx):
    """The other classes, with every value of their attributes."""
    for cls in (NoKey, NoLazy, Static, Sealed, Person, Worker):
        for id_, name, n in itertools.product(*[VALUES[k] for k in COLS]):
            for st in ('transient', 'persistent'):
                for rw in (None, u'z'):
                    cid = 'flavour %s %r' % (cls.__name__, (
                        id_, name, n, st, rw))
                    if not ctx.mine(cid) or rw and cls not in EXTRA:
                        continue
                    for version in (0, 3):
                        row = {'id': id_, 'name': name,
                               'pay' if cls is Worker else 'n': n}
                        if cls is Person:
                            del row['n']
                        if st == 'transient':
                            o = cls(**row)
                        else:
                            o = sa_model.Session({(cls, (id_,)): row}).get(
                                cls, (id_,))
                        if rw:
                            o.rw = rw
                        ctx.state(cid)
                        data = written(ctx, 'flavour', cid, [o], version)
                        if data is not None:
                            back(ctx, 'flavour', cid, [o], data, version)


def entities(ctx):
    """Elixir: keys to other tables and the type of rows are not sent."""
    for cls, id_, name, n in itertools.product(
            (Movie, Director, Star), *[VALUES[k] for k in COLS]):
        cid = 'entity %s %r' % (cls.__name__, (id_, name, n))
        if not ctx.mine(cid):
            continue
        ctx.state(cid)
        for version in (0, 3):
            rows = {(Movie, (name, n)): {
                'title': name, 'year': n, 'director_id': id_,
                'studio_id': 9, 'director': (
                    Director if cls is Movie else cls, (id_,))}}
            d = Director if cls is Movie else cls
            rows[(d, (id_,))] = {
                'id': id_, 'name': name, 'row_type': u'd', 'person_id': 3,
                'agent_id': 4, 'fee': n,
                'movies': [(Movie, (name, n))] if cls is Movie else []}
            s = sa_model.Session(rows)
            o = s.get(cls, (name, n) if cls is Movie else (id_,))
            data = written(ctx, 'entity', cid, [o, [o]], version)
            if data is not None:
                back(ctx, 'entity', cid, [o, [o]], data, version)


def run(ctx):
    for mod in ('sqlalchemy.orm', 'sqlalchemy.orm.collections', 'elixir'):
        r = mc.attempt(pyamf.get_adapter, mod)
        if r[0] != 'ok':
            ctx.violation('adapter', '%s: %r' % (mod, r[1:]))
            return
    map_all()
    for f in (kinds, values, lazy, fresh, graphs, collections, flavours,
              entities):
        f(ctx)
