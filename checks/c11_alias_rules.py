"""C11: declared attribute rules against a model of what they mean.

A class declares, per attribute, any combination of static, exclude, readonly,
proxy and synonym, plus whether it is dynamic; it may be a plain, classic,
slotted or property class and inherit rules. For every configuration and every
set of attributes present, the wire form is read by the reference reader and
hand written wire forms are decoded.
"""
import itertools
import struct
import types

import pyamf
from pyamf import amf0, amf3, flex

import amfspec
import globalstate
import mc

AC = u'flex.messaging.io.ArrayCollection'
OP = u'flex.messaging.io.ObjectProxy'
EXT = {AC: lambda r: r.value(), OP: lambda r: r.value()}

RULES = 'SXRPY'         # static exclude readonly proxy synonYm
NAMES = ('a', 'b', 'c')
WIRE = {'a': 'wa', 'b': 'wb'}

# what the wire says for each attribute: (plain AMF3, plain AMF0, abstract)
PLAIN3 = {'a': '\x09\x03\x01\x04\x07', 'b': '\x0a\x0b\x01\x03k\x04\x01\x01',
          'c': '\x04\x03'}
PLAIN0 = {'a': '\x0a\0\0\0\x01\0' + struct.pack('>d', 7),
          'b': '\x03\0\x01k\0' + struct.pack('>d', 1) + '\0\0\x09',
          'c': '\0' + struct.pack('>d', 3)}


def value(n):
    return {'a': [7], 'b': {u'k': 1}, 'c': 3}[n]


class Rules(object):
    def __init__(self, per, dynamic=None):
        self.S = set(n for n in per if 'S' in per[n])
        self.X = set(n for n in per if 'X' in per[n])
        self.R = set(n for n in per if 'R' in per[n])
        self.P = set(n for n in per if 'P' in per[n])
        self.Y = dict((n, WIRE[n]) for n in per if 'Y' in per[n])
        self.dynamic = dynamic

    def meta(self, order=1):
        d = {}
        for k, v in (('static', self.S), ('exclude', self.X),
                     ('readonly', self.R), ('proxy', self.P)):
            if v:
                d[k] = tuple(sorted(v)[::order])
        if self.Y:
            d['synonym'] = dict(self.Y)
        if self.dynamic is not None:
            d['dynamic'] = self.dynamic
        return d

    def plus(self, base):
        """This class deriving from one with the rules of base."""
        r = Rules({})
        r.S, r.X = self.S | base.S, self.X | base.X
        r.R, r.P = self.R | base.R, self.P | base.P
        r.Y = dict(base.Y)
        r.Y.update(self.Y)
        r.dynamic = base.dynamic if self.dynamic is None else self.dynamic
        return r


class Kind(object):
    """A way to write the class; what it declares by itself."""
    getters = setters = ()
    fixed = ()              # always present on instances

    def make(self, meta, bases=()):
        raise NotImplementedError


class Plain(Kind):
    name = 'plain'

    def make(self, meta, bases=(object,)):
        return type('K', bases, {'__amf__': meta})

    def put(self, o, d):
        o.__dict__.update(d)

    def got(self, o):
        return dict(o.__dict__)


class Classic(Plain):
    name = 'classic'

    def make(self, meta, bases=()):
        # Jython takes classic classes of one name for equal
        self.count = getattr(self, 'count', 0) + 1
        return types.ClassType('K%d' % self.count, bases, {'__amf__': meta,
                                            '__module__': __name__})


class Slots(Kind):
    name = 'slots'
    getters = setters = fixed = ('a', 'b')
    sealed = True

    def make(self, meta, bases=(object,)):
        return type('K', bases, {'__amf__': meta, '__slots__': ('a', 'b')})

    def put(self, o, d):
        for k, v in d.items():
            setattr(o, k, v)

    def got(self, o):
        return dict((k, getattr(o, k)) for k in ('a', 'b') if hasattr(o, k))


class Props(Kind):
    """a can be read and written, b only be read."""
    name = 'properties'
    getters = fixed = ('a', 'b')
    setters = ('a',)

    def make(self, meta, bases=(object,)):
        self.store = store = {}
        self.wrote = wrote = []

        def get(n):
            return lambda o: store.get((id(o), n), None)

        def put(o, v):
            wrote.append(o)
            store[id(o), 'a'] = v
        return type('K', bases, {
            '__amf__': meta, 'a': property(get('a'), put),
            'b': property(get('b'))})

    def put(self, o, d):
        for k, v in d.items():
            if k in ('a', 'b'):
                self.store[id(o), k] = v
            else:
                o.__dict__[k] = v

    def got(self, o):
        d = dict(o.__dict__)
        for k in ('a', 'b'):
            if (id(o), k) in self.store:
                d[k] = self.store[id(o), k]
        return d


class Given(Props):
    """a can only be written, b be read and written."""
    name = 'given'
    getters = fixed = ('b',)
    setters = ('a', 'b')

    def make(self, meta, bases=(object,)):
        self.store = store = {}

        def get(o):
            return store.get((id(o), 'b'), None)

        def put(n):
            def run(o, v):
                store[id(o), n] = v
            return run
        return type('K', bases, {
            '__amf__': meta, 'a': property(None, put('a')),
            'b': property(get, put('b'))})


class Open(Plain):
    """Deriving from a class with the slots a and b, without slots itself."""
    name = 'open'
    getters = setters = fixed = ('a', 'b')

    def make(self, meta, bases=None):
        base = type('S', (object,), {'__slots__': ('a', 'b')})
        return type('K', (base,), {'__amf__': meta})

    def put(self, o, d):
        for k, v in d.items():
            setattr(o, k, v)

    def got(self, o):
        return dict((k, getattr(o, k)) for k in NAMES if hasattr(o, k))


UNDEF = ('undef',)


def abstract(n):
    return {'a': ('array', ((), (('n', 7),))), 'b': 'obj', 'c': ('n', 3)}[n]


def shape(v):
    """Wire value -> simple description."""
    if isinstance(v, tuple):
        return v
    if v.kind == 'ext':
        return (v.name, shape(v.data))
    if v.kind == 'array':
        return ('array', tuple(shape(x) for x in v.items))
    return ('obj', tuple((k, shape(x)) for k, x in v.pairs))


def wire_shape(n, proxied):
    s = {'a': ('array', (('n', 7),)), 'b': ('obj', ((u'k', ('n', 1)),)),
         'c': ('n', 3)}[n]
    if proxied and n in 'ab':
        return ({'a': AC, 'b': OP}[n], s)
    return s


def norm(s):
    """Numbers of both formats compare equal."""
    if isinstance(s, tuple) and s and s[0] == 'n':
        return ('n', float(s[1]))
    if isinstance(s, tuple):
        return tuple(norm(x) for x in s)
    return s


def expect_wire(kind, r, present, ver):
    """name on the wire -> shape"""
    out = {}
    static = r.S - r.X
    dynamic = r.dynamic is not False and not getattr(kind, 'sealed', False)
    names = set(kind.getters)
    if dynamic:
        names |= set(present)
    names = (names - r.X) | static
    for n in names:
        if n in present:
            s = wire_shape(n, ver == 3 and n in r.P)
        elif n in static and n not in kind.getters:
            s = UNDEF
        else:
            s = ('null',)
        out[r.Y.get(n, n)] = s
    return out


def expect_apply(kind, r, names):
    """Names on the wire -> attributes set, None: refused"""
    inv = dict((w, n) for n, w in r.Y.items())
    got = dict((inv.get(w, w), w) for w in names)
    static = r.S - r.X
    if static - set(got):
        return None
    dynamic = r.dynamic is not False and not getattr(kind, 'sealed', False)
    ok = set(got) - r.X - r.R
    if kind.name == 'properties':
        ok.discard('b')
    if not dynamic:
        ok &= set(kind.setters) | static
    return dict((n, got[n]) for n in ok)


def s3(b):
    return amfspec.u29(len(b) << 1 | 1) + b


def obj3(alias, members, sealed):
    out = '\x0a'
    if sealed:
        out += amfspec.u29(len(members) << 4 | 3) + s3(alias)
        for k, v in members:
            out += s3(k)
        return out + ''.join(v for k, v in members)
    return out + '\x0b' + s3(alias) + ''.join(
        s3(k) + v for k, v in members) + '\x01'


def obj0(alias, members):
    def utf(b):
        return struct.pack('>H', len(b)) + b
    return '\x10' + utf(alias) + ''.join(
        utf(k) + v for k, v in members) + '\0\0\x09'


def proxied3(n):
    return '\x0a\x07' + s3(str({'a': AC, 'b': OP}[n])) + PLAIN3[n]


def attr_of(name, wire):
    # 'wa', 'xa', 'ya' all are names that a is given on the wire
    return wire[-1]


def enc(ver, v):
    e = amf3.Encoder() if ver == 3 else amf0.Encoder()
    e.writeElement(v)
    return e.stream.getvalue()


def check_class(ctx, cid, kind, klass, r, presents, wires, first):
    def bad(what, ver):
        ctx.violation('%s %s' % (cid, what.split(':')[0]),
                      '%s, AMF%d: %s' % (cid, ver, what))

    for ver in (3, 0):
        for present in presents:
            o = klass()
            kind.put(o, dict((n, value(n)) for n in present))
            before = kind.got(o)
            want = expect_wire(kind, r, present, ver)
            # twice with one encoder: the second time by description
            x = mc.attempt(enc, ver, [o, same_class(kind, klass, present)])
            ctx.step()
            if x[0] == 'exc':
                bad('encoding %s: fails with %r' % (
                    '+'.join(present), x[1:]), ver)
                continue
            y = mc.attempt(read, ver, x[1])
            if y[0] == 'exc':
                bad('encoding %s: sends unreadable %r' % (
                    '+'.join(present), x[1]), ver)
                continue
            for node in y[1].items:
                got = dict((k, shape(v)) for k, v in node.pairs)
                if len(got) != len(node.pairs):
                    bad('encoding %s: sends a name twice' % '+'.join(present),
                        ver)
                if norm(tuple(sorted(got.items()))) != \
                        norm(tuple(sorted(want.items()))):
                    bad('encoding %s: sends %r instead of %r' % (
                        '+'.join(present), got, want), ver)
                    break
                if node.name != u'n.K':
                    bad('encoding: class name %r' % node.name, ver)
            if kind.got(o) != before:
                bad('encoding: changes the instance', ver)
            ctx.trace()
            ctx.state((sorted(want.items()), ver))
        for names in wires:
            want = expect_apply(kind, r, names)
            forms = [('plain', 0)] if ver == 0 else [
                ('plain', 0), ('plain', 1)]
            if ver == 3 and r.P and any(attr_of(r, w) in 'ab'
                                        for w in names):
                forms.append(('proxied', 0))
            for form, sealed in forms:
                members = []
                for w in names:
                    n = attr_of(r, w)
                    b = (PLAIN3 if ver == 3 else PLAIN0)[n]
                    if form == 'proxied' and n in r.P:
                        b = proxied3(n)
                    members.append((w, b))
                data = obj3('n.K', members, sealed) if ver == 3 else \
                    obj0('n.K', members)
                tag = 'decoding %s (%s%s)' % (
                    '+'.join(names), form, sealed and ' sealed' or '')
                x = mc.attempt(dec, ver, data)
                ctx.step()
                ctx.trace()
                if want is None:
                    if x[0] != 'exc':
                        bad(tag + ': accepted without a static attribute',
                            ver)
                    elif x[1].startswith('java:'):
                        bad(tag + ': %r' % (x[1:],), ver)
                    continue
                if x[0] == 'exc':
                    bad(tag + ': fails with %r' % (x[1:],), ver)
                    continue
                o = x[1]
                if o.__class__ is not klass:
                    bad(tag + ': gives a %r' % (o,), ver)
                    continue
                got = kind.got(o)
                full = dict((n, value(attr_of(r, n)))
                            for n in want)
                if got != full or any(
                        isinstance(v, (flex.ArrayCollection,
                                       flex.ObjectProxy))
                        for v in got.values()):
                    bad(tag + ': sets %r instead of %r' % (got, full), ver)
                if kind.name == 'properties' and kind.wrote and \
                        'a' not in want:
                    bad(tag + ': assigns property a', ver)
                if kind.name == 'properties':
                    del kind.wrote[:]


def same_class(kind, klass, present):
    o = klass()
    kind.put(o, dict((n, value(n)) for n in present))
    return o


def read(ver, data):
    v = amfspec.read_all(data, ver, EXT)
    assert len(v) == 1
    return v[0]


def dec(ver, data):
    d = amf3.Decoder(data) if ver == 3 else amf0.Decoder(data)
    return d.readElement()


def combos(letters):
    for k in range(len(letters) + 1):
        for c in itertools.combinations(letters, k):
            yield ''.join(c)


def subsets(names):
    return [c for k in range(len(names) + 1)
            for c in itertools.combinations(names, k)]


def run(ctx):
    t = ctx.thorough
    gs = globalstate.GlobalState()
    allr = list(combos(RULES))
    kinds = [Plain(), Classic(), Slots(), Props(), Given(), Open()]
    dyn = (None, False, True)

    # one class, rules on two attributes
    for kind in kinds:
        for dynamic in dyn:
            if dynamic and kind.name != 'slots' and not t:
                continue
            for ra in allr:
                for rb in (allr if t or kind.name == 'plain' else
                           ['', 'S', 'X', 'R', 'P', 'Y', 'SX', 'SR']):
                    cid = '%s class a=%s b=%s dynamic=%s' % (
                        kind.name, ra or '-', rb or '-', dynamic)
                    if not ctx.mine(cid):
                        continue
                    ctx.alive()
                    gs.restore()
                    r = Rules({'a': ra, 'b': rb}, dynamic)
                    klass = kind.make(r.meta())
                    pyamf.register_class(klass, 'n.K')
                    presents = subsets(NAMES)
                    if kind.name == 'slots':
                        presents = [('a', 'b')]
                    elif kind.name in ('properties', 'open'):
                        presents = [p for p in presents
                                    if 'a' in p and 'b' in p]
                    elif kind.name == 'given':
                        presents = [p for p in presents
                                    if 'a' not in p and 'b' in p]
                    names = [r.Y.get(n, n) for n in NAMES]
                    check_class(ctx, cid, kind, klass, r, presents,
                                subsets(names), False)
    ctx.bound('one class', 'every combination of 5 rules on each of two '
              'attributes (quick: 32 x 8 on all but plain classes) x dynamic '
              'or not x 6 kinds of class x every set of present attributes')

    # the order in which rules are written down, and who comes first
    plain = Plain()
    for ra, rb in itertools.product(['S', 'X', 'R', 'P', 'SX', 'SR'],
                                    repeat=2):
        for dynamic in dyn:
            cid = 'order a=%s b=%s dynamic=%s' % (ra, rb, dynamic)
            if not ctx.mine(cid):
                continue
            ctx.alive()
            outs = []
            for order in (1, -1):
                gs.restore()
                r = Rules({'a': ra, 'b': rb}, dynamic)
                klass = plain.make(r.meta(order))
                pyamf.register_class(klass, 'n.K')
                check_class(ctx, cid, plain, klass, r, subsets(NAMES),
                            subsets(NAMES), False)
    # swapped names
    for dynamic in dyn:
        cid = 'swap dynamic=%s' % dynamic
        if ctx.mine(cid):
            gs.restore()
            klass = plain.make({'synonym': {'a': 'b', 'b': 'a'},
                                'static': ('a', 'b'), 'dynamic': dynamic})
            pyamf.register_class(klass, 'n.K')
            for ver in (3, 0):
                o = klass()
                o.a, o.b = 1, 2
                x = mc.attempt(lambda: read(ver, enc(ver, o)))
                ctx.trace()
                if x[0] == 'exc' or dict(
                        (k, v[1]) for k, v in x[1].pairs) != {'a': 2,
                                                              'b': 1}:
                    ctx.violation(cid, 'swapped names encode to %r' % (
                        x[1:],))
                y = mc.attempt(lambda: vars(dec(ver, enc(ver, o))))
                if y != ('ok', {'a': 1, 'b': 2}):
                    ctx.violation(cid, 'swapped names decode to %r' % (y,))

    # inheritance: rules of base and derived class on one attribute, and the
    # derived class adds rules to another
    for dbase, dder in itertools.product(dyn, repeat=2):
        for rbase in allr:
            for rder in (allr if t else [
                    '', 'S', 'X', 'R', 'P', 'Y', 'SR', 'XY']):
                for mid in ((False, True) if t or rder == '' else (False,)):
                    cid = 'base a=%s/%s derived a=%s b=%s/%s%s' % (
                        rbase or '-', dbase, rder or '-', rder or '-', dder,
                        mid and ' two levels' or '')
                    if not ctx.mine(cid):
                        continue
                    ctx.alive()
                    gs.restore()
                    kind = kinds[1] if ctx.index % 3 == 0 else plain
                    r1 = Rules({'a': rbase}, dbase)
                    r2 = Rules({'a': rder, 'b': rder}, dder)
                    if kind.name == 'classic':
                        base = kind.make(r1.meta(), ())
                    else:
                        base = kind.make(r1.meta())
                    pyamf.register_class(base, 'n.Base')
                    top = base
                    if mid:
                        top = kind.make({}, (base,))
                    klass = kind.make(r2.meta(), (top,))
                    pyamf.register_class(klass, 'n.K')
                    r = r2.plus(r1)
                    names = [r.Y.get(n, n) for n in NAMES]
                    check_class(ctx, cid, kind, klass, r, subsets(NAMES),
                                subsets(names), False)
                    # the base class is not touched by its subclasses
                    pyamf.unregister_class('n.K')
                    pyamf.unregister_class('n.Base')
                    b2 = pyamf.register_class(base, 'n.K')
                    names = [r1.Y.get(n, n) for n in NAMES]
                    check_class(ctx, cid + ' (base)', kind, base, r1,
                                subsets(NAMES)[-3:], subsets(names)[-3:],
                                False)
    # explicit settings at three levels: the nearest one counts
    for d3 in itertools.product(dyn, repeat=3):
        cid = 'dynamic %r/%r/%r' % d3
        if ctx.mine(cid):
            gs.restore()
            k = object
            r = Rules({})
            for i, d in enumerate(d3):
                r = Rules({'a': 'S'} if i == 0 else {}, d).plus(r)
                k = plain.make(r.meta() if i == 0 else
                               Rules({}, d).meta(), (k,))
            pyamf.register_class(k, 'n.K')
            check_class(ctx, cid, plain, k, r, subsets(NAMES),
                        subsets(NAMES), False)
    # one rule at each of three levels, each level with a name of its own
    for rules in itertools.product(('',) + tuple(RULES), repeat=3):
        for other in ('same', 'first', 'last'):
            cid = 'levels %s, b %s' % ('/'.join(x or '-' for x in rules),
                                       other)
            if not ctx.mine(cid):
                continue
            ctx.alive()
            gs.restore()
            k, r, below = object, Rules({}), []
            for i, x in enumerate(rules):
                y = {'same': rules[i], 'first': 'Y' if i == 0 else '',
                     'last': 'Y' if i == 2 else ''}[other]
                own = Rules({'a': x, 'b': y})
                own.Y = dict((n, 'wxy'[i] + n) for n in own.Y)
                meta = own.meta()
                k = plain.make(meta, (k,))
                below.append((meta, repr(sorted(meta.items()))))
                pyamf.register_class(k, 'n.L%d' % i)
                r = own.plus(r)
            pyamf.unregister_class('n.L2')
            pyamf.register_class(k, 'n.K')
            names = [r.Y.get(n, n) for n in NAMES]
            check_class(ctx, cid, plain, k, r, subsets(NAMES),
                        subsets(names), False)
            for i, (meta, was) in enumerate(below):
                if repr(sorted(meta.items())) != was:
                    ctx.violation(cid + ' declaration', '%s: level %d said '
                                  '%s, now %r' % (cid, i, was, meta))
            # the levels below are what they were
            r = Rules({})
            for i, x in enumerate(rules[:2]):
                y = {'same': x, 'first': 'Y' if i == 0 else '',
                     'last': ''}[other]
                own = Rules({'a': x, 'b': y})
                own.Y = dict((n, 'wxy'[i] + n) for n in own.Y)
                r = own.plus(r)
                a = pyamf.get_class_alias('n.L%d' % i)
                base = a.klass
                pyamf.unregister_class('n.K')
                pyamf.unregister_class('n.L%d' % i)
                pyamf.register_class(base, 'n.K')
                names = [r.Y.get(n, n) for n in NAMES]
                check_class(ctx, cid + ' (level %d)' % i, plain, base, r,
                            subsets(NAMES)[-3:], subsets(names)[-3:], False)
    # which format a class asks for in AMF0: its own word, or what all of its
    # bases that say anything agree upon
    for says in itertools.product((None, False, True), repeat=3):
        for classic in (False, True):
            cid = 'format %r classic %s' % (says, classic)
            if not ctx.mine(cid):
                continue
            gs.restore()
            k = ()
            for i, s in enumerate(says):
                kind = kinds[1] if classic else plain
                k = (kind.make({} if s is None else {'amf3': s},
                               k or (() if classic else (object,))),)
                pyamf.register_class(k[0], 'n.L%d' % i)
                want = [x for x in says[:i + 1] if x is not None]
                if s is None and len(set(want)) > 1:
                    continue
                want = bool(want and want[-1])
                o = k[0]()
                o.a = 1
                for v in ([o], [o, o], [{u'k': o}]):
                    x = mc.attempt(enc, 0, v)
                    ctx.step()
                    ctx.trace()
                    y = x if x[0] == 'exc' else mc.attempt(dec, 0, x[1])
                    if x[0] == 'exc' or y[0] == 'exc' or \
                            ('\x11\x0a' in x[1]) is not want:
                        ctx.violation(cid, '%s: level %d is written in AMF0 '
                                      'as %r' % (cid, i, x[1:]))
                    else:
                        z = y[1][0]
                        z = z['k'] if type(v[0]) is dict else z
                        if type(z) is not type(o) or vars(z) != {'a': 1}:
                            ctx.violation(cid, '%s: level %d decodes as %r' % (
                                cid, i, y))
    # an alias that adds and removes something on the way
    for kind in kinds + ['dict']:
        for add, drop in itertools.product((False, True), repeat=2):
            name = kind if kind == 'dict' else kind.name
            cid = 'custom %s %s %s' % (name, add, drop)
            if name in ('given', 'properties') or not ctx.mine(cid):
                continue
            gs.restore()

            class Alias(pyamf.ClassAlias):
                def getEncodableAttributes(self, obj, codec=None):
                    d = pyamf.ClassAlias.getEncodableAttributes(
                        self, obj, codec=codec)
                    if add:
                        d['more'] = u'x'
                    if drop:
                        del d['a']
                    return d
            klass = plain.make({}, (dict,)) if name == 'dict' else \
                kind.make({})
            pyamf.register_alias_type(Alias, klass)
            pyamf.register_class(klass, 'n.K')
            for ver in (3, 0):
                o = klass()
                full = {'a': [7], 'b': 2}
                if name == 'dict':
                    o.update(full)
                else:
                    kind.put(o, full)
                want = set(['b'] + ['more'] * add + ['a'] * (not drop))
                for turn in (1, 2):
                    x = mc.attempt(lambda: read(ver, enc(ver, o)))
                    ctx.step()
                    ctx.trace()
                    if x[0] == 'exc' or set(
                            k for k, v in x[1].pairs) != want:
                        ctx.violation(cid, '%s: turn %d sends %r' % (
                            cid, turn, x[1:]))
                    left = dict(o) if name == 'dict' else kind.got(o)
                    if left != full:
                        ctx.violation(cid + ' changed', '%s: encoding makes '
                                      'the instance %r' % (cid, left))
    # two bases that give one attribute different names: the first one counts
    for ya, yb in itertools.product((None, 'wa', 'xa'), repeat=2):
        for own in (None, 'ya'):
            cid = 'names %s %s own %s' % (ya, yb, own)
            if not ctx.mine(cid):
                continue
            gs.restore()
            rs = [Rules({'a': ''}) for y in (ya, yb, own)]
            for x, y in zip(rs, (ya, yb, own)):
                if y:
                    x.Y = {'a': y}
            b1, b2 = [plain.make(x.meta()) for x in rs[:2]]
            klass = plain.make(rs[2].meta(), (b1, b2))
            pyamf.register_class(klass, 'n.K')
            r = rs[2].plus(rs[0].plus(rs[1]))
            names = [r.Y.get(n, n) for n in NAMES]
            check_class(ctx, cid, plain, klass, r, subsets(NAMES),
                        subsets(names), False)
    # two bases in both orders
    for ra in allr:
        for rb in (allr if t else ['', 'S', 'X', 'R', 'P', 'Y']):
            for flip in (False, True):
                cid = 'bases a=%s b=%s flip=%s' % (ra or '-', rb or '-', flip)
                if not ctx.mine(cid):
                    continue
                ctx.alive()
                gs.restore()
                r1, r2 = Rules({'a': ra}), Rules({'b': rb})
                b1 = plain.make(r1.meta())
                b2 = plain.make(r2.meta())
                klass = plain.make({}, (b2, b1) if flip else (b1, b2))
                pyamf.register_class(klass, 'n.K')
                r = r2.plus(r1)
                names = [r.Y.get(n, n) for n in NAMES]
                check_class(ctx, cid, plain, klass, r, subsets(NAMES),
                            subsets(names), False)
    ctx.bound('inheritance', 'every combination of 5 rules in the base x %s '
              'in the derived class x dynamic setting of each, with and '
              'without a class in between; two bases in both orders; three '
              'levels of dynamic; one rule and one name at each of three levels' % ('32' if t else '8'))

    # subclasses of dict: the items are the attributes
    for rules in allr:
        if 'S' in rules or 'P' in rules:
            continue
        cid = 'dict class a=%s' % (rules or '-')
        if not ctx.mine(cid):
            continue
        gs.restore()
        r = Rules({'a': rules})
        klass = plain.make(r.meta(), (dict,))
        pyamf.register_class(klass, 'n.K')
        for ver in (3, 0):
            for present in subsets(NAMES):
                o = klass((n, value(n)) for n in present)
                want = expect_wire(plain, r, present, ver)
                x = mc.attempt(lambda: read(ver, enc(ver, o)))
                ctx.trace()
                if x[0] == 'ok':
                    x = dict((k, shape(v)) for k, v in x[1].pairs)
                if isinstance(x, tuple) or norm(tuple(sorted(x.items()))) != \
                        norm(tuple(sorted(want.items()))):
                    ctx.violation(cid, '%s with %r sends %r instead of %r' % (
                        cid, present, x, want))
            names = [r.Y.get(n, n) for n in NAMES]
            for ws in subsets(names):
                want = expect_apply(plain, r, ws)
                members = [(w, (PLAIN3 if ver == 3 else PLAIN0)[
                    attr_of(r, w)]) for w in ws]
                data = obj3('n.K', members, 0) if ver == 3 else \
                    obj0('n.K', members)
                x = mc.attempt(dec, ver, data)
                ctx.trace()
                full = dict((n, value(n)) for n in want)
                if x[0] == 'exc' or type(x[1]) is not klass or \
                        dict(x[1]) != full:
                    ctx.violation(cid, '%s given %r becomes %r instead of %r'
                                  % (cid, ws, x[1:], full))
    ctx.sample('plain class a=SRY b=X, attributes a+b+c')
    ctx.assume('a synonym never collides with another attribute name; slots '
               'are filled; proxies exist in AMF3 only')
