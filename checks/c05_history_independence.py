"""C05: results of encoding and decoding do not depend on the past."""
import collections
import datetime

import pyamf
from pyamf import amf0, amf3, xml as pxml

import globalstate
import mc
from pyval import canon_py


def make_classes():
    class T(object):
        pass

    class S(object):
        class __amf__:
            static = ('a', 'b')

    class Z(object):
        class __amf__:
            static = ('a',)
            dynamic = False

    class A(object):
        class __amf__:
            amf3 = True

    class Sub(S):
        class __amf__:
            static = ('c',)
            exclude = ('hidden',)

    class Slots(object):
        __slots__ = ('a', 'b')

    class E(object):
        class __amf__:
            external = True

        def __writeamf__(self, out):
            out.writeObject(self.v)
            out.writeUTF(u'x')

        def __readamf__(self, inp):
            self.v = inp.readObject()
            inp.readUTF()

    class U(object):
        pass

    class O:
        pass

    return dict(T=T, S=S, Z=Z, A=A, Sub=Sub, Slots=Slots, E=E, U=U, O=O)


REG = ('T', 'S', 'Z', 'A', 'Sub', 'Slots', 'E')


def fill(o, **kw):
    for k, v in kw.items():
        setattr(o, k, v)
    return o


def value(c, name):
    """A fresh value."""
    s1 = u'shared'
    l = [1]
    l.append(l)
    d = {'k': s1}
    d['me'] = d
    t = fill(c['T'](), a=1, b=s1)
    if name == 'int':
        return 5
    if name == 'int-neg':
        return -1
    if name == 'int-max':
        return 2 ** 29 - 1
    if name == 'int-big':
        return 2 ** 28
    if name == 'float':
        return 1.5
    if name == 'text':
        return s1
    if name == 'uni':
        return u'\xe9'
    if name == 'bytes':
        return 'shared'
    if name == 'bool':
        return True
    if name == 'none':
        return None
    if name == 'undef':
        return pyamf.Undefined
    if name == 'list':
        return [s1, [s1], s1]
    if name == 'cycle':
        return l
    if name == 'dict':
        return {'a': 1, 'shared': s1}
    if name == 'dcycle':
        return d
    if name == 'mixed':
        return pyamf.MixedArray({0: 1, 'x': 2})
    if name == 'date':
        return datetime.datetime(2001, 2, 3)
    if name == 'xml':
        return pxml.fromstring('<a/>')
    if name == 'ba':
        return amf3.ByteArray('abc')
    if name == 'T':
        return t
    if name == 'TT':
        return [t, t]
    if name == 'T2':
        return [fill(c['T'](), a=1), fill(c['T'](), a=s1)]
    if name == 'S2':
        return [fill(c['S'](), a=1, b=2), fill(c['S'](), a=2, b=s1)]
    if name == 'Sub2':
        return [fill(c['Sub'](), a=1, b=2, c=3),
                fill(c['Sub'](), a=3, b=4, c=5)]
    if name == 'ba2':
        return [amf3.ByteArray('abc'), amf3.ByteArray('abc')]
    if name == 'date2':
        d1 = datetime.datetime(2001, 2, 3)
        return [d1, d1]
    if name == 'T-other':
        return fill(c['T'](), z=2)
    if name == 'S':
        return fill(c['S'](), a=1, b=2, c=3)
    if name == 'S-missing':
        return fill(c['S'](), a=1)
    if name == 'Z':
        return fill(c['Z'](), a=1, b=2)
    if name == 'A':
        return fill(c['A'](), a=1)
    if name == 'Sub':
        return fill(c['Sub'](), a=1, b=2, c=3, hidden=4)
    if name == 'Slots':
        return fill(c['Slots'](), a=1, b=2)
    if name == 'E':
        return fill(c['E'](), v=[s1])
    if name == 'U':
        return fill(c['U'](), a=1)
    if name == 'O':
        return fill(c['O'](), a=1)
    if name == 'bad-func':
        return [s1, {'a': t}, lambda: 1]
    if name == 'bad-class':
        return [fill(c['S'](), a=1, b=c['T']), 1]
    if name == 'bad-time':
        return {'a': datetime.time(1, 2)}
    if name == 'bad-module':
        return [mc]
    raise KeyError(name)


ENC = ['int-neg', 'int-max', 'text', 'bytes', 'list', 'cycle', 'dict',
       'mixed', 'date', 'xml', 'TT', 'T-other', 'S', 'S-missing', 'Z', 'A',
       'Sub', 'Slots', 'E', 'U', 'O', 'T2', 'S2', 'Sub2', 'bad-func', 'bad-class', 'bad-time']
ENC_MORE = ['int', 'int-big', 'float', 'uni', 'bool', 'none', 'undef',
            'dcycle', 'ba', 'bad-module', 'T', 'ba2', 'date2']

DEC = [
    # name, version, bytes
    ('typed-reg', 0, '\x10\x00\x03h.T\x00\x01a\x05\x00\x00\x09'),
    ('typed-reg3', 3, '\x0a\x0b\x07h.T\x03a\x01\x01'),
    ('sealed3', 3, '\x0a\x23\x07h.S\x03a\x03b\x04\x01\x04\x02'),
    ('sealed-z', 3, '\x0a\x13\x07h.Z\x03a\x04\x01'),
    ('sub3', 3, '\x0a\x0b\x0dh.Sub.\x03a\x01\x01'.replace(
        '\x0dh.Sub.', '\x0bh.Sub')),
    ('typed-unknown', 0, '\x10\x00\x03h.Q\x00\x01a\x05\x00\x00\x09'),
    ('typed-unknown3', 3, '\x0a\x0b\x07h.Q\x03a\x01\x01'),
    ('strings3', 3, '\x09\x07\x01\x06\x0dshared\x06\x00\x06\x03a'),
    ('badref3', 3, '\x09\x05\x01\x06\x0dshared\x0a\x08'),
    ('cut3', 3, '\x09\x05\x01\x06\x0dshared'),
    ('badref0', 0, '\x0a\x00\x00\x00\x01\x07\x00\x05'),
    ('cut0', 0, '\x03\x00\x01a\x02\x00\x05ab'),
    ('badtype', 3, '\x09\x03\x01\x77'),
    ('badutf', 3, '\x06\x03\xff'),
    ('badxml', 3, '\x0b\x07<a>'),
    ('amf3in0', 0, '\x11\x0a\x0b\x07h.T\x03a\x06\x00\x01'),
    ('text0', 0, '\x02\x00\x06shared'),
    ('text3', 3, '\x06\x0dshared'),
    ('ext3', 3, '\x0a\x07\x07h.E\x06\x03q\x00\x01x'),
]


class World(object):
    """One history: fresh module state."""

    made = 0
    pool = None
    class_attrs = ()

    def __init__(self, gs):
        gs.restore()
        globalstate.restore_classes(World.class_attrs)
        # creating classes is slow: a new set for every 50th history
        if World.made % 50 == 0:
            World.pool = make_classes()
        World.made += 1
        self.classes = World.pool
        for n in REG:
            pyamf.register_class(self.classes[n], 'h.' + n)
        self.wire = dict((self.classes[n], u'h.' + n) for n in REG)
        self.wire[self.classes['O']] = u'O'
        self.wire[self.classes['U']] = u'U'
        self.enc = {}
        self.dec = {}

    def encoder(self, version, keep):
        if not keep:
            return pyamf.get_encoder(version)
        if version not in self.enc:
            self.enc[version] = pyamf.get_encoder(version)
        e = self.enc[version]
        e.context.clear()
        return e

    def decoder(self, version, keep, data):
        if not keep:
            return pyamf.get_decoder(version, data)
        if version not in self.dec:
            self.dec[version] = pyamf.get_decoder(version)
        d = self.dec[version]
        d.context.clear()
        # drop what a refused decoding left behind
        d.stream.truncate(0)
        d.stream.append(data)
        return d

    def run(self, op, keep):
        kind, version, arg = op
        if kind == 'enc':
            v = value(self.classes, arg)
            e = self.encoder(version, keep)
            start = e.stream.tell()
            r = mc.attempt(e.writeElement, v)
            if r[0] == 'exc':
                return r[:2]
            e.stream.seek(start)
            data = e.stream.read()
            return 'ok', data
        if kind == 'dec':
            d = self.decoder(version, keep, arg)
            r = mc.attempt(lambda: [(canon_py(x, self.wire), types_of(x))
                                    for x in (d if not keep else drain(d))])
            return r[:2]
        if kind == 'lookup':
            r = mc.attempt(pyamf.get_class_alias, self.classes[arg])
            return r[0], (r[1].alias if r[0] == 'ok' else r[1])
        raise AssertionError(kind)


def types_of(x, seen=None):
    """The exact types of everything in a value, in a fixed order."""
    if seen is None:
        seen = []
    if any(x is o for o in seen):
        return ()
    t = type(x).__name__
    if isinstance(x, (list, tuple)):
        seen.append(x)
        return (t,) + tuple([types_of(i, seen) for i in x])
    if not isinstance(x, dict):
        x = getattr(x, '__dict__', None)
        if not isinstance(x, dict) or t == 'ByteArray':
            return t
    seen.append(x)
    return (t,) + tuple([
        (type(k).__name__, repr(k)[-6:], types_of(v, seen))
        for k, v in sorted(x.items(), key=lambda i: unicode(i[0]))])


def drain(d):
    out = []
    while not d.stream.at_eof():
        out.append(d.readElement())
    return out


class MyList(list):
    pass


class MyDict(dict):
    pass


class Item(object):
    pass


class Old:
    pass


class Counted(object):
    pass


def count(x, encoder):
    """A mapping which keeps something of its own in the context."""
    n = encoder.context.extra['n'] = encoder.context.extra.get('n', 0) + 1
    return n


def counted(payload, extra):
    """A post decode processor that does."""
    n = extra['n'] = extra.get('n', 0) + 1
    return pyamf.ASObject(alias=n)


class Alias(pyamf.ClassAlias):
    """An alias of a class of its own, which says what it is."""

    def getEncodableAttributes(self, obj, **kwargs):
        r = pyamf.ClassAlias.getEncodableAttributes(self, obj, **kwargs)
        r['by'] = u'alias'
        return r



def subjects():
    """name -> (make, grow, class that can be registered or None)"""
    from pyamf.flex import ArrayCollection, ObjectProxy

    def attr(o):
        o.b = getattr(o, 'b', 0) + 1

    def add(d):
        d['k%d' % len(d)] = u'v'
    item = lambda: fill(Item(), a=1)
    return {
        'list': (lambda: [1], lambda x: x.append(u'x'), None),
        'MyList': (lambda: MyList([1]), lambda x: x.append(u'x'), MyList),
        'set': (lambda: set([1]), lambda x: x.add(len(x) + 1), None),
        'deque': (lambda: collections.deque([1]), lambda x: x.append(2),
                  None),
        'dict': (lambda: {'a': 1}, add, None),
        'MyDict': (lambda: MyDict(a=1), add, MyDict),
        'mixed': (lambda: pyamf.MixedArray({0: 1}), add, None),
        'ASObject': (lambda: pyamf.ASObject(a=1), add, None),
        'item': (item, attr, Item),
        'items': (lambda: [item(), item()], lambda x: attr(x[0]), Item),
        'old': (lambda: fill(Old(), a=1), attr, Old),
        'bytes': (lambda: amf3.ByteArray('ab'), lambda x: x.append('c'),
                  None),
        'collection': (lambda: ArrayCollection([item()]),
                       lambda x: x.append(item()), Item),
        'proxy': (lambda: ObjectProxy(item()), lambda x: attr(x._amf_object),
                  Item),
        'counted': (lambda: [Counted(), Counted()],
                    lambda x: x.append(Counted()), None),
        'text': (lambda: [u'a', 'a', u'\xe9'], lambda x: x.append(u'a'), None),
    }


def evolution(ctx, gs):
    """
    Values and registrations that change: what a cleared codec does with them
    is always what a new one does.
    """
    n = 5 if ctx.thorough else 4
    for name, (make, grow, cls) in sorted(subjects().items()):
        ops = ['enc', 'grow', 'clear']
        if name == 'counted':
            ops += ['dec']
        if cls:
            ops += ['reg a', 'reg b', 'reg c', 'unreg', 'dec']
        for version in (0, 3):
            for head in mc.seqs(ops, 2):
                if not ctx.mine('evolve %s %d %r' % (name, version, head)):
                    continue
                for tail in mc.seqs_upto(ops, n - (3 if cls else 2)):
                    evolve(ctx, gs, name, make, grow, cls, version,
                           head + tail + ('enc', 'dec'))
    gs.restore()
    globalstate.restore_classes(World.class_attrs)


TYPED = {0: '\x10\x00\x03e.%s\x00\x01a\x05\x00\x00\x09',
         3: '\x0a\x0b\x07e.%s\x03a\x01\x01'}


def evolve(ctx, gs, name, make, grow, cls, version, seq):
    gs.restore()
    ctx.state((name, version, seq))
    ctx.step(len(seq))
    ctx.trace()
    if name == 'counted':
        pyamf.add_type(Counted, count)
        pyamf.add_post_decode_processor(counted)
    obj = make()
    e = pyamf.get_encoder(version)
    d = pyamf.get_decoder(version)
    registered = False

    def enc(encoder):
        start = encoder.stream.tell()
        encoder.writeElement(obj)
        encoder.stream.seek(start)
        return encoder.stream.read()

    def dec(decoder, data):
        decoder.stream.truncate(0)
        decoder.stream.append(data)
        r = decoder.readElement()
        return type(r).__name__, repr(getattr(r, 'alias', None))

    for i, op in enumerate(seq):
        if op == 'grow':
            grow(obj)
            # nothing is known about what changes between two elements
            e.context.clear()
        elif op == 'clear':
            e.context.clear()
            d.context.clear()
        elif op[:3] == 'reg':
            if op[4] == 'c' and Alias not in pyamf.ALIAS_TYPES:
                pyamf.register_alias_type(Alias, cls)
            pyamf.register_class(cls, 'e.' + op[4])
            registered = True
            e.context.clear()
        elif op == 'unreg':
            if registered:
                pyamf.unregister_class(cls)
            registered = False
            e.context.clear()
        elif op == 'enc':
            e.context.clear()
            a = mc.attempt(enc, e)
            b = mc.attempt(enc, pyamf.get_encoder(version))
            if a[:2] != b[:2]:
                ctx.violation('evolve %s' % name, '%s, AMF%d, %r: at %d a '
                              'cleared encoder gives %r, a new one %r' % (
                                  name, version, seq, i, a[1:], b[1:]))
                return
        else:
            for x in 'ab':
                d.context.clear()
                a = mc.attempt(dec, d, TYPED[version] % x)
                b = mc.attempt(dec, pyamf.get_decoder(version),
                               TYPED[version] % x)
                if a[:2] != b[:2]:
                    ctx.violation('evolve %s' % name, '%s, AMF%d, %r: at %d '
                                  'a cleared decoder gives %r, a new one %r'
                                  % (name, version, seq, i, a[1:], b[1:]))
                    return


def run(ctx):
    t = ctx.thorough
    gs = globalstate.GlobalState()
    names = ENC + (ENC_MORE if t else [])
    ops = [('enc', v, n) for n in names for v in (0, 3)]
    ops += [('dec', v, b) for n, v, b in DEC]
    ops += [('lookup', 0, 'T'), ('lookup', 0, 'U')]
    World.class_attrs = globalstate.class_state()
    base = {}
    for op in ops:
        base[op] = World(gs).run(op, False)
        ctx.outcome(base[op])
    for op in reversed(ops):
        r = World(gs).run(op, False)
        ctx.step()
        if r != base[op]:
            ctx.violation('order %r' % (op,),
                          'operation %r gives %r, and %r after all other '
                          'operations' % (op, base[op], r))
    for keep in (False, True):
        for op in ops:
            if not ctx.mine('alone %r %r' % (op, keep)):
                continue
            w = World(gs)
            ctx.step(3)
            ctx.trace()
            for i in range(3):
                r = w.run(op, keep)
                if r != base[op]:
                    ctx.violation('repeat %r keep=%r' % (op, keep),
                                  'operation %r gives %r the first time and '
                                  '%r at repetition %d' % (op, base[op], r, i))

    def history(seq, keep):
        w = World(gs)
        for i, op in enumerate(seq):
            r = w.run(op, keep)
            ctx.step()
            if r != base[op]:
                ctx.violation('%r keep=%r' % (seq[:i + 1], keep),
                              'after %r (one codec kept: %r) the operation %r '
                              'gives %r instead of %r' % (
                                  seq[:i], keep, op, r, base[op]))
                break
        ctx.trace()

    for keep in (False, True):
        for a in ops:
            for b in ops:
                if not ctx.mine('history %r %r %r' % (a, b, keep)):
                    continue
                ctx.state(repr((a, b, keep)))
                history((a, b, a), keep)
    ctx.bound('pairs', 'a, b, a for all ordered pairs of %d operations, with '
              'fresh codecs and with one cleared codec' % len(ops))
    core = [o for o in ops if o[2] in (
        'TT', 'S', 'Sub', 'E', 'bad-func', 'A', 'U', 'text', 'list') or
        (o[0] == 'dec' and (t or o[2][-3:] in (
            DEC[1][2][-3:], DEC[2][2][-3:], DEC[7][2][-3:],
            DEC[8][2][-3:], DEC[9][2][-3:])))]
    n = 0
    for keep in (False, True):
        for a in core:
            for b in core:
                for c in core:
                    n += 1
                    if not ctx.mine('history3 %r' % ((a, b, c, keep),)):
                        continue
                    ctx.state(repr((a, b, c, keep)))
                    history((a, b, c), keep)
    ctx.bound('triples', '%d histories over %d operations' % (n, len(core)))
    evolution(ctx, gs)
    ctx.sample(repr(core[:4]))
