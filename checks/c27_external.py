"""C27: externalizable classes read back exactly what they wrote.

The class under test runs a program of typed writes; reading runs the matching
program of typed reads. Every program up to a length is placed into several
surroundings; the wire is also read by the reference reader, which runs the
program on its own cursor.
"""
import datetime
import struct

import pyamf
from pyamf import amf3, remoting

import amfspec
import mc
from amfspec import Node


class T(object):
    """a registered class"""


class W(object):
    """a registered class that is always AMF3"""
    class __amf__:
        amf3 = True


class S(object):
    """a sealed class"""
    class __amf__:
        static = ('a',)
        dynamic = False
        amf3 = True


class Ext(object):
    prog = ()

    def __writeamf__(self, output):
        for (name, args, value), v in zip(self.prog, self.vals):
            if name == 'MultiByte':
                output.writeMultiByte(v, args[1])
            else:
                getattr(output, 'write' + name)(v)

    def __readamf__(self, input):
        self.vals = []
        for name, args, value in self.prog:
            self.vals.append(getattr(input, 'read' + name)(*args))


class P(Ext):
    class __amf__:
        amf3 = True
        external = True


class Q(Ext):
    class __amf__:
        amf3 = True
        external = True


class R(Q):
    """external because its base is"""
    class __amf__:
        amf3 = True
        external = True


CLASSES = {T: u'c27.T', W: u'c27.W', S: u'c27.S', P: u'c27.P', Q: u'c27.Q',
           R: u'c27.R'}
DATE = datetime.datetime(2009, 3, 8, 23, 30, 47, 770000)


class Token(object):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


SELF, LIST, TYPED, OTHER, SEALED, BYTES, DICT, EXT = map(
    Token, ['self', 'L', 't', 'o2', 's', 'ba', 'd', 'q'])


def ops():
    def raw(name, *values):
        return [(name, (), v) for v in values]
    out = raw('Boolean', True, False)
    out += raw('Byte', -128, 127, 0)
    out += raw('UnsignedByte', 255, 128)
    out += raw('Short', -32768, 32767)
    out += raw('UnsignedShort', 65535)
    out += raw('Int', -2 ** 31, 2 ** 31 - 1)
    out += raw('UnsignedInt', 2 ** 32 - 1)
    out += raw('Float', 1.5, -0.25)
    out += raw('Double', 0.1, 1e300)
    out += raw('UTF', u'', u'\xe9\u20ac', u'x' * 300)
    for v in (u'a\xe9', u'', u'\u20ac' * 50):
        out.append(('UTFBytes', (len(v.encode('utf-8')),), v))
    for v, cs in ((u'\xe9', 'iso-8859-1'), (u'a\xe9', 'utf-16-be')):
        out.append(('MultiByte', (len(v.encode(cs)), cs), v))
    out += raw('Object', None, True, 5, -1.5, u'', u'text', 2 ** 28, DATE,
               SELF, LIST, TYPED, OTHER, SEALED, BYTES, DICT, EXT)
    return out


OPS = ops()
SIMPLE = [o for o in OPS if o[2] in (False, -128, 65535, 0.1, u'\xe9\u20ac',
                                     u'a\xe9', None, u'text', SELF, LIST,
                                     TYPED, OTHER, EXT, SEALED)]


# --------------------------------------------------------------- surroundings
def obj(cls, **kw):
    o = cls()
    for k, v in kw.items():
        setattr(o, k, v)
    return o


def world(prog):
    """Fresh objects; o and o2 run the program, q a fixed one."""
    P.prog = tuple(prog)
    w = dict(L=[1, u'text'], t=obj(T, a=u'text'), s=obj(S, a=[]),
             d={u'text': u'a'}, ba=amf3.ByteArray('x\x00'), o=P(), o2=P(),
             q=Q())
    w['q'].vals = [7, w['L']]
    for k in ('o', 'o2'):
        vals = []
        for name, args, v in prog:
            if v is SELF:
                v = w[k]
            elif isinstance(v, Token):
                v = w[v.name]
                if v is w[k]:       # the other one of the two
                    v = w['o']
            vals.append(v)
        w[k].vals = vals
    return w


AROUND = [
    ('alone', lambda w: [w['o']]),
    ('twice', lambda w: [w['o'], w['o'], u'end']),
    ('list', lambda w: [[w['o'], u'text', w['o2'], w['o'], u'end']]),
    ('separate', lambda w: [w['o'], w['o2'], w['q'], w['o'], u'end']),
    ('inside', lambda w: [obj(W, a=w['L'], b=w['t'], c=[
        w['o'], w['L'], w['t'], w['s'], w['d'], w['ba'], w['o2']])]),
    ('between', lambda w: [obj(W, a=[
        w['o'], w['L'], w['t'], w['s'], w['d'], w['ba'], w['q'], w['o'],
        obj(S, a=w['o']), u'text'])]),
    ('dict', lambda w: [obj(W, a={u'k': w['o']}), u'end']),
]
# what AMF0 and AMF3 both write is two objects then
ONLY3 = [
    ('top level references', lambda w: [w['L'], w['t'], w['o'], w['L'],
                                        w['o2'], w['t'], w['s']]),
    ('after', lambda w: [[w['o'], w['L'], w['t'], w['q'], w['s'], w['d']]]),
]


# ---------------------------------------------------------------------- forms
def num(x):
    return ('n', float(x))


def pyform(roots):
    seen = {}

    def go(v):
        if v is None or isinstance(v, bool):
            return v
        if isinstance(v, (int, long, float)):
            return num(v)
        if isinstance(v, basestring):
            return v
        if isinstance(v, datetime.datetime):
            return ('date', v)
        if id(v) in seen:
            return ('ref', seen[id(v)])
        n = seen[id(v)] = len(seen)
        if isinstance(v, list):
            return ('list', n, [go(x) for x in v])
        if isinstance(v, dict):
            return ('obj', n, None, [(k, go(v[k])) for k in sorted(v)])
        if isinstance(v, amf3.ByteArray):
            return ('ba', n, v.getvalue())
        name = CLASSES[type(v)]
        if isinstance(v, Ext):
            return ('ext', n, name, [go(x) for x in v.vals])
        d = vars(v)
        return ('obj', n, name, [(unicode(k), go(d[k])) for k in sorted(d)])
    return [go(v) for v in roots]


def specform(roots):
    seen = {}

    def go(v):
        if isinstance(v, tuple):
            if v[0] == 'null':
                return None
            if v[0] == 'n':
                return num(v[1])
            if v[0] == 'date':
                return ('date', datetime.datetime(1970, 1, 1) +
                        datetime.timedelta(milliseconds=v[1]))
            return v[1]
        if id(v) in seen:
            return ('ref', seen[id(v)])
        n = seen[id(v)] = len(seen)
        if v.kind == 'array':
            return ('list', n, [go(x) for x in v.items])
        if v.kind == 'ba':
            return ('ba', n, v.data)
        if v.kind == 'ext':
            return ('ext', n, v.name, [go(x) for x in v.data])
        return ('obj', n, v.name, [(k, go(x)) for k, x in sorted(v.pairs)])
    return [go(v) for v in roots]


FORMATS = {'Byte': 'b', 'UnsignedByte': 'B', 'Short': 'h',
           'UnsignedShort': 'H', 'Int': 'i', 'UnsignedInt': 'I', 'Float': 'f',
           'Double': 'd'}


def spec_program(cls):
    def read(reader):
        c = reader.c
        out = []
        for name, args, value in cls.prog:
            if name == 'Object':
                out.append(reader.value())
            elif name == 'Boolean':
                out.append(('b', c.read(1) != '\x00'))
            elif name == 'UTF':
                out.append(('s', c.read(c.u16()).decode('utf-8')))
            elif name == 'UTFBytes':
                out.append(('s', c.read(args[0]).decode('utf-8')))
            elif name == 'MultiByte':
                out.append(('s', c.read(args[0]).decode(args[1])))
            else:
                f = '>' + FORMATS[name]
                out.append(('n', struct.unpack(
                    f, c.read(struct.calcsize(f)))[0]))
        return out
    return read


EXTERNALS = {u'c27.P': spec_program(P), u'c27.Q': spec_program(Q),
             u'c27.R': spec_program(R)}


def encode(vs, version, **kw):
    e = pyamf.get_encoder(version, **kw)
    for v in vs:
        e.writeElement(v)
    return e.stream.getvalue()


def check(ctx, name, prog, around, make, version, pieces=False):
    vs = make(world(prog))
    want = pyform(vs)
    ctx.step(2 * len(prog) + 1)
    ctx.trace()
    sig = 'amf%d %s' % (version, around)
    desc = 'AMF%d, program %s, %s' % (version, name, around)
    r = mc.attempt(encode, vs, version)
    if r[0] != 'ok':
        ctx.violation(sig, '%s: writing raises %r' % (desc, r[1:]))
        return
    data = r[1]
    s = mc.attempt(lambda: specform(amfspec.read_all(data, version,
                                                     EXTERNALS)))
    if s[:2] != ('ok', want):
        ctx.violation(sig, '%s: %s means %r, expected %r' % (
            desc, mc.hexs(data)[:400], s[1:], want))
        return
    for alias in ('c27.P', 'c27.Q'):
        if data.count(alias) > 1:
            ctx.violation(sig + ' class', '%s: %s describes the class %s more '
                          'than once' % (desc, mc.hexs(data)[:400], alias))
    if pyform(vs) != want:
        ctx.violation(sig + ' changed', '%s: writing changed the objects' %
                      desc)
    r = mc.attempt(lambda: pyform(list(pyamf.get_decoder(version, data))))
    if r[:2] != ('ok', want):
        ctx.violation(sig + ' read', '%s: %s reads as %r, expected %r' % (
            desc, mc.hexs(data)[:400], r[1:], want))
        return
    if not pieces:
        return
    for k in range(1, len(data)):
        ctx.step(2)
        dec = pyamf.get_decoder(version)
        got = []
        for part in (data[:k], data[k:]):
            dec.send(part)
            while 1:
                r = mc.attempt(dec.next)
                if r[0] != 'ok':
                    break
                got.append(r[1])
        if r[1] != 'StopIteration' or pyform(got) != want:
            ctx.violation(sig + ' pieces', '%s: in pieces of %d and %d bytes: '
                          '%r' % (desc, k, len(data) - k, r[1:]))
            return


def label(prog):
    return ', '.join(['%s(%s)' % (o[0], repr(o[2])[:20]) for o in prog])


def programs(ctx):
    Q.prog = (('Byte', (), 7), ('Object', (), LIST))
    R.prog = Q.prog
    progs = list(mc.seqs_upto(range(len(OPS)), 2))
    simple = [OPS.index(o) for o in SIMPLE]
    progs += list(mc.seqs(simple, 3))
    if ctx.thorough:
        progs += [p for p in mc.seqs(range(len(OPS)), 3)]
        progs += list(mc.seqs(simple[::2], 4))
    ctx.bound('operations', len(OPS))
    ctx.bound('programs', len(progs))
    ctx.bound('surroundings', len(AROUND) + len(ONLY3))
    for p in progs:
        cid = 'program %r' % (p,)
        if not ctx.mine(cid):
            continue
        prog = [OPS[i] for i in p]
        ctx.state(cid)
        for i, (around, make) in enumerate(AROUND):
            # longer programs with cuts in one place each
            pieces = len(p) < 2 or (sum(p) % len(AROUND) == i and
                                    len(p) < 3 and i in (0, 5))
            for version in (0, 3):
                check(ctx, label(prog), prog, around, make, version, pieces)
        for around, make in ONLY3:
            check(ctx, label(prog), prog, around, make, 3)


# ------------------------------------------------------------------ instances
def instances(ctx):
    """Sequences of instances of several classes: one description each."""
    P.prog = (('UTF', (), u''), ('Object', (), None))
    Q.prog = (('Byte', (), 0),)
    R.prog = (('Object', (), None), ('Byte', (), 0))

    def make(c, w):
        if c == 'P':
            return obj(P, vals=[u'text', w])
        if c == 'Q':
            return obj(Q, vals=[3])
        if c == 'R':
            return obj(R, vals=[w, 4])
        if c == 'T':
            return obj(W, a=w)
        if c == 'S':
            return obj(S, a=w)
        return w
    for n in range(1, 7 if ctx.thorough else 6):
        for seq in mc.seqs('PQRTSL', n):
            cid = 'instances ' + ''.join(seq)
            if not ctx.mine(cid):
                continue
            ctx.state(cid)
            for version in (0, 3):
                # each holds the one before
                v, chain = [], []
                for c in seq:
                    v = make(c, v)
                    chain.append(v)
                for how, vs in (('nested', [v]), ('flat', [make(
                        c, u'x') for c in seq]), ('list', [obj(W, a=chain)])):
                    if how == 'nested' and v == []:
                        continue
                    want = pyform(vs)
                    ctx.step(2)
                    ctx.trace()
                    r = mc.attempt(encode, vs, version)
                    if r[0] != 'ok':
                        ctx.violation('instances', '%s (%s, AMF%d): %r' % (
                            cid, how, version, r[1:]))
                        continue
                    data = r[1]
                    s = mc.attempt(lambda: specform(amfspec.read_all(
                        data, version, EXTERNALS)))
                    r = mc.attempt(lambda: pyform(list(
                        pyamf.get_decoder(version, data))))
                    more = [a for a in CLASSES.values()
                            if data.count(a.encode('ascii')) > 1]
                    if s[:2] != ('ok', want) or r[:2] != ('ok', want) or more:
                        ctx.violation(
                            'instances', '%s (%s, AMF%d): %s means %r, reads '
                            'as %r, described more than once: %r' % (
                                cid, how, version, mc.hexs(data), s[1:],
                                r[1:], more))


# ------------------------------------------------------------------- failures
class Failing(Exception):
    pass


def failures(ctx):
    """A class that fails while writing or reading fails the whole value with
    its own error, and the registry is as before."""
    class F(object):
        class __amf__:
            amf3 = True
            external = True

        def __writeamf__(self, output):
            output.writeUTF(u'x')
            output.writeObject([1])
            if self.bad:
                raise Failing('write')

        def __readamf__(self, input):
            input.readUTF()
            input.readObject()
            if F.refuse:
                raise Failing('read')
            self.bad = False
    F.refuse = False
    pyamf.register_class(F, 'c27.F')
    try:
        for version in (0, 3):
            for around in range(4):
                cid = 'failure %d %d' % (version, around)
                if not ctx.mine(cid):
                    continue

                def build(bad):
                    o = obj(F, bad=bad)
                    return [o, [o], obj(W, a=[o], b=o), [1, obj(T, a=o)]][
                        around]
                for first in (False, True):
                    ctx.state((cid, first))
                    ctx.step(4)
                    ctx.trace()
                    if first:
                        good = mc.attempt(encode, [build(False)], version)
                    r = mc.attempt(encode, [build(True)], version)
                    ok = r[1] == 'Failing'
                    good = mc.attempt(encode, [build(False)], version)
                    ok = ok and good[0] == 'ok'
                    F.refuse = True
                    b = mc.attempt(lambda: list(pyamf.decode(
                        good[1], encoding=version)))
                    F.refuse = False
                    ok = ok and b[1] == 'Failing'
                    a = mc.attempt(lambda: list(pyamf.decode(
                        good[1], encoding=version)))
                    if not ok or a[0] != 'ok':
                        ctx.violation('failure', '%s: writing gives %r, '
                                      'reading %r, then %r' % (
                                          cid, r[1:], b[1:], a[1:]))
    finally:
        pyamf.unregister_class(F)
    # classes that cannot be externalised
    for i, (reads, writes) in enumerate([(0, 0), (0, 1), (1, 0), (2, 1),
                                         (1, 2), (1, 1)]):
        if not ctx.mine('methods %d %d' % (reads, writes)):
            continue
        ctx.state((reads, writes))
        ctx.step()
        ctx.trace()
        body = {'__amf__': type('meta', (object,), {'external': True,
                                                   'amf3': True})}
        if reads:
            body['__readamf__'] = (lambda self, i: None) if reads == 1 else 5
        if writes:
            body['__writeamf__'] = (lambda self, o: None) if writes == 1 \
                else 5
        c = type('Methods', (object,), body)

        def use():
            pyamf.register_class(c, 'c27.Methods')
            try:
                return encode([c()], 3)
            finally:
                pyamf.unregister_class(c)
        r = mc.attempt(use)
        want = 'ok' if (reads, writes) == (1, 1) else 'exc'
        if r[0] != want:
            ctx.violation('methods', 'an external class with __readamf__ %d '
                          'and __writeamf__ %d: %r' % (reads, writes, r))


def run(ctx):
    for c in CLASSES:
        pyamf.register_class(c, CLASSES[c].encode('ascii'))
    programs(ctx)
    instances(ctx)
    failures(ctx)
    ctx.sample('writeUTF, writeObject(self), writeObject(shared list) between '
               'objects that hold the same list')
    ctx.assume('external classes are declared to use AMF3, AMF0 has no such '
               'objects; what AMF0 and AMF3 parts of a value share is sent '
               'once for each')
