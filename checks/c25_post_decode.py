"""C25: post decode processors see every decoded value exactly once."""
import itertools
import os

import pyamf
from pyamf import amf0, amf3, remoting, sol, util, xml as pxml

import mc


class T(object):
    """a registered class"""


class A(object):
    """always AMF3"""
    class __amf__:
        amf3 = True


class E(object):
    """reads and writes itself, with complete values inside"""
    class __amf__:
        amf3 = True
        external = True

    def __init__(self, *v):
        self.v = list(v)

    def __writeamf__(self, output):
        output.writeByte(len(self.v))
        for x in self.v:
            output.writeObject(x)

    def __readamf__(self, input):
        self.v = [input.readObject() for i in range(input.readByte())]


class Bad(object):
    """cannot be read"""
    class __amf__:
        amf3 = True
        external = True

    def __writeamf__(self, output):
        output.writeObject([1])

    def __readamf__(self, input):
        input.readObject()
        raise pyamf.DecodeError('no')


class X(object):
    """its alias leaves a note for the processors"""


class XAlias(pyamf.ClassAlias):
    def applyAttributes(self, obj, attrs, codec=None):
        pyamf.ClassAlias.applyAttributes(self, obj, attrs, codec=codec)
        codec.context.extra.setdefault('c25', []).append(obj)


class Refused(Exception):
    """raised by a processor"""


def typed(cls, **kw):
    o = cls()
    for k, v in kw.items():
        setattr(o, k, v)
    return o


def values():
    """Fresh values; some share parts."""
    l = [1, [2, {u'a': [3]}]]
    t = typed(T, a=typed(T, b=u'y'))
    return {
        'number': 5, 'text': u'x', 'null': None, 'false': False, 'list': l,
        'again': [l, l], 'dict': {u'k': {u'k': u'v'}}, 'typed': t,
        'typed list': [t, t], 'amf3': typed(A, b=[typed(A, c=1)]),
        'amf3 list': [typed(A, b=1), [typed(A, b=2)]], 'external': E(l, E()),
        'external list': [E(1), E([2])], 'x': typed(X, a=1), 'x3': typed(A, b=typed(X, a=1)),
        'x3 list': [typed(A, b=typed(X, a=2)), typed(X, a=3)],
        'xml': pxml.fromstring('<a/>'), 'empty': [],
        'external x': E(typed(X, a=4)),
    }


NAMES = ['number', 'text', 'null', 'false', 'list', 'again', 'dict', 'typed',
         'typed list', 'amf3', 'amf3 list', 'external', 'external list', 'x',
         'x3', 'x3 list', 'xml', 'empty', 'external x']
CORE = ['text', 'null', 'again', 'amf3 list', 'external', 'x3 list', 'typed']
CLASSES = {T: 'c25.T', A: 'c25.A', E: 'c25.E', Bad: 'c25.Bad', X: 'c25.X'}


def show(v):
    if isinstance(v, (list, tuple)):
        return [show(x) for x in v]
    if isinstance(v, dict):
        return sorted((k, show(x)) for k, x in v.items())
    if type(v) in CLASSES:
        return (type(v).__name__, show(vars(v)))
    if pxml.is_xml(v):
        return 'xml'
    if isinstance(v, bool) or v is None:
        return v
    return v if isinstance(v, basestring) else float(v)


def notes(v, out):
    """The objects in v whose alias leaves a note."""
    if isinstance(v, (list, tuple)):
        for x in v:
            notes(x, out)
    elif isinstance(v, dict):
        for x in v.values():
            notes(x, out)
    elif type(v) in CLASSES:
        notes(vars(v), out)
        if type(v) is X:
            out.append(show(v))
    return out


# ----------------------------------------------------------------- processors
INNER = {0: '\x0a\x00\x00\x00\x01\x02\x00\x01i', 3: '\x09\x03\x01\x06\x03i'}


class World(object):
    """A chain of processors, what they see, and what they should see."""

    def __init__(self, kinds):
        self.kinds = kinds
        self.log = []
        self.inside = False
        self.procs = [self.make(i, k) for i, k in enumerate(kinds)]

    def make(self, i, kind):
        def processor(payload, extra):
            self.log.append((i, show(payload)))
            return getattr(self, 'do_' + kind)(i, payload, extra)
        return processor

    def do_same(self, i, payload, extra):
        return payload

    def do_wrap(self, i, payload, extra):
        return [u'wrapped', i, payload]

    def do_null(self, i, payload, extra):
        return None

    def do_extra(self, i, payload, extra):
        got = extra.pop('c25', [])
        self.log.append(('extra', sorted(show(x) for x in got)))
        return payload

    def do_refuse(self, i, payload, extra):
        if payload == u'x':
            raise Refused()
        return payload

    def do_decode(self, i, payload, extra):
        if not self.inside:
            self.inside = True
            try:
                for v in (0, 3):
                    self.log.append(('in', show(list(pyamf.decode(
                        INNER[v], encoding=v)))))
            finally:
                self.inside = False
        return payload

    # -- the model
    def expect(self, log, payload, pending, inside=False):
        """Result of the chain; the calls go to the log. pending are the notes
        that were left since they were last taken."""
        for i, kind in enumerate(self.kinds):
            log.append((i, show(payload)))
            if kind == 'wrap':
                payload = [u'wrapped', i, payload]
            elif kind == 'null':
                payload = None
            elif kind == 'extra':
                log.append(('extra', sorted(pending)))
                del pending[:]
            elif kind == 'refuse' and payload == u'x':
                raise Refused()
            elif kind == 'decode' and not inside:
                for v in (0, 3):
                    log.append(('in', show([self.expect(
                        log, [u'i'], [], True)])))
        return payload


def install(world):
    uninstall()
    for p in world.procs:
        pyamf.add_post_decode_processor(p)


def uninstall():
    del pyamf.POST_DECODE_PROCESSORS[:]


KINDS = ['same', 'wrap', 'null', 'extra', 'refuse', 'decode']


# -------------------------------------------------------------------- streams
def stream(names, version):
    """(bytes, values) of one encoder."""
    vs = values()
    e = pyamf.get_encoder(version)
    out = []
    for n in names:
        # an object that is sent by reference leaves no second note
        out.append(values()[n] if 'x' in n and n != 'text' else vs[n])
        e.writeElement(out[-1])
    return e.stream.getvalue(), out


def drain(dec, log):
    """Everything a decoder gives, with the errors on the way."""
    out = []
    while 1:
        r = mc.attempt(dec.next)
        if r[0] == 'ok':
            out.append(show(r[1]))
        elif r[1] == 'Refused':
            out.append('refused')
        else:
            out.append(r[1])
            return out


def model(world, vs, end):
    log, out, pending = [], [], []
    for v in vs:
        notes(v, pending)
        try:
            out.append(show(world.expect(log, v, pending)))
        except Refused:
            out.append('refused')
    return log, out + [end]


def compare(ctx, sig, desc, world, got, log, want):
    ctx.trace()
    ctx.step(len(got) + len(log))
    if got != want[1]:
        ctx.violation(sig + ' results', '%s, processors %r: gives %r, '
                      'expected %r' % (desc, world.kinds, got, want[1]))
    elif log != want[0]:
        ctx.violation(sig + ' calls', '%s, processors %r: calls %r, '
                      'expected %r' % (desc, world.kinds, log, want[0]))


def streams(ctx):
    chains = list(mc.seqs_upto(KINDS, 2))
    more = [c for c in mc.seqs(KINDS, 3)]
    ctx.bound('chains of processors', len(chains) + len(more))
    seqs = list(mc.seqs_upto(NAMES, 2)) + [
        s for s in mc.seqs(CORE, 3)]
    ctx.bound('streams of up to 3 values', len(seqs))
    for version in (0, 3):
        for names in seqs:
            cid = 'stream %d %s' % (version, ','.join(names))
            if not ctx.mine(cid):
                continue
            uninstall()
            data, vs = stream(names, version)
            use = chains if len(names) < 3 else chains[::3]
            if ctx.thorough or len(names) == 1:
                use = chains + more
            elif len(names) == 2 and not (names[0] in CORE and
                                          names[1] in CORE):
                use = chains[1::4]
            ctx.alive()
            for chain in use:
                w = World(chain)
                install(w)
                ctx.state((version, names, chain))
                got = drain(pyamf.decode(data, encoding=version), w.log)
                compare(ctx, 'amf%d' % version, 'AMF%d %r' % (version, names),
                        w, got, w.log, model(w, vs, 'StopIteration'))
    uninstall()


ENDINGS = [
    ('nested unknown', '\x0a\x00\x00\x00\x02\x05\x7f', '\x09\x05\x01\x01\x7f'),
    ('unknown', '\x7f', '\x7f'),
    ('bad reference', '\x07\x7f\x7f', '\x0a\xfe\x7c'),
    ('nested bad reference', '\x0a\x00\x00\x00\x01\x07\x7f\x7f',
     '\x09\x03\x01\x0a\xfe\x7c'),
    ('dtd', '\x0f\x00\x00\x00\x11<!DOCTYPE a><a/>\n',
     '\x0b\x23<!DOCTYPE a><a/>\n'),
    ('dtd in AMF3', '\x11\x09\x03\x01\x0b\x23<!DOCTYPE a><a/>\n',
     '\x09\x03\x01\x0b\x23<!DOCTYPE a><a/>\n'),
    ('bad external', None, None),
]


def refused(ctx):
    """A value that cannot be decoded is given to no processor, and the next
    one is again given to all of them once."""
    chains = [(), ('same',), ('wrap', 'extra'), ('decode',),
              ('refuse', 'wrap'), ('extra',)]
    for version in (0, 3):
        for name, a0, a3 in ENDINGS:
            for before in [()] + [(n,) for n in NAMES]:
                for after in CORE:
                    cid = 'refused %d %s %s %s' % (version, name, before,
                                                   after)
                    if not ctx.mine(cid):
                        continue
                    uninstall()
                    data, vs = stream(before, version)
                    bad = a3 if version == 3 else a0
                    if bad is None:
                        bad = pyamf.encode(
                            [Bad()], encoding=version).getvalue()
                    tail, more = stream((after,), version)
                    for chain in chains:
                        w = World(chain)
                        install(w)
                        ctx.state((cid, chain))
                        dec = pyamf.decode(data + bad, encoding=version)
                        got = drain(dec, w.log)
                        m = model(w, vs, got[-1])
                        compare(ctx, 'refused', 'AMF%d %r then %s' % (
                            version, before, name), w, got, w.log, m)
                        if got and got[-1] == 'StopIteration':
                            ctx.violation(
                                'refused end', 'AMF%d %r then %s is accepted' %
                                (version, before, name))
                        # the same decoder, after its context was cleared
                        del w.log[:]
                        dec.stream.truncate(0)
                        dec.context.clear()
                        dec.send(tail)
                        got = drain(dec, w.log)
                        compare(ctx, 'recovered', 'AMF%d %r, %s, then %s on '
                                'the same decoder' % (
                                    version, before, name, after), w, got,
                                w.log, model(w, more, 'StopIteration'))
    uninstall()


def pieces(ctx):
    """Every cut of a stream: incomplete values are given to no processor."""
    chains = [('same',), ('wrap', 'null'), ('extra', 'wrap'), ('decode',)]
    seqs = [(n,) for n in NAMES] + list(mc.seqs(CORE, 2))
    if ctx.thorough:
        seqs += list(mc.seqs(CORE, 3))
    for version in (0, 3):
        for names in seqs:
            cid = 'pieces %d %s' % (version, ','.join(names))
            if not ctx.mine(cid):
                continue
            uninstall()
            data, vs = stream(names, version)
            for chain in chains:
                w = World(chain)
                if 'extra' in chain:
                    # what was noted for an incomplete value may be noted
                    # again, only its number is not known
                    kinds = [k for k in chain if k != 'extra']
                    w = World(kinds)
                want = model(w, vs, 'StopIteration')
                install(w)
                cuts = [(k,) for k in range(1, len(data))]
                if len(data) < 40 or ctx.thorough:
                    cuts += list(itertools.combinations(
                        range(1, min(len(data), 60)), 2))
                cuts.append(tuple(range(1, len(data))))
                for cut in cuts:
                    ctx.state((cid, chain, cut))
                    del w.log[:]
                    dec = pyamf.get_decoder(version)
                    got = []
                    for a, b in zip((0,) + cut, cut + (len(data),)):
                        dec.send(data[a:b])
                        while 1:
                            r = mc.attempt(dec.next)
                            if r[0] != 'ok':
                                break
                            got.append(show(r[1]))
                    compare(ctx, 'pieces', 'AMF%d %r in pieces %r' % (
                        version, names, cut), w, got + [r[1]], w.log, want)
    uninstall()


# --------------------------------------------------------------- entry points
def packets(ctx):
    """Headers, arguments and results of packets; shared objects; byte
    arrays; the services of a gateway."""
    chains = [(), ('same',), ('wrap',), ('null', 'wrap'), ('extra', 'wrap'),
              ('decode', 'same'), ('wrap', 'extra', 'wrap')]
    for a in NAMES:
        for b in CORE:
            for version in (0, 3):
                cid = 'packet %d %s %s' % (version, a, b)
                if ctx.mine(cid):
                    packet(ctx, cid, a, b, version, chains)
                cid = 'sol %d %s %s' % (version, a, b)
                if ctx.mine(cid):
                    saved(ctx, cid, a, b, version, chains)
            cid = 'bytes %s %s' % (a, b)
            if ctx.mine(cid):
                array(ctx, cid, a, b, chains)


def packet(ctx, cid, a, b, version, chains):
    uninstall()
    vs = values()
    env = remoting.Envelope(version)
    env.headers[u'h'] = vs[a]
    env[u'/1'] = remoting.Request(u's.echo', body=[vs[b], vs[a]])
    env[u'/2'] = remoting.Response(vs[b])
    # its own packet: in a request of AMF3 the arguments are one value
    data = remoting.encode(env, strict=True).getvalue()
    for chain in chains:
        w = World(chain)
        install(w)
        ctx.state((cid, chain))
        r = mc.attempt(remoting.decode, data, strict=True)
        if r[0] != 'ok':
            ctx.violation('packet', '%s %r: %r' % (cid, chain, r[1:]))
            continue
        log = []
        pend = []
        want = []
        args = [vs[b], vs[a]]
        tops = [vs[a]] + args + [vs[b]]
        for v in tops:
            pending = notes(v, [])
            want.append(show(w.expect(log, v, pending)))
        e = r[1]
        got = [show(e.headers[u'h'])] + show(e[u'/1'].body) + \
            [show(e[u'/2'].body)]
        wl = list(w.log)
        if 'extra' in chain:
            # objects sent by reference leave no second note
            wl = [x for x in wl if x[0] != 'extra']
            log = [x for x in log if x[0] != 'extra']
        compare(ctx, 'packet', cid, w, got, wl, (log, want))
        # and what the service of a gateway gets
    uninstall()
    for chain in chains:
        gateway(ctx, cid, vs, a, b, version, chain)
    uninstall()


def gateway(ctx, cid, vs, a, b, version, chain):
    from pyamf.remoting import gateway as gw

    seen = []

    def echo(x, y):
        seen.append(show([x, y]))
        return 1

    uninstall()
    env = remoting.Envelope(version)
    env[u'/1'] = remoting.Request(u'echo', body=[vs[b], vs[a]])
    data = remoting.encode(env, strict=True).getvalue()
    w = World(chain)
    install(w)
    g = gw.BaseGateway({'echo': echo})
    e = remoting.decode(data)
    name, msg = e.bodies[0]
    r = mc.attempt(lambda: g.getProcessor(msg)(msg))
    log = []
    want = [show([w.expect(log, v, notes(v, [])) for v in (vs[b], vs[a])])]
    drop = lambda l: [x for x in l if x[0] != 'extra']
    compare(ctx, 'gateway', cid, w, seen, drop(w.log), (drop(log), want))


def saved(ctx, cid, a, b, version, chains):
    uninstall()
    vs = values()
    data = sol.encode('c25', {u'p': vs[a], u'q': vs[b]},
                      encoding=version).getvalue()
    for chain in chains:
        w = World([k for k in chain if k != 'extra'])
        install(w)
        ctx.state((cid, chain))
        r = mc.attempt(sol.decode, data)
        if r[0] != 'ok':
            ctx.violation('sol', '%s %r: %r' % (cid, chain, r[1:]))
            continue
        d = r[1][1]
        logs = []
        for order in ((u'p', u'q'), (u'q', u'p')):
            log = []
            want = {}
            for k in order:
                want[k] = show(w.expect(log, vs[a if k == u'p' else b], []))
            logs.append(log)
        log = w.log if w.log in logs else logs[0]
        compare(ctx, 'sol', cid, w, [show(d[u'p']), show(d[u'q'])], w.log,
                (log, [want[u'p'], want[u'q']]))
    uninstall()


def array(ctx, cid, a, b, chains):
    uninstall()
    vs = values()
    out = amf3.ByteArray()
    out.writeObject(vs[a])
    out.writeObject(vs[b])
    for chain in chains:
        w = World([k for k in chain if k != 'extra'])
        install(w)
        ctx.state((cid, chain))
        out.seek(0)
        got = []
        for i in range(2):
            r = mc.attempt(out.readObject)
            got.append(show(r[1]) if r[0] == 'ok' else r[1])
        log = []
        want = [show(w.expect(log, v, [])) for v in (vs[a], vs[b])]
        compare(ctx, 'bytes', cid, w, got, w.log, (log, want))
    uninstall()


def registration(ctx):
    for i, x in enumerate((None, 5, 'name', [len], {}, u'')):
        if not ctx.mine('registration %d' % i):
            continue
        uninstall()
        ctx.state(repr(x))
        ctx.step(2)
        ctx.trace()
        w = World(('wrap',))
        install(w)
        r = mc.attempt(pyamf.add_post_decode_processor, x)
        got = [show(v) for v in pyamf.decode('\x05', encoding=0)]
        if r[:2] != ('exc', 'TypeError') or got != [
                show([u'wrapped', 0, None])]:
            ctx.violation('registration', 'add_post_decode_processor(%r): %r, '
                          'afterwards null decodes to %r' % (x, r[1:], got))
    uninstall()


def run(ctx):
    for c in (T, A, E, Bad):
        pyamf.register_class(c, CLASSES[c])
    pyamf.register_alias_type(XAlias, X)
    pyamf.register_class(X, CLASSES[X])
    before = list(pyamf.POST_DECODE_PROCESSORS)
    try:
        streams(ctx)
        refused(ctx)
        pieces(ctx)
        packets(ctx)
        registration(ctx)
    finally:
        pyamf.POST_DECODE_PROCESSORS[:] = before
    ctx.sample('an AMF3 object inside AMF0, cut anywhere, with a processor '
               'that decodes another stream')
    ctx.assume('the arguments of a request are top level values; notes left '
               'for values that turn out to be incomplete are not counted')
