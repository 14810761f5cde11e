"""C06: incremental decoding yields the same values for every chunking."""
import itertools

import pyamf
from pyamf import amf0, amf3, xml as pxml

import mc
import rt_common as rt


def pool():
    """name -> function making a list of top level values."""
    def typed(cls, **kw):
        o = cls()
        for k, v in kw.items():
            setattr(o, k, v)
        return o

    def shared():
        d = {'k': u'key'}
        l = [d, d]
        return [l, d, [l]]

    def cycle():
        l = [1]
        l.append(l)
        t = typed(rt.T, k=u'v')
        t.me = t
        return [l, t, l, t]

    def typeds():
        a, b = typed(rt.T, x=u'k'), typed(rt.S, a=u'k', b=2)
        return [a, [b, a], typed(rt.S, a=1, b=u'k'), b]

    return [
        ('numbers', lambda: [1, 300, 2 ** 27, -5, 1.5]),
        ('texts', lambda: [u'ab', [u'ab', u'\xe9x'], u'\xe9x', u'']),
        ('consts', lambda: [None, True, False, pyamf.Undefined]),
        ('shared', shared),
        ('cycle', cycle),
        ('typed', typeds),
        ('classic and sealed', lambda: [typed(rt.O, p=u'q'),
                                        typed(rt.Z, a=1, b=[u'q'])]),
        ('mixed', lambda: [pyamf.MixedArray({0: u'a', 'k': u'a'}),
                           {'k': u'a'}]),
        ('dates', lambda: [[rt.DATE, u'x'], rt.DATE]),
        ('xml', lambda: [[pxml.fromstring('<a>b</a>'), u'x'], u'x']),
        ('amf3 inside', lambda: [typed(rt.A, s=u'str'), u'str',
                                 [typed(rt.A, s=u'str'), {'a': u'str'}]]),
        ('bytes', lambda: [[amf3.ByteArray('abc'), u'x'], u'x']),
        ('empty', lambda: [[], {}, u'', pyamf.MixedArray(), [[]]]),
    ]


def feed(version, chunks):
    """(values, what was reported in between)."""
    mod = amf3 if version == 3 else amf0
    dec = mod.Decoder()
    out = []
    log = []
    for c in chunks:
        dec.send(c)
        while True:
            r = mc.attempt(dec.next)
            if r[0] == 'ok':
                out.append(r[1])
                continue
            log.append(r[1])
            break
    return out, log, dec


def encoders(ctx):
    """Elements that are sent to an encoder come out in order, each once."""
    items = pool()
    depth = 8 if ctx.thorough else 6
    ctx.bound('histories of an encoder', depth)
    sets = list(itertools.permutations([n for n, f in items if n in (
        'texts', 'shared', 'typed', 'cycle')], 2))
    made = dict(items)
    for names in sets:
        for version in (0, 3):
            for head in mc.seqs('snid', 2):
                cid = 'encoder %r amf%d %r' % (names, version, head)
                if not ctx.mine(cid):
                    continue
                for tail in mc.seqs_upto('snid', depth - 2):
                    encoder(ctx, cid, [v for n in names for v in made[n]()],
                            version, head + tail + ('n', 'n'))


def encoder(ctx, cid, vs, version, ops):
    e = pyamf.get_encoder(version)
    ref = pyamf.get_encoder(version)
    queue, sent = [], 0
    ctx.state((cid, ops))
    ctx.step(len(ops))
    ctx.trace()
    for i, op in enumerate(ops):
        v = vs[sent % len(vs)]
        if op == 's':
            e.send(v)
            queue.append(v)
            sent += 1
            continue
        if op == 'd':
            # written past the queue
            r = mc.attempt(e.writeElement, v)
            ref.writeElement(v)
            if r[0] != 'ok':
                ctx.violation('encoder', '%s, %r: %d raises %r' % (
                    cid, ops, i, r[1:]))
                return
            continue
        if op == 'i':
            r = mc.attempt(lambda: list(itertools.islice(e, 1)))
            if r[0] == 'ok':
                r = ('ok', r[1][0]) if r[1] else ('exc', 'StopIteration')
        else:
            r = mc.attempt(e.next)
        if not queue:
            want = ('exc', 'StopIteration')
        else:
            start = ref.stream.tell()
            ref.writeElement(queue.pop(0))
            ref.stream.seek(start)
            want = ('ok', ref.stream.read())
        if r[:2] != want:
            ctx.violation('encoder', '%s, %r: %d gives %r, expected %r' % (
                cid, ops, i, r[1:], want))
            return
    if e.stream.getvalue() != ref.stream.getvalue():
        ctx.violation('encoder', '%s, %r: the stream holds %r, expected %r' % (
            cid, ops, e.stream.getvalue(), ref.stream.getvalue()))


def run(ctx):
    t = ctx.thorough
    rt.register()
    items = pool()
    seqs = [(n,) for n, f in items] + list(itertools.product(
        [n for n, f in items if n in ('texts', 'shared', 'typed', 'cycle',
                                      'amf3 inside', 'mixed', 'xml')],
        repeat=2))
    made = dict(items)
    total = 0
    for names in seqs:
        for version in (0, 3):
            if version == 0 and 'bytes' in names:
                continue
            cid = 'stream %r amf%d' % (names, version)
            if not ctx.mine(cid):
                continue
            mod = amf3 if version == 3 else amf0
            vs = []
            enc = mod.Encoder()
            ends = [0]
            for n in names:
                for v in made[n]():
                    vs.append(v)
                    enc.writeElement(v)
                    ends.append(enc.stream.tell())
            data = enc.stream.getvalue()
            whole = mc.attempt(lambda: list(mod.Decoder(data)))
            if whole[0] == 'exc':
                ctx.violation('whole %s' % cid, 'cannot decode %s: %s %s' % (
                    cid, whole[1], whole[2]))
                continue
            want = rt.normal(whole[1], version)
            n = len(data)
            cuts = [()] + [(i,) for i in range(1, n)]
            if t or n < 64:
                cuts += list(itertools.combinations(range(1, n), 2))
            if n <= (60 if t else 26):
                cuts += list(itertools.combinations(range(1, n), 3))
            cuts.append(tuple(range(1, n)))
            cuts += [tuple(range(k, n, s)) for s in (2, 3, 5)
                     for k in range(1, s + 1)]
            for cut in cuts:
                total += 1
                edges = (0,) + cut + (n,)
                chunks = [data[a:b] for a, b in zip(edges, edges[1:])]
                ctx.step(len(chunks))
                ctx.trace()
                ctx.alive()
                ctx.state((names, version, cut))
                out, log, dec = feed(version, chunks)
                sig = '%s cut %r' % (cid, cut[:6])
                got = mc.attempt(rt.normal, out, version)
                if got[0] == 'exc' or got[1] != want:
                    ctx.violation(sig, 'AMF%d stream %s fed in chunks %r '
                                  'yields %r (%r) instead of %r' % (
                                      version, names, map(mc.hexs, chunks)[:8],
                                      got[1], log, want))
                    continue
                # between values: a clean end; inside one: incomplete
                wantlog = ['StopIteration' if e in ends else 'IOError'
                           for e in edges[1:]]
                if log != wantlog:
                    ctx.violation(sig, 'AMF%d stream %s fed in chunks %r '
                                  'reports %r instead of %r' % (
                                      version, names, map(mc.hexs, chunks)[:8],
                                      log, wantlog))
    # readElement after a failed attempt leaves the position alone
    for name, f in items:
        for version in (0, 3):
            if version == 0 and name == 'bytes':
                continue
            cid = 'position %s amf%d' % (name, version)
            if not ctx.mine(cid):
                continue
            mod = amf3 if version == 3 else amf0
            for v in f():
                enc = mod.Encoder()
                enc.writeElement(v)
                data = enc.stream.getvalue()
                for i in range(1, len(data)):
                    dec = mod.Decoder('\x01\x01' if version == 0 else '\x03')
                    first = dec.readElement()
                    dec.send(data[:i])
                    pos = dec.stream.tell()
                    r = mc.attempt(dec.readElement)
                    ctx.step()
                    ctx.trace()
                    ctx.state((cid, data, i))
                    if first is not True or r[:2] != ('exc', 'IOError') or \
                            dec.stream.tell() != pos:
                        ctx.violation(cid, 'incomplete %r: %r, position %d '
                                      'before and %d after' % (
                                          data[:i], r[1:], pos,
                                          dec.stream.tell()))
                    dec.send(data[i:])
                    r = mc.attempt(lambda: rt.normal(dec.readElement(),
                                                     version))
                    if r != ('ok', rt.normal(v, version)):
                        ctx.violation(cid + ' retry', 'value %r cut at %d '
                                      'reads as %r' % (v, i, r[1:]))
    encoders(ctx)
    ctx.bound('streams', '%d streams in two versions; every cut at one and '
              'two places (three for short ones), byte by byte, strides' %
              len(seqs))
    ctx.sample('%d chunkings' % total)
