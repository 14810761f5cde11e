"""C07: malformed and truncated input is refused, never misread."""
import itertools
import zlib

import pyamf
from pyamf import amf0, amf3, xml as pxml
from pyamf.flex import ArrayCollection, ObjectProxy

import amfspec
import mc
import rt_common as rt

FAMILY = (pyamf.BaseError, IOError, EOFError, UnicodeError, ValueError,
          OverflowError, SyntaxError)


def spec(data, version):
    n = amfspec.Node('array')
    n.items = amfspec.read_all(data, version)
    return rt.merge(amfspec.canon(n))


def outside(c):
    """Values the format defines but Python (or the XML library) may refuse."""
    if not isinstance(c, tuple):
        return False
    if c and c[0] == 'xml':
        return True
    if c and c[0] == 'date':
        return True
    return any(outside(x) for x in c)


def members(c, out):
    if isinstance(c, tuple):
        if c and c[0] == 'typed' and c[2] in (u'h.S', u'h.Z'):
            out.append((c[2], set(k for k, x in c[3])))
        for x in c:
            members(x, out)
    return out


def undeclared(c):
    """Instances of classes with static attributes that lack one, or of the
    sealed class that bring others: what happens to them is C11."""
    return any(not ks >= set('ab') or (n == u'h.Z' and ks != set('ab'))
               for n, ks in members(c, []))


def decode(data, version):
    mod = amf3 if version == 3 else amf0
    return list(mod.Decoder(data))


PLAIN = set()


def zlibbed(data):
    """Byte arrays that look compressed are decompressed (C10)."""
    return data[:2] in ('x\x9c', 'x\xda') or data in PLAIN


def unxml(c):
    """XML documents compare by presence (C21 compares the documents)."""
    if not isinstance(c, tuple):
        return c
    if c and c[0] == 'xml':
        return ('xml',)
    if c and c[0] == 'ba' and zlibbed(c[2]):
        return ('ba', c[1])
    return tuple([unxml(x) for x in c])


def check(ctx, version, data, what):
    ctx.step()
    ctx.trace()
    ctx.state((version, data))
    s = mc.attempt(spec, data, version)
    d = mc.attempt(decode, data, version)
    sig = 'amf%d %s' % (version, mc.hexs(data)[:200])
    if s[0] == 'ok' and undeclared(s[1]):
        return
    if d[0] == 'exc':
        if s[0] == 'exc' and d[1] == 'AttributeError' and (
                'h.S' in data or 'h.Z' in data):
            return      # documented: a static attribute is missing (C11)
        if not isinstance(d[2], FAMILY):
            ctx.violation('%s %s' % (d[1], sig), 'AMF%d: %s (%s) raises %s: '
                          '%s, which is no decoding error' % (
                              version, mc.hexs(data)[:200], what, d[1], d[2]))
        elif s[0] == 'ok' and not outside(s[1]):
            ctx.violation('refused ' + sig, 'AMF%d: %s (%s) means %r but is '
                          'refused: %s %s' % (version, mc.hexs(data)[:200],
                                              what, s[1], d[1], d[2]))
        ctx.outcome(d[1])
        return
    if s[0] == 'exc':
        if getattr(s[2], 'lenient', False):
            return
        if s[1] not in ('SpecError', 'SpecEOF'):
            if s[1] == 'OverflowError' or s[1] == 'ValueError':
                return      # a date beyond every calendar
            raise s[2]
        ctx.violation('accepted ' + sig, 'AMF%d: %s (%s) is not valid (%s) '
                      'but decodes to %r' % (version, mc.hexs(data)[:200],
                                             what, s[2], d[1]))
        return
    PLAIN.clear()
    collect(s[1])
    got = mc.attempt(lambda: rt.merge(rt.normal(d[1], version)))
    if got[0] == 'exc' or unxml(got[1]) != unxml(s[1]):
        ctx.violation('misread ' + sig, 'AMF%d: %s (%s) means %r but decodes '
                      'to %r' % (version, mc.hexs(data)[:200], what, s[1],
                                 got[1:]))


def typed(cls, **kw):
    o = cls()
    for k, v in kw.items():
        setattr(o, k, v)
    return o


def corpus():
    sh = {'k': u'key'}
    cyc = [u'x']
    cyc.append(cyc)
    t = typed(rt.T, a=u'k', b=2)
    t.c = t
    return [
        ('scalars', [None, True, False, 1, -1, 1.5, u'ab', pyamf.Undefined]),
        ('ints', [[0, 127, 128, 16384, 2 ** 21, 2 ** 28]]),
        ('texts', [[u'ab', u'\xe9', u'ab', {u'ab': u'\xe9'}]]),
        ('shared', [[sh, sh, [sh]]]),
        ('cycle', [cyc]),
        ('typed', [[t, t, typed(rt.T, a=1)]]),
        ('sealed', [[typed(rt.Z, a=1, b=2), typed(rt.Z, a=u'a', b=u'q')]]),
        ('static', [[typed(rt.S, a=1, b=2, c=3)]]),
        ('unknown', [[pyamf.TypedObject('q.Q')]]),
        ('mixed', [pyamf.MixedArray({0: u'z', 1: 2, 'k': 3})]),
        ('date', [[rt.DATE, rt.DATE]]),
        ('xml', [[pxml.fromstring('<a>b</a>'), u'x']]),
        ('amf3', [[typed(rt.A, a=u'q'), u'q', typed(rt.A, a=[u'q'])]]),
        ('bytes', [[amf3.ByteArray('abc'), 5]]),
        ('compressed', [[packed('abc' * 9), 5]]),
        ('nested', [[[[[{'a': [{'b': []}]}]]]]]),
    ]


def inflate(data):
    """What a lenient inflater makes of data."""
    d = zlib.decompressobj()
    try:
        return d.decompress(data)
    except zlib.error:
        return None


def collect(c):
    """Remember what the compressed byte arrays of c may decompress to."""
    if isinstance(c, tuple):
        if c and c[0] == 'ba' and c[2][:2] in ('x\x9c', 'x\xda'):
            PLAIN.add(inflate(c[2]))
        for x in c:
            collect(x)


def packed(data):
    b = amf3.ByteArray(data)
    b.compressed = True
    return b


def run(ctx):
    t = ctx.thorough
    rt.register()

    # 1. every string of at most two bytes, every two bytes after the markers
    for a in range(256):
        if not ctx.mine('bytes %02x' % a):
            continue
        for version in (0, 3):
            check(ctx, version, chr(a), 'one byte')
            for b in range(256):
                check(ctx, version, chr(a) + chr(b), 'two bytes')

    # 2. every string over the structural bytes
    a0 = '\x00\x01\x02\x03\x05\x07\x08\x09\x0a\x0b\x0d\x0f\x10\x11a\xff'
    a3 = '\x00\x01\x02\x03\x04\x05\x06\x07\x08\x09\x0a\x0b\x0c\x0d\x11\x13a' \
         '\x80\xff'
    n = 5 if t else 4
    for version, alpha in ((0, a0), (3, a3)):
        for head in itertools.product(alpha, repeat=2):
            if not ctx.mine('alphabet amf%d %r' % (version, head)):
                continue
            for k in range(1, n - 1):
                for rest in itertools.product(alpha, repeat=k):
                    check(ctx, version, ''.join(head + rest), 'alphabet')
                    ctx.alive()
        ctx.bound('alphabet amf%d' % version, 'all strings of %d bytes over '
                  '%d byte values' % (n, len(alpha)))
    # containers need more bytes: fixed heads, every tail
    heads = {0: ['\x03\x00\x01a', '\x0a\x00\x00\x00\x01',
                 '\x0a\x00\x00\x00\x02\x03\x00\x00\x09',
                 '\x08\x00\x00\x00\x00\x00\x01',
                 '\x08\x00\x00\x00\x00\x00\x02',
                 '\x10\x00\x03h.T\x00\x01', '\x10\x00\x01q', '\x11\x0a',
                 '\x11\x09\x03\x01', '\x0b\x00\x00\x00\x00\x00\x00\x00'],
             3: ['\x0a\x0b\x01', '\x0a\x13\x01\x03a', '\x0a\x0b\x07h.T',
                 '\x0a\x13\x07h.T\x03a', '\x0a\x07\x01', '\x0a\x07\x03q',
                 '\x0a\x23\x03q\x03a\x03b', '\x09\x03\x03a',
                 '\x09\x05\x01\x0a\x0b\x01\x01', '\x09\x05\x01\x06\x03a',
                 '\x09\x05\x01\x08\x01\x00\x00\x00\x00\x00\x00\x00\x00',
                 '\x09\x05\x01\x0c\x03a', '\x09\x05\x01\x0a\x13\x03q\x03a\x01',
                 '\x0c\x0dx\x9c', '\x0b\x07', '\x07\x07<a']}
    k = 4 if t else 3
    for version in (0, 3):
        alpha = a0 if version == 0 else a3
        for h in heads[version]:
            for x in alpha:
                if not ctx.mine('head amf%d %s %r' % (version, mc.hexs(h),
                                                      x)):
                    continue
                for m in range(k):
                    for rest in itertools.product(alpha, repeat=m):
                        check(ctx, version, h + x + ''.join(rest), 'tail')
                        ctx.alive()
    ctx.bound('tails', 'every tail of at most %d structural bytes after %d '
              'container heads' % (k, len(heads[0]) + len(heads[3])))

    # 3. prefixes and single byte changes of valid streams
    for name, vs in corpus():
        for version in (0, 3):
            if version == 0 and name in ('bytes', 'compressed'):
                continue
            enc = (amf3 if version == 3 else amf0).Encoder()
            for v in vs:
                enc.writeElement(v)
            data = enc.stream.getvalue()
            for i in range(len(data)):
                if not ctx.mine('corpus %s amf%d %d' % (name, version, i)):
                    continue
                check(ctx, version, data[:i], 'prefix of ' + name)
                for x in range(256):
                    c = chr(x)
                    if c != data[i]:
                        check(ctx, version, data[:i] + c + data[i + 1:],
                              'byte %d of %s changed' % (i, name))
                    if t or x in (0, 1, 9, 255):
                        check(ctx, version, data[:i] + c + data[i:],
                              'byte %d of %s inserted' % (i, name))
                for j in range(i + 1, min(len(data), i + 4) + 1):
                    check(ctx, version, data[:i] + data[j:],
                          'bytes %d-%d of %s deleted' % (i, j, name))
    ctx.bound('corpus', 'every prefix, byte substitution, insertion and '
              'deletion of %d streams in two versions' % len(corpus()))
    ctx.assume('dates no calendar holds and XML the XML library refuses may '
               'be refused; names that are not UTF-8 may be refused or kept '
               'as bytes; references of one marker to a value of another are '
               'read as the referenced value')
    ctx.sample('AMF3 0a0701: externalizable anonymous object')
