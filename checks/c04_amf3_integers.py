"""C04: AMF3 integers, every boundary, every order."""
import itertools
import struct

import pyamf
from pyamf import amf3

import amfspec
import mc

MIN, MAX = -2 ** 28, 2 ** 28 - 1
EDGES = sorted(set(
    s * (2 ** k) + d for k in (0, 6, 7, 8, 13, 14, 15, 20, 21, 22, 27, 28, 29,
                               30, 31, 32, 52, 53, 63)
    for s in (1, -1) for d in (-1, 0, 1)))


class Caches(object):
    """Module level state of pyamf.amf3, put back before every history."""

    def __init__(self):
        self.saved = [(v, v.copy()) for k, v in sorted(vars(amf3).items())
                      if isinstance(v, dict) and not k.startswith('__')]

    def reset(self):
        for d, copy in self.saved:
            d.clear()
            d.update(copy)


def expected(n):
    if MIN <= n <= MAX:
        return '\x04' + amfspec.u29(n if n >= 0 else n + 2 ** 29)
    return '\x05' + struct.pack('>d', n)


def write(n):
    e = amf3.Encoder()
    e.writeElement(n)
    return e.stream.getvalue()


def one(ctx, n, how):
    ctx.step(2)
    ctx.trace()
    want = expected(n)
    r = mc.attempt(write, n)
    if r[0] == 'exc' or r[1] != want:
        ctx.violation('write %d %s' % (n, type(n).__name__),
                      '%r (%s) is written as %r, expected %r' % (
                          n, how, r[1:], want))
        return
    d = mc.attempt(lambda: amf3.Decoder(want).readElement())
    if d[0] == 'exc' or d[1] != float(n) or d[1] != (
            n if abs(n) <= 2 ** 53 else float(n)):
        ctx.violation('read %d' % n, '%r (%s): %r reads back as %r' % (
            n, how, want, d[1:]))


def raw(n):
    return amf3.encode_int(n)


def raw_one(ctx, n, how):
    r = mc.attempt(raw, n)
    ctx.step()
    if MIN <= n <= MAX:
        want = amfspec.u29(n if n >= 0 else n + 2 ** 29)
        if r[:2] != ('ok', want):
            ctx.violation('encode_int %d' % n, 'encode_int(%r) %s gives %r '
                          'instead of %r' % (n, how, r[1:], want))
    elif r[:2] != ('exc', 'OverflowError'):
        ctx.violation('encode_int %d' % n, 'encode_int(%r) %s gives %r '
                      'instead of OverflowError' % (n, how, r[1:]))


def decode(b, signed):
    s = pyamf.util.BufferedByteStream(b)
    return amf3.decode_int(s, signed), s.tell()


def spec_decode(b):
    c = amfspec.Cursor(b)
    return amfspec.Amf3Reader(c).u29(), c.pos


def raw_read(ctx, b):
    ctx.step(2)
    ctx.trace()
    s = mc.attempt(spec_decode, b)
    for signed in (False, True):
        d = mc.attempt(decode, b, signed)
        if s[0] == 'exc':
            if d[0] != 'exc' or d[1] != 'IOError':
                ctx.violation('decode_int ' + mc.hexs(b), 'incomplete integer '
                              '%r gives %r' % (b, d[1:]))
            continue
        n, used = s[1]
        if signed and n >= 2 ** 28:
            n -= 2 ** 29
        if d[:2] != ('ok', (n, used)):
            ctx.violation('decode_int %s %s' % (mc.hexs(b), signed),
                          'decode_int(%r, signed=%r) gives %r instead of %r' %
                          (b, signed, d[1:], (n, used)))


def run(ctx):
    t = ctx.thorough
    caches = Caches()

    # 1. histories of two integers in one process (fresh caches)
    pool = [n for n in EDGES if abs(n) < 2 ** 33]
    ctx.bound('histories', 'all ordered pairs of %d boundary integers' %
              len(pool))
    for a in pool:
        if not ctx.mine('pairs from %d' % a):
            continue
        for b in pool:
            caches.reset()
            how = 'after %d' % a
            ctx.state(('pair', a, b))
            mc.attempt(raw, a)
            raw_one(ctx, b, how)
            raw_one(ctx, a, 'again ' + how)
            caches.reset()
            mc.attempt(write, a)
            one(ctx, b, how)
            one(ctx, long(b), how)
            raw_one(ctx, b, how)
    # one encoder, several integers
    small = [n for n in pool if n in (0, -1, 127, 128, MIN, MAX, MIN - 1,
                                      MAX + 1, 2 ** 29 - 1, 2 ** 29, 16383,
                                      16384, 2 ** 21 - 1, 2 ** 21)]
    for s in mc.seqs_upto(small, 3):
        if not s or not ctx.mine('sequence %r' % (s,)):
            continue
        ctx.state(('seq', s))
        caches.reset()
        e = amf3.Encoder()
        for n in s:
            e.writeElement(n)
        ctx.step(len(s))
        ctx.trace()
        want = ''.join(expected(n) for n in s)
        if e.stream.getvalue() != want:
            ctx.violation('sequence %r' % (s,), 'one encoder writes %r as %r, '
                          'expected %r' % (s, e.stream.getvalue(), want))
        got = list(amf3.Decoder(want))
        if [float(x) for x in got] != [float(x) for x in s]:
            ctx.violation('sequence read %r' % (s,), '%r reads as %r' % (
                want, got))
    ctx.bound('sequences', 'length <= 3 over %d integers' % len(small))

    # 2. windows around every edge
    w = 3000 if t else 300
    for n0 in EDGES:
        if not ctx.mine('window %d' % n0):
            continue
        caches.reset()
        for n in xrange(-w, w + 1):
            ctx.state(('n', n0 + n))
            one(ctx, n0 + n, 'window')
            if abs(n0) < 2 ** 32:
                raw_one(ctx, n0 + n, 'window')
    ctx.bound('windows', '+-%d around %d edges' % (w, len(EDGES)))

    # 3. every combination of boundary groups
    g7 = (0, 1, 2, 0x3f, 0x40, 0x41, 0x7e, 0x7f)
    g8 = (0, 1, 0x7f, 0x80, 0x81, 0xfe, 0xff)
    for a, b in itertools.product(g7, repeat=2):
        if not ctx.mine('groups %d %d' % (a, b)):
            continue
        caches.reset()
        for c, d in itertools.product(g7, g8):
            n = a << 22 | b << 15 | c << 8 | d
            if n > MAX:
                n -= 2 ** 29
            ctx.state(('n', n))
            one(ctx, n, 'groups')
            raw_one(ctx, n, 'groups')

    # 4. every raw encoding of at most two bytes, boundary ones beyond,
    #    including forms that are longer than necessary and cut ones
    for i in range(256):
        if not ctx.mine('raw %d' % i):
            continue
        raw_read(ctx, chr(i))
        for j in range(256):
            b = chr(i) + chr(j)
            ctx.state(b)
            raw_read(ctx, b)
    ends = [x | h for x in (0, 1, 0x40, 0x7f) for h in (0, 0x80)]
    for x in itertools.product(ends, repeat=3):
        if not ctx.mine('raw %r' % (x,)):
            continue
        b = ''.join(map(chr, x))
        ctx.state(b)
        raw_read(ctx, b)
        for y in range(256) if t else g8 + (2, 0x40):
            ctx.state(b + chr(y))
            raw_read(ctx, b + chr(y))
            raw_read(ctx, b + chr(y) + '\x05')

    # 5. dense ranges
    top = 2 ** 21 + 2 ** 16 if t else 2 ** 17 + 2 ** 12
    step = 4096
    for lo in range(-top, top, step):
        if not ctx.mine('range %d' % lo):
            continue
        caches.reset()
        for n in xrange(lo, lo + step):
            one(ctx, n, 'range')
        ctx.state(('range', lo))
    ctx.bound('dense range', '-%d .. %d' % (top, top))
    ctx.sample('pair history: encode -1, then 536870911, then both again')
