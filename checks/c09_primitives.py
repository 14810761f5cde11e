"""C09: fixed size numbers and strings in every byte order."""
import itertools

from java.lang import Double, Float
from pyamf import util, amf3

import mc

INTS = [('uchar', 1, 0), ('char', 1, 1), ('ushort', 2, 0), ('short', 2, 1),
        ('24bit_uint', 3, 0), ('24bit_int', 3, 1), ('ulong', 4, 0),
        ('long', 4, 1)]
LITTLE = {'!': False, '>': False, '<': True}


def native_little():
    from java.nio import ByteOrder
    # the interpreter, not the machine, defines what native is
    import struct
    return struct.pack('@H', 1)[0] == '\x01'


def two(n, width, little):
    n &= (1 << (8 * width)) - 1
    b = ''.join(chr(n >> (8 * i) & 0xff) for i in range(width))
    return b if little else b[::-1]


def values(width, signed, dense):
    bits = 8 * width
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (
        0, (1 << bits) - 1)
    out = set()
    if dense:
        if width == 1 or dense > 1 and width == 2:
            out.update(xrange(lo - 300, hi + 301))
        elif width == 2:
            out.update(xrange(lo - 300, hi + 301, 7))
    edges = set([lo, hi, 0])
    for k in range(bits + 2):
        edges.update([1 << k, -(1 << k)])
    for e in edges:
        out.update(e + i for i in range(-3, 4))
    for pat in itertools.product((0, 1, 0x7f, 0x80, 0xff), repeat=width):
        n = 0
        for x in pat:
            n = n << 8 | x
        out.add(n if not signed or n <= hi else n - (1 << bits))
    return lo, hi, sorted(int(x) for x in out)


def stream(endian, data=''):
    s = util.BufferedByteStream(data)
    s.endian = endian
    return s


def state(s):
    return s.getvalue(), s.tell(), len(s)


def check_ints(ctx, endian, little):
    for name, width, signed in INTS:
        lo, hi, vs = values(width, signed, 2 if ctx.thorough else 1)
        ctx.bound('%s values' % name, len(vs))
        for block in range(0, len(vs), 500):
            if not ctx.mine('%s %s %d' % (endian, name, block)):
                continue
            for n in vs[block:block + 500]:
                for n in (n, long(n)):
                    one_int(ctx, endian, little, name, width, lo, hi, n)
        if not ctx.mine('%s %s bad' % (endian, name)):
            continue
        for bad in (None, 1.0, 1.5, 'a', u'1', True, False, [], object(),
                    float('nan')):
            s = stream(endian)
            s.write('Q')
            before = state(s)
            r = mc.attempt(getattr(s, 'write_' + name), bad)
            ctx.step()
            ctx.state((endian, name, repr(type(bad))))
            if r[:2] != ('exc', 'TypeError') or state(s) != before:
                ctx.violation('%s bad %r' % (name, type(bad)),
                              'write_%s(%r) gives %r, stream %r' % (
                                  name, bad, r[:2], state(s)))
        # reads of fewer bytes
        for k in range(width):
            s = stream(endian, 'abc'[:1] + '\xff' * k)
            s.seek(1)
            r = mc.attempt(getattr(s, 'read_' + name))
            ctx.step()
            if r[:2] != ('exc', 'IOError') or s.tell() != 1:
                ctx.violation('%s short read %d' % (name, k), 'read_%s of %d '
                              'bytes gives %r and moves to %d' % (
                                  name, k, r[:2], s.tell()))


def one_int(ctx, endian, little, name, width, lo, hi, n):
    ctx.step(2)
    s = stream(endian)
    s.write('Q')
    r = mc.attempt(getattr(s, 'write_' + name), n)
    sig = '%s %s %d %s' % (endian, name, n, type(n).__name__)
    if not lo <= n <= hi:
        ctx.trace()
        if r[:2] != ('exc', 'OverflowError') or s.getvalue() != 'Q':
            ctx.violation(sig, 'write_%s(%r) [%s] gives %r and leaves %r' % (
                name, n, endian, r[:2], s.getvalue()))
        return
    ctx.state((endian, name, n))
    want = 'Q' + two(n, width, little)
    if r[0] == 'exc' or s.getvalue() != want or s.tell() != len(want):
        ctx.violation(sig, 'write_%s(%r) [%s] gives %r and writes %r, '
                      'expected %r' % (name, n, endian, r[:2],
                                       s.getvalue(), want))
        return
    s = stream(endian, want + 'Z')
    s.seek(1)
    r = mc.attempt(getattr(s, 'read_' + name))
    ctx.trace()
    if r[:2] != ('ok', n) or s.tell() != 1 + width:
        ctx.violation(sig, 'read_%s of %r [%s] gives %r instead of %r' % (
            name, want[1:], endian, r[1:], n))


INF = float('inf')


def doubles():
    vs = [0.0, 1.0, -1.0, 0.1, -0.1, 1.5, 1e300, -1e300, 5e-324, -5e-324,
          2.2250738585072014e-308, 1.7976931348623157e308, INF, -INF,
          3.4028234663852886e38, 1.401298464324817e-45, 1e-40, 123456789.125,
          float(2 ** 53), float(2 ** 53 + 2), float(2 ** 31), float(2 ** 32)]
    for k in range(-20, 21):
        vs += [2.0 ** (k * 40) if abs(k * 40) < 1000 else 1.0,
               -1.1 * 10.0 ** k]
    return vs


def check_floats(ctx, endian, little):
    for i, d in enumerate(doubles() + [-0.0, INF - INF]):
        if not ctx.mine('%s double %d' % (endian, i)):
            continue
        ctx.state((endian, 'double', repr(d), i))
        want = two(Double.doubleToLongBits(d), 8, little)
        s = stream(endian)
        r = mc.attempt(s.write_double, d)
        ctx.step(2)
        ctx.trace()
        sig = '%s double %r' % (endian, d)
        got = s.getvalue()
        if r[0] == 'exc' or (got != want and d == d):
            ctx.violation(sig, 'write_double(%r) [%s] gives %r, %r, expected '
                          '%r' % (d, endian, r[:2], got, want))
            continue
        s = stream(endian, got)
        r = mc.attempt(s.read_double)
        if r[0] == 'exc' or Double.doubleToLongBits(r[1]) != \
                Double.doubleToLongBits(d):
            ctx.violation(sig, 'read_double of %r [%s] gives %r instead of %r'
                          % (got, endian, r[1:], d))
        # single precision
        f = Float(d).floatValue() if d == d else d
        s = stream(endian)
        r = mc.attempt(s.write_float, d)
        fin = d == d and d not in (INF, -INF)
        if fin and f in (INF, -INF):
            if r[0] == 'exc' and s.getvalue() == '':
                continue        # too large for a float: refusal is fine
        want = two(Float.floatToIntBits(f), 4, little)
        got = s.getvalue()
        if r[0] == 'exc' or (got != want and d == d):
            ctx.violation(sig + ' float', 'write_float(%r) [%s] gives %r, %r '
                          'instead of %r' % (d, endian, r[:2], got, want))
            continue
        s = stream(endian, got)
        r = mc.attempt(s.read_float)
        if r[0] == 'exc' or Double.doubleToLongBits(float(r[1])) != \
                Double.doubleToLongBits(float(f)):
            ctx.violation(sig + ' float', 'read_float of %r [%s] gives %r '
                          'instead of %r' % (got, endian, r[1:], f))
    for name, width in (('double', 8), ('float', 4)):
        if not ctx.mine('%s %s bad' % (endian, name)):
            continue
        for bad in (None, 1, 10 ** 10, 'a', u'1', True, [], object()):
            s = stream(endian)
            r = mc.attempt(getattr(s, 'write_' + name), bad)
            ctx.step()
            if r[:2] != ('exc', 'TypeError') or state(s) != ('', 0, 0):
                ctx.violation('%s bad %r' % (name, type(bad)),
                              'write_%s(%r) gives %r, stream %r' % (
                                  name, bad, r[:2], state(s)))
        for k in range(width):
            s = stream(endian, 'x' + '\x40' * k)
            s.seek(1)
            r = mc.attempt(getattr(s, 'read_' + name))
            if r[:2] != ('exc', 'IOError') or s.tell() != 1:
                ctx.violation('%s short read %d' % (name, k), 'read_%s of %d '
                              'bytes gives %r and moves to %d' % (
                                  name, k, r[:2], s.tell()))


def utf8(cp):
    if cp < 0x80:
        return chr(cp)
    if cp < 0x800:
        return chr(0xc0 | cp >> 6) + chr(0x80 | cp & 63)
    if cp < 0x10000:
        return chr(0xe0 | cp >> 12) + chr(0x80 | cp >> 6 & 63) + \
            chr(0x80 | cp & 63)
    return chr(0xf0 | cp >> 18) + chr(0x80 | cp >> 12 & 63) + \
        chr(0x80 | cp >> 6 & 63) + chr(0x80 | cp & 63)


def uni(cp):
    return eval("u'\\U%08x'" % cp)


def check_text(ctx, endian):
    cps = [0, 1, 0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd,
           0x10000, 0x10ffff]
    for n in range(4 if ctx.thorough else 3):
        for seq in itertools.product(cps, repeat=n):
            cid = '%s text %r' % (endian, seq)
            if not ctx.mine(cid):
                continue
            ctx.state(cid)
            ctx.step(3)
            ctx.trace()
            u = u''.join(uni(c) for c in seq)
            want = ''.join(utf8(c) for c in seq)
            for v in (u, want):
                s = stream(endian)
                s.write('Q')
                r = mc.attempt(s.write_utf8_string, v)
                if r[0] == 'exc' or s.getvalue() != 'Q' + want:
                    ctx.violation(cid, 'write_utf8_string(%r) gives %r, %r '
                                  'instead of %r' % (v, r[:2], s.getvalue(),
                                                     want))
            s = stream(endian, want + 'ZZ')
            r = mc.attempt(s.read_utf8_string, len(want))
            if r[:2] != ('ok', u) or type(r[1]) is not unicode or \
                    s.tell() != len(want):
                ctx.violation(cid + ' read', 'read_utf8_string(%d) of %r '
                              'gives %r' % (len(want), want, r[1:]))
            s = stream(endian, want)
            r = mc.attempt(s.read_utf8_string, len(want) + 1)
            if r[:2] != ('exc', 'IOError') or s.tell() != 0:
                ctx.violation(cid + ' short', 'read_utf8_string beyond the '
                              'end gives %r, position %d' % (
                                  r[:2], s.tell()))
    for bad in ('\x80', '\xff', '\xc3', 'a\xe2\x82', '\xc0\x80'):
        if not ctx.mine('%s bad text %r' % (endian, bad)):
            continue
        s = stream(endian, bad)
        r = mc.attempt(s.read_utf8_string, len(bad))
        ctx.step()
        if r[0] == 'ok' or not isinstance(r[2], UnicodeError):
            ctx.violation('bad text %r' % bad, 'read_utf8_string of %r gives '
                          '%r' % (bad, r[1:]))
    for bad in (None, 1, 1.0, [], object()):
        if not ctx.mine('%s text type %r' % (endian, type(bad))):
            continue
        s = stream(endian)
        r = mc.attempt(s.write_utf8_string, bad)
        if r[:2] != ('exc', 'TypeError') or state(s) != ('', 0, 0):
            ctx.violation('text type %r' % type(bad), 'write_utf8_string(%r) '
                          'gives %r' % (bad, r[:2]))


def check_mixed(ctx):
    """Sequences of writes in changing byte orders read back."""
    items = [('ushort', 0x0102, 2), ('long', -3, 4), ('24bit_int', -2, 3),
             ('uchar', 200, 1), ('double', 1.5, 8), ('float', -0.25, 4)]
    n = 3 if ctx.thorough else 2
    for seq in itertools.product(items, repeat=n):
        for ends in itertools.product('!<>@', repeat=n):
            cid = 'mixed %s %s' % ([i[0] for i in seq], ends)
            if not ctx.mine(cid):
                continue
            ctx.state(cid)
            ctx.trace()
            s = util.BufferedByteStream()
            for (name, v, w), e in zip(seq, ends):
                s.endian = e
                getattr(s, 'write_' + name)(v)
                ctx.step(2)
            total = sum(i[2] for i in seq)
            s.seek(0)
            got = []
            for (name, v, w), e in zip(seq, ends):
                s.endian = e
                got.append(getattr(s, 'read_' + name)())
            if got != [i[1] for i in seq] or s.tell() != total or \
                    len(s) != total:
                ctx.violation(cid, '%s reads back as %r' % (cid, got))


def run(ctx):
    LITTLE['@'] = native_little()
    for endian in '!<>@':
        check_ints(ctx, endian, LITTLE[endian])
        check_floats(ctx, endian, LITTLE[endian])
        check_text(ctx, endian)
    check_mixed(ctx)
    ctx.sample('write_24bit_int(-8388608) in native order')
    ctx.assume('the bit patterns of java.lang.Double and Float are the IEEE '
               '754 encodings; the payload of NaN is not compared')
