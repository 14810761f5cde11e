"""C10: ByteArray against a byte sequence, a cursor and a compression flag."""
import struct
import zlib

from pyamf import amf0, amf3

import amfspec
import mc
import pyval
from c08_byte_stream import Model

INF = 1e300 * 1e300


class Refused(Exception):
    pass


class BA(Model):
    """What ActionScript says a ByteArray does (big endian)."""

    compressed = False

    def out(self, fmt, v, lo, hi):
        if isinstance(v, bool) or not isinstance(v, (int, long)):
            raise Refused
        if not lo <= v <= hi:
            raise Refused
        self.write(struct.pack('>' + fmt, v))

    def writeBoolean(self, v):
        if v is not True and v is not False:
            raise Refused
        self.write(v and '\x01' or '\x00')

    def writeByte(self, v):
        self.out('b', v, -128, 127)

    def writeUnsignedByte(self, v):
        self.out('B', v, 0, 255)

    def writeShort(self, v):
        self.out('h', v, -32768, 32767)

    def writeUnsignedShort(self, v):
        self.out('H', v, 0, 65535)

    def writeInt(self, v):
        self.out('i', v, -2 ** 31, 2 ** 31 - 1)

    def writeUnsignedInt(self, v):
        self.out('I', v, 0, 2 ** 32 - 1)

    def writeDouble(self, v):
        if not isinstance(v, float):
            raise Refused
        self.write(struct.pack('>d', v))

    def writeFloat(self, v):
        if not isinstance(v, float):
            raise Refused
        self.write(struct.pack('>f', v))

    def writeMultiByte(self, v, cs):
        self.write(v.encode(cs) if isinstance(v, unicode) else v)

    def writeUTF(self, v):
        if not isinstance(v, basestring):
            raise Refused
        b = v.encode('utf-8') if isinstance(v, unicode) else v
        if len(b) > 65535:
            raise Refused
        self.write(struct.pack('>H', len(b)) + b)

    def writeUTFBytes(self, v):
        if not isinstance(v, basestring):
            raise Refused
        self.write(v.encode('utf-8') if isinstance(v, unicode) else v)

    def inp(self, fmt):
        return struct.unpack('>' + fmt, self.need(struct.calcsize(fmt)))[0]

    def readBoolean(self):
        b = self.need(1)
        if b not in '\x00\x01':
            self.odd = True
            raise Refused
        return b == '\x01'

    def readByte(self):
        return self.inp('b')

    def readUnsignedByte(self):
        return self.inp('B')

    def readShort(self):
        return self.inp('h')

    def readUnsignedShort(self):
        return self.inp('H')

    def readInt(self):
        return self.inp('i')

    def readUnsignedInt(self):
        return self.inp('I')

    def readDouble(self):
        return self.inp('d')

    def readFloat(self):
        return self.inp('f')

    def readMultiByte(self, n, cs):
        return self.need(n).decode(cs)

    def readUTF(self):
        p = self.p
        n = self.inp('H')
        try:
            return self.need(n).decode('utf-8')
        except IOError:
            # the length itself was there: where the cursor ends up after
            # such a failure is not specified
            self.p = p
            self.odd = True
            raise

    def readUTFBytes(self, n):
        return self.need(n).decode('utf-8')

    def writeObject(self, k):
        self.write(OBJECTS[k][1])

    def readObject(self):
        cur = amfspec.Cursor(self.d, self.p)
        try:
            v = amfspec.canon(amfspec.Amf3Reader(cur).value(), True)
        except amfspec.SpecError:
            self.odd = True
            raise Refused
        self.p = cur.pos
        if "('xml'," in repr(v):
            self.free = True        # text that may not be a document
        return v

    def compress(self):
        self.compressed = True


def obj_nested():
    return amf3.ByteArray('xy')


def shared():
    a = [u'ab', u'ab']
    return [a, a]


# what is written: maker, AMF3 bytes by hand
OBJECTS = {
    'null': (lambda: None, '\x01'),
    'int': (lambda: 300, '\x04\x82\x2c'),
    'double': (lambda: 2 ** 28, '\x05' + struct.pack('>d', 2 ** 28)),
    'text': (lambda: u'ab', '\x06\x05ab'),
    'dict': (lambda: {u'ab': u'ab'}, '\x0a\x0b\x01\x05ab\x06\x00\x01'),
    'shared': (shared, '\x09\x05\x01\x09\x05\x01\x06\x05ab\x06\x00\x09\x02'),
    'bytes': (obj_nested, '\x0c\x05xy'),
}


def m(name, *a):
    def f(s):
        return getattr(s, name)(*a)
    r = repr(a) if len(repr(a)) < 60 else '(%d characters)' % len(a[0])
    return '%s%s' % (name, r), f


def wo(k):
    def f(s):
        if isinstance(s, BA):
            return s.writeObject(k)
        s.writeObject(OBJECTS[k][0]())
    return 'writeObject(%s)' % k, f


def ro():
    def f(s):
        if isinstance(s, BA):
            return s.readObject()
        v = s.readObject()
        return pyval.canon_py(v)
    return 'readObject()', f


def empty(name, *a):
    """Jython's cStringIO cannot read nothing beyond the end."""
    def f(s):
        if s.tell() > len(s):
            return None
        return getattr(s, name)(0, *a)
    return '%s(0)' % name, f


READS = [m('read' + n) for n in (
    'Boolean', 'Byte', 'UnsignedByte', 'Short', 'UnsignedShort', 'Int',
    'UnsignedInt', 'Double', 'Float', 'UTF')] + [
    m('readUTFBytes', 2), m('readUTFBytes', 1), empty('readUTFBytes'),
    m('readMultiByte', 2, 'latin-1'), m('readMultiByte', 2, 'utf-16-be'),
    ro()]

GOOD = [
    m('writeBoolean', True), m('writeBoolean', False),
    m('writeByte', -128), m('writeByte', 127), m('writeUnsignedByte', 255),
    m('writeShort', -2), m('writeUnsignedShort', 65534),
    m('writeInt', -2 ** 31), m('writeInt', 1),
    m('writeUnsignedInt', 2 ** 32 - 1),
    m('writeDouble', 1.5), m('writeFloat', -0.5), m('writeDouble', INF),
    m('writeUTF', u'\xe9'), m('writeUTF', 'a'), m('writeUTF', u''),
    m('writeUTFBytes', u'\xe9'), m('writeUTFBytes', '\xc3\xa9'),
    m('writeMultiByte', u'\xe9', 'latin-1'),
    m('writeMultiByte', '\x9c', 'latin-1'),
    m('writeMultiByte', u'\x78\xda', 'latin-1'),
] + [wo(k) for k in sorted(OBJECTS)]

BAD = [
    m('writeBoolean', 1), m('writeBoolean', None), m('writeByte', 128),
    m('writeByte', -129), m('writeUnsignedByte', 256),
    m('writeUnsignedByte', -1), m('writeShort', 32768),
    m('writeShort', -32769), m('writeUnsignedShort', 65536),
    m('writeUnsignedShort', -1), m('writeInt', 2 ** 31),
    m('writeInt', -2 ** 31 - 1), m('writeUnsignedInt', 2 ** 32),
    m('writeUnsignedInt', -1), m('writeInt', 'a'), m('writeByte', None),
    m('writeDouble', 'a'), m('writeFloat', None), m('writeUTF', 'a' * 65536),
    m('writeUTF', 5),
]

CURSOR = [
    m('seek', 0), m('seek', 1), m('seek', 3), m('seek', 0, 2), m('truncate'),
    m('truncate', 2), m('consume'), m('compress'), m('append', '\x01'),
    m('read', 1), m('peek', 2), m('remaining'),
]

ALL = GOOD + BAD + CURSOR + READS
SMALL = [o for o in ALL if o[0] in (
    "writeBoolean(True,)", "writeUTF(u'\\xe9',)", 'writeObject(dict)',
    'writeObject(text)', 'writeObject(shared)', 'seek(0,)', 'seek(3,)',
    'truncate(2,)', 'consume()', 'compress()', 'readUTF()', 'readObject()',
    'readUnsignedShort()', 'readBoolean()', 'writeByte(128,)',
    'writeInt(1,)', 'readUTFBytes(2,)', "writeMultiByte('\\x9c', 'latin-1')",
)]


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return struct.pack('>d', a) == struct.pack('>d', b) or (
            a != a and b != b)
    if isinstance(a, str) != isinstance(b, str):
        return False
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    return a == b


def play(ctx, sig, init, ops, deep):
    s = amf3.ByteArray(init)
    ref = BA(init or '')
    ref.compressed = ref.d[:2] == '\x78\x9c'

    def bad(i, what):
        ctx.violation(sig(), 'byte array %r after %r: %s' % (
            init, [o[0] for o in ops[:i]], what))
        return False

    for i, (name, f) in enumerate(ops):
        ref.odd = ref.free = False
        want = mc.attempt(f, ref)
        got = mc.attempt(f, s)
        ctx.step()
        if name.startswith('seek') or name.startswith('append'):
            want, got = want[:1], got[:1]
        if ref.free:
            return True
        if want[0] != got[0]:
            return bad(i, '%s gives %r instead of %r' % (name, got, want))
        if want[0] == 'exc':
            if isinstance(got[2], AttributeError) or \
                    got[1].startswith('java:'):
                return bad(i, '%s fails with %r' % (name, got[1:]))
            if s.getvalue() != ref.d:
                return bad(i, 'the refused %s changed the bytes to %r' % (
                    name, s.getvalue()))
            if ref.odd or isinstance(want[2], UnicodeError):
                # position after content that cannot be interpreted
                return True
        elif len(want) > 1 and not same(want[1], got[1]):
            return bad(i, '%s gives %r instead of %r' % (
                name, got[1], want[1]))
    n = len(ops)
    ctx.state((ref.d, ref.p, ref.compressed))
    ctx.trace()
    now = (s.getvalue(), s.tell(), len(s), bool(s.compressed))
    if now != (ref.d, ref.p, len(ref.d), ref.compressed):
        return bad(n, 'is %r instead of %r' % (
            now, (ref.d, ref.p, len(ref.d), ref.compressed)))
    if not deep:
        return True
    # the wire: bytes and compression state survive, nothing is changed
    out = str(s)
    if ref.compressed:
        r = mc.attempt(zlib.decompress, out)
        if r != ('ok', ref.d) or out[:1] != '\x78':
            return bad(n, 'compressed form %r of %r' % (out, ref.d))
    elif out != ref.d:
        return bad(n, 'string form %r of %r' % (out, ref.d))
    for ver in (3, 0):
        for where in ('top', 'twice', 'member'):
            e = amf3.Encoder() if ver == 3 else amf0.Encoder()
            v = {'top': s, 'twice': [s, s],
                 'member': {u'k': s, u'z': u'k'}}[where]
            r = mc.attempt(e.writeElement, v)
            ctx.step()
            if r[0] == 'exc':
                return bad(n, 'cannot be encoded: %r' % (r[1:],))
            data = e.stream.getvalue()
            if (s.getvalue(), s.tell(), bool(s.compressed)) != (
                    ref.d, ref.p, ref.compressed):
                return bad(n, 'encoding changed it')
            dec = amf3.Decoder(data) if ver == 3 else amf0.Decoder(data)
            r = mc.attempt(dec.readElement)
            if r[0] == 'exc':
                return bad(n, 'cannot be decoded: %r' % (r[1:],))
            b = r[1]
            if where == 'twice':
                if b[0] is not b[1]:
                    return bad(n, 'identity lost in AMF%d' % ver)
                b = b[0]
            elif where == 'member':
                if b.get(u'z') != u'k':
                    return bad(n, 'text after it is %r' % (b.get(u'z'),))
                b = b[u'k']
            if not isinstance(b, amf3.ByteArray):
                return bad(n, 'decodes to %r' % (b,))
            t = (b.getvalue(), bool(b.compressed), b.tell())
            if ref.d[:2] == '\x78\xda' and not ref.compressed:
                # raw content that looks compressed is taken for it
                if mc.attempt(zlib.decompress, ref.d)[0] == 'ok':
                    continue
            if t != (ref.d, ref.compressed, 0):
                return bad(n, 'AMF%d round trip gives (bytes, compressed, '
                           'position) %r instead of %r' % (
                               ver, t, (ref.d, ref.compressed, 0)))
    return True


def run(ctx):
    t = ctx.thorough
    inits = [None, '\x00\x02\xc3\xa9', '\x06\x05ab\x06\x00',
             zlib.compress('q')]
    for init in inits:
        for a in ALL:
            if not ctx.mine('one %r %s' % (init, a[0])):
                continue
            play(ctx, lambda: a[0], init, (a,), True)
        for a in ALL:
            for b in ALL:
                if not ctx.mine('%r %s %s' % (init, a[0], b[0])):
                    continue
                ctx.alive()
                ops = (a, b)
                play(ctx, lambda: ' '.join(o[0] for o in ops), init, ops,
                     True)
                if t or init is None:
                    for c in ALL:
                        ops = (a, b, c)
                        play(ctx, lambda: ' '.join(o[0] for o in ops), init,
                             ops, t)
        for a in SMALL:
            for b in SMALL:
                if not ctx.mine('deep %r %s %s' % (init, a[0], b[0])):
                    continue
                for tail in mc.seqs(SMALL, 3 if t else 2):
                    ctx.alive()
                    ops = (a, b) + tail
                    play(ctx, lambda: ' '.join(o[0] for o in ops), init, ops,
                         False)
    ctx.bound('operations', '%d typed reads, writes, refused writes and '
              'cursor operations; every sequence of 3 over all of them and '
              'of %d over %d of them, from %d initial arrays' % (
                  len(ALL), 5 if t else 4, len(SMALL), len(inits)))

    # sizes around the length limits
    for n in (0, 1, 63, 64, 127, 128, 8191, 8192, 65534, 65535, 65536):
        for comp in (False, True):
            cid = 'size %d %s' % (n, comp)
            if not ctx.mine(cid):
                continue
            b = amf3.ByteArray('\x07' * n)
            if comp:
                b.compress()
            r = mc.attempt(lambda: amf3.Decoder(
                enc3([b, b])).readElement())
            ctx.trace()
            ctx.state(cid)
            if r[0] == 'exc' or r[1][0].getvalue() != '\x07' * n or \
                    r[1][0] is not r[1][1] or r[1][0].compressed != comp:
                ctx.violation(cid, '%d bytes (compressed %r) do not survive: '
                              '%r' % (n, comp, r[1:] if r[0] == 'exc' else
                                      len(r[1][0].getvalue())))
            # text with a length prefix
            s = amf3.ByteArray()
            r = mc.attempt(s.writeUTF, 'x' * n)
            if (r[0] == 'ok') != (n <= 65535):
                ctx.violation('utf ' + cid, 'writeUTF of %d bytes: %r' % (
                    n, r[:2]))
            s.seek(0)
            if r[0] == 'ok' and s.readUTF() != u'x' * n:
                ctx.violation('utf ' + cid, 'writeUTF/readUTF of %d' % n)
    # equality
    for x in ('', 'a', 'ab'):
        for y in ('', 'a', 'ab'):
            if not ctx.mine('eq %r %r' % (x, y)):
                continue
            bx, by = amf3.ByteArray(x), amf3.ByteArray(y)
            by.seek(0, 2)
            ctx.trace()
            if (bx == by) != (x == y) or (bx == y) != (x == y) or \
                    (bx != by) != (x != y):
                ctx.violation('eq %r %r' % (x, y), 'comparison of %r and %r'
                              % (x, y))
    ctx.sample('writeObject({ab: ab}), seek 0, readObject')
    ctx.assume('raw contents that begin like a zlib stream are taken for '
               'compressed ones, as in the constructor')


def enc3(v):
    e = amf3.Encoder()
    e.writeElement(v)
    return e.stream.getvalue()
