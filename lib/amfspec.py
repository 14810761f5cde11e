"""Independent reference codec for AMF0 and AMF3 (Python 2.7 / Jython).

Written from the published AMF0 (Dec 2007) and AMF3 (Jan 2013) specifications,
sharing no code with pyamf.  Abstract values:

  ('undef',) ('null',) ('b', bool) ('n', number) ('s', unicode)
  ('date', milliseconds) ('xml', unicode)
  Node: a value with identity
     kind 'array'  items = list, pairs = [] (AMF3: associative part)
     kind 'ecma'   pairs (AMF0 only; AMF3 'array' with pairs canonicalises to it)
     kind 'obj'    pairs            anonymous object
     kind 'typed'  name, pairs
     kind 'ba'     data
     kind 'ext'    name, body (abstract value)

One convention that the AMF0 text leaves open is fixed the way the
implementation documents it (following Red5): dates and XML documents take a
slot of the AMF0 reference table although no reference to them is sent.
"""
import struct


class SpecError(Exception):
    """The bytes are not a valid encoding."""


class SpecEOF(SpecError):
    """The bytes end in the middle of a value."""


class Node(object):
    __slots__ = ('kind', 'name', 'items', 'pairs', 'data', 'sealed',
                 'dynamic')

    def __init__(self, kind, name=None):
        self.kind = kind
        self.name = name
        self.items = []
        self.pairs = []
        self.data = None
        self.sealed = None      # list of sealed names, None = encoder chooses
        self.dynamic = True


UNDEF = ('undef',)
NULL = ('null',)
TRUE = ('b', True)
FALSE = ('b', False)


def num(x):
    return ('n', x)


def text(u):
    return ('s', u)


def canon_num(x):
    if x != x:
        return ('n', 'nan')
    if x in (float('inf'), float('-inf')):
        return ('n', repr(x))
    if x == int(x):
        return ('n', int(x) + 0)
    return ('n', repr(float(x)))


def canon(root, key_order=False):
    """Nested tuples; equal for two graphs iff they are isomorphic."""
    seen = {}

    def go(v):
        if isinstance(v, tuple):
            if v[0] == 'n':
                return canon_num(v[1])
            if v[0] == 'date':
                return ('date', (int(round(v[1] * 1000.0)) + 50) // 100)
            return v
        k = id(v)
        if k in seen:
            return ('ref', seen[k])
        n = seen[k] = len(seen)
        if v.kind == 'ba':
            return ('ba', n, v.data)
        if v.kind == 'ext':
            return ('ext', n, v.name, go(v.data))
        ps = v.pairs
        ps = sorted((canon_key(kk), vv) for kk, vv in dict(ps).items())
        if v.kind == 'array' and not ps:
            return ('array', n, tuple([go(x) for x in v.items]))
        if v.kind in ('array', 'ecma'):
            # dense part is the keys 0..n-1
            allp = [(canon_key(i), x) for i, x in enumerate(v.items)] + ps
            allp.sort(key=lambda p: p[0])
            return ('ecma', n, tuple([(kk, go(x)) for kk, x in allp]))
        if v.kind == 'obj':
            return ('obj', n, tuple([(kk, go(x)) for kk, x in ps]))
        if v.kind == 'typed':
            return ('typed', n, v.name, tuple([(kk, go(x)) for kk, x in ps]))
        raise AssertionError(v.kind)
    return go(root)


def canon_key(k):
    if isinstance(k, (int, long)):
        return unicode(str(k))
    if isinstance(k, str):
        return k.decode('utf-8')
    return unicode(k)


# ------------------------------------------------------------------ reading
class Cursor(object):
    def __init__(self, data, pos=0):
        self.data = data
        self.pos = pos

    def read(self, n):
        if n < 0 or self.pos + n > len(self.data):
            raise SpecEOF('need %d bytes at %d' % (n, self.pos))
        r = self.data[self.pos:self.pos + n]
        self.pos += n
        return r

    def u8(self):
        return ord(self.read(1))

    def u16(self):
        return struct.unpack('>H', self.read(2))[0]

    def s16(self):
        return struct.unpack('>h', self.read(2))[0]

    def u32(self):
        return struct.unpack('>I', self.read(4))[0]

    def double(self):
        return struct.unpack('>d', self.read(8))[0]

    def left(self):
        return len(self.data) - self.pos

    # names that are not UTF-8: noted, the reader may go on or refuse
    lenient = False

    def name(self, b):
        try:
            return b.decode('utf-8')
        except UnicodeDecodeError:
            self.lenient = True
            return b.decode('latin-1')


def utf8(b):
    try:
        return b.decode('utf-8')
    except UnicodeDecodeError:
        raise SpecError('not UTF-8')


class Amf3Reader(object):
    def __init__(self, cur, externals=None):
        self.c = cur
        self.strings = []
        self.objects = []
        self.traits = []
        self.externals = externals or {}

    def u29(self):
        r = 0
        for i in range(3):
            b = self.c.u8()
            if not b & 0x80:
                return (r << 7) | b
            r = (r << 7) | (b & 0x7f)
        return (r << 8) | self.c.u8()

    def string(self, name=False):
        h = self.u29()
        if not h & 1:
            if h >> 1 >= len(self.strings):
                raise SpecError('unknown string reference')
            return self.text(self.strings[h >> 1], name)
        n = h >> 1
        if n == 0:
            return u''
        s = self.c.read(n)
        self.strings.append(s)
        return self.text(s, name)

    def text(self, b, name):
        if name:
            return self.c.name(b)
        return utf8(b)

    def objref(self, h):
        if h >> 1 >= len(self.objects):
            raise SpecError('unknown object reference')
        return self.objects[h >> 1]

    def value(self):
        m = self.c.u8()
        if m == 0:
            return UNDEF
        if m == 1:
            return NULL
        if m == 2:
            return FALSE
        if m == 3:
            return TRUE
        if m == 4:
            n = self.u29()
            if n >= 0x10000000:
                n -= 0x20000000
            return num(n)
        if m == 5:
            return num(self.c.double())
        if m == 6:
            return text(self.string())
        if m in (7, 0x0b):
            h = self.u29()
            if not h & 1:
                return self.typed_ref(h, 'xml')
            v = ('xml', utf8(self.c.read(h >> 1)))
            self.objects.append(v)
            return v
        if m == 8:
            h = self.u29()
            if not h & 1:
                return self.typed_ref(h, 'date')
            v = ('date', self.c.double())
            self.objects.append(v)
            return v
        if m == 9:
            h = self.u29()
            if not h & 1:
                return self.objref(h)
            n = Node('array')
            self.objects.append(n)
            while True:
                k = self.string(True)
                if k == u'':
                    break
                n.pairs.append((k, self.value()))
            for i in xrange(h >> 1):
                n.items.append(self.value())
            return n
        if m == 0x0a:
            return self.object()
        if m == 0x0c:
            h = self.u29()
            if not h & 1:
                return self.objref(h)
            n = Node('ba')
            n.data = self.c.read(h >> 1)
            self.objects.append(n)
            return n
        raise SpecError('marker %02x' % m)

    def typed_ref(self, h, kind):
        return self.objref(h)

    def object(self):
        h = self.u29()
        if not h & 1:
            return self.objref(h)
        if not h & 2:
            if h >> 2 >= len(self.traits):
                raise SpecError('unknown traits reference')
            t = self.traits[h >> 2]
        else:
            ext = bool(h & 4)
            dyn = bool(h & 8)
            cnt = h >> 4
            name = self.string(True)
            if ext:
                t = (name, True, False, [])
            else:
                if cnt > self.c.left():
                    raise SpecEOF('sealed names')
                t = (name, False, dyn, [self.string(True) for i in xrange(cnt)])
            self.traits.append(t)
        name, ext, dyn, names = t
        if ext:
            if name not in self.externals:
                raise SpecError('unknown externalizable %r' % name)
            n = Node('ext', name)
            self.objects.append(n)
            n.data = self.externals[name](self)
            return n
        n = Node('typed' if name else 'obj', name or None)
        n.sealed = list(names)
        n.dynamic = dyn
        self.objects.append(n)
        for k in names:
            n.pairs.append((k, self.value()))
        if dyn:
            while True:
                k = self.string(True)
                if k == u'':
                    break
                n.pairs.append((k, self.value()))
        return n


class Amf0Reader(object):
    def __init__(self, cur, externals=None):
        self.c = cur
        self.objects = []
        self.amf3 = Amf3Reader(cur, externals)

    def utf(self):
        return utf8(self.c.read(self.c.u16()))

    def pairs(self, n):
        while True:
            k = self.c.name(self.c.read(self.c.u16()))
            if k == u'' and self.c.left() < 1:
                raise SpecEOF('object end')
            if k == u'' and self.c.data[self.c.pos] == '\x09':
                self.c.pos += 1
                return
            n.pairs.append((k, self.value()))

    def value(self):
        m = self.c.u8()
        if m == 0:
            return num(self.c.double())
        if m == 1:
            return ('b', self.c.u8() != 0)
        if m == 2:
            return text(self.utf())
        if m == 3:
            n = Node('obj')
            self.objects.append(n)
            self.pairs(n)
            return n
        if m in (5, 0x0d):
            return NULL
        if m == 6:
            return UNDEF
        if m == 7:
            i = self.c.u16()
            if i >= len(self.objects):
                raise SpecError('unknown reference')
            return self.objects[i]
        if m == 8:
            self.c.u32()
            n = Node('ecma')
            self.objects.append(n)
            self.pairs(n)
            return n
        if m == 0x0a:
            cnt = self.c.u32()
            n = Node('array')
            self.objects.append(n)
            for i in xrange(cnt):
                n.items.append(self.value())
            return n
        if m == 0x0b:
            v = ('date', self.c.double())
            self.c.s16()
            self.objects.append(v)
            return v
        if m == 0x0c:
            return text(utf8(self.c.read(self.c.u32())))
        if m == 0x0f:
            v = ('xml', utf8(self.c.read(self.c.u32())))
            self.objects.append(v)
            return v
        if m == 0x10:
            name = self.c.name(self.c.read(self.c.u16()))
            n = Node('typed', name)
            self.objects.append(n)
            self.pairs(n)
            return n
        if m == 0x11:
            return self.amf3.value()
        raise SpecError('marker %02x' % m)


def read_all(data, version, externals=None):
    """Every top level value of data."""
    c = Cursor(data)
    r = Amf3Reader(c, externals) if version == 3 else Amf0Reader(c, externals)
    out = []
    try:
        while c.left():
            out.append(r.value())
    except SpecError, e:
        e.lenient = c.lenient
        e.values = out
        raise
    if c.lenient:
        e = SpecError('names are not UTF-8')
        e.lenient = True
        e.values = out
        raise e
    return out


# ------------------------------------------------------------------ writing
def u29(n):
    """Spec table: 0-7F 1 byte, -3FFF 2, -1FFFFF 3, -3FFFFFFF 4."""
    if n < 0 or n > 0x1fffffff:
        raise ValueError(n)
    if n < 0x80:
        return chr(n)
    if n < 0x4000:
        return chr(0x80 | n >> 7) + chr(n & 0x7f)
    if n < 0x200000:
        return chr(0x80 | n >> 14) + chr(0x80 | n >> 7 & 0x7f) + \
            chr(n & 0x7f)
    return chr(0x80 | n >> 22) + chr(0x80 | n >> 15 & 0x7f) + \
        chr(0x80 | n >> 8 & 0x7f) + chr(n & 0xff)


class Amf3Writer(object):
    """Options decide among the encodings the spec allows for one value.

    strings  use string references
    traits   use traits references
    sealed   names of typed objects written as sealed members
    numbers  'int': integers in range as U29, 'double': always doubles
    """

    def __init__(self, strings=True, traits=True, sealed=False,
                 numbers='int'):
        self.out = []
        self.strings = {}
        self.objects = {}
        self.traits = {}
        self.nobj = 0
        self.keep = []
        self.use_strings = strings
        self.use_traits = traits
        self.sealed = sealed
        self.numbers = numbers

    def w(self, b):
        self.out.append(b)

    def bytes(self):
        return ''.join(self.out)

    def string(self, u):
        b = u.encode('utf-8')
        if not b:
            self.w('\x01')
            return
        if b in self.strings and self.use_strings:
            self.w(u29(self.strings[b] << 1))
            return
        # a repeated literal takes a new slot; keep the first
        idx = self.nstr = getattr(self, 'nstr', -1) + 1
        self.strings.setdefault(b, idx)
        self.w(u29(len(b) << 1 | 1) + b)

    def ref(self, v):
        if id(v) in self.objects:
            self.w(u29(self.objects[id(v)] << 1))
            return True
        self.objects[id(v)] = self.nobj
        self.nobj += 1
        self.keep.append(v)
        return False

    def value(self, v):
        if isinstance(v, tuple):
            k = v[0]
            if k == 'undef':
                self.w('\x00')
            elif k == 'null':
                self.w('\x01')
            elif k == 'b':
                self.w('\x03' if v[1] else '\x02')
            elif k == 'n':
                x = v[1]
                if isinstance(x, (int, long)) and self.numbers == 'int' and \
                        -0x10000000 <= x <= 0x0fffffff:
                    self.w('\x04' + u29(x if x >= 0 else x + 0x20000000))
                else:
                    self.w('\x05' + struct.pack('>d', x))
            elif k == 's':
                self.w('\x06')
                self.string(v[1])
            elif k == 'date':
                self.w('\x08')
                if not self.ref(v):
                    self.w('\x01' + struct.pack('>d', v[1]))
            elif k == 'xml':
                self.w('\x0b')
                if not self.ref(v):
                    b = v[1].encode('utf-8')
                    self.w(u29(len(b) << 1 | 1) + b)
            else:
                raise AssertionError(k)
            return
        if v.kind in ('array', 'ecma'):
            self.w('\x09')
            if self.ref(v):
                return
            self.w(u29(len(v.items) << 1 | 1))
            for k, x in v.pairs:
                self.string(canon_key(k))
                self.value(x)
            self.w('\x01')
            for x in v.items:
                self.value(x)
        elif v.kind == 'ba':
            self.w('\x0c')
            if self.ref(v):
                return
            self.w(u29(len(v.data) << 1 | 1) + v.data)
        elif v.kind in ('obj', 'typed'):
            self.w('\x0a')
            if self.ref(v):
                return
            if v.sealed is not None:
                names = v.sealed
                dyn = v.dynamic
            elif self.sealed:
                names = [k for k, x in v.pairs]
                dyn = False
            else:
                names = []
                dyn = True
            t = (v.name or u'', dyn, tuple(names))
            if t in self.traits and self.use_traits:
                self.w(u29(self.traits[t] << 2 | 1))
            else:
                n = self.ntr = getattr(self, 'ntr', -1) + 1
                self.traits.setdefault(t, n)
                self.w(u29(len(names) << 4 | (8 if dyn else 0) | 3))
                self.string(t[0])
                for k in names:
                    self.string(k)
            d = dict(v.pairs)
            for k in names:
                self.value(d[k])
            if dyn:
                for k, x in v.pairs:
                    if k not in names:
                        self.string(canon_key(k))
                        self.value(x)
                self.w('\x01')
        else:
            raise AssertionError(v.kind)


class Amf0Writer(object):
    """Options decide among the encodings the spec allows for one value.

    longs   write every string as a long string
    count   what the (informational) length of ECMA arrays says
    ecma    write dense arrays as ECMA arrays
    avmplus abstract kinds that are written as AMF3 (AVM+ marker)
    """

    def __init__(self, longs=False, count=None, ecma=False, avmplus='',
                 **amf3opts):
        self.out = []
        self.objects = {}
        self.nobj = 0
        self.keep = []
        self.longs = longs
        self.count = count
        self.ecma = ecma
        self.avmplus = avmplus
        self.amf3 = Amf3Writer(**amf3opts)
        self.amf3.out = self.out

    def w(self, b):
        self.out.append(b)

    def bytes(self):
        return ''.join(self.out)

    def utf(self, u):
        b = u.encode('utf-8')
        self.w(struct.pack('>H', len(b)) + b)

    def slot(self, v):
        self.objects[id(v)] = self.nobj
        self.nobj += 1
        self.keep.append(v)

    def ref(self, v):
        if id(v) in self.objects:
            self.w('\x07' + struct.pack('>H', self.objects[id(v)]))
            return True
        self.slot(v)
        return False

    def value(self, v):
        if isinstance(v, tuple):
            k = v[0]
            if k == 'undef':
                self.w('\x06')
            elif k == 'null':
                self.w('\x05')
            elif k == 'b':
                self.w('\x01\x01' if v[1] else '\x01\x00')
            elif k == 'n':
                self.w('\x00' + struct.pack('>d', v[1]))
            elif k == 's':
                b = v[1].encode('utf-8')
                if len(b) > 0xffff or self.longs:
                    self.w('\x0c' + struct.pack('>I', len(b)) + b)
                else:
                    self.w('\x02' + struct.pack('>H', len(b)) + b)
            elif k == 'date':
                self.slot(v)
                self.w('\x0b' + struct.pack('>dh', v[1], 0))
            elif k == 'xml':
                self.slot(v)
                b = v[1].encode('utf-8')
                self.w('\x0f' + struct.pack('>I', len(b)) + b)
            else:
                raise AssertionError(k)
            return
        if v.kind in self.avmplus:
            self.w('\x11')
            self.amf3.value(v)
            return
        if v.kind == 'array' and not v.pairs and not self.ecma:
            if self.ref(v):
                return
            self.w('\x0a' + struct.pack('>I', len(v.items)))
            for x in v.items:
                self.value(x)
        elif v.kind in ('ecma', 'array'):
            if self.ref(v):
                return
            ps = list(enumerate(v.items)) + list(v.pairs)
            n = len(v.items) if self.count is None else self.count
            self.w('\x08' + struct.pack('>I', n))
            self.pairs(ps)
        elif v.kind == 'obj':
            if self.ref(v):
                return
            self.w('\x03')
            self.pairs(v.pairs)
        elif v.kind == 'typed':
            if self.ref(v):
                return
            self.w('\x10')
            self.utf(v.name)
            self.pairs(v.pairs)
        else:
            raise AssertionError(v.kind)

    def pairs(self, ps):
        for k, x in ps:
            self.utf(canon_key(k))
            self.value(x)
        self.w('\x00\x00\x09')


def write(v, version, **opts):
    w = Amf3Writer(**opts) if version == 3 else Amf0Writer(**opts)
    w.value(v)
    return w.bytes()
