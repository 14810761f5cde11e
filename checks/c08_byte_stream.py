"""C08: the byte stream against a byte sequence and a cursor."""
from StringIO import StringIO

from pyamf import util

import mc

FULL = 10           # longer contents are not extended further


class Model(object):
    """A file in memory. Every method returns the result or raises."""

    def __init__(self, data='', pos=0):
        self.d = data
        self.p = pos

    def write(self, s):
        d = self.d
        if self.p > len(d):
            d += '\0' * (self.p - len(d))
        self.d = d[:self.p] + s + d[self.p + len(s):]
        self.p += len(s)

    def need(self, n):
        if self.p + n > len(self.d):
            raise IOError
        r = self.d[self.p:self.p + n]
        self.p += n
        return r

    def read(self, n=-1):
        if n < -1:
            raise IOError
        if n == -1:
            if self.p >= len(self.d):
                raise IOError
            n = len(self.d) - self.p
        if n == 0:
            return ''
        return self.need(n)

    def seek(self, pos, mode=0):
        self.p = pos + (0, self.p, len(self.d))[mode]

    def truncate(self, size=0):
        if size == 0:
            self.d, self.p = '', 0
        else:
            self.d = self.d[:size]

    def append(self, s):
        if isinstance(s, unicode):
            s = s.encode('utf-8')
        elif hasattr(s, 'getvalue'):
            s = s.getvalue()
        elif not isinstance(s, str):
            raise TypeError
        self.d += s

    def consume(self):
        self.d, self.p = self.d[self.p:], 0

    def peek(self, n=1):
        if n < -1:
            raise ValueError
        if n == -1:
            return self.d[self.p:]
        return self.d[self.p:self.p + n]

    def remaining(self):
        return max(0, len(self.d) - self.p)

    def at_eof(self):
        return self.p >= len(self.d)

    def tell(self):
        return self.p

    def getvalue(self):
        return self.d

    def __len__(self):
        return len(self.d)

    def num(self, n, signed):
        v = 0
        for c in self.need(n):
            v = v << 8 | ord(c)
        if signed and v >= 1 << (8 * n - 1):
            v -= 1 << (8 * n)
        return v

    def read_utf8_string(self, n):
        return self.need(n).decode('utf-8')


def m(name, *a):
    def f(s):
        return getattr(s, name)(*a)
    return '%s%s' % (name, a), f


def ms(name, *a):
    """Arguments that need fresh objects."""
    def f(s):
        return getattr(s, name)(*[x() if callable(x) else x for x in a])
    return '%s(stream)' % name, f


def back(n):
    """Relative seeks must not leave the stream at a negative position."""
    def f(s):
        if s.tell() + n < 0:
            return None
        return s.seek(n, 1)
    return 'seek(%d, 1)' % n, f


def fromend(n):
    def f(s):
        if len(s) + n < 0:
            return None
        return s.seek(n, 2)
    return 'seek(%d, 2)' % n, f


def empty(name):
    """Jython's cStringIO cannot read nothing beyond the end."""
    def f(s):
        if s.tell() > len(s):
            return None
        return getattr(s, name)(0)
    return '%s(0)' % name, f


def numread(n, signed):
    name = {(1, 0): 'uchar', (1, 1): 'char', (2, 0): 'ushort',
            (2, 1): 'short', (3, 0): '24bit_uint', (3, 1): '24bit_int',
            (4, 0): 'ulong', (4, 1): 'long'}[n, signed]

    def f(s):
        if isinstance(s, Model):
            return s.num(n, signed)
        return getattr(s, 'read_' + name)()
    return 'read_' + name, f


def dbl(width):
    def f(s):
        if isinstance(s, Model):
            s.need(width)
            return None
        s.read_double() if width == 8 else s.read_float()
    return 'read_%d' % width, f


def length(s):
    return len(s)


def other():
    return util.BufferedByteStream('PQ')


CORE = [
    m('write', 'ab'), m('write', 'xyz'), m('write', ''), m('read'),
    m('read', 1), m('read', 2), m('seek', 0), m('seek', 1), m('seek', 4),
    fromend(0), back(-1), m('truncate'), m('truncate', 1), m('truncate', 3),
    m('append', 'c'), m('append', u'\xe9'), m('consume'), m('peek'),
    m('peek', -1), ('len', length), numread(2, 0), numread(3, 0),
]
MORE = [
    empty('read'), m('read', 3), m('read', -2), back(1), fromend(-1),
    fromend(1), m('truncate', 9), m('append', 5), ms('append', other),
    m('peek', 0), m('peek', 2), m('peek', 3), m('peek', -2),
    m('remaining'), m('at_eof'), m('tell'), m('getvalue'), numread(1, 0),
    numread(1, 1), numread(2, 1), numread(3, 1), numread(4, 0),
    numread(4, 1), dbl(4), dbl(8), empty('read_utf8_string'),
    m('read_utf8_string', 2), m('append', ''),
]
ALL = CORE + MORE

OBSERVE = [m('tell'), ('len', length), m('remaining'), m('at_eof'),
           m('peek', 2), m('peek', -1), m('getvalue')]


def result(f, s):
    r = mc.attempt(f, s)
    if r[0] == 'exc':
        return r[0], ('UnicodeError' if isinstance(r[2], UnicodeError)
                      else r[1])
    return r


def run_history(ctx, sig, init, ops):
    s = util.BufferedByteStream(init)
    ref = Model(init or '')
    for i, (name, f) in enumerate(ops):
        want = result(f, ref)
        got = result(f, s)
        if name in ('append(stream)', 'seek') or name.startswith('seek'):
            got = got[0], None
            want = want[0], None
        ctx.step()
        if got != want:
            ctx.violation(sig(), 'stream %r after %r: operation %s gives %r '
                          'instead of %r' % (
                              init, [o[0] for o in ops[:i]], name, got, want))
            return
    for name, f in OBSERVE:
        got, want = result(f, s), result(f, ref)
        if got != want:
            ctx.violation(sig(), 'stream %r after %r: %s is %r instead of '
                          '%r' % (init, [o[0] for o in ops], name, got[1:],
                                  want[1:]))
            return
    ctx.trace()
    ctx.state((ref.d, ref.p))


def run(ctx):
    t = ctx.thorough
    inits = (None, 'abcd') if not t else (None, 'abcd', '\xc3\xa9z', 'a' * 9)
    for init in inits:
        # every sequence of two operations of the full set, then core ones
        for a in ALL:
            for b in ALL:
                if not ctx.mine('%r %s %s' % (init, a[0], b[0])):
                    continue
                ctx.alive()
                for tail in mc.seqs_upto(CORE if t else CORE[:], 2 if t
                                         else 1):
                    ops = (a, b) + tail
                    run_history(ctx, lambda: '%r %s' % (
                        init, ' '.join(o[0] for o in ops)), init, ops)
        # deep sequences of the core set
        for a in CORE:
            for b in CORE:
                if not ctx.mine('core %r %s %s' % (init, a[0], b[0])):
                    continue
                for tail in mc.seqs(CORE, 3 if t else 2):
                    ctx.alive()
                    ops = (a, b) + tail
                    run_history(ctx, lambda: '%r %s' % (
                        init, ' '.join(o[0] for o in ops)), init, ops)
    ctx.bound('operations', '%d; every sequence of %d over all of them and of '
              '%d over the %d core ones, from %d initial streams' % (
                  len(ALL), 4 if t else 3, 5 if t else 4, len(CORE),
                  len(inits)))

    # construction from every kind of source, and concatenation
    def file_at(pos):
        f = StringIO('hello')
        f.seek(pos)
        return f

    class FileLike(object):
        def __init__(self):
            self.f = file_at(2)
            self.read, self.seek = self.f.read, self.f.seek
            self.tell = self.f.tell

    for name, mk, want in [
            ('none', lambda: None, ''), ('str', lambda: 'hello', 'hello'),
            ('empty', lambda: '', ''), ('StringIO', lambda: file_at(2),
                                        'hello'),
            ('file like', FileLike, 'hello'),
            ('stream', lambda: util.BufferedByteStream('hello'), 'hello')]:
        if not ctx.mine('source ' + name):
            continue
        src = mk()
        s = util.BufferedByteStream(src)
        ctx.step()
        ctx.trace()
        got = (s.getvalue(), s.tell(), len(s), s.peek(-1))
        if got != (want, 0, len(want), want):
            ctx.violation('source ' + name, 'stream of %s is %r' % (name, got))
        if hasattr(src, 'tell') and name not in ('stream',) and \
                src.tell() != 2:
            ctx.violation('source pos ' + name, 'reading from %s moved its '
                          'position to %d' % (name, src.tell()))
        s.write('J')
        if name == 'stream' and src.getvalue() != 'hello':
            ctx.violation('source shared', 'streams share their content')
    for a in ('', 'a', 'abc'):
        for b in ('', 'b', 'xyz'):
            for pa in range(len(a) + 1):
                for pb in range(len(b) + 1):
                    cid = 'add %r@%d %r@%d' % (a, pa, b, pb)
                    if not ctx.mine(cid):
                        continue
                    x = util.BufferedByteStream(a)
                    y = util.BufferedByteStream(b)
                    x.seek(pa)
                    y.seek(pb)
                    r = mc.attempt(lambda: x + y)
                    ctx.step()
                    ctx.trace()
                    ctx.state(cid)
                    if r[0] == 'exc' or (r[1].getvalue(), r[1].tell()) != (
                            a + b, 0):
                        ctx.violation(cid, '%s gives %r' % (cid, r[1:]))
                    elif (x.getvalue(), x.tell(), y.getvalue(), y.tell()) \
                            != (a, pa, b, pb):
                        ctx.violation(cid, '%s changed its operands' % cid)
    ctx.sample('write ab, seek 4, append c, truncate 3, peek -1')
    ctx.assume('positions before the start of the stream are not explored; '
               'truncate() without a size also rewinds')
