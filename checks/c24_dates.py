"""C24: dates keep their instant in every format and offset."""
import datetime
import itertools
import struct
import StringIO
from fractions import Fraction

import pyamf
from pyamf import amf0, amf3, remoting, util

import amfspec
import mc
import packets
from amfspec import Node

D = datetime.datetime
TD = datetime.timedelta
EPOCH = D(1970, 1, 1)
LOW = D(1, 1, 1)
HIGH = D(9999, 12, 31, 23, 59, 59, 999999)


class T(object):
    """a registered class"""


class A(object):
    """always AMF3"""
    class __amf__:
        amf3 = True


class Sub(D):
    """a subclass of datetime"""


class SubDate(datetime.date):
    """a subclass of date"""


class SubTime(datetime.time):
    """a subclass of time"""


class Zone(datetime.tzinfo):
    def __init__(self, minutes):
        self.minutes = minutes

    def utcoffset(self, d):
        return TD(minutes=self.minutes)

    def dst(self, d):
        return TD(0)

    def tzname(self, d):
        return 'Z%d' % self.minutes


def us(delta):
    return (delta.days * 86400 + delta.seconds) * 1000000 + \
        delta.microseconds


def instant(d):
    """Exact microseconds since the epoch, in UTC."""
    if not isinstance(d, D):
        return us(D(d.year, d.month, d.day) - EPOCH)
    off = us(d.utcoffset()) if d.tzinfo is not None else 0
    return us(d.replace(tzinfo=None) - EPOCH) - off


MIN, MAX = us(LOW - EPOCH), us(HIGH - EPOCH)


def offset_us(o):
    if o is None:
        return 0
    return us(o if isinstance(o, TD) else TD(seconds=o))


def ulp(x):
    return Fraction(2) ** (max(abs(int(x)), 1).bit_length() - 53)


def wire_wrong(w, exact_us):
    """Is the double w not the exact time in milliseconds?"""
    if w != w or w in (float('inf'), -float('inf')):
        return True
    exact = Fraction(exact_us, 1000)
    got = Fraction(w)
    if exact.denominator == 1:
        return got != exact
    return abs(got - exact) > max(Fraction(1, 2000), 2 * ulp(exact))


def read_wrong(d, w, off):
    """Is the datetime d not what w milliseconds and the offset mean?"""
    if type(d) is not D or d.tzinfo is not None:
        return True
    exact = Fraction(w) * 1000 + off
    got = us(d - EPOCH)
    if exact.denominator == 1 and Fraction(w).denominator == 1:
        return got != exact
    return abs(got - exact) > 1


# -------------------------------------------------------------- the alphabet
YEARS = [1, 2, 4, 100, 400, 1582, 1600, 1829, 1830, 1899, 1900, 1901, 1904,
         1938, 1968, 1969, 1970, 1971, 1972, 1999, 2000, 2001, 2026, 2037,
         2038, 2039, 2100, 2106, 2107, 2242, 2243, 4000, 9998, 9999]
DAYS = [(1, 1), (1, 31), (2, 28), (2, 29), (3, 1), (6, 15), (12, 31)]
TIMES = [(0, 0, 0), (0, 0, 1), (12, 34, 56), (23, 59, 59)]
MICROS = [0, 1, 499, 500, 999, 1000, 1001, 123000, 123456, 500000, 999000,
          999499, 999500, 999999]
OFFSETS = [None, TD(0), TD(seconds=1), TD(hours=1), TD(hours=-1),
           TD(hours=5, minutes=30), TD(hours=-12), TD(hours=14), TD(days=1),
           TD(days=-1), TD(milliseconds=1), TD(microseconds=-1),
           3600, -1800, 0, 90000]
ZONES = [0, 60, -60, 330, 840, -720, 1439, -1439]


def day(y, m, d):
    try:
        return datetime.date(y, m, d)
    except ValueError:
        return None


def calendar():
    for y in YEARS:
        for m, dd in DAYS:
            if day(y, m, dd):
                yield day(y, m, dd)


def small():
    """One value of each region and kind."""
    return [D(2009, 3, 8, 23, 30, 47, 770000), D(1969, 12, 31, 23, 59, 59, 1),
            D(1970, 1, 1), D(1, 1, 2, 0, 0, 0, 1000),
            D(2300, 2, 28, 12, 0, 0, 123000),
            D(9999, 12, 30, 23, 59, 59, 999000),
            datetime.date(2009, 5, 6), datetime.date(1950, 1, 1),
            D(2009, 7, 1, 1, 2, 3, 4000, Zone(330)),
            D(1965, 7, 1, 1, 2, 3, 400, Zone(-720)),
            Sub(2009, 3, 8, 23, 30, 47, 770000), SubDate(2009, 3, 8)]


# ------------------------------------------------------------------ positions
def typed(cls, **kw):
    o = cls()
    for k, v in kw.items():
        setattr(o, k, v)
    return o


def shared(d):
    l = [1]
    return [d, l, d, l]


POSITIONS = {
    'top': lambda d: d,
    'list': lambda d: [d, u'x', 1],
    'twice': lambda d: [d, d],
    'value': lambda d: {u'k': d},
    'attribute': lambda d: typed(T, a=d),
    'amf3': lambda d: typed(A, a=d, b=[d, u'x']),
    'ecma': lambda d: pyamf.MixedArray(k=d),
    'before references': shared,
}


def flat(v, out):
    """The dates of a decoded value, in a fixed order."""
    if isinstance(v, datetime.date):
        out.append(v)
    elif isinstance(v, (list, tuple)):
        for x in v:
            flat(x, out)
    elif isinstance(v, dict):
        for k in sorted(v):
            flat(v[k], out)
    elif hasattr(v, '__dict__'):
        flat(vars(v), out)
    return out


def flat_spec(v, out):
    if isinstance(v, Node):
        for x in v.items:
            flat_spec(x, out)
        for k, x in sorted(v.pairs):
            flat_spec(x, out)
    elif v[0] == 'date':
        out.append(v[1])
    return out


def structure(v):
    """What is left of a value without its dates."""
    if isinstance(v, datetime.date):
        return 'date'
    if isinstance(v, (list, tuple)):
        return [structure(x) for x in v]
    if isinstance(v, dict):
        return dict((k, structure(x)) for k, x in v.items())
    if hasattr(v, '__dict__'):
        return (v.__class__.__name__, structure(vars(v)))
    return v


def encode(v, version, off, how):
    if how == 'function':
        return pyamf.encode(v, encoding=version,
                            timezone_offset=off).getvalue()
    e = pyamf.get_encoder(version, timezone_offset=off)
    e.writeElement(v)
    return e.stream.getvalue()


def decode(data, version, off, how):
    if how == 'function':
        return list(pyamf.decode(data, encoding=version, timezone_offset=off))
    return list(pyamf.get_decoder(version, data, timezone_offset=off))


def check(ctx, name, v, version, eoff, doff, how='function'):
    """One value: the bytes against the instant, the reading against them."""
    dates = flat(v, [])
    want = [instant(d) - offset_us(eoff) for d in dates]
    if min(want) < MIN or max(want) > MAX:
        return
    back = [w + offset_us(doff) for w in want]
    # the double of a fraction of a millisecond may lie on either side of it,
    # which an offset could take out of the years that datetime knows
    margin = 1000 if doff else 0
    if min(back) < MIN + margin or max(back) > MAX - margin:
        return
    ctx.step(2)
    ctx.trace()
    sig = 'amf%d: %s' % (version, name)
    desc = 'AMF%d %s (%r), offsets %r and %r' % (version, name, v, eoff, doff)
    r = mc.attempt(encode, v, version, eoff, how)
    if r[0] != 'ok':
        ctx.violation(sig, '%s: encoding raises %s: %s' % (
            desc, r[1], r[2]))
        return
    data = r[1]
    s = mc.attempt(amfspec.read_all, data, version)
    if s[0] != 'ok' or len(s[1]) != 1:
        ctx.violation(sig, '%s: %s is no encoding (%r)' % (
            desc, mc.hexs(data), s))
        return
    ws = flat_spec(s[1][0], [])
    if len(ws) != len(want) or [
            1 for w, x in zip(ws, want) if wire_wrong(w, x)]:
        ctx.violation(sig, '%s: is written as %r ms instead of %r us' % (
            desc, ws, want))
        return
    r = mc.attempt(decode, data, version, doff, how)
    if r[0] != 'ok':
        ctx.violation(sig, '%s: decoding %s raises %s: %s' % (
            desc, mc.hexs(data), r[1], r[2]))
        return
    got = flat(r[1], [])
    if len(got) != len(ws) or [
            1 for d, w in zip(got, ws) if read_wrong(d, w, offset_us(doff))]:
        ctx.violation(sig, '%s: %s decodes to %r, expected %r' % (
            desc, mc.hexs(data), got, [
                EPOCH + TD(microseconds=x) for x in back]))
    elif structure(r[1]) != structure([v]):
        ctx.violation(sig, '%s: decodes to %r' % (desc, r[1]))


# --------------------------------------------------------------------- parts
def boundaries(ctx):
    """Every calendar boundary x time x microsecond, plain."""
    n = 0
    for d in calendar():
        for h, m, s in TIMES:
            cid = 'day %s %02d:%02d:%02d' % (d, h, m, s)
            n += len(MICROS)
            if not ctx.mine(cid):
                continue
            for u in MICROS:
                v = D(d.year, d.month, d.day, h, m, s, u)
                ctx.state(v)
                for version in (0, 3):
                    check(ctx, 'datetime', v, version, None, None)
                helpers(ctx, v)
        cid = 'date %s' % d
        if ctx.mine(cid):
            ctx.state(cid)
            for version in (0, 3):
                for o in OFFSETS:
                    check(ctx, 'date', d, version, o, o)
    ctx.bound('calendar boundaries x times x microseconds', n)
    # every millisecond of a second in each region
    for y in YEARS if ctx.thorough else YEARS[::3] + [2026, 2243]:
        cid = 'milliseconds of %d' % y
        if not ctx.mine(cid):
            continue
        base = D(y, 11, 19, 12, 34, 56)
        for ms in range(1000):
            v = base + TD(milliseconds=ms)
            ctx.state(v)
            for version in (0, 3):
                check(ctx, 'datetime', v, version, None, None)
    # every day around the epoch, or of the whole calendar
    if ctx.thorough:
        ranges = [(i, i + 5000) for i in range(1, 3652060, 5000)]
    else:
        ranges = [(719163 - 400, 719163 + 400), (1, 400),
                  (3652059 - 400, 3652060)]
    for lo, hi in ranges:
        cid = 'days %d' % lo
        if not ctx.mine(cid):
            continue
        ctx.state(cid)
        for i in xrange(lo, min(hi, 3652060)):
            if i % 500 == 0:
                ctx.alive()
            d = datetime.date.fromordinal(i)
            check(ctx, 'date', d, 3, None, None)
            check(ctx, 'datetime', D(d.year, d.month, d.day, 1, 2, 3, 4000),
                  0, None, None)


def helpers(ctx, d):
    """The public helper functions, where a float is exact enough."""
    if not 1900 <= d.year <= 2200:
        return
    ctx.step(2)
    r = mc.attempt(util.get_timestamp, d)
    exact = Fraction(instant(d), 1000000)
    if r[0] != 'ok' or abs(Fraction(r[1]) - exact) > ulp(exact):
        ctx.violation('helper timestamp', 'get_timestamp(%r) gives %r' % (
            d, r[1:]))
        return
    b = mc.attempt(util.get_datetime, r[1])
    if b[0] != 'ok' or abs(us(b[1] - d)) > 1 or \
            d.microsecond % 1000 == 0 and b[1] != d:
        ctx.violation('helper datetime', 'get_datetime(%r) gives %r, '
                      'expected %r' % (r[1], b[1:], d))


def offsets(ctx):
    """Offsets and positions."""
    for i, d in enumerate(small()):
        for pos in sorted(POSITIONS):
            cid = 'position %s of value %d' % (pos, i)
            if not ctx.mine(cid):
                continue
            v = POSITIONS[pos](d)
            for how in ('function', 'codec'):
                for version in (0, 3):
                    for eo, do in itertools.product(OFFSETS, repeat=2):
                        ctx.state((cid, version, repr(eo), repr(do)))
                        check(ctx, pos, v, version, eo, do, how)
    ctx.bound('offsets', len(OFFSETS))
    ctx.bound('positions', len(POSITIONS))
    # aware values over the zones
    for z in ZONES:
        for y in YEARS[1:-1]:
            cid = 'zone %d %d' % (z, y)
            if not ctx.mine(cid):
                continue
            for m, dd in DAYS:
                if not day(y, m, dd):
                    continue
                for h, mi, s in TIMES:
                    v = D(y, m, dd, h, mi, s, 250000, Zone(z))
                    ctx.state((z, repr(v)))
                    for version in (0, 3):
                        for o in (None, TD(hours=5, minutes=30)):
                            check(ctx, 'aware', v, version, o, o)
    # sequences with sharing
    alphabet = [small()[0], small()[0], small()[6], small()[8], u'x']
    for n in range(1, 6 if ctx.thorough else 5):
        for seq in itertools.product(range(len(alphabet)), repeat=n):
            cid = 'sequence %r' % (seq,)
            if not ctx.mine(cid) or not set(seq) - set([4]):
                continue
            ctx.state(cid)
            v = [alphabet[i] for i in seq]
            for version in (0, 3):
                for o in (None, TD(hours=-3), 7200):
                    check(ctx, 'sequence', v, version, o, o, 'codec')


def written(ctx):
    """What other writers send: zones in AMF0, fractions, references."""
    values = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1236554447770.0,
              1236554447770.5, -1000.25, 253402300799999.0, -62135596800000.0,
              -62135596799999.0, 4294967296000.0, 8640000000000.0, 0.001]
    for w in values:
        for tz in (0, 60, -60, 0x7fff, -0x8000):
            cid = 'written %r zone %d' % (w, tz)
            if not ctx.mine(cid):
                continue
            ctx.state(cid)
            for o in OFFSETS:
                lim = Fraction(w) * 1000 + offset_us(o)
                if not MIN <= lim <= MAX:
                    continue
                for version, data in (
                        (0, '\x0b' + struct.pack('!dh', w, tz)),
                        (3, '\x08\x01' + struct.pack('!d', w)),
                        (0, '\x11\x08\x01' + struct.pack('!d', w)),
                        (3, '\x09\x05\x01\x08\x01' + struct.pack('!d', w) +
                         '\x08\x02')):
                    ctx.step()
                    ctx.trace()
                    r = mc.attempt(decode, data, version, o, 'codec')
                    got = flat(r[1], []) if r[0] == 'ok' else []
                    if not got or [1 for d in got if read_wrong(
                            d, w, offset_us(o))]:
                        ctx.violation(
                            'written-amf%d' % version,
                            'AMF%d %s with offset %r decodes to %r' % (
                                version, mc.hexs(data), o, r[1:]))


def refused(ctx):
    for t in (datetime.time(1, 2), datetime.time(0), datetime.time(
            23, 59, 59, 999999), SubTime(1, 2)):
        for pos in sorted(POSITIONS):
            cid = 'time %s %s at %s' % (type(t).__name__, t, pos)
            if not ctx.mine(cid):
                continue
            for version in (0, 3):
                for o in (None, TD(hours=1), 60):
                    ctx.state((cid, version, repr(o)))
                    ctx.step()
                    ctx.trace()
                    v = POSITIONS[pos](t)
                    r = mc.attempt(encode, v, version, o, 'function')
                    if r[0] != 'exc' or not isinstance(
                            r[2], pyamf.EncodeError):
                        ctx.violation('time', 'AMF%d %r (offset %r): %r' % (
                            version, v, o, r[1:]))


# ------------------------------------------------------------------ remoting
def node_date(w):
    n = Node('array')
    n.items = [('date', w)]
    return n


def envelopes(ctx):
    for i, d in enumerate(small()):
        for version in (0, 3):
            cid = 'envelope %d AMF%d' % (i, version)
            if not ctx.mine(cid):
                continue
            for pos in sorted(POSITIONS):
                for eo, do in itertools.product(OFFSETS[:8], repeat=2):
                    envelope(ctx, d, pos, version, eo, do)


def envelope(ctx, d, pos, version, eo, do):
    w = instant(d) - offset_us(eo)
    if not (MIN <= w <= MAX and MIN <= w + offset_us(do) <= MAX):
        return
    env = remoting.Envelope(version)
    env.headers[u'h'] = POSITIONS[pos](d)
    env[u'/1'] = remoting.Request(u'a.b', body=[POSITIONS[pos](d), d])
    env[u'/2'] = remoting.Response(POSITIONS[pos](d))
    ctx.state((repr(d), pos, version, repr(eo), repr(do)))
    ctx.step(2)
    ctx.trace()
    desc = 'AMF%d envelope with %s (%r), offsets %r and %r' % (
        version, pos, d, eo, do)
    sig = 'envelope-amf%d: %s' % (version, pos)
    r = mc.attempt(lambda: remoting.encode(
        env, strict=True, timezone_offset=eo).getvalue())
    if r[0] != 'ok':
        ctx.violation(sig, '%s: encoding raises %r' % (desc, r[1:]))
        return
    r = mc.attempt(remoting.decode, r[1], strict=True, timezone_offset=do)
    if r[0] != 'ok':
        ctx.violation(sig, '%s: decoding raises %r' % (desc, r[1:]))
        return
    e = r[1]
    got = flat([e.headers[u'h'], e[u'/1'].body, e[u'/2'].body], [])
    n = len(flat(POSITIONS[pos](d), []))
    want = w + offset_us(do)
    if len(got) != 3 * n + 1 or [1 for x in got if near(x, want)]:
        ctx.violation(sig, '%s: arrives as %r' % (desc, got))


def near(d, want):
    tol = 0 if want % 1000 == 0 else max(1, int(2000 * ulp(want // 1000)) + 1)
    return abs(us(d - EPOCH) - want) > tol


def gateways(ctx):
    """The offset of a gateway applies to what it reads and writes."""
    import c15_gateway_batches as c15
    for kind in ('wsgi', 'django'):
        for o in OFFSETS[:8] + [3600, -1800, 0]:
            for how in ('argument', 'setting'):
                if how == 'setting' and kind == 'wsgi':
                    continue
                cid = 'gateway %s %r %s' % (kind, o, how)
                if ctx.mine(cid):
                    gateway(ctx, c15, kind, o, how)


def gateway(ctx, c15, kind, o, how):
    seen = []

    def echo(d):
        seen.append(d)
        return d

    kw = {'timezone_offset': o}
    if how == 'setting':
        kw = {}
        http, dj = c15.django()
        dj.conf.settings.AMF_TIME_OFFSET = o
    f = c15.Front(kind, [], **kw)
    if how == 'setting':
        del dj.conf.settings.AMF_TIME_OFFSET
    f.gw.addService(echo, 'date')
    for d in small():
        w = instant(d)
        if w % 1000 or not MIN <= w + offset_us(o) <= MAX:
            continue
        for version in (0, 3):
            for pos in ('top', 'list', 'value', 'twice'):
                ctx.state((kind, repr(o), how, repr(d), version, pos))
                ctx.step()
                ctx.trace()
                del seen[:]
                env = remoting.Envelope(version)
                env[u'/1'] = remoting.Request(u'date',
                                              body=[POSITIONS[pos](d)])
                data = remoting.encode(env, strict=True).getvalue()
                desc = '%s gateway with offset %r (%s), AMF%d, %s of %r' % (
                    kind, o, how, version, pos, d)
                r = mc.attempt(f.post, data)
                if r[0] != 'ok' or r[1][0] != 200:
                    ctx.violation('gateway', '%s: %r' % (desc, r))
                    continue
                got = flat(seen, [])
                n = len(flat(POSITIONS[pos](d), []))
                if len(got) != n or [1 for x in got
                                     if near(x, w + offset_us(o))]:
                    ctx.violation('gateway', '%s: the service gets %r' % (
                        desc, got))
                back = mc.attempt(remoting.decode, r[1][2])
                got = flat(back[1][u'/1'].body, []) if back[0] == 'ok' else 0
                if not got or len(got) != n or [1 for x in got
                                                if near(x, w)]:
                    ctx.violation('gateway', '%s: the client gets %r' % (
                        desc, got))


def run(ctx):
    pyamf.register_class(T, 'c24.T')
    pyamf.register_class(A, 'c24.A')
    boundaries(ctx)
    offsets(ctx)
    written(ctx)
    refused(ctx)
    envelopes(ctx)
    gateways(ctx)
    ctx.sample('the millisecond before the epoch with an offset of 5:30, as '
               'an attribute of an AMF3 object inside AMF0')
    ctx.assume('instants that an offset moves out of the years 1 to 9999 are '
               'not covered; microseconds are kept as far as the double '
               'precision milliseconds of the format can')
