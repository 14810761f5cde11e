"""C19: Flex messages keep every field in both their forms."""
import datetime
import itertools
import sys
import uuid

for _m in ('cpyamf', 'django', 'google', 'sqlalchemy', 'elixir'):
    sys.modules.setdefault(_m, None)

import pyamf
from pyamf import amf3, flex
from pyamf.flex import data as flexdata, messaging

import amfspec
import globalstate
import mc
import pyval
import rt_common
from amfspec import Node

ABSTRACT = ['body', 'clientId', 'destination', 'headers', 'messageId',
            'timestamp', 'timeToLive']
ASYNC = ABSTRACT + ['correlationId']
FIELDS = {
    'AsyncMessage': ASYNC,
    'AcknowledgeMessage': ASYNC,
    'CommandMessage': ASYNC + ['operation'],
    'ErrorMessage': ASYNC + ['extendedData', 'faultCode', 'faultDetail',
                             'faultString', 'rootCause'],
    'RemotingMessage': ABSTRACT + ['operation', 'source'],
    'DataMessage': ASYNC + ['identity', 'operation'],
    'SequencedMessage': ASYNC + ['sequenceId', 'sequenceProxies',
                                 'sequenceSize', 'dataMessage'],
    'PagedMessage': ASYNC + ['sequenceId', 'dataMessage', 'pageCount',
                             'pageIndex'],
    'DataErrorMessage': ASYNC + ['faultCode', 'faultString', 'rootCause',
                                 'cause', 'propertyNames', 'serverObject'],
}
DATA = ('DataMessage', 'SequencedMessage', 'PagedMessage', 'DataErrorMessage')
SMALL = {'AsyncMessage': ('AsyncMessageExt', u'DSA'),
         'AcknowledgeMessage': ('AcknowledgeMessageExt', u'DSK'),
         'CommandMessage': ('CommandMessageExt', u'DSC')}
PACKAGES = (u'flex.messaging.messages.', u'flex.data.messages.')

U1 = uuid.UUID('12345678-1234-5678-1234-567812345678')
U0 = uuid.UUID(int=0)
# its bytes start like those of a compressed byte array
UZ = uuid.UUID('789c5678-1234-5678-1234-567812345678')
UY = uuid.UUID('78da5678-1234-5678-1234-567812345678')
D1 = datetime.datetime(2009, 8, 19, 11, 24, 43, 985000)
D0 = datetime.datetime(1970, 1, 1)
DN = datetime.datetime(1969, 12, 31, 23, 59, 59, 500000)


class Thing(object):
    """a registered value"""


def thing():
    t = Thing()
    t.x = u'y'
    return t


VALUES = {
    'body': [None, 0, '', u'', False, True, 5, -1.5, u'text', 'caf\xc3\xa9',
             [], {}, [1, u'x', [u'x']], {u'k': 0, u'l': None}, D1, thing,
             lambda: amf3.ByteArray('\x00\xff'), pyamf.Undefined, 2 ** 28],
    'destination': [None, u'', u'd', u'd\xe9', 'str'],
    'headers': [lambda: {}, None, lambda: {u'DSId': u'nil'},
                lambda: {u'a': 0, u'b': u''}],
    'timestamp': [None, 0, 5, 1234567890123.0, 0.0],
    'timeToLive': [None, 0, 1, 3600000],
    'id': [None, u'', u'ID-1', u'\xe9', 'str'],
    'operation': [None, 0, 1, 5, 12, 1000],
    'other': [None, u'', u'x', 0, [], {}, {u'k': u'v'}, thing],
}
SMALL_EXTRA = {'id': [U1, U0, UZ, UY], 'timestamp': [D1, D0, DN],
               'timeToLive': [D1, D0]}


def alphabet(field, small):
    if field in ('clientId', 'messageId', 'correlationId'):
        k = 'id'
    elif field in VALUES:
        k = field
    else:
        k = 'other'
    vs = list(VALUES[k])
    if small:
        vs += SMALL_EXTRA.get(k, [])
    return vs


# ------------------------------------------------------- what a message says
def ms(v):
    if isinstance(v, (datetime.datetime, datetime.date)):
        v = pyval.ms_of(v)
    return v


def info(v, memo=None):
    """v with messages as plain values: the same for both forms."""
    memo = {} if memo is None else memo
    if id(v) not in memo:
        if isinstance(v, (list, dict, messaging.AbstractMessage)):
            r = memo[id(v)] = [] if isinstance(v, list) else {} \
                if isinstance(v, dict) else pyamf.TypedObject(u'')
            # keep v
            memo[id(v), 'keep'] = v
            fill(v, r, memo)
        else:
            return v
    return memo[id(v)]


def fill(v, r, memo):
    c = getattr(v, '__class__', type(v))
    if isinstance(v, messaging.AbstractMessage):
        name = c.__name__
        if name.endswith('Ext'):
            name = name[:-3]
        r.alias = unicode(name)
        d = dict(vars(v))
        for k in FIELDS[name]:
            x = d.pop(k, 'missing')
            if k in ('timestamp', 'timeToLive'):
                x = ms(x)
            elif isinstance(x, uuid.UUID):
                x = u'uuid:' + unicode(x)
            else:
                x = info(x, memo)
            r[k] = x
        for k, x in d.items():
            r[k] = info(x, memo)
    elif isinstance(v, dict):
        for k, x in v.items():
            r[k] = info(x, memo)
    else:
        r.extend([info(x, memo) for x in v])


def canon(v):
    return rt_common.merge(pyval.canon_py(info(v), {Thing: u'c19.Thing'}))


# -------------------------------------------- the published small message form
def flags(r):
    out = []
    while True:
        b = r.c.u8()
        out.append(b & 0x7f)
        if not b & 0x80:
            return out


def to_uuid(n):
    if isinstance(n, Node) and n.kind == 'ba' and len(n.data) == 16:
        return amfspec.text(u'uuid:' + unicode(uuid.UUID(bytes=n.data)))
    raise amfspec.SpecError('id bytes')


def read_abstract(r, n):
    fs = flags(r)
    if len(fs) > 2 or len(fs) == 2 and fs[1] & ~3:
        raise amfspec.SpecError('flags')
    d = dict((k, amfspec.NULL) for k in ABSTRACT)
    d['headers'] = Node('obj')
    for i, k in enumerate(ABSTRACT):
        if fs[0] >> i & 1:
            d[k] = r.value()
            if k.startswith('time') and d[k] != amfspec.NULL and \
                    d[k][0] != 'n':
                raise amfspec.SpecError('%s is not a number' % k)
    if len(fs) == 2:
        for i, k in enumerate(('clientId', 'messageId')):
            if fs[1] >> i & 1:
                if d[k] != amfspec.NULL:
                    raise amfspec.SpecError('two ids')
                d[k] = to_uuid(r.value())
    return d


def read_async(r, n):
    d = read_abstract(r, n)
    fs = flags(r)
    if len(fs) > 1 or fs[0] & ~3 or fs[0] == 3:
        raise amfspec.SpecError('flags')
    d['correlationId'] = amfspec.NULL
    if fs[0] & 1:
        d['correlationId'] = r.value()
    if fs[0] & 2:
        d['correlationId'] = to_uuid(r.value())
    return d


def reader(name):
    def read(r):
        n = Node('typed', unicode(name))
        d = read_async(r, n)
        if name != 'AsyncMessage':
            fs = flags(r)
            if len(fs) > 1 or fs[0] & ~(name == 'CommandMessage'):
                raise amfspec.SpecError('flags')
            if name == 'CommandMessage':
                d['operation'] = r.value() if fs[0] else amfspec.NULL
        n.pairs = [(unicode(k), v) for k, v in d.items()]
        return n
    return read


EXTERNALS = dict((alias, reader(name))
                 for name, (ext, alias) in SMALL.items())


EXTERNALS[u'flex.messaging.io.ArrayCollection'] = lambda r: r.value()


def wire(data, version):
    """Canonical form of the one value in data, as the peer reads it."""
    vs = amfspec.read_all(data, version, EXTERNALS)
    if len(vs) != 1:
        raise amfspec.SpecError('%d values' % len(vs))
    seen = {}

    def strip(v):
        if isinstance(v, tuple):
            return v
        if id(v) in seen:
            return seen[id(v)]
        if v.kind == 'ext':
            seen[id(v)] = None
            r = strip(v.data)
            seen[id(v)] = r
            return r
        seen[id(v)] = v
        if v.kind == 'typed':
            short = v.name[v.name.rindex('.') + 1:] if '.' in v.name else u''
            if short in FIELDS and v.name == PACKAGES[short in DATA] + short:
                v.name = short
        v.items = [strip(x) for x in v.items]
        v.pairs = [(k, strip(x)) for k, x in v.pairs]
        return v
    return rt_common.merge(amfspec.canon(strip(vs[0])))


# ------------------------------------------------------------------- checking
def value(v):
    return v() if callable(v) and not isinstance(v, type(pyamf.Undefined)) \
        and v is not pyamf.Undefined else v


def make(cls, values):
    m = getattr(flexdata if cls in DATA else messaging, cls)()
    for k, v in values.items():
        setattr(m, k, v)
    return m


def check(ctx, sig, what, v, want=None):
    """v arrives with everything in it, in both versions."""
    if want is None:
        want = canon(v)
    ctx.state(want)
    for version in (3, 0):
        ctx.step(2)
        ctx.trace()
        r = mc.attempt(lambda: pyamf.encode(v, u'END',
                                            encoding=version).getvalue())
        if r[0] != 'ok':
            ctx.violation(sig + ':encode', 'AMF%d %s: encoding raised %r' % (
                version, what, r[1:]))
            return
        data = r[1]
        end = '\x06\x07END' if version == 3 else '\x02\x00\x03END'
        if not data.endswith(end):
            ctx.violation(sig + ':end', 'AMF%d %s: written as %s' % (
                version, what, mc.hexs(data)))
            return
        w = mc.attempt(wire, data[:-len(end)], version)
        if w[0] != 'ok' or w[1] != want:
            ctx.violation(sig + ':wire', 'AMF%d %s: a peer reads %s as %r '
                          'instead of %r' % (version, what, mc.hexs(data),
                                             w[1:], want))
            return
        r = mc.attempt(lambda: list(pyamf.decode(data, encoding=version)))
        got = None
        if r[0] == 'ok' and len(r[1]) == 2 and r[1][1] == u'END':
            got = mc.attempt(canon, r[1][0])
        if got and sig.split(':')[0] in ('small', 'ext'):
            for k in ('timestamp', 'timeToLive'):
                x = getattr(r[1][0], k, None)
                if x is not None and not isinstance(x, datetime.datetime):
                    got = ('%s is no date' % k, x)
        if got != ('ok', want):
            ctx.violation(sig + ':decode', 'AMF%d %s: decodes as %r instead '
                          'of %r' % (version, what, got or r, want))
            return
        if mc.attempt(canon, v) != ('ok', want):
            ctx.violation(sig + ':changed', 'AMF%d %s: encoding changed the '
                          'message' % (version, what))
            return


def both(ctx, cls, values, what=None):
    """values: {field: value}; as a full message, as its small form, and as a
    small message made directly."""
    what = what or '%s with %r' % (cls, values)
    only_small = [v for k, v in values.items()
                  if isinstance(v, uuid.UUID) or
                  k in ('timestamp', 'timeToLive') and
                  isinstance(v, datetime.date)]
    full = make(cls, values)
    want = canon(full)
    if not only_small:
        check(ctx, 'full:' + cls, what, full, want)
    if cls not in SMALL:
        ctx.step()
        r = mc.attempt(full.getSmallMessage)
        if r[:2] != ('exc', 'NotImplementedError'):
            ctx.violation('nosmall', '%s has the small form %r' % (cls, r))
        return
    r = mc.attempt(full.getSmallMessage)
    if r[0] != 'ok' or r[1].__class__.__name__ != SMALL[cls][0]:
        ctx.violation('small:' + cls, '%s has the small form %r' % (what, r))
        return
    if canon(r[1]) != want:
        ctx.violation('small:' + cls, 'the small form of %s says %r instead '
                      'of %r' % (what, canon(r[1]), want))
        return
    check(ctx, 'small:' + cls, 'small form of ' + what, r[1], want)
    check(ctx, 'ext:' + cls, what + ' as small message',
          make(SMALL[cls][0], values), want)


def singles(ctx):
    """Every value of every field, and of every pair of fields."""
    for cls in sorted(FIELDS):
        fields = FIELDS[cls]
        small = cls in SMALL
        if ctx.mine('default/' + cls):
            both(ctx, cls, {})
        for f, g in itertools.combinations_with_replacement(fields, 2):
            if not ctx.mine('pair/%s/%s/%s' % (cls, f, g)):
                continue
            if f == g:
                for v in alphabet(f, small):
                    both(ctx, cls, {f: value(v)})
            else:
                for v in alphabet(f, small):
                    for w in alphabet(g, small):
                        both(ctx, cls, {f: value(v), g: value(w)})


def subsets(ctx):
    """Every field default, empty or set, independently."""
    three = {
        'body': [None, 0, [u'ID-1']], 'clientId': [None, u'ID-1', UZ],
        'destination': [None, u'', u'ID-1'],
        'headers': [lambda: {}, None, lambda: {u'k': u'ID-1'}],
        'messageId': [None, u'', U1], 'timestamp': [None, 0, D1],
        'timeToLive': [None, 0, 1000.5], 'correlationId': [None, u'', UZ],
        'operation': [None, 0, 5],
    }
    for cls in sorted(SMALL):
        fields = FIELDS[cls]
        n = len(fields) if ctx.thorough else 5
        ctx.bound('fields with three values', n)
        # the others have two
        for i, head in enumerate(itertools.product(range(3), repeat=3)):
            if not ctx.mine('subset/%s/%r' % (cls, head)):
                continue
            rest = [range(3) if j + 3 < n else (0, 1 + (i + j) % 2)
                    for j in range(len(fields) - 3)]
            for tail in itertools.product(*rest):
                d = {}
                for f, k in zip(fields, head + tail):
                    d[f] = value(three[f][k])
                both(ctx, cls, d)


def combined(ctx):
    """Several messages in one value, sharing parts."""
    ms_ = sorted(FIELDS) + sorted(e for e, a in SMALL.values())
    for a in ms_:
        for b in ms_:
            if not ctx.mine('two/%s/%s' % (a, b)):
                continue
            for ida, idb in itertools.product((u'ID', None), (u'ID', U1)):
                for shared in ([u'ID', 1], {u'k': u'ID'}, u'ID', None):
                    x = make(a, {'messageId': ida, 'body': shared})
                    if not b.endswith('Ext') and isinstance(idb, uuid.UUID):
                        idb = u'U'
                    y = make(b, {'messageId': idb, 'body': shared,
                                 'headers': {u'k': shared}})
                    z = [make(a, {'body': y, 'headers': {u'k': u'ID'}}),
                         y]
                    what = '%s and %s sharing %r (ids %r, %r)' % (
                        a, b, shared, ida, idb)
                    one(ctx, what, [x, y])
                    one(ctx, what + ' nested', z)
                    one(ctx, what + ' in a collection',
                        flex.ArrayCollection([x, y, u'ID']))


def one(ctx, what, v):
    check(ctx, 'combined', what, v)


# ------------------------------------------------ messages written by a peer
def peer(ctx):
    """Every combination of flags a peer may write."""
    vals = {
        'body': u'B', 'clientId': u'C', 'destination': u'D',
        'headers': None, 'messageId': u'M', 'timestamp': 1000.0,
        'timeToLive': 2000, 'correlationId': u'R', 'operation': 0,
    }
    for cls in sorted(SMALL):
        for head in range(16):
            if not ctx.mine('peer/%s/%d' % (cls, head)):
                continue
            for rest in range(8):
                byte = head << 3 | rest
                for ids in (None, 0, 1, 2, 3):
                    if (ids or 0) & 1 and byte & 2 or \
                            (ids or 0) & 2 and byte & 16:
                        continue
                    for corr in (0, 1, 2):
                        for op in ((0, 1) if cls == 'CommandMessage'
                                   else (0,)):
                            written(ctx, cls, vals, byte, ids, corr, op)


def written(ctx, cls, vals, byte, ids, corr, op):
    w = amfspec.Amf3Writer()
    want = dict((k, None) for k in FIELDS[cls])
    want['headers'] = {}

    def put(v):
        if isinstance(v, dict):
            n = Node('obj')
            n.pairs = [(k, amfspec.text(x)) for k, x in v.items()]
            v = n
        elif isinstance(v, unicode):
            v = amfspec.text(v)
        elif isinstance(v, uuid.UUID):
            n = Node('ba')
            n.data = v.bytes
            v = n
        else:
            v = amfspec.num(v)
        w.value(v)
    w.w('\x0a\x07')
    w.string(SMALL[cls][1])
    if ids is None:
        w.w(chr(byte))
    else:
        w.w(chr(byte | 0x80) + chr(ids))
    for i, k in enumerate(ABSTRACT):
        if byte >> i & 1:
            v = vals[k]
            if k == 'headers':
                v = {u'k': u'B', u'C': u'D'}
            put(v)
            want[k] = v
    for i, k in enumerate(('clientId', 'messageId')):
        if (ids or 0) >> i & 1:
            put(U1)
            want[k] = U1
    w.w(chr(corr))
    if corr:
        v = U1 if corr == 2 else u'B'
        put(v)
        want['correlationId'] = v
    if cls != 'AsyncMessage':
        w.w(chr(op))
        if op:
            put(0)
            want['operation'] = 0
    w.w('\x06')
    w.string(u'B')
    data = w.bytes()
    # the message is the first of the objects of the stream
    ctx.step()
    ctx.trace()
    ctx.state(data)
    for version in (3, 0):
        d = data
        if version == 0:
            d = '\x11' + data
        r = mc.attempt(lambda: pyamf.get_decoder(version, d).readElement())
        expect = canon(make(cls, want))
        got = mc.attempt(canon, r[1]) if r[0] == 'ok' else r
        if got != ('ok', expect) or \
                r[1].__class__.__name__ != SMALL[cls][0]:
            ctx.violation('peer:' + cls, 'AMF%d %s decodes as %r instead of '
                          '%r' % (version, mc.hexs(d), got, expect))
            return
    r = mc.attempt(lambda: list(pyamf.decode(data, encoding=3)))
    if r[0] != 'ok' or len(r[1]) != 2 or r[1][1] != u'B':
        ctx.violation('peer:rest', '%s decodes as %r' % (mc.hexs(data), r))


def run(ctx):
    gs = globalstate.GlobalState()
    pyamf.register_class(Thing, 'c19.Thing')
    singles(ctx)
    subsets(ctx)
    combined(ctx)
    peer(ctx)
    gs.restore()
    ctx.assume('in the full form ids are strings and timestamps are numbers; '
               'UUIDs and dates are for the small form, which carries a '
               'timestamp as milliseconds')
    ctx.assume('attributes that are no fields of the class travel in the full '
               'form only')
