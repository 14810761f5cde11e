"""C26: errors and record sets survive the trip to the client."""
import itertools
import sys

for _m in ('cpyamf', 'google', 'sqlalchemy', 'elixir'):
    sys.modules.setdefault(_m, None)

import pyamf
from pyamf import amf0, remoting
from pyamf.flex import messaging
from pyamf.remoting import client
from pyamf.remoting.gateway import wsgi

import amfspec
import globalstate
import mc
import packets
import StringIO
from amfspec import Node

URL = 'http://example.org/gw'


# ----------------------------------------------------------------- exceptions
class Own(Exception):
    pass


class Other(Exception):
    pass


class Deep(Own):
    pass


class Coded(Exception):
    _amf_code = 'Custom.Code'


class CodedDeep(Coded):
    pass


class Value(ValueError):
    pass


class Uni(Exception):
    def __unicode__(self):
        return u'from unicode \u20ac'

    def __str__(self):
        return 'from unicode \xe2\x82\xac'


class Old:
    def __init__(self, *args):
        self.args = args


class Plain(object):
    pass


RAISED = [Own, Other, Deep, Coded, CodedDeep, Value, ValueError, KeyError,
          IndexError, LookupError, TypeError, NameError, AttributeError,
          RuntimeError, Exception, ZeroDivisionError, remoting.RemotingError,
          remoting.RemotingCallFailed, pyamf.EncodeError, IOError]


def code_of(cls):
    return getattr(cls, '_amf_code', cls.__name__)


DEFAULT = {'TypeError': TypeError, 'KeyError': KeyError,
           'LookupError': LookupError, 'IndexError': IndexError,
           'NameError': NameError, 'ValueError': ValueError,
           'Server.Call.Failed': remoting.RemotingCallFailed}


# ---------------------------------------------------------------- the registry
class Map(object):
    """The model: which class a code stands for."""

    def __init__(self):
        self.codes = dict(DEFAULT)

    def add(self, cls, code):
        if not isinstance(code, basestring):
            return None
        if cls in (Plain, Old, 5, None, 'Own'):
            return 'TypeError'
        if code in self.codes:
            return 'ValueError'
        self.codes[code] = cls
        return 'ok'

    def remove(self, x):
        if isinstance(x, basestring):
            if x not in self.codes:
                return 'ValueError'
            del self.codes[x]
            return 'ok'
        if x is None or isinstance(x, int):
            return 'TypeError'
        mine = [c for c, k in self.codes.items() if k is x]
        if not mine:
            return 'ValueError'
        for c in mine:
            del self.codes[c]
        return 'ok'

    def stands_for(self, code):
        try:
            return self.codes.get(code, remoting.RemotingError)
        except TypeError:
            return remoting.RemotingError


CODES = ['Own', 'A.B', u'A.B', 'ValueError', u'\xe9', '', 'Server.Call.Failed']
ODD = [None, 5, [u'Own'], {u'a': 1}, 1.5, True, pyamf.Undefined]
OPS = ([('add', c, k) for c in (Own, Other, Value, ValueError)
        for k in ('Own', u'A.B', 'ValueError', '')] +
       [('add', c, 'x') for c in (Plain, Old, 5, None, 'Own')] +
       [('remove', x) for x in (Own, Other, Value, ValueError, 'Own', u'Own',
                                'A.B', 'ValueError', '', 'nope', Plain, 5,
                                None)])


def opname(o):
    return '%s(%s)' % (o[0], ', '.join([getattr(x, '__name__', None) or
                                        repr(x) for x in o[1:]]))


def apply(op):
    if op[0] == 'add':
        r = mc.attempt(pyamf.add_error_class, op[1], op[2])
    else:
        r = mc.attempt(pyamf.remove_error_class, op[1])
    return r[0] if r[0] == 'ok' else r[1]


def probe(code):
    """What a client raises for a fault of that code."""
    f = remoting.ErrorFault(code=code, description=u'probe')
    try:
        f.raiseException()
    except Exception, e:
        return type(e), e.args
    return None, None


def registry(ctx, gs):
    depth = 4 if ctx.thorough else 3
    ctx.bound('operations on the error map', len(OPS))
    ctx.bound('depth of registration histories', depth)
    # the last operations are enumerated inside the case
    for head in mc.seqs_upto(range(len(OPS)), depth - 1):
        if len(head) < depth - 1 and len(head) != 0:
            continue
        cid = 'history %r' % (head,)
        if not ctx.mine(cid):
            continue
        ctx.alive()
        for last in range(len(OPS)):
            hist = [OPS[i] for i in head + (last,)]
            gs.restore()
            m = Map()
            ctx.state(tuple(map(opname, hist)))
            ctx.trace()
            for op in hist:
                ctx.step()
                want = m.add(*op[1:]) if op[0] == 'add' else \
                    m.remove(op[1])
                got = apply(op)
                if want is not None and got != want:
                    ctx.violation('registry ' + op[0], 'after %r: %s gives '
                                  '%s, expected %s' % (
                                      map(opname, hist), opname(op), got,
                                      want))
                    break
            else:
                for code in CODES:
                    got = probe(code)
                    if got != (m.stands_for(code), (u'probe',)):
                        ctx.violation(
                            'registry lookup', 'after %r a fault with code %r '
                            'raises %r, expected %r' % (
                                map(opname, hist), code, got,
                                m.stands_for(code)))
    gs.restore()
    for code in ODD:
        for desc in (u'probe', None, u'\u20ac'):
            if ctx.mine('odd %r %r' % (code, desc)):
                gs.restore()
                ctx.state((repr(code), desc))
                ctx.step()
                ctx.trace()
                f = remoting.ErrorFault(code=code, description=desc)
                r = mc.attempt(f.raiseException)
                if r[1] != 'RemotingError' or r[2].args != (
                        () if desc is None else (desc,)):
                    ctx.violation('odd code', 'a fault with code %r and '
                                  'description %r raises %r' % (
                                      code, desc, r[1:]))


# ------------------------------------------------------------------ end to end
TEXTS = ['', 'text', u'text', u'\xe9\u20ac', u'\xe9\u20ac'.encode('utf-8'),
         '\xff\xfe', 'a\x00b', u'x' * 66000, 'quote \' " <b>', 5, None,
         ('two', 2), ()]


def instance(cls, t):
    if isinstance(t, tuple):
        return cls(*t)
    return cls(t)


def allowed(cls, t):
    """The texts that describe an exception: all of it or its one argument."""
    e = instance(cls, t)
    if isinstance(t, tuple):
        if not t:
            return [u'']
        return None         # has to contain the first argument
    out = []
    if isinstance(t, str):
        # text that is not UTF-8 can not arrive unharmed
        out.append(t.decode('utf-8', 'replace'))
    for f in (lambda: unicode(e), lambda: str(e).decode('utf-8'),
              lambda: unicode(t), lambda: str(t).decode('utf-8')):
        r = mc.attempt(f)
        if r[0] == 'ok':
            out.append(r[1])
    return out


class Wire(object):
    """A client that talks to a gateway in the same process."""

    def __init__(self, version, debug, strict):
        self.gw = wsgi.WSGIGateway({'fail': self.fail}, debug=debug,
                                   strict=strict)
        self.client = client.RemotingService(
            URL, version, opener=self.open, strict=strict)
        self.raising = None

    def fail(self):
        raise self.raising

    def open(self, req):
        import c17_client
        data = req.get_data()
        out = []

        def start(status, headers, exc_info=None):
            out.append(dict(headers))
        env = {'REQUEST_METHOD': 'POST', 'CONTENT_LENGTH': str(len(data)),
               'wsgi.input': StringIO.StringIO(data)}
        body = ''.join(self.gw(env, start))
        return c17_client.Handle(body, out[0])


def trips(ctx, gs):
    regs = [(), ((Own, 'Own'),), ((Other, 'Own'), (Own, 'Custom.Code')),
            ((CodedDeep, 'Custom.Code'), (Own, 'Deep'), (Value, 'Value'),
             (Other, 'RuntimeError'), (Deep, 'IOError')),
            ('remove ValueError', (Own, 'ValueError')), ('remove all',)]
    ctx.bound('exception classes', len(RAISED))
    ctx.bound('messages', len(TEXTS))
    for version in (0, 3):
        for debug, strict in itertools.product((False, True), repeat=2):
            for i, reg in enumerate(regs):
                for cls in RAISED:
                    cid = 'trip %d %s %s %d %s' % (version, debug, strict, i,
                                                   cls.__name__)
                    if not ctx.mine(cid):
                        continue
                    gs.restore()
                    m = Map()
                    for op in reg:
                        if op == 'remove ValueError':
                            pyamf.remove_error_class(ValueError)
                            m.remove(ValueError)
                        elif op == 'remove all':
                            for c in sorted(m.codes):
                                pyamf.remove_error_class(c)
                            m.codes = {}
                        else:
                            pyamf.add_error_class(*op)
                            m.add(*op)
                    w = Wire(version, debug, strict)
                    for t in TEXTS:
                        trip(ctx, cid, m, w, cls, t)
    gs.restore()


def trip(ctx, cid, m, w, cls, t):
    w.raising = instance(cls, t)
    ctx.state((cid, repr(t)[:40]))
    ctx.step(2)
    ctx.trace()
    want = m.stands_for(code_of(cls))
    texts = allowed(cls, t)
    for how in ('single', 'batch'):
        if how == 'single':
            r = mc.attempt(w.client.getService('fail'))
        else:
            req = w.client.addRequest('fail')
            r = mc.attempt(w.client.execute)
            if r[0] == 'ok':
                r = mc.attempt(lambda: req.setResponse(r[1][req.id]))
        desc = '%s: %s(%r) raised by a service (%s call)' % (
            cid, cls.__name__, t if repr(t) < 200 else repr(t)[:60], how)
        if r[0] != 'exc' or type(r[2]) is not want:
            ctx.violation('trip class', '%s arrives as %r, expected %s' % (
                desc, r[1:], want.__name__))
            return
        args = r[2].args
        got = args[0] if args else u''
        if len(args) > 1 or not isinstance(got, basestring) or (
                texts and got not in texts) or (
                texts is None and unicode(t[0]) not in got):
            ctx.violation('trip message', '%s arrives with %r, expected one '
                          'of %r' % (desc, args, texts))
            return


def flex(ctx, gs):
    """The same errors as answers to messages of the Flex kind."""
    for cls in RAISED:
        for debug in (False, True):
            for version in (0, 3):
                cid = 'flex %s %s %d' % (cls.__name__, debug, version)
                if not ctx.mine(cid):
                    continue
                gs.restore()
                w = Wire(version, debug, False)
                for t in TEXTS:
                    flex_one(ctx, cid, w, cls, t, version)


def flex_one(ctx, cid, w, cls, t, version):
    w.raising = instance(cls, t)
    ctx.state((cid, repr(t)[:40]))
    ctx.step()
    ctx.trace()
    m = messaging.RemotingMessage()
    m.messageId = u'M'
    m.operation = u'fail'
    m.body = []
    env = remoting.Envelope(version)
    env[u'/1'] = remoting.Request(u'null', body=[m])
    data = remoting.encode(env).getvalue()

    class Req(object):
        def get_data(self):
            return data
    r = mc.attempt(lambda: remoting.decode(w.open(Req()).read()))
    desc = '%s: %s(%s) raised by a service' % (cid, cls.__name__,
                                               repr(t)[:60])
    if r[0] != 'ok':
        ctx.violation('flex', '%s: %r' % (desc, r[1:]))
        return
    b = r[1][u'/1'].body
    texts = allowed(cls, t)
    if not isinstance(b, messaging.ErrorMessage) or \
            b.faultCode != code_of(cls) or b.correlationId != u'M':
        ctx.violation('flex', '%s arrives as %r' % (desc, b))
        return
    got = b.faultString or u''
    if texts and got not in texts or \
            texts is None and unicode(t[0]) not in got:
        ctx.violation('flex message', '%s arrives with %r, expected one of '
                      '%r' % (desc, got, texts))


# ----------------------------------------------------------------- record sets
def cell(i):
    return [u'text', 5, None, u'\u20ac', [1], 1.5, {u'k': u'v'}][i]


def records(ctx):
    cols = [[], [u'a'], [u'a', u'b'], [u'\xe9', u''], [u'a', u'a']]
    services = [None, dict(name=u'svc'), dict(name='svc.x'),
                dict(name=u'\u20ac'), dict(name=u''), dict(name=5)]
    idents = [None, u'id', 'id', u'\u20ac', u'', 5, 0]
    n = 0
    for c in cols:
        for rows in range(4):
            cells = list(itertools.product(range(7), repeat=min(
                2, len(c) * rows)))
            for k in cells:
                cid = 'records %r %d %r' % (c, rows, k)
                n += 1
                if not ctx.mine(cid):
                    continue
                items = []
                it = itertools.cycle(k or (0,))
                for r in range(rows):
                    items.append([cell(it.next()) for x in c])
                full = k == (0,) * len(k) or ctx.thorough
                for s in services if full else services[:3:2]:
                    for i in idents if full else idents[:2]:
                        record(ctx, cid, c, items, s, i)
    ctx.bound('record sets', n)


def view(r):
    return (r.columns, [list(x) for x in r.items],
            None if r.service is None else dict(r.service), r.id)


def text_of(x):
    if x is None or isinstance(x, unicode):
        return x
    return unicode(x)


def record(ctx, cid, cols, items, service, ident):
    want = (cols, items, None if service is None else
            {u'name': text_of(service[u'name'])}, text_of(ident))
    for version in (0, 3):
        for twice in (False, True):
            rs = amf0.RecordSet(list(cols), [list(x) for x in items],
                                service and dict(service), ident)
            before = repr(view(rs))
            ctx.state((cid, version, twice, repr(service), repr(ident)))
            ctx.step(2)
            ctx.trace()
            desc = '%s service %r id %r, AMF%d' % (cid, service, ident,
                                                   version)
            v = [rs, rs, u'end'] if twice else rs
            r = mc.attempt(lambda: pyamf.encode(
                v, encoding=version).getvalue())
            if r[0] != 'ok':
                ctx.violation('records encode', '%s: %r' % (desc, r[1:]))
                continue
            data = r[1]
            if repr(view(rs)) != before:
                ctx.violation('records changed', '%s: encoding changed it' %
                              desc)
            # what another client reads
            s = amfspec.read_all(data, version)[0]
            wire(ctx, desc, s.items[0] if twice else s, cols, items, want)
            r = mc.attempt(lambda: list(pyamf.decode(
                data, encoding=version))[0])
            if r[0] != 'ok':
                ctx.violation('records decode', '%s: %r' % (desc, r[1:]))
                continue
            got = r[1]
            if twice:
                if len(got) != 3 or got[0] is not got[1] or got[2] != u'end':
                    ctx.violation('records shared', '%s: %r' % (desc, got))
                    continue
                got = got[0]
            if type(got) is not amf0.RecordSet or view(got) != want:
                ctx.violation('records', '%s arrives as %r, expected %r' % (
                    desc, mc.attempt(view, got), want))
                continue
            # and it can be sent on
            r = mc.attempt(lambda: view(list(pyamf.decode(pyamf.encode(
                got, encoding=version).getvalue(), encoding=version))[0]))
            if r[:2] != ('ok', want):
                ctx.violation('records again', '%s: sent on it arrives as %r'
                              % (desc, r[1:]))


def wire(ctx, desc, n, cols, items, want):
    if not isinstance(n, Node) or n.kind != 'typed' or n.name != u'RecordSet':
        ctx.violation('records wire', '%s is written as %r' % (desc, n))
        return
    d = dict(n.pairs)
    if d.keys() != [u'serverInfo']:
        ctx.violation('records wire', '%s has the attributes %r' % (
            desc, d.keys()))
        return
    info = dict((k, amfspec.canon(v)) for k, v in d[u'serverInfo'].pairs)
    total = Node('array')
    total.items = [amfspec.num(len(items)), amfspec.num(1), amfspec.num(1)]
    exp = amfspec.canon(total)[2]
    names = Node('array')
    names.items = [amfspec.text(c) for c in cols]
    ok = (info.get(u'totalCount'), info.get(u'cursor'),
          info.get(u'version')) == tuple(exp)
    ok = ok and info.get(u'columnNames') == amfspec.canon(names)
    ok = ok and len(info.get(u'initialData')[2]) == len(items)
    for key, x in ((u'serviceName', want[2] and want[2][u'name']),
                   (u'id', want[3])):
        if x is None:
            ok = ok and key not in info
        else:
            ok = ok and info.get(key) == ('s', x)
    if not ok:
        ctx.violation('records wire', '%s is written as %r' % (desc, info))


class Service(object):
    value = 5

    def hello(self, *args):
        return u'hello'

    def _hidden(self):
        return u'hidden'


NAMES = [u'', u'x', u'hello', u'hello ', u'Hello', u'value', u'_hidden',
         u'__class__', u'\xe9', u'_\xe9', u'\u20ac\u4e2d', u'hell\xf6', u'5',
         u'a b', u'hello\x00', u'"%s%d"', u'x' * 3000, u'\U0001f600']


def unknown(ctx):
    """Names of services, methods and headers that do not exist."""
    made = [('instance', Service()), ('class', Service),
            ('function', lambda *args: u'hello')]
    for (kind, svc), version, strict in itertools.product(
            made, (0, 3), (False, True)):
        gw = wsgi.WSGIGateway({'svc': svc, u'sv\xe9': svc}, strict=strict)
        for base, name in itertools.product(
                (u'svc', u'sv\xe9', u'no', u'n\xf8', None), NAMES):
            target = name if base is None else base + u'.' + name
            cid = 'name %s %d %s %r' % (kind, version, strict, target[:50])
            if not target or not ctx.mine(cid):
                continue
            want = answer_of(kind, base, name)
            ctx.state(cid)
            ctx.step()
            ctx.trace()
            env = remoting.Envelope(version)
            env[u'/1'] = remoting.Request(target, body=[])
            data = remoting.encode(env, strict=True).getvalue()
            environ = {'REQUEST_METHOD': 'POST',
                       'CONTENT_LENGTH': str(len(data)),
                       'wsgi.input': StringIO.StringIO(data)}
            r = mc.attempt(lambda: remoting.decode(
                ''.join(gw(environ, lambda *args: None))))
            got = None
            if r[0] == 'ok':
                b = r[1][u'/1'].body
                got = getattr(b, 'code', b)
            if got not in want:
                ctx.violation('unknown name', '%s: answered %r, expected one '
                              'of %r' % (cid, got or r, want))
    for a in NAMES:
        if not ctx.mine('header %r' % a[:50]):
            continue
        for b in NAMES:
            ctx.state(('header', a, b))
            ctx.step()
            h = remoting.HeaderCollection()
            h[a] = 1
            for f in (lambda: h[b], lambda: h.is_required(b),
                      lambda: h.set_required(b)):
                r = mc.attempt(f)
                if (r[0] == 'ok') != (a == b) or (
                        r[0] != 'ok' and not isinstance(r[2], KeyError)):
                    ctx.violation('unknown header', 'of %r: %r is %r' % (
                        a, b, r))


def answer_of(kind, base, name):
    """The codes (or the result) that may answer a call."""
    nothing = ['Service.ResourceNotFound']
    if base is None:
        # one word calls the service of that name
        return nothing
    if base in (u'no', u'n\xf8'):
        return nothing
    if name == u'hello' and kind != 'function':
        return [u'hello']
    if name.startswith(u'_'):
        return ['Service.MethodInvalid', 'Service.MethodNotFound']
    if name == u'value' and kind != 'function':
        return ['Service.MethodInvalid']
    if name == u'':
        return nothing + ['Service.MethodNotFound', 'Service.MethodInvalid']
    return ['Service.MethodNotFound']


def run(ctx):
    gs = globalstate.GlobalState()
    registry(ctx, gs)
    trips(ctx, gs)
    flex(ctx, gs)
    gs.restore()
    records(ctx)
    unknown(ctx)
    ctx.sample('register Own under two codes, remove the class, raise it')
    ctx.assume('exception classes can be made from one text; bytes that are '
               'not UTF-8 may be described in any way')
