"""C17: each client call receives its own result."""
import itertools
import StringIO
import struct
import sys
import urllib2

for _m in ('cpyamf', 'django', 'google', 'sqlalchemy', 'elixir'):
    sys.modules.setdefault(_m, None)

import pyamf
from pyamf import remoting
from pyamf.remoting import client

import amfspec
import globalstate
import mc
import packets

URL = 'http://example.org/gw'


class Mapped(Exception):
    pass


# ------------------------------------------------------------------ transport
class Info(object):
    def __init__(self, headers):
        self.headers = headers

    def getheader(self, name, default=None):
        for k, v in self.headers.items():
            if k.lower() == name.lower():
                return v
        return default

    get = getheader


class Handle(object):
    def __init__(self, data, headers):
        self.f = StringIO.StringIO(data)
        self.headers = Info(headers)
        self.code = 200

    def info(self):
        return self.headers

    def read(self, n=-1):
        return self.f.read(n)

    def getcode(self):
        return 200

    def close(self):
        pass


def utf(s):
    if isinstance(s, unicode):
        s = s.encode('utf-8')
    return struct.pack('>H', len(s)) + s


def value(v):
    if v is None:
        return '\x05'
    if isinstance(v, basestring):
        return '\x02' + utf(v)
    if isinstance(v, float):
        return '\x00' + struct.pack('>d', v)
    if isinstance(v, list):
        return '\x0a' + struct.pack('>L', len(v)) + ''.join(map(value, v))
    return '\x03' + ''.join([utf(k) + value(x) for k, x in sorted(
        v.items())]) + '\x00\x00\x09'


def packet(version, headers, answers):
    """answers: (id, status, value)."""
    r = struct.pack('>HH', version, len(headers))
    for k, v in headers:
        v = value(v)
        r += utf(k) + '\x00' + struct.pack('>L', len(v)) + v
    r += struct.pack('>H', len(answers))
    for name, status, v in answers:
        v = value(v)
        r += utf(name + packets.STATUS[status]) + utf('null') + \
            struct.pack('>L', len(v)) + v
    return r


class Server(object):
    """Records what it is sent; answers with what plan(bodies) says."""

    def __init__(self, strict=False):
        self.log = []
        self.plan = None
        self.strict = strict

    def open(self, req):
        version, headers, bodies, _ = packets.parse(req.get_data(),
                                                    self.strict)
        http = dict((k.lower(), v) for k, v in req.header_items())
        self.log.append((req.get_full_url() if req.get_type() else None,
                         version, sorted(headers), bodies, http,
                         req.get_host()))
        r = self.plan(bodies)
        if isinstance(r, Exception):
            raise r
        data, http = r
        h = {'Content-Type': 'application/x-amf'}
        h.update(http)
        return Handle(data, dict((k, v) for k, v in h.items()
                                 if v is not None))


def ids(bodies):
    return [b[2] for b in bodies]


def answer(i):
    return u'result of ' + i


def normal(version, order=None):
    def plan(bodies):
        names = ids(bodies)[::-1]
        data = packet(version, [], [(i, 0, answer(i)) for i in names])
        return data, {'Content-Length': str(len(data))}
    return plan


def args_canon(*args):
    return creds_canon(list(args))


def sent(version, args):
    return args_canon(*args)


def lit(s):
    """canonical form of a string in a request or header"""
    return creds_canon(s)


# ------------------------------------------------------------------ histories
class World(object):
    def __init__(self, version, strict):
        self.server = Server(strict)
        self.version = version
        self.server.plan = normal(version)
        self.gw = client.RemotingService(
            URL, version, opener=self.server.open, strict=strict,
            user_agent='UA', referer='REF')
        self.svc = [self.gw.getService('one', auto_execute=False),
                    self.gw.getService('two', auto_execute=False)]
        self.auto = self.gw.getService('auto')
        self.methods = [self.svc[0].m, self.svc[1]]
        self.made = []
        # model
        self.pending = []
        self.count = 0
        self.headers = {}
        self.http = {}

    def fail(self, ctx, sig, history, msg):
        ctx.violation('history:' + sig, 'AMF%d, after %r: %s' % (
            self.version, history, msg))
        return False

    def check_sent(self, ctx, history, want):
        """want: the model entries (id, target, args) of the last request"""
        s = self.server.log[-1]
        bodies = [('request', t, i, sent(self.version, a))
                  for i, t, a in want]
        if s[3] != bodies:
            return self.fail(ctx, 'bodies', history, 'sent bodies %r, '
                             'expected %r' % (s[3], bodies))
        headers = sorted([(unicode(k), r, lit(v))
                          for k, (v, r) in self.headers.items()])
        if s[2] != headers:
            return self.fail(ctx, 'headers', history, 'sent headers %r, '
                             'expected %r' % (s[2], headers))
        http = {'content-type': 'application/x-amf', 'user-agent': 'UA',
                'referer': 'REF'}
        http.update(self.http)
        if s[4] != http:
            return self.fail(ctx, 'http', history, 'sent HTTP headers %r, '
                             'expected %r' % (s[4], http))
        if s[0] != URL or s[1] != self.version:
            return self.fail(ctx, 'url', history, 'sent %r' % (s[:2],))
        return True

    def delivered(self, ctx, history, wrapper, i, response):
        if response.status != 0 or response.body != answer(i):
            return self.fail(ctx, 'answer', history, 'request %s received '
                             '%r' % (i, response))
        wrapper.setResponse(response)
        if wrapper.result != answer(i):
            return self.fail(ctx, 'result', history, 'request %s has result '
                             '%r' % (i, wrapper.result))
        return True

    def step(self, ctx, history, op):
        kind = op[0]
        n = len(self.server.log)
        if kind in ('add', 'add-raw'):
            _, which, arg = op
            args = () if arg is None else (arg,)
            if kind == 'add':
                w = self.methods[which](*args)
            else:
                w = self.gw.addRequest(self.methods[which], *args)
            self.count += 1
            target = (u'one.m', u'two')[which]
            if not hasattr(w, 'id') or w.id != '/%d' % self.count:
                return self.fail(ctx, 'add', history, 'got %r' % (w,))
            self.pending.append((w, u'/%d' % self.count, which, target, args))
            self.made.append(w)
        elif kind == 'remove':
            # by the call object
            if op[1] < len(self.made):
                w = self.made[op[1]]
                r = mc.attempt(self.gw.removeRequest, w)
                known = [p for p in self.pending if p[0] is w]
                if (r[0] == 'ok') != bool(known) or \
                        not known and r[1] != 'LookupError':
                    return self.fail(ctx, 'remove', history, '%r' % (r,))
                self.pending = [p for p in self.pending if p[0] is not w]
        elif kind == 'remove-by':
            # by service and arguments: the oldest
            _, which, arg = op
            args = () if arg is None else (arg,)
            m = self.methods[which]
            known = [p for p in self.pending if p[0].service == m and
                     p[0].args == args]
            r = mc.attempt(self.gw.removeRequest, m, *args)
            if (r[0] == 'ok') != bool(known) or \
                    not known and r[1] != 'LookupError':
                return self.fail(ctx, 'remove-by', history, '%r' % (r,))
            if known:
                self.pending = [p for p in self.pending
                                if p is not known[0]]
        elif kind == 'execute':
            if not self.pending:
                return True
            r = self.gw.execute()
            todo = self.pending
            self.pending = []
            if len(self.server.log) != n + 1:
                return self.fail(ctx, 'requests', history, 'no request')
            if not self.check_sent(ctx, history, [p[1:2] + p[3:]
                                                  for p in todo]):
                return False
            if sorted(r.keys()) != sorted([p[1] for p in todo]):
                return self.fail(ctx, 'keys', history, '%r' % (r.keys(),))
            for p in todo:
                if not self.delivered(ctx, history, p[0], p[1], r[p[1]]):
                    return False
        elif kind == 'single':
            if self.pending:
                p = self.pending[op[1]]
                r = self.gw.execute_single(p[0])
                self.pending = [q for q in self.pending if q is not p]
                if len(self.server.log) != n + 1:
                    return self.fail(ctx, 'requests', history, 'no request')
                if not self.check_sent(ctx, history, [p[1:2] + p[3:]]) or \
                        not self.delivered(ctx, history, p[0], p[1], r):
                    return False
        elif kind == 'auto':
            r = self.auto.go(u'z')
            self.count += 1
            i = u'/%d' % self.count
            if not self.check_sent(ctx, history, [(i, u'auto.go', (u'z',))]):
                return False
            if r != answer(i):
                return self.fail(ctx, 'auto', history, 'call %s returned %r'
                                 % (i, r))
        elif kind == 'header':
            self.gw.addHeader(op[1], op[2], op[3])
            self.headers[op[1]] = (op[2], op[3])
        elif kind == 'unheader':
            if op[1] in self.headers:
                del self.gw.headers[op[1]]
                del self.headers[op[1]]
        elif kind == 'http':
            self.gw.addHTTPHeader(op[1], op[2])
            self.http[op[1].lower()] = op[2]
        elif kind == 'unhttp':
            r = mc.attempt(self.gw.removeHTTPHeader, op[1])
            if (r[0] == 'ok') != (op[1].lower() in self.http):
                return self.fail(ctx, 'unhttp', history, '%r' % (r,))
            self.http.pop(op[1].lower(), None)
        if [p[1] for p in self.pending] != [r.id for r in self.gw.requests]:
            return self.fail(ctx, 'queue', history, 'queue is %r' % (
                [r.id for r in self.gw.requests],))
        for p in self.pending:
            if self.gw.getRequest(p[1]) is not p[0]:
                return self.fail(ctx, 'lookup', history, 'getRequest(%r)' % (
                    p[1],))
        return True


OPS = [('add', 0, u'a'), ('add-raw', 0, u'a'), ('add', 1, None),
       ('remove', 0), ('remove', 1), ('remove-by', 0, u'a'),
       ('execute',), ('single', 0), ('single', -1), ('auto',),
       ('header', 'H', u'v', True), ('header', 'H', u'w', False),
       ('unheader', 'H'), ('http', 'X-a', 'b'), ('unhttp', 'X-a')]


def histories(ctx):
    depth = 5 if ctx.thorough else 4
    ctx.bound('depth of client histories', depth)
    # the deepest level leaves out operations that are alike
    core = OPS if ctx.thorough else [o for o in OPS if o[0] not in (
        'add-raw', 'http', 'unhttp')]
    for version in (0, 3):
        for ops, n in ((OPS, depth - 1), (core, depth)):
            for head in mc.seqs(ops, 2):
                if not ctx.mine('history/%d/%d/%r' % (version, n, head)):
                    continue
                for tail in mc.seqs(ops, n - 2):
                    run_history(ctx, version, head + tail)


def run_history(ctx, version, history):
    w = World(version, version == 3)
    # what is sent after everything is part of the outcome
    for op in history + (('add', 1, u'end'), ('execute',), ('auto',)):
        ctx.step()
        r = mc.attempt(w.step, ctx, history, op)
        if r[0] != 'ok':
            w.fail(ctx, 'raise', history, '%r raised %r' % (op, r[1:]))
            return
        if not r[1]:
            return
    ctx.trace()
    ctx.state(('history', version, tuple([p[1:] for p in w.pending]),
               tuple(sorted(w.headers.items())), w.count,
               tuple(len(e[3]) for e in w.server.log)))


# -------------------------------------------------------------------- answers
def fault(code, description, level=None):
    d = {u'code': code, u'description': description, u'type': u'T',
         u'details': u''}
    if level:
        d[u'level'] = level
    return d


ANSWERS = {
    'result': (0, u'VAL', ('ok', u'VAL')),
    'null': (0, None, ('ok', None)),
    'mapped': (1, fault(u'My.Code', u'text', u'error'), ('exc', 'Mapped',
                                                         u'text')),
    'unmapped': (1, fault(u'Other', u't\xe9', u'error'), (
        'exc', 'RemotingError', u't\xe9')),
    'bare': (1, fault(u'My.Code', u'text'), ('exc', 'Mapped', u'text')),
    'warning': (1, fault(u'My.Code', u'text', u'status'), ('exc', 'Mapped',
                                                           u'text')),
    'odd': (1, u'no fault object', ('exc', 'RemotingError', None)),
    'nullfault': (1, None, ('exc', 'RemotingError', None)),
    'faultlike': (0, {u'code': u'My.Code', u'level': u'error'}, ('ok', None)),
}


def outcome(f):
    try:
        return ('ok', f())
    except Exception, e:
        return ('exc', e.__class__.__name__,
                e.args[0] if e.args else None)


def agree(got, want, i):
    if want is None:
        return got[0] == 'exc'
    if want[0] == 'ok':
        if got[0] != 'ok':
            return False
        if want[1] == u'VAL':
            return got[1] == u'VAL' + i
        return want[1] is not None or isinstance(got[1], dict) or \
            got[1] is None
    return got[:2] == want[:2] and (want[2] is None or got[2] == want[2])


def entry(i, kind):
    status, v, want = ANSWERS[kind]
    if v == u'VAL':
        v = v + i
    return (i, status, v)


def client_for(version, **kw):
    s = Server()
    gw = client.RemotingService(URL, version, opener=s.open, **kw)
    return s, gw


def batches(ctx):
    """Every order, omission and outcome of the answers to a batch."""
    maxn = 3
    kinds = sorted(ANSWERS) if ctx.thorough else \
        ['faultlike', 'mapped', 'null', 'odd', 'result', 'unmapped']
    ctx.bound('requests in a batch', maxn)
    extras = [None, 'foreign', 'debug-before', 'debug-after']
    for n in range(1, maxn + 1):
        ks = sorted(ANSWERS) if n < 3 else kinds
        for version in (0, 3):
            for outcomes in itertools.product([None] + ks, repeat=n):
                if not ctx.mine('batch/%d/%r' % (version, outcomes)):
                    continue
                present = [i for i in range(n) if outcomes[i]]
                for order in itertools.permutations(present):
                    for extra in extras:
                        for strict in (False, True):
                            if strict and extra:
                                continue
                            batch(ctx, version, outcomes, order, extra,
                                  strict)


def batch(ctx, version, outcomes, order, extra, strict):
    s, gw = client_for(version, strict=strict)

    def plan(bodies):
        names = ids(bodies)
        a = [entry(names[i], outcomes[i]) for i in order]
        if extra == 'foreign':
            a.insert(0, entry(u'/99', 'result'))
        elif extra == 'debug-before':
            a[:0] = [(i, 2, [u'debug']) for i in names]
        elif extra == 'debug-after':
            a.extend([(i, 2, [u'debug']) for i in names])
        data = packet(version, [], a)
        return data, {'Content-Length': str(len(data))}
    s.plan = plan
    svc = gw.getService('svc', auto_execute=False)
    calls = [svc.m(u'x') for o in outcomes]
    ctx.step()
    ctx.trace()
    ctx.state(('batch', version, outcomes, order, extra))
    what = 'AMF%d batch answered with %r in order %r with extra %s' % (
        version, outcomes, order, extra)
    r = mc.attempt(gw.execute)
    if r[0] != 'ok':
        ctx.violation('batch:raise', '%s: execute raised %r' % (what, r[1:]))
        return
    for c, o in zip(calls, outcomes):
        if o is None:
            if extra in ('debug-before', 'debug-after'):
                continue
            if c.id in r[1] or mc.attempt(r[1].__getitem__,
                                          c.id)[0] == 'ok':
                ctx.violation('batch:invented', '%s: %s has an answer' % (
                    what, c.id))
            continue

        def deliver():
            c.setResponse(r[1][c.id])
            return c.result
        got = outcome(deliver)
        if not agree(got, ANSWERS[o][2], c.id):
            ctx.violation('batch:' + o, '%s: call %s gets %r, expected %r' % (
                what, c.id, got, ANSWERS[o][2]))


def autos(ctx):
    """Calls that execute at once, and every damage of their answers."""
    for version in (0, 3):
        for strict in (False, True):
            for kind in sorted(ANSWERS):
                for zipped in (False, True):
                    for length in (False, True):
                        if not ctx.mine('auto/%r' % ((version, strict, kind,
                                                      zipped, length),)):
                            continue
                        auto(ctx, version, strict, kind, zipped, length)
            if ctx.mine('transport/%d/%s' % (version, strict)):
                transport(ctx, version, strict)


def gz(data):
    import gzip
    f = StringIO.StringIO()
    g = gzip.GzipFile(fileobj=f, mode='wb', compresslevel=6)
    g.write(data)
    g.close()
    return f.getvalue()


def auto(ctx, version, strict, kind, zipped, length):
    want = ANSWERS[kind][2]

    def call(mangle, allowed, what, mid=None):
        s, gw = client_for(version, strict=strict)

        def plan(bodies):
            i = ids(bodies)[0]
            if mid is not None:
                i = mid
            data = packet(version, [], [entry(i, kind)])
            h = {}
            if zipped:
                data = gz(data)
                h['Content-Encoding'] = 'gzip'
            if length:
                h['Content-Length'] = str(len(data))
            d = mangle(data, h)
            if d is None:
                return None
            return d, h
        s.plan = plan
        svc = gw.getService('svc')
        ctx.step()
        ctx.trace()
        got = outcome(lambda: svc.m(u'x'))
        if not [1 for w in allowed if agree(got, w, u'/1')]:
            ctx.violation('auto:%s:%s' % (kind, what[0]), 'AMF%d strict=%s '
                          'gzip=%s length=%s %s answer, %r: the call gives '
                          '%r, allowed %r' % (version, strict, zipped, length,
                                              kind, what, got, allowed))
        # the client is usable afterwards, and has nothing left over
        s.plan = normal(version)
        got = outcome(lambda: svc.m(u'x'))
        if got != ('ok', answer(u'/2')) or gw.requests or \
                ids(s.log[-1][3]) != [u'/2']:
            ctx.violation('auto:after', 'AMF%d after a %s answer with %r: the '
                          'next call gives %r' % (version, kind, what, got))
        ctx.state(('auto', version, strict, kind, zipped, length, what))

    call(lambda d, h: d, [want], ('whole',))
    full = len(packet(version, [], [entry(u'/1', kind)]))
    size = [0]

    def measure(d, h):
        size[0] = len(d)
        return d
    call(measure, [want], ('whole',))
    raised = [None]
    for n in range(size[0]):
        # compressed data may be complete before its checksum
        call(lambda d, h: d[:n], raised if not zipped else [None, want],
             ('cut', n))
        if length:
            def shorter(d, h):
                h['Content-Length'] = str(n)
                return d
            call(shorter, raised if not zipped else [None, want],
                 ('length', n))
    for mid in (u'/2', u'1', u'', u'/1/', u'/11', u'/1/onResult', u'null'):
        call(lambda d, h: d, raised, ('id', mid), mid)
    if not zipped:
        call(lambda d, h: d + 'x', raised if strict and not length
             else [want, None],
             ('trailing',))


def transport(ctx, version, strict):
    whole = packet(version, [], [(u'/1', 0, u'VAL/1')])
    cases = [
        ('urlerror', urllib2.URLError('gone'), None),
        ('httperror', urllib2.HTTPError(URL, 500, 'no', {}, None), None),
        ('type', (whole, {'Content-Type': 'text/html'}), None),
        ('type2', (whole, {'Content-Type': 'application/x-amf2'}), None),
        ('notype', (whole, {'Content-Type': None}), None),
        ('charset', (whole, {'Content-Type':
                             'application/x-amf; charset=x'}), u'VAL/1'),
        ('nolength', (whole, {}), u'VAL/1'),
        ('emptylength', (whole, {'Content-Length': ''}), u'VAL/1'),
        ('empty', ('', {}), None),
        ('nogzip', (whole, {'Content-Encoding': 'gzip'}), None),
        ('request', (packets_request(version), {}), None),
    ]
    for name, plan, want in cases:
        for logger in (None, Log()):
            s, gw = client_for(version, strict=strict, logger=logger)
            s.plan = lambda bodies: plan
            ctx.step()
            ctx.trace()
            svc = gw.getService('svc')
            got = outcome(lambda: svc.m(u'x'))
            ctx.outcome((name, got[:2]))
            if want is None and got[0] != 'exc' or \
                    want is not None and got != ('ok', want):
                ctx.violation('transport:' + name, 'AMF%d strict=%s: the call '
                              'gives %r' % (version, strict, got))
            if name in ('urlerror', 'httperror', 'type', 'type2') and \
                    got[1] != 'RemotingError':
                ctx.violation('transport:' + name, 'AMF%d strict=%s: raises '
                              '%r instead of RemotingError' % (version, strict,
                                                               got))
            s.plan = normal(version)
            got = outcome(lambda: svc.m(u'x'))
            if got != ('ok', answer(u'/2')):
                ctx.violation('transport:after', 'after %s the next call gives'
                              ' %r' % (name, got))


class Log(object):
    def debug(self, msg, *args):
        msg % args

    info = warn = warning = error = exception = debug


def packets_request(version):
    r = struct.pack('>HHH', version, 0, 1)
    v = value([u'x'])
    return r + utf('svc.m') + utf('/1') + struct.pack('>L', len(v)) + v


# ------------------------------------------------- headers sent by the server
def server_headers(ctx):
    """Redirections and persistent headers apply from the next request."""
    ops = [None, ('AppendToGatewayUrl', u'?s=1'),
           ('AppendToGatewayUrl', u'/b'),
           ('ReplaceGatewayUrl', u'https://other.org/x'),
           ('ReplaceGatewayUrl', u'http://third.org/y?z'),
           ('RequestPersistentHeader', {u'p': u'1'}),
           ('RequestPersistentHeader', {u'p': u'2', u'q': u'3'}),
           ('Unrelated', u'x')]
    depth = 4 if ctx.thorough else 3
    ctx.bound('depth of server header histories', depth)
    for version in (0, 3):
        for creds in (None, ('u', 'p'), (u'u\xe9', u'\u20ac'),
                      ('u\xc3\xa9', '\xe2\x82\xac')):
            for proxy in (False, True):
                for history in mc.seqs(ops, depth):
                    if (creds or proxy) and len(set(map(freeze, history))) < depth and \
                            not ctx.thorough:
                        continue
                    if not ctx.mine('server/%d/%r/%s/%r' % (
                            version, creds, proxy, history)):
                        continue
                    server_history(ctx, version, creds, proxy, history)


def freeze(h):
    return (h[0], tuple(sorted(h[1].items()))) if h and \
        isinstance(h[1], dict) else h


def server_history(ctx, version, creds, proxy, history):
    s, gw = client_for(version)
    url = URL
    headers = {}
    if creds:
        gw.setCredentials(*creds)
        u = [x if isinstance(x, unicode) else x.decode('utf-8')
             for x in creds]
        headers[u'Credentials'] = (dict(userid=u[0], password=u[1]), True)
    if proxy:
        gw.setProxy('proxy.net:3128')
    svc = gw.getService('svc')
    for step, h in enumerate(history + (None,)):
        def plan(bodies):
            data = packet(version, [h] if h else [],
                          [(i, 0, answer(i)) for i in ids(bodies)])
            return data, {}
        s.plan = plan
        ctx.step()
        got = outcome(lambda: svc.m(u'x'))
        i = u'/%d' % (step + 1)
        if got != ('ok', answer(i)):
            ctx.violation('server:answer', '%r: call %s gives %r' % (
                history, i, got))
            return
        e = s.log[-1]
        want = []
        for k, (v, r) in headers.items():
            if isinstance(v, dict):
                n = creds_canon(v)
            else:
                n = lit(v)
            want.append((k, r, n))
        if e[2] != sorted(want):
            ctx.violation('server:headers', '%r: request %s carries headers '
                          '%r, expected %r' % (history, i, e[2],
                                               sorted(want)))
            return
        if e[0] != url or e[5] != ('proxy.net:3128' if proxy else
                                   url.split('/')[2]):
            ctx.violation('server:url', '%r: request %s goes to %r via %r, '
                          'expected %r' % (history, i, e[0], e[5], url))
            return
        if h:
            if h[0] == 'AppendToGatewayUrl':
                url += h[1]
            elif h[0] == 'ReplaceGatewayUrl':
                url = h[1]
            elif h[0] == 'RequestPersistentHeader':
                for k, v in h[1].items():
                    headers[k] = (v, headers.get(k, (0, False))[1])
    ctx.trace()
    ctx.state(('server', version, creds, proxy,
               tuple(map(freeze, history))))


def creds_canon(v):
    c = amfspec.Cursor(value(v))
    return amfspec.canon(amfspec.Amf0Reader(c).value())


def run(ctx):
    gs = globalstate.GlobalState()
    pyamf.add_error_class(Mapped, 'My.Code')
    histories(ctx)
    batches(ctx)
    autos(ctx)
    server_headers(ctx)
    gs.restore()
    ctx.assume('a packet answers a request at most once, apart from debug '
               'information')
    ctx.assume('the transport is a stand-in for urllib2.urlopen')
