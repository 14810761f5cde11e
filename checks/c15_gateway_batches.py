"""C15: every request of a batch is answered exactly once, in isolation."""
import logging
import os
import StringIO
import sys
import types

for _m in ('cpyamf', 'google', 'sqlalchemy', 'elixir'):
    sys.modules.setdefault(_m, None)

import pyamf
from pyamf import remoting
from pyamf.flex import messaging
from pyamf.remoting.gateway import wsgi

import amfspec
import globalstate
import mc
import packets

ACK = u'flex.messaging.messages.AcknowledgeMessage'
ERR = u'flex.messaging.messages.ErrorMessage'


# ------------------------------------------------------------- the service
class Coded(Exception):
    _amf_code = 'Custom.Code'


class Unprintable(Exception):
    def __str__(self):
        raise RuntimeError('no text')
    __unicode__ = __repr__ = __str__


class Holder(Exception):
    """Carries something that cannot be encoded."""


class Old:
    """A class of its own that is raised, as Python 2 allows."""

    def __init__(self, *args):
        self.args = args


class OldCoded(Old):
    _amf_code = 'Old.Code'


class BadState(object):
    def __getstate__(self):
        raise ValueError('no state')

    @property
    def x(self):
        raise ValueError('no attribute')


class Svc(object):
    def __init__(self, log):
        self.log = log

    def echo(self, x):
        self.log.append(('echo', x))
        return x

    def none(self):
        self.log.append(('none',))

    def pair(self, x, y):
        self.log.append(('pair', x, y))
        return [x, y][0]

    def _private(self, x=None):
        self.log.append(('private',))
        return x

    def value(self, x):
        self.log.append(('value', x))
        raise ValueError('bad value')

    def bytes(self, x):
        self.log.append(('bytes', x))
        raise ValueError('\xff\xfe')

    def uni(self, x):
        self.log.append(('uni', x))
        raise ValueError(u'\u20ac')

    def coded(self, x):
        self.log.append(('coded', x))
        raise Coded('msg')

    def unprintable(self, x):
        self.log.append(('unprintable', x))
        raise Unprintable('a')

    def old(self, x):
        self.log.append(('old', x))
        raise Old('msg')

    def oldcoded(self, x):
        self.log.append(('oldcoded', x))
        raise OldCoded()

    def noargs(self, x):
        self.log.append(('noargs', x))
        raise Coded()

    def holder(self, x):
        self.log.append(('holder', x))
        e = Holder('holds')
        e.what = amfspec
        raise e

    def module(self, x):
        self.log.append(('module', x))
        return amfspec

    def deep(self, x):
        self.log.append(('deep', x))
        return [1, {u'a': [u'text', Svc]}]

    def badstate(self, x):
        self.log.append(('badstate', x))
        return BadState()

    def gen(self, x):
        self.log.append(('gen', x))

        def g():
            yield x
            yield x
        return g()

    def boom(self, x):
        self.log.append(('boom', x))

        def g():
            yield 1
            raise ValueError('while encoding')
        return [g()]

    notcallable = 5


# ---------------------------------------------------------------- requests
# kind: (form, what to send, expected call or None, expected outcome)
def k0(target, args, call, outcome):
    return ('amf0', target, args, call, outcome)


def k3(make, call, outcome, target=u'null'):
    return ('amf3', target, make, call, outcome)


def rm(op, dest=u'svc', **kw):
    def make(i, x):
        m = messaging.RemotingMessage()
        m.messageId = u'M%d' % i
        m.operation = op
        m.destination = dest
        m.body = [x]
        for k, v in kw.items():
            setattr(m, k, v)
        return [m]
    return make


def cm(operation):
    def make(i, x):
        m = messaging.CommandMessage()
        m.messageId = u'M%d' % i
        m.operation = operation
        return [m]
    return make


def raw(*body):
    def make(i, x):
        return list(body)
    return make


def am(i, x):
    m = messaging.AsyncMessage()
    m.messageId = u'M%d' % i
    return [m]


OK = 'ok'
KINDS = {
    'echo': k0(u'svc.echo', ('x',), 'echo', OK),
    'none': k0(u'svc.none', (), 'none', None),
    'pair': k0(u'svc.pair', ('x', 'x'), 'pair', OK),
    'func': k0(u'func', ('x',), 'func', OK),
    'gen': k0(u'svc.gen', ('x',), 'gen', 'gen'),
    'nosvc': k0(u'nope.echo', ('x',), None, 'Service.ResourceNotFound'),
    'nosvc-uni': k0(u'\u20ac', ('x',), None, 'Service.ResourceNotFound'),
    'nometh': k0(u'svc.nope', ('x',), None, 'Service.MethodNotFound'),
    'nometh-uni': k0(u'svc.\xe9', ('x',), None, Exception),
    'private': k0(u'svc._private', (), None, 'Service.MethodInvalid'),
    'notcall': k0(u'svc.notcallable', (), None, 'Service.MethodInvalid'),
    'args0': k0(u'svc.echo', (), None, 'TypeError'),
    'args2': k0(u'svc.echo', ('x', 'x'), None, 'TypeError'),
    'value': k0(u'svc.value', ('x',), 'value', 'ValueError'),
    'bytes': k0(u'svc.bytes', ('x',), 'bytes', 'ValueError'),
    'uni': k0(u'svc.uni', ('x',), 'uni', 'ValueError'),
    'coded': k0(u'svc.coded', ('x',), 'coded', 'Custom.Code'),
    'noargs': k0(u'svc.noargs', ('x',), 'noargs', 'Custom.Code'),
    'unprintable': k0(u'svc.unprintable', ('x',), 'unprintable',
                      'Unprintable'),
    'old': k0(u'svc.old', ('x',), 'old', 'Old'),
    'oldcoded': k0(u'svc.oldcoded', ('x',), 'oldcoded', 'Old.Code'),
    'holder': k0(u'svc.holder', ('x',), 'holder', 'Holder'),
    'module': k0(u'svc.module', ('x',), 'module', Exception),
    'deep': k0(u'svc.deep', ('x',), 'deep', Exception),
    'badstate': k0(u'svc.badstate', ('x',), 'badstate', Exception),
    'boom': k0(u'svc.boom', ('x',), 'boom', Exception),

    'r-echo': k3(rm(u'echo'), 'echo', OK),
    'r-empty-target': k3(rm(u'echo'), 'echo', OK, u''),
    'r-nodest': k3(rm(u'svc.echo', None), 'echo', OK),
    'r-gen': k3(rm(u'gen'), 'gen', 'gen'),
    'r-nosvc': k3(rm(u'echo', u'nope'), None, 'Service.ResourceNotFound'),
    'r-nometh': k3(rm(u'nope'), None, 'Service.MethodNotFound'),
    'r-private': k3(rm(u'_private'), None, 'Service.MethodInvalid'),
    'r-value': k3(rm(u'value'), 'value', 'ValueError'),
    'r-bytes': k3(rm(u'bytes'), 'bytes', 'ValueError'),
    'r-uni': k3(rm(u'uni'), 'uni', 'ValueError'),
    'r-coded': k3(rm(u'coded'), 'coded', 'Custom.Code'),
    'r-noargs': k3(rm(u'noargs'), 'noargs', 'Custom.Code'),
    'r-unprintable': k3(rm(u'unprintable'), 'unprintable', 'Unprintable'),
    'r-old': k3(rm(u'old'), 'old', 'Old'),
    'r-oldcoded': k3(rm(u'oldcoded'), 'oldcoded', 'Old.Code'),
    'r-holder': k3(rm(u'holder'), 'holder', Exception),
    'r-module': k3(rm(u'module'), 'module', Exception),
    'r-badstate': k3(rm(u'badstate'), 'badstate', Exception),
    'r-boom': k3(rm(u'boom'), 'boom', Exception),
    'r-noop': k3(rm(None), None, Exception),
    'r-numop': k3(rm(5), None, Exception),
    'r-nobody': k3(rm(u'echo', body=None), None, Exception),
    'r-args0': k3(rm(u'echo', body=[]), None, 'TypeError'),
    'r-nohead': k3(rm(u'echo', headers=None), 'echo', OK),
    'r-oddhead': k3(rm(u'echo', headers=[1]), 'echo', OK),
    'r-dsid': k3(rm(u'echo', headers={'DSId': u'D'}), 'echo', OK),
    'ping': k3(cm(5), None, True),
    'logout': k3(cm(12), None, None),
    'login': k3(cm(8), None, 'Server.Call.Failed'),
    'badcmd': k3(cm(77), None, 'Server.Call.Failed'),
    'nocmd': k3(cm(None), None, 'Server.Call.Failed'),
    'async': k3(am, None, True),
    'x-empty': k3(raw(), None, Exception),
    'x-null': k3(raw(None), None, Exception),
    'x-int': k3(raw(5), None, Exception),
    'x-list': k3(raw([1]), None, Exception),
    'x-dict': k3(raw({u'messageId': 5}), None, Exception),
}
NAMES = sorted(KINDS)
# one of each way a request can end
CORE = ['echo', 'gen', 'nosvc', 'private', 'bytes', 'unprintable', 'module',
        'boom', 'old', 'r-echo', 'r-bytes', 'r-holder', 'r-noop', 'x-empty', 'async']


def arg(i):
    return u'value %d' % i


def build(names, version, ids):
    env = remoting.Envelope(version)
    for i, n in enumerate(names):
        k = KINDS[n]
        if k[0] == 'amf0':
            body = [arg(i) for x in k[2]]
        else:
            body = k[2](i, arg(i))
        r = remoting.Request(k[1], body=body)
        r.envelope = env
        env.bodies.append((ids[i], r))
    return env


# ---------------------------------------------------------------- front ends
def services(log):
    def func(x):
        log.append(('func', x))
        return x
    return {'svc': Svc(log), 'func': func}


def logger():
    l = logging.Logger('c15')

    class H(logging.Handler):
        def emit(self, record):
            record.getMessage()
    l.addHandler(H())
    return l


_django = []


def django():
    if not _django:
        m = types.ModuleType('c15_settings')
        m.SECRET_KEY = 'k'
        sys.modules['c15_settings'] = m
        os.environ['DJANGO_SETTINGS_MODULE'] = 'c15_settings'
        from django import http
        from pyamf.remoting.gateway import django as dj
        _django.append((http, dj))
    return _django[0]


_google = []


class RequestHandler(object):
    """What the webapp framework of App Engine offers to its handlers."""

    def initialize(self, request, response):
        self.request = request
        self.response = response

    def error(self, code):
        self.response.status = code
        self.response.out.truncate(0)


class Bag(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


def google():
    if not _google:
        parent = None
        for name in ('google', 'google.appengine', 'google.appengine.ext',
                     'google.appengine.ext.webapp'):
            m = sys.modules[name] = types.ModuleType(name)
            m.__path__ = []
            if parent:
                setattr(parent, name.split('.')[-1], m)
            parent = m
        m.RequestHandler = RequestHandler
        from pyamf.remoting.gateway import google as g
        _google.append(g)
    return _google[0]


class Front(object):
    def __init__(self, kind, log, **kw):
        self.kind = kind
        if kind == 'wsgi':
            self.gw = wsgi.WSGIGateway(services(log), **kw)
        elif kind == 'google':
            self.gw = google().WebAppGateway(services(log), **kw)
        else:
            self.http, dj = django()
            self.gw = dj.DjangoGateway(services(log), expose_request=False,
                                       **kw)

    def post(self, data):
        """(status code, headers, body)."""
        if self.kind == 'wsgi':
            out = []

            def start(status, headers, exc_info=None):
                out.append((int(status.split()[0]), dict(headers)))
            env = {'REQUEST_METHOD': 'POST', 'CONTENT_LENGTH': str(len(data)),
                   'wsgi.input': StringIO.StringIO(data)}
            body = ''.join(self.gw(env, start))
            if len(out) != 1:
                return 0, {}, 'start_response called %d times' % len(out)
            return out[0][0], out[0][1], body
        if self.kind == 'google':
            h = self.gw()
            resp = Bag(status=200, headers={}, out=StringIO.StringIO())
            h.initialize(Bag(body=data, method='POST'), resp)
            h.post()
            return resp.status, resp.headers, resp.out.getvalue()
        r = self.http.HttpRequest()
        r.method = 'POST'
        r._stream = StringIO.StringIO(data)
        r._read_started = False
        resp = self.gw(r)
        return resp.status_code, dict(resp.items()), resp.content


def fields(c):
    return dict(c[3])


def text(v):
    return ('s', v)


def judge(body, i, name, idd, version):
    """None or what is wrong with the i-th response."""
    k = KINDS[name]
    outcome = k[4]
    fault = isinstance(outcome, str) and outcome not in (OK, 'gen') or \
        outcome is Exception
    if body[0] != 'response':
        return 'is no response'
    if body[1] != idd:
        return 'has identifier %r, not %r' % (body[1], idd)
    if body[2] != (1 if fault else 0):
        return 'has status %r' % (body[2],)
    v = body[3]
    if k[0] == 'amf3':
        if v[0] != 'typed' or v[2] != (ERR if fault else ACK):
            return 'is %r' % (v[:3],)
        f = fields(v)
        if not name.startswith('x-') and \
                f.get(u'correlationId') != text(u'M%d' % i):
            return 'correlates to %r' % (f.get(u'correlationId'),)
        if fault:
            if outcome is not Exception and \
                    f.get(u'faultCode') != text(outcome.decode('ascii')):
                return 'has fault code %r' % (f.get(u'faultCode'),)
            return None
        v = f.get(u'body')
    elif fault:
        if v[0] != 'obj':
            return 'is %r' % (v,)
        f = dict(v[2])
        if outcome is not Exception and \
                f.get(u'code') != text(outcome.decode('ascii')):
            return 'has fault code %r' % (f.get(u'code'),)
        return None
    if outcome == OK:
        want = text(arg(i))
    elif outcome == 'gen':
        if v[0] != 'array' or v[2] != (text(arg(i)), text(arg(i))):
            return 'is %r' % (v,)
        return None
    elif outcome is True:
        want = ('b', True)
    else:
        want = ('null',)
    if v != want:
        return 'is %r, not %r' % (v, want)


def calls(names):
    out = []
    for i, n in enumerate(names):
        k = KINDS[n]
        if k[3]:
            out.append((k[3],) + tuple([arg(i)] * (
                len(k[2]) if k[0] == 'amf0' else 1)))
    return out


def run_batch(ctx, front, log, data, names, ids, version, what):
    del log[:]
    ctx.step(len(names))
    ctx.trace()
    r = mc.attempt(front.post, data)
    desc = 'batch %r (ids %r, AMF%d, %s)' % (names, ids, version, what)
    if r[0] != 'ok':
        ctx.violation('raise', '%s: the gateway raised %r' % (desc, r[1:]))
        return
    status, headers, body = r[1]
    if status != 200:
        ctx.violation('status', '%s: answered with status %d %r' % (
            desc, status, body[:400]))
        return
    try:
        v, hs, bodies, _ = packets.parse(body, front.gw.strict)
    except amfspec.SpecError, e:
        ctx.violation('packet', '%s: the response %r is no packet: %s' % (
            desc, body, e))
        return
    if str(headers.get('Content-Length')) != str(len(body)):
        ctx.violation('headers', '%s: Content-Length %r of %d' % (
            desc, headers, len(body)))
    if v != version or len(bodies) != len(names):
        ctx.violation('count', '%s: version %d with %d responses' % (
            desc, v, len(bodies)))
        return
    for i, n in enumerate(names):
        e = judge(bodies[i], i, n, ids[i], version)
        if e:
            ctx.violation('answer:' + n, '%s: answer %d (to %s) %s' % (
                desc, i, n, e))
    if log != calls(names):
        ctx.violation('calls', '%s: calls %r, expected %r' % (
            desc, log, calls(names)))


IDS = [u'/1', u'/2', u'/3', u'/4']


def batches(ctx, gs):
    configs = [('wsgi', dict(strict=s, debug=d, logger=l))
               for s in (False, True) for d in (False, True)
               for l in (False, True)]
    configs += [(kind, dict(strict=s, debug=d, logger=False))
                for kind in ('google', 'django')
                for s in (False, True) for d in (False, True)]
    ctx.bound('kinds of requests', len(KINDS))
    ctx.bound('gateway configurations', len(configs))
    maxn = 4 if ctx.thorough else 3
    ctx.bound('requests per batch', maxn)

    def fronts(which):
        for kind, kw in which:
            log = []
            kw = dict(kw)
            if kw['logger']:
                kw['logger'] = logger()
            else:
                kw.pop('logger')
            yield kind, kw, log, Front(kind, log, **kw)

    for version in (0, 3):
        for n in NAMES:
            if ctx.mine('one/%d/%s' % (version, n)):
                ctx.state((version, n))
                for kind, kw, log, f in fronts(configs):
                    for idd in (u'/1', u'', u'r\xe9', u'/1/onResult'):
                        data = remoting.encode(build(
                            [n], version, [idd]), strict=True).getvalue()
                        run_batch(ctx, f, log, data, [n], [idd], version,
                                  '%s %r' % (kind, sorted(kw)))
        for a in NAMES:
            if not ctx.mine('two/%d/%s' % (version, a)):
                continue
            two = configs if ctx.thorough else [configs[3], configs[-2],
                                                   configs[-6]]
            for kind, kw, log, f in fronts(two):
                for b in NAMES:
                    ctx.alive()
                    for ids in ((u'/1', u'/2'), (u'/1', u'/1')):
                        if ids[0] == ids[1] and not ctx.thorough and not (
                                a in CORE and b in CORE):
                            continue
                        ctx.state((version, a, b, ids))
                        data = remoting.encode(build(
                            [a, b], version, ids), strict=True).getvalue()
                        run_batch(ctx, f, log, data, [a, b], ids, version,
                                  '%s %r' % (kind, sorted(kw)))
        for n in range(3, maxn + 1):
            core = CORE if n == 3 else CORE[::2]
            for head in mc.seqs(core, n - 1):
                if not ctx.mine('many/%d/%s' % (version, ','.join(head))):
                    continue
                which = configs[:1] + configs[-1:] if ctx.thorough else \
                    [configs[(len(head[0]) + len(head[1])) % 2 * -1]]
                for kind, kw, log, f in fronts(which):
                    for last in core:
                        names = list(head) + [last]
                        ctx.state((version, tuple(names)))
                        data = remoting.encode(build(
                            names, version, IDS), strict=True).getvalue()
                        run_batch(ctx, f, log, data, names, IDS, version,
                                  '%s %r' % (kind, sorted(kw)))


def broken(ctx, gs):
    """Undecodable packets never reach a service."""
    sets = [['echo'], ['echo', 'value'], ['pair', 'echo'],
            ['r-echo', 'echo'], ['r-echo']]
    for version in (0, 3):
        for names in sets:
            data = remoting.encode(build(names, version, IDS),
                                   strict=True).getvalue()
            for kind in ('wsgi', 'django', 'google'):
                for strict in (False, True):
                    if not ctx.mine('broken/%d/%s/%s/%s' % (
                            version, ','.join(names), kind, strict)):
                        continue
                    log = []
                    f = Front(kind, log, strict=strict)
                    for k in range(len(data)):
                        bad(ctx, f, log, data[:k], True, 'prefix')
                    for k in range(len(data)):
                        b = ord(data[k])
                        for x in set([0, 0xff, b ^ 1, b ^ 0x80]) - set([b]):
                            bad(ctx, f, log, data[:k] + chr(x) +
                                data[k + 1:], False, 'byte %d -> %02x' % (
                                    k, x))
    for i, junk in enumerate(['', '\x00', 'x' * 50, '\xff' * 20,
                              '\x00\x0a' + '\x00' * 4, '\x00\x00\x00\x01',
                              '\x00\x03\x00\x00\x00\x01\x00\x00\x00\x00',
                              '\x00\x00\x00\x00\x00\x01\x00\x03svc']):
        for kind in ('wsgi', 'django', 'google'):
            if ctx.mine('junk/%d/%s' % (i, kind)):
                log = []
                for debug in (False, True):
                    bad(ctx, Front(kind, log, debug=debug), log, junk, True,
                        'junk')


def bad(ctx, f, log, data, must, what):
    del log[:]
    ctx.step()
    ctx.trace()
    ctx.alive()
    r = mc.attempt(f.post, data)
    if r[0] != 'ok':
        ctx.violation('broken-raise', '%s %r: the gateway raised %r' % (
            what, data, r[1:]))
        return
    status = r[1][0]
    if must and status != 400:
        ctx.violation('broken-status', '%s %r is answered with %r' % (
            what, data, r[1]))
    if status == 400 and log:
        ctx.violation('broken-calls', '%s %r is refused after %r' % (
            what, data, log))
    if status >= 500 and not answers(data):
        ctx.violation('broken-error', '%s %r is answered with %r' % (
            what, data, r[1]))


def answers(data):
    """Is some target that of a response? Gateways cannot answer those."""
    for s in packets.STATUS.values():
        if s.encode('ascii') in data:
            return True
    return False


def run(ctx):
    gs = globalstate.GlobalState()
    batches(ctx, gs)
    broken(ctx, gs)
    gs.restore()
    ctx.assume('services do not raise SystemExit or KeyboardInterrupt')
