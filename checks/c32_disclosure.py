"""C32: a gateway reveals where something failed in debug mode only."""
import itertools
import logging

import twisted_model
twisted_model.install()

import pyamf
from pyamf import remoting

import c15_gateway_batches as c15
import c28_async_gateway as c28
import globalstate
import mc

#: what a traceback consists of, and nothing else that is sent does
TRACES = ('Traceback (most', 'File "', ', line ')
FRONTS = ('wsgi', 'django', 'google', 'twisted')
AUTHS = ('none', 'yes', 'no', 'raise')
PRES = ('none', 'ok', 'raise')

# kinds of C15 whose outcome is no error, and those that name no exception
FINE = [n for n in c15.NAMES if not (
    c15.KINDS[n][4] is Exception or isinstance(c15.KINDS[n][4], str) and
    c15.KINDS[n][4] not in (c15.OK, 'gen'))]


class Stop(Exception):
    pass


class Quiet(logging.Handler):
    def emit(self, record):
        self.format(record)


LOG = logging.Logger('quiet')
LOG.addHandler(Quiet())


def auth(how):
    def check(user, password):
        if how == 'raise':
            raise Stop('who is it')
        return how == 'yes'
    return check


def pre(how):
    def run(*args):
        if how == 'raise':
            raise Stop('not now')
    return run


class Front(object):
    """One of the gateways, and a way to post a packet to it."""

    def __init__(self, kind, authenticator, preprocessor, **kw):
        self.log = []
        self.kind = kind
        if authenticator != 'none':
            kw['authenticator'] = auth(authenticator)
        if preprocessor != 'none':
            kw['preprocessor'] = pre(preprocessor)
        if kind == 'twisted':
            self.gw = c28.twisted.TwistedGateway(
                c15.services(self.log), expose_request=False, **kw)
        else:
            self.front = c15.Front(kind, self.log, **kw)
            self.gw = self.front.gw

    def post(self, data):
        del self.log[:]
        if self.kind != 'twisted':
            return self.front.post(data)
        http = c28.Http(data)
        self.gw.render_POST(http)
        while c28.PENDING:
            c28.PENDING.pop(0)[1]()
        if http.finished != 1:
            raise AssertionError('not finished')
        return (http.codes or [200])[-1], http.headers, http.body


def traces(body):
    return [x for x in TRACES if x in body]


def observe(ctx, sig, desc, front, data, debug, expect):
    """expect: how many errors at least there are in the answer"""
    ctx.step()
    ctx.trace()
    r = mc.attempt(front.post, data)
    if r[0] != 'ok':
        ctx.violation(sig + ' raise', '%s: raises %r' % (desc, r[1:]))
        return
    status, headers, body = r[1]
    seen = traces(body)
    rest = traces(repr(sorted(headers.items())))
    if rest or (seen and not debug):
        ctx.violation(sig + ' reveals', '%s (debug %s): the answer holds %r: '
                      '%r' % (desc, debug, seen or rest, body[:600]))
    elif debug and expect and body.count('Traceback (most') < expect:
        ctx.violation(sig + ' hides', '%s: %d errors with %d tracebacks in '
                      'debug mode: %r' % (
                          desc, expect, body.count('Traceback (most'),
                          body[:300]))


def errors(names, a, p):
    """How many of the requests end with an exception for sure."""
    n = 0
    for name in names:
        kind = c15.KINDS[name]
        if name in FINE and not kind[3]:
            # neither a call nor an error, whatever the guards say
            continue
        if kind[3] and a == 'no':
            # a refusal of the first protocol has no exception to show
            n += kind[0] == 'amf3'
        elif not kind[3] or a == 'raise' or p == 'raise' or \
                name not in FINE:
            if not kind[3] and kind[0] == 'amf0' and a == 'no':
                continue
            n += 1
    return n


def requests(ctx):
    """Every kind of request, at every stage at which it may fail."""
    for kind in FRONTS:
        for debug, strict in itertools.product((False, True), repeat=2):
            for a, p in itertools.product(AUTHS, PRES):
                cid = 'one %s %s %s %s %s' % (kind, debug, strict, a, p)
                if not ctx.mine(cid):
                    continue
                f = Front(kind, a, p, debug=debug, strict=strict)
                for version in (0, 3):
                    for n in c15.NAMES:
                        ctx.state((cid, version, n))
                        one(ctx, cid, f, [n], version, debug, a, p)
    second = c15.NAMES if ctx.thorough else c15.CORE
    for kind in FRONTS:
        for debug in (False, True):
            for x in c15.NAMES:
                cid = 'two %s %s %s' % (kind, debug, x)
                if not ctx.mine(cid):
                    continue
                f = Front(kind, 'none', 'none', debug=debug)
                for y in second:
                    ctx.state((cid, y))
                    one(ctx, cid, f, [x, y], 3, debug, 'none', 'none')
                    one(ctx, cid, f, [y, x], 0, debug, 'none', 'none')
                f = Front(kind, 'none', 'none', debug=debug, logger=LOG)
                one(ctx, cid + ' logged', f, [x], 0, debug, 'none', 'none')
                one(ctx, cid + ' logged', f, [x], 3, debug, 'none', 'none')

def one(ctx, cid, f, names, version, debug, a, p):
    data = remoting.encode(c15.build(names, version, c15.IDS),
                           strict=True).getvalue()
    observe(ctx, 'request', '%s: %r, AMF%d' % (cid, names, version), f, data,
            debug, errors(names, a, p))


def packets(ctx):
    """Packets that can not be read, and gateways that fail themselves."""
    good = remoting.encode(c15.build(['echo', 'r-echo'], 3, c15.IDS),
                           strict=True).getvalue()
    for kind in FRONTS:
        for debug, strict in itertools.product((False, True), repeat=2):
            cid = 'packets %s %s %s' % (kind, debug, strict)
            if not ctx.mine(cid):
                continue
            f = Front(kind, 'none', 'none', debug=debug, strict=strict)
            for k in range(len(good)):
                ctx.state((cid, k))
                observe(ctx, 'prefix', '%s: the first %d bytes of %r' % (
                    cid, k, good), f, good[:k], debug, 1)
            for k in range(len(good)):
                b = ord(good[k])
                for x in set([0, 0xff, b ^ 1, b ^ 0x80]) - set([b]):
                    observe(ctx, 'bytes', '%s: byte %d of %r is %d' % (
                        cid, k, good, x), f,
                        good[:k] + chr(x) + good[k + 1:], debug, 0)


def broken(*args, **kwargs):
    raise Stop('broken')


def stages(ctx, gs):
    """Each stage of the gateway fails in a way that nobody foresaw."""
    good = remoting.encode(c15.build(['echo', 'bytes'], 3, c15.IDS),
                           strict=True).getvalue()
    bad = remoting.encode(c15.build(['module', 'r-module'], 3, c15.IDS),
                          strict=True).getvalue()
    for kind in FRONTS:
        for debug in (False, True):
            for what, log in itertools.product(
                    ('reading', 'processing', 'processor', 'answering', 'fault'),
                    (None, LOG)):
                cid = 'stage %s %s %s %s' % (
                    kind, debug, what, 'logged' if log else 'silent')
                if not ctx.mine(cid):
                    continue
                ctx.state(cid)
                gs.restore()
                f = Front(kind, 'none', 'none', debug=debug, logger=log)
                data = good
                if what == 'reading':
                    pyamf.add_post_decode_processor(broken)
                elif what == 'processing':
                    f.gw.getProcessor = broken
                elif what == 'processor':
                    f.gw.getProcessor = lambda *args, **kwargs: broken
                elif what == 'answering':
                    f.gw.buildEncodeErrorResponse = broken
                    data = bad
                else:
                    f.gw.callServiceRequest = broken
                # an asynchronous gateway shows its own failures in its log
                need = kind != 'twisted' or what in ('reading', 'processor')
                observe(ctx, 'stage', cid, f, data, debug, need)
                gs.restore()


def switches(ctx):
    """The mode is changed between the requests to one gateway."""
    for kind in FRONTS:
        for modes in itertools.product((False, True), repeat=4):
            cid = 'switch %s %r' % (kind, modes)
            if not ctx.mine(cid):
                continue
            f = Front(kind, 'none', 'none', debug=modes[0])
            for i, debug in enumerate(modes):
                f.gw.debug = debug
                for n in ('bytes', 'r-bytes', 'nosvc', 'r-noop', 'module',
                          'r-boom'):
                    ctx.state((cid, i, n))
                    one(ctx, cid, f, [n], 3, debug, 'none', 'none')
                observe(ctx, 'switch', cid, f, 'junk', debug, 1)


def defaults(ctx):
    """Nothing is revealed unless somebody asked for it."""
    for kind in FRONTS:
        cid = 'default %s' % kind
        if not ctx.mine(cid):
            continue
        settings = [None]
        if kind == 'django':
            c15.django()
            from django import conf
            settings = [False, True]
        for s in settings:
            for kw in ({}, {'debug': False}, {'debug': True}):
                ctx.state((cid, s, sorted(kw.items())))
                if s is not None:
                    conf.settings.DEBUG = s
                f = Front(kind, 'none', 'none', **kw)
                debug = kw.get('debug', bool(s))
                for n in ('bytes', 'r-bytes', 'nosvc', 'module'):
                    one(ctx, cid + ' %r' % ((s, kw),), f, [n], 3, debug,
                        'none', 'none')
                observe(ctx, 'default', cid, f, 'junk', debug, 1)
        if kind == 'django':
            conf.settings.DEBUG = False


def run(ctx):
    gs = globalstate.GlobalState()
    requests(ctx)
    packets(ctx)
    switches(ctx)
    defaults(ctx)
    stages(ctx, gs)
    gs.restore()
    ctx.assume('services do not put source positions into their results or '
               'the messages of what they raise')
