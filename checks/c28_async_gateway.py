"""C28: asynchronous services answer every request under its own identifier.

The gateway of Twisted runs on a model of Deferred (lib/twisted_model.py). What
completes later waits in a list, and every order in which it can complete is
explored by running the same packet again with other choices.
"""
import itertools
import StringIO

import twisted_model
twisted_model.install()

import pyamf
from pyamf import remoting
from pyamf.flex import messaging
from pyamf.remoting.gateway import twisted

import mc

PENDING = twisted_model.PENDING


class Denied(Exception):
    pass


class Pre(Exception):
    pass


class Failed(Exception):
    pass


def unencodable():
    pass


# --------------------------------------------------------------- environment
class Http(object):
    """The HTTP request, which counts what is done to it."""

    def __init__(self, data):
        self.content = StringIO.StringIO(data)
        self.codes = []
        self.headers = {}
        self.body = ''
        self.finished = 0
        self.late = 0

    def setResponseCode(self, code, message=None):
        self.late += self.finished
        self.codes.append(code)

    def setHeader(self, k, v):
        self.late += self.finished
        self.headers[k] = v

    def write(self, data):
        self.late += self.finished
        self.body += data

    def finish(self):
        self.finished += 1


def outcome(log, name, how, value, error):
    """Something that is called, now or later, and how it ends."""
    def done():
        log.append(name + ' done')
        if how.endswith('raise'):
            raise error('because')
        return value

    log.append(name)
    if how.startswith('later'):
        return twisted_model.later(name, done)
    return done()


AUTHS = ['none', 'true', 'false', 'one', 'raise', 'later true', 'later false',
         'later one', 'later raise']
PRES = ['none', 'ok', 'raise', 'later ok', 'later raise']
CALLS = ['now', 'later', 'raise', 'later raise', 'bad', 'later bad', 'none']
KINDS0 = CALLS + ['unknown', 'hidden']
KINDS3 = KINDS0 + ['ping', 'login', 'empty', 'odd', 'null']
# 4 is a message of the third version without a target
KINDS = [(0, k) for k in KINDS0] + [(3, k) for k in KINDS3] + [
    (4, 'now'), (4, 'later'), (4, 'later raise')]
VALUES = {'true': True, 'false': False, 'one': 1, 'raise': None}
LOGIN = {u'userid': u'u', u'password': u'p'}


class World(object):
    """A gateway with one service for each message, and what they did."""

    def __init__(self, msgs, auth, pre, creds, expose, base=0):
        self.logs = {}
        self.gw = twisted.TwistedGateway(expose_request=expose)
        self.auth, self.pre, self.creds = auth, pre, creds
        self.expose = expose
        for i, (version, kind) in enumerate(msgs):
            self.add(base + i, kind)

    def add(self, i, kind):
        log = self.logs[i] = []

        def auth(*args):
            log.append(args)
            return outcome(log, 'auth', self.auth, VALUES[
                self.auth.split()[-1]], Denied)

        def pre(*args):
            return outcome(log, 'pre', self.pre, 'ignored', Pre)

        def service(*args):
            if self.expose:
                log.append(getattr(args[0], 'marker', None))
                args = args[1:]
            log.append(args)
            value = u'result %d' % i
            if kind.endswith('bad'):
                value = unencodable
            elif kind == 'none':
                value = None
            return outcome(log, 'call', kind, value, Failed)
        kw = {}
        if self.auth != 'none':
            kw['authenticator'] = auth
        if self.pre != 'none':
            kw['preprocessor'] = pre
        self.gw.addService(service, 's%d' % i, **kw)

    def expected_log(self, i, kind):
        if kind in ('unknown', 'hidden', 'ping', 'login', 'empty', 'odd',
                    'null'):
            # whether the guards run for methods that do not exist is free
            return None
        log = []
        if self.auth != 'none':
            log += [(u'u', u'p') if self.creds else (None, None),
                    'auth', 'auth done']
            if not self.auth.endswith('true'):
                return log
        if self.pre != 'none':
            log += ['pre', 'pre done']
            if self.pre.endswith('raise'):
                return log
        if self.expose:
            log.append('http')
        return log + [(i,), 'call', 'call done']

    def expected(self, i, kind):
        """('ok', value) or ('error', codes that may be given)."""
        if kind == 'ping':
            return ('ok', True)
        if kind in ('login', 'empty', 'odd', 'null'):
            return ('error', None)
        if kind == 'unknown':
            return ('error', ['Service.ResourceNotFound'])
        codes = []
        if self.auth == 'none' or self.auth.endswith('true'):
            pass
        elif self.auth.endswith('raise'):
            codes.append('Denied')
        else:
            codes.append('AuthenticationError')
        if not codes and self.pre.endswith('raise'):
            codes.append('Pre')
        if codes:
            return ('error', codes)
        if kind == 'hidden':
            return ('error', ['Service.MethodInvalid',
                              'Service.MethodNotFound'])
        if kind.endswith('raise'):
            return ('error', ['Failed'])
        if kind.endswith('bad'):
            return ('error', ['EncodeError'])
        if kind == 'none':
            return ('ok', None)
        return ('ok', u'result %d' % i)


def target(i, kind):
    if kind == 'unknown':
        return u'nothing%d' % i
    if kind == 'hidden':
        return u's%d._hidden' % i
    return u's%d' % i


def packet(msgs, ids, creds, version, base=0):
    env = remoting.Envelope(version)
    if creds:
        env.headers[u'Credentials'] = LOGIN
    for i, (v, kind) in enumerate(msgs):
        i += base
        if v == 0:
            m = remoting.Request(target(i, kind), body=[i])
        else:
            m = remoting.Request(u'null' if v == 3 else u'',
                                 body=flex(i, kind))
        env.append(ids[i - base], m)
    return remoting.encode(env, strict=True).getvalue()


def flex(i, kind):
    if kind == 'empty':
        return []
    if kind == 'odd':
        return [5]
    if kind == 'null':
        return [None]
    if kind in ('ping', 'login'):
        m = messaging.CommandMessage()
        m.operation = m.PING_OPERATION if kind == 'ping' else m.LOGIN_OPERATION
        m.body = None
    else:
        m = messaging.RemotingMessage()
        t = target(i, kind)
        if '.' in t:
            m.destination, m.operation = t.split('.')
        else:
            m.operation = t
        m.body = [i]
    m.messageId = u'M%d' % i
    return [m]


# ------------------------------------------------------------------ explorer
def schedules(start, check):
    """Run start again and again with every choice of what completes next."""
    prefix = []
    runs = 0
    while 1:
        del PENDING[:]
        state = start()
        widths, taken = [], []
        while PENDING:
            n = len(taken)
            c = prefix[n] if n < len(prefix) else 0
            widths.append(len(PENDING))
            taken.append(c)
            PENDING.pop(c)[1]()
            if n > 200:
                raise AssertionError('no end')
        runs += 1
        if check(state, taken) is False:
            return runs
        while taken and taken[-1] + 1 >= widths[len(taken) - 1]:
            taken.pop()
        if not taken:
            return runs
        prefix = taken[:-1] + [taken[-1] + 1]


def problem(w, http, msgs, ids, taken, base=0):
    """What is wrong with the answer to a packet, or None."""
    if http.finished != 1 or http.late:
        return 'finished %d times, used %d times after that' % (
            http.finished, http.late)
    if http.codes != [200] or http.headers.get('Content-Type') != \
            remoting.CONTENT_TYPE or http.headers.get('Content-Length') != \
            str(len(http.body)):
        return 'answered with %r %r %r' % (http.codes, http.headers,
                                           http.body[:60])
    r = mc.attempt(remoting.decode, http.body)
    if r[0] != 'ok':
        return 'answer %s can not be read: %r' % (mc.hexs(http.body), r[1:])
    want, got = {}, {}
    for i, (v, kind) in enumerate(msgs):
        want.setdefault(ids[i], []).append((v, i + base, kind))
    for name, m in r[1].bodies:
        got.setdefault(name, []).append(m)
    if sorted(want) != sorted(got) or [
            k for k in want if len(want[k]) != len(got[k])]:
        return 'the messages %r are answered with %r' % (ids, [
            n for n, m in r[1].bodies])
    for name in want:
        answers = got[name]
        for x in want[name]:
            fits = [m for m in answers if not mismatch(w, x, m)]
            if not fits:
                return 'message %s (%r) is answered with %r' % (
                    name, x, answers)
            answers.remove(fits[0])
    for i, (v, kind) in enumerate(msgs):
        log = w.expected_log(i + base, kind)
        if log is not None and w.logs[i + base] != log:
            return 'the request %d did %r, expected %r' % (
                i, w.logs[i + base], log)
        if log is None and 'call' in w.logs[i + base]:
            return 'the service was called for %r' % (kind,)
    return None


def mismatch(w, x, m):
    v, i, kind = x
    what, value = w.expected(i, kind)
    b = m.body
    if v:
        if not isinstance(b, messaging.AcknowledgeMessage):
            return True
        if kind not in ('empty', 'odd', 'null') and \
                b.correlationId != u'M%d' % i:
            return True
        if not isinstance(b.headers, dict) or not b.headers.get('DSId'):
            return True
    if what == 'ok':
        if v:
            if isinstance(b, messaging.ErrorMessage):
                return True
            b = b.body
        return m.status != remoting.STATUS_OK or b != value or \
            type(b) is not type(value)
    if m.status != remoting.STATUS_ERROR:
        return True
    if v:
        return not isinstance(b, messaging.ErrorMessage) or (
            value is not None and b.faultCode not in value)
    return not isinstance(b, remoting.ErrorFault) or (
        value is not None and b.code not in value)


def explore(ctx, cid, msgs, auth, pre, creds=True, expose=False, version=3,
            ids=None):
    ids = ids or [u'/%d' % (i + 1) for i in range(len(msgs))]
    data = packet(msgs, ids, creds, version)
    ctx.state((cid, auth, pre, creds, expose))

    def start():
        w = World(msgs, auth, pre, creds, expose)
        http = Http(data)
        http.marker = 'http'
        r = mc.attempt(w.gw.render_POST, http)
        return w, http, r

    def check(state, taken):
        w, http, r = state
        ctx.step(len(taken) + 1)
        ctx.trace()
        p = 'render_POST: %r' % (r,) if r[:2] != ('ok', 1) else \
            problem(w, http, msgs, ids, taken)
        if p:
            ctx.violation(
                sig(msgs, auth, pre), '%s, authenticator %s, preprocessor %s, '
                'credentials %s, order %r: %s' % (
                    cid, auth, pre, creds, taken, p))
            return False
    ctx.add('schedules', schedules(start, check))


def sig(msgs, auth, pre):
    return 'batch of %d: %s' % (len(msgs), '+'.join(sorted(set(
        'amf%d' % v for v, k in msgs))))


def single(ctx):
    for m in KINDS:
        cid = 'one %r' % (m,)
        if not ctx.mine(cid):
            continue
        for auth, pre, creds, expose, version in itertools.product(
                AUTHS, PRES, (False, True), (False, True), (0, 3)):
            explore(ctx, cid, [m], auth, pre, creds, expose, version)


def pairs(ctx):
    for a, b in itertools.product(KINDS, repeat=2):
        cid = 'two %r' % ((a, b),)
        if not ctx.mine(cid):
            continue
        for auth, pre in itertools.product(AUTHS, PRES):
            if not ctx.thorough and auth in ('one', 'later one', 'raise') and \
                    pre != 'none':
                continue
            explore(ctx, cid, [a, b], auth, pre)
        for auth in ('none', 'later true'):
            explore(ctx, cid + ' same id', [a, b], auth, 'none',
                    ids=[u'/1', u'/1'])


def triples(ctx):
    kinds = [(v, k) for v in (0, 3) for k in ('now', 'later', 'later raise',
                                              'later bad')]
    kinds += [(0, 'unknown'), (3, 'empty')]
    for ms in itertools.product(kinds, repeat=3):
        cid = 'three %r' % (ms,)
        if not ctx.mine(cid):
            continue
        explore(ctx, cid, list(ms), 'none', 'none')
        if ctx.thorough or len(set(ms)) == 3 and ms[0] < ms[1]:
            explore(ctx, cid, list(ms), 'later true', 'none')
        if ctx.thorough and ms[0] <= ms[1] <= ms[2]:
            explore(ctx, cid, list(ms), 'later true', 'later ok')
        for ids in ([u'/1', u'/2', u'/1'], [u'/1'] * 3):
            explore(ctx, cid + ' ids %r' % (ids,), list(ms), 'none', 'none',
                    ids=ids)


def concurrent(ctx):
    """Two packets on their way through one gateway."""
    kinds = [(v, k) for v in (0, 3) for k in ('now', 'later', 'later raise',
                                              'bad', 'unknown')]
    for a, b in itertools.product(kinds, repeat=2):
        for auth in ('none', 'later true', 'later false'):
            cid = 'packets %r %s' % ((a, b), auth)
            if not ctx.mine(cid):
                continue
            ctx.state(cid)
            da = packet([a], [u'/1'], True, 3)
            db = packet([b], [u'/1'], True, 3, 1)

            def start():
                w = World([a, b], auth, 'none', True, True)
                hs = [Http(da), Http(db)]
                for h in hs:
                    h.marker = 'http'
                    w.gw.render_POST(h)
                return w, hs

            def check(state, taken):
                w, hs = state
                ctx.step(len(taken) + 1)
                ctx.trace()
                for i, (h, m) in enumerate(zip(hs, (a, b))):
                    p = problem(w, h, [m], [u'/1'], taken, i)
                    if p:
                        ctx.violation('concurrent', '%s, order %r, packet '
                                      '%d: %s' % (cid, taken, i, p))
                        return False
            ctx.add('schedules', schedules(start, check))


def damaged(ctx):
    """Packets that can not be read are refused, once."""
    whole = packet([(0, 'later'), (3, 'now')], [u'/1', u'/2'], True, 3)
    cases = [whole[:k] for k in range(len(whole))]
    cases += [whole[:k] + c + whole[k + 1:] for k in range(len(whole))
              for c in ('\x00', '\xff', '\x05')]
    for i, data in enumerate(cases):
        cid = 'damaged %d' % i
        if not ctx.mine(cid):
            continue
        ctx.state(cid)

        def start():
            w = World([(0, 'later'), (3, 'now')], 'none', 'none', True, False)
            h = Http(data)
            mc.attempt(w.gw.render_POST, h)
            return w, h

        def check(state, taken):
            w, h = state
            ctx.step()
            ctx.trace()
            r = mc.attempt(remoting.decode, data)
            want = [200] if r[0] == 'ok' else [400]
            if h.finished != 1 or h.late or h.codes != want and not (
                    want == [400] and h.codes == [500]):
                ctx.violation('damaged', '%s: %s is answered with %r, '
                              'finished %d times' % (
                                  cid, mc.hexs(data), h.codes, h.finished))
                return False
            if want == [400] and [l for l in w.logs.values() if l]:
                ctx.violation('damaged', '%s: %s made calls %r' % (
                    cid, mc.hexs(data), w.logs))
        schedules(start, check)


def run(ctx):
    ctx.bound('kinds of messages', len(KINDS))
    ctx.bound('authenticators', len(AUTHS))
    ctx.bound('preprocessors', len(PRES))
    single(ctx)
    pairs(ctx)
    triples(ctx)
    concurrent(ctx)
    damaged(ctx)
    ctx.sample('two calls with deferred authenticator: auth 2, auth 1, '
               'result 1, result 2')
    ctx.assume('Twisted is modelled by lib/twisted_model.py; every deferred '
               'result arrives at some time')
