"""C16: a gateway runs only what it exposes, after authentication."""
import itertools
import sys
import types

for _m in ('cpyamf', 'django', 'google', 'sqlalchemy', 'elixir'):
    sys.modules.setdefault(_m, None)

import pyamf
from pyamf import remoting
from pyamf.flex import messaging
from pyamf.remoting import gateway
from pyamf.remoting.gateway import wsgi

import globalstate
import mc

LOG = []


class Denied(Exception):
    pass


# -------------------------------------------------------- guards and services
class Falsy(object):
    """A guard that is a callable object, and has nothing in it."""

    def __init__(self, f):
        self.f = f

    def __call__(self, *args):
        return self.f(*args)

    def __len__(self):
        return 0


def falsy(f, conf, key):
    return Falsy(f) if conf.get(key + '-falsy') else f


def auth(level, what):
    def check(*args):
        LOG.append(('auth', level) + args)
        if what == 'accept':
            return args[-2:] == (u'user', u'pass')
        if what == 'anyone':
            return True
        if what == 'reject':
            return False
        if what == 'truthy':
            return 1
        if what == 'none':
            return None
        if what == 'raise':
            raise Denied('no')
        raise AssertionError(what)
    return check


def pre(level, what):
    def run(*args):
        args = [('sr', a.method) if isinstance(a, gateway.ServiceRequest)
                else a for a in args]
        LOG.append(('pre', level) + tuple(args))
        if what == 'raise':
            raise Denied('pre')
        return 'ignored'
    return run


def body(name):
    def m(*args):
        LOG.append(('call', name) + args)
        return u'done'
    return m


def strip_self(f):
    def m(self, *args):
        return f(*args)
    return m


def make_service(kind, conf):
    """The service; its method m carries the guards of the method level."""
    f = body('m')
    if kind == 'function':
        target = f
    elif kind == 'callable':
        class Callable(object):
            def __call__(self, *args):
                return f(*args)
        target = Callable()
    elif kind in ('class', 'instance', 'classic', 'classic-instance'):
        target = strip_self(f)
    else:
        target = f
    if conf.get('auth'):
        gateway.authenticate(target, falsy(auth('method', conf['auth']),
                                           conf, 'auth'),
                             expose_request=conf.get('auth-exposed', False))
    if conf.get('pre'):
        gateway.preprocess(target, falsy(pre('method', conf['pre']),
                                         conf, 'pre'),
                           expose_request=conf.get('pre-exposed', False))
    if conf.get('expose'):
        gateway.expose_request(target)
    if kind in ('function', 'callable'):
        return target
    d = {'m': target, 'value': 5}
    for n in ('_p', '__x__', '_pyamf_thing', 'other'):
        d[n] = strip_self(body(n)) if kind in (
            'class', 'instance', 'classic', 'classic-instance') else body(n)
    if kind == 'class':
        return type('NewSvc', (object,), d)
    if kind == 'instance':
        return type('NewSvc', (object,), d)()
    if kind == 'classic':
        return types.ClassType('OldSvc', (), d)
    if kind == 'classic-instance':
        return types.ClassType('OldSvc', (), d)()
    if kind == 'module':
        m = types.ModuleType('c16service')
        m.__dict__.update(d)
        return m
    if kind == 'dynamic':
        class Dynamic(object):
            def __getattr__(self, name):
                try:
                    return d[name]
                except KeyError:
                    raise AttributeError(name)
        return Dynamic()
    if kind == 'property':
        # an attribute that cannot be read must not matter to the others
        class Prop(object):
            def aaa(self):
                raise ValueError('not now')
            aaa = property(aaa)
            zzz = property(lambda self: LOG.append(('property',)))

            def __init__(self):
                self.__dict__.update(d)
        return Prop()
    raise KeyError(kind)


KINDS = ['class', 'instance', 'classic', 'classic-instance', 'module',
         'dynamic', 'property', 'function', 'callable']

CREDS = {
    'none': None,
    'good': {u'userid': u'user', u'password': u'pass'},
    'bad': {u'userid': u'user', u'password': u'wrong'},
    'empty': {},
    'odd': 5,
}


def request(form, target, args, creds):
    env = remoting.Envelope(0 if form == 'amf0' else 3)
    if creds != 'none':
        env.headers['Credentials'] = CREDS[creds]
    if form == 'amf0':
        env['/1'] = remoting.Request(target, body=list(args))
    else:
        m = messaging.RemotingMessage()
        m.messageId = u'M'
        if '.' in target and form == 'amf3':
            m.destination, m.operation = target.rsplit('.', 1)
        else:
            m.destination, m.operation = None, target
        m.headers = {}
        m.body = list(args)
        env['/1'] = remoting.Request(u'null', body=[m])
    return env


def ask(gw, form, target, args, creds):
    """('done'|'fault', code, log)."""
    del LOG[:]
    env = request(form, target, args, creds)
    http = {'http': 1}
    r = gw.getResponse(env, http)
    if r.keys() != ['/1']:
        return ('keys', r.keys(), list(LOG))
    r = r['/1']
    log = [tuple(['HTTP' if x is http else x for x in e]) for e in LOG]
    b = r.body
    if r.status == remoting.STATUS_OK:
        if form != 'amf0':
            b = b.body
        return ('done', b, log)
    code = b.code if form == 'amf0' else b.faultCode
    return ('fault', code, log)


def first(*xs):
    for x in xs:
        if x[1] is not None:
            return x
    return (None, None)


def model(form, kind, conf, args, creds):
    """The log and the outcome of a request for the method m."""
    log = []
    meth = None if kind in ('function', 'callable') else 'm'
    level, what = first(('method', conf['m'].get('auth')),
                        ('service', conf['s'].get('auth')),
                        ('gateway', conf['g'].get('auth')))
    if creds in ('empty', 'odd'):
        if what is None:
            return None
        return ('fault', log)
    if what is not None:
        c = CREDS[creds]
        given = (None, None) if c is None else (u'user', c[u'password'])
        exposed = conf[level[0]].get('auth-exposed')
        log.append(('auth', level) + (('HTTP',) if exposed else ()) + given)
        if not (what == 'anyone' or what == 'accept' and creds == 'good'):
            return ('fault', log)
    level, what = first(('method', conf['m'].get('pre')),
                        ('service', conf['s'].get('pre')),
                        ('gateway', conf['g'].get('pre')))
    if what is not None:
        exposed = conf[level[0]].get('pre-exposed')
        log.append(('pre', level) + (('HTTP',) if exposed else ()) +
                   (('sr', meth),) + (tuple(args) if form == 'amf3' else ()))
        if what == 'raise':
            return ('fault', log)
    level, what = first(('method', conf['m'].get('expose')),
                        ('service', conf['s'].get('expose')),
                        ('gateway', conf['g'].get('expose')))
    log.append(('call', 'm') + (('HTTP',) if what else ()) + tuple(args))
    return ('done', log)


def build(kind, conf):
    def guard(level, key, maker):
        what = conf[level[0]].get(key)
        if what is None:
            return None
        f = falsy(maker(level, what), conf[level[0]], key)
        if conf[level[0]].get(key + '-exposed'):
            gateway.expose_request(f)
        return f
    gw = wsgi.WSGIGateway(
        authenticator=guard('gateway', 'auth', auth),
        preprocessor=guard('gateway', 'pre', pre),
        expose_request=conf['g'].get('expose'))
    gw.addService(make_service(kind, conf['m']), 'svc',
                  authenticator=guard('service', 'auth', auth),
                  preprocessor=guard('service', 'pre', pre),
                  expose_request=conf['s'].get('expose'))
    return gw


def configs(thorough):
    seen = set()

    def emit(c):
        k = repr([sorted(c[x].items()) for x in 'gsm'])
        if k not in seen:
            seen.add(k)
            yield c

    def conf(a, p, e, **extra):
        c = {}
        for i, l in enumerate('gsm'):
            c[l] = dict(auth=a[i], pre=p[i], expose=e[i])
            c[l].update(extra.get(l, {}))
        return c
    none = (None, None, None)
    auths = list(itertools.product((None, 'accept', 'reject'), repeat=3))
    pres = list(itertools.product((None, 'ok', 'raise'), repeat=3))
    exposes = list(itertools.product((None, True, False), (None, True, False),
                                     (None, True)))
    for a in auths:
        for p in pres:
            for e in (exposes if thorough else (none, (True, False, None))):
                for c in emit(conf(a, p, e)):
                    yield c
        for e in exposes:
            for c in emit(conf(a, none, e)):
                yield c
            for c in emit(conf(a, (None, 'ok', None), e)):
                yield c
    # what an authenticator may answer, and guards that want the HTTP request
    for i, l in enumerate('gsm'):
        for what in ('anyone', 'truthy', 'none', 'raise', 'accept'):
            for below in (None, 'anyone', 'reject'):
                for exposed in (False, True):
                    a = [below] * 3
                    a[i] = what
                    p = [None] * 3
                    p[i] = 'ok'
                    for e in (none, (True, True, None)):
                        for c in emit(conf(tuple(a), tuple(p), e, **{
                                l: {'auth-exposed': exposed,
                                    'pre-exposed': exposed}})):
                            yield c
    # guards that are objects which count as false
    for i, l in enumerate('gsm'):
        for what in ('accept', 'reject', 'anyone', 'raise'):
            for below in (None, 'anyone', 'reject'):
                for exposed in (False, True):
                    for p in ('ok', 'raise'):
                        a, ps = [below] * 3, [None] * 3
                        a[i], ps[i] = what, p
                        for c in emit(conf(tuple(a), tuple(ps), none, **{
                                l: {'auth-exposed': exposed,
                                    'pre-exposed': exposed,
                                    'auth-falsy': True,
                                    'pre-falsy': True}})):
                            yield c


def guards(ctx, gs):
    n = 0
    for ci, conf in enumerate(configs(ctx.thorough)):
        n += 1
        for kind in KINDS:
            if not ctx.thorough and KINDS[ci % len(KINDS)] != kind and \
                    kind not in ('instance', 'function'):
                continue
            if not ctx.mine('guard/%d/%s' % (ci, kind)):
                continue
            ctx.state((kind, repr([sorted(conf[x].items()) for x in 'gsm'])))
            gw = build(kind, conf)
            target = u'svc' if kind in ('function', 'callable') else u'svc.m'
            for form in ('amf0', 'amf3'):
                for creds in CREDS:
                    for args in ((u'x',), ()):
                        if not args and creds != 'good':
                            continue
                        ctx.step()
                        ctx.trace()
                        want = model(form, kind, conf, args, creds)
                        r = mc.attempt(ask, gw, form, target, args, creds)
                        if want is None:
                            # malformed credentials nobody asks for
                            continue
                        if r[0] != 'ok' or (r[1][0], r[1][2]) != want or \
                                r[1][0] == 'done' and r[1][1] != u'done':
                            ctx.violation(
                                'guard:' + form, '%s request to %r on a %s '
                                'with credentials %s, guards %r: %r, expected '
                                '%r' % (form, target, kind, creds, conf,
                                        r[1:], want))
    ctx.bound('guard configurations', n)


# ------------------------------------------------------------- service paths
PARTS = [u'svc', u'a', u'b', u'm', u'_p', u'__class__', u'value', u'', u'nope',
         u'__call__', u'other', u'fn', u'\xe9']


def paths(ctx, gs):
    """All service paths of up to three parts."""
    maxp = 4 if ctx.thorough else 3
    ctx.bound('parts of service paths', maxp)
    kinds = [k for k in KINDS if k not in ('function', 'callable')]
    if not ctx.thorough:
        kinds = ['class', 'instance', 'module', 'dynamic', 'property']
    for kind in kinds:
        for secure in (False, True):
            for n in range(1, maxp + 1):
                for head in mc.seqs(PARTS, n - 1):
                    if n == 4 and head[0] not in (u'svc', u'a'):
                        continue
                    if not ctx.mine('path/%s/%s/%d/%r' % (kind, secure, n,
                                                          head)):
                        continue
                    gw = wsgi.WSGIGateway(
                        authenticator=auth('gateway', 'accept') if secure
                        else None)
                    for name in ('svc', 'a', 'a.b', 'b.b'):
                        gw.addService(make_service(kind, {}), name)
                    gw.addService(body('fn'), 'fn')
                    gw.addService(body('a.fn'), 'a.fn')
                    for last in PARTS:
                        one_path(ctx, gw, kind, secure,
                                 u'.'.join(head + (last,)))


SERVICES = (u'svc', u'a', u'a.b', u'b.b')


def one_path(ctx, gw, kind, secure, path):
    ctx.state(('path', kind, secure, path))
    name, _, meth = path.rpartition(u'.')
    call = None
    known = False
    if path in (u'fn', u'a.fn'):
        call = path
        known = True
    elif path in SERVICES:
        known = True
    elif name in SERVICES:
        known = True
        if meth in (u'm', u'other'):
            call = meth
    elif name in (u'fn', u'a.fn'):
        known = True
        if not meth.startswith(u'_'):
            # attributes of the function: it has none of these names
            call = None
    for form in ('amf0', 'amf3', 'amf3-op'):
        if form == 'amf0' and path in (u'', u'null'):
            continue
        if form == 'amf3' and path[:1] == u'.' and path.count(u'.') == 1:
            # an empty destination: only the operation counts
            continue
        for creds in ('none', 'bad', 'good') if secure else ('none',):
            ctx.step()
            ctx.trace()
            r = mc.attempt(ask, gw, form, path, (u'x',), creds)
            calls = [('call', str(call), u'x')] if call and (
                creds == 'good' or not secure) else []
            if r[0] != 'ok':
                ctx.violation('path-raise', '%s request to %r raised %r' % (
                    form, path, r[1:]))
                continue
            got = [e for e in r[1][2] if e[0] != 'auth']
            want = 'done' if calls else 'fault'
            if got != calls or r[1][0] != want:
                ctx.violation(
                    'path:' + form, '%s request to %r (%s services, secure '
                    '%s, credentials %s) gives %r, expected %s with calls %r'
                    % (form, path, kind, secure, creds, r[1], want, calls))


def described(ctx, gs):
    """A service description is subject to authentication as well."""
    for secure in (False, True):
        if not ctx.mine('describe/%s' % secure):
            continue
        gw = wsgi.WSGIGateway(authenticator=auth('gateway', 'accept')
                              if secure else None)
        gw.addService(make_service('class', {}), 'svc', description=u'D')
        for creds in ('none', 'bad', 'good'):
            for path in (u'svc.m', u'svc', u'nope.m'):
                env = request('amf0', path, (), creds)
                env.headers['DescribeService'] = True
                del LOG[:]
                ctx.step()
                ctx.trace()
                r = gw.getResponse(env, {})['/1']
                ok = path != u'nope.m' and (creds == 'good' or not secure)
                if (r.status == 0) != ok or ok and r.body != u'D' or \
                        [e for e in LOG if e[0] == 'call']:
                    ctx.violation('describe', 'secure %s, credentials %s, %r: '
                                  '%r %r' % (secure, creds, path, r, LOG))


# ----------------------------------------------------------------- histories
def histories(ctx, gs):
    ops = [('add', 'x', 0), ('add', 'x', 1), ('add', 'x.y', 1), ('add', 'y', 2),
           ('remove', 'x'), ('remove', 'x.y'), ('removeobj', 0),
           ('removeobj', 1), ('removeobj', 2)]
    depth = 5 if ctx.thorough else 4
    ctx.bound('depth of service histories', depth)
    for head in mc.seqs(ops, 2):
        if not ctx.mine('history/%r' % (head,)):
            continue
        for tail in mc.seqs_upto(ops, depth - 2):
            run_history(ctx, head + tail)


def run_history(ctx, history):
    svcs = []
    for i in range(3):
        s = make_service('instance', {})
        s.m = body('m%d' % i)
        svcs.append(s)
    gw = wsgi.WSGIGateway()
    model = {}
    for op in history:
        ctx.step()
        if op[0] == 'add':
            r = mc.attempt(gw.addService, svcs[op[2]], op[1])
            if op[1] in model:
                want = ('exc', 'RemotingError')
            else:
                model[op[1]] = op[2]
                want = ('ok', None)
        elif op[0] == 'remove':
            r = mc.attempt(gw.removeService, op[1])
            want = ('ok', None) if op[1] in model else ('exc', 'NameError')
            model.pop(op[1], None)
        else:
            names = [n for n, i in model.items() if i == op[1]]
            if len(names) > 1:
                # which of them goes is not specified
                return
            r = mc.attempt(gw.removeService, svcs[op[1]])
            want = ('ok', None) if names else ('exc', 'NameError')
            for n in names:
                del model[n]
        if r[:2] != want:
            ctx.violation('history:' + op[0], '%r: %r gave %r, expected %r' % (
                history, op, r, want))
            return
    ctx.trace()
    ctx.state(('history', tuple(sorted(model.items()))))
    for path in (u'x.m', u'x.y.m', u'y.m', u'x.y', u'm'):
        for form in ('amf0', 'amf3'):
            name = path.rpartition(u'.')[0]
            r = ask(gw, form, path, (u'q',), 'none')
            want = []
            if name in model:
                want = [('call', 'm%d' % model[name], u'q')] \
                    if path.endswith('m') else []
            if r[2] != want:
                ctx.violation('history:effect', 'after %r a %s request to %r '
                              'calls %r, expected %r' % (
                                  history, form, path, r[2], want))


# ----------------------------------------------------- several requests at once
TARGETS = [
    # target, method, who asks for credentials, what it accepts
    (u's.open', None, None),
    (u's.a', 'a', 'accept'),
    (u's.b', 'b', 'reject'),
    (u't.open', 't', 'accept'),
    (u'u.open', 'u', 'reject'),
    (u'u.a', 'a', 'accept'),
    (u's.nope', None, 'missing'),
]


def session_gateway(kind, secure):
    def member(name, what):
        f = strip_self(body(name))
        if what:
            gateway.authenticate(f, auth(name.split('.')[1], what))
        return f

    def service(n):
        c = type('Svc', (object,), {
            'open': member(n + '.open', None),
            'a': member(n + '.a', 'accept'),
            'b': member(n + '.b', 'reject')})
        return c if kind == 'class' else c()
    gw = wsgi.WSGIGateway(authenticator=auth('gw', 'accept') if secure
                          else None)
    gw.addService(service('s'), 's')
    gw.addService(service('t'), 't', authenticator=auth('t', 'accept'))
    gw.addService(service('u'), 'u', authenticator=auth('u', 'reject'))
    return gw


def session_packet(gw, packet):
    """Log and outcome of every request of a packet."""
    creds, requests = packet
    env = remoting.Envelope(3)
    if creds != 'none':
        env.headers['Credentials'] = CREDS[creds]
    for i, (form, target) in enumerate(requests):
        n = '/%d' % (i + 1)
        if form == 'amf0':
            env[n] = remoting.Request(target, body=[u'x%d' % i])
        else:
            m = messaging.RemotingMessage(messageId=u'M%d' % i, headers={})
            m.destination, m.operation = target.split('.')
            m.body = [u'x%d' % i]
            env[n] = remoting.Request(u'null', body=[m])
    del LOG[:]
    r = gw.getResponse(env, {'http': 1})
    return list(LOG), [r['/%d' % (i + 1)].status
                       for i in range(len(requests))]


def session_model(secure, packet):
    creds, requests = packet
    log = []
    out = []
    c = CREDS[creds]
    given = (None, None) if c is None else (u'user', c[u'password'])
    for i, (form, target) in enumerate(requests):
        who, what = [t[1:] for t in TARGETS if t[0] == target][0]
        missing = what == 'missing'
        if who is None and secure:
            who, what = 'gw', 'accept'
        if who is not None:
            log.append(('auth', who) + given)
        if what == 'reject' or who is not None and creds != 'good':
            out.append(remoting.STATUS_ERROR)
        elif missing:
            out.append(remoting.STATUS_ERROR)
        else:
            log.append(('call', str(target), u'x%d' % i))
            out.append(remoting.STATUS_OK)
    return log, out


def sessions(ctx, gs):
    """One gateway, several packets of several requests."""
    forms = [(f, t[0]) for t in TARGETS for f in ('amf0', 'amf3')]
    core = [(f, t) for f, t in forms if t in (u's.open', u's.a', u's.b',
                                              u't.open')]
    creds = ('none', 'bad', 'good')
    short = [(c, (r,)) for c in creds for r in forms]
    plans = [[p] for c in creds for n in ((2, 3) if not ctx.thorough else
                                          (2, 3, 4))
             for p in [(c, r) for r in mc.seqs(forms if n < 3 or n == 3 and
                                               ctx.thorough else core, n)]]
    plans += list(mc.seqs(short, 2))
    plans += list(mc.seqs([(c, (r,)) for c in creds for r in (
        forms if ctx.thorough else core) if c != 'bad' or r[0] == 'amf0'], 3))
    pairs = [(c, r) for c in ('none', 'good') for r in mc.seqs(
        core if ctx.thorough else core[::2] + core[3:4], 2)]
    plans += list(mc.seqs(pairs, 2))
    n = 0
    for plan in plans:
        for kind in ('instance', 'class'):
            for secure in (False, True):
                n += 1
                if not ctx.mine('session/%s/%s/%r' % (kind, secure, plan)):
                    continue
                gw = session_gateway(kind, secure)
                ctx.state(('session', kind, secure, repr(plan)))
                for packet in plan:
                    ctx.step(len(packet[1]))
                    ctx.trace()
                    want = session_model(secure, packet)
                    r = mc.attempt(session_packet, gw, packet)
                    if r != ('ok', want):
                        ctx.violation(
                            'session', 'packets %r to %s services, gateway '
                            'authenticator %s: the packet %r gives %r, '
                            'expected %r' % (plan, kind, secure, packet, r[1:],
                                             want))
                        break
    ctx.bound('sessions of several packets and requests', n)


def run(ctx):
    gs = globalstate.GlobalState()
    guards(ctx, gs)
    paths(ctx, gs)
    described(ctx, gs)
    sessions(ctx, gs)
    histories(ctx, gs)
    gs.restore()
    ctx.assume('guards are attached to functions and classes, not to '
               'attributes that only exist on instances of a service class')
