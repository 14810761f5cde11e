"""C14: remoting envelopes against an independent packet reader and writer."""
import itertools
import struct

import pyamf
from pyamf import amf3, remoting, util

import amfspec
from amfspec import Node
import globalstate
import mc
from packets import STATUS, parse
from pyval import canon_py, Foreign

REFUSED = (pyamf.DecodeError, IOError, UnicodeError, pyamf.ReferenceError)


class T(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


CLASSES = {T: u'c14.T'}


def rewrite(version, headers, bodies, mode, avm):
    """A packet of another implementation; values are Nodes."""
    out = [struct.pack('>HH', version, len(headers))]

    def size(b):
        n = {'exact': len(b), 'zero': 0, 'unknown': 0xffffffff}[mode]
        return struct.pack('>I', n) + b

    def utf(u):
        b = u.encode('utf-8')
        return struct.pack('>H', len(b)) + b

    kinds = ('s', 'n', 'b', 'date', 'array', 'ecma', 'obj', 'typed', 'ba') \
        if avm else ()
    for name, required, v in headers:
        w = amfspec.Amf0Writer(avmplus=kinds)
        w.value(v)
        out.append(utf(name) + chr(required) + size(w.bytes()))
    out.append(struct.pack('>H', len(bodies)))
    for m in bodies:
        w = amfspec.Amf0Writer(avmplus=kinds)
        if m[0] == 'request':
            out.append(utf(m[1]) + utf(m[2]))
            w.w('\x0a' + struct.pack('>I', len(m[3])))
            for a in m[3]:
                w.value(a)
        else:
            out.append(utf(m[1] + STATUS[m[2]]) + utf(u'null'))
            w.value(m[3])
        out.append(size(w.bytes()))
    return ''.join(out)


# ------------------------------------------------------------ the alphabet
def pool():
    """Values that envelopes share; fresh for every envelope."""
    s = u'shared text'
    l = [1, s]
    t = T(a=s, l=l)
    d = {u'k': s, u'l': l}
    return {
        'null': None, 'int': 5, 'float': -1.5, 'true': True, 'empty': u'',
        'text': s, 'uni': u'\xe9\u20ac', 'list': l, 'list2': [l, l],
        'dict': d, 'obj': pyamf.ASObject(z=s, d=d), 'typed': t,
        'typed2': [t, t], 'nolist': [], 'nodict': {},
        'undef': pyamf.Undefined,
    }


def nodes():
    """The same values as abstract ones."""
    s = ('s', u'shared text')

    def node(kind, pairs=(), items=(), name=None):
        n = Node(kind, name)
        n.pairs = list(pairs)
        n.items = list(items)
        return n
    l = node('array', items=[('n', 1.0), s])
    t = node('typed', [(u'a', s), (u'l', l)], name=u'c14.T')
    d = node('obj', [(u'k', s), (u'l', l)])
    return {
        'null': ('null',), 'int': ('n', 5.0), 'float': ('n', -1.5),
        'true': ('b', True), 'empty': ('s', u''), 'text': s,
        'uni': ('s', u'\xe9\u20ac'), 'list': l,
        'list2': node('array', items=[l, l]), 'dict': d,
        'obj': node('obj', [(u'z', s), (u'd', d)]), 'typed': t,
        'typed2': node('array', items=[t, t]), 'nolist': node('array'),
        'nodict': node('obj'), 'undef': ('undef',),
    }


VALUES = ['null', 'int', 'float', 'true', 'empty', 'text', 'uni', 'list',
          'list2', 'dict', 'obj', 'typed', 'typed2', 'nolist', 'nodict',
          'undef']
LONG = u'n' * 300
HNAMES = [u'a', u'', u'Credentials', u'\xe9t\xe9', LONG]
IDS = [u'/1', u'/2', u'', u'r\xe9ponse', u'/1/onResult', u'x/onStatus', LONG]
TARGETS = [u'svc.method', u'null', u'', u'\xe9.\u20ac', LONG]

FAULT = ('code', 'type', 'details', 'description')


def message(m, vals):
    """A pyamf message of a description."""
    if m[0] == 'request':
        return m[2], remoting.Request(m[1], body=[vals[x] for x in m[3]])
    if m[3] == 'fault':
        b = remoting.ErrorFault(code=u'C', type=u'Ty', details=vals['list'],
                                description=u'\xe9')
    else:
        b = vals[m[3]]
    return m[1], remoting.Response(b, status=m[2])


def build(version, hs, ms):
    vals = pool()
    e = remoting.Envelope(version)
    for name, required, v in hs:
        e.headers[name] = vals[v]
        e.headers.set_required(name, required)
    for m in ms:
        name, msg = message(m, vals)
        # the same id may be used several times
        e.bodies.append((name, msg))
        msg.envelope = e
    return e


def fault_node(ns):
    n = Node('obj')
    n.pairs = [(u'level', ('s', u'error')), (u'code', ('s', u'C')),
               (u'type', ('s', u'Ty')), (u'details', ns['list']),
               (u'description', ('s', u'\xe9'))]
    return n


def abstract(hs, ms):
    ns = nodes()
    headers = [(n, r, ns[v]) for n, r, v in hs]
    bodies = []
    for m in ms:
        if m[0] == 'request':
            bodies.append(('request', m[1], m[2], [ns[x] for x in m[3]]))
        else:
            bodies.append(('response', m[1], m[2], fault_node(ns)
                           if m[3] == 'fault' else ns[m[3]]))
    return headers, bodies


def args_node(items):
    n = Node('array')
    n.items = list(items)
    return n


def want(hs, ms):
    headers, bodies = abstract(hs, ms)
    return ([(n, r, amfspec.canon(v)) for n, r, v in headers],
            [b[:3] + (amfspec.canon(args_node(b[3]) if b[0] == 'request'
                                    else b[3]),) for b in bodies])


def observe(env):
    """Content of a decoded envelope in the same form."""
    headers = [(n, bool(env.headers.is_required(n)), canon_py(v, CLASSES))
               for n, v in env.headers.items()]
    bodies = []
    for name, m in env:
        if m.envelope is not env or m.headers is not env.headers:
            raise Foreign('message of another envelope')
        if isinstance(m, remoting.Request):
            bodies.append(('request', m.target, name,
                           canon_py(m.body, CLASSES)))
        else:
            b = m.body
            if isinstance(b, remoting.BaseFault):
                b = dict((k, getattr(b, k)) for k in FAULT + ('level',))
            bodies.append(('response', name, m.status, canon_py(b, CLASSES)))
    return env.amfVersion, headers, bodies


def check(ctx, version, hs, ms, foreign=True):
    ctx.state((version, hs, ms))
    wh, wb = want(hs, ms)
    for strict in (False, True):
        ctx.step(2)
        ctx.trace()
        r = mc.attempt(lambda: remoting.encode(
            build(version, hs, ms), strict=strict).getvalue())
        if r[0] != 'ok':
            ctx.violation('encode-exc', 'version %d, headers %r, messages %r '
                          '(strict %s): cannot be encoded: %r' % (
                              version, hs, ms, strict, r[1:]))
            continue
        data = r[1]
        try:
            pv, ph, pb, _ = parse(data, strict)
        except amfspec.SpecError, e:
            ctx.violation('encode-malformed', 'version %d, headers %r, '
                          'messages %r (strict %s): %r is no packet: %s' % (
                              version, hs, ms, strict, data, e))
            continue
        if pv != version or sorted(ph) != sorted(wh) or pb != wb:
            ctx.violation('encode-content', 'version %d, headers %r, messages '
                          '%r (strict %s): packet holds %r %r' % (
                              version, hs, ms, strict, ph, pb))
        decoded(ctx, data, strict, version, wh, wb, 'own', (hs, ms))
    if foreign:
        h, b = abstract(hs, ms)
        for avm in ((False, True) if version == 3 else (False,)):
            for mode in ('exact', 'zero', 'unknown'):
                data = rewrite(version, h, b, mode, avm)
                for strict in ((False, True) if mode == 'exact' else
                               (False,)):
                    ctx.step()
                    ctx.trace()
                    decoded(ctx, data, strict, version, wh, wb,
                            'foreign %s avm=%s' % (mode, avm), (hs, ms))


def decoded(ctx, data, strict, version, wh, wb, how, desc):
    r = mc.attempt(lambda: observe(remoting.decode(data, strict=strict)))
    if r[0] != 'ok':
        ctx.violation('decode-exc', '%s packet of %r (strict %s): %r gives %r'
                      % (how, desc, strict, data, r[1:]))
        return
    v, gh, gb = r[1]
    if v != version or sorted(gh) != sorted(wh) or gb != wb:
        ctx.violation('decode-content', '%s packet of %r (strict %s) decodes '
                      'to %r %r, expected %r %r' % (how, desc, strict, gh, gb,
                                                    wh, wb))


# -------------------------------------------------------------- operations
def single(ctx):
    for version in (0, 3):
        for m in all_messages():
            if ctx.mine('one/%d/%r' % (version, m)):
                check(ctx, version, (), (m,))
        for n in HNAMES:
            for req in (False, True):
                for v in VALUES:
                    if ctx.mine('header/%d/%r/%s/%s' % (version, n, req, v)):
                        check(ctx, version, ((n, req, v),), ())


def all_messages():
    for t in TARGETS:
        for i in IDS:
            for args in ((), ('list',), ('int', 'list2'), ('list', 'list')):
                yield ('request', t, i, args)
    for a in VALUES:
        for b in VALUES:
            yield ('request', u's.m', u'/1', (a, b))
    for i in IDS:
        for s in STATUS:
            for b in VALUES:
                if s == 1 and b in ('dict', 'obj', 'nodict'):
                    # anonymous objects with this status are faults
                    continue
                yield ('response', i, s, b)
            if s == 1:
                yield ('response', i, s, 'fault')


MESSAGES = [
    ('request', u's.m', u'/1', ()),
    ('request', u's.m', u'/1', ('list', 'list')),
    ('request', u's.m', u'/2', ('typed', 'list2')),
    ('request', u'null', u'/3', ('dict', 'text')),
    ('request', u'\xe9', u'r\xe9ponse', ('typed2',)),
    ('response', u'/1', 0, 'list2'),
    ('response', u'/2', 0, 'typed'),
    ('response', u'/2', 1, 'fault'),
    ('response', u'/3', 2, 'dict'),
    ('response', u'/4', 0, 'null'),
    ('response', u'/5', 0, 'obj'),
]
HEADERS = [(n, r, v) for n in (u'a', u'\xe9') for r in (False, True)
           for v in ('int', 'list2', 'dict', 'typed', 'text')]


def combos(ctx):
    maxm = 4 if ctx.thorough else 3
    ctx.bound('messages per envelope', maxm)
    ctx.bound('headers per envelope', 2)
    for version in (0, 3):
        for n in range(2, maxm + 1):
            for head in mc.seqs(MESSAGES, n - 1):
                if not ctx.mine('many/%d/%s' % (version, '.'.join(
                        str(MESSAGES.index(x)) for x in head))):
                    continue
                for last in MESSAGES:
                    check(ctx, version, (), head + (last,), n == 2)
        for h1, h2 in itertools.product(HEADERS, HEADERS):
            if h1[0] == h2[0]:
                continue
            if not ctx.mine('headers/%d/%r/%r' % (version, h1, h2)):
                continue
            for m in ((), (MESSAGES[1],), (MESSAGES[5], MESSAGES[5])):
                check(ctx, version, (h1, h2), m, not m)


def truncation(ctx):
    """Every prefix of a packet is refused."""
    for version in (0, 3):
        envs = [((HEADERS[i], HEADERS[-1]), ()) for i in range(3)]
        envs += [((), (m,)) for m in MESSAGES]
        envs += [((HEADERS[3],), (a, b)) for a in MESSAGES[:7]
                 for b in (MESSAGES if ctx.thorough else MESSAGES[4:8])]
        for i, (hs, ms) in enumerate(envs):
            if not ctx.mine('prefix/%d/%d' % (version, i)):
                continue
            for strict in (False, True):
                data = remoting.encode(build(version, hs, ms),
                                       strict=strict).getvalue()
                for k in range(len(data)):
                    ctx.step()
                    ctx.trace()
                    r = mc.attempt(remoting.decode, data[:k], strict=strict)
                    if r[0] == 'ok' or not isinstance(r[2], REFUSED):
                        ctx.violation(
                            'prefix-' + r[0], 'the first %d of %d bytes of %r '
                            '(strict %s) give %r' % (k, len(data), data,
                                                     strict, r[1:]))
                if not strict:
                    continue
                for extra in ('\x00', '\x05', 'abc', data):
                    ctx.step()
                    ctx.trace()
                    r = mc.attempt(remoting.decode, data + extra, strict=True)
                    if r[0] == 'ok' or not isinstance(r[2], REFUSED):
                        ctx.violation('trailing', '%r followed by %r gives '
                                      '%r in strict mode' % (data, extra,
                                                             r[1:]))


def corruption(ctx):
    """A changed byte is refused or has the meaning the format gives it."""
    envs = [(v, (HEADERS[3], HEADERS[-1]), (m, MESSAGES[1]))
            for v in (0, 3) for m in (MESSAGES[0], MESSAGES[2], MESSAGES[5],
                                      MESSAGES[8])]
    if ctx.thorough:
        envs += [(v, (HEADERS[3],), (a, b)) for v in (0, 3)
                 for a in MESSAGES for b in MESSAGES]
    for i, (version, hs, ms) in enumerate(envs):
        data = remoting.encode(build(version, hs, ms), strict=True).getvalue()
        for at in range(len(data)):
            if not ctx.mine('corrupt/%d/%d' % (i, at)):
                continue
            b = ord(data[at])
            for x in sorted(set([0, 0xff, b ^ 1, b ^ 0x80, (b + 1) & 0xff,
                                 (b - 1) & 0xff]) - set([b])):
                bad = data[:at] + chr(x) + data[at + 1:]
                ctx.step()
                ctx.trace()
                r = mc.attempt(remoting.decode, bad, strict=True)
                if r[0] != 'ok':
                    continue
                try:
                    got = observe(r[2] if r[0] == 'exc' else r[1])
                except (Foreign, ValueError, KeyError):
                    continue
                try:
                    pv, ph, pb, _ = parse(bad, True)
                except amfspec.SpecError, e:
                    if getattr(e, 'lenient', False) or \
                            'UTF-8' in str(e) or 'utf' in str(e).lower():
                        continue
                    ctx.violation(
                        'corrupt-accepted', 'byte %d of %r changed to %02x: '
                        'no packet (%s) but decoded to %r' % (
                            at, data, x, e, got))
                    continue
                dh = dict((n, (n, q, v)) for n, q, v in ph)
                if got[0] != pv or sorted(got[1]) != sorted(dh.values()) or \
                        loose(got[2]) != loose(pb):
                    ctx.violation(
                        'corrupt-content', 'byte %d of %r changed to %02x: '
                        'decoded to %r, the packet says %r' % (
                            at, data, x, got, (ph, pb)))


def loose(bodies):
    # error responses with anonymous objects become faults
    return [b if b[:1] + b[2:3] != ('response', 1) else b[:3] for b in bodies]


def collection(ctx):
    """Headers and their required flags against a map."""
    ops = [('set', k) for k in 'ab'] + [('del', k) for k in 'ab'] + \
        [('req', k, v) for k in 'ab' for v in (True, False)]
    depth = 5 if ctx.thorough else 4
    ctx.bound('depth of header histories', depth)
    for head in mc.seqs(ops, 2):
        if not ctx.mine('collection/%r' % (head,)):
            continue
        for tail in mc.seqs_upto(ops, depth - 2):
            run_collection(ctx, head + tail)


def run_collection(ctx, history):
    h = remoting.HeaderCollection()
    model = {}
    for op in history:
        ctx.step()
        k = op[1]
        if op[0] == 'set':
            r = mc.attempt(h.__setitem__, k, 1)
            model.setdefault(k, False)
            w = ('ok', None)
        elif k not in model:
            r = mc.attempt(h.__delitem__, k) if op[0] == 'del' else \
                mc.attempt(h.set_required, k, op[2])
            w = ('exc', 'KeyError')
        elif op[0] == 'del':
            r = mc.attempt(h.__delitem__, k)
            del model[k]
            w = ('ok', None)
        else:
            r = mc.attempt(h.set_required, k, op[2])
            model[k] = op[2]
            w = ('ok', None)
        if r[:2] != w:
            ctx.violation('collection', '%r: %r gave %r' % (history, op, r))
    ctx.trace()
    ctx.state(('collection', tuple(sorted(model.items()))))
    got = dict((k, bool(h.is_required(k))) for k in h)
    if got != model or len(h) != len(model):
        ctx.violation('collection', '%r leaves %r, expected %r' % (
            history, got, model))


def messages():
    """Fresh messages with a description of what they hold."""
    return [
        (('rq', u's', [1]), remoting.Request(u's', body=[1])),
        (('rq', u't', [1]), remoting.Request(u't', body=[1])),
        (('rq', u's', [2]), remoting.Request(u's', body=[2])),
        (('rs', 0, [1]), remoting.Response([1])),
        (('rs', 1, [1]), remoting.Response([1], status=1)),
        (('rs', 2, [2]), remoting.Response([2], status=2)),
        (('rs', 0, None), remoting.Response(None)),
    ]


def content(e):
    """What an envelope holds, and if it is consistent about it."""
    pairs = list(e.bodies)
    ok = list(e) == pairs == list(e.iteritems()) == list(e.items()) and \
        e.keys() == [k for k, m in pairs] and len(e) == len(pairs)
    return [(k, id(m)) for k, m in pairs], ok


def replay_env(history):
    """Run a history of an envelope and of its model, a list of pairs."""
    e = remoting.Envelope(0)
    model = []
    for op in history:
        if op[0] == 'head':
            e.headers[op[1]] = op[2]
            continue
        d, m = messages()[op[2]]
        if op[0] == 'add':
            e.append(op[1], m)
            model.append((op[1], m, d))
            continue
        e[op[1]] = m
        if op[1] in [x[0] for x in model]:
            model = [(op[1], m, d) if x[0] == op[1] else x for x in model]
        else:
            model.append((op[1], m, d))
    heads = dict((op[1], op[2]) for op in history if op[0] == 'head')
    return e, model, heads


def envelopes(ctx):
    """The envelope as a collection of messages, and what is equal to what."""
    names = (u'/1', u'/2')
    ops = [(o, k, i) for o in ('set', 'add') for k in names
           for i in (range(7) if o == 'set' else (0, 5))]
    ops += [('head', u'a', 1), ('head', u'a', 2), ('head', u'b', 1)]
    depth = 3 if ctx.thorough else 2
    ctx.bound('depth of envelope histories', depth)
    bad = (None, 5, {}, [], u'x', remoting.Envelope(0))
    for h in mc.seqs_upto(ops, depth):
        if not ctx.mine('envelope/%r' % (h,)):
            continue
        ctx.step()
        ctx.trace()
        e, model, heads = replay_env(h)
        ctx.state(('envelope', [(x[0], x[2]) for x in model]))
        wrong = []
        if content(e) != ([(x[0], id(x[1])) for x in model], True):
            wrong.append('messages %r' % (content(e),))
        if bool(e) != bool(model or heads):
            wrong.append('truth %r' % bool(e))
        if any(x[1].envelope is not e for x in model):
            wrong.append('a message of another envelope')
        for k in names + (u'/3',):
            mine = [x for x in model if x[0] == k]
            # the result, not the debug information that comes with it
            pick = [x[1] for x in mine if x[2][:2] != ('rs', 2)][-1:] or \
                [x[1] for x in mine][-1:]
            many = len([x for x in mine if x[2][:2] != ('rs', 2)]) > 1 or \
                len(mine) > 1 and all(x[2][:2] == ('rs', 2) for x in mine)
            r = mc.attempt(lambda: e[k])
            if (k in e) != bool(mine):
                wrong.append('%r in it: %r' % (k, k in e))
            if not mine and r[:2] != ('exc', 'KeyError') or mine and (
                    r[0] != 'ok' or (r[1] is not pick[0] if not many else
                                     r[1] not in [x[1] for x in mine])):
                wrong.append('%r gives %r' % (k, r[1:]))
        for b in bad:
            r = mc.attempt(e.__setitem__, u'/1', b)
            if r[:2] != ('exc', 'TypeError'):
                wrong.append('takes %r: %r' % (b, r))
        if content(e) != ([(x[0], id(x[1])) for x in model], True):
            wrong.append('changed by what was refused')
        if wrong:
            ctx.violation('envelope', '%r: %s' % (h, '; '.join(wrong)))
    # equality goes by content
    short = mc.seqs_upto(ops, 1 if not ctx.thorough else 2)
    short = list(short) + [(('set', u'/1', 0), ('set', u'/2', 3)),
                           (('set', u'/2', 3), ('set', u'/1', 0)),
                           (('add', u'/1', 0), ('add', u'/1', 0)),
                           (('set', u'/1', 0), ('head', u'a', 1))]
    for h1 in short:
        if not ctx.mine('equal/%r' % (h1,)):
            continue
        for h2 in short:
            ctx.step()
            ctx.trace()
            a, m1, heads1 = replay_env(h1)
            b, m2, heads2 = replay_env(h2)
            c1 = [(x[0], x[2]) for x in m1]
            c2 = [(x[0], x[2]) for x in m2]
            want = c1 == c2 and heads1 == heads2
            got = [bool(a == b), not (a != b), bool(b == a)]
            if got != [want] * 3:
                ctx.violation('equal', 'envelopes %r and %r: %r, expected %r'
                              % (h1, h2, got, want))
            b.amfVersion = 3
            if a == b or not a != b:
                ctx.violation('equal', 'envelopes %r and %r of two versions '
                              'are equal' % (h1, h2))
            d = dict((x[0], x[1]) for x in m2)
            want = len(c1) == len(d) and sorted(
                (x[0], repr(x[2])) for x in m1) == sorted(
                (k, repr(v)) for k, v in dict(c2).items())
            got = [bool(a == d), not (a != d)]
            if got != [want] * 2:
                ctx.violation('equal', 'envelope %r and a dict of %r: %r, '
                              'expected %r' % (h1, c2, got, want))
        for other in (5, None, u'x', []):
            a = replay_env(h1)[0]
            if a == other or not a != other:
                ctx.violation('equal', 'envelope %r is equal to %r' % (
                    h1, other))
    for d1, a in messages():
        for d2, b in messages():
            ctx.step()
            if [bool(a == b), not (a != b)] != [d1 == d2] * 2:
                ctx.violation('equal', 'messages %r and %r: equal %r, '
                              'different %r' % (d1, d2, a == b, a != b))


def counts(ctx):
    for n in (255, 256, 32767, 32768, 65535):
        if not ctx.mine('count/%d' % n):
            continue
        e = remoting.Envelope(0)
        for i in range(n):
            m = remoting.Response(None, envelope=e)
            e.bodies.append((u'/%d' % i, m))
        for strict in (False, True):
            ctx.step()
            ctx.trace()
            ctx.alive()
            r = mc.attempt(lambda: remoting.decode(
                remoting.encode(e, strict=strict), strict=strict))
            if r[0] != 'ok' or len(r[1]) != n or r[1].keys() != e.keys():
                ctx.violation('count', 'an envelope of %d messages gave %r' % (
                    n, r[:2] if r[0] == 'exc' else len(r[1])))


def run(ctx):
    gs = globalstate.GlobalState()
    pyamf.register_class(T, 'c14.T')
    single(ctx)
    combos(ctx)
    truncation(ctx)
    corruption(ctx)
    collection(ctx)
    envelopes(ctx)
    counts(ctx)
    gs.restore()
    ctx.assume('request targets do not end like a response status; error '
               'responses carry faults or values that are no anonymous '
               'objects')
