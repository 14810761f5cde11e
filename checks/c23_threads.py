"""C23: concurrent use gives the results of sequential use."""
import datetime
import decimal
import itertools
import os
import sys

for _m in ('cpyamf', 'django', 'google', 'sqlalchemy', 'elixir'):
    sys.modules.setdefault(_m, None)

import instrument
instrument.install([p for p in sys.path if os.path.isfile(
    os.path.join(p, 'pyamf', 'amf3.py'))][0])

import pyamf
from pyamf import amf0, amf3, flex, remoting, sol, util, xml
from pyamf.flex import messaging
from pyamf.remoting import gateway
from pyamf.remoting.gateway import wsgi

import amfspec
import globalstate
import mc
import sched


def enc(v, version=3):
    return pyamf.encode(v, encoding=version).getvalue()


def dec(data, version=3):
    return list(pyamf.decode(data, encoding=version))


def image(v):
    """A canonical form."""
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [image(x) for x in v]
    if isinstance(v, dict):
        return [type(v).__name__] + sorted(
            [(k, image(x)) for k, x in v.items()])
    if hasattr(v, 'tag') and hasattr(v, 'attrib'):
        return ('xml', v.tag, v.text)
    if hasattr(v, '__dict__') and not isinstance(v, type):
        return (v.__class__.__name__, sorted(
            [(k, image(x)) for k, x in vars(v).items()]))
    return v


def spec(data, version=3):
    return [amfspec.canon(x) for x in amfspec.read_all(data, version, {})]


# -------------------------------------------------------------- scenarios
# each: make() -> (operations, what to look at when all are done)
def classes():
    """Fresh classes: nothing is known about them yet."""
    class Base(object):
        class __amf__:
            static = ('s',)
            exclude = ('hidden',)
            synonym = {'py': 'wire'}

    class Mid(Base):
        class __amf__:
            static = ('m',)
            readonly = ('ro',)

    class Leaf(Mid):
        class __amf__:
            alias = 'w.Leaf'

        @property
        def calc(self):
            return u'calc'

    class Sealed(object):
        class __amf__:
            alias = 'w.Sealed'
            dynamic = False
            static = ('a', 'b')

    def leaf(n=1):
        l = Leaf()
        l.s, l.m, l.ro, l.py, l.hidden, l.x = n, 2, 3, 4, 5, 6
        return l

    def sealed():
        s = Sealed()
        s.a, s.b = 1, u'b'
        return s
    return Base, Mid, Leaf, Sealed, leaf, sealed


LEAF3 = ('\x0a\x0b\x0dw.Leaf\x03s\x04\x01\x03m\x04\x02\x05ro\x04\x03'
         '\x09wire\x04\x04\x0dhidden\x04\x05\x03x\x04\x06\x01')
LEAF0 = ('\x10\0\x06w.Leaf\0\1s\0\x3f\xf0\0\0\0\0\0\0\0\1m\0\x3f\xf0\0\0\0\0'
         '\0\0\0\4wire\0\x3f\xf0\0\0\0\0\0\0\0\6hidden\0\x3f\xf0\0\0\0\0\0\0'
         '\0\1x\0\x3f\xf0\0\0\0\0\0\0\0\0\x09')


def registered(kinds):
    def make():
        Base, Mid, Leaf, Sealed, leaf, sealed = classes()
        for c in (Leaf, Sealed):
            pyamf.register_class(c)
        objs = [leaf(i) for i in range(3)]
        ops = []
        for i, k in enumerate(kinds):
            ops.append({
                'e3': lambda i=i: spec(enc(objs[i])),
                'e0': lambda i=i: spec(enc(objs[i], 0), 0),
                'd3': lambda: image(dec(LEAF3)),
                'd0': lambda: image(dec(LEAF0, 0)),
                'l': lambda: (lambda a: (
                    a.alias, a.klass is Leaf, sorted(
                        a.getEncodableAttributes(objs[i]).items())))(
                            pyamf.get_class_alias(Leaf)),
                'm': lambda: spec(enc([sealed(), objs[i]])),
            }[k])
        return ops, lambda: (spec(enc([leaf(), sealed()])),
                             image(dec(LEAF3)))
    return make


def anonymous(kinds):
    """nothing registered at all, a common base"""
    def make():
        Base, Mid, Leaf, Sealed, leaf, sealed = classes()

        class Other(Mid):
            pass

        def other():
            o = Other()
            o.s, o.m, o.ro, o.py, o.hidden, o.x = range(6)
            return o

        def mid():
            o = Mid()
            o.s, o.m, o.ro, o.py, o.hidden, o.x = range(6)
            return o
        ops = [{'o': lambda: spec(enc(other())),
                'm': lambda: spec(enc(mid())),
                'o0': lambda: spec(enc(other(), 0), 0)}[k] for k in kinds]
        return ops, lambda: (spec(enc([other(), mid()])), [
            c in pyamf.CLASS_CACHE for c in (Base, Mid)])
    return make


def loaders():
    Base, Mid, Leaf, Sealed, leaf, sealed = classes()

    def load(name):
        return {'w.Leaf': Leaf, 'w.Sealed': pyamf.ClassAlias(
            Sealed, 'w.Sealed', static_attrs=['a', 'b'], defer=True)}.get(
                name)
    pyamf.register_class_loader(load)
    s = '\x0a\x23\x11w.Sealed\x03a\x03b\x04\x01\x04\x02'

    def after():
        r = (image(dec(LEAF3 + s)), spec(enc([leaf(), sealed()])),
             pyamf.get_class_alias('w.Leaf').klass is Leaf)
        pyamf.unregister_class_loader(load)
        return r
    return [lambda: image(dec(LEAF3)), lambda: image(dec(s + LEAF3))], after


def by_module():
    """classes found by their name"""
    return [lambda: image(dec('\x0a\x0b\x33fractions.Fraction\x01'
                              .replace('\x33', chr(2 * 18 + 1)))),
            lambda: type(dec('\x10\0\x12fractions.Fraction\0\0\x09', 0)[0])
            .__name__], lambda: None


def integers():
    ns = [0, 127, 128, 16383, 2097152, -1, 2 ** 28 - 1, -2 ** 28]
    return [lambda: [enc(n).encode('hex') for n in ns],
            lambda: [enc([n]).encode('hex') for n in reversed(ns)]], \
        lambda: [enc(n).encode('hex') for n in ns]


def documents():
    e0 = '\x0f\0\0\0\x08<a>b</a>'
    e3 = '\x0b\x11<a>c</a>'
    bad = '\x0b\x2d<!DOCTYPE a [ ]><a></a>'
    return [lambda: image(dec(e0, 0)), lambda: image(dec(e3)),
            lambda: mc.attempt(dec, '\x0b\x21<!DOCTYPE a><a/>')[:2]], \
        lambda: enc(dec(e3)[0])


def documents_out():
    from xml.etree import ElementTree
    a = ElementTree.Element('a')
    a.text = 'b'
    return [lambda: enc(a), lambda: enc([u'x', a], 0),
            lambda: xml.is_xml(a) and xml.tostring(a)], lambda: enc(a)


def mapped():
    class P(object):
        def __init__(self, n):
            self.n = n

    class Q(object):
        pass
    pyamf.add_type(P, lambda x, encoder=None: {'n': x.n})
    pyamf.add_type(lambda x: isinstance(x, Q), lambda x, encoder=None: u'Q')
    return [lambda: spec(enc([P(1), Q(), P(2)])),
            lambda: spec(enc([Q(), P(3), decimal.Decimal(1)], 0),
                         0)], lambda: spec(enc([P(1), Q()]))


def flexes():
    def msg():
        m = messaging.AcknowledgeMessage(messageId=u'1', body={'a': 1})
        m.clientId = u'c'
        return m
    full = enc(msg())
    c = enc(flex.ArrayCollection([1, u'x']))
    return [lambda: image(dec(full)), lambda: spec_ext(enc(
        flex.ArrayCollection([1, u'x']))), lambda: image(dec(c))], \
        lambda: image([dec(c), dec(full)])


def spec_ext(data):
    # messages are objects like any other, collections are not
    return image(dec(data))


def services(twice):
    def make():
        class S(object):
            def one(self, a):
                return [a, a]

            def two(self, a):
                raise KeyError('missing')
        gw = gateway.BaseGateway({'s': S(), 'f': lambda a: {'f': a}})
        env = []
        for t, arg, r in (('s.one', {'k': 1}, '/1'), ('s.two', 2, '/2'),
                          ('f', u'x', '/3'), ('none', 1, '/4')):
            e = remoting.Envelope(pyamf.AMF0)
            e[r] = remoting.Request(t, [arg], e)
            env.append(remoting.encode(e).getvalue())
        g = wsgi.WSGIGateway({'s': S(), 'f': lambda a: {'f': a}})

        def call(data):
            from cStringIO import StringIO
            out = []
            body = g({'REQUEST_METHOD': 'POST', 'CONTENT_LENGTH': str(
                len(data)), 'wsgi.input': StringIO(data)},
                lambda s, h: out.append(s))
            r = remoting.decode(''.join(body))
            return out, [(i, x.status, image(x.body)[1][:2]
                          if isinstance(x.body, remoting.ErrorFault)
                          else image(x.body)) for i, x in r.bodies]
        pick = {0: (0, 1), 1: (1, 2), 2: (0, 3)}[twice]
        return [lambda i=i: call(env[i]) for i in pick], lambda: call(env[0])
    return make


def amf3_services():
    """remote object requests on one gateway"""
    def echo(a):
        return a
    g = wsgi.WSGIGateway({'echo': echo})

    def call(i):
        from cStringIO import StringIO
        m = messaging.RemotingMessage(
            operation=u'echo', destination=None, messageId=u'm%d' % i,
            body=[u'v%d' % i])
        e = remoting.Envelope(pyamf.AMF3)
        e['/%d' % i] = remoting.Request('null', [m], e)
        data = remoting.encode(e).getvalue()
        out = []
        body = g({'REQUEST_METHOD': 'POST', 'CONTENT_LENGTH': str(
            len(data)), 'wsgi.input': StringIO(data)},
            lambda s, h: out.append(s))
        r = remoting.decode(''.join(body))
        return out, [(k, x.status, x.body.body, x.body.correlationId)
                     for k, x in r.bodies]
    return [lambda: call(1), lambda: call(2)], lambda: call(3)


def errors():
    class E1(Exception):
        pass

    class E2(Exception):
        pass
    pyamf.add_error_class(E1, 'E.1')
    pyamf.add_error_class(E2, 'E.2')

    def fault(code):
        e = remoting.Envelope(0)
        e['/1'] = remoting.Response(remoting.ErrorFault(
            code=code, description=u'd'), status=remoting.STATUS_ERROR)
        r = remoting.decode(remoting.encode(e).getvalue())['/1'].body
        x = mc.attempt(r.raiseException)
        return x[1], str(x[2])
    return [lambda: fault('E.1'), lambda: fault('E.2')], \
        lambda: fault('E.1')


def things():
    """one of each kind of value, in both formats"""
    d = datetime.datetime(2009, 9, 9, 9, 9, 9)

    def both(vs):
        return [image(dec(enc(v, n), n)) for v in vs for n in (0, 3)]
    return [lambda: both([d, {'a': [1, 2.5]}, pyamf.MixedArray(a=1)]),
            lambda: both([u'\xe9', (None, True), pyamf.Undefined])], \
        lambda: both([d])


def shared_objects():
    def one(name, v, n):
        return image(sol.decode(sol.encode(name, v, encoding=n)))
    return [lambda: one('n1', {'a': 1, 'b': [u'a']}, 0),
            lambda: one('n2', {'a': u'a', 'c': {}}, 3)], \
        lambda: one('n', {}, 0)


def byte_arrays():
    def one(n):
        b = amf3.ByteArray()
        b.compressed = bool(n)
        b.writeInt(n)
        b.writeObject({'k': [n]})
        b.writeUTF(u'\xe9')
        c = dec(enc([b, b]))[0]
        c[0].seek(0)
        return (c[0] is c[1], c[0].readInt(), image(c[0].readObject()),
                c[0].readUTF())
    return [lambda: one(0), lambda: one(1)], lambda: one(2)


def posted():
    pyamf.add_post_decode_processor(lambda v, *a: [v, 1])
    pyamf.add_post_decode_processor(lambda v, *a: [v, 2])
    return [lambda: image(dec(enc(u'a'))),
            lambda: image(dec(enc({'b': 1}, 0) + enc(2, 0), 0))], \
        lambda: image(dec(enc(3)))


def packages():
    """use of a registered package"""
    class A(object):
        pass

    class B(A):
        class __amf__:
            static = ('z',)
    A.__module__ = B.__module__ = 'pkg'
    pyamf.register_package({'A': A, 'B': B, '__name__': 'pkg'}, 'pkg')

    def one(c):
        o = c()
        o.z = 1
        return spec(enc(o)), image(dec(enc(o)))
    return [lambda: one(A), lambda: one(B)], lambda: (one(A), one(B))


SCENARIOS = [
    ('class e3 e3', registered(['e3', 'e3'])),
    ('class e3 e0', registered(['e3', 'e0'])),
    ('class e3 d3', registered(['e3', 'd3'])),
    ('class d3 d0', registered(['d3', 'd0'])),
    ('class l d3', registered(['l', 'd3'])),
    ('class m e3', registered(['m', 'e3'])),
    ('bases o m', anonymous(['o', 'm'])),
    ('bases o o', anonymous(['o', 'o'])),
    ('bases m o0', anonymous(['m', 'o0'])),
    ('loaders', loaders),
    ('by module', by_module),
    ('integers', integers),
    ('documents', documents),
    ('documents out', documents_out),
    ('mapped', mapped),
    ('flex', flexes),
    ('gateway 0', services(0)),
    ('gateway 1', services(1)),
    ('gateway 2', services(2)),
    ('remote objects', amf3_services),
    ('errors', errors),
    ('things', things),
    ('shared objects', shared_objects),
    ('byte arrays', byte_arrays),
    ('processors', posted),
    ('packages', packages),
]


# ------------------------------------------------------------ exploration
class Explorer(object):
    def __init__(self, ctx):
        self.ctx = ctx
        # the search for XML libraries is slow and repeated where it is the
        # point only
        self.unbound = globalstate.GlobalState(bind=False)
        self.bound = globalstate.GlobalState()
        self.g0 = self.bound
        self.classes = globalstate.class_state()

    def choose(self, name):
        self.g0 = self.unbound if name.startswith('documents') else self.bound

    def fresh(self):
        self.g0.restore()
        globalstate.restore_classes(self.classes)

    def execute(self, make, plan, order, record=False):
        self.fresh()
        ops, after = make()
        r = sched.Run(ops, plan, order, record)
        out = mc.attempt(r.go)
        end = mc.attempt(after)
        self.ctx.step(sum([t.n for t in r.tasks]))
        return r, out, end[:2]

    def solo(self, make, n):
        """What each operation gives when it is alone."""
        want = []
        tasks = []
        for i in range(n):
            self.fresh()
            ops, after = make()
            r = sched.Run([ops[i]], {}, [0], True)
            want.append(r.go()[0])
            end = mc.attempt(after)[:2]
            tasks.append(r.tasks[0])
        return want, end, tasks


def conflicts(tasks):
    """What more than one of them accesses and at least one changes."""
    loc = {}
    for t in tasks:
        for n, l, w in t.accesses:
            d = loc.setdefault(l, {})
            d[t.index] = d.get(t.index, False) or w
    for l in loc.keys():
        if l[0] == 'a' and l[2] == '*':
            # any attribute of the object
            for m, d in loc.items():
                if m[:2] == l[:2] and m is not l:
                    for i, w in loc[l].items():
                        d[i] = d.get(i, False) or w
                    for i, w in d.items():
                        loc[l][i] = loc[l].get(i, False) or w
    return set([l for l, d in loc.items() if len(d) > 1 and
                [1 for w in d.values() if w]])


def points(task, shared, times):
    """The events before accesses to what is shared."""
    seen = {}
    out = []
    last = 0
    for n, l, w in task.accesses:
        if l not in shared or n == last:
            continue
        last = n
        k = (task.sites[n - 1][0], l)
        seen[k] = seen.get(k, 0) + 1
        if seen[k] <= times:
            out.append(n)
    return out


def statements(task):
    """The events where each statement is met first."""
    seen = set()
    out = []
    for i, (s, st) in enumerate(task.sites):
        if st and s not in seen:
            seen.add(s)
            out.append(i + 1)
    return out


def check(ctx, name, res, want, end, plan, order):
    ctx.add('runs ' + name)
    r, out, e = res
    ctx.trace()
    if out[0] != 'ok':
        ctx.violation(name + ':stuck', '%s, switching at %r from %r: %r' % (
            name, plan, order, out[1:]))
    elif out[1] != want:
        i = [k for k in range(len(want)) if out[1][k] != want[k]][0]
        ctx.violation(name, '%s, switching at %r from %r: thread %d gets %r, '
                      'expected %r' % (name, plan, order, i, out[1][i],
                                       want[i]))
    elif e != end:
        ctx.violation(name + ':after', '%s, switching at %r from %r: '
                      'afterwards %r, expected %r' % (name, plan, order, e,
                                                      end))


# operations of one kind: the other order is the same
SYMMETRIC = ('class e3 e3', 'bases o o', 'remote objects', 'errors',
             'byte arrays')
# explored with two preemptions in the quick tier
DEEP = ('class e3 d3', 'bases o m', 'integers', 'documents', 'documents out',
        'packages')


def run(ctx):
    ex = Explorer(ctx)
    summary = []
    met = set()
    for name, make in SCENARIOS:
        if ctx.only is not None and not ctx.only.startswith(name + '/'):
            continue
        ex.choose(name)
        n = len(make()[0])
        ex.fresh()
        # once to load what is imported on the way, then for real
        ex.solo(make, n)
        want, end, tasks = ex.solo(make, n)
        for w in want:
            if w[0] != 'ok' and name != 'documents':
                ctx.violation(name + ':alone', '%s: alone it gives %r' % (
                    name, w))
        if end[0] != 'ok':
            ctx.violation(name + ':alone', '%s: afterwards %r' % (name, end))
        for order in itertools.permutations(range(n)):
            if name in SYMMETRIC and order[0] or n > 2 and not ctx.thorough \
                    and order not in ((0, 1, 2), (1, 2, 0), (2, 0, 1)):
                continue
            a, b = order[:2]
            base = ex.execute(make, {}, order, True)
            check(ctx, name, base, want, end, {}, order)
            shared = conflicts(base[0].tasks)
            ks = points(base[0].tasks[a], shared, 2)
            summary.append('%s %s: %d/%d/%d' % (
                name, ''.join(map(str, order)), len(tasks[a].sites),
                len(shared), len(ks)))
            # one preemption, before every statement
            st = statements(tasks[a])
            if not ctx.thorough:
                # (statements other scenarios have not been stopped at yet)
                st = [k for k in st if tasks[a].sites[k - 1][0] not in met]
                met.update([tasks[a].sites[k - 1][0] for k in st])
            for k in sorted(set(st + ks)):
                if not ctx.mine('%s/%r/%d' % (name, order, k)):
                    continue
                ctx.state((name, order, tasks[a].sites[k - 1]))
                plan = {a: {k: b}}
                check(ctx, name, ex.execute(make, plan, order), want, end,
                      plan, order)
            if name not in DEEP and not ctx.thorough:
                continue
            # two, before the accesses to what is shared
            if not ctx.thorough:
                ks = points(base[0].tasks[a], shared, 1)
            for k in ks:
                if not ctx.mine('%s/%r/%d/*' % (name, order, k)):
                    continue
                plan = {a: {k: b}}
                r = ex.execute(make, plan, order, True)
                check(ctx, name, r, want, end, plan, order)
                js = points(r[0].tasks[b], conflicts(r[0].tasks),
                            2 if ctx.thorough else 1)
                for j in js:
                    plan = {a: {k: b}, b: {j: a}}
                    ctx.state((name, order, tasks[a].sites[k - 1],
                               r[0].tasks[b].sites[j - 1]))
                    check(ctx, name, ex.execute(make, plan, order),
                          want, end, plan, order)
                    if n > 2:
                        # the third goes on in the middle
                        plan = {a: {k: b}, b: {j: order[2]}}
                        check(ctx, name, ex.execute(make, plan, order),
                              want, end, plan, order)
    ex.fresh()
    if instrument.PLAIN:
        ctx.cap('not instrumented: %r' % instrument.PLAIN)
    ctx.bound('preemptions', '1 before every statement, 2 before accesses to '
              'what is shared')
    ctx.bound('events/shared locations/points', ', '.join(summary))
    ctx.assume('an interleaving is observed at statements, results of calls '
               'and accesses of the package; other libraries are not '
               'interrupted')
