"""C13: custom type mappings against a per value model, over all histories."""
import array
import collections
import datetime
import decimal
import itertools
import sets
import sys
import weakref

for _m in ('cpyamf', 'django', 'google', 'sqlalchemy', 'elixir'):
    sys.modules.setdefault(_m, None)

import pyamf
from pyamf import amf0, amf3, xml as pxml

import amfspec
from amfspec import Node
import globalstate
import mc


class A(object):
    def __init__(self, k=0):
        self.k = k


class B(A):
    pass


class P:
    def __init__(self, k=0):
        self.k = k


class Q:
    def __init__(self, k=0):
        self.k = k


class D(dict):
    k = 0


class L(list):
    k = 0


class N(int):
    k = 0


class S(object):
    """Already has a place in the class registry."""
    k = 0


CLASSES = dict(A=A, B=B, P=P, Q=Q, D=D, L=L, N=N, S=S)


def is_k1(x):
    return getattr(x, 'k', None) == 1


class CallK2(object):
    def __call__(self, x):
        return getattr(x, 'k', None) == 2


is_k2 = CallK2()


def make(name):
    """A fresh value."""
    if name == 'A0':
        return A(0)
    if name == 'A1':
        return A(1)
    if name == 'B1':
        return B(1)
    if name == 'B2':
        return B(2)
    if name == 'P0':
        return P(0)
    if name == 'P1':
        return P(1)
    if name == 'Q0':
        return Q(0)
    if name == 'Q2':
        return Q(2)
    if name == 'D':
        return D({u'a': 1})
    if name == 'D1':
        d = D({u'b': 1})
        d.k = 1
        return d
    if name == 'L':
        return L([7])
    if name == 'N':
        return N(5)
    if name == 'S0':
        return S()
    if name == 'S2':
        s = S()
        s.k = 2
        return s
    if name == 'dict':
        return {u'z': 1}
    if name == 'int':
        return 5
    if name == 'str':
        return u'text'
    if name == 'list':
        return [1, 2]
    if name == 'none':
        return None
    raise KeyError(name)


VALUES = ['A0', 'A1', 'B1', 'B2', 'P0', 'P1', 'Q0', 'Q2', 'D', 'D1', 'L',
          'S0', 'S2', 'dict', 'int', 'str', 'none']

# what a mapping may be declared for
KEYS = {
    'A': A,
    'B': B,
    'P': P,
    'Q': Q,
    'DL': (D, L),
    'AQ-list': [A, Q],
    'PS': (P, S),
    'k1': is_k1,
    'k2-obj': is_k2,
    'lambda-B': lambda x: isinstance(x, B),
    'mixed': (Q, is_k1),
}


def matches(key, v):
    if isinstance(key, (tuple, list)):
        return any([matches(k, v) for k in key])
    if isinstance(key, (type, type(P))):
        return isinstance(v, key)
    return bool(key(v))


class Func(object):
    """A mapping; remembers what it returned so that the model can use it."""

    def __init__(self, tag, memo):
        self.tag = tag
        self.memo = {} if memo else None

    def __call__(self, v, encoder=None):
        if self.memo is not None and id(v) in self.memo:
            return self.memo[id(v)][1]
        if self.tag == 'text':
            r = u'T'
        elif self.tag == 'list':
            r = [u'M', getattr(v, 'k', None), v.__class__.__name__]
        elif self.tag == 'dict':
            r = {u'm': getattr(v, 'k', None)}
        elif self.tag == 'obj':
            r = pyamf.ASObject(m=self.tag)
        elif self.tag == 'zero':
            r = 0
        elif self.tag == 'empty':
            r = u''
        elif self.tag == 'chain':
            r = C2(getattr(v, 'k', None))
        if self.memo is not None:
            self.memo[id(v)] = (v, r)
        return r


class C2(object):
    """What the 'chain' mapping returns; itself mapped to a list."""
    def __init__(self, k):
        self.k2 = k


def encode(values, mode):
    if mode == 'amf3':
        e = amf3.Encoder()
    else:
        e = amf0.Encoder()
        if mode == 'amf0+3':
            e.use_amf3 = True
    for v in values:
        e.writeElement(v)
    return e.stream.getvalue()


def shape(data, mode):
    n = Node('array')
    n.items = amfspec.read_all(data, 3 if mode == 'amf3' else 0)
    return amfspec.canon(n)


def wrap(where, vs):
    if where == 'top':
        return list(vs)
    if where == 'list':
        return [list(vs)]
    if where == 'twice':
        return list(vs) + list(vs)
    if where == 'dict':
        return [dict(('k%d' % i, v) for i, v in enumerate(vs))]
    if where == 'mixed':
        return [pyamf.MixedArray((i, v) for i, v in enumerate(vs))]
    if where == 'attr':
        out = []
        for v in vs:
            out.append(pyamf.ASObject(v=v))
        return out
    raise KeyError(where)


WHERE = ['top', 'list', 'twice', 'dict', 'mixed', 'attr']
MODES = ['amf0', 'amf3', 'amf0+3']


def same(got, want, mode):
    if got == want:
        return True
    try:
        return shape(got, mode) == shape(want, mode)
    except amfspec.SpecError:
        return False


BUILTIN = (int, unicode, type(None))


def expected(regs, vs, where, gs):
    """All the acceptable value sequences (one unless mappings overlap)."""
    options = []
    for v in vs:
        if isinstance(v, BUILTIN) and type(v) in BUILTIN:
            options.append([v])
            continue
        ms = [f for k, f in regs if matches(k, v)]
        options.append([('map', f) for f in ms] if ms else [v])
    return itertools.product(*options)


def realise(vs, choice):
    """Replace mapped values; every occurrence is mapped anew."""
    out = []
    for v, c in zip(vs, choice):
        if isinstance(c, tuple) and c and c[0] == 'map':
            r = c[1](v)
            if isinstance(r, C2):
                r = [u'C2', r.k2]
            out.append(r)
        else:
            out.append(v)
    return out


def dispatch(ctx, gs):
    maxlen = 4 if ctx.thorough else 3
    tags = ['list', 'text', 'chain']
    configs = [((k, t),) for k in sorted(KEYS) for t in
               ('list', 'text', 'dict', 'obj', 'zero', 'empty', 'chain')]
    for a, b in itertools.combinations(sorted(KEYS), 2):
        configs.append(((a, 'list'), (b, 'text')))
        configs.append(((a, 'obj'), (b, 'chain')))
    ctx.bound('mapping configurations', len(configs))
    ctx.bound('values per encoder', maxlen)
    ctx.bound('value alphabet', len(VALUES))
    ctx.bound('containers', len(WHERE))

    for config in configs:
        keys = [KEYS[k] for k, t in config]
        # values the configuration can tell apart first, then one of each
        full = len(config) == 1 and config[0][1] == 'list'
        for memo in (False, True):
            if memo and not ctx.thorough and (
                    len(config) > 1 or config[0][1] not in ('list', 'obj')):
                continue
            for n in range(1, maxlen + 1):
                if n == 3 and not full and not ctx.thorough:
                    continue
                if n == 4 and not full:
                    continue
                if n >= 3 and memo and not ctx.thorough:
                    continue
                alpha = VALUES
                if n == 3:
                    alpha = ['A0', 'A1', 'B2', 'P0', 'P1', 'Q0', 'D', 'D1',
                             'L', 'S2']
                if n == 4:
                    alpha = ['A0', 'A1', 'P1', 'Q0', 'D', 'D1']
                for head in mc.seqs(alpha, n - 1):
                    if not ctx.mine('dispatch/%s/%s/%d/%s' % (
                            '+'.join('%s=%s' % c for c in config), memo, n,
                            ','.join(head))):
                        continue
                    for last in alpha:
                        one_dispatch(ctx, gs, config, memo, head + (last,),
                                     full)


def one_dispatch(ctx, gs, config, memo, names, full):
    gs.restore()
    vs = [make(x) for x in names]
    pyamf.add_type(C2, lambda x, encoder: [u'C2', x.k2])
    regs = []
    for k, t in config:
        f = Func(t, memo)
        regs.append((KEYS[k], f))
        pyamf.add_type(KEYS[k], f)
    ctx.state(('dispatch', config, memo, names))
    wheres = ['top', 'list']
    if len(names) < 3 and (full or ctx.thorough or
                           config[0][1] in ('empty', 'chain')):
        wheres = WHERE
    if len(config) > 1 and not ctx.thorough:
        wheres = ['list']
    got = {}
    for where in wheres:
        for mode in MODES:
            got[where, mode] = mc.attempt(encode, wrap(where, vs), mode)
            ctx.step(len(names))
    gs.restore()
    for where in wheres:
        for mode in MODES:
            r = got[where, mode]
            ok = False
            wants = []
            vs2 = vs
            if where == 'twice':
                vs2 = vs + vs
            for choice in expected(regs, vs2, where, gs):
                plain = realise(vs2, choice)
                w = encode(wrap('top' if where == 'twice' else where, plain),
                           mode)
                wants.append(w)
                if r[0] == 'ok' and same(r[1], w, mode):
                    ok = True
                    break
            ctx.trace()
            if not ok:
                ctx.violation(
                    'dispatch:%s' % ('exc' if r[0] == 'exc' else 'bytes'),
                    'mappings %r, values %r in %s (%s): encoded as %r, the '
                    'mapped values give %r' % (
                        config, names, where, mode,
                        r[1:] if r[0] == 'exc' else r[1], wants[:2]))


# ------------------------------------------------------------ registration
OPS_KEYS = ['A', 'P', 'DL', 'DL-list', 'k1']
INVALID = [5, u'name', None, (A, 5), [A, u'x']]


def op_key(name):
    if name == 'DL-list':
        return [D, L]
    return KEYS[name]


def model_key(name):
    return 'DL' if name == 'DL-list' else name


def registration(ctx, gs):
    depth = 5 if ctx.thorough else 4
    ops = [(o, k) for k in OPS_KEYS for o in ('add', 'remove')]
    ctx.bound('depth of add/remove histories', depth)
    names = ['A1', 'B2', 'P0', 'Q0', 'D', 'L', 'dict']
    for head in mc.seqs_upto(ops, depth - 1):
        if not ctx.mine('reg/' + '.'.join('%s-%s' % o for o in head)):
            continue
        for last in ops:
            run_reg(ctx, gs, head + (last,), names)
    for i, bad in enumerate(INVALID):
        if not ctx.mine('reg/invalid/%d' % i):
            continue
        gs.restore()
        before = dict(pyamf.TYPE_MAP)
        r = mc.attempt(pyamf.add_type, bad, Func('text', False))
        ctx.step()
        ctx.trace()
        if r[:2] != ('exc', 'TypeError') or dict(pyamf.TYPE_MAP) != before:
            ctx.violation('reg:invalid', 'add_type(%r) gave %r and left %r' % (
                bad, r, set(pyamf.TYPE_MAP) - set(before)))


def run_reg(ctx, gs, history, names):
    gs.restore()
    model = {}
    for i, (op, name) in enumerate(history):
        mk = model_key(name)
        ctx.step()
        if op == 'add':
            f = Func(('text', 'list', 'obj')[i % 3], False)
            r = mc.attempt(pyamf.add_type, op_key(name), f)
            if mk in model:
                want = ('exc', 'KeyError')
            else:
                want = ('ok', None)
                model[mk] = f
        else:
            r = mc.attempt(pyamf.remove_type, op_key(name))
            if mk in model:
                want = ('ok', model.pop(mk))
            else:
                want = ('exc', 'KeyError')
        if r[:2] != want:
            ctx.violation('reg:' + op, '%r: step %d gave %r, expected %r' % (
                history, i, r, want))
            return
    for name in OPS_KEYS:
        r = mc.attempt(pyamf.get_type, op_key(name))
        want = ('ok', model[model_key(name)]) if model_key(name) in model \
            else ('exc', 'KeyError')
        if r[:2] != want:
            ctx.violation('reg:get', '%r: get_type(%s) gave %r, expected %r' %
                          (history, name, r, want))
    vs = [make(x) for x in names]
    ctx.state(('reg', tuple(sorted((k, f.tag) for k, f in model.items()))))
    got = [mc.attempt(encode, vs, mode) for mode in MODES[:2]]
    gs.restore()
    regs = [(KEYS[k], f) for k, f in model.items()]
    for r, mode in zip(got, MODES):
        ctx.trace()
        wants = [encode(realise(vs, c), mode)
                 for c in expected(regs, vs, 'top', gs)]
        if r[0] != 'ok' or not [1 for w in wants if same(r[1], w, mode)]:
            ctx.violation('reg:effect', '%r: values %r encode (%s) as %r, '
                          'expected %r' % (history, names, mode, r[1],
                                           wants[:1]))


# ---------------------------------------------------------------- adapters
class Plain(object):
    pass


class KeptList(list):
    """Weakly referenceable."""


def contents():
    o = Plain()
    o.x = 1
    l = [1, u'a']
    return [u'a', 5, -1.5, None, True, o, l, {u'd': o}]


HASHABLE = [u'a', u'b', 5, -1.5, None, True]


def adapters():
    """(name, builder of (adapted value, plain equivalent, keep alive))."""
    c = contents()
    o = c[5]
    for n in range(3):
        for s in itertools.product(range(len(c)), repeat=n):
            items = [c[i] for i in s]
            yield 'deque/%r' % (s,), collections.deque(items), list(items)
            yield ('deque-max/%r' % (s,), collections.deque(items, 1),
                   list(items)[-1:])
            d = [(u'k%d' % i, x) for i, x in enumerate(items)]
            dd = collections.defaultdict(list)
            dd.update(d)
            yield 'defaultdict/%r' % (s,), dd, dict(d)
            yield 'odict/%r' % (s,), collections.OrderedDict(d), dict(d)
        for s in itertools.product(range(len(HASHABLE)), repeat=n):
            items = [HASHABLE[i] for i in s]
            names = [x for x in items if isinstance(x, unicode)]
            ct = collections.Counter(names)
            yield 'Counter/%r' % (s,), ct, dict(ct)
            for kind in (sets.Set, sets.ImmutableSet):
                st = kind(items)
                yield '%s/%r' % (kind.__name__, s), st, tuple(st)
    for text in ('0', '-0', '1', '-1.5', '0.1', '1E+2', '1E-7', '123456789012',
                 'Infinity', '-Infinity', '3.0'):
        yield 'Decimal/' + text, decimal.Decimal(text), float(text)
    for code, items in (('b', [1, -1]), ('h', [300, -300]), ('i', [70000]),
                        ('l', [1, 2]), ('f', [0.5]), ('d', [1.25, -2.5]),
                        ('c', 'ab'), ('i', [])):
        a = array.array(code, items)
        yield 'array/%s' % code, a, list(a)
    k = KeptList([1, o])
    for what in (o, k):
        yield 'ref/%s' % type(what).__name__, weakref.ref(what), what
    yield 'ref/dead', dead_ref(), None
    wv = weakref.WeakValueDictionary()
    wv[u'p'] = o
    yield 'weakvalue', wv, {u'p': o}
    yield 'weakvalue/empty', weakref.WeakValueDictionary(), {}
    ws = weakref.WeakSet()
    yield 'weakset/empty', ws, []
    ws = weakref.WeakSet([o])
    yield 'weakset', ws, [o]

    def gen(n):
        for x in c[:n]:
            yield x
    for n in range(4):
        yield 'generator/%d' % n, Gen(gen, n), list(c[:n])
    yield 'generator/list', Gen(lambda n: (x for x in [c[6], c[6]]), 0), [
        c[6], c[6]]


class Gen(object):
    """Generators can be used once."""
    def __init__(self, f, n):
        self.f = f
        self.n = n

    def fresh(self):
        return self.f(self.n)


def dead_ref():
    class Dead(object):
        def __call__(self):
            return None
    # a reference whose referent is gone, without relying on the collector
    global _dead
    import java.lang.System
    x = Plain()
    r = weakref.ref(x)
    del x
    for i in range(50):
        if r() is None:
            return r
        java.lang.System.gc()
        import time
        time.sleep(0.02)
    return None


def fresh(v):
    return v.fresh() if isinstance(v, Gen) else v


def positions(v, p):
    """(name, value with the adapted value, value with the plain one)."""
    if not isinstance(v, Gen):
        yield 'top', [fresh(v)], [p]
        yield 'again', [fresh(v), 5, fresh(v)], [p, 5, copy_of(v, p)]
    yield 'list', [[fresh(v), u'end']], [[p, u'end']]
    yield 'dict', [{u'k': fresh(v)}], [{u'k': p}]
    o1 = Plain()
    o1.f = fresh(v)
    o2 = Plain()
    o2.f = p
    yield 'attr', [o1, u'end'], [o2, u'end']
    yield 'deep', [[[fresh(v)], fresh(v)], fresh(v) if not isinstance(v, Gen)
                   else 1], [[[p], copy_of(v, p)], copy_of(v, p)
                             if not isinstance(v, Gen) else 1]
    yield 'deque', [collections.deque([fresh(v), 3])], [[p, 3]]


def copy_of(v, p):
    """A container is converted anew each time, a referent is not."""
    if isinstance(v, weakref.ref):
        return p
    if isinstance(p, list):
        return list(p)
    if isinstance(p, tuple):
        return tuple(list(p))
    if type(p) is dict:
        return dict(p)
    return p


def adapter_cases(ctx, gs):
    gs.restore()
    names = 0
    for i, (name, v, p) in enumerate(adapters()):
        names += 1
        if not ctx.mine('adapter/' + name):
            continue
        if v is None and name == 'ref/dead':
            ctx.cap('the collector did not clear a weak reference')
            continue
        ctx.state(('adapter', name))
        for mode in MODES:
            for pos, a, b in positions(v, p):
                want = encode(b, mode)
                r = mc.attempt(encode, a, mode)
                ctx.step()
                ctx.trace()
                if r[0] != 'ok' or not same(r[1], want, mode):
                    ctx.violation(
                        'adapter:' + name.split('/')[0],
                        '%s at %s (%s): encoded as %r, the plain value gives '
                        '%r' % (name, pos, mode, r[1:], want))
        if name.startswith('Decimal'):
            for cls in (amf0.Encoder, amf3.Encoder):
                for x in (v, [v], {u'k': v}):
                    ctx.step()
                    ctx.trace()
                    r = mc.attempt(cls(strict=True).writeElement, x)
                    if r[:2] != ('exc', 'EncodeError'):
                        ctx.violation('adapter:Decimal-strict', '%s in a '
                                      'strict encoder gave %r' % (name, r))
    ctx.bound('adapted values', names)


# --------------------------------------------------------------- refusals
def refused(ctx, gs):
    def func():
        pass

    class Meta(type):
        pass

    M = Meta('M', (object,), {})
    bad = [('class', A), ('classic class', P), ('class of metaclass', M),
           ('function', func), ('lambda', lambda: 1), ('builtin', len),
           ('method', A(0).__init__), ('builtin method', [].append),
           ('code', func.func_code), ('module', itertools),
           ('module2', amfspec)]
    for name, v in bad:
        if not ctx.mine('refused/' + name):
            continue
        gs.restore()
        ctx.state(('refused', name))
        for cls in (amf0.Encoder, amf3.Encoder):
            for x in (v, [v], {u'k': v}, [1, [v]]):
                ctx.step()
                ctx.trace()
                r = mc.attempt(cls().writeElement, x)
                if r[:2] != ('exc', 'EncodeError'):
                    ctx.violation('refused', '%s given to %s: %r' % (
                        name, cls, r))
        # unless there is a mapping for it
        pyamf.add_type(lambda x: x is v, lambda x, encoder: u'mapped')
        for cls, version in ((amf0.Encoder, 0), (amf3.Encoder, 3)):
            e = cls()
            e.writeElement([v])
            n = cls()
            n.writeElement([u'mapped'])
            ctx.trace()
            if e.stream.getvalue() != n.stream.getvalue():
                ctx.violation('refused:mapped', '%s with a mapping gave %r' % (
                    name, e.stream.getvalue()))


def run(ctx):
    # every adapted module is in use from here on
    pyamf.register_class(S, 'c13.S')
    gs = globalstate.GlobalState()
    dispatch(ctx, gs)
    registration(ctx, gs)
    adapter_cases(ctx, gs)
    refused(ctx, gs)
    ctx.assume('mappings whose matches overlap may apply in any order')
