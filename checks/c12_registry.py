"""C12: the class registry against a two-way map, over all histories."""
import itertools
import struct
import sys
import types

import pyamf
from pyamf import amf0, amf3

import amfspec
import globalstate
import mc


class K1(object):
    pass


class K2:
    pass


class K3(object):
    """Only known by its module path."""


class K4(object):
    class __amf__:
        alias = 'm4'


class Reg(object):
    def __init__(self, klass, alias):
        self.klass = klass
        self.alias = alias


class LoaderFault(Exception):
    pass


class Model(object):
    def __init__(self):
        self.names = {}
        self.classes = {}
        self.loaders = set()

    def register(self, klass, alias=None):
        if alias == '' or not isinstance(klass, (type, types.ClassType)) or \
                klass is object:
            raise ValueError
        if alias is None and klass is K4:
            alias = 'm4'
        r = Reg(klass, alias)
        if alias is not None:
            self.names[alias] = r
        self.classes[klass] = r

    def unregister(self, key):
        m = self.names if isinstance(key, str) else self.classes
        if key not in m:
            raise pyamf.UnknownClassAlias
        r = m[key]
        if self.names.get(r.alias) is r:
            del self.names[r.alias]
        if self.classes.get(r.klass) is r:
            del self.classes[r.klass]

    def add_loader(self, l):
        if l == 'bad':
            raise TypeError
        self.loaders.add(l)

    def remove_loader(self, l):
        if l not in self.loaders:
            raise LookupError
        self.loaders.remove(l)

    def load(self, alias):
        """Registration the name resolves to; registers what it finds."""
        if alias in self.names:
            return self.names[alias]
        if 'class' in self.loaders and alias == 'l.c':
            self.register(K1, alias)
            return self.names[alias]
        if 'alias' in self.loaders and alias == 'l.a':
            self.register(K2, 'l.a')
            return self.names[alias]
        if 'wrong' in self.loaders and alias == 'l.w':
            raise TypeError
        if alias == 'c12mod.K3':
            self.register(K3, alias)
            return self.names[alias]
        if alias == 'c12mod.al':
            # a module may hold a ready made description
            r = Reg(K3, 'x.al')
            self.names['x.al'] = self.classes[K3] = r
            return r
        raise pyamf.UnknownClassAlias

    def wire_name(self, klass):
        r = self.classes.get(klass)
        if r is None:
            return 'm4' if klass is K4 else None
        return r.alias


def l_class(name):
    if name == 'l.c':
        return K1


def l_alias(name):
    if name == 'l.a':
        return pyamf.ClassAlias(K2, 'l.a')


def l_wrong(name):
    if name == 'l.w':
        return 'neither'


def l_none(name):
    return None


LOADERS = {'class': l_class, 'alias': l_alias, 'wrong': l_wrong,
           'none': l_none, 'bad': 5}


class Real(object):
    def __init__(self):
        mod = types.ModuleType('c12mod')
        mod.K3 = K3
        mod.al = pyamf.ClassAlias(K3, 'x.al', defer=True)
        mod.thing = 5
        sys.modules['c12mod'] = mod
        # not found without searching the disk
        sys.modules['l'] = sys.modules['x'] = None
        sys.modules['c12mod.K3'] = None

    def register(self, klass, alias=None):
        if alias is None:
            pyamf.register_class(klass)
        else:
            pyamf.register_class(klass, alias)

    def unregister(self, key):
        pyamf.unregister_class(key)

    def add_loader(self, l):
        pyamf.register_class_loader(LOADERS[l])

    def remove_loader(self, l):
        pyamf.unregister_class_loader(LOADERS[l])

    def load(self, alias):
        return pyamf.load_class(alias)


def utf(b):
    return struct.pack('>H', len(b)) + b


def s3(b):
    return amfspec.u29(len(b) << 1 | 1) + b


def typed(ver, alias):
    if ver == 3:
        return '\x0a\x0b' + s3(alias) + s3('q') + '\x04\x05' + '\x01'
    return '\x10' + utf(alias) + utf('q') + '\0' + struct.pack(
        '>d', 5) + '\0\0\x09'


def decoded(ver, alias, strict):
    d = (amf3 if ver == 3 else amf0).Decoder(typed(ver, alias),
                                             strict=strict)
    return d.readElement()


def encoded(ver, klass):
    o = klass()
    o.q = 5
    e = (amf3 if ver == 3 else amf0).Encoder()
    e.writeElement(o)
    n = amfspec.read_all(e.stream.getvalue(), ver)[0]
    assert [k for k, v in n.pairs] == [u'q']
    return n.name


def op(name, *a):
    def f(s):
        return getattr(s, name)(*a)
    return '%s(%s)' % (name, ', '.join(
        getattr(x, '__name__', repr(x)) for x in a)), f


CORE = [
    op('register', K1, 'a'), op('register', K1, 'b'), op('register', K2, 'a'),
    op('register', K1), op('register', K4), op('register', K2, 'm4'),
    op('unregister', 'a'), op('unregister', 'b'), op('unregister', 'm4'),
    op('unregister', K1), op('unregister', K2), op('unregister', K4),
]
MORE = [
    op('register', K3, 'a'), op('register', 5, 'a'), op('register', K1, ''),
    op('register', K4, 'b'),
    op('add_loader', 'class'), op('add_loader', 'alias'),
    op('add_loader', 'wrong'), op('add_loader', 'none'),
    op('add_loader', 'bad'), op('remove_loader', 'class'),
    op('remove_loader', 'alias'),
    op('load', 'a'), op('load', 'l.c'), op('load', 'l.a'), op('load', 'l.w'),
    op('load', 'c12mod.K3'), op('load', 'c12mod.al'),
    op('load', 'c12mod.thing'), op('load', 'c12mod.'), op('load', 'nope'),
    op('load', 'c12mod.K3.x'), op('load', '.'), op('unregister', 'l.c'),
    op('unregister', K3),
]
ALL = CORE + MORE
CLASSES = (K1, K2, K3, K4)
ALIASES = ('a', 'b', 'm4', 'x.al', 'l.c', 'l.a', 'l.w', 'c12mod.K3', 'nope',
           'c12mod.al', 'a.')


def same(real, ref):
    return real.klass is ref.klass and real.alias == (ref.alias or '')


def play(ctx, gs, sig, ops, deep):
    gs.restore()
    real, ref = Real(), Model()

    def bad(what):
        ctx.violation(sig(), 'after %r: %s' % ([o[0] for o in ops], what))
        return False

    for name, f in ops:
        want = mc.attempt(f, ref)
        got = mc.attempt(f, real)
        ctx.step()
        if want[0] != got[0]:
            return bad('%s gives %r instead of %r' % (name, got[1:],
                                                      want[1:]))
        if want[0] == 'exc':
            if name.startswith(('load', 'unregister')) and \
                    not isinstance(got[2], type(want[2])):
                return bad('%s raises %r instead of %s' % (
                    name, got[2], want[1]))
        elif name.startswith('load'):
            if not isinstance(got[1], pyamf.ClassAlias) or \
                    not same(got[1], want[1]):
                return bad('%s returns %r' % (name, got[1]))
    ctx.trace()
    ctx.state((sorted((k, r.klass.__name__) for k, r in ref.names.items()),
               sorted((k.__name__, r.alias) for k, r in ref.classes.items()),
               sorted(ref.loaders)))
    # lookups by class and encoding: do not change anything
    for k in CLASSES:
        r = ref.classes.get(k)
        x = mc.attempt(pyamf.get_class_alias, k)
        if (x[0] == 'ok') != (r is not None) or (
                r is not None and not same(x[1], r)):
            return bad('the description of %s is %r instead of %r' % (
                k.__name__, x[1], r and r.alias))
        if x[0] == 'exc' and not isinstance(x[2], pyamf.UnknownClassAlias):
            return bad('lookup of %s: %r' % (k.__name__, x[2]))
        for ver in (0, 3) if deep else (3,):
            x = mc.attempt(encoded, ver, k)
            want = ref.wire_name(k)
            if x[0] == 'exc' or (x[1] or None) != want:
                return bad('an instance of %s is sent as %r instead of %r' % (
                    k.__name__, x[1:], want))
    for alias in ALIASES if deep else ALIASES[:5]:
        for ver, strict in (((3, False), (0, False), (3, True), (0, True))
                            if deep else ((3, False),)):
            want = mc.attempt(ref.load, alias)
            x = mc.attempt(decoded, ver, alias, strict)
            ctx.step()
            if want[0] == 'ok':
                if x[0] == 'exc' or x[1].__class__ is not want[1].klass or \
                        vars(x[1]) != {'q': 5}:
                    return bad('AMF%d class name %r decodes to %r instead of '
                               'a %s' % (ver, alias, x[1],
                                         want[1].klass.__name__))
            elif not isinstance(want[2], pyamf.UnknownClassAlias):
                if x[0] == 'ok' or not isinstance(x[2], type(want[2])):
                    return bad('class name %r: %r' % (alias, x[1:]))
            elif strict:
                if x[0] == 'ok' or not isinstance(
                        x[2], pyamf.UnknownClassAlias):
                    return bad('strict AMF%d class name %r: %r' % (
                        ver, alias, x[1:]))
            else:
                if x[0] == 'exc' or not isinstance(
                        x[1], pyamf.TypedObject) or x[1].alias != alias or \
                        dict(x[1]) != {'q': 5}:
                    return bad('AMF%d unknown class name %r decodes to %r' % (
                        ver, alias, x[1]))
    return True


class Special(pyamf.ClassAlias):
    pass


def run(ctx):
    t = ctx.thorough
    gs = globalstate.GlobalState()
    for a in ALL:
        for b in ALL:
            if not ctx.mine('%s %s' % (a[0], b[0])):
                continue
            ctx.alive()
            for tail in mc.seqs_upto(ALL, 1):
                ops = (a, b) + tail
                play(ctx, gs, lambda: ' '.join(o[0] for o in ops), ops,
                     len(tail) == 0 or t)
    for a in CORE:
        for b in CORE:
            if not ctx.mine('core %s %s' % (a[0], b[0])):
                continue
            for tail in mc.seqs(CORE, 3 if t else 2):
                ctx.alive()
                ops = (a, b) + tail
                play(ctx, gs, lambda: ' '.join(o[0] for o in ops), ops,
                     False)
    ctx.bound('histories', '%d operations; every sequence of 3 over all and '
              'of %d over the %d registrations and removals, each followed '
              'by encoding every class and decoding every name' % (
                  len(ALL), 5 if t else 4, len(CORE)))

    # alias types registered after the classes keep every entry consistent
    for ops in mc.seqs_upto([o for o in CORE if o[0].startswith('register')],
                            2):
        for base in (K1, K2):
            cid = 'alias type for %s after %s' % (
                base.__name__, ' '.join(o[0] for o in ops))
            if not ctx.mine(cid):
                continue
            gs.restore()
            real, ref = Real(), Model()
            for name, f in ops:
                f(real)
                f(ref)
            x = mc.attempt(pyamf.register_alias_type, Special, base)
            ctx.trace()
            if x[0] == 'exc':
                ctx.violation(cid, '%s: %r' % (cid, x[1:]))
                continue
            for k in CLASSES:
                r = ref.classes.get(k)
                x = mc.attempt(pyamf.get_class_alias, k)
                if (x[0] == 'ok') != (r is not None) or (r is not None and (
                        not same(x[1], r) or
                        isinstance(x[1], Special) != (k is base))):
                    ctx.violation(cid, '%s: description of %s is %r' % (
                        cid, k.__name__, x[1]))
            for alias, r in sorted(ref.names.items()):
                x = mc.attempt(pyamf.get_class_alias, alias)
                if x[0] == 'exc' or not same(x[1], r):
                    ctx.violation(cid, '%s: %r is %r' % (cid, alias, x[1]))
            for k in CLASSES:
                if k not in ref.classes:
                    continue
                for m in (real, ref):
                    mc.attempt(m.unregister, k)
                if mc.attempt(pyamf.get_class_alias, k)[0] == 'ok':
                    ctx.violation(cid, '%s: %s stays registered' % (
                        cid, k.__name__))
            for alias in ('a', 'b', 'm4'):
                x = mc.attempt(pyamf.get_class_alias, alias)
                if (x[0] == 'ok') != (alias in ref.names):
                    ctx.violation(cid, '%s: %r stays registered' % (
                        cid, alias))

    # packages
    def cls(name, mod):
        return type(name, (object,), {'__module__': mod})
    P, Q, F = cls('P', 'pk'), cls('Q', 'pk'), cls('F', 'other')
    content = {'P': P, 'Q': Q, 'F': F, 'n': 5}

    def as_module():
        m = types.ModuleType('pk')
        m.__dict__.update(content)
        return m

    def as_module_all():
        m = as_module()
        m.__all__ = ['Q', 'F']
        return m
    shapes = {
        'module': as_module, 'module with __all__': as_module_all,
        'dict': lambda: dict(content, __name__='pk'),
        'list': lambda: [P, Q, F],
    }
    for shape in sorted(shapes):
        for package in (None, 'com.x'):
            for ignore in (None, ['P'], ['P', 'Q']):
                for strict in (True, False):
                    for sep in ('.', '::'):
                        cid = 'package %s %s %s %s %s' % (
                            shape, package, ignore, strict, sep)
                        if not ctx.mine(cid):
                            continue
                        gs.restore()
                        x = mc.attempt(
                            pyamf.register_package, shapes[shape](), package,
                            separator=sep, ignore=ignore, strict=strict)
                        ctx.trace()
                        ctx.state(cid)
                        if shape == 'list' and package is None:
                            if x[0] == 'ok':
                                ctx.violation(cid, '%s accepted' % cid)
                            continue
                        want = set([P, Q, F])
                        if shape.endswith('all__'):
                            want.remove(P)
                        if strict and shape != 'list':
                            want.remove(F)
                        want = dict(
                            (k, '%s%s%s' % (package or 'pk', sep,
                                            k.__name__))
                            for k in want if k.__name__ not in (ignore or ()))
                        if x[0] == 'exc' or dict(
                                (k, a.alias)
                                for k, a in x[1].items()) != want:
                            ctx.violation(cid, '%s registers %r instead of '
                                          '%r' % (cid, x[1:], want))
                            continue
                        for k in (P, Q, F):
                            y = mc.attempt(pyamf.get_class_alias, k)
                            if (y[0] == 'ok') != (k in want) or (
                                    y[0] == 'ok' and pyamf.get_class_alias(
                                        want[k]).klass is not k):
                                ctx.violation(cid, '%s: %s is %r' % (
                                    cid, k.__name__, y[1:]))
    # lazily loaded Flex names
    for alias in ('DSK', 'DSC', 'DSA', 'flex.messaging.io.ArrayCollection',
                  'flex.messaging.io.ObjectProxy', 'flex.nope',
                  'flex.messaging.messages.CommandMessage',
                  'flex.messaging.messages.Nope', 'flex.data.messages.Nope',
                  'flex.data.messages.DataMessage'):
        for removed in (False, True):
            cid = 'flex %s%s' % (alias, removed and ' removed' or '')
            if not ctx.mine(cid):
                continue
            gs.restore()
            for m in [n for n in sys.modules if n.startswith('pyamf.flex')]:
                del sys.modules[m]
            known = not alias.lower().endswith('nope')
            if removed:
                mc.attempt(pyamf.load_class, alias)
                mc.attempt(pyamf.unregister_class, alias)
                known = False
            x = mc.attempt(pyamf.get_class_alias, alias)
            ctx.trace()
            if (x[0] == 'ok') != known or (
                    x[0] == 'exc' and not isinstance(
                        x[2], pyamf.UnknownClassAlias)) or (
                    x[0] == 'ok' and x[1].alias != alias):
                ctx.violation(cid, '%s resolves to %r' % (cid, x[1:]))
    ctx.sample('register(K1, a) register(K2, a) unregister(K1) load(a)')
    ctx.assume('at most one class loader answers for a name')
