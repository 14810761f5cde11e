"""Round trips of object graphs through one AMF version (used by C01, C02)."""
import datetime

import pyamf
from pyamf import amf0, amf3, util, xml as pxml

import mc
import pyval
from pyval import canon_py


class T(object):
    """dynamic typed class"""


class S(object):
    """class with two static attributes"""
    class __amf__:
        static = ('a', 'b')


class Z(object):
    """sealed class: only its static attributes travel"""
    class __amf__:
        static = ('a', 'b')
        dynamic = False


class A(object):
    """always sent in AMF3 mode"""
    class __amf__:
        amf3 = True


class O:
    """classic class"""


class LL(list):
    """unregistered list subclass"""


class U(object):
    """unregistered class: travels as an anonymous object"""


CLASSES = {T: u'h.T', S: u'h.S', Z: u'h.Z', A: u'h.A', O: u'h.O'}


def register():
    for c, a in CLASSES.items():
        pyamf.register_class(c, a.encode('ascii'))


DATE = datetime.datetime(2009, 3, 8, 23, 30, 47, 770000)
XML = '<a><b>hello</b></a>'
KEYS = ['a', 'b', u'c\xe9', 'd']


def build(g, scalars):
    """The Python graph of an abstract graph."""
    made = []
    for kind, slots in g:
        made.append({
            'L': list, 'D': dict, 'M': pyamf.MixedArray, 'T': T, 'S': S,
            'Z': Z, 'A': A, 'O': O, 'Q': LL, 'G': pyamf.ASObject, 'U': U,
            'N': pyamf.MixedArray,
            'd': lambda: datetime.datetime(2009, 3, 8, 23, 30, 47, 770000),
            'x': lambda: pxml.fromstring(XML),
            'b': lambda: amf3.ByteArray('x\x00y'),
        }[kind]())
    for o, (kind, slots) in zip(made, g):
        for i, (st, j) in enumerate(slots):
            v = scalars[j] if st == 's' else made[j]
            if kind in 'LQ':
                o.append(v)
            elif kind in 'DG':
                o[KEYS[i]] = v
            elif kind == 'M':       # dense part and associative part
                o[i if i % 2 == 0 else KEYS[i]] = v
            elif kind == 'N':       # sparse
                o[(5, -1, 2, 'z')[i]] = v
            else:
                setattr(o, KEYS[i], v)
        if kind == 'A':
            o.a = 7
    return made[0], made


def normal(v, version):
    """canon_py, with what one version cannot tell apart identified.

    AMF3 has one array type: an ECMA array without keys outside 0..n-1 is the
    same value as the list of its elements.
    """
    c = canon_py(v, CLASSES)
    return merge(c) if version == 3 else c


def merge(c):
    if not isinstance(c, tuple) or not c:
        return c
    if c[0] == 'ecma':
        keys = sorted(k for k, x in c[2])
        if keys == sorted(unicode(i) for i in range(len(keys))):
            d = dict(c[2])
            return ('array', c[1], tuple([merge(d[unicode(i)])
                                          for i in range(len(keys))]))
    return tuple([merge(x) for x in c])


def check_graph(ctx, version, g, scalars, two=False):
    root, made = build(g, scalars)
    want = normal(root, version)
    expect_anon(want)
    ctx.state(want)
    r = mc.attempt(codec_roundtrip, [root], version)
    verdict(ctx, version, pyval.gid(g), [root], r)
    if two:
        # several top level values of one encoder share one context
        for i in range(len(made)):
            vs = [root, made[i], made[0]]
            r = mc.attempt(codec_roundtrip, vs, version)
            verdict(ctx, version, '%s + node %d + node 0' % (pyval.gid(g), i),
                    vs, r)


def expect_anon(c):
    return c


def codec_roundtrip(vs, version):
    """Through the codec classes."""
    mod = amf3 if version == 3 else amf0
    enc = mod.Encoder()
    for v in vs:
        enc.writeElement(v)
    data = enc.stream.getvalue()
    return data, list(mod.Decoder(data))


def roundtrip(vs, version, **kw):
    """Through the module level helpers."""
    data = pyamf.encode(*vs, encoding=version, **kw).getvalue()
    return data, list(pyamf.decode(data, encoding=version))


def verdict(ctx, version, name, vs, r, sig=None):
    ctx.step(2 * len(vs))
    ctx.trace()
    sig = sig or 'roundtrip-amf%d: %s' % (version, name)
    if r[0] == 'exc':
        ctx.violation(sig, 'AMF%d round trip of %s raises %s: %s' % (
            version, name, r[1], r[2]))
        return
    data, got = r[1]
    want = normal(list(vs), version)
    c = mc.attempt(normal, got, version)
    ctx.outcome(len(data))
    if c[0] == 'exc':
        ctx.violation(sig, 'AMF%d: %s decodes to a foreign value: %s %s' % (
            version, name, c[1], c[2]))
    elif c[1] != want:
        ctx.violation(sig, 'AMF%d: %s was encoded as %s and decodes to %r '
                      'instead of %r' % (version, name, mc.hexs(data)[:400],
                                         c[1], want))


INF = float('inf')
TEXTS = [u'', u'a', u'abc', u'\xe9', u'\u20ac', u'\U0001f600', u'\x00',
         u'a b\n', u'0', u'1', u'true', u'__class__']
NUMS = [0, 1, -1, 2, 127, 128, 255, 256, 16383, 16384, 2097151, 2097152,
        2 ** 28 - 1, 2 ** 28, -2 ** 28, -2 ** 28 - 1, 2 ** 29 - 1, 2 ** 29,
        2 ** 31 - 1, 2 ** 31, -2 ** 31, 2 ** 32, 2 ** 53, -2 ** 53,
        0.5, -0.5, 1.1, 1e300, -1e-300, 5e-324, INF, -INF, INF - INF,
        4294967296.5, 1e15]
DATES = [datetime.datetime(1970, 1, 1), DATE,
         datetime.datetime(1969, 12, 31, 23, 59, 59),
         datetime.datetime(1969, 12, 31, 23, 59, 59, 500000),
         datetime.datetime(1601, 1, 1, 0, 0, 0, 1000),
         datetime.datetime(2038, 1, 19, 3, 14, 8),
         datetime.datetime(2000, 2, 29, 12, 0, 0, 999000),
         datetime.datetime(9999, 12, 31, 23, 59, 59),
         datetime.date(2003, 12, 1)]


NAMES = ['keys', 'values', 'items', 'iteritems', 'get', 'update', 'pop',
         'append', 'next', 'read', 'write', 'seek', 'tell', 'getvalue',
         'encode', 'alias', 'tag', 'text', 'source', 'length', 'data']


def scalars():
    return ([None, pyamf.Undefined, True, False] + NUMS + TEXTS +
            ['', 'bytes', 'caf\xc3\xa9'] + DATES)


def contexts(v):
    yield 'top', v
    yield 'list', [v]
    yield 'list2', [v, v]
    yield 'nested', [[v], v]
    yield 'tuple', (v, 1)
    yield 'dict', {'k': v}
    yield 'asobject', pyamf.ASObject(k=v)
    yield 'mixed', pyamf.MixedArray({0: v, 'k': v})
    t = T()
    t.k = v
    yield 'typed', t
    s = S()
    s.a = s.b = v
    s.c = v
    yield 'static', s
    z = Z()
    z.a = v
    z.b = 1
    yield 'sealed', z
    o = O()
    o.k = v
    yield 'classic', o


def check_scalars(ctx, version):
    for i, v in enumerate(scalars()):
        for name, x in contexts(v):
            cid = 'scalar %d %r in %s' % (i, v, name)
            if not ctx.mine(cid):
                continue
            ctx.state(('scalar', name, i))
            verdict(ctx, version, cid, [x],
                    mc.attempt(roundtrip, [x], version))
    # names that mean something to containers, streams or documents in Python
    for i in range(len(NAMES) + 1):
        names = NAMES[i:i + 1] or NAMES
        for v in (1, u'x', [1, u'x'], {'k': names[0]}, None, pyamf.Undefined):
            for mk in (T, S, A, O, U, dict, pyamf.ASObject, pyamf.MixedArray):
                cid = 'attribute %r=%r of %s' % (names, v, mk.__name__)
                if not ctx.mine(cid):
                    continue
                x = mk()
                for n in names:
                    if isinstance(x, dict):
                        x[n] = v
                    else:
                        setattr(x, n, v)
                if mk is S:
                    x.a = x.b = 1
                ctx.state(('attribute', i, repr(v), mk.__name__))
                w = pyamf.ASObject(vars(x)) if mk is U else x
                verdict(ctx, version, cid, [[w, w]],
                        mc.attempt(roundtrip, [[x, x]], version))
    # decimal string keys mean indices only in ECMA arrays
    for t in TEXTS[1:]:
        for v in (1, u'abc', t):
            for mk in (dict, pyamf.ASObject):
                cid = 'key %r=%r in %s' % (t, v, mk.__name__)
                if not ctx.mine(cid):
                    continue
                x = [mk({t: v}), mk({t: v, 'abc': t})]
                ctx.state(('key', t, repr(v), mk.__name__))
                verdict(ctx, version, cid, [x],
                        mc.attempt(roundtrip, [x], version))


def check_texts(ctx, version, depth):
    """String sequences: every combination, so that string tables collide."""
    alpha = [u'', u'a', 'a', u'\xe9', u'caf\xe9', 'caf\xc3\xa9', u'b' * 127,
             u'b' * 128]
    for s in mc.seqs_upto(alpha, depth):  # noqa
        cid = 'texts %r' % (s,)
        if not ctx.mine(cid):
            continue
        x = [list(s), dict((k, k) for k in s if k and k != 'caf\xc3\xa9')]
        ctx.state(('texts', repr(s)))
        verdict(ctx, version, cid, [x, list(s)],
                mc.attempt(roundtrip, [x, list(s)], version))


# texts that are easily taken for one another
ALIKE = [u'ab', u'AB', u'Ab', u' ab', u'ab ', u'ab\n', u'\ufeffab', u'ab\x00',
         u'a\x00b', u'a', u'abc', u'ba', u'a b', u'\xe9', u'e\u0301', u'e', u'\xc9',
         u'\u20ac', '\xe2\x82\xac', 'ab', u'1', u'01', u'1.0', u'\uff11',
         u'\ufb01', u'fi', u'\xb5', u'\u03bc', u'\U0001f600', u'\x80',
         u'a/b', u'a.b', u'a%62', u'&amp;', u'&', u'\\n', u'\n', u'\r\n']


def check_alike(ctx, version):
    """All pairs of such texts as values and as names, in both orders."""
    for a in ALIKE:
        for b in ALIKE:
            cid = 'alike %r %r' % (a, b)
            if not ctx.mine(cid):
                continue
            ctx.state(('alike', repr((a, b))))
            vs = [[a, b, a, b]]
            if a != b and isinstance(a, unicode) and isinstance(b, unicode):
                vs.append([pyamf.ASObject({a: 1, b: 2}), {a: b, b: a}])
            verdict(ctx, version, cid, vs,
                    mc.attempt(roundtrip, vs, version))


def check_sizes(ctx, version):
    for n in (0, 1, 63, 64, 65, 127, 128, 129, 8191, 8192, 16383, 16384,
              65534, 65535, 65536, 70000, 1048575, 1048576, 2097152):
        for ch in (u'x', u'\xe9'):
            if ch != u'x' and n > 70000:
                continue
            cid = 'text of %d %r' % (n, ch)
            if not ctx.mine(cid):
                continue
            v = ch * n
            ctx.state(cid)
            r = mc.attempt(roundtrip, [[v, v, u'end']], version)
            verdict(ctx, version, cid, [[v, v, u'end']], r)
    for n in (0, 1, 2, 15, 16, 63, 64, 127, 128, 200, 8192):
        cid = 'list of %d' % n
        if ctx.mine(cid):
            ctx.state(cid)
            v = range(n)
            verdict(ctx, version, cid, [[v, v]],
                    mc.attempt(roundtrip, [[v, v]], version))
        cid = 'dict of %d' % n
        if ctx.mine(cid):
            ctx.state(cid)
            v = dict(('k%d' % i, i) for i in range(n))
            verdict(ctx, version, cid, [[v, v]],
                    mc.attempt(roundtrip, [[v, v]], version))
        cid = 'shared objects %d' % n
        if n <= 200 and ctx.mine(cid):
            ctx.state(cid)
            v = [dict(i=i) for i in range(n)]
            v = v + v[::-1]
            verdict(ctx, version, cid, [v],
                    mc.attempt(roundtrip, [v], version))
        cid = 'shared typed objects %d' % n
        if n <= 200 and ctx.mine(cid):
            ctx.state(cid)
            v = []
            for i in range(n):
                t = (T, S, Z, O)[i % 4]()
                t.a = i
                t.b = str(i)
                v.append(t)
            v = v + v[::-1]
            verdict(ctx, version, cid, [v],
                    mc.attempt(roundtrip, [v], version))
    # many references: more objects than one reference byte can name, and
    # (AMF0) more than the 16 bit reference can name
    for n in (65534, 65537) if version == 0 else (16384,):
        cid = 'reference beyond %d objects' % n
        if ctx.mine(cid):
            ctx.state(cid)
            a, b = [1], [2]
            v = [a] + [[] for i in xrange(n)] + [b, a, a]
            verdict(ctx, version, cid, [v],
                    mc.attempt(roundtrip, [v], version))
    # references around the largest index that can be written
    first = 65533 if version == 0 else 8190
    cid = 'references from %d' % first
    if ctx.mine(cid):
        ctx.state(cid)
        items = [[] for i in xrange(first + 5)]
        v = items + items[first - 1:]
        r = mc.attempt(roundtrip, [v], version)
        ctx.step(2)
        ctx.trace()
        bad = None
        if r[0] == 'exc':
            bad = 'raises %s: %s' % (r[1], r[2])
        elif len(r[1][1]) != 1 or r[1][1][0] != v:
            bad = 'decodes to another value'
        else:
            got = r[1][1][0]
            for i in range(first - 1, first + 5):
                # the outer list has the index 0
                x = got[len(items) + i - first + 1]
                same = [j for j in xrange(len(items)) if got[j] is x]
                if same != [i] and (version == 3 or i + 1 <= 65535):
                    bad = 'element %d comes back as %r' % (i, same)
        if bad:
            ctx.violation('roundtrip-amf%d: %s' % (version, cid),
                          'AMF%d: a list of %d lists, the last six of them '
                          'twice, %s' % (version, len(items), bad))
    # tables of strings and classes beyond one and two bytes per reference
    for n in (70,) if version == 0 else (31, 33, 65, 70, 8200):
        cid = 'table of %d strings' % n
        if ctx.mine(cid):
            ctx.state(cid)
            v = [u's%d' % i for i in range(n)]
            v = v + v[::-1]
            verdict(ctx, version, cid, [v],
                    mc.attempt(roundtrip, [v], version))
    for n in (31, 32, 33, 34, 70):
        cid = 'table of %d classes' % n
        if ctx.mine(cid):
            ctx.state(cid)
            made = [type('K%d' % i, (object,), {}) for i in range(n)]
            for i, c in enumerate(made):
                pyamf.register_class(c, 'tbl.K%d' % i)
            try:
                v = [c() for c in made + made[::-1]]
                for i, o in enumerate(v):
                    o.x = i
                r = mc.attempt(roundtrip, [v], version)
                ctx.step(2)
                ctx.trace()
                if r[0] == 'exc' or [
                        (type(o), vars(o)) for o in r[1][1][0]] != [
                        (type(o), vars(o)) for o in v]:
                    ctx.violation(
                        'roundtrip-amf%d: %s' % (version, cid),
                        'AMF%d: objects of %d classes come back as %r' % (
                            version, n, r))
            finally:
                for c in made:
                    pyamf.unregister_class(c)
    for n in (1, 10, 100):
        for mk, nm in ((lambda x: [x], 'list'), (lambda x: {'k': x}, 'dict'),
                       (lambda x: pyamf.MixedArray(k=x), 'mixed')):
            cid = 'nesting %d %s' % (n, nm)
            if ctx.mine(cid):
                ctx.state(cid)
                v = u'x'
                for i in range(n):
                    v = mk(v)
                verdict(ctx, version, cid, [v],
                        mc.attempt(roundtrip, [v], version))


def check_unmutated(ctx, version):
    """Encoding must not change what it is given."""
    mk = {
        'sparse': lambda: pyamf.MixedArray({5: 1, -1: 2, 'a': 3}),
        'dense': lambda: pyamf.MixedArray({0: 1, 1: 2, 'a': 3}),
        'dict': lambda: {'a': [1], 'b': {'c': 2}},
        'list': lambda: [1, [2, 3], {'x': [4]}],
    }
    for name in sorted(mk):
        cid = 'unmutated ' + name
        if not ctx.mine(cid):
            continue
        v = mk[name]()
        before = canon_py(v, CLASSES)
        r = mc.attempt(roundtrip, [v, v], version)
        ctx.state(cid)
        verdict(ctx, version, cid, [v, v], r)
        if canon_py(v, CLASSES) != before:
            ctx.violation('mutates-' + name,
                          'encoding %r changed it to %r' % (before, v))
    # one decoder / encoder driven element by element
    vs = [u'a', [1], {'k': u'a'}, None, DATE]
    cid = 'element by element'
    if ctx.mine(cid):
        enc = pyamf.get_encoder(version)
        for v in vs:
            enc.writeElement(v)
        dec = pyamf.get_decoder(version, enc.stream.getvalue())
        got = [dec.readElement() for v in vs]
        verdict(ctx, version, cid, vs, ('ok', (enc.stream.getvalue(), got)))
