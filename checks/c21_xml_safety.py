"""C21: documents with DTDs or entities are refused on every path."""
import itertools
import os
import struct
import sys

for _m in ('cpyamf', 'django', 'google', 'sqlalchemy', 'elixir'):
    sys.modules.setdefault(_m, None)

import pyamf
from pyamf import amf0, amf3, flex, remoting, sol, util, xml

import globalstate
import mc

SECRET = 'FROMFILE'

# -------------------------------------------------------------- documents
# each part: (text, what it declares)
DECLS = ['', '<?xml version="1.0"?>', '<?xml version="1.0" encoding="utf-8"?>',
         "<?xml version='1.0' standalone='yes'?>\r\n", '\xef\xbb\xbf']
MISC = ['', '<!-- <!DOCTYPE a [<!ENTITY e "v">]> -->', '\n \t',
        '<?p <!DOCTYPE a>?>']
# name: (text, dtd, entities, refers to a file, value of &e;, attributes)
DTDS = [
    ('none', '', 0, 0, 0, None),
    ('bare', '<!DOCTYPE a>', 1, 0, 0, None),
    ('lines', '<!DOCTYPE\n\ta\n>', 1, 0, 0, None),
    ('empty subset', '<!DOCTYPE a []>', 1, 0, 0, None),
    ('system', '<!DOCTYPE a SYSTEM "file://%(dtd)s">', 1, 0, 1, None),
    ('public', '<!DOCTYPE a PUBLIC "-//X" "file://%(dtd)s">', 1, 0, 1, None),
    ('element', '<!DOCTYPE a [<!ELEMENT a ANY>]>', 1, 0, 0, None),
    ('attlist', '<!DOCTYPE a [<!ATTLIST zz b CDATA "d">]>', 1, 0, 0, None),
    ('notation', '<!DOCTYPE a [<!NOTATION n SYSTEM "y">]>', 1, 0, 0, None),
    ('comment', '<!DOCTYPE a [<!-- <!ENTITY e "v"> -->]>', 1, 0, 0, None),
    ('entity', '<!DOCTYPE a [<!ENTITY e "v">]>', 1, 1, 0, u'v'),
    ('single quotes', "<!DOCTYPE a [<!ENTITY e 'v'>]>", 1, 1, 0, u'v'),
    ('nested', '<!DOCTYPE a [<!ENTITY d "xx"><!ENTITY e "&d;&d;">]>',
     1, 1, 0, u'xxxx'),
    ('character', '<!DOCTYPE a [<!ENTITY e "&#118;">]>', 1, 1, 0, u'v'),
    ('file', '<!DOCTYPE a [<!ENTITY e SYSTEM "file://%(secret)s">]>',
     1, 1, 2, None),
    ('public file', '<!DOCTYPE a [<!ENTITY e PUBLIC "-//X" '
     '"file://%(secret)s">]>', 1, 1, 2, None),
    ('parameter', '<!DOCTYPE a [<!ENTITY %% p "v">]>', 1, 1, 0, None),
    ('parameter file', '<!DOCTYPE a [<!ENTITY %% p SYSTEM "file://%(dtd)s">'
     ' %%p;]>', 1, 1, 2, None),
    ('system and entity', '<!DOCTYPE a SYSTEM "file://%(dtd)s" '
     '[<!ENTITY e "v">]>', 1, 1, 1, u'v'),
]
BOMB = '<!DOCTYPE a [<!ENTITY e "0123456789">' + ''.join(
    ['<!ENTITY e%d "%s">' % (i, ('&e%s;' % (i - 1 or '')) * 10)
     for i in range(1, 5)]) + ']><a>&e4;</a>'


def el(tag, text=None, attrs=(), kids=(), tail=None):
    return (tag, text, tuple(attrs), tuple(kids), tail)


# text, tree, uses &e;
ROOTS = [
    ('<a/>', el(u'a'), 0),
    ('<a></a>', el(u'a'), 0),
    ('<a>t</a>', el(u'a', u't'), 0),
    ('<a>&lt;&amp;&#65;&#xe9;</a>', el(u'a', u'<&A\xe9'), 0),
    ('<a>\xc3\xa9\xe2\x82\xac</a>', el(u'a', u'\xe9\u20ac'), 0),
    ('<a><![CDATA[<!DOCTYPE a [<!ENTITY e "v">]>&e;]]></a>',
     el(u'a', u'<!DOCTYPE a [<!ENTITY e "v">]>&e;'), 0),
    ('<a b="&quot;1" c=\'&lt;!DOCTYPE\'/>',
     el(u'a', None, [(u'b', u'"1'), (u'c', u'<!DOCTYPE')]), 0),
    ('<a>x<b>y</b>z<c/><!-- &e; --></a>',
     el(u'a', u'x', (), [el(u'b', u'y', (), (), u'z'), el(u'c')]), 0),
    ('<a><?q &e;?><b><b/></b></a>',
     el(u'a', None, (), [el(u'b', None, (), [el(u'b')])]), 0),
    ('<a>&e;</a>', el(u'a', 1), 1),
    ('<a b="&e;"/>', el(u'a', None, [(u'b', 1)]), 1),
    ('<a><b>x&e;y</b></a>', el(u'a', None, (), [el(u'b', 2)]), 1),
    # not well formed
    ('<a>', None, 0), ('', None, 0), ('<a/><a/>', None, 0), ('<a></b>', None,
                                                             0),
    ('<a/>&e;', None, 1), ('t', None, 0),
]


def subst(t, v):
    f = {1: v, 2: u'x%sy' % v}
    tag, text, attrs, kids, tail = t
    return (tag, f.get(text, text), tuple([(k, f.get(x, x)) for k, x in
                                           attrs]),
            tuple([subst(k, v) for k in kids]), f.get(tail, tail))


def tree(e):
    def u(s):
        if s is None or s == '':
            return None
        return unicode(s)
    kids = [k for k in e if isinstance(k.tag, basestring)]
    return (u(e.tag), u(e.text), tuple(sorted(
        [(u(k), unicode(v)) for k, v in e.items()])),
        tuple([tree(k) for k in kids]), u(e.tail))


def documents(ctx, files, decls, misc):
    for (i, d), (j, m), t, r in itertools.product(
            enumerate(decls), enumerate(misc), DTDS, ROOTS):
        if i and j and not ctx.thorough:
            continue
        name, dtd, has, ents, external, value = t
        if (i or j) and not ctx.thorough and ROOTS.index(r) % 3 != 2 and \
                name not in ('bare', 'entity'):
            continue
        text = d + m + (dtd % files if dtd else '') + r[0]
        yield '%d.%d.%s.%d' % (i, j, name, ROOTS.index(r)), text, verdict(
            t, r, i, j)


def verdict(t, r, i=0, j=0):
    """(permissions -> 'refuse' or a tree)"""
    name, dtd, has, ents, external, value = t

    def f(forbid_dtd, forbid_entities):
        if forbid_dtd and has or forbid_entities and ents:
            return 'refuse'
        if r[1] is None or external == 2 and r[2] and \
                name != 'parameter file':
            return 'refuse'
        if name == 'parameter file':
            return 'any'
        if r[2]:
            if value is None:
                # the parser need not know what the other file declares
                return 'any' if external == 1 and r[1] else 'refuse'
            return subst(r[1], value)
        return r[1]
    return f


# ------------------------------------------------------------------ paths
class Ext(object):
    """externalizable: holds one value"""
    class __amf__:
        external = True

    def __readamf__(self, inp):
        self.v = inp.readObject()

    def __writeamf__(self, out):
        out.writeObject(self.v)


class Plain(object):
    pass


class Sealed(object):
    class __amf__:
        static = ('v',)
        dynamic = False


def u29(n):
    if n < 0x80:
        return chr(n)
    if n < 0x4000:
        return chr(0x80 | n >> 7) + chr(n & 0x7f)
    return chr(0x80 | n >> 14) + chr(0x80 | n >> 7 & 0x7f) + chr(n & 0x7f)


def s3(s):
    return u29(len(s) << 1 | 1) + s


def s0(s):
    return struct.pack('>H', len(s)) + s


def x0(d):
    return '\x0f' + struct.pack('>I', len(d)) + d


def x3(d, t='\x0b'):
    return t + u29(len(d) << 1 | 1) + d


K0 = s0('v')
END0 = '\0\0\x09'
VALUES3 = [
    ('xml', lambda d: x3(d), lambda v: v),
    ('xml string', lambda d: x3(d, '\x07'), lambda v: v),
    ('array', lambda d: '\x09\x03\x01' + x3(d), lambda v: v[0]),
    ('assoc', lambda d: '\x09\x01' + s3('v') + x3(d, '\x07') + '\x01',
     lambda v: v['v']),
    ('object', lambda d: '\x0a\x0b\x01' + s3('v') + x3(d) + '\x01',
     lambda v: v['v']),
    ('sealed', lambda d: '\x0a\x13' + s3('x.Sealed') + s3('v') +
     x3(d, '\x07'), lambda v: v.v),
    ('class', lambda d: '\x0a\x0b' + s3('x.Plain') + s3('v') + x3(d) + '\x01',
     lambda v: v.v),
    ('unknown class', lambda d: '\x0a\x0b' + s3('x.None') + s3('v') + x3(d) +
     '\x01', lambda v: v['v']),
    ('external', lambda d: '\x0a\x07' + s3('x.Ext') + x3(d), lambda v: v.v),
    ('external in external', lambda d: '\x0a\x07' + s3('x.Ext') + '\x0a\x01' +
     x3(d, '\x07'), lambda v: v.v.v),
    ('collection', lambda d: '\x0a\x07' +
     s3('flex.messaging.io.ArrayCollection') + '\x09\x03\x01' + x3(d),
     lambda v: v[0]),
    ('proxy', lambda d: '\x0a\x07' + s3('flex.messaging.io.ObjectProxy') +
     '\x0a\x0b\x01' + s3('v') + x3(d) + '\x01', lambda v: v.v),
    ('referenced', lambda d: '\x09\x05\x01' + x3(d) + '\x0b\x02',
     lambda v: v[1]),
    ('deep', lambda d: '\x09\x03\x01' * 5 + x3(d, '\x07'),
     lambda v: v[0][0][0][0][0]),
]
VALUES0 = [
    ('xml', lambda d: x0(d), lambda v: v),
    ('object', lambda d: '\x03' + K0 + x0(d) + END0, lambda v: v['v']),
    ('array', lambda d: '\x0a\0\0\0\1' + x0(d), lambda v: v[0]),
    ('mixed', lambda d: '\x08\0\0\0\1' + K0 + x0(d) + END0,
     lambda v: v['v']),
    ('class', lambda d: '\x10' + s0('x.Plain') + K0 + x0(d) + END0,
     lambda v: v.v),
    ('unknown class', lambda d: '\x10' + s0('x.None') + K0 + x0(d) + END0,
     lambda v: v['v']),
    ('referenced', lambda d: '\x0a\0\0\0\2' + x0(d) + '\x07\0\1',
     lambda v: v[1]),
    ('deep', lambda d: '\x0a\0\0\0\1' * 5 + x0(d),
     lambda v: v[0][0][0][0][0]),
] + [('AMF3 ' + n, lambda d, f=f: '\x11' + f(d), g) for n, f, g in VALUES3] + [
    ('AMF3 in array', lambda d: '\x0a\0\0\0\2\x05\x11' + x3(d),
     lambda v: v[1]),
    ('AMF3 second', lambda d: '\x0a\0\0\0\2\x11\x01\x11' + x3(d),
     lambda v: v[1]),
]


def ways(version):
    """name, function(data, permissions) -> value; permissions apply?"""
    def deco(d, p):
        return list(pyamf.decode(d, encoding=version, **p))[0]

    def stream(d, p):
        return list(pyamf.decode(util.BufferedByteStream(d),
                                 encoding=version, **p))[0]

    def getter(d, p):
        return pyamf.get_decoder(version, d, **p).readElement()

    def strict(d, p):
        return pyamf.get_decoder(version, d, strict=True, **p).readElement()

    def later(d, p):
        x = pyamf.get_decoder(version, **p)
        x.send(d)
        return x.next()

    def pieces(d, p):
        x = pyamf.get_decoder(version, **p)
        for i in range(0, len(d), 7):
            x.send(d[i:i + 7])
            try:
                return x.next()
            except StopIteration:
                pass
            except IOError:
                pass
        raise pyamf.DecodeError('never complete')

    def cleared(d, p):
        x = pyamf.get_decoder(version, **p)
        x.send('\x05' if version == 0 else '\x01')
        x.next()
        x.context.clear()
        x.send(d)
        return x.next()

    def again(d, p):
        """after a document that was refused"""
        x = pyamf.get_decoder(version, **p)
        x.send(x0('<!DOCTYPE') if version == 0 else x3('<!DOCTYPE'))
        try:
            x.next()
        except Exception:
            pass
        x = pyamf.get_decoder(version, d, context=x.context)
        return x.readElement()

    def posted(d, p):
        seen = []
        pyamf.add_post_decode_processor(
            lambda v, *a, **k: seen.append(v) or v)
        try:
            return list(pyamf.decode(d, encoding=version, **p))[0]
        finally:
            del pyamf.POST_DECODE_PROCESSORS[:]

    return [('decode', deco), ('stream', stream), ('decoder', getter),
            ('strict', strict), ('sent', later), ('pieces', pieces),
            ('cleared', cleared), ('context', again), ('posted', posted)]


def envelope_header(d, p, v=0):
    data = '\0' + chr(v) + '\0\1' + s0('h') + '\1' + struct.pack(
        '>I', len(d)) + d + '\0\0'
    return remoting.decode(data, **p).headers['h']


def body(target, response):
    def f(d, p, v=0):
        data = '\0' + chr(v) + '\0\0\0\1' + s0(target) + s0(response) + \
            struct.pack('>I', len(d)) + d
        r = list(remoting.decode(data, **p))[0][1].body
        return r
    return f


def request(d, p, v=0):
    return body('s.m', '/1')('\x0a\0\0\0\1' + d, p, v)[0]


def second(d, p):
    """a header before it"""
    data = '\0\0\0\1' + s0('h') + '\0\0\0\0\1\x05' + '\0\1' + \
        s0('/1/onResult') + s0('null') + struct.pack('>I', len(d)) + d
    return list(remoting.decode(data, **p))[0][1].body


PACKETS = [
    ('header', envelope_header), ('response', body('/1/onResult', 'null')),
    ('request', request),
    ('header 3', lambda d, p: envelope_header(d, p, 3)),
    ('request 3', lambda d, p: request(d, p, 3)),
    ('after a header', second),
    ('response 3', lambda d, p: body('/1/onResult', 'null')(d, p, 3)),
]


def shared(version):
    def f(d):
        key = s0('k') if version == 0 else s3('k')
        rest = 'TCSO\0\x04\0\0\0\0' + s0('n') + '\0\0\0' + chr(version) + \
            key + d + '\0'
        return sol.decode('\0\xbf' + struct.pack('>I', len(rest)) + rest)[
            1]['k']
    return f


def in_bytes(d, p):
    """what a received byte array is asked to read"""
    v = list(pyamf.decode('\x0c' + u29(len(d) << 1 | 1) + d, encoding=3,
                          **p))[0]
    return v.readObject()


def own_bytes(d, p):
    b = amf3.ByteArray(d)
    return b.readObject()


# without permissions of their own
CLOSED = [
    (3, 'byte array read', in_bytes),
    (3, 'byte array', own_bytes),
    (0, 'shared object', lambda d, p: shared(0)(d)),
    (3, 'shared object', lambda d, p: shared(3)(d)),
    (0, 'shared object file', None),
]


def judge(ctx, sig, what, f, want):
    ctx.step()
    ctx.trace()
    r = mc.attempt(f)
    if r[0] == 'ok':
        got = mc.attempt(tree, r[1])
        got = got[1] if got[0] == 'ok' else ('not XML', r[1])
    elif r[1].startswith('java:') or not isinstance(
            r[2], (ValueError, SyntaxError, pyamf.BaseError)):
        got = r[1:]
    else:
        got = 'refuse'
    ctx.outcome((got if got == 'refuse' else 'tree'))
    if want == 'any':
        want = got
        if SECRET in repr(got):
            want = 'not the file'
    if got != want:
        ctx.violation(sig, '%s gives %r, expected %r' % (what, got, want))


PERMS = list(itertools.product((True, False), repeat=2))


def perms(p):
    return {'forbid_dtd': p[0], 'forbid_entities': p[1]}


def texts(ctx, files):
    """Every document, by the plainest path of each format."""
    for name, text, f in documents(ctx, files, DECLS, MISC):
        if not ctx.mine('doc/' + name):
            continue
        ctx.state(text)
        for p in PERMS:
            k = perms(p)
            for w, g in (
                    ('AMF0', lambda: pyamf.decode(x0(text), encoding=0,
                                                  **k).next()),
                    ('AMF3', lambda: pyamf.decode(x3(text), encoding=3,
                                                  **k).next()),
                    ('AMF3 old', lambda: pyamf.decode(
                        x3(text, '\x07'), encoding=3, **k).next())):
                judge(ctx, 'document', '%s %r with %s' % (w, text, k), g,
                      f(*p))
        # what nobody said anything about
        for w, g in (('AMF0', lambda: pyamf.decode(x0(text),
                                                   encoding=0).next()),
                     ('AMF3', lambda: pyamf.decode(x3(text),
                                                   encoding=3).next()),
                     ('fromstring', lambda: xml.fromstring(text))):
            judge(ctx, 'document:default', '%s %r' % (w, text), g,
                  f(True, True))
        for p in PERMS:
            judge(ctx, 'fromstring', 'fromstring %r, %r' % (text, p),
                  lambda: xml.fromstring(text, **perms(p)), f(*p))
        for k in ({'forbid_dtd': False}, {'forbid_entities': False}):
            judge(ctx, 'document:one', 'AMF3 %r with %r' % (text, k),
                  lambda: pyamf.decode(x3(text), encoding=3, **k).next(),
                  f(k.get('forbid_dtd', True), k.get('forbid_entities',
                                                     True)))


def chosen(files, all_):
    """A few documents of every verdict."""
    for t in DTDS:
        if not all_ and t[0] in ('lines', 'notation', 'comment', 'public',
                                 'single quotes', 'character', 'attlist',
                                 'public file'):
            continue
        for i in (2, 9) if not all_ else (0, 2, 4, 9, 10, 12):
            r = ROOTS[i]
            yield (t[1] % files if t[1] else '') + r[0], verdict(t, r)


def paths(ctx, files):
    docs = list(chosen(files, ctx.thorough))
    for version, values in ((0, VALUES0), (3, VALUES3)):
        for (vn, enc, dec), (wn, way) in itertools.product(
                values, ways(version)):
            if not ctx.mine('path/%d/%s/%s' % (version, vn, wn)):
                continue
            if 'unknown' in vn and wn == 'strict':
                continue
            for text, f in docs:
                ctx.state(('path', version, vn, wn, text))
                for p in PERMS:
                    if p[0] and not ctx.thorough and wn in (
                            'stream', 'sent', 'strict', 'posted'):
                        continue
                    judge(ctx, 'path:' + wn, '%r as %s by %s in AMF%d with %r'
                          % (text, vn, wn, version, perms(p)),
                          lambda: dec(way(enc(text), perms(p))), f(*p))
                judge(ctx, 'path:default', '%r as %s by %s in AMF%d' % (
                    text, vn, wn, version),
                    lambda: dec(way(enc(text), {})), f(True, True))
    # the first byte of some values has another meaning in a response
    for (vn, enc, dec), (wn, way) in itertools.product(VALUES0, PACKETS):
        if not ctx.mine('packet/%s/%s' % (vn, wn)):
            continue
        for text, f in docs:
            ctx.state(('packet', vn, wn, text))
            for p in PERMS:
                if p[0] and vn not in ('xml', 'array', 'AMF3 xml') and \
                        not ctx.thorough:
                    continue
                judge(ctx, 'packet', '%r as %s in %s with %r' % (
                    text, vn, wn, perms(p)),
                    lambda: dec(way(enc(text), perms(p))), f(*p))
            judge(ctx, 'packet:default', '%r as %s in %s' % (text, vn, wn),
                  lambda: dec(way(enc(text), {})), f(True, True))
    for (version, wn, way) in CLOSED:
        for vn, enc, dec in VALUES3 if version == 3 else VALUES0:
            if not ctx.mine('closed/%d/%s/%s' % (version, vn, wn)):
                continue
            for text, f in docs:
                ctx.state(('closed', version, vn, wn, text))
                if way is None:
                    name = os.path.join(ctx.work, 'so')
                    data = enc(text)
                    rest = 'TCSO\0\x04\0\0\0\0' + s0('n') + '\0' * 4 + \
                        s0('k') + data + '\0'
                    fp = open(name, 'wb')
                    fp.write('\0\xbf' + struct.pack('>I', len(rest)) + rest)
                    fp.close()
                    judge(ctx, 'closed', '%r as %s in %s' % (text, vn, wn),
                          lambda: dec(sol.load(name)['k']), f(True, True))
                    continue
                for k in ({}, perms((False, False))):
                    judge(ctx, 'closed', '%r as %s in %s' % (text, vn, wn),
                          lambda: dec(way(enc(text), k)), f(True, True))


def histories(ctx, files):
    """Decoders with different permissions, used in turns."""
    docs = [(t[1] % files if t[1] else '') + ROOTS[i][0]
            for t, i in ((DTDS[0], 2), (DTDS[1], 2), (DTDS[10], 9))]
    fs = [verdict(t, ROOTS[i]) for t, i in (
        (DTDS[0], 2), (DTDS[1], 2), (DTDS[10], 9))]
    ops = [('d', i, j) for i in (0, 1) for j in (0, 1, 2)] + [
        ('clear', 0), ('clear', 1), ('packet', 2), ('other', 2), ('sol', 2)]
    n = 4 if ctx.thorough else 3
    for version in (0, 3):
        enc = x0 if version == 0 else x3
        inner = (lambda d: '\x11' + x3(d)) if version == 0 else (
            lambda d: '\x0a\x07' + s3('x.Ext') + x3(d))
        for p in itertools.product(PERMS, repeat=2):
            if not ctx.thorough and p not in (
                    (PERMS[0], PERMS[3]), (PERMS[3], PERMS[0]),
                    (PERMS[2], PERMS[3]), (PERMS[2], PERMS[1])):
                continue
            for h in mc.seqs(ops, n):
                if not ctx.mine('history/%d/%r/%r' % (version, p, h)):
                    continue
                ctx.state((version, p, h))
                made = [pyamf.get_decoder(version, **perms(q)) for q in p]
                for k, op in enumerate(h):
                    if op[0] == 'd':
                        j = op[2]
                        d = made[op[1]]
                        # bytes of a refused value are not taken again
                        d.stream.seek(0, 2)
                        d.send((enc if k % 2 else inner)(docs[j]))
                        judge(ctx, 'history', 'AMF%d %r %r: step %d' % (
                            version, p, h, k),
                            lambda: getattr(d.readElement(), 'v', None)
                            if version == 3 and k % 2 == 0
                            else d.readElement(), fs[j](*p[op[1]]))
                    elif op[0] == 'clear':
                        made[op[1]].context.clear()
                    elif op[0] == 'packet':
                        judge(ctx, 'history', 'packet after %r %r' % (p, h),
                              lambda: request(x0(docs[2]), {}), 'refuse')
                    elif op[0] == 'sol':
                        judge(ctx, 'history', 'file after %r %r' % (p, h),
                              lambda: shared(0)(x0(docs[2])), 'refuse')
                    else:
                        judge(ctx, 'history', 'other after %r %r' % (p, h),
                              lambda: pyamf.decode(x3(docs[1]),
                                                   encoding=3).next(),
                              'refuse')


def bombs(ctx):
    for version, values in ((0, VALUES0), (3, VALUES3)):
        for vn, enc, dec in values:
            if not ctx.mine('bomb/%d/%s' % (version, vn)):
                continue
            for k in ({}, {'forbid_dtd': False}):
                judge(ctx, 'bomb', 'a bomb as %s in AMF%d' % (vn, version),
                      lambda: dec(pyamf.decode(enc(BOMB), encoding=version,
                                               **k).next()), 'refuse')


def run(ctx):
    gs = globalstate.GlobalState()
    for c in (Ext, Plain, Sealed):
        pyamf.register_class(c, 'x.' + c.__name__)
    files = {'secret': os.path.join(ctx.work, 'secret'),
             'dtd': os.path.join(ctx.work, 'ext.dtd')}
    open(files['secret'], 'w').write(SECRET)
    open(files['dtd'], 'w').write('<!ENTITY e "%s">' % SECRET)
    ctx.bound('documents', '%d declarations x %d prologs x %d DTDs x %d roots'
              % (len(DECLS), len(MISC), len(DTDS), len(ROOTS)))
    ctx.bound('paths', '%d values x %d ways, %d values x %d packets' % (
        len(VALUES0) + len(VALUES3), len(ways(0)), len(VALUES0),
        len(PACKETS)))
    texts(ctx, files)
    paths(ctx, files)
    histories(ctx, files)
    bombs(ctx)
    gs.restore()
    ctx.assume('the parser is the one defusedxml wraps on this platform')
