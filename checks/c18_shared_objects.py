"""C18: shared objects survive saving, and torn files are refused."""
import os
import StringIO
import sys
import types

for _m in ('cpyamf', 'django', 'google', 'sqlalchemy', 'elixir'):
    sys.modules.setdefault(_m, None)

import pyamf
from pyamf import amf3, sol, util

import amfspec
import globalstate
import mc
import pyval
import rt_common
from rt_common import normal

NAMES = ['n', u'', u'n\xe9', u'a/b c', u'\u20ac' * 40, 'x' * 300]
KEYS = ['a', u'b\xe9', u'', 'long' * 60, u'a']


# ----------------------------------------------------------- file format model
def parse(data):
    """(name, encoding, abstract object) of a file, by the published format."""
    c = amfspec.Cursor(data)
    if c.read(2) != '\x00\xbf':
        raise amfspec.SpecError('magic')
    if c.u32() != c.left():
        raise amfspec.SpecError('length')
    if c.read(10) != 'TCSO\x00\x04\x00\x00\x00\x00':
        raise amfspec.SpecError('signature')
    name = amfspec.utf8(c.read(c.u16()))
    if c.read(3) != '\x00\x00\x00':
        raise amfspec.SpecError('padding')
    enc = c.u8()
    root = amfspec.Node('obj')
    r = amfspec.Amf3Reader(c) if enc == 3 else amfspec.Amf0Reader(c)
    while c.left():
        k = r.string() if enc == 3 else r.utf()
        root.pairs.append((k, r.value()))
        if c.u8() != 0:
            raise amfspec.SpecError('entry padding')
    return name, enc, amfspec.canon(root)


class Sink(object):
    """A file object that records what it is told."""

    def __init__(self):
        self.parts = []
        self.closed = False

    def write(self, s):
        self.parts.append(s)

    def close(self):
        self.closed = True


class Source(object):
    def __init__(self, data):
        self.f = StringIO.StringIO(data)
        self.closed = False

    def read(self, n=-1):
        return self.f.read(n)

    def close(self):
        self.closed = True


def handles(path):
    """Open descriptors of this process on the file."""
    n = 0
    for fd in os.listdir('/proc/self/fd'):
        try:
            if os.readlink('/proc/self/fd/' + fd).startswith(path):
                n += 1
        except OSError:
            pass
    return n


def text(s):
    return s if isinstance(s, unicode) else s.decode('utf-8')


def make(name, values):
    s = sol.SOL(name)
    for k, v in values.items():
        s[k] = v
    return s


def same(got, name, values, version):
    """None if got is a shared object with this name and values."""
    if not isinstance(got, sol.SOL):
        return 'a %r' % (type(got),)
    if got.name != text(name):
        return 'name %r' % (got.name,)
    want = normal(dict(values), version)
    c = mc.attempt(normal, dict(got), version)
    if c != ('ok', want):
        return 'values %r instead of %r' % (c[1:], want)


def whole(ctx, version, name, values, label):
    """Saves and loads in every way."""
    ctx.state((version, text(name), label))
    s = make(name, values)
    sink = Sink()
    ctx.step()
    r = mc.attempt(sol.save, s, sink, version)
    if r[0] != 'ok':
        ctx.violation('save', 'AMF%d %r %s: saving raised %r' % (
            version, name, label, r[1:]))
        return None
    data = ''.join(sink.parts)
    if sink.closed:
        ctx.violation('closed', 'saving closed the file it was given')
    p = mc.attempt(parse, data)
    want = normal(dict(values), version)
    if p[0] != 'ok' or p[1][:2] != (text(name), version) or \
            rt_common.merge(p[1][2]) != rt_common.merge(want):
        ctx.violation('format', 'AMF%d %r %s: the file %s reads as %r' % (
            version, name, label, mc.hexs(data)[:300], p[1:]))
    ways = [('file', lambda: sol.load(Source(data))),
            ('decode', lambda: make(*sol.decode(data))),
            ('stream', lambda: make(*sol.decode(
                util.BufferedByteStream(data)))),
            ('lenient', lambda: make(*sol.decode(data, strict=False)))]
    for w, f in ways:
        ctx.step()
        ctx.trace()
        r = mc.attempt(f)
        bad = same(r[1], name, values, version) if r[0] == 'ok' else r[1:]
        if bad:
            ctx.violation('load:' + w, 'AMF%d %r %s: loading (%s) gives %s' % (
                version, name, label, w, bad))
    r = mc.attempt(sol.encode, name if isinstance(name, unicode) else
                   name.decode('utf-8'), dict(values), True, version)
    if r[0] != 'ok' or r[1].getvalue() != data or r[1].tell() != 0:
        # a dictionary may be written in another order
        if r[0] != 'ok' or parse(r[1].getvalue()) != p[1]:
            ctx.violation('encode', 'AMF%d %r %s: encode gives %r' % (
                version, name, label, r))
    r = mc.attempt(lambda: make(*sol.decode(sol.encode(
        text(name), dict(values), False, version).getvalue(), strict=False)))
    bad = same(r[1], name, values, version) if r[0] == 'ok' else r[1:]
    if bad:
        ctx.violation('lenient', 'AMF%d %r %s: without lengths gives %s' % (
            version, name, label, bad))
    return data


def values_of(version):
    vs = [v for v in rt_common.scalars()]
    return vs


def inputs(ctx):
    for version in (0, 3):
        vs = values_of(version)
        small = [None, True, 0, u'', u'a', 'caf\xc3\xa9', [], {}, 0.5,
                 pyamf.Undefined]
        for name in NAMES:
            if ctx.mine('names/%d/%r' % (version, name)):
                for keys in mc.seqs_upto(KEYS, 3):
                    d = dict((k, u'v%d' % i) for i, k in enumerate(keys))
                    whole(ctx, version, name, d, 'keys %r' % (keys,))
        for i, v in enumerate(vs):
            if ctx.mine('scalar/%d/%d' % (version, i)):
                for w in small:
                    for d in ({'a': v}, {'a': v, 'b': w}, {'a': [v, w]},
                              {'a': {'k': v}, u'k': w}):
                        whole(ctx, version, 'n', d, 'scalar %r %r' % (v, d))
        kinds, leaves = 'LDMTSO', 'dxb' if version == 3 else 'dx'
        maxn = 3 if ctx.thorough else 2
        ctx.bound('nodes of graphs', maxn)
        for i, g in enumerate(pyval.graphs(maxn, kinds, leaves, 2, 1,
                                           {'S': 2})):
            if not ctx.mine('graph/%d/%d' % (version, i)):
                continue
            root, made = rt_common.build(g, [u's'])
            whole(ctx, version, 'n', {'a': root}, pyval.gid(g))
            for m in made:
                # the same object under two names
                whole(ctx, version, 'n', {'a': root, 'b': m, 'c': u'a'},
                      pyval.gid(g) + ' twice')


# ----------------------------------------------------------------- torn files
def samples():
    shared = [u'x', 1]
    return [
        {}, {'a': None}, {'a': u''}, {'a': u'text', 'b': 1.5},
        {'a': [1, 2, [u'x']], 'b': {'k': {'l': u'm'}}},
        {'a': shared, 'b': shared, 'c': [shared]},
        {'a': rt_common.DATE, 'b': True, u'c\xe9': u'\u20ac'},
        {'': 0, 'x': 0}, {'a': rt_common.T()}, {u'z': u'a' * 70},
    ]


def torn(ctx):
    path = os.path.join(ctx.scratch, 'torn-%d.sol' % ctx.shard)
    for version in (0, 3):
        for name in ('n', u'', u'longer name \xe9'):
            for i, values in enumerate(samples()):
                if not ctx.mine('torn/%d/%r/%d' % (version, name, i)):
                    continue
                data = whole(ctx, version, name, values, 'sample %d' % i)
                if data is None:
                    continue
                what = 'AMF%d %r %r' % (version, name, values)
                for n in range(len(data)):
                    refuse(ctx, path, data[:n], '%s cut to %d of %d bytes' % (
                        what, n, len(data)), 'cut')
                for extra in ('\x00', 'x', data[16:], '\x00\x00\x05\x00'):
                    refuse(ctx, path, data + extra, '%s with %r behind it' % (
                        what, extra), 'longer')
                # header: version, length, signature
                for pos in range(16):
                    for b in range(256):
                        if chr(b) != data[pos]:
                            refuse(ctx, None, data[:pos] + chr(b) +
                                   data[pos + 1:], '%s with byte %d set to '
                                   '%02x' % (what, pos, b), 'header')
                # padding and encoding
                p = 18 + len(text(name).encode('utf-8'))
                for pos in range(p, p + 4):
                    for b in range(256):
                        if pos == p + 3 and b in (0, 3) or \
                                chr(b) == data[pos]:
                            continue
                        refuse(ctx, None, data[:pos] + chr(b) +
                               data[pos + 1:], '%s with byte %d set to %02x' %
                               (what, pos, b), 'padding')
                # the byte behind each entry: the last is the last byte
                if values:
                    for b in range(1, 256):
                        refuse(ctx, None, data[:-1] + chr(b), '%s with the '
                               'last byte set to %02x' % (what, b), 'entry')


def refuse(ctx, path, data, what, sig):
    ctx.step()
    ctx.trace()
    src = Source(data)
    ways = [('load', lambda: sol.load(src)),
            ('decode', lambda: sol.decode(data))]
    if path:
        f = open(path, 'wb')
        f.write(data)
        f.close()
        ways.append(('path', lambda: sol.load(path)))
    ctx.state(data)
    for w, f in ways:
        r = mc.attempt(f)
        if r[0] == 'ok':
            ctx.violation('refuse:' + sig, '%s is not refused (%s): %r' % (
                what, w, r[1]))
            return
    if src.closed:
        ctx.violation('closed', 'loading closed the file it was given')
    if path and handles(path):
        ctx.violation('open', 'the file is open after it was refused: %s' % (
            what,))


# -------------------------------------------------------- histories of a file
class Bad(object):
    """cannot be encoded"""
    def __getstate__(self):
        raise ValueError('no')

    x = property(lambda self: 1 / 0)


def contents():
    return [('one', {'a': 1.5, 'b': [u'x'] * 20}), ('two', {}),
            (u'three\xe9', {'k': {'l': u'm' * 100}})]


BAD = [lambda: {'a': types}, lambda: {'a': u'x', 'b': [1, types]},
       lambda: {'a': {'k': types, 'x': u'y' * 50}},
       lambda: {5: u'x'}, lambda: {'a': u'fine', None: u'x'}]


def history(ctx):
    """Saving, failing to save, tearing and loading one file."""
    ops = [('save', i, v) for i in range(3) for v in (0, 3)] + \
        [('bad', i, v) for i in range(len(BAD)) for v in (0, 3)] + \
        [('tear', 'half'), ('tear', 'last'), ('tear', 'empty'),
         ('change', 0), ('change', 3), ('remove',)]
    depth = 4 if ctx.thorough else 3
    ctx.bound('depth of file histories', depth)
    for head in mc.seqs(ops, 2):
        if not ctx.mine('file/%r' % (head,)):
            continue
        for tail in mc.seqs(ops, depth - 2):
            run_file(ctx, head + tail)


def run_file(ctx, hist):
    path = os.path.join(ctx.scratch, 'h-%d.sol' % ctx.shard)
    if os.path.exists(path):
        os.unlink(path)
    cs = contents()
    model = None            # (name, values, version) | 'torn' | None: missing
    for op in hist:
        ctx.step()
        before = open_read(path)
        if op[0] == 'save':
            name, values = cs[op[1]]
            r = mc.attempt(make(name, values).save, path, op[2])
            if r != ('ok', None):
                ctx.violation('file:save', '%r: %r raised %r' % (hist, op, r))
                return
            model = (name, values, op[2])
        elif op[0] == 'bad':
            r = mc.attempt(sol.save, make('bad', BAD[op[1]]()), path, op[2])
            if r[0] == 'ok':
                ctx.violation('file:bad', '%r: %r was saved' % (hist, op))
                return
            if open_read(path) != before:
                ctx.violation('file:destroyed', '%r: the failed %r changed '
                              'the file' % (hist, op))
                return
        elif op[0] == 'tear':
            if before is None:
                continue
            n = {'half': len(before) // 2, 'last': len(before) - 1,
                 'empty': 0}[op[1]]
            if n < 0:
                continue
            f = open(path, 'wb')
            f.write(before[:n])
            f.close()
            model = 'torn'
        elif op[0] == 'change':
            # load, change, save
            r = mc.attempt(sol.load, path)
            if r[0] == 'ok' and isinstance(model, tuple):
                s = r[1]
                s['new'] = u'entry'
                s.save(path, op[1])
                d = dict(model[1])
                d['new'] = u'entry'
                model = (model[0], d, op[1])
        else:
            if before is not None:
                os.unlink(path)
            model = None
        if handles(path):
            ctx.violation('file:open', '%r: the file is open after %r' % (
                hist, op))
            return
        r = mc.attempt(sol.load, path)
        if isinstance(model, tuple):
            bad = same(r[1], model[0], model[1], model[2]) \
                if r[0] == 'ok' else r[1:]
        else:
            bad = None if r[0] == 'exc' else 'an object'
        if bad:
            ctx.violation('file:load', '%r: after %r the file loads as %s' % (
                hist, op, bad))
            return
        if handles(path):
            ctx.violation('file:open', '%r: the file is open after loading' % (
                hist,))
            return
    ctx.trace()
    ctx.state(('file', open_read(path)))


def open_read(path):
    if not os.path.exists(path):
        return None
    f = open(path, 'rb')
    try:
        return f.read()
    finally:
        f.close()


def misuse(ctx):
    if not ctx.mine('misuse'):
        return
    for bad in (None, 5, object(), []):
        for what, f in (('load', lambda: sol.load(bad)),
                        ('save', lambda: sol.save(sol.SOL('n'), bad))):
            ctx.step()
            ctx.trace()
            r = mc.attempt(f)
            if r[:2] != ('exc', 'ValueError'):
                ctx.violation('misuse', '%s(%r) gives %r' % (what, bad, r))


def run(ctx):
    gs = globalstate.GlobalState()
    rt_common.register()
    inputs(ctx)
    torn(ctx)
    history(ctx)
    misuse(ctx)
    gs.restore()
    ctx.assume('a crash while saving leaves a prefix of the file')
