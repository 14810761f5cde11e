"""C03: what pyamf writes is what the specification says, and conversely."""
import itertools

import pyamf
from pyamf import amf0, amf3

import amfspec
import mc
import pyval
import rt_common as rt
from amfspec import Node

NAMES = [u'a', u'b', u'c\xe9', u'd']


# ---------------------------------------------------- pyamf -> specification
def merge_spec(c, version):
    return rt.merge(c)


def written(vs, version):
    mod = amf3 if version == 3 else amf0
    enc = mod.Encoder()
    for v in vs:
        enc.writeElement(v)
    return enc.stream.getvalue()


def spec_values(data, version):
    n = Node('array')
    n.items = amfspec.read_all(data, version)
    return amfspec.canon(n)


def check_written(ctx, version, name, vs):
    ctx.step(len(vs))
    ctx.trace()
    r = mc.attempt(written, vs, version)
    sig = 'written-amf%d: %s' % (version, name)
    if r[0] == 'exc':
        ctx.violation(sig, 'AMF%d encoding of %s raises %s: %s' % (
            version, name, r[1], r[2]))
        return
    s = mc.attempt(spec_values, r[1], version)
    want = rt.merge(rt.normal(list(vs), version))
    if s[0] == 'exc':
        ctx.violation(sig, 'AMF%d: %s is encoded as %s which is not valid: '
                      '%s %s' % (version, name, mc.hexs(r[1])[:300], s[1],
                                 s[2]))
        return
    got = rt.merge(s[1])
    if got != want:
        ctx.violation(sig, 'AMF%d: the encoding %s of %s means %r, not %r' % (
            version, mc.hexs(r[1])[:300], name, got, want))


def part_written(ctx):
    t = ctx.thorough
    rt.register()
    plans = [(2, 'LDMTSZGONQ', 'dxAb', 2, 1), (3, 'LDT', 'dA', 2, 1),
             (3, 'SMQ', 'x', 1, 2)]
    if t:
        plans += [(3, 'LDMTS', 'dxA', 2, 1), (2, 'LDMTSZGOQ', 'dxAb', 3, 1),
                  (4, 'LDMT', 'dA', 1, 1)]
    for n, kinds, leaves, slots, nsc in plans:
        cnt = 0
        for g in pyval.graphs(n, kinds, leaves, slots, nsc,
                              {'S': 2, 'Z': 2}):
            cnt += 1
            cid = 'graph %s' % pyval.gid(g)
            if not ctx.mine(cid):
                continue
            root, made = rt.build(g, [u'a', 300])
            ctx.state(rt.normal(root, 3))
            for version in (0, 3):
                check_written(ctx, version, pyval.gid(g), [root, made[0]])
        ctx.bound('written graphs n=%d kinds=%s leaves=%s slots=%d' % (
            n, kinds, leaves, slots), cnt)
    for i, v in enumerate(rt.scalars()):
        for name, x in rt.contexts(v):
            cid = 'scalar %r in %s' % (v, name)
            if not ctx.mine(cid):
                continue
            ctx.state(('scalar', i, name))
            for version in (0, 3):
                check_written(ctx, version, cid, [x])
    for s in mc.seqs_upto([u'', u'a', u'\xe9', 'a', u'b' * 128], 4 if t else 3):
        cid = 'texts %r' % (s,)
        if not ctx.mine(cid):
            continue
        ctx.state(cid)
        for version in (0, 3):
            check_written(ctx, version, cid, [list(s), dict(
                (k, k) for k in s if k)])


SIZES = sorted(set(b + d for b in (64, 128, 8192, 16384, 65536)
                   for d in (-2, -1, 0, 1)))


def part_sizes(ctx):
    """Every kind of length at the places where its encoding changes."""
    def nest(n, f):
        for version in (0, 3):
            for name, vs in f(n):
                if version == 0 and n > 65535 and name in (
                        'key', 'mixed key', 'attribute') and mc.attempt(
                            written, vs, 0)[:2] == ('exc', 'EncodeError'):
                    continue        # AMF0 has no such names
                check_written(ctx, version, 'size %d: %s' % (n, name), vs)

    def made(n):
        yield 'text', [u'x' * n, u'x' * n]
        yield 'bytes', ['x' * n, {u'k': 'x' * n}]
        yield 'text of two byte characters', [u'\xe9' * (n // 2) +
                                              u'x' * (n % 2)]
        yield 'key', [{u'k' * n: 1}]
        yield 'mixed key', [pyamf.MixedArray({u'k' * n: 1})]
        yield 'list', [[1] * n, 2]
        yield 'mixed list', [pyamf.MixedArray(
            [(i, None) for i in range(n if n < 10000 else 3)]), 2]
        yield 'xml', [rt.pxml.fromstring('<a>' + 'x' * (n - 7) + '</a>')]
        yield 'attribute', [attr(n)]

    def made3(n):
        yield 'byte array', [amf3.ByteArray('x' * n), 3]

    def attr(n):
        o = rt.T()
        setattr(o, 'k' * n, 1)
        return o

    for n in SIZES:
        if not ctx.mine('size %d' % n):
            continue
        ctx.state(('size', n))
        nest(n, made)
        for name, vs in made3(n):
            check_written(ctx, 3, 'size %d: %s' % (n, name), vs)
        # and what the specification writes with that size
        for version, opts in ((3, OPTS3[:2]), (0, OPTS0[:2])):
            for o in opts:
                x = amfspec.text(u'x' * n)
                check_read(ctx, version, 'size %d text' % n, x, o)
                a = Node('array')
                a.items = [amfspec.num(1)] * n
                check_read(ctx, version, 'size %d array' % n, a, o)
                if n < 65536 or version == 3:
                    b = Node('obj')
                    b.pairs = [(u'k' * n, x)]
                    check_read(ctx, version, 'size %d name' % n, b, o)
    ctx.bound('sizes of texts, names, lists, XML and byte arrays', len(SIZES))


# ---------------------------------------------------- specification -> pyamf
def build(g, scalars):
    made = []
    for kind, slots in g:
        if kind == 'd':
            made.append(('date', 1236554400123.0))
            continue
        if kind == 'x':
            made.append(('xml', unicode(rt.XML)))
            continue
        n = Node({'a': 'array', 'e': 'array', 'o': 'obj', 't': 'typed',
                  'p': 'typed', 'u': 'typed', 'b': 'ba'}[kind])
        if kind in 'tp':
            n.name = u'h.T'
        if kind == 'u':
            n.name = u'some.Unknown'
        if kind == 'b':
            n.data = 'x\x00y'
        made.append(n)
    for o, (kind, slots) in zip(made, g):
        for i, (st, j) in enumerate(slots):
            v = scalars[j] if st == 's' else made[j]
            if kind == 'a' or (kind == 'e' and i % 2):
                o.items.append(v)
            else:
                o.pairs.append((NAMES[i], v))
        if kind == 'p':         # first member sealed, others dynamic
            o.sealed = [NAMES[0]] if slots else []
    return made[0]


OPTS3 = [dict(strings=s, traits=t, sealed=z, numbers=n)
         for s in (True, False) for t in (True, False)
         for z in (True, False) for n in ('int', 'double')]
OPTS0 = ([dict(longs=l, count=c, ecma=e) for l in (True, False)
          for c in (None, 0, 9) for e in (True, False)] +
         [dict(avmplus='obj'), dict(avmplus='array'),
          dict(avmplus='typed', sealed=True),
          dict(avmplus='obj typed array', strings=False)])


def decoded(data, version):
    mod = amf3 if version == 3 else amf0
    return list(mod.Decoder(data))


def check_read(ctx, version, name, v, opts):
    r = mc.attempt(amfspec.write, v, version, **opts)
    if r[0] == 'exc':
        if isinstance(v, Node) or v[0] != 'ba':
            raise r[2]
        return
    data = r[1]
    # the writer and the reader of the specification must agree
    n = Node('array')
    n.items = [v]
    want = rt.merge(amfspec.canon(n))
    back = rt.merge(spec_values(data, version))
    if back != want:
        raise AssertionError('oracle disagrees with itself on %s %r: %r %r' % (
            name, opts, back, want))
    ctx.step()
    ctx.trace()
    sig = 'read-amf%d: %s %s' % (version, name, sorted(opts.items()))
    d = mc.attempt(decoded, data, version)
    if d[0] == 'exc':
        ctx.violation(sig, 'AMF%d: decoding %s (a valid encoding of %s) '
                      'raises %s: %s' % (version, mc.hexs(data)[:300], name,
                                         d[1], d[2]))
        return
    got = mc.attempt(lambda: rt.merge(rt.normal(d[1], version)))
    if got[0] == 'exc' or got[1] != want:
        ctx.violation(sig, 'AMF%d: %s (a valid encoding of %s, options %r) '
                      'decodes to %r instead of %r' % (
                          version, mc.hexs(data)[:300], name, opts,
                          got[1], want))
    ctx.outcome(len(data))


def has(g, kinds):
    return any(k in kinds for k, s in g)


def avm_ok(g, opts):
    """An object may not be reachable in both modes (it would have to be sent
    twice), so AVM+ options apply to trees only."""
    seen = set()
    for k, slots in g:
        for st, j in slots:
            if st == 'n':
                if j in seen or j == 0:
                    return False
                seen.add(j)
    return True


def part_read(ctx):
    t = ctx.thorough
    plans = [(2, 'aeotpu', 'dxb', 2, 1), (3, 'eotu', 'd', 1, 1)]
    if t:
        plans += [(3, 'aotp', 'db', 2, 1), (3, 'aeotpu', 'dx', 1, 2),
                  (4, 'aeot', 'd', 1, 1)]
    sc = [amfspec.text(u'a'), amfspec.num(5)]
    for n, kinds, leaves, slots, nsc in plans:
        cnt = 0
        for g in pyval.graphs(n, kinds, leaves, slots, nsc):
            cnt += 1
            cid = 'spec graph %s' % pyval.gid(g)
            if not ctx.mine(cid):
                continue
            v = build(g, sc)
            ctx.state(('spec', pyval.gid(g)))
            for o in OPTS3:
                check_read(ctx, 3, pyval.gid(g), v, o)
            if has(g, 'b'):
                continue
            for o in OPTS0:
                if o.get('avmplus') and not avm_ok(g, o):
                    continue
                check_read(ctx, 0, pyval.gid(g), v, o)
        ctx.bound('spec graphs n=%d kinds=%s leaves=%s slots=%d' % (
            n, kinds, leaves, slots), '%d graphs x %d + %d encodings' % (
                cnt, len(OPTS3), len(OPTS0)))
    # every sequence of members of two instances of one class: sealed lists
    # that differ between the instances need their own traits
    for a, b in itertools.product(range(4), repeat=2):
        for da, db in itertools.product((True, False), repeat=2):
            for name in (u'h.T', u'some.Unknown', u''):
                cid = 'sealed %d%d %s%s %r' % (a, b, da, db, name)
                if not ctx.mine(cid):
                    continue
                root = Node('array')
                for k, dyn in ((a, da), (b, db), (a, da), (b, db)):
                    o = Node('typed' if name else 'obj', name or None)
                    o.pairs = [(NAMES[i], amfspec.num(i)) for i in range(4)]
                    o.sealed = NAMES[:k] if dyn else NAMES[:]
                    if not dyn:
                        o.sealed = NAMES[:k]
                        o.pairs = o.pairs[:k]
                    o.dynamic = dyn
                    root.items.append(o)
                ctx.state(cid)
                for o in OPTS3:
                    check_read(ctx, 3, cid, root, o)
    # numbers in both forms, strings through references
    for x in rt.NUMS:
        cid = 'spec number %r' % (x,)
        if ctx.mine(cid):
            ctx.state(cid)
            for version, opts in ((3, OPTS3), (0, OPTS0)):
                for o in opts:
                    check_read(ctx, version, cid, amfspec.num(x), o)
    for s in mc.seqs_upto([u'', u'a', u'\xe9', u'b' * 128], 4 if t else 3):
        cid = 'spec texts %r' % (s,)
        if ctx.mine(cid):
            ctx.state(cid)
            n = Node('array')
            n.items = [amfspec.text(x) for x in s]
            m = Node('obj')
            m.pairs = [(x, amfspec.text(x)) for x in set(s) if x]
            n.items.append(m)
            for version, opts in ((3, OPTS3), (0, OPTS0)):
                for o in opts:
                    check_read(ctx, version, cid, n, o)


def run(ctx):
    part_written(ctx)
    part_sizes(ctx)
    part_read(ctx)
    ctx.sample('objects written with every combination of string references, '
               'trait references, sealed members and number types')
    ctx.assume('lib/amfspec.py is the specification: an independent reader '
               'and writer that are checked against each other on every case')
