"""C20: collections and proxies behave like what they wrap."""
import itertools
import sys

for _m in ('cpyamf', 'django', 'google', 'sqlalchemy', 'elixir'):
    sys.modules.setdefault(_m, None)

import pyamf
from pyamf import amf0, amf3, flex, remoting
from pyamf.flex import ArrayCollection, ObjectProxy

import amfspec
import globalstate
import mc
import packets
import pyval
import rt_common
from rt_common import KEYS, LL, O, S, T, U


class X(object):
    """both attributes travel as proxies"""
    class __amf__:
        proxy = ('a', 'b')


CLASSES = {T: u'h.T', S: u'h.S', X: u'h.X', O: u'h.O'}


# ------------------------------------------------- collections are lists
class Elem(object):
    """equal to others of the same name"""
    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return isinstance(other, Elem) and self.n == other.n

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return 'Elem(%r)' % self.n


def model_op(l, op):
    """The result of op on the list l; raises what is documented."""
    k = op[0]
    if k in ('addItem', 'append'):
        l.append(op[1])
    elif k == 'addItemAt':
        if not 0 <= op[2] <= len(l):
            raise IndexError
        l.insert(op[2], op[1])
    elif k == 'getItemAt':
        if not 0 <= op[1] < len(l):
            raise IndexError
        return l[op[1]]
    elif k == 'getItemIndex':
        return l.index(op[1]) if op[1] in l else -1
    elif k == 'removeAll':
        del l[:]
    elif k == 'removeItemAt':
        if not 0 <= op[1] < len(l):
            raise IndexError
        return l.pop(op[1])
    elif k == 'setItemAt':
        if not 0 <= op[2] < len(l):
            raise IndexError
        old = l[op[2]]
        l[op[2]] = op[1]
        return old
    elif k == 'toArray':
        return list(l)
    elif k == 'length':
        return len(l)
    elif k == 'set length':
        raise AttributeError
    elif k == 'del':
        del l[op[1]]
    elif k == 'extend':
        l.extend(op[1])
    elif k == 'reverse':
        l.reverse()
    else:
        raise KeyError(k)


def real_op(c, op):
    k = op[0]
    if k == 'length':
        return c.length
    if k == 'set length':
        c.length = op[1]
        return
    if k == 'del':
        del c[op[1]]
        return
    if k == 'getItemAt' and len(op) == 3:
        return c.getItemAt(op[1], op[2])
    r = getattr(c, k)(*op[1:])
    return r


def list_ops(thorough):
    a, b = u'a', Elem(1)
    ops = []
    for x in (a, b, None):
        ops += [('addItem', x), ('getItemIndex', x)]
    for i in (-2, -1, 0, 1, 2, 3):
        ops += [('addItemAt', a, i), ('getItemAt', i), ('removeItemAt', i),
                ('setItemAt', b, i)]
    ops += [('removeAll',), ('toArray',), ('length',), ('set length', 0),
            ('append', u'p'), ('del', 0), ('extend', [a, Elem(1)]),
            ('reverse',), ('getItemAt', 0, 5)]
    return ops


def histories(ctx):
    ops = list_ops(ctx.thorough)
    depth = 4 if ctx.thorough else 3
    ctx.bound('depth of collection histories', depth)
    seen = set()
    inits = [[], [u'a'], [Elem(1), u'a'], [u'a', None, u'a']]
    for i, init in enumerate(inits):
        for first in ops:
            if not ctx.mine('history/%d/%r' % (i, first)):
                continue
            for tail in mc.seqs(ops, depth - 1):
                c = ArrayCollection(init)
                l = list(init)
                hist = (first,) + tail
                for op in hist:
                    ctx.step()
                    want = mc.attempt(model_op, l, op)
                    got = mc.attempt(real_op, c, op)
                    if got[:2] != want[:2] or list(c) != l or \
                            len(c) != len(l) or c.length != len(l):
                        ctx.violation('history:' + op[0], 'from %r after %r: '
                                      '%r gives %r and %r, expected %r and %r'
                                      % (init, hist, op, got[:2], list(c),
                                         want[:2], l))
                        break
                else:
                    ctx.trace()
                    k = repr(l)
                    ctx.state(('list', k))
                    if k not in seen:
                        seen.add(k)
                        travel(ctx, c, l)


def travel(ctx, c, l):
    want = [x if not isinstance(x, Elem) else {'n': x.n} for x in l]
    for version in (0, 3):
        r = mc.attempt(lambda: list(pyamf.decode(pyamf.encode(
            c, encoding=version), encoding=version)))
        ctx.step(2)
        if r[0] != 'ok' or len(r[1]) != 1 or \
                type(r[1][0]) is not ArrayCollection or \
                list(r[1][0]) != want:
            ctx.violation('travel', 'AMF%d: collection of %r arrives as %r' % (
                version, l, r))


def constructor(ctx):
    if not ctx.mine('constructor'):
        return
    for src, want in [(None, []), ([], []), ([1, 2], [1, 2]), ((1,), [1]),
                      (iter([1, 2]), [1, 2]), (set([3]), [3]),
                      (ArrayCollection([4]), [4]), (xrange(2), [0, 1]),
                      ((x for x in [5]), [5])]:
        ctx.step()
        ctx.trace()
        r = mc.attempt(ArrayCollection, src)
        if r[0] != 'ok' or list(r[1]) != want:
            ctx.violation('constructor', 'ArrayCollection(%r) gives %r' % (
                src, r))
    for src in ({}, {'a': 1}, pyamf.ASObject()):
        r = mc.attempt(ArrayCollection, src)
        if r[:2] != ('exc', 'TypeError'):
            ctx.violation('constructor', 'ArrayCollection(%r) gives %r' % (
                src, r))


def proxy_attrs(ctx):
    """An object proxy passes attributes on."""
    ops = [('get', 'a'), ('get', 'b'), ('set', 'a', 1), ('set', 'a', 2),
           ('set', 'b', None), ('has', 'a'), ('raw set', 'a', 3),
           ('raw del', 'a')]
    depth = 5 if ctx.thorough else 4
    for cls in (pyamf.ASObject, T, O, None):
        for head in mc.seqs(ops, 2):
            if not ctx.mine('proxy/%s/%r' % (cls, head)):
                continue
            for tail in mc.seqs(ops, depth - 2):
                raw = cls() if cls else None
                p = ObjectProxy(raw)
                model = {}
                if raw is None:
                    raw = p._amf_object
                for op in head + tail:
                    ctx.step()
                    bad = proxy_op(p, raw, model, op)
                    if bad:
                        ctx.violation('proxy:' + op[0], 'proxy of %s after %r'
                                      ': %r %s' % (cls, head + tail, op, bad))
                        break
                else:
                    ctx.trace()
                    ctx.state(('proxy', str(cls), tuple(sorted(
                        model.items()))))


def proxy_op(p, raw, model, op):
    k, name = op[:2]
    if k == 'get':
        r = mc.attempt(getattr, p, name)
        if name in model and r != ('ok', model[name]) or \
                name not in model and r[:2] != ('exc', 'AttributeError'):
            return 'gives %r, expected %r' % (r, model.get(name))
    elif k == 'has':
        if hasattr(p, name) != (name in model):
            return 'is wrong'
    elif k == 'set':
        setattr(p, name, op[2])
        model[name] = op[2]
    elif k == 'raw set':
        setattr(raw, name, op[2])
        model[name] = op[2]
    elif k == 'raw del':
        if name in model:
            if isinstance(raw, dict):
                del raw[name]
            else:
                delattr(raw, name)
            del model[name]
    d = dict(raw) if isinstance(raw, dict) else dict(vars(raw))
    if d != model or p._amf_object is not raw:
        return 'leaves %r, expected %r' % (d, model)


# --------------------------------------------------------------------- graphs
def build(g):
    """rt_common.build, with collections C and object proxies P (of an
    object) and V (of an instance of T), and X."""
    made = []
    for kind, slots in g:
        made.append({
            'C': ArrayCollection, 'P': ObjectProxy, 'X': X,
            'V': lambda: ObjectProxy(T()),
        }[kind]() if kind in 'CPXV' else rt_common.build([(kind, ())],
                                                         [])[0])
    for o, (kind, slots) in zip(made, g):
        for i, (st, j) in enumerate(slots):
            v = (u's', 7)[j] if st == 's' else made[j]
            if kind in 'LQC':
                o.append(v)
            elif kind in 'DG':
                o[KEYS[i]] = v
            else:
                setattr(o, KEYS[i], v)
    return made[0], made


def bare(v, memo=None, keep_types=False):
    """v without proxies; with keep_types, marked where they were."""
    memo = {} if memo is None else memo
    k = id(v)
    if k in memo:
        return memo[k][0]
    if isinstance(v, ObjectProxy):
        if keep_types:
            r = pyamf.TypedObject(u'PROXY')
            memo[k] = (r, v)
            r['of'] = bare(v._amf_object, memo, keep_types)
            return r
        r = bare(v._amf_object, memo, keep_types)
        memo[k] = (r, v)
        return r
    if isinstance(v, ArrayCollection):
        r = []
        out = r
        if keep_types:
            out = pyamf.TypedObject(u'COLLECTION')
            out['of'] = r
        memo[k] = (out, v)
        r.extend([bare(x, memo, keep_types) for x in v])
        return out
    if isinstance(v, (list, tuple)):
        r = []
        memo[k] = (r, v)
        r.extend([bare(x, memo, keep_types) for x in v])
        return r
    if isinstance(v, dict):
        r = pyamf.TypedObject(v.alias) if isinstance(v, pyamf.TypedObject) \
            else {}
        memo[k] = (r, v)
        for kk, x in v.items():
            r[kk] = bare(x, memo, keep_types)
        return r
    c = getattr(v, '__class__', None)
    if c in CLASSES or c is U:
        r = pyamf.TypedObject(CLASSES[c]) if c is not U else {}
        memo[k] = (r, v)
        for kk, x in vars(v).items():
            r[kk] = bare(x, memo, keep_types)
        return r
    return v


def canon(v, keep_types=False):
    return rt_common.merge(pyval.canon_py(bare(v, None, keep_types)))


def external(name):
    def read(r):
        return r.value()
    return read


EXT = {u'flex.messaging.io.ArrayCollection': external('C'),
       u'flex.messaging.io.ObjectProxy': external('P')}


def strip(v, mode, seen, wrapped=False):
    """The graph of a peer without wrappers. mode 'all': nothing may come
    without its wrapper; 'keep': wrappers stay as typed objects."""
    if isinstance(v, tuple):
        return v
    k = (id(v), wrapped)
    if id(v) in seen:
        if mode == 'all' and not wrapped and v.kind in ('array', 'obj'):
            raise amfspec.SpecError('bare %s' % v.kind)
        return seen[id(v)][0]
    if v.kind == 'ext':
        if mode == 'keep':
            n = amfspec.Node('typed', u'COLLECTION' if v.name.endswith('n')
                             else u'PROXY')
            seen[id(v)] = (n, v)
            n.pairs = [(u'of', strip(v.data, mode, seen, True))]
            return n
        # refer to what it wraps, also while that is being read
        seen[id(v)] = (v.data, v)
        return strip(v.data, mode, seen, True)
    if mode == 'all' and not wrapped and v.kind in ('array', 'obj'):
        raise amfspec.SpecError('bare %s' % v.kind)
    seen[id(v)] = (v, v)
    v.items = [strip(x, mode, seen) for x in v.items]
    v.pairs = [(kk, strip(x, mode, seen)) for kk, x in v.pairs]
    return v


def wire(data, version, mode):
    root = amfspec.Node('array')
    root.items = amfspec.read_all(data, version, EXT)
    seen = {id(root): (root, root)}
    root.items = [strip(x, mode, seen) for x in root.items]
    return rt_common.merge(amfspec.canon(root))


def encode(vs, version, **kw):
    mod = amf3 if version == 3 else amf0
    e = mod.Encoder(**kw)
    for v in vs:
        e.writeElement(v)
    return e.stream.getvalue()


def decode(data, version, **kw):
    mod = amf3 if version == 3 else amf0
    return list(mod.Decoder(data, **kw))


def explicit(ctx):
    """Collections and proxies made by the user."""
    maxn = 3
    ctx.bound('nodes of graphs', maxn)
    for i, g in enumerate(pyval.graphs(maxn, 'CPVLDT' if ctx.thorough
                                       else 'CPVD', 'd' if ctx.thorough
                                       else '', 2, 1)):
        if len(g) == 3 and not ctx.thorough and i % 4 and \
                sum(len(s) for k, s in g) > 4:
            continue
        if not ctx.mine('explicit/%d' % i):
            continue
        root, made = build(g)
        roots = [root] if i % 3 else [root, made[-1], root]
        want = canon(roots, True)
        name = pyval.gid(g)
        ctx.state(want)
        for version in (3, 0):
            if version == 0 and (len(roots) > 1 or
                                 [k for k, s in g if k in 'LDT']):
                # AMF0 cannot refer to what is in an AMF3 value, or back
                continue
            ctx.step(2)
            ctx.trace()
            r = mc.attempt(encode, roots, version)
            if r[0] != 'ok':
                ctx.violation('explicit:encode', 'AMF%d encoding %s raised %r'
                              % (version, name, r[1:]))
                continue
            data = r[1]
            w = mc.attempt(wire, data, version, 'keep')
            if w != ('ok', want):
                ctx.violation('explicit:wire', 'AMF%d %s is written as %s, '
                              'read as %r, expected %r' % (
                                  version, name, mc.hexs(data), w[1:], want))
            r = mc.attempt(decode, data, version)
            c = mc.attempt(canon, r[1], True) if r[0] == 'ok' else r
            if c != ('ok', want):
                ctx.violation('explicit:decode', 'AMF%d %s decodes as %r, '
                              'expected %r' % (version, name, c, want))
            if version == 3:
                # a decoder that takes the wrappers off
                r = mc.attempt(decode, data, 3, use_proxies=True)
                c = mc.attempt(plain, r[1]) if r[0] == 'ok' else r
                if c != ('ok', canon(roots)):
                    ctx.violation('explicit:unwrap', '%s unwraps to %r, '
                                  'expected %r' % (name, c, canon(roots)))
        if canon(roots, True) != want:
            ctx.violation('explicit:changed', 'encoding changed %s' % name)


def plain(vs):
    """canon of a graph that has no wrappers."""
    seen = set()

    def go(v):
        if id(v) in seen:
            return
        seen.add(id(v))
        if isinstance(v, (ArrayCollection, ObjectProxy)):
            raise pyval.Foreign('wrapper')
        if isinstance(v, (list, tuple)):
            map(go, v)
        elif isinstance(v, dict):
            map(go, v.values())
        elif getattr(v, '__class__', None) in CLASSES:
            map(go, vars(v).values())
    go(vs)
    return canon(vs)


def proxied(ctx):
    """Everything is wrapped on the wire and unwrapped again."""
    maxn = 3
    kinds = 'LDTQGXO' if ctx.thorough else 'LDTX'
    for few in (False, True):
        # a few nodes of all kinds, then more of the main ones
        for i, g in enumerate(pyval.graphs(
                maxn if not few else 2, kinds if not few else 'LDTQGXOS',
                'dxb' if few else '', 2, 1, {'S': 2, 'X': 2})):
            if len(g) == 3 and not ctx.thorough and \
                    sum(len(s) for k, s in g) > 4:
                continue
            if not ctx.mine('proxied/%s/%d' % (few, i)):
                continue
            root, made = build(g)
            roots = [root] if i % 3 else [root, made[-1], root]
            want = canon(roots)
            name = pyval.gid(g)
            ctx.state(want)
            ctx.step(2)
            ctx.trace()
            r = mc.attempt(encode, roots, 3, use_proxies=True)
            if r[0] != 'ok':
                ctx.violation('proxied:encode', 'encoding %s raised %r' % (
                    name, r[1:]))
                continue
            data = r[1]
            w = mc.attempt(wire, data, 3, 'all')
            if w != ('ok', want):
                ctx.violation('proxied:wire', '%s is written as %s, read as '
                              '%r, expected %r' % (name, mc.hexs(data), w[1:],
                                                   want))
            r = mc.attempt(decode, data, 3, use_proxies=True)
            c = mc.attempt(plain, r[1]) if r[0] == 'ok' else r
            if c != ('ok', want):
                ctx.violation('proxied:decode', '%s (%s) decodes as %r, '
                              'expected %r' % (name, mc.hexs(data), c, want))
            if [1 for k, s in g if k == 'X'] and cyclic(g):
                continue
            # a decoder that leaves them on
            r = mc.attempt(decode, data, 3)
            c = mc.attempt(canon, r[1]) if r[0] == 'ok' else r
            if c != ('ok', want) and not (
                    c[0] == 'ok' and 'X' in [k for k, s in g] and
                    unfold(c[1]) == unfold(want)):
                ctx.violation('proxied:left', '%s (%s) decodes as %r, '
                              'expected %r' % (name, mc.hexs(data), c, want))
            if canon(roots) != want:
                ctx.violation('proxied:changed', 'encoding changed %s' % name)


def cyclic(g):
    reach = dict((i, set(j for st, j in s if st == 'n'))
                 for i, (k, s) in enumerate(g))
    for _ in g:
        for i in reach:
            for j in list(reach[i]):
                reach[i] |= reach[j]
    return bool([i for i in reach if i in reach[i]])


def unfold(c, memo=None):
    """A canonical form without identities, of an acyclic graph."""
    memo = {} if memo is None else memo
    if not isinstance(c, tuple):
        return c
    if c[:1] == ('ref',):
        return memo[c[1]]
    if c[:1] and c[0] in ('obj', 'array', 'typed', 'ecma', 'ba'):
        r = (c[0],) + tuple([unfold(x, memo) for x in c[2:]])
        memo[c[1]] = r
        return r
    return tuple([unfold(x, memo) for x in c])


def attributes(ctx):
    """Attributes declared as proxies, without proxies everywhere."""
    for i, g in enumerate(pyval.graphs(3, 'LDTX', '', 2, 1, {'X': 2})):
        if len(g) == 3 and not ctx.thorough and \
                sum(len(s) for k, s in g) > 4:
            continue
        if cyclic(g) or 'X' not in [k for k, s in g]:
            continue
        if not ctx.mine('attributes/%d' % i):
            continue
        root, made = build(g)
        want = unfold(canon([root]))
        name = pyval.gid(g)
        ctx.step(2)
        ctx.trace()
        ctx.state(('attributes', want))
        for version in (3, 0):
            r = mc.attempt(encode, [root], version)
            c = d = r
            if r[0] == 'ok':
                d = mc.attempt(attr_wire, r[1], version)
                c = mc.attempt(decode, r[1], version)
                if c[0] == 'ok':
                    c = mc.attempt(plain, c[1])
            if c[0] != 'ok' or unfold(c[1]) != want:
                ctx.violation('attributes', 'AMF%d %s decodes as %r, expected '
                              '%r' % (version, name, c, want))
            if d[0] != 'ok' or unfold(d[1]) != want:
                ctx.violation('attributes:wire', 'AMF%d %s is read as %r, '
                              'expected %r' % (version, name, d, want))


def attr_wire(data, version):
    """Exactly the attributes of X are wrapped."""
    seen = set()

    def go(v, may):
        if isinstance(v, tuple):
            return
        if may is False and v.kind == 'ext' or may and version == 3 and \
                v.kind in ('array', 'obj'):
            raise amfspec.SpecError('wrapper')
        if id(v) in seen:
            return
        seen.add(id(v))
        if v.kind == 'ext':
            v = v.data
            seen.add(id(v))
        for x in v.items:
            go(x, False)
        for k, x in v.pairs:
            go(x, v.kind == 'typed' and v.name == u'h.X')
    for v in amfspec.read_all(data, version, EXT):
        go(v, False)
    return wire(data, version, 'strip')


def defaults(ctx):
    """The module setting reaches every way in."""
    for i, g in enumerate(pyval.graphs(2, 'LDTX', 'd', 2, 1, {'X': 2})):
        if not ctx.mine('default/%d' % i):
            continue
        root, made = build(g)
        want = canon([root])
        name = pyval.gid(g)
        amf3.use_proxies_default = True
        try:
            ctx.step(4)
            ctx.trace()
            r = mc.attempt(lambda: pyamf.encode(root, encoding=3).getvalue())
            c = d = r
            if r[0] == 'ok':
                d = mc.attempt(wire, r[1], 3, 'all')
                c = mc.attempt(lambda: plain(list(pyamf.decode(
                    r[1], encoding=3))))
            if c != ('ok', want) or d != ('ok', want):
                ctx.violation('default', '%s decodes as %r, is read as %r, '
                              'expected %r' % (name, c, d, want))
            env = remoting.Envelope(3)
            env['/1'] = remoting.Response(root)
            r = mc.attempt(lambda: remoting.encode(env).getvalue())
            c = r
            if r[0] == 'ok':
                c = mc.attempt(lambda: plain(
                    [remoting.decode(r[1])['/1'].body]))
            if c != ('ok', want):
                ctx.violation('default:remoting', '%s decodes as %r, expected '
                              '%r' % (name, c, want))
        finally:
            amf3.use_proxies_default = False


def peers(ctx):
    """Contents other writers give a collection."""
    head = '\x0a\x07' + chr(2 * len('flex.messaging.io.ArrayCollection') + 1) \
        + 'flex.messaging.io.ArrayCollection'
    array = '\x09\x05\x01\x04\x01\x0a\x0b\x01\x01'
    coll = '\x0a\x01' + array
    key = '\x0dsource'
    for name, content, want in (
            ('array', array, [1, {}]),
            ('empty array', '\x09\x01\x01', []),
            ('object with source', '\x0a\x0b\x01' + key + array + '\x01',
             [1, {}]),
            ('sealed object with source', '\x0a\x13\x01' + key + array,
             [1, {}]),
            ('object with empty source',
             '\x0a\x0b\x01' + key + '\x09\x01\x01\x01', []),
            ('collection', coll, [1, {}]),
            ('null', '\x01', None), ('integer', '\x04\x01', None),
            ('true', '\x03', None), ('double', '\x05' + '\0' * 8, None),
            ('object with a number as source',
             '\x0a\x0b\x01' + key + '\x04\x01\x01', None)):
        if not ctx.mine('peers/' + name):
            continue
        for nested in (False, True):
            data = head + content
            if nested:
                data = '\x09\x03\x01' + data
            ctx.step()
            ctx.trace()
            ctx.state(('peer', name, nested))
            r = mc.attempt(decode, data + '\x04\x07', 3)
            if want is None:
                if r[0] == 'ok' or r[1] != 'DecodeError':
                    ctx.violation('peers', 'a collection of %s decodes as %r'
                                  % (name, r[1:]))
                continue
            if r[0] == 'ok' and len(r[1]) == 2 and r[1][1] == 7:
                v = r[1][0][0] if nested else r[1][0]
                if isinstance(v, ArrayCollection) and len(v) == len(want) \
                        and [dict(x) if isinstance(x, dict) else x
                             for x in v] == want:
                    continue
            ctx.violation('peers', 'a collection of %s decodes as %r, '
                          'expected %r' % (name, r[1:], want))


def run(ctx):
    gs = globalstate.GlobalState()
    for c, a in CLASSES.items():
        pyamf.register_class(c, a.encode('ascii'))
    constructor(ctx)
    histories(ctx)
    proxy_attrs(ctx)
    explicit(ctx)
    peers(ctx)
    proxied(ctx)
    attributes(ctx)
    defaults(ctx)
    gs.restore()
    ctx.assume('attributes declared as proxies are compared by value when '
               'proxies are not enabled: the wrapper is another object')
