"""C22: post-import hooks run exactly once per module."""
import imp
import itertools
import os
import sys
import types

for _m in ('cpyamf', 'django', 'google', 'sqlalchemy', 'elixir'):
    sys.modules.setdefault(_m, None)

import pyamf
from pyamf import adapters
from pyamf.util import imports

import mc

NAMES = ('va', 'vb', 'vp', 'vp.c')
OPS = {}


class Fail(Exception):
    pass


class Driver(object):
    """Runs a program on the interpreter; bodies of the modules call it."""
    def __init__(self, bodies, when):
        self.bodies = bodies
        self.when = when
        self.log = []
        self.count = {}
        self.nhooks = 0

    def body(self, name):
        n = self.count[name] = self.count.get(name, 0) + 1
        self.log.append(('start', name))
        for st in self.bodies.get(name, ()):
            self.statement(st, name, n)
        self.log.append(('end', name))

    def statement(self, st, name, n):
        k = st[0]
        if k == 'import':
            __import__(st[1])
        elif k == 'rel':
            __import__(st[1], sys.modules[name].__dict__)
        elif k == 'try':
            try:
                __import__(st[1])
            except (ImportError, Fail):
                self.log.append(('caught', st[1]))
        elif k == 'fail':
            raise Fail(name)
        elif k == 'once':
            if n == 1:
                raise Fail(name)
        elif k == 'hook':
            self.register(st[1], st[2:])

    def register(self, x, actions):
        self.nhooks += 1
        me = self.nhooks

        def hook(mod):
            self.log.append(('hook', me, x, mod is sys.modules.get(x),
                             getattr(mod, '__name__', None)))
            for st in actions:
                self.statement(st, None, 0)
        self.log.append(('register', me, x))
        if self.when is not None:
            self.when(x, hook)

    def op(self, op):
        k = op[0]
        try:
            if k == 'unload':
                if op[1] in sys.modules:
                    del sys.modules[op[1]]
            elif k == 'reload':
                if sys.modules.get(op[1]):
                    m = sys.modules[op[1]]
                    if reload(m) is not m:
                        self.log.append('another module')
            elif k == 'import':
                m = __import__(op[1], {}, {}, ['x'])
                if m is not sys.modules.get(op[1]) or m.__name__ != op[1]:
                    self.log.append('another module')
            elif k == 'block':
                if op[1] not in sys.modules:
                    sys.modules[op[1]] = None
            elif k == 'unblock':
                if sys.modules.get(op[1], 1) is None:
                    del sys.modules[op[1]]
            else:
                self.statement(op, None, 0)
            self.log.append('done')
        except Fail, e:
            self.log.append(('raised', e.args))
        except ImportError:
            self.log.append('not found')

    def final(self):
        out = []
        for n in NAMES:
            m = sys.modules.get(n, 0)
            if isinstance(m, types.ModuleType):
                d = m.__dict__
                out.append((n, d.get('value') == n, d.get('__name__'),
                            '__path__' in d, 'c' in d,
                            os.path.basename(os.path.dirname(
                                d['__file__']))))
            elif m is None:
                out.append((n, None))
        return out


class Model(object):
    """What happens; hooks or not."""
    def __init__(self, bodies, hooks):
        self.bodies = bodies
        self.hooks = hooks
        self.log = []
        self.count = {}
        self.mods = {}
        self.pending = {}
        self.nhooks = 0

    def load(self, x):
        if x in self.mods:
            if self.mods[x] is None:
                raise ImportError
            return
        if x not in self.bodies:
            raise ImportError
        self.mods[x] = True
        try:
            self.body(x)
        except:
            self.mods.pop(x, None)
            raise
        self.run(x)

    def run(self, x):
        for me, actions in self.pending.pop(x, ()):
            self.call(me, x, actions)

    def call(self, me, x, actions):
        self.log.append(('hook', me, x, True, x))
        for st in actions:
            self.statement(st, None, 0)

    def body(self, name):
        n = self.count[name] = self.count.get(name, 0) + 1
        self.log.append(('start', name))
        for st in self.bodies[name]:
            self.statement(st, name, n)
        self.log.append(('end', name))

    def imp(self, x):
        if '.' in x:
            self.load(x.split('.')[0])
        self.load(x)

    def statement(self, st, name, n):
        k = st[0]
        if k == 'import':
            self.imp(st[1])
        elif k == 'rel':
            self.load(name + '.' + st[1])
        elif k == 'try':
            try:
                self.imp(st[1])
            except (ImportError, Fail):
                self.log.append(('caught', st[1]))
        elif k == 'fail' or k == 'once' and n == 1:
            raise Fail(name)
        elif k == 'hook':
            self.nhooks += 1
            me = self.nhooks
            self.log.append(('register', me, st[1]))
            if not self.hooks:
                return
            if self.mods.get(st[1]):
                self.call(me, st[1], st[2:])
            else:
                self.pending.setdefault(st[1], []).append((me, st[2:]))

    def op(self, op):
        k = op[0]
        try:
            if k == 'unload':
                self.mods.pop(op[1], None)
            elif k == 'reload':
                if self.mods.get(op[1]):
                    self.body(op[1])
            elif k == 'block':
                self.mods.setdefault(op[1], None)
            elif k == 'unblock':
                if self.mods.get(op[1], 1) is None:
                    del self.mods[op[1]]
            else:
                self.statement(op, None, 0)
            self.log.append('done')
        except Fail, e:
            self.log.append(('raised', e.args))
        except ImportError:
            self.log.append('not found')


class World(object):
    """Module files on disk and a fresh finder for each case."""
    def __init__(self, work):
        self.dir = os.path.join(work, 'mods')
        os.mkdir(self.dir)
        os.mkdir(os.path.join(self.dir, 'vp'))
        driver = types.ModuleType('vdriver')
        driver.body = lambda name: self.current.body(name)
        sys.modules['vdriver'] = driver
        self.driver = driver
        for n, f in (('va', 'va.py'), ('vb', 'vb.py'),
                     ('vp', 'vp/__init__.py'), ('vp.c', 'vp/c.py')):
            fp = open(os.path.join(self.dir, f), 'w')
            fp.write('value = %r\nimport sys\n'
                     'sys.modules["vdriver"].body(__name__)\n' % n)
            fp.close()
        path = imports.__file__.replace('$py.class', '.py')
        if path.endswith('.pyc'):
            path = path[:-1]
        self.code = compile(open(path).read(), path, 'exec')
        self.meta = [x for x in sys.meta_path if x is not imports.finder]
        self.saved = sys.meta_path[:]
        self.path = sys.path[:]

    def run(self, bodies, ops, hooks):
        sys.meta_path[:] = self.meta
        when = None
        if hooks:
            m = types.ModuleType('fresh_imports')
            exec self.code in m.__dict__
            when = m.when_imported
        d = self.current = Driver(bodies, when)
        sys.path[:] = [self.dir]
        try:
            for op in ops:
                d.op(op)
            final = d.final()
        finally:
            sys.path[:] = self.path
            sys.meta_path[:] = self.saved
            for n in sys.modules.keys():
                if n.split('.')[0] in ('va', 'vb', 'vp'):
                    del sys.modules[n]
        return d.log, final


def program(ctx, world, sig, bodies, ops):
    ctx.state((sorted(bodies.items()), ops))
    ctx.step(len(ops))
    ctx.trace()
    m = Model(bodies, True)
    map(m.op, ops)
    plain = Model(bodies, False)
    map(plain.op, ops)
    r = mc.attempt(world.run, bodies, ops, True)
    base = mc.attempt(world.run, bodies, ops, False)
    if base[0] != 'ok' or base[1][0] != plain.log:
        # the model of the interpreter is wrong
        raise AssertionError('%r %r: %r, expected %r' % (bodies, ops,
                                                         base[1:], plain.log))
    if r[0] != 'ok' or r[1][0] != m.log:
        ctx.violation(sig, 'modules %r, program %r: %r, expected %r' % (
            bodies, ops, r[1][0] if r[0] == 'ok' else r[1:], m.log))
    elif not [1 for e in m.log if e[0] == 'hook' and m.nhooks and
              act(bodies, ops)] and r[1][1] != base[1][1]:
        ctx.violation(sig + ':modules', 'modules %r, program %r leave %r, '
                      'expected %r' % (bodies, ops, r[1][1], base[1][1]))


def act(bodies, ops):
    """Do hooks import anything?"""
    return [1 for st in itertools.chain(ops, *bodies.values())
            if st[0] == 'hook' and len(st) > 2]


def sequences(ctx):
    """All histories of operations on well behaved and failing modules."""
    base = {'va': (), 'vb': (), 'vp': (), 'vp.c': ()}
    configs = [
        base,
        dict(base, va=(('import', 'vb'),)),
        dict(base, va=(('import', 'vb'),), vb=(('import', 'va'),)),
        dict(base, va=(('once',),)),
        dict(base, va=(('import', 'vb'), ('once',))),
        dict(base, va=(('import', 'vb'), ('fail',)), vb=(('import', 'vp'),)),
        dict(base, va=(('try', 'vb'),), vb=(('import', 'vp.c'), ('once',))),
        dict(base, vp=(('import', 'vp.c'),)),
        dict(base, vp=(('rel', 'c'),), va=(('import', 'vp.c'),)),
        dict(base, vp=(('import', 'va'),), va=(('import', 'vp.c'),)),
        dict(base, vb=(('hook', 'va'), ('import', 'va'), ('hook', 'va'))),
        dict(base, va=(('hook', 'va'), ('hook', 'vb')), vb=(('once',),)),
    ]
    ops = [(k, n) for n in ('va', 'vb', 'vp.c') for k in ('hook', 'import')]
    ops += [('hook', 'vp'), ('unload', 'va'), ('unload', 'vp.c'),
            ('reload', 'va')]
    more = [('hook', 'va', ('import', 'vb')), ('hook', 'vb', ('hook', 'va')),
            ('hook', 'vp', ('try', 'vp.c')), ('block', 'va'),
            ('unblock', 'va'), ('import', 'vx'), ('hook', 'vx'),
            ('hook', 'vb', ('hook', 'vb'))]
    n = 4
    for ci, bodies in enumerate(configs):
        for k in range(1, n + 2):
            if k >= n and ci % 2 and not ctx.thorough:
                continue
            if k == n + 1:
                # deeper on the operations that matter
                alphabet = [('hook', 'va'), ('import', 'va'),
                            ('hook', 'vb'), ('import', 'vb'),
                            ('unload', 'va')]
                k = 6 if ctx.thorough else 5
            elif k < n or ctx.thorough:
                alphabet = ops + more
            else:
                alphabet = ops[:5] + [('hook', 'vp'), ('unload', 'va'),
                                      ('block', 'va'), ('unblock', 'va')]
            for seq in itertools.product(alphabet, repeat=k):
                if k > 2 and not [1 for x in seq[:-1] if x[0] == 'hook'] or \
                        seq[-1][0] in ('unload', 'block', 'unblock'):
                    continue
                if not ctx.mine('ops/%d/%r' % (ci, seq)):
                    continue
                program(ctx, world(ctx), 'history', bodies, seq)


def bodies_(ctx):
    """All small bodies; hooks on everything, everything imported."""
    def of(name):
        atoms = [('import', n) for n in NAMES if n != name] + [('once',)]
        if name == 'vp':
            atoms.append(('rel', 'c'))
        return [()] + [(a,) for a in atoms] + [
            (('import', n), ('once',)) for n in NAMES if n != name] + [
            (('try', n),) for n in NAMES if n != name] + (
            [(('try', 'vb'), ('import', 'vp.c')), (('fail',),),
             (('hook', 'vb'), ('import', 'vb'))] if name == 'va' else [])
    mains = [
        tuple(('hook', n) for n in NAMES) + (('import', 'va'),
                                             ('import', 'va')),
        (('hook', 'vp.c'), ('hook', 'vb'), ('import', 'vp.c'), ('hook', 'vb'),
         ('import', 'vb'), ('import', 'va'), ('hook', 'va')),
    ]
    if ctx.thorough:
        mains += [
            (('hook', 'va'), ('import', 'vb'), ('hook', 'vp'),
             ('import', 'vp.c'), ('hook', 'vp.c'), ('import', 'va')),
            (('hook', 'vb', ('import', 'va')), ('hook', 'va', ('hook', 'vp')),
             ('import', 'vp'), ('import', 'vb'), ('unload', 'vb'),
             ('hook', 'vb'), ('import', 'vb')),
        ]
    lists = [of(n) for n in NAMES]
    if not ctx.thorough:
        lists[3] = lists[3][:1] + lists[3][4:6] + lists[3][7:8]
        lists[1] = lists[1][:8]
    i = 0
    for parts in itertools.product(*lists):
        i += 1
        if not ctx.mine('bodies/%d' % i):
            continue
        bodies = dict(zip(NAMES, parts))
        for main in mains:
            program(ctx, world(ctx), 'bodies', bodies, main)


_world = []


def world(ctx):
    if not _world:
        _world.append(World(ctx.work))
    return _world[0]


def adapter(ctx):
    """The registrations of the package itself."""
    if not ctx.mine('adapter'):
        return
    w = world(ctx)
    for order in itertools.permutations(('register', 'register2', 'import')):
        log = []
        w.current = Driver({}, None)
        sys.path.insert(0, w.dir)
        try:
            for o in order:
                if o == 'import':
                    __import__('vb')
                else:
                    adapters.register_adapter(
                        'vb', lambda m, o=o: log.append((o, m.__name__)))
            __import__('vb')
        finally:
            sys.path[:] = w.path
            sys.modules.pop('vb', None)
        ctx.step(4)
        ctx.trace()
        want = [(o, 'vb') for o in order if o != 'import']
        if log != want:
            ctx.violation('adapter', '%r ran %r, expected %r' % (order, log,
                                                                 want))
    # a mention of a module that was loaded long ago
    seen = []
    imports.when_imported('os.path', seen.append)
    imports.when_imported('sys', seen.append, seen.append)
    if seen != [os.path, sys, sys]:
        ctx.violation('loaded', 'hooks of loaded modules saw %r' % (seen,))


def run(ctx):
    sequences(ctx)
    bodies_(ctx)
    adapter(ctx)
    ctx.assume('hooks do not raise')
    ctx.assume('no two threads import at the same time')
