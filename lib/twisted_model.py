"""A model of the part of Twisted that PyAMF's gateway uses.

Twisted is not installed here. Deferred, DeferredList, maybeDeferred and Failure
follow their documentation; work given to threads and everything else that
completes later is put into PENDING, from which the explorer picks what happens
next.
"""
import sys
import traceback
import types

PENDING = []


class AlreadyCalledError(Exception):
    pass


class Failure(object):
    def __init__(self, value=None):
        if value is None:
            self.type, self.value, self.tb = sys.exc_info()
        else:
            self.type, self.value, self.tb = value.__class__, value, None

    def getErrorMessage(self):
        try:
            return str(self.value)
        except Exception:
            return '<%s>' % (self.type.__name__,)

    def getTraceback(self):
        return ''.join(traceback.format_exception(
            self.type, self.value, self.tb))

    def check(self, *types):
        for t in types:
            if issubclass(self.type, t):
                return t

    def trap(self, *types):
        t = self.check(*types)
        if t is None:
            raise self.value
        return t

    def raiseException(self):
        raise self.type, self.value, self.tb


class Deferred(object):
    def __init__(self):
        self.called = False
        self.paused = 0
        self.running = False
        self.callbacks = []

    def addCallbacks(self, callback, errback=None, cargs=None, ckw=None,
                     eargs=None, ekw=None):
        self.callbacks.append((callback, cargs or (), ckw or {},
                               errback, eargs or (), ekw or {}))
        if self.called:
            self._run()
        return self

    def addCallback(self, f, *a, **k):
        return self.addCallbacks(f, None, a, k)

    def addErrback(self, f, *a, **k):
        return self.addCallbacks(None, f, None, None, a, k)

    def addBoth(self, f, *a, **k):
        return self.addCallbacks(f, f, a, k, a, k)

    def chainDeferred(self, d):
        return self.addCallbacks(d.callback, d.errback)

    def callback(self, result):
        assert not isinstance(result, Deferred)
        self._start(result)

    def errback(self, fail=None):
        if not isinstance(fail, Failure):
            fail = Failure(fail)
        self._start(fail)

    def _start(self, result):
        if self.called:
            raise AlreadyCalledError
        self.called = True
        self.result = result
        self._run()

    def _run(self):
        if self.running or self.paused:
            return
        while self.callbacks:
            cb, ca, ck, eb, ea, ek = self.callbacks.pop(0)
            if isinstance(self.result, Failure):
                cb, ca, ck = eb, ea, ek
            if cb is None:
                continue
            self.running = True
            try:
                try:
                    self.result = cb(self.result, *ca, **ck)
                except:
                    self.result = Failure()
            finally:
                self.running = False
            if isinstance(self.result, Deferred):
                self.paused += 1
                self.result.addBoth(self._resume)
                if self.paused:
                    return

    def _resume(self, result):
        self.result = result
        self.paused -= 1
        self._run()


def succeed(result):
    d = Deferred()
    d.callback(result)
    return d


def fail(f=None):
    d = Deferred()
    d.errback(f)
    return d


def maybeDeferred(f, *a, **k):
    try:
        result = f(*a, **k)
    except:
        return fail(Failure())
    if isinstance(result, Deferred):
        return result
    if isinstance(result, Failure):
        return fail(result)
    return succeed(result)


def DeferredList(ds, fireOnOneCallback=False, fireOnOneErrback=False,
                 consumeErrors=False):
    assert not fireOnOneCallback and not fireOnOneErrback
    ds = list(ds)
    out = Deferred()
    results = [None] * len(ds)
    left = [len(ds)]

    def done(result, i):
        results[i] = (not isinstance(result, Failure), result)
        left[0] -= 1
        if not left[0]:
            out.callback(results)
        return None if consumeErrors and not results[i][0] else result
    if not ds:
        out.callback(results)
    for i, d in enumerate(ds):
        d.addBoth(done, i)
    return out


def gatherResults(ds, consumeErrors=False):
    d = DeferredList(ds, consumeErrors=consumeErrors)

    def results(rs):
        for ok, r in rs:
            if not ok:
                return r
        return [r for ok, r in rs]
    return d.addCallback(results)


def later(name, f):
    """A result that is there once the explorer lets f run."""
    d = Deferred()

    def fire():
        try:
            r = f()
        except:
            d.errback(Failure())
        else:
            d.callback(r)
    PENDING.append((name, fire))
    return d


def deferToThread(f, *a, **k):
    return later('thread', lambda: f(*a, **k))


class Resource(object):
    def __init__(self):
        pass


def install():
    """Make these the modules that the gateway imports."""
    mods = {}
    for name in ('twisted', 'twisted.internet', 'twisted.internet.defer',
                 'twisted.internet.threads', 'twisted.python',
                 'twisted.python.failure', 'twisted.web',
                 'twisted.web.resource', 'twisted.web.server'):
        mods[name] = sys.modules[name] = types.ModuleType(name)
        mods[name].__path__ = []
        if '.' in name:
            parent, attr = name.rsplit('.', 1)
            setattr(mods[parent], attr, mods[name])
    d = mods['twisted.internet.defer']
    for f in (Deferred, DeferredList, AlreadyCalledError, succeed, fail,
              maybeDeferred, gatherResults):
        setattr(d, f.__name__, f)
    mods['twisted.internet.threads'].deferToThread = deferToThread
    mods['twisted.python.failure'].Failure = Failure
    mods['twisted.web.resource'].Resource = Resource
    mods['twisted.web.server'].NOT_DONE_YET = 1
