"""Shared machinery of the harnesses (Python 2.7 / Jython).

A harness module defines run(ctx). It enumerates a bounded space; each case is
announced with ``ctx.mine(cid)`` which says whether this shard executes it.
Distinct states are recorded with ``ctx.state(x)``; every step the
implementation is driven through counts as a transition; every complete
execution that was compared with the model counts as a trace.
"""
import hashlib
import json
import os
import sys
import threading
import time

MAX_VIOLATIONS = 12
CASE_LIMIT = 120.0


class Stop(Exception):
    pass


class Ctx(object):
    def __init__(self, cfg):
        self.cfg = cfg
        self.prop = cfg['prop']
        self.tier = cfg['tier']
        self.thorough = self.tier == 'thorough'
        self.seed = cfg['seed']
        self.shard = cfg['shard']
        self.nshards = cfg['nshards']
        self.only = cfg['only']
        self.work = cfg['work'].encode('ascii')
        self.scratch = cfg['scratch'].encode('ascii')
        self.index = -1
        self.current = None
        self.violations = []
        self.sigs = {}
        self.samples = []
        self.bounds = {}
        self.caps = []
        self.assumptions = []
        self.transitions = 0
        self.traces = 0
        self.states = set()
        self.outcomes = set()
        self.extra = {}
        self.error = None
        self.t0 = time.time()
        self.beat = time.time()
        self.lock = threading.Lock()

    # -- enumeration ------------------------------------------------------
    def mine(self, cid):
        """Next case of the enumeration: does this shard run it?"""
        self.index += 1
        if self.only is not None:
            if cid != self.only:
                return False
        elif self.index % self.nshards != self.shard:
            return False
        self.current = cid
        self.beat = time.time()
        return True

    def alive(self):
        self.beat = time.time()

    def state(self, x):
        if not isinstance(x, str):
            x = repr(x)
        self.states.add(int(hashlib.md5(x).hexdigest()[:12], 16))

    def outcome(self, x):
        if len(self.outcomes) < 2000:
            self.outcomes.add(repr(x)[:300])

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def sample(self, x):
        if len(self.samples) < 4:
            self.samples.append(x if isinstance(x, basestring) else repr(x))

    def bound(self, name, value):
        self.bounds[name] = value

    def cap(self, why):
        if why not in self.caps:
            self.caps.append(why)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def add(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    # -- verdicts ---------------------------------------------------------
    def violation(self, sig, message, data=None):
        n = self.sigs.get(sig, 0)
        self.sigs[sig] = n + 1
        if n >= 1:
            return
        if isinstance(message, unicode):
            message = message.encode('utf-8')
        message = message.decode('latin-1')
        self.violations.append(dict(
            sig=sig, case=self.current, message=message,
            data=None if data is None else repr(data)))
        if len(self.sigs) >= 200:
            raise Stop()

    # -- reporting --------------------------------------------------------
    def dump(self):
        with self.lock:
            if self.cfg is None:
                return
            out = self.cfg['out']
            r = dict(
                violations=self.violations, samples=self.samples,
                bounds=self.bounds, caps=self.caps,
                assumptions=self.assumptions, transitions=self.transitions,
                traces=self.traces, states=list(self.states),
                outcomes=list(self.outcomes), extra=self.extra,
                error=self.error, wall=time.time() - self.t0)
            f = open(out + '.tmp', 'wb')
            f.write(json.dumps(r))
            f.close()
            os.rename(out + '.tmp', out)
            self.cfg = None

    def start_watchdog(self):
        limit = self.cfg['limit']

        def watch():
            while True:
                time.sleep(2)
                now = time.time()
                if now - self.beat > CASE_LIMIT or now - self.t0 > limit:
                    what = 'no progress for %ds' % (now - self.beat) \
                        if now - self.beat > CASE_LIMIT else 'time limit'
                    if now - self.beat > CASE_LIMIT:
                        self.violations.append(dict(
                            sig='hang', case=self.current,
                            message=u'execution does not terminate (%s) in '
                                    u'case %r' % (what, self.current),
                            data=None))
                    else:
                        self.caps.append('stopped at the time limit')
                    self.dump()
                    os._exit(0)

        t = threading.Thread(target=watch)
        t.setDaemon(True)
        t.start()


def attempt(f, *a, **k):
    """('ok', value) or ('exc', exception class name, exception)."""
    try:
        return ('ok', f(*a, **k))
    except Stop:
        raise
    except Exception, e:
        return ('exc', type(e).__name__, e)
    except:
        # java throwables (StackOverflowError, OutOfMemoryError, ...)
        e = sys.exc_info()
        return ('exc', 'java:' + str(e[0]), e[1])


def hexs(b):
    return b.encode('hex')


def seqs(alphabet, n):
    """All sequences over alphabet of length exactly n, simplest first."""
    if n == 0:
        yield ()
        return
    for head in seqs(alphabet, n - 1):
        for x in alphabet:
            yield head + (x,)


def seqs_upto(alphabet, n):
    for k in range(n + 1):
        for s in seqs(alphabet, k):
            yield s
