"""A controlled scheduler for real threads.

Exactly one thread runs at a time. Each hook that lib/instrument.py put into
the package is an event; a plan says at which event of which thread another thread takes over.
A thread that waits for a lock of the code under test is taken out until the
lock is free (that is no preemption, the others have to go on).
"""
import sys
import threading
from thread import get_ident

from java.lang import System, Thread
from java.util.concurrent import Semaphore, TimeUnit

import instrument


class Deadlock(Exception):
    pass


class Task(object):
    def __init__(self, index, f, plan):
        # the next event at which another task goes on
        self.plan = sorted(plan.items())
        self.following()
        self.ident = None
        self.accesses = []
        self.held = []
        self.index = index
        self.f = f
        self.gate = Semaphore(0)
        self.parked = False
        self.n = 0
        self.done = False
        self.blocked = False
        self.result = None
        self.java = None
        self.sites = []


    def following(self):
        self.stop, self.to = self.plan.pop(0) if self.plan else (-1, None)


class Run(object):
    def __init__(self, fs, plan, order, record=False):
        """
        plan: {task: {event number: task that goes on}}
        order: who goes on when a task ends
        """
        self.tasks = [Task(i, f, plan.get(i, {})) for i, f in enumerate(fs)]
        self.order = order
        self.record = record
        self.by_ident = {}
        # may a thread run out of turn, having waited for a lock?
        self.watch = False
        self.cur = None
        self.finished = Semaphore(0)
        self.switches = 0

    def install(self):
        me = get_ident
        tasks = self.by_ident

        def arrive(site):
            t = self.cur
            if self.watch and me() != t.ident:
                t = tasks.get(me())
                if t is None:
                    return None
                self.park(t)
            t.n = n = t.n + 1
            if n == t.stop:
                self.switch(t, t.to)
            return t

        if not self.record:
            def call(site, value):
                t = self.cur
                if self.watch:
                    arrive(site)
                    return value
                t.n = n = t.n + 1
                if n == t.stop:
                    self.switch(t, t.to)
                return value

            def access(site, what, write, value):
                t = self.cur
                if self.watch:
                    arrive(site)
                    return value
                t.n = n = t.n + 1
                if n == t.stop:
                    self.switch(t, t.to)
                return value
            instrument.hook(arrive, call, access)
            return

        def at(site):
            t = arrive(site)
            if t is not None:
                t.sites.append((site, True))

        def call(site, value):
            t = arrive(site)
            if t is not None:
                t.sites.append((site, False))
            return value

        def access(site, what, write, value):
            t = arrive(site)
            if t is not None:
                t.sites.append((site, False))
                l = instrument.location(what, write, value)
                if l is not None:
                    t.accesses.append((t.n, l[0], l[1]))
                    t.held.append(value)
            return value
        instrument.hook(at, call, access)

    def park(self, task):
        task.parked = True
        task.gate.acquire()
        task.parked = False

    def give(self, task):
        self.cur = task
        task.gate.release()

    def switch(self, task, to):
        task.following()
        to = self.tasks[to]
        if to is task or to.done or to.blocked and not to.parked:
            return
        to.blocked = False
        self.switches += 1
        # announce first: whoever is given the turn may end at once
        task.parked = True
        self.give(to)
        task.gate.acquire()
        task.parked = False

    def next_of(self, task):
        for i in self.order:
            t = self.tasks[i]
            if t is not task and not t.done and not t.blocked:
                return t
        for i in self.order:
            t = self.tasks[i]
            if t is not task and not t.done:
                # it waits for a lock that is free or will be
                return t

    def body(self, task):
        task.java = Thread.currentThread()
        task.ident = get_ident()
        self.by_ident[task.ident] = task
        task.parked = True
        task.gate.acquire()
        task.parked = False
        try:
            r = ('ok', task.f())
        except Exception, e:
            r = ('exc', type(e).__name__, str(e)[:200])
        except:
            e = sys.exc_info()
            r = ('exc', 'java:' + str(e[0]), str(e[1])[:200])
        if self.cur is not task:
            # it got a lock after its turn and met no line since
            self.park(task)
        task.result = r
        task.done = True
        n = self.next_of(task)
        if n is None:
            self.finished.release()
            return
        n.blocked = False
        if n.parked:
            self.give(n)
        else:
            # runs on as soon as the lock is its own; if it parks just now
            # it is let go below
            self.cur = n

    def go(self, limit=20.0):
        threads = [threading.Thread(target=self.body, args=(t,))
                   for t in self.tasks]
        for t in threads:
            t.setDaemon(True)
            t.start()
        while [1 for t in self.tasks if not t.parked]:
            Thread.sleep(0, 20000)
        self.cur = self.tasks[self.order[0]]
        self.install()
        try:
            self.drive(limit)
        finally:
            instrument.hook(instrument.nothing, instrument.identity,
                            instrument.silent)
        for t in threads:
            t.join()
        return [t.result for t in self.tasks]

    def drive(self, limit):
        self.give(self.tasks[self.order[0]])
        last = None
        same = stuck = 0
        t0 = System.nanoTime()
        while not self.finished.tryAcquire(1, TimeUnit.MILLISECONDS):
            c = self.cur
            now = (c.index, c.n, c.parked, c.done)
            if now != last or c.done:
                last, same, stuck = now, 0, 0
            elif c.parked:
                same += 1
                if same >= 3 and c.gate.availablePermits() == 0 and \
                        c.gate.hasQueuedThreads():
                    same = 0
                    c.gate.release()
            elif c.java.getState() in (Thread.State.WAITING,
                                       Thread.State.BLOCKED):
                same += 1
                if same >= 2:
                    same = 0
                    c.blocked = True
                    self.watch = True
                    others = [t for t in self.tasks if not t.done and
                              not t.blocked]
                    if not others:
                        moved = [t for t in self.tasks if not t.done and
                                 t.parked]
                        if not moved:
                            # maybe one of them has just been let go
                            c.blocked = False
                            stuck += 1
                            if stuck < 300:
                                continue
                            raise Deadlock('all threads wait: %r' % [
                                (t.n, [str(x) for x in
                                       t.java.getStackTrace()[:6]])
                                for t in self.tasks if not t.done])
                        others = moved
                    o = [t for i in self.order for t in others
                         if t.index == i][0]
                    o.blocked = False
                    self.give(o)
            else:
                same = 0
            if (System.nanoTime() - t0) / 1e9 > limit:
                raise Deadlock('no end after %d s: %r' % (limit, [
                    (t.index, t.n, t.parked, t.done, t.blocked)
                    for t in self.tasks]))
