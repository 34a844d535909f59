"""Virtual threads: runs real threads one at a time, under a schedule that this
module decides.

Every thread is an ordinary OS thread, but only the one that holds the baton
runs.  The baton is handed on at scheduling points: each operation on a lock
(and so on everything built from locks: conditions, events, queues), each
sleep, the start and the end of a thread, and each line of the traced files.
Time is virtual: a little passes with every step, and more when no thread can
run.
"""
import os
import random
import sys
import threading
import time
import _thread

_real_allocate = _thread.allocate_lock
_real_start = _thread.start_new_thread
_real_ident = _thread.get_ident
_real_time = time.time
_real_sleep = time.sleep


class Deadlock(BaseException):
    pass


class VThread:
    def __init__(self, n, name=''):
        self.n = n
        self.name = name
        self.baton = _real_allocate()
        self.baton.acquire()
        self.state = 'ready'        # ready, blocked, done
        self.on = None
        self.deadline = None
        self.timedout = False
        self.sentinel = None
        self.run = 0                # steps since the last switch
        self.interrupt = False      # raise KeyboardInterrupt while waiting
        self.gate = None            # whether it may go on, if it is to follow a trace

    def __repr__(self):
        return 'T%d' % self.n


class Controller:
    def __init__(self, strategy, traced=(), maxsteps=200000, ondead=None):
        self.strategy = strategy
        self.traced = set(traced)
        self.maxsteps = maxsteps
        self.ondead = ondead
        self.threads = []
        self.byident = {}
        self.now = 0.0
        self.steps = 0
        self.switches = 0
        self.current = None
        self.active = False
        self.points = []

    # -------------------------------------------------------------- set up

    def begin(self):
        t = VThread(0, 'main')
        self.threads.append(t)
        self.byident[_real_ident()] = t
        self.current = t
        self.active = True
        self.trace_on()

    def end(self):
        self.active = False
        sys.settrace(None)

    def trace_on(self):
        if self.traced:
            sys.settrace(self.tracer)

    def tracer(self, frame, event, arg):
        if frame.f_code.co_filename in self.traced:
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == 'line' and self.active:
            self.point('line')
        return self.local

    def me(self):
        return self.byident.get(_real_ident())

    # ---------------------------------------------------------- scheduling

    def runnable(self):
        return [t for t in self.threads if t.state == 'ready']

    def point(self, kind):
        """The current thread could be stopped here."""
        if not self.active:
            return
        me = self.me()
        if me is None or me is not self.current:
            return
        self.step()
        me.run += 1
        self.now += 2e-5
        for t in self.threads:
            if t.deadline is not None and t.state == 'blocked' and t.deadline <= self.now:
                t.timedout = True
                t.state = 'ready'
        rs = self.runnable()
        if len(rs) < 2:
            return
        nxt = self.strategy.choose(self, rs, me, kind)
        if nxt is not me:
            self.hand(me, nxt)

    def step(self):
        self.steps += 1
        if self.steps > self.maxsteps:
            self.dead('livelock')

    def hand(self, me, nxt):
        self.switches += 1
        me.run = 0
        self.current = nxt
        nxt.baton.release()
        me.baton.acquire()

    def block(self, on, timeout=None):
        """The current thread waits; returns False if the time is over."""
        me = self.me()
        me.state = 'blocked'
        me.on = on
        me.timedout = False
        me.deadline = None if timeout is None else self.now + timeout
        self.step()
        self.leave(me)
        me.on = None
        me.deadline = None
        return not me.timedout

    def leave(self, me, done=False):
        """The current thread cannot go on: let another one run."""
        while True:
            rs = self.runnable()
            if rs:
                break
            waiting = [t for t in self.threads if t.state == 'blocked' and t.deadline is not None]
            if not waiting:
                if done and all(t.state == 'done' for t in self.threads):
                    return
                self.dead('deadlock')
            t = min(waiting, key=lambda t: (t.deadline, t.n))
            self.now = max(self.now, t.deadline)
            t.timedout = True
            t.state = 'ready'
        nxt = self.strategy.choose(self, rs, None, 'block')
        if done:
            self.current = nxt
            nxt.baton.release()
        elif nxt is not me:
            self.hand(me, nxt)

    def wake(self, on):
        for t in self.threads:
            if t.state == 'blocked' and t.on is on:
                t.state = 'ready'

    def dead(self, why):
        self.active = False
        sys.settrace(None)
        if self.ondead:
            self.ondead(why, self)
        raise Deadlock(why)

    # ------------------------------------------------------------- threads

    def start_new_thread(self, function, args, kwargs={}):
        if not self.active:
            return _real_start(function, args, kwargs)
        t = VThread(len(self.threads))
        self.threads.append(t)

        def body():
            self.byident[_real_ident()] = t
            t.baton.acquire()
            self.trace_on()
            try:
                function(*args, **kwargs)
            except SystemExit:
                pass
            except Deadlock:
                return
            finally:
                sys.settrace(None)
                if self.active:
                    t.state = 'done'
                    if t.sentinel is not None:
                        t.sentinel.locked_ = False
                        self.wake(t.sentinel)
                    self.leave(t, done=True)

        r = _real_start(body, ())
        self.point('start')
        return r

    def sleep(self, s):
        if not self.active or self.me() is None:
            return
        if s <= 0:
            self.point('sleep')
        else:
            self.block('sleep', s)


# ------------------------------------------------------------------ primitives

C = None            # the controller


def waits():
    """Whether the caller is in Condition.wait (of an event or a queue)."""
    f = sys._getframe(2)
    return f.f_code.co_name == 'wait' and f.f_code.co_filename == threading.__file__


class VLock:
    def __init__(self):
        self.locked_ = False

    def acquire(self, blocking=True, timeout=-1):
        c = C
        if c is None or not c.active or c.me() is None:
            if self.locked_:
                return False
            self.locked_ = True
            return True
        c.point('lock')
        end = None if timeout is None or timeout < 0 else c.now + timeout
        while self.locked_:
            if not blocking:
                return False
            if end is not None and c.now >= end:
                return False
            if c.me().interrupt and waits():
                # This could be interrupted any time.
                c.point('interrupt')
                if self.locked_:
                    c.me().interrupt = False
                    raise KeyboardInterrupt
                continue
            if not c.block(self, None if end is None else end - c.now) and self.locked_:
                return False
        self.locked_ = True
        return True

    def release(self):
        if not self.locked_:
            raise RuntimeError('release unlocked lock')
        self.locked_ = False
        c = C
        if c is not None and c.active and c.me() is not None:
            c.wake(self)
            c.point('unlock')

    def locked(self):
        return self.locked_

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.locked_ = False


class VRLock:
    made = None         # called with a lock and the file that makes it
    turn = None         # calls what takes it

    def __init__(self):
        self.owner = None
        self.count = 0
        if VRLock.made:
            VRLock.made(self, sys._getframe(1).f_code.co_filename)

    def acquire(self, blocking=True, timeout=-1):
        c = C
        me = _real_ident()
        if self.owner == me:
            self.count += 1
            return True
        if c is None or not c.active or c.me() is None:
            self.owner, self.count = me, 1
            return True
        if self.turn:
            return self.turn(lambda: self.take(c, me, blocking, timeout))
        return self.take(c, me, blocking, timeout)

    def take(self, c, me, blocking, timeout):
        c.point('lock')
        end = None if timeout is None or timeout < 0 else c.now + timeout
        while self.owner is not None:
            if not blocking:
                return False
            if end is not None and c.now >= end:
                return False
            if not c.block(self, None if end is None else end - c.now) and self.owner is not None:
                return False
        self.owner, self.count = me, 1
        return True

    def release(self):
        if self.owner != _real_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self.count -= 1
        if self.count == 0:
            self.owner = None
            self._woken()

    def _woken(self):
        c = C
        if c is not None and c.active and c.me() is not None:
            c.wake(self)
            c.point('unlock')

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self.owner == _real_ident()

    def _release_save(self):
        s = (self.count, self.owner)
        self.count, self.owner = 0, None
        self._woken()
        return s

    def _acquire_restore(self, s):
        self.acquire()
        self.count, self.owner = s

    def _at_fork_reinit(self):
        self.owner, self.count = None, 0


def _set_sentinel():
    l = VLock()
    if C is not None:
        t = C.me()
        if t is not None:
            t.sentinel = l
    return l


def _start(function, args, kwargs={}):
    if C is None:
        return _real_start(function, args, kwargs)
    return C.start_new_thread(function, args, kwargs)


def _sleep(s):
    if C is None:
        return _real_sleep(s)
    C.sleep(s)


def _monotonic():
    return C.now if C is not None else _real_time()


def install(controller):
    """From now on, everything made by `threading` is virtual."""
    global C
    import queue
    C = controller
    threading.Lock = VLock
    threading._allocate_lock = VLock
    threading.RLock = VRLock
    if hasattr(threading, '_CRLock'):
        threading._CRLock = VRLock
    threading._PyRLock = VRLock
    threading._set_sentinel = _set_sentinel
    threading._start_new_thread = _start
    threading._time = _monotonic
    queue.time = _monotonic
    _thread.allocate_lock = VLock
    _thread.RLock = VRLock
    _thread.start_new_thread = _start
    time.sleep = _sleep
    # Locks that exist already are only used by one thread at a time.
    threading._active_limbo_lock = VLock()
    if hasattr(threading, '_shutdown_locks_lock'):
        threading._shutdown_locks_lock = VLock()


# ------------------------------------------------------------------ strategies

class Strategy:
    log = None

    def fair(self, c, rs, me, kind):
        return None


class RandomWalk(Strategy):
    """Switch with some probability at every point."""

    def __init__(self, seed, pline=0.05, plock=0.3):
        self.r = random.Random(seed)
        self.p = {'line': pline, 'lock': plock, 'unlock': plock, 'sleep': 0.5, 'start': 0.5, 'interrupt': 0.7}

    def choose(self, c, rs, me, kind):
        if me is not None and me.run < 400 and self.r.random() >= self.p.get(kind, 1):
            return me
        return self.r.choice(rs)


class Follow(RandomWalk):
    """Threads at a gate wait until it is their turn; the others run at random."""

    def __init__(self, seed, trace):
        r = random.Random('%s/p' % seed)
        super().__init__(seed, pline=r.choice([0, 0.05]), plock=r.choice([0.1, 0.3, 0.6]))
        self.trace = trace
        self.first = None           # gives the thread that is to go on
        self.eager = r.choice([0, 0.3, 0.7, 1])

    def choose(self, c, rs, me, kind):
        free = [t for t in rs if t.gate is None or t.gate()]
        if self.r.random() >= self.eager:
            for t in free:
                if t.n == self.first():
                    return t
        else:
            # The others first.
            free = [t for t in free if t.n != self.first()] or free
        if me in free and kind != 'gate' and me.run < 400 and self.r.random() >= self.p.get(kind, 1):
            return me
        return self.r.choice(free or rs)


class PCT(Strategy):
    """Fixed random priorities with a few changes at random points."""

    def __init__(self, seed, depth=3, length=1500):
        self.r = random.Random(seed)
        self.prio = {}
        self.low = 0
        self.changes = {self.r.randrange(1, length) for _ in range(depth)}

    def choose(self, c, rs, me, kind):
        for t in rs:
            if t.n not in self.prio:
                self.prio[t.n] = self.r.random() + 1
        if me is not None and (c.steps in self.changes or me.run > 150 or kind == 'sleep'):
            self.low -= 1
            self.prio[me.n] = self.low
        return max(rs, key=lambda t: self.prio[t.n])


class Preempt(Strategy):
    """Run to completion, but switch at the given points (step -> which of the
    other threads).  Records how many could have run at each point."""

    def __init__(self, at):
        self.at = dict(at)
        self.seen = []

    def choose(self, c, rs, me, kind):
        others = [t for t in rs if t is not me]
        if me is None:
            # The next one after the one that ran.
            k = self.at.get(c.steps, 0)
            return rs[k % len(rs)]
        self.seen.append((c.steps, len(others)))
        if c.steps in self.at:
            return others[self.at[c.steps] % len(others)]
        if me.run > 150:
            # Do not let it spin forever.
            return others[(me.n + self.seen[-1][0]) % len(others)]
        return me
