"""Runs programs over the real scheduler under controlled schedules.

usage: schedworker.py PROGRAMS.ndjson OUT.ndjson
"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(REPO, 'lib'))
sys.dont_write_bytecode = True

import threading
import _thread
import vt
import vtrun

vt.install(None)
import fbuild
import fbuild.sched
import fbuild.console

TRACED = [fbuild.sched.__file__]


class Boom(Exception):
    pass


class Hard(BaseException):
    pass


class Empty(Boom):
    """An exception that is false, as it is a container as well."""
    def __len__(self):
        return 0


class NoName(str):
    """An input that is false."""
    def __bool__(self):
        return False


class Nothing:
    """A result that is false."""
    def __init__(self, v):
        self.v = v

    def __bool__(self):
        return False


KINDS = {'Exception': Boom, 'Empty': Empty, 'SystemExit': SystemExit, 'BaseException': Hard}


class NullLog:
    """Stands in for the console."""
    def log_from_thread(self):
        import contextlib
        return contextlib.nullcontext()


class Program:
    def __init__(self, prog):
        self.prog = prog
        self.ev = []
        self.nmaps = 0
        self.nx = 0
        self.nv = 0
        # What is to happen, how much of that did, and the threads and maps.
        self.follow, self.pos, self.lost, self.moved = [], 0, False, 0
        self.as_m = {}

    def log(self, e, **kw):
        kw['e'] = e
        kw['th'] = self.thread()
        kw['wk'] = kw['th'][0] == 'w'
        if self.follow and not self.lost:
            self.turn(kw)
            self.turned(kw)
        self.ev.append(kw)

    def turn(self, kw):
        """Waits until this is what has to happen next, or never will."""
        me = vt.C.me()
        me.gate = lambda: self.lost or (self.first() == me.n and self.next(kw))
        while not me.gate():
            if all(t.gate and not t.gate() for t in vt.C.runnable()) or vt.C.steps > 25000 or vt.C.steps - self.moved > 2500:
                self.lost = True
                break
            vt.C.point('gate')
        me.gate = None

    def turned(self, kw):
        if not self.lost:
            x = self.follow[self.pos]
            if x['e'] == 'map':
                self.as_m[x['m']] = kw['m']
            self.pos += 1
            self.moved = vt.C.steps

    def first(self):
        """The thread that acts next: the main one is 0, then come the workers."""
        if self.lost or self.pos == len(self.follow):
            return None
        k = int(self.follow[self.pos]['th'][1:])
        return k if k <= self.prog['threads'] else k - 1 if k > self.prog['threads'] + 1 else 0

    def next(self, kw):
        x = self.follow[self.pos]
        if x['e'] != 'map' and 'm' in x and self.as_m.get(x['m']) != kw.get('m'):
            return False
        return all(x.get(k) == kw.get(k) for k in ('e', 'src', 'how', 'inputs', 'alive'))

    def thread(self):
        t = threading.current_thread()
        if t not in self.names:
            self.names[t] = ('w%d' if isinstance(t, fbuild.sched.WorkerThread) else 'c%d') % len(self.names)
        return self.names[t]

    # ------------------------------------------------------------ programs

    def ops(self, ops, src=None):
        for op in ops:
            getattr(self, 'op_' + op[0])(*op[1:])

    def op_tick(self):
        self.log('tick')
        vt.C.point('line')
        self.log('tick')

    def op_sleep(self, seconds):
        # Takes (virtual) time.
        self.log('tick')
        vt.C.now += seconds
        vt.C.point('line')
        self.log('tick')

    def op_raise(self, kind):
        self.nx += 1
        e = KINDS[kind]('x%d' % self.nx)
        e.xid = self.nx
        raise e

    def op_try(self, ops):
        try:
            self.ops(ops)
        except (Boom, SystemExit, Hard, fbuild.sched.DependencyLoop):
            pass

    def op_int(self, ops):
        self.log('int')
        how = 'ok'
        try:
            with self.s.interruptible() as interrupt:
                self.log('inside')
                interrupt()
                self.ops(ops)
                self.log('leave')
        finally:
            self.log('back')

    def xid(self, e):
        if not hasattr(e, 'xid'):
            self.nx += 1
            e.xid = self.nx
        return e.xid

    def wrap(self, x):
        """The value that stands for this one."""
        how = self.prog.get('values')
        if how == 'false' or how == 'some' and int(str(x).lstrip('n')) % 2:
            return NoName(x) if isinstance(x, str) else Nothing(x)
        return x

    def wrapped(self, xs):
        return [self.wrap(x) for x in xs]

    def body(self, m, src, bodies):
        src = str(src)
        self.log('begin', m=m, src=src)
        try:
            self.ops(bodies.get(src, []))
        except (Boom, SystemExit, Hard, fbuild.sched.DependencyLoop) as e:
            self.log('end', m=m, src=src, how='exc', x=self.xid(e), v=0)
            raise
        self.nv += 1
        v = self.nv
        self.log('end', m=m, src=src, how='ok', x=0, v=v)
        return self.wrap(v)

    def call(self, m, f):
        try:
            r = f()
        except fbuild.sched.DependencyLoop as e:
            import re
            if hasattr(e, 'xid'):
                self.log('mapret', m=m, how='exc', x=e.xid, vals=[], named=[])
            else:
                self.log('mapret', m=m, how='loop', x=self.xid(e), vals=[], named=sorted(set(re.findall(r'n\d+', str(e)))))
            raise
        except (Boom, SystemExit, Hard) as e:
            self.log('mapret', m=m, how='exc', x=getattr(e, 'xid', -1), vals=[], named=[])
            raise
        except vt.Deadlock:
            raise
        except BaseException as e:
            self.log('mapret', m=m, how='other', x=0, vals=[], named=[], text='%s: %s' % (type(e).__name__, str(e)[:100]))
            e.xid = -2
            raise Boom('other')
        self.log('mapret', m=m, how='ok', x=0, vals=[x.v if isinstance(x, Nothing) else x for x in r], named=[])

    def op_map(self, inputs, bodies):
        self.nmaps += 1
        m = self.nmaps
        self.log('map', m=m, kind='map', inputs=inputs, deps={})
        self.call(m, lambda: self.s.map(lambda src: self.body(m, src, bodies), self.wrapped(inputs)))

    def op_deps(self, inputs, deps, bodies, raising):
        self.nmaps += 1
        m = self.nmaps
        self.log('map', m=m, kind='deps', inputs=inputs, deps={i: deps.get(i, []) for i in inputs})

        def depends(src):
            src = str(src)
            self.log('dep', m=m, src=src)
            if src in raising:
                self.log('depx', m=m, src=src, x=self.nx + 1)
                self.op_raise('Exception')
            self.log('depend', m=m, src=src)
            return self.wrapped(deps.get(src, []))
        self.call(m, lambda: self.s.map_with_dependencies(depends, lambda src: self.body(m, src, bodies), self.wrapped(inputs)))

    # ----------------------------------------------------------------- run

    def client(self, ops):
        try:
            self.ops(ops)
        except (Boom, SystemExit, Hard, fbuild.sched.DependencyLoop):
            pass
        self.log('idle')

    def queues(self):
        """Operations on queues and on the scheduler's lock have their turns, too."""
        import queue

        def inturn(e, f):
            if not (vt.C and vt.C.active and vt.C.me()) or self.lost:
                return f()
            self.turn({'e': e})
            try:
                return f()
            finally:
                self.turned({'e': e})

        def made(lock, filename):
            if filename in TRACED:
                lock.turn = lambda f: inturn('l', f)

        queue.Queue.put = lambda *args, **kw: inturn('q', lambda: Program.real_put(*args, **kw))
        queue.Queue.get = lambda *args, **kw: inturn('q', lambda: Program.real_get(*args, **kw))
        vt.VRLock.made = made

    import queue
    real_put, real_get = queue.Queue.put, queue.Queue.get

    def main(self):
        self.names = {}
        vt.VRLock.made = None
        if self.follow:
            self.queues()
        self.thread()
        self.s = fbuild.sched.Scheduler(self.prog['threads'], logger=NullLog())
        workers = [t for t in threading.enumerate() if isinstance(t, fbuild.sched.WorkerThread)]
        others = [threading.Thread(target=self.client, args=(ops,)) for ops in self.prog['clients'][1:]]
        for t in others:
            t.daemon = True
            t.start()
        self.client(self.prog['clients'][0])
        for t in others:
            t.join()
        for k in range(self.prog.get('shutdowns', 1)):
            self.log('shut')
            self.s.shutdown()
            self.log('shutdone', alive=sum(t.is_alive() for t in workers))
        self.log('fin')


if __name__ == '__main__':
    vtrun.main(Program, TRACED)
