"""Runs programs over the real RPC thread under controlled schedules.

usage: rpcworker.py PROGRAMS.ndjson OUT.ndjson
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(REPO, 'lib'))
sys.dont_write_bytecode = True

import threading
import _thread
import vt
import vtrun

vt.install(None)
import fbuild.rpc

TRACED = [fbuild.rpc.__file__]
threading.excepthook = lambda args: None
_thread.interrupt_main = lambda *args: None


class Boom(Exception):
    pass


class Hard(BaseException):
    pass


class Empty(Exception):
    """An exception that is false, as it is a container as well."""
    def __len__(self):
        return 0


class Odd:
    """A result that is neither true nor false, and not to be compared."""
    def __bool__(self):
        raise TypeError('neither true nor false')

    def __eq__(self, other):
        raise TypeError('not comparable')
    __hash__ = None


RAISE = {'exc': Boom, 'empty': Empty, 'value': ValueError, 'hard': Hard, 'exit': SystemExit, 'ctrlc': KeyboardInterrupt}
FATAL = {'hard', 'exit', 'ctrlc'}


class Program:
    def __init__(self, prog):
        self.prog = prog
        self.ev = []
        self.n = 0
        self.names = {}
        self.results = {}

    def log(self, e, **kw):
        kw['e'] = e
        t = threading.current_thread()
        kw['th'] = self.names.setdefault(t, 'rpc' if t is self.rpc else 'c%d' % len(self.names))
        self.ev.append(kw)

    # Runs in the rpc thread.
    def handle(self, n, kind, ticks=0, key=None):
        self.log('exec', n=n)
        for _ in range(ticks):
            vt.C.point('line')
        if kind in RAISE:
            e = RAISE[kind]('x%d' % n)
            e.n = n
            self.log('done', n=n, how='fatal' if kind in FATAL else 'exc')
            raise e
        r = {'none': None, 'false': False, 'excvalue': Boom('value'), 'exctype': Boom, 'odd': Odd()}.get(kind, ('v', n))
        self.results[n] = r
        self.log('done', n=n, how='ok')
        return r

    def ops(self, ops):
        for op in ops:
            getattr(self, 'op_' + op[0])(*op[1:])

    def op_tick(self):
        vt.C.point('line')

    def op_call(self, kind, ticks=0, interrupt=False):
        self.n += 1
        n = self.n
        self.log('call', n=n, kind=kind)
        me = vt.C.me()
        me.interrupt = interrupt
        try:
            r = self.rpc.call(n, kind, ticks=ticks) if n % 2 else self.rpc.call(n, kind, ticks)
        except fbuild.rpc.RPCNotRunning:
            self.log('ret', n=n, how='norun', mine=True)
        except vt.Deadlock:
            raise
        except KeyboardInterrupt as e:
            if hasattr(e, 'n'):
                self.log('ret', n=n, how='exc', mine=e.n == n)
            else:
                self.log('ret', n=n, how='int', mine=True)
        except BaseException as e:
            if hasattr(e, 'n'):
                self.log('ret', n=n, how='exc', mine=e.n == n)
            else:
                self.log('ret', n=n, how='other', mine=False, text='%s: %s' % (type(e).__name__, str(e)[:200]))
        else:
            mine = n in self.results and r is self.results[n]
            self.log('ret', n=n, how='ok', mine=mine)
        me.interrupt = False

    def op_start(self):
        self.log('start')
        self.rpc.start()
        self.log('started')

    def op_join(self, timeout=None):
        self.log('join')
        if timeout is None:
            self.rpc.join()
        else:
            self.rpc.join(timeout)
        self.log('joined', alive=self.rpc.is_alive(), timeout=timeout is not None)

    def client(self, ops):
        self.ops(ops)
        self.log('idle')

    def main(self):
        self.rpc = fbuild.rpc.RPC(self.handle)
        self.rpc.daemon = True
        others = [threading.Thread(target=self.client, args=(ops,)) for ops in self.prog['clients'][1:]]
        for t in others:
            t.daemon = True
            t.start()
        self.client(self.prog['clients'][0])
        for t in others:
            t.join()
        # Whoever is left over has to see that it's over.
        self.op_join()
        self.op_call('ok')
        self.log('fin')


if __name__ == '__main__':
    vtrun.main(Program, TRACED)
