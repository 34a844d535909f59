"""Runs programs over the real log under controlled schedules.

usage: logworker.py PROGRAMS.ndjson OUT.ndjson
"""
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(REPO, 'lib'))
sys.dont_write_bytecode = True

import threading
import vt
import vtrun

vt.install(None)
import fbuild.console
import fbuild.sched

TRACED = [fbuild.console.__file__]
threading.excepthook = lambda args: None
STDOUT = sys.stdout


class Out:
    def __init__(self):
        self.text = []

    def write(self, s):
        # One write is not atomic for those who write in pieces.
        vt.C.point('line')
        self.text.append(re.sub('\x1b\\[[0-9;]*m| ', '', s))

    def flush(self):
        pass

    def isatty(self):
        return False


class Thing:
    """Something that can be printed."""
    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s


class Program:
    def __init__(self, prog):
        self.prog = prog
        self.ev = []
        self.names = {}
        self.n = 0
        # What a task writes before its first complete line: the threads'
        # tasks, and the line that the innermost is about.
        self.depth = {}
        self.line = {}
        self.lines = 0

    def log(self, e, **kw):
        t = threading.current_thread()
        kw.update(e=e, th=self.names.setdefault(t, 'c%d' % len(self.names)))
        self.ev.append(kw)

    def say(self, f, text, verbose, hidden='', now=False):
        """`hidden` follows the text with one more level of verbosity. What
        is said `now` does not wait for what is still buffered."""
        t = threading.current_thread()
        if now:
            self.line[t] = 0
        self.log('say', text=text, verbose=verbose, hidden=hidden, now=now, line=self.line.get(t, 0))
        if (text + hidden).endswith('\n'):
            self.line[t] = 0
        try:
            f()
        except vt.Deadlock:
            raise
        except Exception as e:
            self.log('error', what='%s: %s' % (type(e).__name__, e))

    def name(self):
        self.n += 1
        return '<%d>' % self.n

    def ops(self, ops):
        for op in ops:
            getattr(self, 'op_' + op[0])(*op[1:])

    def op_log(self, v, thing=False):
        m = self.name()
        self.say(lambda: self.l.log(Thing(m) if thing else m, color='red' if v == 0 else None, verbose=v), m + '\n', v)

    def op_passed(self, v, how):
        m = self.name()
        self.say(lambda: getattr(self.l, how)(m, verbose=v), m + '\n', v)

    def op_check(self, v):
        m, r = self.name(), self.name()
        self.say(lambda: self.l.check(m, r, color='green', verbose=v), '%s%s:%s\n' % (self.who(), m, r), v)

    def who(self):
        return '%s:' % threading.current_thread().name.replace(' ', '') if self.prog['show'] else ''

    def op_checking(self, v):
        m = self.name()
        self.say(lambda: self.l.check(m, verbose=v), self.who() + m + ':', v, '\n')

    def op_write(self, v, nl, buffer):
        m = self.name() + ('\n' if nl else '')
        self.say(lambda: self.l.write(m, verbose=v, buffer=buffer), m, v, now=not buffer)

    def op_flush(self):
        self.line[threading.current_thread()] = 0
        self.l.flush()

    def op_task(self, ops):
        with self.l.log_from_thread():
            self.task(ops)

    def task(self, ops):
        t = threading.current_thread()
        self.depth[t] = self.depth.get(t, 0) + 1
        self.line[t] = 0
        if self.depth[t] == 1 and self.prog['threadcount'] > 1:
            self.lines += 1
            self.line[t] = self.lines
        try:
            self.ops(ops)
        finally:
            self.depth[t] -= 1
            self.line[t] = 0

    def op_map(self, bodies):
        self.s.map(self.task, bodies)

    def op_tick(self):
        vt.C.point('line')

    def main(self):
        self.out, self.file = Out(), Out()
        sys.stdout = self.out
        try:
            self.l = fbuild.console.Log(self.file if self.prog['file'] else None, verbose=self.prog['verbose'],
                                        nocolor=self.prog['nocolor'], threadcount=self.prog['threadcount'],
                                        show_threads=self.prog['show'])
            if self.prog['pool']:
                self.s = fbuild.sched.Scheduler(self.prog['pool'], logger=self.l)
            ts = [threading.Thread(target=self.ops, args=(ops,)) for ops in self.prog['clients'][1:]]
            for t in ts:
                t.start()
            self.ops(self.prog['clients'][0])
            for t in ts:
                t.join()
            if self.prog['pool']:
                self.s.shutdown()
        finally:
            sys.stdout = STDOUT
        self.ev.append(dict(e='fin', th='', console=''.join(self.out.text), file=''.join(self.file.text),
                            verbose=self.prog['verbose'], hasfile=self.prog['file']))


if __name__ == '__main__':
    vtrun.main(Program, TRACED)
