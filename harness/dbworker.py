"""Runs scenarios against the real fbuild (under PyPy).

usage: dbworker.py SCENARIOS.ndjson TRACES.ndjson

Each `run` step of a scenario is a fresh fbuild process: this program imports
the library once, then forks for every run; the child enters the scratch
directory, imports the generated fbuildroot through fbuild.main and calls
fbuild.main.main.
"""
import copy
import faulthandler
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(REPO, 'lib'))
sys.dont_write_bytecode = True

import rt
import vt
import world

import fbuild
import fbuild.context
import fbuild.db
import fbuild.record
import fbuild.target
import fbuild.options
import fbuild.install
import fbuild.builders.file
import linecache

linecache.clearcache()

SHM = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None


class Scenario:
    def __init__(self, sc, base):
        self.sc = sc
        self.dir = tempfile.mkdtemp(prefix='w', dir=base)
        self.trace = os.path.join(self.dir, 'trace.ndjson')
        self.w = os.path.join(self.dir, 'w')
        os.mkdir(self.w)
        self.fd = os.open(self.trace, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
        self.codes = {fn: sp.get('v', 1) for fn, sp in sc['functions'].items()}
        self.functions = dict(sc['functions'])
        self.clock = 1000000000
        self.backclock = 900000000
        self.mtimes = {}
        rt.FD = self.fd
        rt.PLAN = {'first_id': 0}
        self.first_id = 0
        self.damaged = False
        self.plain = 0

    def log(self, e, **kw):
        rt.log(e, **kw)

    def path(self, f):
        return os.path.join(self.w, f)

    def run(self):
        rt.FD = self.fd
        rt.log('start', codes=self.codes)
        self.more = []
        self.steps(0)
        rt.FD = None
        ev = self.events()
        os.close(self.fd)
        return ev

    def events(self):
        with open(self.trace) as f:
            return [json.loads(line) for line in f]

    def steps(self, first):
        for n in range(first, len(self.sc['steps'])):
            step = self.sc['steps'][n]
            if step.get('crashall') and first <= n:
                self.crash_everywhere(n, step)
                return
            getattr(self, 'do_' + step['op'])(step)

    # ---------------------------------------------------------- crash points

    STATE = ('damaged', 'codes', 'functions', 'clock', 'backclock', 'mtimes', 'first_id')

    def crash_everywhere(self, n, step):
        """Repeat this run, killing it at every (or every k-th) operation on
        the file system, and continue each time with the rest of the history."""
        opt = step['crashall']
        saved = self.w + '.saved'
        shutil.copytree(self.w, saved, symlinks=True)
        state = copy.deepcopy({k: getattr(self, k) for k in self.STATE})
        size = os.fstat(self.fd).st_size
        todo = [1000000000]
        while todo:
            at = todo.pop(0)
            shutil.rmtree(self.w)
            shutil.copytree(saved, self.w, symlinks=True)
            for k, v in copy.deepcopy(state).items():
                setattr(self, k, v)
            os.ftruncate(self.fd, size)
            s = dict(step, crash={'n': at, 'mode': opt.get('mode', 0)})
            del s['crashall']
            self.do_run(s)
            for s in self.sc['steps'][n + 1:]:
                getattr(self, 'do_' + s['op'])(s)
            ev = self.events()
            self.more.append({'id': '%s+%d' % (self.sc['id'], at), 'ev': ev})
            if at == 1000000000:
                todo = self.crash_points(opt)
        shutil.rmtree(saved)

    def crash_points(self, opt):
        """The operations to stop at: all of them, or some of the middle and
        of the end."""
        try:
            with open(os.path.join(self.dir, 'ops')) as f:
                ops = int(f.read())
        except (OSError, ValueError):
            return []
        k = opt.get('points', 0)
        if not k or ops <= k:
            return list(range(1, ops + 1))
        r = random.Random('%s/%d' % (self.sc['id'], ops))
        tail = max(1, ops - 24)
        pts = set(r.sample(range(tail, ops + 1), min(k // 2, ops + 1 - tail)))
        pts |= set(r.sample(range(1, ops + 1), k - len(pts)))
        return sorted(pts)

    # ------------------------------------------------------------ the user

    def stamp(self, f, step):
        mode = step.get('mtime', 'next')
        self.clock += 10
        old = self.mtimes.get(f)
        if mode == 'next':
            t = self.clock
        elif mode == 'back':
            # Older than whatever it was, and not like any time before.
            self.backclock -= 10
            t = self.backclock
        elif mode == 'keep':
            t = old if old is not None else self.clock
        elif mode == 'frac':
            t = self.clock + 0.125
        elif mode == 'subsec':
            t = (old if old is not None else self.clock) + 0.25
        elif mode == 'future':
            # Never older than one second: the content decides.
            t = 4000000000
        elif mode == 'now':
            t = None
        else:
            t = float(mode)
        if t is not None:
            os.utime(self.path(f), (t, t))
        self.mtimes[f] = os.stat(self.path(f)).st_mtime

    def do_edit(self, step):
        f = step['f']
        p = self.path(f)
        if step.get('c') is None:
            if os.path.isdir(p):
                os.rmdir(p)
            elif os.path.lexists(p):
                os.remove(p)
            if step.get('dir'):
                # A directory is in the place of the file.
                os.makedirs(p)
                self.stamp(f, step)
            c = '-'
        else:
            d = os.path.dirname(p)
            os.makedirs(d, exist_ok=True)
            if os.path.isdir(p):
                os.rmdir(p)
            before, after = step.get('pad', (0, 0))
            text = 'p' * before + step['c'] + 'q' * after
            if step.get('replace'):
                with open(p + '.new', 'w') as fp:
                    fp.write(text)
                os.rename(p + '.new', p)
            else:
                with open(p, 'w') as fp:
                    fp.write(text)
            self.stamp(f, step)
            c = rt.content(p)
        self.log('edit', f=f, c=c)

    def do_touch(self, step):
        f = step['f']
        if os.path.exists(self.path(f)):
            self.stamp(f, step)

    def do_code(self, step):
        self.codes[step['fn']] = step['v']
        self.log('code', fn=step['fn'], v=step['v'])

    def do_drop(self, step):
        # The function disappears from the build description.
        self.functions.pop(step['fn'], None)
        if self.sc['functions'][step['fn']].get('kind') == 'ctor':
            # What was saved may refer to it.
            self.log('wipe', why='moved', must=False)
        self.log('code', fn=step['fn'], v=0)

    def do_rename(self, step):
        # What was saved may have objects of a class that is now elsewhere.
        if step['v'] != self.plain:
            self.plain = step['v']
            self.log('wipe', why='moved', must=False)

    def do_addfn(self, step):
        self.functions[step['fn']] = self.sc['functions'][step['fn']]
        self.log('code', fn=step['fn'], v=self.codes[step['fn']])

    def do_corrupt(self, step):
        """Damage or age the saved state on disk."""
        b = self.path('build')
        p = os.path.join(b, 'fbuild-state.db' if self.sc['engine'] != 'sqlite' else 'fbuild-state.sqldb')
        how = step['how']
        if how == 'remove':
            if os.path.exists(p):
                os.remove(p)
        elif how == 'version':
            self.age(p, step.get('version', '1'))
        elif how == 'empty':
            if os.path.exists(p):
                open(p, 'w').close()
        elif how == 'cut':
            # Only a part of it is there.
            if os.path.exists(p):
                n = os.path.getsize(p)
                os.truncate(p, min(max(n - 1, 0), int(n * step['part'])))
        elif how == 'schema':
            self.old_schema(p)
        self.damaged = self.damaged or how in ('empty', 'cut', 'schema')
        self.log('wipe', why=how, must=True)

    def old_schema(self, p):
        """A state of an older fbuild, with other tables (or fields)."""
        if not os.path.exists(p) or self.damaged:
            return
        if self.sc['engine'] == 'sqlite':
            import sqlite3
            c = sqlite3.connect(p)
            c.execute("UPDATE Version SET version='1'")
            c.execute('ALTER TABLE Function RENAME TO OldFunction')
            c.execute('CREATE TABLE Function (fun_id INTEGER PRIMARY KEY AUTOINCREMENT,'
                      ' fun_name TEXT UNIQUE, fun_digest TEXT)')
            c.execute('INSERT INTO Function SELECT fun_id, fun_name, fun_digest FROM OldFunction')
            c.execute('DROP TABLE OldFunction')
            c.commit()
            c.close()
        else:
            import pickle
            with open(p, 'wb') as f:
                pickle.dump(('9', {}, {}, {}, {}, {}, {}, {}, {}), f)

    def age(self, p, version):
        """Make the saved state look like one of another version."""
        if not os.path.exists(p) or self.damaged:
            return
        if self.sc['engine'] == 'sqlite':
            import sqlite3
            c = sqlite3.connect(p)
            if version is None:
                c.execute('DELETE FROM Version')
            else:
                c.execute('UPDATE Version SET version=?', (version,))
            c.commit()
            c.close()
        else:
            code = ('import pickle,sys\n'
                    'class U(pickle.Unpickler):\n'
                    ' def persistent_load(self, pid): return Ctx()\n'
                    'class Ctx: pass\n'
                    'class P(pickle.Pickler):\n'
                    ' def persistent_id(self, o): return b"ctx" if isinstance(o, Ctx) else None\n')
            pid = os.fork()
            if pid == 0:
                try:
                    os.chdir(self.w)
                    sys.path.insert(0, self.w)
                    rt.setup({'functions': {}}, self.fd)
                    g = {}
                    exec(code, g)
                    with open(p, 'rb') as f:
                        data = g['U'](f).load()
                    if version is None:
                        data = tuple(data[1:])
                    else:
                        data = (version,) + tuple(data[1:])
                    with open(p, 'wb') as f:
                        g['P'](f, protocol=4).dump(data)
                    os._exit(0)
                except BaseException:
                    traceback.print_exc()
                    os._exit(1)
            _, st = os.waitpid(pid, 0)
            assert st == 0, 'could not age the state'

    # ------------------------------------------------------------ fbuild

    def do_run(self, step):
        sc = self.sc
        if '--do-not-save-database' not in step.get('args', []):
            self.damaged = False
        texts = world.sources(self.functions, self.codes, self.plain)
        for name in os.listdir(self.path('.')):
            if name.startswith('plainmod') and name not in texts:
                os.remove(self.path(name))
        for name, text in texts.items():
            p = self.path(name)
            old = None
            if os.path.exists(p):
                with open(p, encoding='utf-8') as f:
                    old = f.read()
            if old != text:
                with open(p, 'w', encoding='utf-8') as f:
                    f.write(text)
        args = ['--no-color', '--database-engine', sc['engine']]
        if step.get('jobs', sc.get('jobs', 1)) != 1:
            args += ['-j%d' % step.get('jobs', sc.get('jobs', 1))]
        args += step.get('args', [])
        args += step.get('targets', [])
        kind = step.get('kind', 'run')
        if kind == 'delfn':
            sp = self.sc['functions'][step['fn']]
            args += ['--delete-function', sp.get('module', 'fbuildroot') + '.' + step['fn']]
        elif kind == 'delfile':
            args += ['--delete-file', step['f']]
        elif kind == 'clean':
            args += ['--clean']
        elif kind == 'rebuild':
            args += [step.get('flag', '--rebuild')]
        elif kind == 'dump':
            args += ['--dump-state']
        plan = {'functions': self.functions, 'bodies': sc.get('bodies', {}),
                'main': step.get('main', []), 'first_id': self.first_id}
        self.first_id += 1000
        self.log('run', kind=kind, args=args, save='--do-not-save-database' not in args)
        out = os.path.join(self.dir, 'out')
        pid = os.fork()
        if pid == 0:
            code = 99
            try:
                fd = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
                os.dup2(fd, 1)
                os.dup2(fd, 2)
                nul = os.open('/dev/null', os.O_RDONLY)
                os.dup2(nul, 0)
                code = self.child(plan, args, step)
            except BaseException:
                traceback.print_exc()
                code = 98
            finally:
                try:
                    sys.stdout.flush()
                    sys.stderr.flush()
                finally:
                    os._exit(code)
        deadline = time.time() + step.get('timeout', 45)
        status = None
        delay = 0.001
        while True:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                status = os.waitstatus_to_exitcode(st) if hasattr(os, 'waitstatus_to_exitcode') else (
                    os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st))
                break
            if time.time() > deadline:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                status = 'hang'
                break
            time.sleep(delay)
            delay = min(delay * 1.5, 0.02)
        with open(out, errors='replace') as f:
            text = f.read()
        if status == 96:
            status = 'hang'
        if status == 77:
            # A function may have been stopped while it was writing a file.
            for r, ds, fs in sorted(os.walk(self.w)):
                if r == self.w:
                    ds[:] = [d for d in ds if d not in ('build', '__pycache__')]
                for x in sorted(fs):
                    if not x.endswith('.py'):
                        p = os.path.join(r, x)
                        self.log('edit', f=os.path.relpath(p, self.w), c=rt.content(p))
        ev = dict(status=str(status), kind=kind, arg=step.get('fn', step.get('f', '')))
        if status not in (0, 1, 77):
            ev['tail'] = text[-1500:]
        elif status == 1:
            ev['tail'] = text[-600:]
        ev['bdir'] = os.path.exists(self.path('build'))
        self.log('end', **ev)
        # What the build left behind.
        if step.get('probe'):
            b = self.path('build')
            self.log('probe', files=sorted(
                os.path.relpath(os.path.join(r, x), self.w)
                for r, ds, fs in os.walk(b) for x in fs))
        return status

    def child(self, plan, args, step):
        os.chdir(self.w)
        rt.setup(plan, self.fd)
        sys.argv = ['fbuild', '--no-warnings'] + args
        import fbuild.main
        if step.get('crash'):
            import ctypes
            # Not this process's own output: only what fbuild keeps on disk.
            ctypes.CDLL(None).cr_arm(ctypes.c_long(step['crash']['n']), step['crash'].get('mode', 0), self.fd)
        if step.get('vt'):
            self.virtual(step['vt'])
        try:
            try:
                r = fbuild.main.main()
            finally:
                if step.get('vt'):
                    vt.C.end()
                    vt.C = None
                if step.get('crash'):
                    import ctypes
                    with open(os.path.join(self.dir, 'ops'), 'w') as f:
                        f.write(str(ctypes.CDLL(None).cr_count()))
        except SystemExit as e:
            r = e.code
            if r is None:
                r = 0
            if not isinstance(r, int):
                r = 1
        except BaseException:
            # What the interpreter does with an uncaught exception.
            traceback.print_exc()
            r = 1
        if r is None:
            r = 0
        if not isinstance(r, int):
            r = 1
        return r


    def virtual(self, opt):
        """Run the threads one at a time, under the given schedule."""
        vt.install(None)
        import fbuild.sched
        import fbuild.rpc
        import fbuild.db.database
        import fbuild.db.backend
        r = random.Random(opt['seed'])
        if opt['kind'] == 'pct':
            s = vt.PCT(opt['seed'], depth=r.choice([1, 2, 3, 5, 8]), length=r.choice([1000, 5000, 20000]))
        else:
            s = vt.RandomWalk(opt['seed'], pline=r.choice([0, 0.005, 0.02, 0.1]), plock=r.choice([0.05, 0.3, 0.7]))

        def dead(why, c):
            self.log('dead', why=why)
            os._exit(96)
        traced = [m.__file__ for m in (fbuild.sched, fbuild.rpc, fbuild.db.database, fbuild.db.backend)]
        vt.C = vt.Controller(s, traced, maxsteps=400000, ondead=dead)
        vt.C.begin()


def main():
    scenarios, traces = sys.argv[1:3]
    base = tempfile.mkdtemp(prefix='fbv', dir=SHM)
    try:
        with open(scenarios) as f, open(traces, 'w') as out:
            for line in f:
                if not line.strip():
                    continue
                sc = json.loads(line)
                s = Scenario(sc, base)
                s.more = []
                error = ''
                try:
                    ev = s.run()
                except Exception:
                    ev = []
                    error = traceback.format_exc()
                finally:
                    shutil.rmtree(s.dir, ignore_errors=True)
                out.write(json.dumps({'id': sc['id'], 'family': sc.get('family', ''), 'ev': ev, 'more': s.more, 'error': error}) + '\n')
                out.flush()
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == '__main__':
    faulthandler.enable()
    main()
