"""Runs the real fbuild.main over histories of command lines.

usage: mainworker.py IN.ndjson OUT.ndjson

Each run is a process of its own, forked after the library was imported.
"""
import json
import os
import shutil
import signal
import sys
import threading
import time
import traceback
import types

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(REPO, 'lib'))
sys.dont_write_bytecode = True

import fbuild
import fbuild.builders.file
import fbuild.context
import fbuild.db
import fbuild.install
import fbuild.options
import fbuild.target
import fbuild.temp
import linecache

ROOT = '''
import fbuild
import fbuild.db
import fbuild.target
import acts

%s
@fbuild.db.caches
def work(ctx, k):
    acts.event(e='work', k=k)
    return 'result %%d' %% k

@fbuild.db.caches
def bad(ctx, kind):
    acts.fail(kind)

acts.define(globals())
'''


class Empty(Exception):
    """It is false, like the containers that are empty."""
    def __len__(self):
        return 0


# What Python or fbuild itself could raise and handle.
OTHERS = {'attr': AttributeError, 'key': KeyError, 'import': ImportError, 'os': FileNotFoundError, 'stop': StopIteration,
          'assert': AssertionError, 'type': TypeError, 'gen': GeneratorExit, 'empty': Empty, 'index': IndexError, 'pipe': BrokenPipeError}


class Acts(types.ModuleType):
    """What the build description of the current run does."""

    def setup(self, run, fd):
        self.run = run
        self.fd = fd

    def event(self, **kw):
        os.write(self.fd, (json.dumps(dict({'e': '', 'n': '', 'k': 0, 'm': 0}, **kw)) + '\n').encode())

    def fail(self, kind):
        if kind == 'error':
            raise fbuild.Error('the target failed')
        if kind == 'config':
            raise fbuild.ConfigFailed('the target failed')
        if kind == 'exec':
            raise fbuild.ExecutionError(['cmd'], b'', b'', 3)
        if kind == 'plain':
            raise ValueError('the target failed')
        if kind in OTHERS:
            raise OTHERS[kind]('the target failed')
        if kind == 'exit':
            sys.exit(3)
        if kind == 'exittext':
            sys.exit('the target failed')
        if kind == 'kbd':
            raise KeyboardInterrupt
        if kind == 'sigint':
            if threading.current_thread() is not threading.main_thread():
                # Python itself cannot be interrupted anywhere: let the main
                # thread wait for this task.
                time.sleep(0.05)
            os.kill(os.getpid(), signal.SIGINT)
            time.sleep(0.01 if self.run['ignored'] else 20 if threading.current_thread() is threading.main_thread() else 0.1)
            if self.run['ignored']:
                return
        raise Exception('unknown failure ' + kind)

    def steps(self, ctx, steps):
        g = self.globals
        for s in steps:
            if s['op'] == 'work':
                for k in s['ks']:
                    self.value(g['work'](ctx, k), k)
            elif s['op'] == 'par':
                got = ctx.scheduler.map(lambda k: g['work'](ctx, k), s['ks'])
                for k, v in zip(s['ks'], got):
                    self.value(v, k)
            elif s['op'] == 'tmp':
                with fbuild.temp.tempfile('text') as f:
                    pass
            elif s['op'] == 'mark':
                ctx.install_destdir = os.path.abspath('dest')
                ctx.install(s['n'], 'share')
            elif s['op'] == 'fail':
                if s['how'] == 'map':
                    ctx.scheduler.map(lambda i: self.fail(s['n']) if i == 1 else i, range(3))
                elif s['how'] == 'cached':
                    g['bad'](ctx, s['n'])
                else:
                    self.fail(s['n'])

    def value(self, v, k):
        if v != 'result %d' % k:
            self.event(e='value', k=k)

    def target(self, name, steps):
        def target(ctx):
            tmp = str(ctx.buildroot / '.tmp')
            self.event(e='begin', n=name, m=len(os.listdir(tmp)) if os.path.isdir(tmp) else -1)
            self.steps(ctx, steps)
        target.__name__ = name
        return target

    def hook(self, kind, steps):
        def hook(ctx):
            self.event(e=kind)
            self.steps(ctx, steps)
        return hook

    def option_hook(self, name):
        def before(parser):
            self.event(e='hook', n=name)
            parser.add_argument('--mine', action='store_true')
            return parser if self.run['returns'] else None

        def after(*args):
            self.event(e='hook', n=name)
            args = args[-1]
            if self.run['add']:
                args.targets = args.targets + [self.run['add']]
            return args if self.run['returns'] else None
        return after if name.startswith('post') else before

    def define(self, g):
        self.globals = g
        for t in self.run['defs']:
            f = self.target(t['n'], t['steps'])
            if t['how'] == 'module':
                g[t['n']] = f
            elif t['how'] == 'named':
                fbuild.target.register(name=t['n'], help='help')(f)
            else:
                fbuild.target.register()(f)
        for kind in ('pre', 'post'):
            if self.run[kind + '_there']:
                g[kind + '_install'] = self.hook(kind, self.run[kind])
        for name in self.run['hooks']:
            g[name] = self.option_hook(name)


def argv(run):
    flags = []
    if run['clean']:
        flags.append(['--clean'])
    if run['rebuild']:
        flags.append([run['rebuild']])
    if run['nosave']:
        flags.append(['--do-not-save-database'])
    if run['jobs'] > 1:
        flags.append(['-j%d' % run['jobs']])
    if run['engine'] != 'default':
        flags.append(['--database-engine', run['engine']])
    if run['root'] != 'build':
        flags.append(['--buildroot=' + run['root']])
    if run['mine']:
        flags.append(['--mine'])
    before = [x for i, f in enumerate(flags) if (i + run['where']) % 2 for x in f]
    after = [x for i, f in enumerate(flags) if not (i + run['where']) % 2 for x in f]
    return before + run['given'] + after


def child(run, fd):
    acts = Acts('acts')
    acts.setup(run, fd)
    sys.modules['acts'] = acts
    sys.path.insert(0, os.getcwd())
    linecache.clearcache()
    sys.argv = ['fbuild-light'] + argv(run)
    status = 0
    try:
        with open(os.path.join(REPO, 'fbuild-light')) as f:
            code = compile(f.read(), os.path.join(REPO, 'fbuild-light'), 'exec')
        # Its first statement looks for the library.
        sys.argv[0] = os.path.join(REPO, 'fbuild-light')
        exec(code, {'__name__': '__main__', '__file__': sys.argv[0]})
    except SystemExit as e:
        if e.code is None:
            status = 0
        elif isinstance(e.code, int):
            status = e.code & 0xff
        else:
            print(e.code, file=sys.stderr)
            status = 1
    except BaseException:
        traceback.print_exc()
        status = 1
    # Python waits for the threads.
    threading._shutdown()
    return status


def do_run(run, root):
    out = os.path.join(root, '.out')
    log = os.path.join(root, '.events')
    text = ROOT % {'': '', 'import': 'import no_such_module', 'error': 'raise ValueError()', 'none': ''}[run['broken']]
    if run['broken'] == 'none':
        if os.path.exists('fbuildroot.py'):
            os.remove('fbuildroot.py')
    else:
        with open('fbuildroot.py', 'w') as f:
            f.write(text)
    fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            o = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
            os.dup2(o, 1)
            os.dup2(o, 2)
            if run['ignored']:
                signal.signal(signal.SIGINT, signal.SIG_IGN)
            code = child(run, fd)
        except BaseException:
            traceback.print_exc()
        finally:
            try:
                sys.stdout.flush()
                sys.stderr.flush()
            finally:
                os._exit(code)
    os.close(fd)
    deadline = time.time() + 60
    delay = 0.001
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            status = os.WEXITSTATUS(st) if os.WIFEXITED(st) else 128 + os.WTERMSIG(st)
            break
        if time.time() > deadline:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            status = -1
            break
        time.sleep(delay)
        delay = min(delay * 1.5, 0.02)
    with open(log) as f:
        events = [json.loads(l) for l in f]
    with open(out, errors='replace') as f:
        text = f.read()
    tmp = os.path.join(run['root'], '.tmp')
    return {'events': events, 'status': status, 'tmp': len(os.listdir(tmp)) if os.path.isdir(tmp) else -1,
            'there': os.path.isdir(run['root']),
            'dest': sorted(os.path.relpath(os.path.join(b, f), 'dest') for b, ds, fs in os.walk('dest') for f in fs),
            'out': text[-1500:]}


def history(it):
    root = os.path.join(os.environ['FN_TMP'], 'm%d-%s' % (os.getpid(), it['id']))
    os.mkdir(root)
    os.chdir(root)
    try:
        for n in ('one', 'two'):
            with open(n, 'w') as f:
                f.write('this is ' + n)
        return {'runs': [do_run(run, root) for run in it['runs']]}
    finally:
        os.chdir('/')
        shutil.rmtree(root)


def main():
    sys.setrecursionlimit(3000)
    with open(sys.argv[1]) as src, open(sys.argv[2], 'w') as dst:
        for line in src:
            it = json.loads(line)
            dst.write(json.dumps(dict(history(it), id=it['id'])) + '\n')


main()
