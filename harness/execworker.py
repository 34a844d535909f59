"""Runs commands through the real Context.execute.

usage: execworker.py IN.ndjson OUT.ndjson

PROBE_EXE is the program that is run; it reports how it was started and does
what its script says.
"""
import json
import os
import re
import shutil
import sys
import threading
import time

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(REPO, 'lib'))
sys.dont_write_bytecode = True

import fbuild
import fbuild.builders.platform
import fbuild.context
import fbuild.options
import fbuild.path
import fbuild.subprocess
import fbuild.subprocess.killableprocess

PROBE = os.environ['PROBE_EXE']
BASE = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'HOME': '/nonexistent', 'LC_ALL': 'C.UTF-8'}


def hexed(t):
    return os.fsencode(t).hex()


def unhex(t):
    return os.fsdecode(bytes.fromhex(t))


def rle(data):
    if data is None:
        return None
    out = []
    i = 0
    while i < len(data):
        j = i
        c = data[i]
        # Runs are long.
        step = 1 << 16
        while step:
            while data[j:j + step] == bytes([c]) * step:
                j += step
            step >>= 1
        out.append({'c': c, 'n': j - i})
        i = j
    return out


def unrle(runs):
    return b''.join(bytes([x['c']]) * x['n'] for x in runs)


def report(path):
    r = {'argv': [], 'env': [], 'stdin': [], 'cwd': '', 'starts': [], 'ends': [], 'ran': False}
    if not os.path.exists(path):
        return r
    with open(path) as f:
        for line in f:
            w = line.split()
            if w[0] == 'arg':
                r['argv'].append(w[1] if len(w) > 1 else '')
            elif w[0] == 'env':
                k, _, v = bytes.fromhex(w[1]).partition(b'=')
                r['env'].append({'k': k.hex(), 'v': v.hex()})
            elif w[0] == 'cwd':
                r['cwd'] = w[1]
            elif w[0] == 'in':
                if r['stdin'] and r['stdin'][-1]['c'] == int(w[1]):
                    r['stdin'][-1]['n'] += int(w[2])
                else:
                    r['stdin'].append({'c': int(w[1]), 'n': int(w[2])})
            else:
                r['ran'] = True
                r[w[0] + 's'].append({'pid': int(w[1]), 't': int(w[2]), 'role': w[3]})
    return r


def state(pid):
    """The state of a process, Z for a zombie, '' if there is none."""
    try:
        with open('/proc/%d/stat' % pid) as f:
            return f.read().rpartition(')')[2].split()[0]
    except OSError:
        return ''


def context(threads, root, flags=()):
    return fbuild.context.make_default_context(['--database-engine=cache', '-j%d' % threads, '--buildroot=' + root + '/build', *flags])


def now():
    return int(time.monotonic() * 1000)


def call(ctx, it, root, name):
    """One call of ctx.execute; returns what was seen."""
    d = os.path.join(root, name)
    os.mkdir(d)
    script = os.path.join(d, 'script')
    with open(script, 'w') as f:
        f.write(''.join(l.replace('$', root + '/') + '\n' for l in it['script']))
    exe = PROBE
    if 'exe' in it:
        # A name of its own.
        exe = os.path.join(d, it['exe'])
        if it['how'] != 'missing':
            os.symlink(PROBE, exe)
    elif it['how'] == 'missing':
        exe = os.path.join(d, 'no-such-program')
    elif it['how'] == 'notexec':
        exe = script
    args = [unhex(a) for a in it['args']]
    kw = {}
    if it['how'] == 'string':
        cmd = exe
    elif it['how'] == 'shell':
        cmd = ' '.join([exe] + args)
        kw['shell'] = True
    else:
        cmd = [exe] + args
        if it['path']:
            cmd = [fbuild.path.Path(x) for x in cmd]
        if it['tuple']:
            cmd = tuple(cmd)
    own = [{'k': hexed('PROBE'), 'v': hexed(script)}]
    if it['env'] is None:
        os.environ['PROBE'] = script
    else:
        kw['env'] = {unhex(x['k']): unhex(x['v']) for x in it['env'] + own}
    if it['libs'] is not None:
        kw['runtime_libpaths'] = [unhex(x) for x in it['libs']]
        if it['path']:
            kw['runtime_libpaths'] = [fbuild.path.Path(x) for x in kw['runtime_libpaths']]
    files = []
    if it['stdin'] == 'pipe':
        kw['input'] = unrle(it['input'])
    elif it['stdin'] == 'file':
        with open(os.path.join(d, 'stdin'), 'wb') as f:
            f.write(unrle(it['input']))
        files.append(open(os.path.join(d, 'stdin'), 'rb'))
        kw['stdin'] = files[0]
    if it['out'] == 'null':
        files.append(open('/dev/null', 'wb'))
        kw['stdout'] = files[-1]
    if it['err'] == 'stdout':
        kw['stderr'] = fbuild.subprocess.killableprocess.subprocess.STDOUT
    elif it['err'] == 'null':
        files.append(open('/dev/null', 'wb'))
        kw['stderr'] = files[-1]
    if it['cwd']:
        kw['cwd'] = d if it['how'] != 'baddir' else os.path.join(d, 'no-such-directory')
    if it['preexec']:
        kw['preexec_fn'] = lambda: os.close(os.open(os.path.join(d, 'preexec'), os.O_CREAT | os.O_WRONLY))
    if it['timeout']:
        kw['timeout'] = it['timeout'] / 1000
    if it['messages']:
        kw.update(zip(('msg1', 'msg2'), it['messages']))
    if it['ignore']:
        kw['ignore_error'] = True
    for k in ('quieter', 'stdout_quieter', 'stderr_quieter', 'color'):
        if it.get(k) is not None:
            kw[k] = it[k]
    r = {'kind': 'ok', 'out': [], 'err': [], 'piped': '', 'code': 0, 'same': True, 'what': '', 'called': now()}
    try:
        out, err = ctx.execute(cmd, **kw)
    except fbuild.ExecutionTimedOut as e:
        r['kind'] = 'timeout'
        r['same'] = e.cmd == cmd
        r['code'] = e.returncode
        out, err = e.stdout, e.stderr
    except fbuild.ExecutionError as e:
        r['kind'] = 'error'
        r['same'] = e.cmd == cmd
        r['code'] = e.returncode
        out, err = e.stdout, e.stderr
    except KeyboardInterrupt:
        r['kind'] = 'interrupt'
        out = err = None
    except OSError as e:
        r['kind'] = 'os'
        r['what'] = str(e)
        out = err = None
    except Exception as e:
        r['kind'] = 'other'
        r['what'] = '%s: %s' % (type(e).__name__, e)
        out = err = None
    r['returned'] = now()
    for f in files:
        f.close()
    r['piped'] = ('o' if out is not None else '') + ('e' if err is not None else '')
    r['out'] = rle(out or b'')
    r['err'] = rle(err or b'')
    r['dir'] = hexed(d)
    r['script'] = hexed(script)
    r['exe'] = hexed(exe)
    r['pre'] = os.path.exists(os.path.join(d, 'preexec'))
    r['rep'] = script + '.out'
    return r


def exec_group(it, root):
    """Commands, one after the other or in parallel."""
    os.environ.clear()
    os.environ.update(BASE)
    os.environ.update({unhex(x['k']): unhex(x['v']) for x in it['base']})
    os.chdir(root)
    ctx = context(it['threads'], root)
    try:
        ctx.create_buildroot()
        ctx.load_configuration()
        ctx.logger.verbose = -100
        before = threading.active_count()
        todo = list(enumerate(it['items']))
        if it['threads'] > 1:
            got = ctx.scheduler.map(lambda x: call(ctx, x[1], root, 'c%d' % x[0]), todo)
        else:
            got = [call(ctx, x, root, 'c%d' % k) for k, x in todo]
        base = [{'k': hexed(k), 'v': hexed(v)} for k, v in os.environ.items() if k != 'PROBE']
        for r in got:
            r.update(report(r.pop('rep')))
        wait = time.monotonic() + 3
        while threading.active_count() > before and time.monotonic() < wait:
            time.sleep(0.01)
        zombies = sum(state(s['pid']) == 'Z' for r in got for s in r['starts'])
        return {'got': got, 'base': base, 'root': hexed(root), 'left': threading.active_count() - before, 'zombies': zombies,
                'libvar': hexed(fbuild.builders.platform.runtime_env_libpath(ctx))}
    finally:
        ctx.db.shutdown()
        ctx.scheduler.shutdown()


def time_group(it, root):
    """Commands with timeouts among other tasks, all in parallel."""
    os.environ.clear()
    os.environ.update(BASE)
    os.chdir(root)
    ctx = context(it['threads'], root)
    try:
        ctx.create_buildroot()
        ctx.load_configuration()
        ctx.logger.verbose = -100
        before = threading.active_count()

        def task(x):
            k, t = x
            if t['what'] == 'busy':
                # Nobody else can run, except for commands.
                r = {'called': now()}
                wait = time.monotonic() + 20
                for name in t['after']:
                    with ctx.scheduler.interruptible():
                        while not os.path.exists(os.path.join(root, name)) and time.monotonic() < wait:
                            time.sleep(0.005)
                for name in t['makes']:
                    with open(os.path.join(root, name), 'w'):
                        pass
                time.sleep(t['ms'] / 1000)
                r['returned'] = now()
                return r
            try:
                return call(ctx, t['call'], root, 'c%d' % k)
            except BaseException as e:
                return {'kind': 'other', 'what': repr(e)}
        got = ctx.scheduler.map(task, list(enumerate(it['tasks'])))
        wait = time.monotonic() + 3
        while threading.active_count() > before and time.monotonic() < wait:
            time.sleep(0.01)
        left = threading.active_count() - before
        # Killing needs a moment; what has to live on is waited for.
        for r, t in zip(got, it['tasks']):
            r['alive'] = []
            r['zombies'] = []
            if 'rep' not in r:
                continue
            wait = time.monotonic() + (3 if r['kind'] == 'timeout' else 15)
            while True:
                rep = report(r['rep'])
                ended = {e['pid'] for e in rep['ends']}
                alive = [s['pid'] for s in rep['starts'] if s['pid'] not in ended and state(s['pid']) not in ('', 'Z')]
                if not alive or time.monotonic() > wait:
                    break
                time.sleep(0.01)
            # One may have ended between the two looks.
            rep = report(r['rep'])
            r['alive'] = alive
            r['zombies'] = [s['pid'] for s in rep['starts'] if s['role'] == 'L' and state(s['pid']) == 'Z']
            r.pop('rep')
            r['starts'] = rep['starts']
            r['ends'] = rep['ends']
            # A grandchild that lives on.
            for p in alive:
                try:
                    os.kill(p, 9)
                except OSError:
                    pass
        return {'got': got, 'left': left}
    finally:
        ctx.db.shutdown()
        ctx.scheduler.shutdown()


class Out:
    """Stands in for the console."""
    def __init__(self):
        self.text = []

    def write(self, s):
        self.text.append(s)

    def flush(self):
        pass

    def isatty(self):
        return False


MARK = re.compile(r"z(\d+)([a-pr-z])(\d+)z|exit (-?\d+)|'a b z(\d+)(q)(\d+)z'|z(\d+)(q)(\d+)z")


def marks(text):
    # What is quoted once more is still the same.
    def one(m):
        if m[4]:
            return 0, 'x', m[4]
        if m[8]:
            # It should be quoted.
            return m[8], 'unquoted', m[10]
        return m.group(1, 2, 3) if m[1] else m.group(5, 6, 7)
    return [dict(zip('nki', (int(n), k, int(i)))) for n, k, i in map(one, MARK.finditer(text))]


def said_group(it, root):
    """Commands, and what is said about them."""
    os.environ.clear()
    os.environ.update(BASE)
    os.chdir(root)
    stdout, sys.stdout = sys.stdout, Out()
    ctx = context(it['threads'], root, ['-v'] * it['level'] + it['flags'])
    try:
        ctx.create_buildroot()
        ctx.load_configuration()
        # What it finds out about the platform is not of interest.
        fbuild.builders.platform.runtime_env_libpath(ctx)
        ctx.logger.flush()
        skip = len(sys.stdout.text), os.path.getsize(os.path.join(root, 'build', 'fbuild.log'))
        todo = list(enumerate(it['items']))

        def one(x):
            r = call(ctx, x[1], root, 'c%d' % x[0])
            return r['kind']
        if it['threads'] > 1:
            got = ctx.scheduler.map(one, todo)
        else:
            got = [one(x) for x in todo]
        ctx.logger.flush()
    finally:
        ctx.db.shutdown()
        ctx.scheduler.shutdown()
        out, sys.stdout = sys.stdout, stdout
    with open(os.path.join(root, 'build', 'fbuild.log')) as f:
        f.seek(skip[1])
        text = f.read()
    out.text = out.text[skip[0]:]
    return {'console': marks(''.join(out.text)), 'file': marks(text), 'kinds': got, 'text': ''.join(out.text)[:1500]}


def adopt():
    """Orphans become children of this process, which ends them."""
    import ctypes
    try:
        ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)
    except (OSError, AttributeError):
        pass


def reap():
    try:
        while os.waitpid(-1, os.WNOHANG)[0]:
            pass
    except ChildProcessError:
        pass


def main():
    adopt()
    with open(sys.argv[1]) as src, open(sys.argv[2], 'w') as dst:
        for line in src:
            it = json.loads(line)
            root = os.path.join(os.path.dirname(sys.argv[2]), 'x%d-%s' % (os.getpid(), it['id']))
            os.mkdir(root)
            try:
                r = {'exec': exec_group, 'time': time_group, 'said': said_group}[it['mode']](it, root)
                dst.write(json.dumps(dict(r, id=it['id'])) + '\n')
                dst.flush()
            finally:
                reap()
                os.chdir('/')
                shutil.rmtree(root)


main()
