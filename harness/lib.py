"""Shared machinery of the checks."""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, 'harness')
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('VERIF_REPO', '/repo')
TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


def _pypy():
    for p in ('/opt/venv-pypy/bin/python',):
        if os.path.exists(p):
            return p
    return sys.executable


PY = _pypy()
NCPU = os.cpu_count() or 4


def env():
    e = dict(os.environ)
    e.update(HOME='/root', PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent', PYTHONHASHSEED='0', LC_ALL='C.UTF-8', VERIF_REPO=REPO)
    e.pop('PYTHONPATH', None)
    return e


def seed():
    return int(os.environ.get('VERIF_SEED', '1') or '1')


def tier():
    return os.environ.get('VERIF_TIER', 'quick') or 'quick'


class Error(Exception):
    """The machinery itself failed (no verdict)."""


class Diverged(Exception):
    """The code did something no specification has a word for: it raised an
    exception where none is possible, or gave a value of another type."""
    def __init__(self, case, what):
        super().__init__('%s: %s' % (case, what))
        self.case = case
        self.what = what


def crashed(case, text):
    """The exception for a case that ended with a traceback."""
    if os.path.join(REPO, 'lib', 'fbuild') + os.sep in text and 'MemoryError' not in text and 'Error: [Errno 28]' not in text:
        return Diverged(case, 'unexpected exception: ' + text.strip()[-700:])
    return Error('%s: %s' % (case, text))


# TLC: the evaluation of the specification failed.
EVALUATION = (75, 76)


def diverging(module, cases, outdir, judge):
    """Finds a case for which the specification cannot be evaluated."""
    while len(cases) > 1:
        half = cases[:len(cases) // 2]
        cases = half if judge(half)[0] in EVALUATION else cases[len(half):]
    rc, text = judge(cases)
    if rc in EVALUATION:
        m = re.search(r'Error: .*', text, re.S)
        return Diverged(cases[0]['id'], 'what was seen is not what specification %s is about: %s' % (module, ' '.join((m.group(0) if m else text)[:600].split())))
    return Error('TLC on %s failed (%s):\n%s' % (module, rc, text[-3000:]))


def unprivileged():
    """Runs in the workers' processes: what the code under test destroys can
    only be what belongs to nobody."""
    if os.geteuid() == 0:
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)
    os.umask(0o022)


def open_to_workers(d):
    """Let unprivileged workers write in d."""
    if os.geteuid() == 0:
        os.chown(d, 65534, 65534)
        while d not in ('/', '/dev/shm', '/tmp'):
            d = os.path.dirname(d)
            try:
                if os.stat(d).st_uid == 0 and d not in ('/', '/dev', '/dev/shm', '/tmp'):
                    os.chmod(d, os.stat(d).st_mode | 0o011)
            except OSError:
                break


def run_workers(program, items, outdir, n=None, timeout=840, args=(), python=None, environ=None):
    """Run `program IN OUT` over the items in parallel; returns the output
    records in the order of the items."""
    n = min(n or NCPU, max(1, len(items)))
    procs = []
    open_to_workers(outdir)
    for w in range(n):
        part = items[w::n]
        src = os.path.join(outdir, 'in%d.ndjson' % w)
        dst = os.path.join(outdir, 'out%d.ndjson' % w)
        with open(src, 'w') as f:
            for it in part:
                f.write(json.dumps(it) + '\n')
        err = open(os.path.join(outdir, 'err%d' % w), 'w')
        procs.append((w, part, dst, err, subprocess.Popen(
            [python or PY, os.path.join(HARNESS, program), src, dst] + list(args),
            stdin=subprocess.DEVNULL, stdout=err, stderr=err, env=dict(env(), HOME=outdir, **(environ or {})), cwd=outdir,
            start_new_session=True, preexec_fn=unprivileged)))
    out = {}
    deadline = time.time() + timeout
    problems = []
    for w, part, dst, err, p in procs:
        try:
            rc = p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            import signal
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = 'timeout'
        err.close()
        if os.path.exists(dst):
            with open(dst) as f:
                for line in f:
                    rec = json.loads(line)
                    out[rec['id']] = rec
        if rc != 0:
            with open(err.name) as f:
                problems.append('%s worker %d ended with %s: %s' % (program, w, rc, f.read()[-2000:]))
    if problems:
        raise crashed('worker', '\n'.join(problems))
    missing = [it['id'] for it in items if it['id'] not in out]
    if missing:
        raise Error('%s: no output for %s' % (program, missing[:5]))
    return [out[it['id']] for it in items]


def build_c(name, outdir, shared=True):
    out = os.path.join(outdir, name.replace('.c', '.so' if shared else ''))
    p = subprocess.run(['gcc', '-O1'] + (['-shared', '-fPIC'] if shared else []) +
                       ['-o', out, os.path.join(HARNESS, name), '-ldl'],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise Error('gcc failed: ' + p.stdout.decode())
    return out


def tlc(module, cfg, workdir, extra=(), environ=None, timeout=840, heap='2g', workers=None, spec=SPEC):
    """Run TLC; returns (ok, text)."""
    meta = tempfile.mkdtemp(prefix='meta', dir=workdir)
    e = env()
    e.update(environ or {})
    cmd = ['java', '-XX:+UseParallelGC', '-Xss32m', '-Xmx' + heap, '-Djava.io.tmpdir=' + meta, '-cp', TLA_CP, 'tlc2.TLC',
           '-workers', str(workers or 'auto'), '-metadir', meta, '-config', cfg] + list(extra) + [module]
    try:
        p = subprocess.run(cmd, cwd=spec, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Error('TLC timed out on %s' % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    text = '\n'.join(l for l in p.stdout.decode(errors='replace').splitlines()
                     if not l.startswith(('Parsing file', 'Semantic processing')))
    return p.returncode, text


def tlc_stats(text):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', text)
    if m:
        return int(m[-1][0]), int(m[-1][1])
    m = re.findall(r'(\d+) states checked', text)
    return (int(m[-1]), int(m[-1])) if m else (0, 0)


def tlc_results(text, tag='RESULT'):
    out = []
    pre = '"%s ' % tag
    for line in text.splitlines():
        if line.startswith(pre):
            out.append(json.loads(json.loads(line)[len(tag) + 1:]))
    return out


def check_traces(module, traces, outdir, chunk=None, environ=None, heap='3g'):
    """Validate traces with TLC trace spec `module`; returns ({id: result},
    states)."""
    n = min(4, max(1, len(traces) // 20))
    parts = [traces[w::n] for w in range(n)]

    def again(part, path, w):
        with open(path, 'w') as f:
            for t in part:
                f.write(json.dumps(t) + '\n')
        return tlc(module + '.tla', module + '.cfg', outdir, environ=dict(environ or {}, TRACES=path), workers=2, heap=heap)

    def one(w):
        path = os.path.join(outdir, '%s-%d.ndjson' % (module, w))
        with open(path, 'w') as f:
            for t in parts[w]:
                f.write(json.dumps(t) + '\n')
        e = dict(environ or {}, TRACES=path)
        rc, text = tlc(module + '.tla', module + '.cfg', outdir, environ=e, workers=2, heap=heap)
        res = tlc_results(text)
        if rc in EVALUATION:
            raise diverging(module, parts[w], outdir, lambda part: again(part, path, w))
        if rc != 0 or len(res) != len(parts[w]):
            raise Error('TLC on %s failed (%s):\n%s' % (module, rc, text[-3000:]))
        return res, tlc_stats(text)

    results = {}
    gen = dist = 0
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        for res, (g, d) in ex.map(one, range(n)):
            for r in res:
                results[r['id']] = r
            gen += g
            dist += d
    return results, (gen, dist)


def check_table(module, cases, outdir, heap='2g', environ=None, parts=None, timeout=840):
    """Judge cases with TLC module `module`; returns ({id: violations}, states)."""
    n = parts or min(NCPU // 2, max(1, len(cases) // 50))
    parts = [cases[w::n] for w in range(n)]

    def judge(part, w):
        path = os.path.join(outdir, '%s-%d.ndjson' % (module, w))
        with open(path, 'w') as f:
            for t in part:
                f.write(json.dumps(t) + '\n')
        return tlc(module + '.tla', module + '.cfg', outdir, environ=dict(environ or {}, TRACES=path), workers=2,
                   heap=heap, timeout=timeout)

    def one(w):
        rc, text = judge(parts[w], w)
        if rc in EVALUATION:
            raise diverging(module, parts[w], outdir, lambda part: judge(part, w))
        gen, dist = tlc_stats(text)
        # Each case is two states: read and judged.
        if rc != 0 or dist != 2 * len(parts[w]):
            raise Error('TLC on %s failed (%s):\n%s' % (module, rc, text[-3000:]))
        return tlc_results(text), (gen, dist)

    bad = {}
    gen = dist = 0
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        for res, (g, d) in ex.map(one, range(n)):
            for r in res:
                bad[r['id']] = r['viol']
            gen += g
            dist += d
    return bad, (gen, dist)
