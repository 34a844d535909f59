"""Histories of edits and builds of C programs with the real compilers.

usage: ccworker.py IN.ndjson OUT.ndjson
"""
import json
import os
import shutil
import subprocess
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(REPO, 'lib'))
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')

import fbuild.builders.c.clang
import fbuild.builders.c.gcc
import fbuild.builders.cxx.gxx
import fbuild.context
from fbuild.path import Path

LOG = []
_execute = fbuild.context.Context.execute


def execute(self, cmd, *args, **kwargs):
    LOG.append(cmd if isinstance(cmd, str) else [str(x) for x in cmd])
    return _execute(self, cmd, *args, **kwargs)


fbuild.context.Context.execute = execute

TOOLS = {'gcc': fbuild.builders.c.gcc, 'clang': fbuild.builders.c.clang, 'gxx': fbuild.builders.cxx.gxx}


def source(st, heads):
    """The text of a source or of a header."""
    out = []
    n = st['n']
    if st['kind'] == 'h':
        out += ['#ifndef GUARD%d' % n, '#define GUARD%d' % n, '#define H%d "%d"' % (n, st['ver'])]
    here = os.path.dirname(st['p'])
    for q in st['incl']:
        name = os.path.relpath(q['p'], q['root']) if q['root'] else os.path.relpath(q['p'], here or '.')
        out.append(('#include <%s>' if q['angle'] else '#include "%s"') % name)
    if st['broken']:
        out.append('#error broken')
    if st['kind'] == 'h':
        out.append('#endif')
        return '\n'.join(out) + '\n'
    out += ['#ifdef __cplusplus', 'extern "C" {', '#endif', 'int printf(const char*, ...);']
    for u in st['calls']:
        out.append('void u%d(void);' % u)
    out.append('void u%d(void);' % n)
    out += ['#ifdef __cplusplus', '}', '#endif', '#ifndef M', '#define M 0', '#endif']
    out += ['void u%d(void) {' % n, 'printf("u%d %d %%d", M);' % (n, st['ver'])]
    for h in heads:
        out += ['#ifdef H%d' % h, 'printf(" %d=%%s", H%d);' % (h, h), '#endif']
    out.append('printf("\\n");')
    for u in st['calls']:
        out.append('u%d();' % u)
    out.append('}')
    if n == 0 or st['main']:
        out.append('int main(void) { u%d(); return 0; }' % n)
    return '\n'.join(out) + '\n'


def parse(text):
    out = []
    for line in text.decode().splitlines():
        w = line.split(' ')
        out.append({'u': int(w[0][1:]), 'ver': int(w[1]), 'm': int(w[2]),
                    'hs': [{'h': int(x.split('=')[0]), 'ver': int(x.split('=')[1])} for x in w[3:]]})
    return out


def builder_of(ctx, it):
    mod = TOOLS[it['tool']]
    return (mod.static if it['linked'] == 'static' else mod.shared)(ctx, **({'exe': it['exe']} if it.get('exe') else {}))


def build(it, st, root, objs):
    """One build: returns what was seen."""
    r = {'ok': True, 'error': '', 'compiled': [], 'commands': 0, 'runs': []}
    ctx = fbuild.context.make_default_context([
        '--state-file=' + root + '/.state/db', '--log-file=' + root + '/.state/log', '--database-engine=' + it['engine'],
        '--jobs=%d' % it['jobs']])
    exes = []
    try:
        ctx.create_buildroot()
        ctx.load_configuration()
        ctx.logger.verbose = -100
        b = builder_of(ctx, it)
        del LOG[:]
        made = {}
        try:
            for t in st['targets']:
                kw = {'libs': [made[l] for l in t['libs']]} if t['libs'] else {}
                if it['root']:
                    inc = os.path.abspath(it['root']) if it.get('absolute') else it['root']
                    kw['includes'] = [Path(inc) if t['aspath'] else inc]
                if t['macro']:
                    kw['macros'] = ['M=%d' % t['macro']]
                if t['objs']:
                    ckw = {k: v for k, v in kw.items() if k in ('includes', 'macros')}
                    kw['objs'] = [b.compile(Path(p), Path('single/' + t['name'] + '/' + p), **ckw) for p in t['objs']]
                srcs = [Path(p) for p in t['units']] if t['aspath'] else t['units']
                made[t['name']] = (b.build_lib if t['kind'] == 'lib' else b.build_exe)(t['dir'] + t['name'], srcs, **kw)
                if t['kind'] == 'exe':
                    exes.append((t['name'], made[t['name']]))
        except Exception as e:
            r['ok'] = False
            r['error'] = '%s: %s' % (type(e).__name__, e)
        cmds = list(LOG)
        if r['ok']:
            for name, exe in exes:
                run = {'t': name, 'lines': [], 'error': ''}
                r['runs'].append(run)
                try:
                    out, err = b.run([exe], quieter=1)
                    run['lines'] = parse(out)
                except Exception as e:
                    run['error'] = '%s: %s' % (type(e).__name__, e)
    finally:
        ctx.save_configuration()
        ctx.db.shutdown()
        ctx.scheduler.shutdown()
    if not r['ok']:
        # Other tasks may have ended after the one that failed.
        cmds = list(LOG)
    r['commands'] = len(cmds)
    for cmd in cmds:
        if '-c' in cmd:
            obj = cmd[cmd.index('-o') + 1]
            for x in cmd:
                if x in it['sources']:
                    for t in st['targets']:
                        if obj.startswith(('build/obj/' + t['dir'] + t['name'] + '/', 'build/single/' + t['name'] + '/')):
                            objs[obj] = {'p': x, 't': t['name']}
                            r['compiled'].append(objs[obj])
    return r


def outputs(linked):
    out = []
    for b, ds, fs in os.walk('build'):
        for f in fs:
            p = os.path.join(b, f)
            if not p.startswith(('build/.', 'build/log', 'build/tmp/')):
                out.append(p)
    return sorted(out)


def history(it):
    root = os.path.join(os.environ['CC_TMP'], 'c%d-%s' % (os.getpid(), it['id']))
    os.mkdir(root)
    os.mkdir(root + '/.state')
    os.mkdir(root + '/tmp')
    os.environ['TMPDIR'] = root + '/tmp'
    import tempfile
    tempfile.tempdir = root + '/tmp'
    os.chdir(root)
    clock = 1000000000
    objs = {}
    out = {'steps': []}
    try:
        for st in it['steps']:
            r = {}
            out['steps'].append(r)
            op = st['op']
            if op == 'write':
                os.makedirs(os.path.dirname(st['p']) or '.', exist_ok=True)
                with open(st['p'], 'w') as f:
                    f.write(source(st, it['heads']))
            if op in ('write', 'touch'):
                clock += 10
                os.utime(st['p'], (clock, clock))
            elif op == 'delete':
                os.remove(st['p'])
            elif op == 'drop':
                # Some of the outputs that are there.
                there = outputs(it)
                r['gone'] = []
                for x in st['some']:
                    if there:
                        p = there.pop(int(x * len(there)))
                        os.remove(p)
                        r['gone'].append(objs.get(p) or {'p': '', 't': ''})
            elif op == 'build':
                r.update(build(it, st, root, objs))
    finally:
        os.chdir('/')
        shutil.rmtree(root)
    return out


def main():
    src, dst = sys.argv[1:3]
    os.environ['LC_ALL'] = 'C.UTF-8'
    with open(src) as f, open(dst, 'w') as o:
        for line in f:
            it = json.loads(line)
            try:
                r = globals()[it['mode']](it)
            except Exception:
                r = {'crash': traceback.format_exc()[-1500:]}
            r['id'] = it['id']
            o.write(json.dumps(r) + '\n')
            o.flush()


if __name__ == '__main__':
    main()
