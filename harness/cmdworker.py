"""Records the commands that the real builders of C programs run.

usage: cmdworker.py IN.ndjson OUT.ndjson

Nothing is executed: a stand-in for Context.execute notes the command and
creates the output that it names.
"""
import inspect
import json
import os
import shutil
import signal
import subprocess
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(REPO, 'lib'))
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')

import fbuild.builders.c
import fbuild.builders.c.clang
import fbuild.builders.c.gcc as gcc
import fbuild.builders.cxx.gxx
import fbuild.builders.platform as platform
import fbuild.context
from fbuild.path import Path

LOG = []
TOOLS = {'gcc': gcc, 'clang': fbuild.builders.c.clang, 'gxx': fbuild.builders.cxx.gxx}


KNOWN = set(inspect.signature(fbuild.context.Context.execute).parameters) | set(inspect.signature(subprocess.Popen).parameters)


def execute(self, cmd, *args, **kwargs):
    for k in kwargs:
        if k not in KNOWN:
            raise TypeError('execute() got an unexpected keyword argument %r' % k)
    cmd = [str(x) for x in cmd]
    LOG.append(cmd)
    if os.path.basename(cmd[0]) == 'uname':
        return b'Linux\n', b''
    out = None
    if '-o' in cmd:
        out = cmd[cmd.index('-o') + 1]
    elif os.path.basename(cmd[0]).startswith(('ar', 'myar')):
        out = [x for x in cmd if x.endswith(('.a', '.lib', '.ar'))][0]
    if out and os.path.dirname(out) and os.path.isdir(os.path.dirname(out)):
        with open(out, 'w') as f:
            f.write(' '.join(cmd))
    if '-MF' in cmd:
        with open(cmd[cmd.index('-MF') + 1], 'w') as f:
            f.write('x.o:\n')
    return b'5', b''


fbuild.context.Context.execute = execute


def libraries(nodes, at):
    made = []
    for n in nodes:
        deps = [made[k - 1] for k in n['deps']]
        if n['rich']:
            made.append(fbuild.builders.c.Library(n['path'], libs=deps, libpaths=n['libpaths'], external_libs=n['ext']))
        else:
            made.append(Path(n['path']) if n['aspath'] else n['path'])
    return made


def options(o, made=None):
    kw = {}
    for k, v in o.items():
        if k == 'libs':
            if v or made is not None:
                kw[k] = [made[n - 1] for n in v]
        elif isinstance(v, list):
            if v:
                kw[k] = list(v)
        elif k in ('debug', 'profile', 'optimize', 'include_source_dirs'):
            if v != 'none':
                kw[k] = v == 'yes'
        elif v:
            kw[k] = v
    return kw


def context(root, engine='cache'):
    ctx = fbuild.context.make_default_context(['--database=' + engine, '--state-file=' + root + '/.state/db'])
    ctx.create_buildroot()
    ctx.db.connect()
    ctx.logger.verbose = -100
    return ctx


def clean(cmd):
    """Without the way the headers are asked for."""
    out = []
    skip = False
    for x in cmd:
        if skip:
            skip = False
        elif x == '-MF':
            skip = True
        elif x not in ('-MMD', '-MD'):
            out.append(x)
    return out


def touch(paths):
    for p in paths:
        if os.path.dirname(p):
            os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'w').close()


def direct(it, ctx):
    """The compiler as such."""
    made = libraries(it['nodes'], '.')
    cc = gcc.Gcc(ctx, Path(it['exe']), src_suffix='.c', **options(it['base'], made))
    out = []
    for call in it['calls']:
        del LOG[:]
        r = {'error': '', 'cmds': [], 'ret': ''}
        out.append(r)
        try:
            args = ([Path(s) if call['aspath'] else s for s in call['srcs']],) + ((call['dst'],) if call['dst'] else ())
            cc(*args, **options(dict(call['opts'], pre_flags=call['pre']), made))
        except BaseException as e:
            r['error'] = '%s: %s' % (type(e).__name__, e)
        r['cmds'] = [clean(c) for c in LOG]
    return out


def builder(it, ctx):
    """Compiling and linking by builders."""
    made = libraries(it['nodes'], '.')
    kw = options(it['base'], made)
    for k, v in it['build'].items():
        if v:
            kw[k] = list(v) if isinstance(v, list) else v
    if it['platform']:
        kw['platform'] = set(it['platform'])
    for n in it['nodes']:
        touch([n['path']])
    mod = TOOLS[it['tool']]
    b = (mod.static if it['linked'] == 'static' else mod.shared)(ctx, Path(it['exe']), **kw)
    out = []
    for call in it['calls']:
        touch(call['srcs'] + call['objs'])
        del LOG[:]
        r = {'error': '', 'cmds': [], 'ret': '', 'kept': True}
        out.append(r)
        try:
            how = call['how']
            o = options(call['opts'], made)
            lk = {}
            if how.startswith('build'):
                o['cflags'] = o.pop('flags', [])
                if call['lflags']:
                    o['lflags'] = list(call['lflags'])
                if call['objs']:
                    o['objs'] = [Path(p) for p in call['objs']]
                ck = {}
                for k in ('debug', 'profile', 'optimize', 'machine_flags', 'arch'):
                    if k in o:
                        ck[k] = o.pop(k)
                lk = {k: ck[k] for k in ck if how == 'build_exe' or it['linked'] == 'shared'}
                if 'libpaths' in o:
                    v = o.pop('libpaths')
                    if how == 'build_exe' or it['linked'] == 'shared':
                        lk['libpaths'] = v
                if ck:
                    o['ckwargs'] = ck
                if lk:
                    o['lkwargs'] = lk
                ret = getattr(b, how)(call['dst'], [Path(p) for p in call['srcs']], **o)
                want = o
            elif how == 'compile':
                ret = b.compile(Path(call['srcs'][0]), *([call['dst']] if call['dst'] else []), **o)
            else:
                if how == 'link_lib' and it['linked'] == 'static':
                    o = {k: v for k, v in o.items() if k in ('libs', 'external_libs', 'flags', 'ldlibs', 'libpaths')}
                else:
                    o.pop('include_source_dirs', None)
                ret = getattr(b, how)(call['dst'], [Path(p) for p in call['srcs']], **o)
                want = o
            r['ret'] = str(ret)
            if how in ('link_lib', 'build_lib', 'link_exe', 'build_exe'):
                # What the answer remembers of the libraries.
                r['kept'] = list(ret.libs) == list(want.get('libs', []))
                if 'lib' in how:
                    r['kept'] = r['kept'] and list(ret.external_libs) == list(want.get('external_libs', [])) and \
                        list(ret.libpaths) == list(lk.get('libpaths', want.get('libpaths', [])))
        except BaseException as e:
            r['error'] = '%s: %s' % (type(e).__name__, e)
        r['cmds'] = [clean(c) for c in LOG]
    return out


def names(it, ctx):
    p = it['arch']
    s = platform.guess_platform(ctx, p)
    return {'set': sorted(s), 'obj': platform.obj_suffix(ctx, s), 'sobj': platform.static_obj_suffix(ctx, s), 'slibp': platform.static_lib_prefix(ctx, s),
            'slibs': platform.static_lib_suffix(ctx, s), 'dobj': platform.shared_obj_suffix(ctx, s), 'dlibp': platform.shared_lib_prefix(ctx, s),
            'dlibs': platform.shared_lib_suffix(ctx, s), 'exe': platform.exe_suffix(ctx, s), 'path': platform.runtime_env_libpath(ctx, s)}


def too_long(*args):
    raise TimeoutError('this took too long')


def main():
    src, dst = sys.argv[1:3]
    signal.signal(signal.SIGALRM, too_long)
    with open(src) as f, open(dst, 'w') as o:
        for line in f:
            it = json.loads(line)
            root = os.path.join(os.environ['CMD_TMP'], 'd%d' % os.getpid())
            os.mkdir(root)
            os.mkdir(root + '/.state')
            os.chdir(root)
            signal.alarm(60)
            ctx = context(root)
            try:
                r = {'got': globals()[it['mode']](it, ctx)}
            except Exception:
                r = {'crash': traceback.format_exc()[-2500:]}
            signal.alarm(0)
            ctx.db.shutdown()
            ctx.scheduler.shutdown()
            os.chdir('/')
            shutil.rmtree(root)
            r['id'] = it['id']
            o.write(json.dumps(r) + '\n')
            o.flush()


if __name__ == '__main__':
    main()
