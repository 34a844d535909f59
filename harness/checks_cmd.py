"""Command lines of compilers and linkers (C24)."""
import os
import random

import lib

INC = ['inc', 'sub/inc', '/usr/x', 'a b', 'src', '', '..', 'é']
MAC = ['A', 'B=1', 'C="x y"', 'A=2', 'D(x)=x']
WARN = ['all', 'no-x', 'error', 'extra']
FLAGS = ['-fPIC', '-O0', '-std=c99', '--param', 'x=1', '-funroll', '-pipe', '-x', 'c', '-Wl,-z,now', '-Xq']
PATHS = ['/usr/lib/x', 'libs', 'a b', 'sub/l', '']
EXT = ['m', 'pthread', 'dl', 'z.1']
LD = ['-Wl,--as', '-lfirst', '-u', 'sym', '-T', 'file.ld']
MACH = ['sse', 'arch=native', '32', '']
EMPTY = {'flags': [], 'includes': [], 'macros': [], 'warnings': [], 'libpaths': [], 'external_libs': [], 'ldlibs': [], 'libs': [],
         'debug': 'none', 'profile': 'none', 'optimize': 'none', 'machine_flags': [], 'arch': '', 'include_source_dirs': 'none'}
STATE = ['none', 'none', 'yes', 'no']


def some(r, pool, p=0.5, most=3):
    if r.random() > p:
        return []
    return [r.choice(pool) for _ in range(r.randint(1, most))]


def opts(r, nodes, p=0.5, call=True):
    o = dict(EMPTY, flags=some(r, FLAGS, p), includes=some(r, INC, p), macros=some(r, MAC, p), warnings=some(r, WARN, p), libpaths=some(r, PATHS, p),
             external_libs=some(r, EXT, p), ldlibs=some(r, LD, p), debug=r.choice(STATE), profile=r.choice(STATE), optimize=r.choice(STATE),
             machine_flags=some(r, MACH, p), arch=r.choice(['', '', '', 'i386', 'ppc']))
    if nodes:
        o['libs'] = [r.randint(1, len(nodes)) for _ in range(r.choice([0, 1, 2, 3]))]
        if not call or r.random() < 0.7:
            o['libs'] = list(dict.fromkeys(o['libs']))
    if call:
        o['include_source_dirs'] = r.choice(['none', 'none', 'yes', 'no'])
    return o


def libraries(r, n):
    nodes = []
    for k in range(n):
        rich = r.random() < 0.75
        name = r.choice(['n%d', 'n-%d', 'n.%d', 'libn%d', 'n_%d.so']) % k
        d = r.choice(['', 'l', 'l/m', '/x/y', 'o p'])
        if d.startswith('/'):
            d = 'abs'
        ext = r.choice(['.a', '.so', '.dylib'])
        deps = sorted(set(r.randint(1, k) for _ in range(r.choice([0, 1, 2, 3]))), key=lambda x: r.random()) if k and rich else []
        nodes.append({'name': name, 'dir': d, 'path': (d + '/' if d else '') + 'lib' + name + ext, 'rich': rich, 'aspath': r.random() < 0.5, 'deps': deps,
                      'libpaths': some(r, PATHS[:2], 0.3) if rich else [], 'ext': some(r, EXT, 0.3) if rich else []})
    return nodes


def base(r, nodes, p=0.5):
    b = opts(r, nodes, p, False)
    b.pop('include_source_dirs')
    b.update(pre_flags=some(r, ['-pre', '-q1', '-q2'], 0.3), debug_flags=r.choice([['-g'], ['-g3', '-ggdb']]), profile_flags=r.choice([['-pg'], ['-p']]),
             optimize_flags=r.choice([['-O2'], ['-O3', '-fast']]))
    return b


def direct(r, k):
    nodes = libraries(r, r.choice([0, 0, 1, 2, 3, 5, 8]))
    calls = []
    for n in range(r.choice([1, 2, 3])):
        srcs = r.sample(['a.c', 'sub/b.c', '/abs/c.c', 'src/d e.c', 'f.o', 'sub/g.o'], r.choice([1, 1, 2, 3]))
        calls.append({'srcs': srcs, 'srcdirs': [os.path.dirname(s) for s in srcs], 'dst': r.choice(['', 'out', 'build/x y']), 'aspath': r.random() < 0.5,
                      'pre': r.choice([[], [], ['-c'], ['-shared'], ['-c', '-fPIC']]), 'opts': opts(r, nodes, r.choice([0.2, 0.5, 0.9]))})
    return {'id': 'd-%d' % k, 'mode': 'direct', 'exe': r.choice(['/usr/bin/gcc', 'cc', '/opt/a b/gcc']), 'nodes': nodes, 'base': base(r, nodes, r.choice([0.1, 0.5])), 'calls': calls}


def ladder(k, n, width):
    """Many paths to few libraries."""
    nodes = []
    for j in range(n):
        for w in range(width):
            nodes.append({'name': 'n%dx%d' % (j, w), 'dir': 'd%d' % w, 'path': 'd%d/libn%dx%d.a' % (w, j, w), 'rich': True, 'aspath': False,
                          'deps': [(j - 1) * width + v + 1 for v in range(width)] if j else [], 'libpaths': [], 'ext': []})
    r = random.Random('ladder')
    b = dict(base(r, [], 0), libs=[], debug='none', profile='none', optimize='none', arch='')
    call = {'srcs': ['a.c'], 'srcdirs': [''], 'dst': 'out', 'aspath': False, 'pre': [], 'opts': dict(EMPTY, libs=[len(nodes), len(nodes) - width + 1])}
    return {'id': 'ladder-%d' % k, 'mode': 'direct', 'exe': 'gcc', 'nodes': nodes, 'base': b, 'calls': [call]}


PLATFORMS = [['posix', 'mingw', 'windows'], ['posix', 'cygwin', 'windows'], ['windows', 'win32'], ['posix', 'bsd', 'darwin', 'macosx'], ['posix', 'linux'], ['posix']]


def build(r, k):
    nodes = libraries(r, r.choice([0, 0, 1, 2, 3, 5]))
    b = base(r, nodes, r.choice([0.1, 0.4]))
    b['flags'] = []
    calls = []
    linked = r.choice(['static', 'shared'])
    for n in range(r.choice([1, 2, 3])):
        how = r.choice(['compile', 'link_lib', 'link_exe', 'build_lib', 'build_lib', 'build_exe', 'build_exe'])
        o = opts(r, nodes, r.choice([0.2, 0.5, 0.9]))
        o['libs'] = list(dict.fromkeys(o['libs']))
        made = how.startswith('build')
        ext = '.o' if how.startswith('link') else '.c'
        srcs = [r.choice(['s%d', 'sub/s%d', 'sub/m/s%d', 's.%d', 'a b/s%d']) % (10 * n + j) + ext for j in range(1 if how == 'compile' else r.choice([1, 1, 2, 3]))]
        objs = ['objs/x%d.o' % (10 * n + j) for j in range(r.choice([0, 0, 1, 2]))] if made else []
        dst = r.choice(['t%d', 'bin/t%d', 'bin/x/t%d', 't.%d']) % n
        if how == 'compile':
            dst = r.choice(['', 'out/y%d', 'y%d.z', 'y%d.c']) if r.random() < 0.5 else ''
            dst = dst % n if dst else ''
            o['libs'] = []
        if how == 'link_lib' or how == 'link_exe' or made:
            pass
        calls.append({'how': how, 'srcs': srcs, 'stems': [s[:-2] for s in srcs], 'srcdirs': [os.path.dirname(s) for s in srcs], 'objs': objs,
                      'objdirs': sorted({os.path.dirname(s) for s in objs}), 'dst': dst, 'dststem': os.path.splitext(dst)[0], 'dstdir': os.path.dirname(dst) + '/' * ('/' in dst),
                      'dstname': os.path.basename(dst), 'lflags': some(r, ['-lf1', '-lf2', '-rdynamic'], 0.4) if made else [], 'opts': o})
    return {'id': 'm-%d' % k, 'mode': 'builder', 'tool': r.choice(['gcc', 'gcc', 'clang', 'gxx']), 'exe': '/usr/bin/gcc', 'linked': linked, 'nodes': nodes, 'base': b,
            'platform': r.choice([[], [], []] + PLATFORMS),
            'build': {'flags': some(r, ['-xf', '-yf'], 0.3), 'compile_flags': some(r, ['-cf', '-fPIC', '-cg'], 0.3), 'link_flags': some(r, ['-kf', '-kg'], 0.3),
                      'exe_link_flags': some(r, ['-ef'], 0.3), 'lib_link_flags': some(r, ['-shared', '-bf'], 0.3) if linked == 'shared' else [],
                      'obj_suffix': r.choice(['', '', '.obj', '.po']), 'lib_prefix': r.choice(['', '', 'my']), 'lib_suffix': r.choice(['', '', '.ar']),
                      'exe_suffix': r.choice(['', '', '.bin'])}, 'calls': calls}


ARCHES = ['irix', 'irix64', 'unix', 'posix', 'linux', 'gnu/linux', 'solaris', 'sunos', 'cygwin', 'cygwin_nt-5.1', 'nocygwin', 'mingw', 'mingw32_nt-6.1', 'windows',
          'win32', 'windows32', 'nt', 'win64', 'windows64', 'freebsd', 'netbsd', 'openbsd', 'darwin', 'osx', 'iphone', 'iphone-sim', 'iphone-simulator']

WHAT = {'failed': 'the call failed', 'commands': 'another number of commands ran', 'program': 'another program ran', 'lost': 'is not in the command', 'extra': 'should not be in the command',
        'order': 'is not where it should be in the command', 'archive': 'is not the command that makes the library', 'not compiled': 'was not compiled once',
        'returned': 'was returned', 'libraries of the answer': 'has other libraries than it was linked with', 'names': 'has other names of files'}


def cases(seed, n):
    out = [{'id': 'a-%d' % k, 'mode': 'names', 'arch': a} for k, a in enumerate(ARCHES)]
    out += [ladder(0, 30, 2), ladder(1, 12, 4), ladder(2, 60, 1)]
    for k in range(n):
        r = random.Random('%s/c%d' % (seed, k))
        out.append((direct if r.random() < 0.5 else build)(r, k))
    return out


def judge(c, cs):
    d = c.sub('cmd')
    out = lib.run_workers('cmdworker.py', cs, d, environ={'CMD_TMP': d})
    table = []
    for it, o in zip(cs, out):
        if 'crash' in o:
            raise lib.crashed(it['id'], o['crash'])
        table.append(dict(it, got=o['got']))
    bad, (gen, dist) = lib.check_table('Commands', table, d)
    c.count('states', dist)
    c.count('cases', len(table))
    c.count('calls', sum(len(t.get('calls', ())) for t in table))
    c.count('commands', sum(len(g['cmds']) for t in table if 'calls' in t for g in t['got']))
    by = {t['id']: t for t in table}
    for it in cs:
        for v in bad.get(it['id'], ()):
            t = by[it['id']]
            what = '%s %s: %s' % (v['what'], WHAT[v['clause']], [' '.join(x) for x in t['got'][v['n'] - 1]['cmds']] if 'calls' in t else t['got'])
            c.violation('%s %s %s' % (it['id'], v['clause'], v['n']), what, {'case': it})
    c.sample({'case': {k: v for k, v in table[-1].items() if k in ('base', 'tool', 'linked')}, 'commands': [g['cmds'] for g in table[-1]['got']]})


def run(c):
    judge(c, cases('%d' % c.seed, 20000 if c.tier == 'thorough' else 1500))


def replay(c, r):
    judge(c, [r['case']])
