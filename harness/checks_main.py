"""The command line (C21)."""
import copy
import random

import lib

FAIL = ['error', 'error', 'config', 'exec', 'plain', 'attr', 'attr', 'key', 'import', 'os', 'stop', 'assert', 'type', 'empty', 'index', 'pipe',
        'exit', 'exittext', 'kbd', 'sigint']


def steps(r, many):
    out = []
    for _ in range(r.choice([0, 1, 2, 3] if many else [0, 0, 1, 2])):
        op = r.choice(['work', 'work', 'par', 'tmp', 'mark'])
        ks = r.sample(range(1, 6), r.choice([1, 2, 3]))
        out.append({'op': op, 'ks': ks if op in ('work', 'par') else [], 'n': '', 'how': ''})
        if op == 'mark':
            out[-1]['n'] = r.choice(['one', 'two', 'one', 'two', 'gone'] if r.random() < 0.2 else ['one', 'two'])
    if r.random() < (0.1 if many else 0.12):
        how = r.choice(['plain', 'plain', 'map', 'cached'])
        kind = r.choice(FAIL if how == 'plain' else FAIL[:-4])
        out.insert(r.randrange(len(out) + 1), {'op': 'fail', 'ks': [], 'n': kind, 'how': how})
    return out


def a_run(r, prev):
    names = ['build', 'configure', 'mine', 'other']
    defs = []
    for n in names:
        if r.random() < 0.95:
            defs.append({'n': n, 'how': r.choice(['module', 'module', 'named']) if n in ('build', 'configure') else r.choice(['named', 'function']),
                         'steps': steps(r, True)})
        if r.random() < 0.06 and n in ('build', 'configure'):
            defs.append({'n': n, 'how': 'named', 'steps': steps(r, True)})
    r.shuffle(defs)
    if prev and r.random() < 0.5:
        defs = prev['defs']
    n = r.choice([0, 0, 1, 1, 2, 3])
    given = [r.choice(names if r.random() < 0.98 else ['unknown']) for _ in range(n)]
    if r.random() < 0.4:
        given.append('install')
        if r.random() < 0.5:
            given = r.choice([['install'], ['configure', 'install'], ['build', 'install'], ['configure', 'configure', 'install'],
                              ['configure', 'build', 'install'], ['build', 'configure', 'install'], ['mine', 'install'],
                              ['configure', 'mine', 'install']])
    if r.random() < 0.08:
        given.insert(r.randrange(len(given) + 1), 'install')
    hooks = [h for h in ('arguments', 'post_arguments', 'pre_options', 'post_options') if r.random() < 0.15]
    return {'given': given, 'defs': defs, 'pre_there': r.random() < 0.5, 'post_there': r.random() < 0.5, 'pre': steps(r, False),
            'post': steps(r, False), 'hooks': hooks, 'returns': r.random() < 0.5, 'add': r.choice(['', '', 'mine', 'mine', 'install', 'unknown']) if hooks else '',
            'mine': r.random() < (0.5 if hooks else 0.03), 'where': r.randrange(2), 'ignored': r.random() < 0.15,
            'clean': r.random() < 0.08, 'rebuild': r.choice(['--rebuild', '--configure']) if r.random() < 0.1 else '', 'nosave': r.random() < 0.1,
            'jobs': r.choice([1, 1, 1, 2, 4]), 'engine': r.choice(['default', 'pickle', 'cache', 'sqlite', 'sqlite']),
            'root': 'out' if r.random() < 0.15 else 'build', 'broken': r.choice(['import', 'error', 'none']) if r.random() < 0.05 else ''}


def cases(seed, n):
    out = []
    for k in range(n):
        r = random.Random('%s/a%d' % (seed, k))
        runs = []
        for _ in range(r.choice([1, 2, 3, 4, 5])):
            runs.append(a_run(r, runs[-1] if runs else None))
            if runs[-1]['ignored'] and r.random() < 0.7:
                runs[-1]['defs'] = copy.deepcopy(runs[-1]['defs'])
                for d in runs[-1]['defs']:
                    d['steps'].insert(0, {'op': 'fail', 'ks': [], 'n': 'sigint', 'how': r.choice(['plain', 'map'])})
        if r.random() < 0.6:
            e = r.choice(['pickle', 'sqlite', 'default'])
            for run in runs:
                run['engine'] = e
        out.append({'id': 'a-%d' % k, 'runs': runs})
    return out


WHAT = {'hangs': 'the build does not end', 'status': 'the exit status does not tell whether everything succeeded', 'events': 'unexpected',
        'tmp': 'files in the temporary directory', 'clean': 'cleaning left the build directory', 'gone': 'the build directory is gone',
        'installed': 'other files are installed than were marked'}


def judge(c, cs):
    d = c.sub('main')
    out = lib.run_workers('mainworker.py', cs, d, environ={'FN_TMP': d})
    table = [dict(it, got=[{k: v for k, v in g.items() if k != 'out'} for g in o['runs']]) for it, o in zip(cs, out)]
    bad, (gen, dist) = lib.check_table('Main', table, d)
    c.count('states', dist)
    c.count('histories', len(table))
    c.count('runs', sum(len(t['runs']) for t in table))
    c.count('runs_that_failed', sum(g['status'] != 0 for t in table for g in t['got']))
    c.count('events', sum(len(g['events']) for t in table for g in t['got']))
    for it, o in zip(cs, out):
        for v in bad.get(it['id'], ()):
            run = it['runs'][v['n'] - 1]
            c.violation('%s %s %d' % (it['id'], v['clause'], v['n']),
                        '%s: %s (run %d: targets %s)' % (WHAT[v['clause']], v['what'], v['n'], run['given']),
                        {'case': it, 'out': o['runs'][v['n'] - 1]})
    c.sample({'given': table[-1]['runs'][-1]['given'], 'got': table[-1]['got'][-1]})


def run(c):
    judge(c, cases('%d' % c.seed, 6000 if c.tier == 'thorough' else 400))


def replay(c, r):
    judge(c, [r['case']])
