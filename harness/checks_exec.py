"""Executing commands (C19), their timeouts (C20) and what is said about them (C30)."""
import os
import random

import lib

WORDS = ['', 'a', 'two words', "it's", '"quoted"', '$HOME', '*', 'a=b', '-o', '\\', 'tab\there', 'new\nline', 'æøå', '日本', ';ls', '{}', '%s', '~', '#x',
         '`id`', '&&', '>', 'x' * 300]
PLAIN = ['a', 'b.c', '-o', 'x=1', 'path/to']
NAMES = ['A', 'LC_X', 'LD_LIBRARY_PATH', 'PATH', 'X_Y', 'MAKEFLAGS', 'a b', 'DYLD_LIBRARY_PATH']
VALUES = ['', 'v', '/some/where', 'a:b', 'with space', 'é', 'x' * 500]
SIZES = [0, 1, 2, 100, 4095, 4096, 65535, 65536, 65537, 200000]


NOTGIVEN = -99


def hexed(t):
    return os.fsencode(t).hex()


def act(op, a=0, b=0, name=''):
    return {'op': op, 'a': a, 'b': b, 'name': name}


def line(a):
    if a['op'] in 'mw':
        return '%s $%s' % (a['op'], a['name'])
    return '%s %d %d' % (a['op'], a['a'], a['b'])


def a_script(r, reads):
    acts = []
    big = r.random() < 0.4
    for _ in range(r.choice([0, 1, 2, 3, 5])):
        acts.append(act(r.choice('ooee'), r.choice(SIZES if big else SIZES[:4]), r.choice([65, 66, 10, 32, 0, 255, 195])))
    if r.random() < 0.15:
        acts.insert(r.randrange(len(acts) + 1), act('s', r.choice([1, 5, 20])))
    if reads:
        # It may start to read after it has written much.
        acts.insert(r.randrange(len(acts) + 1), r.choice([act('i'), act('i'), act('i'), act('r', r.choice([1, 100, 5000]))]))
    if r.random() < 0.1:
        acts.append(act('c'))
        acts.append(act('s', 20))
    x = r.random()
    if x < 0.3:
        acts.append(act('x', r.choice([0, 1, 2, 3, 77, 127, 255, 128 + 9])))
    elif x < 0.42:
        acts.append(act('k', r.choice([15, 9, 1, 6, 11, 2, 13])))
    return acts


def an_item(r, alone):
    how = r.choice(['list'] * 8 + ['string', 'shell', 'missing', 'notexec', 'baddir'])
    stdin = r.choice(['none', 'none', 'pipe', 'pipe', 'file'])
    data = [{'c': r.choice([65, 66, 10, 0, 255]), 'n': n} for n in (r.choice(SIZES if r.random() < 0.5 else SIZES[:4]) for _ in range(r.choice([0, 1, 2, 3])))]
    env = [{'k': hexed(k), 'v': hexed(r.choice(VALUES[:6] if how == 'shell' else VALUES))} for k in r.sample([n for n in NAMES if n != 'PATH'], r.choice([0, 0, 1, 2, 3]))]
    if how == 'shell':
        env = [x for x in env if x['k'] not in (hexed('a b'), hexed('LD_LIBRARY_PATH'))]
    has_env = not alone or r.random() < 0.6
    acts = a_script(r, r.random() < 0.7)
    if how == 'shell':
        # The shell has its own way to report signals.
        acts = [a for a in acts if a['op'] != 'k']
    cwd = how == 'baddir' or r.random() < 0.25
    libs = [hexed(r.choice(['/lib/x', 'rel', '/with space', '/é'])) for _ in range(r.choice([1, 2, 3]))] if r.random() < 0.4 else []
    return {'how': how, 'args': [hexed(r.choice(PLAIN if how == 'shell' else WORDS)) for _ in range(r.choice([0, 1, 2, 3, 6]))],
            'path': r.random() < 0.2 and how in ('list', 'missing'), 'tuple': r.random() < 0.1, 'env': env if has_env else [], 'has_env': has_env,
            'libs': [] if how == 'shell' else libs, 'stdin': stdin,
            'input': data if stdin != 'none' else [], 'out': r.choice(['pipe'] * 6 + ['null']), 'err': r.choice(['pipe'] * 5 + ['stdout', 'stdout', 'null']),
            'cwd': cwd, 'preexec': r.random() < 0.15, 'timeout': r.choice([0, 0, 0, 30000]), 'messages': r.choice([[], ['m'], ['m', 'n']]),
            'quieter': r.choice([NOTGIVEN, NOTGIVEN, 1, 2]), 'stdout_quieter': r.choice([NOTGIVEN, NOTGIVEN, 2]),
            'stderr_quieter': r.choice([NOTGIVEN, NOTGIVEN, 3]),
            'ignore': r.random() < 0.25, 'acts': acts, 'script': [line(a) for a in acts]}


def cases(seed, n):
    out = []
    for k in range(n):
        r = random.Random('%s/e%d' % (seed, k))
        threads = r.choice([1, 1, 2, 4])
        items = [an_item(r, threads == 1) for _ in range(r.choice([1, 2, 3, 4]))]
        base = [{'k': hexed(x), 'v': hexed(r.choice(VALUES[1:]))} for x in r.sample(['A', 'LC_X', 'OTHER', 'X_Y'], r.choice([0, 1, 2]))]
        if r.random() < 0.4:
            base.append({'k': hexed('LD_LIBRARY_PATH'), 'v': hexed(r.choice(['/inherited', '/a:/b', '/c d']))})
        if any(x['how'] == 'shell' for x in items):
            base = [x for x in base if len(x['v']) < 200]
        out.append({'id': 'e-%d' % k, 'mode': 'exec', 'threads': threads, 'items': items, 'base': base})
    return out


WHAT = {'outcome': 'ended otherwise', 'started': 'was started or not', 'arguments': 'got other arguments', 'environment': 'got another environment',
        'directory': 'ran in another directory', 'input': 'got other input', 'preexec': 'preexec_fn ran or not', 'piped': 'output is returned or not',
        'output': 'other output was returned', 'errors': 'other error output was returned', 'code': 'another status was reported',
        'command': 'another command was reported', 'threads': 'threads are left over', 'zombies': 'processes are left over'}


def workers(c, cs, d, n=None):
    exe = lib.build_c('probe.c', d, shared=False)
    os.chmod(exe, 0o755)
    return lib.run_workers('execworker.py', [for_worker(it) for it in cs], d, n=n, environ={'PROBE_EXE': exe})


def for_worker(it):
    if it['mode'] == 'exec':
        return dict(it, items=[{k: v for k, v in dict(x, env=x['env'] if x['has_env'] else None, libs=x['libs'] or None).items()
                                if v != NOTGIVEN} for x in it['items']])
    return it


def judge(c, cs):
    d = c.sub('exec')
    out = workers(c, cs, d)
    table = [dict(it, **{k: v for k, v in o.items() if k != 'id'}) for it, o in zip(cs, out)]
    bad, (gen, dist) = lib.check_table('Exec', table, d)
    c.count('states', dist)
    c.count('groups', len(table))
    c.count('commands', sum(len(t['items']) for t in table))
    for kind in ('ok', 'error', 'os', 'interrupt'):
        c.count('ended_' + kind, sum(o['kind'] == kind for t in table for o in t['got']))
    for it in table:
        for v in bad.get(it['id'], ()):
            what = '%s %s' % (WHAT[v['clause']], v['what'])
            if v['n']:
                x, o = it['items'][v['n'] - 1], it['got'][v['n'] - 1]
                what = 'command %d %s (%s, %s)' % (v['n'], what, x['how'], o['what'])
            c.violation('%s %s %s' % (it['id'], v['clause'], v['n']), what, {'case': [x for x in cs if x['id'] == it['id']][0]})
    c.sample({'command': table[-1]['items'][-1]['args'], 'script': table[-1]['items'][-1]['script'], 'kind': table[-1]['got'][-1]['kind']})


def command(r, **kw):
    x = {'how': 'list', 'args': [], 'path': False, 'tuple': False, 'env': [], 'libs': None, 'stdin': 'none', 'input': [], 'out': 'pipe', 'err': 'pipe',
         'cwd': False, 'preexec': False, 'timeout': 0, 'messages': [], 'ignore': r.random() < 0.2, 'code': r.choice([0, 0, 0, 3]), 'planned': 0,
         'what': 'command', 'script': []}
    x.update(kw)
    if x['out'] == 'pipe' and r.random() < 0.5:
        x['script'] = ['o %d 65' % r.choice([1, 70000])] + x['script']
    x['script'] = x['script'] + ['x %d' % x['code']]
    return x


FOREVER = 20000


def a_tree(r, killed):
    """The script of a command and what it leaves behind, and how long it takes at least."""
    script = []
    planned = 0
    if r.random() < 0.3:
        script.append('I')
    kids = r.choice([0, 0, 1, 1, 2, 3])
    life = r.choice([0, 30, 100])
    forever = r.randrange(kids + 1) if killed else -1
    for k in range(kids):
        ms = r.choice([20, 100, 300])
        hold = r.random() < 0.5
        if k == forever:
            hold, ms = True, FOREVER
        elif killed and r.random() < 0.4:
            ms = FOREVER
        script.append('%s %d %d' % (r.choice('FFG'), hold, ms))
        if hold:
            planned = max(planned, ms)
    if forever == kids:
        life = FOREVER
    script.append('s %d' % life)
    return script, max(planned, life)


def time_cases(seed, n):
    out = []
    for k in range(n):
        r = random.Random('%s/t%d' % (seed, k))
        tasks = []
        shape = r.choice(['plain', 'plain', 'plain', 'others', 'busy', 'busy'])
        for i in range(r.choice([1, 2, 3, 4])):
            killed = r.random() < 0.45
            script, planned = a_tree(r, killed)
            timeout = r.choice([200, 500, 900]) if killed else r.choice([0, 3000, 3000, 5000])
            tasks.append(command(r, script=script, planned=planned, timeout=timeout))
        if shape == 'others':
            # Commands that need other tasks to run meanwhile.
            m = r.choice([1, 2])
            for i in range(m):
                tasks.append(command(r, script=['m began%d' % i, 'w made%d' % i], timeout=r.choice([0, 15000])))
            tasks.append({'what': 'busy', 'ms': r.choice([0, 50]), 'after': ['began%d' % i for i in range(m)], 'makes': ['made%d' % i for i in range(m)]})
        elif shape == 'busy':
            # One that ends in time while another task does not let go.
            tasks.append(command(r, script=['m began', 'w made'], timeout=2000))
            tasks.append({'what': 'busy', 'ms': 3000, 'after': ['began'], 'makes': ['made']})
        r.shuffle(tasks)
        out.append({'id': 't-%d' % k, 'mode': 'time', 'threads': len(tasks), 'tasks': tasks})
    return out


TIMES = {'blamed': 'finished in time but was reported as timed out', 'spared': 'ran too long but was not reported as timed out',
         'outcome': 'ended otherwise', 'late': 'was killed much too late', 'command': 'another command was reported', 'alive': 'is still running',
         'zombies': 'is left as a zombie', 'killed': 'finished in time but something it started was killed', 'threads': 'threads are left over',
         'stuck': 'was not allowed to run while a command ran'}


def judge_time(c, cs):
    d = c.sub('time')
    out = workers(c, [dict(it, tasks=[dict(t, call=t) if t['what'] == 'command' else t for t in it['tasks']]) for it in cs], d, n=3 * lib.NCPU)
    keep = ('what', 'timeout', 'planned', 'ignore', 'code', 'ms')
    seen = ('kind', 'code', 'same', 'called', 'returned', 'alive', 'zombies', 'starts', 'ends', 'what')
    table = [{'id': it['id'], 'tasks': [{k: t.get(k, 0) for k in keep} for t in it['tasks']], 'left': o['left'],
              'got': [{k: g.get(k, 0) for k in seen} for g in o['got']]} for it, o in zip(cs, out)]
    bad, (gen, dist) = lib.check_table('Timeout', table, d)
    c.count('states', dist)
    c.count('groups', len(table))
    c.count('commands', sum(t['what'] == 'command' for x in table for t in x['tasks']))
    c.count('timed_out', sum(o['kind'] == 'timeout' for t in table for o in t['got']))
    c.count('processes', sum(len(o['starts']) for t in table for o in t['got'] if o['starts']))
    for it, t in zip(cs, table):
        for v in bad.get(it['id'], ()):
            what = '%s %s' % (TIMES[v['clause']], v['what'])
            if v['n']:
                what = 'task %d %s (%s)' % (v['n'], what, t['got'][v['n'] - 1])
            c.violation('%s %s %s' % (it['id'], v['clause'], v['n']), what, {'case': it})
    c.sample({'tasks': [x.get('script', x.get('ms')) for x in cs[-1]['tasks']], 'got': [g['kind'] for g in table[-1]['got']]})


# ------------------------------------------------------------------ C30

def spell(text, op):
    """The script that writes a text."""
    return ['%s 1 %d' % (op, b) for b in text]


def said_item(r, n):
    """n: its number, from 1."""
    def mark(k, i):
        return 'z%d%s%dz' % (n, k, i)
    how = r.choice(['list'] * 5 + ['string', 'missing'])
    args = 0 if how == 'string' else r.choice([0, 1, 2, 4])
    libs = r.choice([0, 0, 0, 1, 2])
    script = []
    lines = {'o': r.choice([0, 0, 1, 2]), 'e': r.choice([0, 0, 1, 2])}
    for k in 'oe':
        between = r.choice([b'\n', b' ', b'\n\n', b'\xff', b'\xc3\xa9\n'])
        text = between.join(mark(k, i).encode() for i in range(1, lines[k] + 1)) + r.choice([b'', b'\n', b'  \n\n'])
        script += spell(text, k)
    status = r.choice([0, 0, 0, 1, 7, -15, -9])
    script.append('x %d' % status if status >= 0 else 'k %d' % -status)
    messages = r.choice([0, 1, 2])
    quiet = [None, None, 0, 1, 2, 3]
    spaced = [r.random() < 0.2 for _ in range(args)]
    x = command(r, how=how, args=[hexed('a b ' + mark('q', i)) if sp else hexed(r.choice(['', '-I', '/x/', "it's"]) + mark('a', i))
                                  for i, sp in enumerate(spaced, 1)],
                libs=[hexed('/lib/' + mark('l', i)) for i in range(1, libs + 1)] or None, exe=mark('p', 1),
                messages=[mark('m', i) for i in range(1, messages + 1)], quieter=r.choice(quiet), stdout_quieter=r.choice(quiet[1:]),
                stderr_quieter=r.choice(quiet[1:]), color=r.choice([None, 'green', 'compile', 'no-such-colour']),
                timeout=r.choice([0, 0, 30000]), ignore=r.random() < 0.4,
                err=r.choice(['pipe', 'pipe', 'pipe', 'null']), out=r.choice(['pipe', 'pipe', 'pipe', 'null']), stdin='none')
    x['script'] = script
    judged = {'libs': libs, 'args': ['q' if sp else 'a' for sp in spaced], 'messages': messages, 'starts': how != 'missing', 'status': status,
              'out': lines['o'] if x['out'] == 'pipe' else 0, 'err': lines['e'] if x['err'] == 'pipe' else 0,
              'quieter': x['quieter'] or 0, 'oquieter': -1 if x['stdout_quieter'] is None else x['stdout_quieter'],
              'equieter': -1 if x['stderr_quieter'] is None else x['stderr_quieter']}
    return x, judged


def said_cases(seed, n):
    out = []
    for k in range(n):
        r = random.Random('%s/s%d' % (seed, k))
        items = [said_item(r, i) for i in range(1, r.choice([1, 2, 3, 5]) + 1)]
        out.append({'id': 's-%d' % k, 'mode': 'said', 'threads': r.choice([1, 1, 1, 2, 4]), 'level': r.choice([0, 0, 1, 2, 3, 4, 5]),
                    'flags': r.choice([[], [], ['--nocolor'], ['--show-threads']]), 'items': [x for x, _ in items], 'judged': [j for _, j in items]})
    return out


def judge_said(c, cs):
    d = c.sub('said')
    out = workers(c, cs, d)
    table = [{'id': it['id'], 'threads': it['threads'], 'level': it['level'], 'items': it['judged'], 'console': o['console'], 'file': o['file']}
             for it, o in zip(cs, out)]
    bad, (gen, dist) = lib.check_table('Said', table, d)
    c.count('states', dist)
    c.count('groups', len(table))
    c.count('commands', sum(len(x['items']) for x in table))
    c.count('marks_on_the_console', sum(len(x['console']) for x in table))
    c.count('marks_in_log_files', sum(len(x['file']) for x in table))
    for it, o in zip(cs, out):
        for v in bad.get(it['id'], ()):
            what = 'the %s does not say what it should about %s: %r' % (
                {'console': 'console', 'file': 'log file'}[v['clause']], 'command %d' % v['n'] if v['n'] else 'the commands, in this order', o['text'][:200])
            c.violation('%s %s %s' % (it['id'], v['clause'], v['n']), what, {'case': it})
    c.sample({'level': cs[-1]['level'], 'judged': cs[-1]['judged'][-1], 'console': out[-1]['text'][:300]})


def run_time(c):
    judge_time(c, time_cases('%d' % c.seed, 2400 if c.tier == 'thorough' else 160))


def run(c):
    if c.prop == 'C20':
        return run_time(c)
    if c.prop == 'C30':
        return judge_said(c, said_cases('%d' % c.seed, 20000 if c.tier == 'thorough' else 1200))
    judge(c, cases('%d' % c.seed, 12000 if c.tier == 'thorough' else 800))


def replay(c, r):
    {'exec': judge, 'time': judge_time, 'said': judge_said}[r['case']['mode']](c, [r['case']])
