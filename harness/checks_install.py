"""Installation (C22)."""
import random

import lib

MODES = [0o644, 0o755, 0o600, 0o444, 0o640, 0o555]


def cases(seed, n):
    out = []
    for k in range(n):
        r = random.Random('%s/i%d' % (seed, k))
        sources = r.sample(['a', 'b.txt', 'sub/c', 'sub/a', 'x y', 'd'], r.choice([1, 2, 3]))
        texts = iter(range(1000))

        def a_file(p):
            if r.random() < 0.22:
                return {'p': p, 'k': 'l', 'c': r.choice(['a', 'nowhere', '../d', 'b.txt', '/nonexistent/x']), 'm': 0}
            return {'p': p, 'k': 'f', 'c': 'text %d\n' % next(texts), 'm': r.choice(MODES)}
        tree = [a_file(s) for s in sources]
        tree.append({'p': 'precious', 'k': 'f', 'c': 'precious', 'm': 0o644})
        rounds = []
        marks = []
        polkit = r.random() < 0.06
        for n_ in range(r.choice([1, 2, 2, 3])):
            edits = []
            if n_ and r.random() < 0.6:
                for s in r.sample(sources, r.choice([1, 1, min(2, len(sources))])):
                    edits.append(a_file(s))
            if not marks or r.random() < 0.5:
                marks = []
                always = 'A' * (r.random() < 0.2)
                for _ in range(r.choice([1, 1, 2, 3])):
                    s = r.choice(sources)
                    marks.append({'file': s, 'name': s.split('/')[-1], 'dest': ['D'] if r.random() < 0.93 else ['D', 'dd'],
                                  'prefix': r.choice([[], ['usr'], ['usr', 'local'], ['p']]),
                                  'sub': r.choice([['bin'], ['share', 'x'], [], ['lib'], ['p', 'q']]),
                                  'absolute': r.random() < 0.25, 'rename': r.choice(['', '', 'new', 'a', 'z.txt']),
                                  'perms': r.choice([-1, -1] + MODES), 'how': always + ''.join(h for h in 'APSTF' if r.random() < 0.3)})
            # What could be in the way.
            for mk in marks:
                x = r.random()
                p = '/'.join(mk['dest'] + ([] if mk['absolute'] else mk['prefix']) + mk['sub'] + [mk['rename'] or mk['name']])
                if x < 0.12:
                    edits.append({'p': p, 'k': 'f', 'c': 'old %d\n' % next(texts), 'm': r.choice(MODES)})
                elif x < 0.24:
                    up = '../' * p.count('/')
                    edits.append({'p': p, 'k': 'l', 'm': 0, 'c': r.choice(['nowhere', '.', up + 'precious', up + mk['file']])})
                elif x < 0.3 and n_:
                    edits.append({'p': p, 'k': 'no', 'c': '', 'm': 0})
            # Nothing can be below a file.
            names = {e['p'] for e in edits if e['k'] != 'no'} | {
                '/'.join(mk['dest'] + ([] if mk['absolute'] else mk['prefix']) + mk['sub'] + [mk['rename'] or mk['name']]) for mk in marks}
            seen = names | {x for rd in rounds for x in rd['names']}
            if any(a != b and b.startswith(a + '/') for a in seen for b in seen):
                break
            rounds.append({'edits': edits, 'marks': marks, 'polkit': polkit,
                           # Installs from another directory than it was marked in.
                           'elsewhere': all('A' in mk['how'] for mk in marks) and r.random() < 0.6, 'names': sorted(names)})
        if rounds:
            out.append({'id': 'i-%d' % k, 'mode': 'install', 'tree': tree, 'rounds': rounds})
    return out


WHAT = {'error': 'installing failed', 'missing': 'a file is not there', 'extra': 'a file was put there that nobody asked for',
        'kind': 'a file is a link or the other way round', 'contents': 'a file has other contents', 'mode': 'a file has other permissions'}


def judge(c, cs):
    d = c.sub('install')
    out = lib.run_workers('fnworker.py', cs, d, environ={'FN_TMP': d})
    table = []
    for it, o in zip(cs, out):
        if 'crash' in o:
            raise lib.crashed(it['id'], o['crash'])
        table.append(dict(it, rounds=[dict(rd, **g) for rd, g in zip(it['rounds'], o['rounds'])]))
    bad, (gen, dist) = lib.check_table('Install', table, d)
    c.count('states', dist)
    c.count('histories', len(table))
    c.count('installations', sum(len(t['rounds']) for t in table))
    c.count('with_polkit', sum(rd['polkit'] for t in table for rd in t['rounds']))
    c.count('files_installed', sum(len(rd['marks']) for t in table for rd in t['rounds']))
    for it in cs:
        for v in bad.get(it['id'], ()):
            c.violation('%s %s %s' % (it['id'], v['clause'], v['path']),
                        '%s: %s (installation %d)' % (WHAT[v['clause']], v['path'], v['n']), {'case': it})
    c.sample({'marks': table[-1]['rounds'][-1]['marks'], 'files': table[-1]['rounds'][-1]['got']})


def run(c):
    judge(c, cases('%d' % c.seed, 12000 if c.tier == 'thorough' else 700))


def replay(c, r):
    judge(c, [r['case']])
