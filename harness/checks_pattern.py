"""File patterns (C25)."""
import itertools
import random

import lib

ALPHA = [ord(c) for c in 'ab*?[]!-{,}.\\^\n']
NAMECHARS = [ord(c) for c in 'ab[]!-{,}.\\^\n*?']


def names_for(p, r):
    """Names that this pattern could match."""
    base = [[], [97], [98], [97, 98], [97, 97], [98, 97], [10], [97, 10], [10, 97], [97, 10, 98], [97, 98, 97],
            [46], [46, 97], [94], [92], [93], [91], [97, 45, 98], [33, 97]]
    out = [tuple(n) for n in base]
    out.append(tuple(p))
    for _ in range(14):
        n = []
        k = 0
        while k < len(p):
            c = p[k]
            k += 1
            if c == 42:
                n += [r.choice(NAMECHARS) for _ in range(r.choice([0, 1, 2]))]
            elif c == 63:
                n.append(r.choice(NAMECHARS))
            elif c in (91, 123) and r.random() < 0.8:
                # Some piece of what's inside.
                e = k
                while e < len(p) and p[e] not in (93, 125):
                    e += 1
                inside = p[k:e]
                if c == 91:
                    n.append(r.choice(inside) if inside and r.random() < 0.7 else r.choice(NAMECHARS))
                else:
                    opts = [[]]
                    for x in inside:
                        if x == 44:
                            opts.append([])
                        else:
                            opts[-1].append(x)
                    n += r.choice(opts)
                k = e + 1
            else:
                n.append(c)
        if n and r.random() < 0.25:
            n[r.randrange(len(n))] = r.choice(NAMECHARS)
        if r.random() < 0.1:
            n.append(10)
        out.append(tuple(n))
    out = list(dict.fromkeys(out))
    r.shuffle(out)
    if r.random() < 0.3:
        out.append(r.choice(out))
    return [list(n) for n in out]


def random_pattern(r, depth=2):
    out = []
    for _ in range(r.choice([1, 2, 2, 3, 4])):
        x = r.random()
        if x < 0.3:
            out += [r.choice([97, 98, 99, 46])]
        elif x < 0.45:
            out.append(42)
        elif x < 0.55:
            out.append(63)
        elif x < 0.75:
            out.append(91)
            if r.random() < 0.4:
                out.append(33)
            if r.random() < 0.2:
                out.append(93)
            for _ in range(r.choice([0, 1, 2, 3])):
                if r.random() < 0.3:
                    a, b = sorted(r.sample([97, 98, 99, 100, 48, 57], 2))
                    out += [a, 45, b]
                else:
                    out.append(r.choice([97, 98, 99, 94, 45, 92, 91, 33, 44, 125, 123, 38, 126, 124]))
            if r.random() < 0.9:
                out.append(93)
        elif x < 0.93 and depth > 0:
            out.append(123)
            n = r.choice([0, 1, 2, 2, 3])
            for k in range(n):
                if k:
                    out.append(44)
                if r.random() < 0.85:
                    out += random_pattern(r, depth - 1)
            if r.random() < 0.85:
                out.append(125)
        else:
            out.append(r.choice(ALPHA + [36, 43, 40, 41, 124, 233]))
    return out


def fn_cases(seed, n, exhaustive):
    cases = []

    def add(p):
        r = random.Random('%s/%s' % (seed, p))
        cases.append({'id': 'fn-%d' % len(cases), 'mode': 'fnmatch', 'p': list(p), 'names': names_for(list(p), r),
                      'bytes': r.random() < 0.1, 'case': r.random() < 0.3})
    for length in range(exhaustive + 1):
        for p in itertools.product(ALPHA, repeat=length):
            add(p)
    r = random.Random(seed)
    for _ in range(n):
        add(random_pattern(r))
    return cases


def judge_fn(c, cases):
    d = c.sub('fn')
    out = lib.run_workers('fnworker.py', cases, d)
    table = []
    for it, o in zip(cases, out):
        if 'crash' in o:
            raise lib.crashed(it['id'], o['crash'])
        table.append(dict(id=it['id'], p=it['p'], names=it['names'], yes=o['yes'], filtered=o['filtered'], error=o['error']))
    bad, (gen, dist) = lib.check_table('FnMatch', table, d)
    c.count('states', dist)
    c.count('patterns', len(table))
    c.count('matches_judged', sum(len(t['names']) for t in table))
    by = {t['id']: t for t in table}
    for it in cases:
        for v in bad.get(it['id'], ()):
            t = by[it['id']]
            p = ''.join(map(chr, it['p']))
            n = ''.join(map(chr, it['names'][v['n'] - 1])) if v['n'] else ''
            what = {'match': 'matches %r' % n, 'nomatch': 'does not match %r' % n, 'error': 'ends with ' + t['error'],
                    'filter': 'filters other names than it matches'}[v['clause']]
            c.violation('fnmatch %r %r' % (p, n), 'pattern %r %s' % (p, what), {'case': it})
    c.sample({'pattern': ''.join(map(chr, table[-1]['p'])),
              'matches': [''.join(map(chr, table[-1]['names'][k - 1])) for k in table[-1]['yes']]})


NAMES = ['a', 'b', 'ab', 'ba', 'a.c', 'b.c', '.a', '.b.c', '[a]', '{a}', 'a,b', 'x*', '*', '?', '**', 'a\nb', 'a]', '{', '[', 'a-b', 'abc']
PARTS = ['a', 'b', 'ab', '*', '*', '**', '**', '?', 'a*', '*.c', '.*', '.a', '[ab]', '[!a]', '[!a]*', '{a,b}', '{a,b}*', '*b*', '[a', '{a',
         '??', '***', '**a', '[[]*', 'a[!]]', '.**', '[]a]', '*]', '{a,{b,ab}}', '{*.c,b}', 'x*', 'a,b', '*.*', '*.*']


def codes(t):
    return [ord(c) for c in t]


def a_tree(r):
    tree = {}

    def fill(base, depth):
        for n in r.sample(NAMES, r.choice([0, 1, 2, 3, 4]) if depth else r.choice([2, 3, 4, 5])):
            k = r.choice('dddfffl' if depth < 2 else 'dffl')
            tree[base + (n,)] = k
            if k == 'd':
                fill(base + (n,), depth + 1)
            if len(tree) > 24:
                return
    fill((), 0)
    return tree


def a_pattern(r, tree):
    if r.random() < 0.6 and tree:
        # Something that is there, changed a little.
        parts = list(r.choice(sorted(tree)))
        for k in range(len(parts)):
            x = r.random()
            if x < 0.35:
                parts[k] = r.choice(PARTS)
            elif x < 0.45:
                parts[k] = parts[k][0] + '*'
            elif x < 0.5 and len(parts) > 1:
                parts[k] = '?' + parts[k][1:]
        if r.random() < 0.3:
            parts.insert(r.randrange(len(parts) + 1), '**')
    else:
        parts = [r.choice(PARTS) for _ in range(r.choice([1, 2, 2, 3]))]
    # More than two of them take too long in deep trees.
    while sum(p == '**' for p in parts) > 2:
        parts.remove('**')
    if r.random() < 0.15:
        parts.append('')
    elif r.random() < 0.05:
        parts += ['no-such', '**']
    return '/'.join(parts)


def glob_cases(seed, n):
    cases = []
    for k in range(n):
        r = random.Random('%s/g%d' % (seed, k))
        tree = a_tree(r)
        qs = []
        for _ in range(12):
            x = r.random()
            if x < 0.12:
                dirs = [()] + sorted(p for p in tree if tree[p] == 'd')
                q = {'kind': 'find', 'base': [codes(t) for t in r.choice(dirs)], 'pats': [codes(r.choice(PARTS))] if r.random() < 0.7 else [],
                     'excl': [], 'dirs': r.random() < 0.5, 'how': ''}
            elif x < 0.22 and tree:
                t = '/'.join(r.choice(sorted(tree)))
                if r.random() < 0.2:
                    t += 'x'
                q = {'kind': 'escape', 'text': codes(t), 'pats': [codes(t)], 'excl': [], 'how': r.choice(['glob', 'path'])}
            else:
                how = r.choice(['glob', 'glob', 'bytes', 'path', 'path', 'all', 'nested'])
                m = r.choice([1, 1, 2, 3]) if how in ('all', 'nested') else 1
                q = {'kind': 'glob', 'pats': [codes(a_pattern(r, tree)) for _ in range(m)], 'how': how,
                     'excl': [codes(a_pattern(r, tree)) for _ in range(r.choice([0, 0, 1, 2]))] if how not in ('glob', 'bytes') else [],
                     'plain': r.random() < 0.5}
            q['abs'] = r.random() < 0.3
            qs.append(q)
        cases.append({'id': 'gl-%d' % k, 'mode': 'glob', 'tree': [{'p': [codes(t) for t in p], 'k': v} for p, v in tree.items()], 'qs': qs})
    return cases


def judge_glob(c, cases):
    d = c.sub('gl')
    out = lib.run_workers('fnworker.py', cases, d, environ={'FN_TMP': d})
    table = []
    for it, o in zip(cases, out):
        if 'crash' in o:
            raise lib.crashed(it['id'], o['crash'])
        qs = []
        for q, got in zip(it['qs'], o['qs']):
            q = dict(q, got=got['got'], parts=got['parts'], error=got['error'], escaped=got['escaped'])
            if q['kind'] == 'escape':
                # The answer is about the escaped pattern.
                q['pats'] = [[x for ch in q['text'] for x in ([91, ch, 93] if ch in (42, 63, 91, 123) else [ch])]]
            qs.append(q)
        table.append(dict(id=it['id'], tree=it['tree'], qs=qs))
    bad, (gen, dist) = lib.check_table('Glob', table, d)
    c.count('states', dist)
    c.count('trees', len(table))
    c.count('globs', sum(len(t['qs']) for t in table))
    c.count('files_found', sum(len(q['got']) for t in table for q in t['qs']))
    by = {t['id']: t for t in table}
    for it in cases:
        for v in bad.get(it['id'], ()):
            q = by[it['id']]['qs'][v['q'] - 1]
            pats = [''.join(map(chr, p)) for p in q['pats']]
            w = v['what'] if isinstance(v['what'], str) else ''.join(map(chr, v['what']))
            what = {'extra': 'finds %r' % w, 'missing': 'does not find %r' % w, 'error': 'ends with ' + w, 'twice': 'finds something twice',
                    'order': 'has the files in another order than the patterns', 'escape': 'is escaped to %r' % w}[v['clause']]
            c.violation('%s %r %r %s' % (q['kind'], pats, w, v['clause']), '%s %r %s' % (q['how'] or 'find', pats, what),
                        {'case': dict(it, qs=[it['qs'][v['q'] - 1]])})
    q = table[-1]['qs'][-1]
    c.sample({'globs': [''.join(map(chr, p)) for p in q['pats']], 'finds': [''.join(map(chr, p)) for p in q['got']]})


def run(c):
    deep = c.tier == 'thorough'
    judge_fn(c, fn_cases('%d' % c.seed, 60000 if deep else 3000, 4 if deep else 3))
    judge_glob(c, glob_cases('%d' % c.seed, 6000 if deep else 400))


def replay(c, r):
    if r['case']['mode'] == 'glob':
        judge_glob(c, [r['case']])
    else:
        judge_fn(c, [r['case']])
