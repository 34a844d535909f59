"""Platform options (C27)."""
import random

import lib

FEATURES = ['posix', 'linux', 'windows', 'darwin', 'mingw']
KEYS = ['flags', 'macros', 'libs']


def a_value(r, t):
    if t == 'none':
        return {'t': t, 'v': []}
    if t == 'other':
        return {'t': t, 'v': ['x'] * r.randrange(4)}
    pool = 'abcd' if t == 'str' else ['a', 'b', 'c', 'ab', 'd']
    n = r.choice([0, 1, 2, 3])
    if t == 'set':
        return {'t': t, 'v': sorted(r.sample(pool, n))}
    return {'t': t, 'v': [r.choice(pool) for _ in range(n)]}


def cases(seed, n):
    out = []
    for k in range(n):
        r = random.Random('%s/o%d' % (seed, k))
        # A type for each key, so that the operations are defined.
        types = {key: r.choice(['str', 'list', 'list', 'tuple', 'set']) for key in KEYS}
        entries = []
        for _ in range(r.choice([0, 1, 2, 2, 3, 4])):
            match = []
            for f in r.sample(FEATURES, r.choice([0, 1, 1, 2])):
                match.append({'neg': r.random() < 0.35, 'f': f})
            changes = []
            for key in r.sample(KEYS, r.choice([1, 1, 2, 3])):
                for op in r.sample('=+-', r.choice([1, 1, 2])):
                    t = types[key]
                    if op == '=' and r.random() < 0.07:
                        # Later operations start from nothing.
                        t = 'none'
                    changes.append({'key': key, 'op': op, 'val': a_value(r, t)})
            entries.append({'match': match, 'changes': changes})
        uses = []
        for _ in range(r.choice([1, 2, 3])):
            how = r.choice(['parse', 'parse', 'function', 'passing', 'method', 'other', 'cached', 'named'])
            given = [{'key': key, 'val': a_value(r, types[key] if r.random() < 0.93 else 'none')}
                     for key in r.sample(KEYS, r.choice([0, 1, 2, 3]))]
            if how != 'named' and r.random() < 0.3:
                given.append({'key': 'other', 'val': a_value(r, r.choice(['other', 'list', 'str']))})
            guess = r.random() < 0.2
            uses.append({'how': how, 'given': given, 'guess': guess, 'none': r.random() < 0.5 or how == 'parse',
                         'platform': ['posix', 'linux'] if guess else r.sample(FEATURES, r.choice([0, 1, 2, 3]))})
        out.append({'id': 'o-%d' % k, 'mode': 'options', 'entries': entries, 'uses': uses})
    return out


WHAT = {'error': 'ends with an error', 'missing': 'is not there', 'extra': 'is there without being set', 'value': 'has another value',
        'given': 'was changed in the values of the caller', 'options': 'are changed by using them'}


def judge(c, cs):
    d = c.sub('options')
    out = lib.run_workers('fnworker.py', cs, d, environ={'FN_TMP': d})
    table = []
    for it, o in zip(cs, out):
        if 'crash' in o:
            raise lib.crashed(it['id'], o['crash'])
        uses = []
        for u, g in zip(it['uses'], o['uses']):
            uses.append(dict(u, **g))
        table.append(dict(id=it['id'], entries=it['entries'], after=o['after'], uses=uses))
    bad, (gen, dist) = lib.check_table('Options', table, d)
    c.count('states', dist)
    c.count('option_lists', len(table))
    c.count('uses', sum(len(t['uses']) for t in table))
    c.count('changes', sum(len(e['changes']) for t in table for e in t['entries']))
    by = {t['id']: t for t in table}
    for it in cs:
        for v in bad.get(it['id'], ()):
            what = 'the option %r %s' % (v['key'], WHAT[v['clause']]) if v['clause'] not in ('error', 'options') else (
                v['key'] if v['clause'] == 'error' else 'the options ' + WHAT['options'])
            how = it['uses'][v['n'] - 1]['how'] if v['n'] else ''
            c.violation('%s %s %s %s' % (it['id'], v['clause'], how, v['key']), '%s: %s' % (how, what), {'case': it})
    c.sample({'entries': table[-1]['entries'][:1], 'use': table[-1]['uses'][-1]})


def run(c):
    judge(c, cases('%d' % c.seed, 30000 if c.tier == 'thorough' else 2500))


def replay(c, r):
    judge(c, [r['case']])
