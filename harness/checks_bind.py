"""Binding of arguments (C26)."""
import itertools
import random

import lib

NAMES = ['a', 'b', 'c', 'd', 'self', 'function', 'kw', 'kwargs', 'args', 'key', 'cls', 'obj', 'srcs', 'dsts', 'name', '_a']
VALUES = [1, 2, 3]


def a_signature(r, method, cached):
    names = r.sample([n for n in NAMES if not (method and n == 'self')], 7)
    if r.random() < 0.6:
        names = ['a', 'b', 'c', 'd', 'e', 'args', r.choice(['kw', 'kwargs', 'opts'])]
    sig = []
    first = cached and not method
    npo = r.choice([0, 0, 0, 1, 2])
    npk = r.choice([0, 1, 1, 2, 3])
    if npo + npk > 5:
        npk = 5 - npo
    nd = r.choice([0, 0, 1, 2, 9])
    pos = [{'n': names[k], 'k': 'po' if k < npo else 'pk', 'd': npo + npk - k <= nd} for k in range(npo + npk)]
    if first:
        pos = [{'n': 'ctx', 'k': 'po' if npo else 'pk', 'd': False}] + pos
    sig += pos
    rest = names[npo + npk:]
    if r.random() < 0.3:
        sig.append({'n': 'args' if 'args' in rest else rest[-1], 'k': 'va', 'd': False})
        rest.remove(sig[-1]['n'])
    for _ in range(r.choice([0, 0, 1, 2])):
        if len(rest) > 1:
            sig.append({'n': rest.pop(0), 'k': 'ko', 'd': r.random() < 0.5})
    if r.random() < 0.35:
        sig.append({'n': rest[-1], 'k': 'vk', 'd': False})
    return sig


def a_call(r, sig, ctx, method):
    pos = [p for p in sig if p['k'] in ('po', 'pk')]
    n = r.choice([0, 1, len(pos), len(pos), len(pos), len(pos) + 1, max(0, len(pos) - 1)])
    args = [r.choice(VALUES) for _ in range(n)]
    if ctx and args:
        args[0] = 7
    kws = {}
    for k, p in enumerate(sig):
        if p['k'] in ('va', 'vk'):
            if r.random() < 0.1:
                kws[p['n']] = r.choice(VALUES)
        elif p['k'] == 'ko' or pos.index(p) >= n:
            if r.random() < (0.5 if p['d'] else 0.93):
                # Sometimes the value of the default, and sometimes by position only.
                kws[p['n']] = 1001 + k if p['d'] and r.random() < 0.4 else r.choice(VALUES)
        elif r.random() < 0.05:
            kws[p['n']] = r.choice(VALUES)
    if r.random() < (0.5 if sig and sig[-1]['k'] == 'vk' else 0.07):
        kws[r.choice(['x', 'y', '_z', 'function', 'self', 'args'])] = r.choice(VALUES)
    if method:
        # A bound method has its own.
        kws.pop('self', None)
    if ctx and 'ctx' in kws:
        if sig[0]['k'] == 'po':
            # The wrapper takes the context itself, and by its name too.
            del kws['ctx']
        else:
            kws['ctx'] = 7
    kws = list(kws.items())
    r.shuffle(kws)
    return {'args': args, 'kws': [{'n': a, 'v': b} for a, b in kws]}


def respell(r, sig, call):
    """The same call written in another way, if there is one."""
    call = {'args': list(call['args']), 'kws': list(call['kws'])}
    pos = [p for p in sig if p['k'] in ('po', 'pk')]
    if call['args'] and len(call['args']) <= len(pos) and r.random() < 0.6:
        p = pos[len(call['args']) - 1]
        if p['k'] != 'po' and all(x['n'] != p['n'] for x in call['kws']):
            call['kws'].append({'n': p['n'], 'v': call['args'].pop()})
    for k, p in enumerate(sig):
        given = p in pos and pos.index(p) < len(call['args']) or any(x['n'] == p['n'] for x in call['kws'])
        if p['d'] and not given and r.random() < 0.5:
            call['kws'].append({'n': p['n'], 'v': 1001 + k})
    r.shuffle(call['kws'])
    return call


def cases(seed, n, ncached):
    out = []
    # All small signatures with all small calls.
    for k, kinds in enumerate(itertools.product(['-', 'po', 'po=', 'pk', 'pk='], ['-', 'pk', 'pk='], ['', 'va'], ['-', 'ko', 'ko='], ['', 'vk'])):
        sig = []
        for name, kind in zip('abcde', kinds):
            if kind not in ('-', ''):
                sig.append({'n': name, 'k': kind.rstrip('='), 'd': kind.endswith('=')})
        pos = [p for p in sig if p['k'] in ('po', 'pk')]
        if any(a['d'] and not b['d'] for a, b in zip(pos, pos[1:])):
            continue
        calls = []
        for nargs in range(4):
            for m in range(4):
                for kws in itertools.combinations('abdx', m):
                    calls.append({'args': list(range(1, nargs + 1)), 'kws': [{'n': w, 'v': 5 + j} for j, w in enumerate(kws)]})
        out.append({'id': 'bs-%d' % k, 'mode': 'bind', 'sig': sig, 'method': k % 2 == 1, 'cached': False, 'false': k % 3 == 1, 'calls': calls})
    for k in range(n + ncached):
        r = random.Random('%s/b%d' % (seed, k))
        cached = k >= n
        method = r.random() < 0.4
        sig = a_signature(r, method, cached)
        calls = []
        for _ in range(10):
            if calls and r.random() < 0.4:
                calls.append(respell(r, sig, r.choice(calls)))
            else:
                calls.append(a_call(r, sig, cached and not method, method))
        out.append({'id': 'b-%d' % k, 'mode': 'bind', 'sig': sig, 'method': method, 'cached': cached, 'false': r.random() < 0.3, 'calls': calls})
    return out


WHAT = {
    'accepted': 'bind_args accepts what Python rejects', 'rejected': 'bind_args rejects what Python accepts',
    'bound': 'bind_args gives the parameters other values', 'cachedaccepted': 'a cached call accepts what Python rejects',
    'cachedrejected': 'a cached call rejects what Python accepts', 'answer': 'a cached call has the answer of another call',
    'reran': 'a cached call ran again though one like it was answered', 'notran': 'a cached call did not run',
}


def show(sig, method, call):
    import fnworker
    return 'f(%s) called as f(%s)' % (fnworker.signature(sig, method), ', '.join(
        [str(a) for a in call['args']] + ['%s=%s' % (x['n'], x['v']) for x in call['kws']]))


def judge(c, cs):
    d = c.sub('bind')
    out = lib.run_workers('fnworker.py', cs, d, environ={'FN_TMP': d})
    table = []
    for it, o in zip(cs, out):
        if 'crash' in o:
            raise lib.crashed(it['id'], o['crash'])
        table.append(dict(id=it['id'], sig=it['sig'], calls=it['calls'], python=o['python'], bound=o['bound'], cached=o['cached']))
    bad, (gen, dist) = lib.check_table('Bind', table, d)
    c.count('states', dist)
    c.count('signatures', len(table))
    c.count('calls', sum(len(t['calls']) for t in table))
    c.count('cached_calls', sum(len(t['cached']) for t in table))
    c.count('rejected_by_python', sum(p['rejected'] for t in table for p in t['python']))
    by = {t['id']: t for t in table}
    for it in cs:
        for v in bad.get(it['id'], ()):
            s = show(it['sig'], it['method'], it['calls'][v['n'] - 1])
            if v['clause'] == 'model':
                raise lib.Error('the specification disagrees with Python about %s: %s' % (s, by[it['id']]['python'][v['n'] - 1]))
            c.violation('%s %s' % (v['clause'], s), WHAT[v['clause']] + ': ' + s, {'case': it})
    c.sample({'call': show(cs[-1]['sig'], cs[-1]['method'], cs[-1]['calls'][-1]), 'seen': table[-1]['cached'][-1:]})


def run(c):
    deep = c.tier == 'thorough'
    judge(c, cases('%d' % c.seed, 12000 if deep else 800, 6000 if deep else 500))


def replay(c, r):
    judge(c, [r['case']])
