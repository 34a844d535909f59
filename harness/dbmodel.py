"""Histories that TLC generates from DBModel, for small programs.

A program is data for the specification and for the real code: some calls of
cached functions (one source and one output at most, and a list of actions),
what the user may edit, and which calls the builds make.
"""
import json
import os
import random

import lib


def act(t, a, when='', text=''):
    return {'t': t, 'a': a, 'when': when, 'is': text}


def call(fn, src='', dst='', acts=()):
    return {'fn': fn, 'src': src, 'dst': dst, 'acts': list(acts)}


def program(calls, mains, depth, files=('a.txt', 'b.txt'), contents=('one', 'two'), edits=(), rm=(), codes=(), delfns=(), delfiles=()):
    return {'calls': calls, 'mains': mains, 'depth': depth, 'files': list(files), 'contents': list(contents),
            'edits': [list(e) for e in edits] + [[f, '-'] for f in rm],
            'codes': list(codes), 'delfns': list(delfns), 'delfiles': list(delfiles)}


def fixed(prop, deep=0):
    """The programs of a property; `deep` more steps."""
    two = [(f, c) for f in ('a.txt', 'b.txt') for c in ('one', 'two')]
    if prop == 'C01':
        return [
            program({'f1': call('f', 'a.txt'), 'f2': call('f', 'b.txt'), 'g1': call('g', 'b.txt', acts=[act('try', 'f1')])},
                    [['f1'], ['g1'], ['f1', 'f2'], ['g1', 'f1']], 6 + deep, edits=two, rm=['a.txt']),
            # The output of one is the source of the other.
            program({'f1': call('f', 'a.txt', 'o.txt', [act('write', 'o.txt')]), 'g1': call('g', 'o.txt'), 'g2': call('g', 'a.txt')},
                    [['f1', 'g1'], ['g1'], ['g2', 'f1']], 6 + deep, edits=two[:2], rm=['o.txt']),
        ]
    if prop == 'C02':
        return [
            program({'f1': call('f', acts=[act('ext', 'a.txt'), act('read', 'a.txt'),
                                           act('ext', 'b.txt', 'a.txt', 'two'), act('read', 'b.txt', 'a.txt', 'two')]),
                     'g1': call('g', acts=[act('call', 'f1')]), 'g2': call('g', acts=[act('ext', 'b.txt'), act('read', 'b.txt')])},
                    [['f1'], ['g1'], ['g2', 'g1']], 6 + deep, edits=two, rm=['b.txt']),
            program({'f1': call('f', 'a.txt', acts=[act('write', 'x.txt'), act('extdst', 'x.txt'),
                                                    act('write', 'y.txt', 'a.txt', 'two'), act('extdst', 'y.txt', 'a.txt', 'two')]),
                     'g1': call('g', acts=[act('call', 'f1')])},
                    [['f1'], ['g1']], 6 + deep, edits=two[:2], rm=['x.txt', 'y.txt']),
        ]
    if prop == 'C03':
        return [
            program({'f1': call('f', '', 'o.txt', [act('write', 'o.txt')]),
                     'g1': call('g', 'a.txt', 'p.txt', [act('write', 'p.txt'), act('call', 'f1'), act('write', 'x.txt'), act('extdst', 'x.txt')])},
                    [['f1'], ['g1'], ['g1', 'f1']], 6 + deep, edits=two[:2], rm=['o.txt', 'p.txt', 'x.txt']),
        ]
    if prop == 'C04':
        return [
            program({'f1': call('f', 'a.txt'), 'f2': call('f', 'b.txt'), 'g1': call('g', acts=[act('call', 'f1')])},
                    [['f1'], ['f2'], ['f1', 'f2'], ['g1', 'f2']], 6 + deep, edits=two[:2], codes=['f']),
        ]
    if prop == 'C05':
        return [
            program({'h1': call('h'), 'g1': call('g', acts=[act('call', 'h1')]), 'f1': call('f', acts=[act('call', 'g1')]),
                     'f2': call('f', acts=[act('call', 'h1')])},
                    [['f1'], ['g1'], ['h1'], ['f2'], ['h1', 'f1']], 6 + deep, codes=['h', 'g']),
            # What is called depends on a file, and may fail.
            program({'h1': call('h', acts=[act('failif', 'a.txt')]),
                     'g1': call('g', acts=[act('ext', 'a.txt'), act('try', 'h1'), act('call', 'h2', 'a.txt', 'bad')]),
                     'h2': call('k'), 'f1': call('f', acts=[act('call', 'g1')])},
                    [['f1'], ['g1'], ['h1']], 6 + deep, files=['a.txt'], contents=['one', 'bad'],
                    edits=[('a.txt', 'one'), ('a.txt', 'bad')], codes=['h', 'k']),
        ]
    if prop == 'C07':
        return [
            program({'f1': call('f', 'a.txt', 'o.txt', [act('write', 'o.txt'), act('ext', 'b.txt'), act('read', 'b.txt')]),
                     'g1': call('g', 'b.txt', acts=[act('call', 'f1')]), 'f2': call('f', 'b.txt', 'p.txt', [act('write', 'p.txt')])},
                    [['f1'], ['g1'], ['f2', 'g1']], 6 + deep, edits=two, rm=['o.txt'], codes=['f']),
        ]
    if prop == 'C08':
        return [
            program({'h1': call('h', 'a.txt', acts=[act('failif', 'a.txt')]),
                     'g1': call('g', acts=[act('ext', 'b.txt'), act('call', 'h1'), act('read', 'b.txt')]),
                     'f1': call('f', acts=[act('try', 'g1'), act('ext', 'a.txt')])},
                    [['f1'], ['g1'], ['h1'], ['g1', 'f1']], 6 + deep, contents=['one', 'bad'],
                    edits=[('a.txt', 'one'), ('a.txt', 'bad'), ('b.txt', 'one'), ('b.txt', 'two')], rm=['b.txt']),
        ]
    if prop == 'C11':
        return [
            program({'f1': call('f', 'a.txt'), 'f2': call('f', acts=[act('ext', 'a.txt'), act('read', 'a.txt')]),
                     'g1': call('g', 'b.txt', acts=[act('call', 'f1')]), 'g2': call('g')},
                    [['f1'], ['g1'], ['f2', 'g2'], ['g1', 'f1']], 5 + deep, edits=two[:2], delfns=['f', 'g'], delfiles=['a.txt', 'b.txt']),
        ]
    return []


def randomly(seed, depth):
    """A program of a few calls that use each other and the same files."""
    r = random.Random(seed)
    fns = ['f', 'g', 'h'][:r.choice([2, 3, 3])]
    files = ['a.txt', 'b.txt']
    calls = {}
    keys = [fn + x for fn in fns for x in ('12' if r.random() < .4 else '1')]
    outs = []
    texts = ['one', r.choice(['two', 'bad'])]
    for i, k in enumerate(keys):
        later = [q for q in keys if q[0] > k[0]]
        acts = []
        if later and r.random() < .8:
            acts.append(act(r.choice(['call', 'try']), r.choice(later), *r.choice([('', ''), ('', ''), ('a.txt', texts[1])])))
        for f in files:
            if r.random() < .35:
                w = r.choice([('', ''), ('', ''), (files[1 - files.index(f)], texts[1])])
                acts += [act('ext', f, *w), act('read', f, *w)]
                if r.random() < .3:
                    acts.append(act('failif', f))
        dst = ''
        if r.random() < .3:
            dst = 'o%s.txt' % k
            acts.insert(r.randint(0, len(acts)), act('write', dst))
            outs.append(dst)
        if r.random() < .2:
            x = 'x%s.txt' % k
            acts += [act('write', x), act('extdst', x)]
            outs.append(x)
        calls[k] = call(k[0], r.choice(files + ['']), dst, acts)
    # The whole of what a call depends on is in its sources.
    for k, c in calls.items():
        fixed = []
        seen = {c['src']}
        for a in c['acts']:
            for f in (a['when'], a['a'] if a['t'] in ('failif', 'read') else ''):
                if f and f not in seen:
                    seen.add(f)
                    fixed.append(act('ext', f))
            if a['t'] == 'ext' and not a['when']:
                seen.add(a['a'])
            fixed.append(a)
        c['acts'] = fixed
    mains = [[keys[0]]] + [r.sample(keys, r.choice([1, 1, 2])) for _ in range(2)]
    edits = [[f, c] for f in files for c in texts]
    return program(calls, [list(m) for m in mains], depth, files, texts, edits,
                   rm=r.sample(outs, min(len(outs), 1)) + ([r.choice(files)] if r.random() < .3 else []),
                   codes=r.sample(fns, r.choice([0, 1, 1, 2])))


def histories(p, workdir, timeout=300):
    """All the shortest ways to every step that DBModel allows: pairs of what
    the user did, and the trace that the model left."""
    path = os.path.join(workdir, 'program.json')
    with open(path, 'w') as f:
        f.write(json.dumps(p) + '\n')
    rc, text = lib.tlc('DBModel', 'DBModel.cfg', workdir, environ={'PROGRAM': path}, timeout=timeout, heap='4g', workers=1)
    if rc:
        raise lib.Error('DBModel: %s' % text[-3000:])
    return [(e['h'], e['ev']) for e in lib.tlc_results(text, 'EDGE')], lib.tlc_stats(text)


def maximal(hs):
    """Without the histories that others begin with."""
    begun = set()
    for h, _ in hs:
        for n in range(1, len(h)):
            begun.add(json.dumps(h[:n]))
    return [x for x in hs if json.dumps(x[0]) not in begun]


def scenario(p, h, sid, engine, prop):
    sig = {}
    for k, c in p['calls'].items():
        s = sig.setdefault(c['fn'], set())
        if c['src']:
            s.add('s')
        if c['dst']:
            s.add('d')
    functions = {}
    for fn, s in sig.items():
        params = [{'n': 'x'}]
        if 's' in s:
            params.append({'n': 's', 'a': 'OPTIONAL_SRC', 'default': None})
        if 'd' in s:
            params.append({'n': 'd', 'a': 'OPTIONAL_DST', 'default': None})
        functions[fn] = {'kind': 'fn', 'params': params, 'result': 'str'}

    def template(k):
        c = p['calls'][k]
        args = {'x': int(k[1:])}
        if c['src']:
            args['s'] = c['src']
        if c['dst']:
            args['d'] = c['dst']
        return {'fn': c['fn'], 'args': args}

    bodies = {}
    for k, c in p['calls'].items():
        acts = [{'read': '$s'}] if c['src'] else []
        for a in c['acts']:
            t = a['t']
            x = {'read': {'read': a['a']}, 'ext': {'ext': {'srcs': [a['a']]}}, 'extdst': {'ext': {'dsts': [a['a']]}},
                 'write': {'write': a['a']}, 'failif': {'failif': a['a']}}.get(t)
            if t == 'write':
                x['data'] = 'written'
            if x is None:
                x = {'call' if t == 'call' else 'trycall': template(a['a'])}
            if a['when']:
                x['when'] = [a['when'], a['is']]
            acts.append(x)
        bodies.setdefault(c['fn'], {'by': 'x', 'cases': {}, 'else': []})['cases']['n:%s.0' % k[1:]] = acts
    steps = [{'op': 'edit', 'f': f, 'c': p['contents'][0], 'mtime': 'next'} for f in p['files']]
    for s in h:
        if s[0] == 'edit':
            steps.append({'op': 'edit', 'f': s[1], 'c': None if s[2] == '-' else s[2], 'mtime': 'next'})
        elif s[0] == 'code':
            steps.append({'op': 'code', 'fn': s[1], 'v': int(s[2])})
        elif s[0] == 'run':
            steps.append({'op': 'run', 'main': [{'trycall': template(k)} for k in p['mains'][int(s[1]) - 1]]})
        elif s[0] == 'delfn':
            steps.append({'op': 'run', 'kind': 'delfn', 'fn': s[1]})
        elif s[0] == 'delfile':
            steps.append({'op': 'run', 'kind': 'delfile', 'f': s[1]})
    return {'id': sid, 'family': 'model', 'engine': engine, 'functions': functions, 'bodies': bodies, 'steps': steps, 'prop': prop}


def visible(ev):
    out = []
    for e in ev:
        if e['e'] == 'call':
            out.append('call %s' % e['fn'])
        elif e['e'] == 'exec':
            out.append('exec %s' % e['fn'])
        elif e['e'] == 'ret':
            out.append('ret %s' % e['how'])
        elif e['e'] == 'end':
            out.append('end %s' % e['status'])
    return out
