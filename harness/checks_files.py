"""Builders of files and texts (C28)."""
import random

import lib

WORDS = ['A', 'B1', 'x_y', 'foo', 'BAR', 'a']


def codes(t):
    return [ord(ch) for ch in t]


def a_text(r, kind):
    out = ''
    for _ in range(r.choice([0, 1, 2, 4, 7])):
        w = r.choice(WORDS)
        x = r.random()
        if kind == 'format':
            out += r.choice(['{%s}' % w, '{%s}' % w, '{{', '}}', '{{%s}}' % w, w, ' ', '\n', 'é'])
            if x < 0.03:
                out += r.choice(['{', '}', '{gone}'])
        elif kind in ('conf', 'header'):
            out += r.choice(['@%s@' % w, '@%s@' % w, '@', '@@', w, ' ', '\n', '\n', '-', '@%s @' % w, '@%s' % w])
            if kind == 'header':
                out += r.choice(['', '', '\n#undef %s\n' % w, '\n#undef   %s' % w, '#undef %s' % w, '\n#undef %s ' % w, '\n #undef %s\n' % w,
                                 '\n#undef\n', '\n#undef %s-\n' % w])
            if x < 0.02:
                out += '@gone@'
            elif x < 0.04 and kind == 'header':
                out += '\n#undef gone\n'
        else:
            out += r.choice([w, w, ' ', '\n', w.lower(), w * 2, 'é', '{}', '\\', '$', '.'])
    return out + r.choice(['', '\n'])


def a_value(r, kind):
    if kind == 'subst':
        return {'t': 'str', 'v': codes(r.choice(['', 'new', 'foo', 'A', 'x.y', '\\1', 'two\nlines'])), 'items': []}
    t = r.choice(['str', 'str', 'int', 'true', 'false', 'none', 'list'])
    if kind == 'format' and t in ('list', 'none'):
        t = 'str'
    v = {'str': r.choice(['', 'v', 'some text', '@A@', '{A}', '0', '\\1']), 'int': r.choice(['0', '1', '-5', '42']), 'true': 'True', 'false': 'False',
         'none': 'None', 'list': ''}[t]
    items = [codes(r.choice(['a', 'bb', ''])) for _ in range(r.choice([0, 1, 2, 3]))] if t == 'list' else []
    return {'t': t, 'v': codes(v), 'items': items}


def a_call(r, kind, src, dst):
    call = {'kind': kind, 'src': codes(src), 'dst': codes(dst), 'slash': False, 'how2': r.choice(['', '', 'below', 'path']), 'pats': [], 'res': [],
            'how': '', 'from': [], 'to': [], 'excl': [], 'dirs': False}
    if kind in ('copy', 'move'):
        call['slash'] = r.random() < 0.3
    elif kind == 'regex':
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            m, i = r.choice([(True, False), (True, False), (False, False), (False, True), (True, True)])
            call['res'].append({'lit': codes(r.choice(WORDS + ['\\', '$', '.', 'foo\n', ' '])), 'start': r.random() < 0.3, 'end': r.random() < 0.3,
                                'm': m, 'i': i, 'plain': r.random() < 0.7, 'keep': r.random() < 0.3,
                                'before': codes(r.choice(['', 'new', '<', '\\'])), 'after': codes(r.choice(['', '>', 'A']))})
    elif kind == 'copyre':
        call['how'] = r.choice(['end', 'begin', 'group'])
        call['from'] = codes(r.choice(['.c', '.h']) if call['how'] != 'begin' else r.choice(['a', 's/', 'b.']))
        call['to'] = codes(r.choice(['.x', '', '.y.z']) if call['how'] == 'end' else r.choice(['new-', 'n/', '']))
        if r.random() < 0.3:
            call['excl'] = codes(r.choice(['b', 's/', '.h', 'tree']))
        call['dirs'] = r.random() < 0.4 and call['how'] != 'begin'
    else:
        keys = r.sample(WORDS, r.choice([len(WORDS), len(WORDS), 3]) if kind != 'subst' else r.choice([0, 1, 2, 3]))
        # The order of the patterns is the order of the words.
        keys.sort()
        if kind == 'subst' and r.random() < 0.35:
            # Also across lines.
            keys.insert(0, r.choice(['\n', r.choice(WORDS) + '\n', '\n' + r.choice(WORDS), '\n\n', ' \n']))
        call['pats'] = [{'key': codes(w), 'val': a_value(r, kind)} for w in keys]
    return call


KINDS = ['subst', 'regex', 'format', 'conf', 'header', 'copy', 'move', 'copyre']


def cases(seed, n):
    out = []
    for k in range(n):
        r = random.Random('%s/f%d' % (seed, k))
        steps = []
        now = {}

        def write(p, kind):
            t = a_text(r, kind)
            steps.append({'op': 'write', 'p': codes(p), 't': codes(t)})
            now[p] = t
        calls = []
        used = {}
        for j in range(r.choice([1, 1, 2, 3])):
            kind = r.choice(KINDS)
            if kind == 'copyre' and any(c['kind'] == 'copyre' for c in calls):
                kind = 'copy'
            if kind == 'copyre':
                src = 'tree'
                for p in r.sample(['a.c', 'b.c', 'a.h', 's/a.c', 's/b.h', 's/t/c.c', 'z'], r.choice([2, 3, 4])):
                    write('tree/' + p, 'copy')
            else:
                src = r.choice(['in%d', 'src/in%d.txt']) % j
                if r.random() < 0.97:
                    write(src, kind)
            # Every output is written by one call.
            calls.append(a_call(r, kind, src, r.choice(['out%d', 'd/out%d', 'd%d/e/out', 'new%d/f.txt']) % j))
        removed = set()
        outputs = set()
        for b in range(r.choice([1, 2, 3, 4])):
            if b:
                for _ in range(r.choice([0, 1, 1, 2])):
                    c = r.choice(calls)
                    x = r.random()
                    src = ''.join(map(chr, c['src']))
                    if c['kind'] == 'copyre':
                        there = [p for p in now if p.startswith('tree/')]
                        if there and x < 0.7:
                            write(r.choice(there), 'copy')
                        elif len(there) > 1 and x < 0.9:
                            p = r.choice(there)
                            del now[p]
                            steps.append({'op': 'delete', 'p': codes(p)})
                    elif x < 0.5:
                        write(src, c['kind'])
                    elif x < 0.75 and c['kind'] not in ('copy', 'move'):
                        # Other patterns, that were not used for this output before.
                        new = a_call(r, c['kind'], src, ''.join(map(chr, c['dst'])))
                        key = repr((new['pats'], new['res'], new['src'], new['dst']))
                        if key not in used:
                            c.update(new)
                    elif x < 0.85 and src in now and c['kind'] != 'move':
                        del now[src]
                        steps.append({'op': 'delete', 'p': c['src']})
            for c in calls:
                used[repr((c['pats'], c['res'], c['src'], c['dst']))] = 1
                if c['kind'] == 'move':
                    now.pop(''.join(map(chr, c['src'])), None)
            steps.append({'op': 'build', 'calls': [dict(c) for c in calls]})
            steps.append({'op': 'maybe', 'x': r.random(), 'y': r.random()})
        out.append({'id': 'f-%d' % k, 'mode': 'files', 'engine': r.choice(['pickle', 'sqlite']), 'steps': steps})
    for it in out:
        deletions(it)
    return out


def deletions(it):
    """Delete outputs that are certainly there: what the last build put in place of `maybe`."""
    steps = []
    for k, s in enumerate(it['steps']):
        if s['op'] == 'maybe':
            if s['x'] < 0.4 and k + 1 < len(it['steps']):
                steps.append({'op': 'delete', 'some': s['y'], 'p': []})
        else:
            steps.append(s)
    it['steps'] = steps


WHAT = {'failed': 'a builder failed', 'accepted': 'a builder did not fail', 'returned': 'a builder returned another name', 'missing': 'is not there',
        'extra': 'was written and should not be', 'contents': 'has other contents'}


def judge(c, cs):
    d = c.sub('files')
    out = lib.run_workers('fnworker.py', cs, d, environ={'FN_TMP': d})
    table = []
    for it, o in zip(cs, out):
        if 'crash' in o:
            raise lib.crashed(it['id'], o['crash'])
        steps = []
        for s, g in zip(it['steps'], o['steps']):
            if s['op'] == 'delete' and 'some' in s:
                if g.get('p') is None:
                    continue
                s = dict(op='delete', p=g['p'])
            steps.append(dict(s, ans=g['ans'], got=g['got']) if s['op'] == 'build' else s)
        table.append(dict(id=it['id'], steps=steps))
    bad, (gen, dist) = lib.check_table('Files', table, d)
    c.count('states', dist)
    c.count('histories', len(table))
    c.count('builds', sum(s['op'] == 'build' for t in table for s in t['steps']))
    c.count('builder_calls', sum(len(s['calls']) for t in table for s in t['steps'] if s['op'] == 'build'))
    c.count('builders_that_failed', sum(a['error'] for t in table for s in t['steps'] if s['op'] == 'build' for a in s['ans']))
    by = {t['id']: t for t in table}
    for it in cs:
        for v in bad.get(it['id'], ()):
            s = by[it['id']]['steps'][v['n'] - 1]
            if v['m']:
                call = s['calls'][v['m'] - 1]
                what = '%s: %s %s' % (WHAT[v['clause']], call['kind'], s['ans'][v['m'] - 1])
            else:
                what = 'the file %s %s (builders %s)' % (''.join(map(chr, v['what'])), WHAT[v['clause']], [x['kind'] for x in s['calls']])
            c.violation(KNOWN if (it['id'], v['n'], v['clause']) == ('back', 4, 'contents') else '%s %s %s' % (it['id'], v['clause'], v['n']), what, {'case': it})
    c.sample({'calls': [x['kind'] for x in table[-1]['steps'][-1].get('calls', ())],
              'files': [''.join(map(chr, x['p'])) for x in table[-1]['steps'][-1].get('got', ())]})


KNOWN = 'substitute: patterns p1, then p2, then p1 again for one output'


def back():
    """The contents of outputs are not watched: a finding."""
    def call(new):
        return {'kind': 'subst', 'src': codes('in'), 'dst': codes('out'), 'slash': False, 'how2': '', 'res': [], 'how': '', 'from': [], 'to': [],
                'excl': [], 'dirs': False, 'pats': [{'key': codes('A'), 'val': {'t': 'str', 'v': codes(new), 'items': []}}]}
    return [{'id': 'back', 'mode': 'files', 'engine': 'pickle', 'steps':
             [{'op': 'write', 'p': codes('in'), 't': codes('A')}] + [{'op': 'build', 'calls': [call(new)]} for new in ('one', 'two', 'one')]}]


def run(c):
    judge(c, back() + cases('%d' % c.seed, 15000 if c.tier == 'thorough' else 900))


def replay(c, r):
    judge(c, [r['case']])
