"""Incremental builds of C programs (C23)."""
import random

import lib

PLAIN_H = ['h%d.h', 'src/h%d.h', 'sub/h%d.h', 'h%d.hpp', 'sub/deep/h%d.h']
ODD_H = ['h %d.h', 'h#%d.h', 'h$%d.h', "h'%d.h", 'my dir/h%d.h', 'h%d.h.h', 'é%d.h', 'h(%d).h', 'a+b/h%d.h', '~h%d.h', 'h%d%%.h', 'h:%d.h', 'h%d&.h', 'h[%d].h', 'h{%d}.h', 'h*%d.h', 'h&%d.h', 'h;%d.h', 'h=%d.h', 'h%%%d.h', 'h@%d.h', '-h%d.h'.replace('-', 'x-')]
PLAIN_S = ['u%d.c', 'src/u%d.c', 'sub/u%d.c', 'sub/deep/u%d.c']
ODD_S = ['u %d.c', 'my dir/u%d.c', 'u#%d.c', 'é%d.c', 'u$%d.c', 'u%d.x.c', 'a+b/u%d.c', 'u[%d].c', 'u{%d}.c', 'u*%d.c', 'u?%d.c', 'u~%d.c', 'u(%d).c', 'u=%d.c', 'u:%d.c', "u'%d.c"]


class Gen:
    def __init__(self, r, k):
        self.r = r
        self.id = 'b-%d' % k
        self.tool = r.choice(['gcc'] * 4 + ['clang', 'gxx'])
        self.linked = r.choice(['static', 'shared'])
        odd = r.random() < 0.3
        # Headers may be found in a directory that is given.
        self.root = r.choice(['', '', 'inc', 'inc dir' if odd else 'inc/x'])
        self.absolute = r.random() < 0.3
        self.heads = []
        for n in range(r.choice([1, 2, 3, 4])):
            if self.root and r.random() < 0.5:
                p = self.root + '/' + r.choice(['h%d.h', 'in/h%d.h'] + ['h %d.h'] * odd) % n
            else:
                p = r.choice(PLAIN_H + ODD_H * odd) % n
            self.heads.append(p)
        self.ext = '.c' if self.tool != 'gxx' else r.choice(['.cc', '.cpp'])
        self.sources = []
        self.place = []
        self.single = set()
        self.new_source(main=True)
        self.libs = r.choice([[], ['l1'], ['l1', 'l2'], ['l1', 'l2']])
        # Does l1 use l2?
        self.uses = 'l2' in self.libs and r.random() < 0.6
        self.exelibs = [] if not self.libs else ['l1'] if self.uses and r.random() < 0.5 else r.sample(self.libs, len(self.libs))
        self.second = r.random() < 0.25
        if self.second:
            self.new_source(main=True)
        for _ in range(r.choice([1, 2, 3])):
            self.new_source()
        self.dirs = {t: r.choice(['', '', 'sub/', t + '/']) for t in ('l1', 'l2', 'p', 'q')}
        self.aspath = {t: r.random() < 0.5 for t in ('l1', 'l2', 'p', 'q')}
        self.macro = {t: r.choice([0, 0, 1, 2]) for t in ('l1', 'l2', 'p', 'q')}
        self.used = {}
        self.files = {}
        self.steps = []
        self.ver = 0

    def new_source(self, main=False):
        r = self.r
        n = len(self.sources)
        p = r.choice(PLAIN_S + ODD_S * (r.random() < 0.1)) % n
        self.sources.append(p[:-2] + self.ext)
        if r.random() < 0.1:
            self.single.add(self.sources[-1])
        if main:
            self.place.append('pq'[n])
        else:
            self.place.append(r.choice(['p'] + self.libs * 2))

    def level(self, n):
        return {'p': 0, 'q': 0, 'l1': 1, 'l2': 2}[self.place[n]]

    def may_call(self, a, b):
        """May unit a call unit b, wherever it is linked?"""
        pa, pb = self.place[a], self.place[b]
        if b <= a or pb in ('', 'q') or b == 0 or self.second and b == 1:
            return False
        if pa == 'p':
            return pb == 'p' or pb in self.libs
        if pa == 'q':
            return pb in self.libs
        if pa == 'l1':
            return pb == 'l1' or pb == 'l2' and self.uses
        return pb == pa

    def write(self, p, **kw):
        r = self.r
        old = self.files.get(p)
        f = dict(old or {'n': 0, 'kind': 'h', 'ver': 0, 'incl': [], 'calls': [], 'broken': False, 'main': False})
        self.ver += 1
        f.update({'ver': self.ver}, **kw)
        self.files[p] = f
        self.steps.append(dict(f, op='write', p=p))

    def includes(self, n, header):
        r = self.r
        pool = [h for k, h in enumerate(self.heads) if not (header and k <= n) and h in self.files or r.random() < 0.02 and not (header and k == n)]
        pick = r.sample(pool, min(len(pool), r.choice([0, 1, 1, 2, 3])))
        out = []
        for h in pick:
            inroot = bool(self.root) and h.startswith(self.root + '/') and r.random() < 0.9
            out.append({'p': h, 'root': self.root if inroot else '', 'angle': inroot and r.random() < 0.4})
        return out

    def calls(self, n):
        r = self.r
        pool = [m for m in range(len(self.sources)) if self.may_call(n, m)]
        must = []
        return sorted(set(must + r.sample(pool, min(len(pool), r.choice([0, 1, 2, 3])))))

    def write_header(self, k, **kw):
        old = self.files.get(self.heads[k])
        incl = old['incl'] if old and self.r.random() < 0.6 else self.includes(k, True)
        self.write(self.heads[k], **dict({'n': k, 'kind': 'h', 'incl': incl, 'broken': False}, **kw))

    def write_source(self, n, **kw):
        old = self.files.get(self.sources[n])
        incl = old['incl'] if old and self.r.random() < 0.5 else self.includes(n, False)
        calls = old['calls'] if old and self.r.random() < 0.5 else self.calls(n)
        calls = [m for m in calls if self.may_call(n, m)]
        self.write(self.sources[n], **dict({'n': n, 'kind': 's', 'incl': incl, 'calls': calls, 'broken': False, 'main': n == 0 or self.second and n == 1}, **kw))

    def targets(self):
        r = self.r
        out = []
        names = list(reversed(self.libs)) + ['p'] + ['q'] * self.second
        for t in names:
            mine = [self.sources[n] for n in range(len(self.sources)) if self.place[n] == t]
            kind = 'lib' if t in ('l1', 'l2') else 'exe'
            if not mine:
                continue
            # Some are compiled by themselves.
            objs = [s for s in mine if s in self.single]
            mine = [s for s in mine if s not in self.single]
            there = [l for l in self.libs if l in self.place]
            libs = [l for l in (self.exelibs if kind == 'exe' else ['l2'] if t == 'l1' and self.uses else []) if l in there]
            if kind == 'exe' and self.exelibs == ['l1'] and 'l2' in there and 'l1' not in there:
                libs = ['l2']
            out.append({'name': t, 'kind': kind, 'dir': self.dirs[t], 'units': mine, 'objs': objs, 'libs': libs, 'macro': self.macro[t],
                        'aspath': self.aspath[t]})
        return out

    def build(self):
        ts = self.targets()
        # Calls that were made with other arguments in between answer from the cache: a finding of its own.
        for t in ts:
            key = repr((t['units'], t['objs'], t['libs'], [x['libs'] for x in ts if x['name'] in t['libs']], t['macro']))
            seen = self.used.setdefault(t['name'], [])
            if key in seen and seen[-1] != key:
                return False
        for t in ts:
            key = repr((t['units'], t['objs'], t['libs'], [x['libs'] for x in ts if x['name'] in t['libs']], t['macro']))
            seen = self.used.setdefault(t['name'], [])
            if key not in seen:
                seen.append(key)
        self.steps.append({'op': 'build', 'targets': ts})
        return True

    def drop(self):
        r = self.r
        self.steps.append({'op': 'drop', 'some': [r.random() for _ in range(r.choice([1, 1, 1, 2, 5, 50]))]})

    def edit(self):
        r = self.r
        x = r.random()
        if x < 0.22:
            self.write_header(r.randrange(len(self.heads)))
        elif x < 0.36:
            n = r.randrange(len(self.sources))
            if self.place[n]:
                self.write_source(n)
        elif x < 0.44:
            p = r.choice(sorted(self.files))
            self.steps.append({'op': 'touch', 'p': p})
        elif x < 0.52:
            # The former contents again.
            old = [s for s in self.steps if s['op'] == 'write' and s['p'] in self.files]
            s = dict(r.choice(old))
            if all(self.may_call(s['n'], m) for m in s['calls']):
                self.steps.append(s)
                self.files[s['p']] = {k: v for k, v in s.items() if k not in ('op', 'p')}
        elif x < 0.57:
            h = r.randrange(len(self.heads))
            self.write_header(h, broken=True)
        elif x < 0.61:
            n = r.randrange(len(self.sources))
            if self.place[n]:
                self.write_source(n, broken=True)
        elif x < 0.67:
            h = r.choice(self.heads)
            if h in self.files:
                del self.files[h]
                self.steps.append({'op': 'delete', 'p': h})
        elif x < 0.78:
            self.drop()
        elif x < 0.81:
            self.macro[r.choice(['l1', 'l2', 'p', 'q'])] = 3 + len(self.steps)
        elif x < 0.87:
            self.regroup()
        elif x < 0.92:
            # One more unit.
            self.new_source()
            self.write_source(len(self.sources) - 1)
            callers = [n for n in range(len(self.sources) - 1) if self.place[n] and self.may_call(n, len(self.sources) - 1) and self.sources[n] in self.files]
            if callers:
                n = r.choice(callers)
                self.write_source(n, calls=sorted(set(self.files[self.sources[n]]['calls'] + [len(self.sources) - 1])))
        else:
            # One unit less; perhaps it is still called, but only by programs.
            n = r.randrange(len(self.sources))
            if n and not (self.second and n == 1) and self.place[n]:
                callers = [m for m in range(len(self.sources)) if self.place[m] and n in self.files[self.sources[m]]['calls']]
                keep = all(self.place[m] in 'pq' for m in callers) and r.random() < 0.7
                if not keep:
                    for m in callers:
                        self.write_source(m, calls=[u for u in self.files[self.sources[m]]['calls'] if u != n])
                self.place[n] = ''

    def settle(self):
        """Calls that are not possible any more are taken out."""
        for n, s in enumerate(self.sources):
            if self.place[n] and s in self.files:
                keep = [m for m in self.files[s]['calls'] if self.may_call(n, m)]
                if keep != self.files[s]['calls']:
                    self.write_source(n, calls=keep)

    def regroup(self):
        r = self.r
        if 'l2' in self.libs and r.random() < 0.5:
            # Libraries use each other differently.
            self.uses = not self.uses
            self.exelibs = ['l1'] if self.uses and r.random() < 0.6 else r.sample(self.libs, 2)
            self.settle()
            mine = [n for n in range(len(self.sources)) if self.place[n] == 'l1' and self.sources[n] in self.files]
            if self.uses and mine and r.random() < 0.7:
                n = r.choice(mine)
                self.write_source(n, calls=self.calls(n))
        elif self.libs:
            # A unit goes somewhere else.
            mine = [n for n in range(len(self.sources)) if self.place[n] in ('p', 'l1', 'l2') and n and not (self.second and n == 1)]
            if mine:
                n = r.choice(mine)
                self.place[n] = r.choice([x for x in ['p'] + self.libs if x != self.place[n]])
                self.settle()
                if r.random() < 0.7 and self.sources[n] in self.files:
                    self.write_source(n, calls=[m for m in self.files[self.sources[n]]['calls'] if self.may_call(n, m)])
                callers = [m for m in range(len(self.sources)) if self.place[m] == 'p' and self.may_call(m, n) and self.sources[m] in self.files]
                if callers and r.random() < 0.6:
                    m = r.choice(callers)
                    self.write_source(m, calls=sorted(set(self.files[self.sources[m]]['calls'] + [n])))

    def repair(self):
        """What may be broken is as it should be."""
        for k, h in enumerate(self.heads):
            if h in self.files and self.files[h]['broken'] or h not in self.files and any(
                    i['p'] == h for f in self.files.values() for i in f['incl']):
                self.write_header(k)
        for n, s in enumerate(self.sources):
            if self.place[n]:
                f = self.files[s]
                if f['broken'] or not all(self.may_call(n, m) for m in f['calls']):
                    self.write_source(n)
        for f in list(self.files.values()):
            for i in f['incl']:
                if i['p'] not in self.files:
                    self.write_header(self.heads.index(i['p']), incl=[])

    def case(self):
        r = self.r
        for k in reversed(range(len(self.heads))):
            if r.random() < 0.97:
                self.write_header(k)
        for n in range(len(self.sources)):
            self.write_source(n)
        if r.random() < 0.9:
            self.repair()
        self.build()
        for b in range(r.choice([2, 3, 4, 6])):
            for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
                self.edit()
            if r.random() < 0.75:
                self.repair()
            if not self.build():
                break
        return {'id': self.id, 'mode': 'history', 'tool': self.tool, 'linked': self.linked, 'root': self.root, 'absolute': self.absolute, 'heads': list(range(len(self.heads))),
                'sources': self.sources, 'engine': r.choice(['pickle', 'sqlite']), 'jobs': r.choice([1, 1, 4]), 'steps': self.steps}


WHAT = {'not compiled': 'was not compiled though what it is made from changed', 'compiled again': 'was compiled though nothing changed',
        'compiled': 'was compiled for a target it does not belong to', 'compiled after a failure': 'was compiled for a target after one that failed',
        'program failed': 'the program fails', 'program': 'the program does not behave as its sources say', 'accepted': 'the build did not fail',
        'failed': 'the build failed', 'not idle': 'commands ran though nothing changed', 'runs': 'a program is missing'}


def judge(c, cs):
    d = c.sub('cc')
    out = lib.run_workers('ccworker.py', cs, d, environ={'CC_TMP': d})
    table = []
    for it, o in zip(cs, out):
        if 'crash' in o:
            raise lib.crashed(it['id'], o['crash'])
        table.append(dict(id=it['id'], steps=[dict(s, **g) for s, g in zip(it['steps'], o['steps'])]))
    bad, (gen, dist) = lib.check_table('CBuild', table, d)
    c.count('states', dist)
    c.count('histories', len(table))
    builds = [s for t in table for s in t['steps'] if s['op'] == 'build']
    c.count('builds', len(builds))
    c.count('builds_that_failed', sum(not s['ok'] for s in builds))
    c.count('compiled', sum(len(s['compiled']) for s in builds))
    c.count('programs_run', sum(len(s['runs']) for s in builds))
    by = {t['id']: t for t in table}
    for it in cs:
        for v in bad.get(it['id'], ()):
            s = by[it['id']]['steps'][v['n'] - 1]
            what = '%s %s (%s, %s; step %d)' % (v['what'], WHAT[v['clause']], it['tool'], it['linked'], v['n'])
            if v['clause'] == 'program failed':
                what += ': %s' % s['runs']
            c.violation(KNOWN if (it['id'], v['n'], v['clause']) == ('back', 4, 'program') else '%s %s %s' % (it['id'], v['clause'], v['n']), what, {'case': it})
    c.sample({'compiled': table[-1]['steps'][-1]['compiled'], 'runs': table[-1]['steps'][-1]['runs']})


KNOWN = 'macros m1, then m2, then m1 again for one program'


def back():
    """The contents of outputs are not watched: a finding."""
    def target(m):
        return [{'name': 'p', 'kind': 'exe', 'dir': '', 'units': ['u0.c'], 'objs': [], 'libs': [], 'macro': m, 'aspath': False}]
    return [{'id': 'back', 'mode': 'history', 'tool': 'gcc', 'linked': 'static', 'root': '', 'heads': [], 'sources': ['u0.c'], 'engine': 'pickle', 'jobs': 1,
             'steps': [{'op': 'write', 'p': 'u0.c', 'n': 0, 'kind': 's', 'ver': 1, 'incl': [], 'calls': [], 'broken': False, 'main': True}] +
                      [{'op': 'build', 'targets': target(m)} for m in (1, 2, 1)]}]


def cases(seed, n):
    return [Gen(random.Random('%s/b%d' % (seed, k)), k).case() for k in range(n)]


def run(c):
    judge(c, back() + cases('%d' % c.seed, 2500 if c.tier == 'thorough' else 160))


def replay(c, r):
    judge(c, [r['case']])
