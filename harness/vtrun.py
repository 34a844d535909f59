"""Runs programs on virtual threads under many schedules.

A worker calls main(make, traced): make(program) gives an object with a list
`ev`, where the run is recorded, and a method `main`, which does it.
"""
import json
import os
import random
import sys
import traceback

import vt

def run_one(make, traced, prog, strategy, ondead):
    c = vt.Controller(strategy, traced, maxsteps=prog.get('maxsteps', 30000), ondead=None)
    p = make(prog)
    if isinstance(strategy, vt.Follow):
        p.follow = strategy.trace
        strategy.first = p.first
        c.maxsteps += 30000

    def dead(why, c):
        p.ev.append({'e': 'dead', 'th': '', 'wk': False, 'why': why, 'where': [
            '%s %s' % (t, t.state) for t in c.threads]})
        ondead(p, c)
    c.ondead = dead
    vt.C = c
    c.begin()
    try:
        p.main()
    except vt.Deadlock:
        raise
    except BaseException as e:
        p.ev.append({'e': 'dead', 'th': '', 'wk': False, 'why': 'error', 'where': [traceback.format_exc()[-800:]]})
    finally:
        c.end()
        vt.C = None
    return p, c


def strategies(spec):
    """Yields (name, strategy)."""
    for k in range(spec.get('random', 0)):
        r = random.Random('%s/%d' % (spec['seed'], k))
        yield 'random/%d' % k, vt.RandomWalk('%s/%d' % (spec['seed'], k),
                                             pline=r.choice([0, 0.02, 0.1, 0.3]), plock=r.choice([0.05, 0.3, 0.7]))
    for k in range(spec.get('pct', 0)):
        r = random.Random('%s/p%d' % (spec['seed'], k))
        yield 'pct/%d' % k, vt.PCT('%s/%d' % (spec['seed'], k), depth=r.choice([0, 1, 2, 3, 5]),
                                   length=r.choice([200, 600, 1500]))


def one_program(make, traced, prog, emit):
    spec = prog['schedules']
    seen = set()
    state = {'n': 0}

    def result(name, p, c):
        state['n'] += 1
        key = json.dumps(p.ev, sort_keys=True)
        if hash(key) not in seen:
            seen.add(hash(key))
            emit({'schedule': name, 'ev': p.ev, 'steps': c.steps, 'switches': c.switches})

    def finish(n):
        emit({'total': n})

    def go(name, strategy):
        def ondead(p, c):
            result(name, p, c)
            finish(state['n'])
            os._exit(0)
        p, c = run_one(make, traced, prog, strategy, ondead)
        result(name, p, c)
        return p, c

    only = spec.get('only')
    if only and only.startswith('follow/'):
        _, j, a = only.split('/')
        go(only, vt.Follow('%s/%s' % (spec['seed'], only), prog['follow'][int(j)]))
        finish(state['n'])
        return
    if only:
        if only.startswith('pre/'):
            at = [tuple(map(int, x.split(':'))) for x in only[4:].split(',') if x]
            go(only, vt.Preempt(at))
        for name, s in strategies(spec):
            if name == only:
                go(name, s)
        finish(state['n'])
        return
    for name, s in strategies(spec):
        go(name, s)
    for j, trace in enumerate(prog.get('follow', [])):
        # Hidden steps decide whether the whole trace can be had.
        for a in range(spec.get('attempts', 2)):
            name = 'follow/%d/%d' % (j, a)
            p, c = go(name, vt.Follow('%s/%s' % (spec['seed'], name), trace))
            if p.pos == len(trace):
                break
        emit({'followed': 1} if p.pos == len(trace) else {'lost': 1})
    limit = spec.get('preempt', 0)
    if limit:
        base = vt.Preempt({})
        go('pre/', base)
        options = [(step, k) for step, n in base.seen for k in range(n)]
        r = random.Random(spec['seed'])
        complete = len(options) <= limit
        if not complete:
            options = sorted(r.sample(options, limit))
        for step, k in options:
            s = vt.Preempt({step: k})
            go('pre/%d:%d' % (step, k), s)
        # Two preemptions: a sample.
        for _ in range(spec.get('preempt2', 0)):
            step, k = r.choice(options)
            s = vt.Preempt({step: k, step + r.choice([1, 2, 3, 5, 8, 13, 21, 34, 55, 89]) + r.randrange(8): r.randrange(3)})
            go('pre/' + ','.join('%d:%d' % x for x in sorted(s.at.items())), s)
        if complete:
            emit({'complete': 1})
    finish(state['n'])


def main(make, traced):
    src, dst = sys.argv[1:3]
    with open(src) as f, open(dst, 'w') as out:
        for line in f:
            prog = json.loads(line)
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rd)
                code = 0
                with os.fdopen(wr, 'w') as w:
                    def emit(r):
                        w.write(json.dumps(r) + '\n')
                        w.flush()
                    try:
                        one_program(make, traced, prog, emit)
                    except BaseException:
                        emit({'error': traceback.format_exc()[-1500:]})
                        code = 1
                    os._exit(code)
            os.close(wr)
            rec = {'id': prog['id'], 'traces': [], 'total': 0, 'complete': 0, 'error': '', 'followed': 0, 'lost': 0}
            with os.fdopen(rd) as r:
                for l in r:
                    x = json.loads(l)
                    if 'ev' in x:
                        rec['traces'].append(x)
                    for k in ('total', 'complete', 'error'):
                        if k in x:
                            rec[k] = x[k]
                    for k in ('followed', 'lost'):
                        rec[k] += x.get(k, 0)
            _, st = os.waitpid(pid, 0)
            if st and not rec['error']:
                rec['error'] = 'ended with %d' % st
            out.write(json.dumps(rec) + '\n')
            out.flush()
