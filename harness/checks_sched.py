"""The properties of the scheduler (C13 to C17)."""
import concurrent.futures
import json

import lib
import schedgen
import schedmodel
import vtcheck

# family: programs in a quick run and in each round of a thorough run
PLAN = {
    'C13': [('map', 44), ('int', 8)],
    'C14': [('deps', 56)],
    'C15': [('fail', 48), ('shut', 8)],
    'C16': [('int', 28), ('map', 12), ('fail', 12)],
    'C17': [('shut', 44), ('int', 8)],
}

MAIN = {'map': 'C13', 'deps': 'C14', 'fail': 'C15', 'int': 'C16', 'shut': 'C17'}

WHAT = {
    'twice': 'a task was run more often than it was asked for',
    'stray': 'something was run that was not asked for',
    'result': 'the results are wrong or in the wrong order',
    'early': 'the mapping returned before all of its tasks were done',
    'order': 'a task was run before its dependencies were done',
    'noloop': 'tasks that depend on each other were not reported',
    'falseloop': 'tasks are said to depend on each other, but do not',
    'named': 'the error names tasks that are on no loop',
    'partial': 'the mapping returned although one of its tasks failed',
    'wrongexc': 'the mapping raised an error that none of its tasks raised',
    'cancelled': 'a task was started after its mapping failed',
    'late': 'a task was run after its mapping returned',
    'raised': 'the scheduler failed for no reason of its tasks',
    'mutex': 'two tasks ran at the same time',
    'deadlock': 'all threads wait for each other',
    'livelock': 'the threads spin for ever',
    'unfinished': 'a mapping never returned',
    'alive': 'a thread was still running after the shutdown',
    'dropped': 'a task was never finished',
}


def attribution(v, family):
    c = v['clause']
    if c == 'error':
        return {'C13', 'C14', 'C15', 'C16', 'C17'}
    own = 'C14' if v['kind'] == 'deps' else 'C13'
    if c in ('twice', 'stray', 'result', 'early'):
        return {own}
    if c in ('order', 'noloop', 'falseloop', 'named'):
        return {'C14'}
    if c in ('partial', 'wrongexc', 'cancelled'):
        return {'C15'}
    if c == 'late':
        return {'C15', own}
    if c == 'raised':
        return {'C15', own, MAIN[family]}
    if c in ('deadlock', 'livelock', 'unfinished'):
        # Nothing else can be said of a run that does not end.
        return {'C17'} if v['shut'] else {'C16', MAIN[family]} - {'C17'}
    if c == 'mutex':
        return {'C16'}
    return {'C17'}


def judge(c, programs):
    vtcheck.judge(c, 'schedworker.py', 'SchedTrace', programs, attribution, WHAT)


def make(c, k, schedules):
    out = []
    for fam, n in PLAN[c.prop]:
        seed = '%d/%s' % (c.seed, c.prop) + ('/%d' % k if k else '')
        out += schedgen.programs(seed, fam, max(1, int(n * (0.6 if k else 1))), schedules)
    return out


def explore(c, programs, timeout):
    """SchedModel has the properties, under all schedules of these programs."""
    dirs = [c.sub('model%d' % i) for i in range(len(programs))]
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for gen, dist in ex.map(lambda a: schedmodel.explore(*a, timeout), zip(programs, dirs)):
            c.count('model_states', dist)
            c.count('model_programs_explored', 1 if dist else 0)


def follow(c, programs, n):
    """n random behaviours of SchedModel for each of the programs: they are
    judged themselves, and the real code is made to follow them."""
    dirs = [c.sub('walks%d' % i) for i in range(len(programs))]
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        walks = list(ex.map(lambda a: schedmodel.walks(*a, n, 1 + c.seed % 10**6), zip(programs, dirs)))
    own = {}
    for p, w in zip(programs, walks):
        for ev in w:
            ev = schedmodel.seen(ev)
            own.setdefault(json.dumps(ev, sort_keys=True), {'id': '%s@model/%d' % (p['id'], len(own)), 'ev': ev})
    res, (gen, dist) = lib.check_traces('SchedTrace', list(own.values()), c.sub('own'))
    c.count('states', dist)
    c.count('transitions', gen)
    c.count('model_behaviours_judged', len(own))
    wrong = {i: r['viol'] for i, r in res.items() if r['viol']}
    if wrong:
        raise lib.Error('SchedModel breaks what SchedTrace demands: %s' % json.dumps(wrong)[:600])
    judge(c, [dict(p, follow=w, schedules={'seed': p['schedules']['seed']}) for p, w in zip(programs, walks) if w])


def models(c, k):
    """k: the round; the first is that of a quick run."""
    if k == 0:
        explore(c, schedmodel.small(c.prop), 300)
    elif k == 1:
        explore(c, [dict(p, threads=p['threads'] + 1) for p in schedmodel.small(c.prop)], 120)
    programs = []
    for fam, n in PLAN[c.prop]:
        programs += schedgen.programs('%d/%s/model/%d' % (c.seed, c.prop, k), fam, max(2, n // 6), {})
    follow(c, programs, 60 if k else 20)


def run(c):
    c.assumptions = [
        'Threads switch at lock operations, sleeps and between lines of sched.py (and at the points that the tasks mark), not within a line.',
    ]
    vtcheck.rounds(c, lambda k, s: make(c, k, s), lambda ps: judge(c, ps), lambda k: models(c, k))


def replay(c, r):
    judge(c, [r['program']])
