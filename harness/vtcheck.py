"""Judges runs of programs under controlled schedules by a trace specification."""
import json
import time

import lib


def judge(c, worker, spec, programs, attribution, what, chunk=None):
    d = c.sub('vt')
    recs = lib.run_workers(worker, programs, d)
    by = {p['id']: p for p in programs}
    traces = []
    for p, r in zip(programs, recs):
        c.count('schedules', r['total'])
        c.count('programs_with_every_single_preemption', r['complete'])
        if p.get('follow'):
            c.count('model_followed', r['followed'])
            c.count('model_lost', r['lost'])
        if r['error']:
            raise lib.crashed(p['id'], r['error'])
        for t in r['traces']:
            traces.append({'id': '%s@%s' % (p['id'], t['schedule']), 'ev': t['ev']})
            c.count('switches', t['switches'])
    c.count('programs', len(programs))
    c.count('traces_validated_against_impl', len(traces))
    res, (gen, dist) = lib.check_traces(spec, traces, d)
    c.count('states', dist)
    c.count('transitions', gen)
    for t in traces:
        pid, schedule = t['id'].split('@', 1)
        for v in res[t['id']]['viol']:
            if c.prop in attribution(v, by[pid]['family']):
                p = dict(by[pid], schedules=dict(by[pid]['schedules'], only=schedule))
                ev = t['ev'][v['at'] - 1]
                c.violation('%s %s' % (t['id'], v['clause']),
                            '%s [event %d: %s]' % (what.get(v['clause'], v['clause']), v['at'], json.dumps(ev)[:160]),
                            {'program': p, 'violation': v, 'trace': t['ev']})
    if traces:
        t = max(traces[:30], key=lambda t: len(t['ev']))
        c.sample({'program': by[t['id'].split('@', 1)[0]]['clients'], 'schedule': t['id'].split('@', 1)[1],
                  'events': t['ev'][:20]})


QUICK = dict(random=14, pct=14, preempt=36)
DEEP = [dict(random=40, pct=40, preempt=150, preempt2=40), dict(random=60, pct=60, preempt=0),
        dict(random=10, pct=10, preempt=700, preempt2=100)]


def rounds(c, make, judge, more=lambda k: None):
    """make(k, schedules): the programs of round k."""
    judge(make(0, QUICK))
    if not c.violations:
        more(0)
    if c.quick:
        return
    k = longest = 0
    while c.left() > 1.4 * longest and k < 400 and not c.violations:
        t0 = time.time()
        k += 1
        judge(make(k, DEEP[k % len(DEEP)]))
        if not c.violations:
            more(k)
        longest = max(longest, time.time() - t0)
    c.cov['rounds'] = k + 1
