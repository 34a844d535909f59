"""The properties of the cached calls (C01 to C12)."""
import collections
import concurrent.futures
import json
import os
import random
import time

import dbgen
import dbmodel
import lib

# family: scenarios in a quick run, and in each round of a thorough run
PLAN = {
    'C01': [('src', 100), ('mix', 30), ('chain', 40)],
    'C02': [('ext', 110), ('mix', 30), ('chain', 50)],
    'C03': [('dst', 110), ('mix', 30), ('chain', 40)],
    'C04': [('own', 130), ('dep', 20)],
    'C05': [('dep', 110), ('tiny', 70), ('par', 15)],
    'C06': [('ident', 130), ('mix', 30)],
    'C07': [('noop', 70), ('src', 20), ('ext', 20), ('dst', 20), ('dep', 20), ('own', 10), ('mix', 10), ('chain', 15)],
    'C08': [('fail', 120), ('tinyfile', 50)],
    'C09': [('crash', 36)],
    'C10': [('discard', 140)],
    'C11': [('opts', 140)],
    'C12': [('par', 40), ('parfail', 30), ('vpar', 40), ('vparfail', 30)],
}

MAIN = {'src': 'C01', 'ext': 'C02', 'dst': 'C03', 'own': 'C04', 'dep': 'C05', 'tiny': 'C05', 'tinyfile': 'C08', 'ident': 'C06', 'noop': 'C07',
        'fail': 'C08', 'crash': 'C09', 'discard': 'C10', 'opts': 'C11', 'par': 'C12', 'parfail': 'C12',
        'vpar': 'C12', 'vparfail': 'C12'}

# DBModel has programs for these.
MODELLED = ('C01', 'C02', 'C03', 'C04', 'C05', 'C07', 'C08', 'C11')

WHY = {'src': 'C01', 'ext': 'C02', 'extdst': 'C02', 'dst': 'C03', 'own': 'C04', 'dep': 'C05', 'never': 'C06',
       'delfn': 'C11', 'delfile': 'C11', 'rebuild': 'C11', 'clean': 'C11'}

WHAT = {
    'stale': 'a stored result was returned although it is out of date',
    'needless': 'a function was executed although its stored result was up to date',
    'result': 'a stored result was returned that differs from what the call returned when it ran',
    'sets': 'the reported sources and outputs differ from what the call used',
    'fail': 'a call failed for no reason of its own',
    'exit': 'the exit status is wrong',
    'ranmain': 'a target was run by an option that must not run any',
    'notclean': 'the build directory is still there',
    'absentsrc': 'a call succeeded although its source does not exist',
    'unfinished': 'a call did not return',
    'twice': 'the function of one call was executed twice',
    'stray': 'a function was executed outside of any call',
    'harness': 'other code was executed than is there',
}


def attribution(v, family, prop=None):
    """The properties that this violation is one of."""
    out = set()
    c = v['clause']
    if c == 'stale':
        for w in v['why']:
            out.add(WHY.get(w, 'C10'))
        if 'extdst' in v['why']:
            out.add('C03')
    elif c == 'needless':
        out.add('C07')
        if family in ('par', 'parfail', 'vpar', 'vparfail', 'opts', 'crash', 'discard'):
            out.add(MAIN[family])
    elif c == 'result':
        out.add('C06')
    elif c == 'sets':
        out |= {'C06', 'C02'}
    elif c in ('ranmain', 'notclean'):
        out.add('C11')
    elif c == 'absentsrc':
        out.add('C01')
    if c != 'needless' and family in MAIN:
        if c != 'stale' or family in ('ident', 'fail', 'tinyfile', 'crash', 'discard', 'opts', 'par', 'parfail', 'vpar', 'vparfail'):
            out.add(MAIN[family])
    if family in ('mix', 'chain') and c in ('fail', 'exit', 'unfinished', 'twice', 'stray', 'harness'):
        out |= {'C01', 'C02', 'C03', 'C06', 'C07'}
    if family == 'model' and c not in ('stale', 'needless', 'result', 'sets'):
        # prop: the property that the program was written for
        out.add(prop)
    if family == 'model' and c == 'stale' and prop in ('C08', 'C11'):
        out.add(prop)
    return out


def trace(c, scs):
    d = c.sub('db')
    environ = {}
    if any(s.get('crashall') or s.get('crash') for sc in scs for s in sc['steps']):
        environ['LD_PRELOAD'] = lib.build_c('crash.c', d)
    recs = lib.run_workers('dbworker.py', scs, d, environ=environ)
    traces = []
    for sc, r in zip(scs, recs):
        if r.get('error'):
            c.violation('%s %s' % (sc['family'], 'error'), 'the history could not be run: ' + r['error'][-300:],
                        {'scenario': sc})
        elif r.get('more'):
            traces += [dict(t, sc=sc) for t in r['more']]
        else:
            traces.append({'id': r['id'], 'ev': r['ev'], 'sc': sc})
    return traces, d


def judge(c, scs):
    traces, d = trace(c, scs)
    res, (gen, dist) = lib.check_traces('DBTrace', [{'id': t['id'], 'ev': t['ev']} for t in traces], d)
    c.count('states', dist)
    c.count('transitions', gen)
    c.count('traces_validated_against_impl', len(traces))
    for t in traces:
        n = collections.Counter(e['e'] for e in t['ev'])
        c.count('builds', n['run'])
        c.count('calls', n['call'])
        c.count('executions', n['exec'])
        c.count('crashes', n['crash'])
        for v in res[t['id']]['viol']:
            fam = t['sc']['family']
            ev = t['ev'][v['at'] - 1] if v['at'] <= len(t['ev']) else {}
            props = attribution(v, fam, t['sc'].get('prop'))
            if v['clause'] == 'stale' and 'dep' in v['why']:
                # The constructors of its base classes are a class's own code.
                fn = [e['fn'] for e in t['ev'] if e['e'] == 'call' and e['id'] == ev.get('id')]
                if fn and t['sc']['functions'].get(fn[0], {}).get('base'):
                    props.add('C04')
            if c.prop in props:
                c.violation('%s %s %s' % (t['id'], v['clause'], v['at']),
                            '%s%s [%s, event %d: %s]' % (
                                WHAT.get(v['clause'], v['clause']),
                                ' (%s)' % ', '.join(map(str, v['why'])) if v['why'] else '',
                                t['sc']['engine'], v['at'], json.dumps(ev)[:160]),
                            {'scenario': t['sc'], 'violation': v, 'trace': t['ev']})
    if traces:
        t = max(traces[:20], key=lambda t: len(t['ev']))
        c.sample({'history': t['id'], 'events': [e for e in t['ev'] if e['e'] in ('edit', 'code', 'run', 'call', 'exec')][:25]})
    return traces


def models(c, programs, n, most, both):
    """All that DBModel allows for these programs up to their depths: the
    specification of the cache is judged itself, by all that it leaves behind
    (at most `most` histories of a program), and n of the histories are
    replayed on the real code, each with one engine or with both."""
    if not programs:
        return
    dirs = [c.sub('model%d' % i) for i in range(len(programs))]
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        found = list(ex.map(lambda a: dbmodel.histories(*a), zip(programs, dirs)))
    rnd = random.Random('%d/%s/model' % (c.seed, c.prop))
    scs, expected, own = [], {}, []
    for i, (p, (hs, (gen, dist))) in enumerate(zip(programs, found)):
        c.count('states', dist)
        c.count('transitions', gen)
        c.count('model_builds', len(hs))
        hs = dbmodel.maximal(hs)
        c.count('model_histories', len(hs))
        rnd.shuffle(hs)
        own += [{'id': 'm%d-%d' % (i, j), 'ev': ev} for j, (h, ev) in enumerate(hs[:most])]
        for j, (h, ev) in enumerate(hs[:n]):
            for engine in ('pickle', 'sqlite') if both else (('pickle', 'sqlite')[j % 2],):
                sid = 'm%d-%d-%s' % (i, j, engine)
                expected[sid] = ev
                scs.append(dbmodel.scenario(p, h, sid, engine, c.prop))
    # The specification of the cache has the properties, by the specification
    # of what the cache is to guarantee.
    res, _ = lib.check_traces('DBTrace', own, c.sub('model'))
    c.count('model_histories_judged', len(own))
    wrong = {i: r['viol'] for i, r in res.items() if r['viol']}
    if wrong:
        raise lib.Error('DBModel breaks what DBTrace demands: %s' % json.dumps(wrong)[:600])
    for t in judge(c, scs):
        c.count('model_agreed' if dbmodel.visible(t['ev']) == dbmodel.visible(expected[t['id']]) else 'model_differed')


def run(c):
    c.assumptions = [
        'Modification times older than one second identify a file\'s contents (the harness sets them explicitly).',
        'The functions of the generated builds are deterministic in what they read.',
    ]
    if c.quick:
        scs = []
        for fam, n in PLAN[c.prop]:
            feat = dict(dbgen.FEATURES[fam])
            if fam == 'crash':
                feat['points'] = 9
            scs += dbgen.scenarios('%d/%s' % (c.seed, c.prop), fam, feat, n)
        judge(c, scs)
        models(c, dbmodel.fixed(c.prop), 70, 250, False)
        return
    # Thorough: other seeds until the time is used up.
    k = 0
    longest = 0
    while k == 0 or (c.left() > 1.3 * longest and k < 200 and not c.violations):
        t0 = time.time()
        scs = []
        for fam, n in PLAN[c.prop]:
            feat = dict(dbgen.FEATURES[fam])
            if fam == 'crash':
                feat['points'] = 24 if k else 9
            scs += dbgen.scenarios('%d/%s/%d' % (c.seed, c.prop, k) if k else '%d/%s' % (c.seed, c.prop), fam, feat, n)
        judge(c, scs)
        if c.prop in MODELLED:
            if k == 0:
                models(c, dbmodel.fixed(c.prop, 1), 600, 2500, True)
            else:
                models(c, [dbmodel.randomly('%d/%s/%d/%d' % (c.seed, c.prop, k, i), 5) for i in range(4)], 60, 300, False)
        longest = max(longest, time.time() - t0)
        k += 1
    c.cov['rounds'] = k


def replay(c, r):
    judge(c, [r['scenario']])
