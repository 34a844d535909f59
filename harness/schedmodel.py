"""Programs for SchedModel, and its behaviours."""
import json
import os
import random

import lib


class Compiler:
    """Makes the data for SchedModel of a program of schedgen."""

    def __init__(self, prog):
        self.tasks, self.evals, self.maps = [], [], []
        self.out = {'workers': prog['threads'], 'shutdowns': prog.get('shutdowns', 1),
                    'clients': [self.ops(ops) for ops in prog['clients']]}
        self.out.update(tasks=self.tasks, evals=self.evals, maps=self.maps)

    def ops(self, ops, catch=False):
        out = []
        for op in ops:
            k = op[0]
            if k in ('tick', 'sleep'):
                out.append(self.op('tick'))
            elif k == 'int':
                out += [self.op('in')] + self.ops(op[1]) + [self.op('out')]
            elif k == 'try':
                out += self.ops(op[1], True)
            elif k == 'raise':
                out.append(self.op('raise'))
            elif k == 'map':
                out.append(self.op('map', self.map(op[1], op[2]), catch))
            elif k == 'deps':
                out.append(self.op('map', self.deps(*op[1:]), catch))
        return out

    def op(self, o, m=0, c=False):
        return {'o': o, 'm': m, 'c': c}

    def task(self, src, m, e, deps=(), dep=0):
        self.tasks.append({'src': src, 'm': m, 'e': e, 'deps': list(deps), 'dep': dep, 'ops': []})
        return len(self.tasks)

    def bodies(self, ts, bodies):
        for t in ts:
            self.tasks[t - 1]['ops'] = self.ops(bodies.get(self.tasks[t - 1]['src'], []))

    def eval(self):
        self.evals.append({'tasks': []})
        return len(self.evals)

    def map(self, inputs, bodies):
        self.maps.append(None)
        m = len(self.maps)
        e = self.eval()
        ts = [self.task(s, m, e) for s in inputs]
        self.evals[e - 1]['tasks'] = ts
        self.maps[m - 1] = {'kind': 'map', 'inputs': inputs, 'deps': {}, 'evals': [e], 'order': ts, 'named': []}
        self.bodies(ts, bodies)
        return m

    def deps(self, inputs, deps, bodies, raising):
        self.maps.append(None)
        m = len(self.maps)
        e1, e2 = self.eval(), self.eval()
        self.evals[e1 - 1]['tasks'] = [self.task(s, m, e1, dep=2 if s in raising else 1) for s in inputs]
        ids = {}
        for s in inputs:
            if s not in ids:
                ids[s] = self.task(s, m, e2)
        for s, t in ids.items():
            self.tasks[t - 1]['deps'] = [ids[d] for d in deps.get(s, []) if d in ids]
        self.evals[e2 - 1]['tasks'] = list(ids.values())
        order, seen = [], set()

        def visit(s):
            if s in seen:
                return
            seen.add(s)
            for d in deps.get(s, []):
                if d in ids:
                    visit(d)
            order.append(ids[s])
        for s in inputs:
            visit(s)

        def reach(s):
            todo, got = [s], set()
            while todo:
                for d in deps.get(todo.pop(), []):
                    if d in ids and d not in got:
                        got.add(d)
                        todo.append(d)
            return got
        self.maps[m - 1] = {'kind': 'deps', 'inputs': inputs, 'deps': {i: deps.get(i, []) for i in inputs}, 'evals': [e1, e2],
                            'order': order, 'named': sorted(s for s in ids if s in reach(s))}
        self.bodies(ids.values(), bodies)
        return m


TICK = [['tick']]


def small(prop):
    """Programs of which all schedules can be explored, for each property."""
    def prog(threads, *clients, shutdowns=1):
        return {'threads': threads, 'clients': list(clients), 'shutdowns': shutdowns}

    fails = [['raise', 'Exception']]
    return {
        'C13': [prog(2, [['map', ['n1', 'n2', 'n1'], {'n2': TICK}]]),
                prog(2, [['map', ['n1', 'n2'], {'n1': [['map', ['n3'], {'n3': TICK}]]}]]),
                prog(2, [['map', ['n1'], {'n1': [['map', ['n2', 'n3'], {}]]}]]),
                prog(1, [['map', ['n1', 'n2'], {'n1': [['map', ['n3', 'n4'], {}]]}], ['map', [], {}]]),
                prog(1, [['map', ['n1'], {}]], [['map', ['n2'], {'n2': TICK}]])],
        'C14': [prog(2, [['deps', ['n1', 'n2'], {'n1': ['n2']}, {'n2': TICK}, []]]),
                prog(2, [['deps', ['n1', 'n2'], {'n1': ['n2'], 'n2': ['n1']}, {}, []]]),
                prog(1, [['deps', ['n3', 'n1', 'n2'], {'n3': ['n1', 'n2'], 'n2': ['n1']}, {}, []]]),
                prog(2, [['deps', ['n1', 'n2', 'n3'], {'n1': ['n2'], 'n2': ['n2']}, {}, []]]),
                prog(1, [['map', ['n1'], {'n1': [['deps', ['n2', 'n3'], {'n2': ['n3']}, {}, []]]}]])],
        'C15': [prog(2, [['map', ['n1', 'n2'], {'n1': fails, 'n2': TICK}]]),
                prog(2, [['map', ['n1', 'n2'], {'n1': fails, 'n2': fails}]]),
                prog(1, [['map', ['n1', 'n2', 'n3'], {'n2': fails}], ['map', ['n4'], {}]]),
                prog(2, [['map', ['n1', 'n2'], {'n1': [['try', [['map', ['n3'], {'n3': fails}]]]]}]]),
                prog(1, [['deps', ['n1', 'n2'], {'n1': ['n2']}, {'n2': fails}, []]])],
        'C16': [prog(2, [['map', ['n1', 'n2'], {'n1': [['int', TICK]], 'n2': TICK}]]),
                prog(2, [['map', ['n1', 'n2'], {'n1': [['int', TICK]], 'n2': [['int', TICK]]}]]),
                prog(2, [['map', ['n1', 'n2'], {'n1': [['int', [['int', TICK]]]], 'n2': []}]]),
                prog(2, [['map', ['n1'], {'n1': [['int', [['map', ['n2'], {}]]]]}]]),
                prog(2, [['map', ['n1', 'n2'], {'n1': [['int', TICK + fails]], 'n2': TICK}]])],
        'C17': [prog(3, []),
                prog(2, [['map', ['n1'], {}]], shutdowns=2),
                prog(2, [['map', ['n1', 'n2'], {'n1': [['map', ['n3'], {}]], 'n2': fails}]]),
                prog(3, [['map', ['n1'], {'n1': TICK}]]),
                prog(1, [['map', ['n1', 'n2'], {'n1': [['map', ['n3'], {}]]}]], shutdowns=2)],
    }[prop]


def write(prog, workdir):
    path = os.path.join(workdir, 'program.json')
    with open(path, 'w') as f:
        f.write(json.dumps(Compiler(prog).out) + '\n')
    return path


def explore(prog, workdir, timeout=200):
    """All schedules of the program, if there is time for them: [states
    generated, distinct]."""
    try:
        rc, text = lib.tlc('SchedModel', 'SchedModel.cfg', workdir, environ={'PROGRAM': write(prog, workdir), 'LOGGING': '0'},
                           timeout=timeout, heap='4g', workers=2)
    except lib.Error as e:
        if 'timed out' in str(e):
            return 0, 0
        raise
    if rc:
        raise lib.Error('SchedModel: %s' % text[-3000:])
    return lib.tlc_stats(text)


def walks(prog, workdir, n, seed, timeout=200):
    """Traces of n random behaviours."""
    rc, text = lib.tlc('SchedModel', 'SchedModelWalk.cfg', workdir, environ={'PROGRAM': write(prog, workdir), 'LOGGING': '1'},
                       extra=['-simulate', 'num=%d' % n, '-depth', '3000', '-seed', str(seed)], timeout=timeout, heap='2g', workers=1)
    if rc:
        raise lib.Error('SchedModel: %s' % text[-3000:])
    out = {}
    for ev in lib.tlc_results(text, 'HIST'):
        ev = renumbered(ev)
        out[json.dumps(ev, sort_keys=True)] = ev
    return list(out.values())


def renumbered(ev):
    """The same trace; maps, results and errors are counted as they appear."""
    ms, vs, xs = {}, {}, {}
    out = []
    for e in ev:
        e = dict(e)
        if e['e'] == 'map':
            ms[e['m']] = len(ms) + 1
        if 'm' in e:
            e['m'] = ms[e['m']]
        if e.get('v'):
            e['v'] = vs.setdefault(e['v'], len(vs) + 1)
        if e.get('x'):
            e['x'] = xs.setdefault(e['x'], len(xs) + 1)
        if 'vals' in e:
            e['vals'] = [vs.get(v, -1) for v in e['vals']]
        out.append(e)
    return out


def seen(ev):
    """The trace without what the tasks cannot see."""
    return [e for e in ev if e['e'] not in ('q', 'l')]
