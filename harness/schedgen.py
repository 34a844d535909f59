"""Generates programs over the scheduler."""
import random


class Gen:
    def __init__(self, r, **f):
        self.r = r
        self.f = f
        self.n = 0
        self.budget = f.get('budget', 9)

    def name(self):
        self.n += 1
        return 'n%d' % self.n

    def ops(self, depth, client=False):
        r = self.r
        out = []
        for _ in range(r.choice([1, 1, 2, 2, 3]) if client else r.choice([0, 1, 1, 1, 2])):
            x = r.random()
            if x < (0.75 if client else 0.3) and depth > 0 and self.budget > 0:
                m = self.deps(depth - 1) if r.random() < self.f.get('deps', 0.4) else self.map(depth - 1)
                if r.random() < self.f.get('catch', 0.5):
                    m = ['try', [m]]
                out.append(m)
            elif x < 0.85 and r.random() < self.f.get('int', 0.5):
                out.append(['int', self.ops(depth - 1) if r.random() < 0.5 else
                            [['tick']] if r.random() < 0.5 else [['int', [['tick']]], ['tick']]])
            elif r.random() < self.f.get('fail', 0.15) and not client:
                out.append(['raise', r.choice(['Exception', 'Exception', 'Empty', 'SystemExit', 'BaseException'])])
                break
            elif r.random() < 0.2:
                out.append(['sleep', r.choice([0, 0.5, 3, 100])])
            else:
                out.append(['tick'])
        return out

    def bodies(self, inputs, depth):
        out = {}
        for s in set(inputs):
            self.budget -= 1
        for s in sorted(set(inputs)):
            b = self.ops(depth)
            if b:
                out[s] = b
        return out

    def map(self, depth):
        r = self.r
        inputs = [self.name() for _ in range(r.choice([0, 1, 2, 2, 3, 3, 4]))]
        if inputs and r.random() < self.f.get('dup', 0.25):
            inputs.insert(r.randrange(len(inputs) + 1), r.choice(inputs))
        return ['map', inputs, self.bodies(inputs, depth)]

    def deps(self, depth):
        r = self.r
        inputs = [self.name() for _ in range(r.choice([1, 2, 3, 3, 4, 5, 6, 7]))]
        r.shuffle(inputs)
        dense = r.choice([0.2, 0.4, 0.7])
        cyclic = r.random() < self.f.get('cycle', 0.2)
        d = {}
        for k, s in enumerate(inputs):
            pool = inputs if cyclic and r.random() < 0.5 else inputs[:k]
            l = [x for x in pool if r.random() < dense]
            r.shuffle(l)
            if l and r.random() < 0.15:
                l.append(r.choice(l))
            if r.random() < 0.15:
                l.insert(r.randrange(len(l) + 1), 'n99')
            d[s] = l
        if len(inputs) > 2 and r.random() < self.f.get('ring', 0.1):
            # A loop of three or more, maybe with some that wait for it.
            k = r.choice([3, 3, min(4, len(inputs)), len(inputs)])
            ring = r.sample(inputs, k)
            order = [x for x in inputs if x not in ring]
            for a, b in zip(ring, ring[1:] + ring[:1]):
                # Depends on the next one, and on some that are on no loop.
                d[a] = [b] + [x for x in order[:1] if r.random() < 0.6]
                r.shuffle(d[a])
            for j, x in enumerate(order):
                d[x] = [y for y in order[:j] if r.random() < 0.4]
                if j and r.random() < 0.7:
                    d[x].append(r.choice(ring))
                    r.shuffle(d[x])
        given = list(inputs)
        if r.random() < 0.5:
            given.reverse()
        else:
            r.shuffle(given)
        if r.random() < 0.2:
            given.append(r.choice(given))
        if r.random() < 0.25:
            given.remove(r.choice(given))
        raising = [s for s in given if r.random() < self.f.get('depfail', 0.03)]
        return ['deps', given, d, self.bodies(inputs, depth), raising]


FAMILIES = {
    'map': dict(deps=0.05, fail=0.03, int=0.3, catch=0.3, dup=0.4),
    'deps': dict(deps=0.9, fail=0.05, int=0.2, cycle=0.1, ring=0.25, catch=0.6),
    'fail': dict(deps=0.4, fail=0.5, int=0.3, catch=0.6, depfail=0.1),
    'int': dict(deps=0.1, fail=0.05, int=0.95, catch=0.4, second=0.6, minthreads=2),
    'shut': dict(deps=0.1, fail=0.3, int=0.3, catch=0.3, minthreads=2, leave=0.7),
}


def programs(seed, family, n, schedules):
    out = []
    for k in range(n):
        r = random.Random('%s/%s/%d' % (seed, family, k))
        g = Gen(r, **FAMILIES[family])
        clients = [g.ops(r.choice([1, 2, 2, 3]), True)]
        if r.random() < FAMILIES[family].get('leave', 0):
            # Some task fails while others wait for nested maps.
            g.budget = 5
            ins = [g.name() for _ in range(r.choice([2, 3, 3, 4]))]
            b = {s: [['map', [g.name() for _ in range(r.choice([1, 2, 2, 3]))], {}]] for s in ins}
            for s in b:
                if r.random() < 0.4:
                    b[s].append(['int', [['tick']]])
            b[r.choice(ins)] = ([['int', [['tick']]]] if r.random() < 0.5 else []) + [['raise', 'Exception']]
            clients[0].append(['map', ins, b])
        if r.random() < FAMILIES[family].get('second', 0.25):
            g.budget = 5
            clients.append(g.ops(r.choice([1, 2]), True))
        out.append({'id': '%s-%s-%d' % (family, str(seed).replace('/', '_'), k), 'family': family,
                    'threads': max(FAMILIES[family].get('minthreads', 1), r.choice([1, 2, 2, 2, 3, 3, 4])), 'clients': clients,
                    'values': r.choice(['plain', 'plain', 'some', 'false']),
                    'shutdowns': r.choice([1, 1, 2]),
                    'schedules': dict(schedules, seed='%s/%s/%d' % (seed, family, k))})
    return out
