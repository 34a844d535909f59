"""Generates programs over the procedure call thread."""
import random


def programs(seed, n, schedules):
    out = []
    for k in range(n):
        r = random.Random('%s/rpc/%d' % (seed, k))
        fatal = r.random() < 0.3
        interrupts = r.random() < 0.3
        ends = r.random() < 0.6

        def calls(m):
            ops = []
            for _ in range(m):
                x = r.random()
                if x < 0.1:
                    ops.append(['tick'])
                    continue
                kind = (r.choice(['hard', 'exit', 'ctrlc']) if fatal and r.random() < 0.35 else
                        r.choice(['ok', 'ok', 'ok', 'exc', 'value', 'empty', 'odd', 'none', 'false', 'excvalue', 'exctype']))
                ops.append(['call', kind, r.choice([0, 0, 1, 3]), interrupts and r.random() < 0.5])
            return ops

        clients = [calls(r.choice([0, 0, 0, 1])) + [['start']] + calls(r.choice([0, 1, 2, 3]))]
        for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
            clients.append(calls(r.choice([1, 2, 3, 4])))
        if ends:
            for c in r.sample(clients, min(len(clients), r.choice([1, 1, 2]))):
                lo = c.index(['start']) + 1 if ['start'] in c else 0
                c.insert(r.randrange(lo, len(c) + 1), ['join'] if r.random() < 0.7 else ['join', r.choice([0, 0.001, 5])])
                if r.random() < 0.3:
                    c.append(['join'])
        out.append({'id': 'rpc-%s-%d' % (str(seed).replace('/', '_'), k), 'family': 'rpc', 'clients': clients,
                    'schedules': dict(schedules, seed='%s/%d' % (seed, k))})
    return out
