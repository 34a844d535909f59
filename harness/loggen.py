"""Generates programs that log from several threads."""
import random


def programs(seed, n, schedules):
    out = []
    for k in range(n):
        r = random.Random('%s/log/%d' % (seed, k))
        partial = r.random() < 0.5
        # Tasks run by a scheduler, or by the program's own threads.
        pool = r.choice([0, 1, 2, 2, 3]) if r.random() < 0.5 else 0

        def ops(m, depth=0):
            l = []
            for _ in range(m):
                v = r.choice([0, 0, 0, 1, 1, 2, 7])
                x = r.random()
                if x < 0.3:
                    l.append(['log', v, r.random() < 0.2])
                elif x < 0.4:
                    l.append(['passed', v, r.choice(['passed', 'failed'])])
                elif x < 0.6:
                    l.append(['check', v])
                elif x < 0.7 and partial:
                    l.append(['checking', v])
                elif x < 0.8 and partial:
                    l.append(['write', v, r.random() < 0.4, r.random() < 0.6])
                elif x < 0.85:
                    l.append(['flush'])
                elif x < 0.93 and pool and depth < 2:
                    l.append(['map', [ops(r.choice([0, 1, 2]), depth + 1) for _ in range(r.choice([1, 2, 3]))]])
                else:
                    l.append(['tick'])
            return l

        def task(m, depth=0):
            # A line may be written in pieces.
            begin = [['write', r.choice([0, 0, 1]), False, True] for _ in range(r.choice([1, 2, 2, 3]))] if partial and r.random() < 0.5 else []
            return begin + ops(m, depth)

        clients = [ops(r.choice([0, 1, 3]))]
        if pool:
            clients[0].insert(r.randrange(len(clients[0]) + 1), ['map', [task(r.choice([1, 2, 3]), 1) for _ in range(r.choice([2, 3, 4]))]])
        for _ in range(r.choice([0, 0, 1]) if pool else r.choice([1, 2, 2, 3])):
            # What a worker thread does: one task after the other.
            clients.append([['task', task(r.choice([1, 2, 3]))] for _ in range(r.choice([1, 1, 2]))])
        out.append({'id': 'log-%s-%d' % (str(seed).replace('/', '_'), k), 'family': 'log', 'clients': clients,
                    'verbose': r.choice([0, 0, 1, 2]), 'nocolor': r.random() < 0.5, 'file': r.random() < 0.8,
                    'threadcount': pool or r.choice([1, 2, 4, 4]), 'pool': pool,
                    'show': r.random() < 0.2,
                    'schedules': dict(schedules, seed='%s/%d' % (seed, k))})
    return out
