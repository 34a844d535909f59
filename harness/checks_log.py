"""The properties of the log (C29)."""
import loggen
import vtcheck

WHAT = {
    'missing': 'a message is not on the console in one piece',
    'repeated': 'a message is on the console twice',
    'order': 'messages of one thread are on the console in another order',
    'split': 'what a task wrote before its first line was complete is not on the console in one piece',
    'extra': 'there is more on the console than was logged',
    'failed': 'a message could not be logged',
    'deadlock': 'all threads wait for each other',
    'livelock': 'the threads spin for ever',
    'error': 'the program could not be run',
}
WHAT.update({k + 'file': WHAT[k].replace('on the console', 'in the log file')
             for k in ('missing', 'repeated', 'order', 'split', 'extra')})


def judge(c, programs):
    vtcheck.judge(c, 'logworker.py', 'LogTrace', programs, lambda v, family: {'C29'}, WHAT)


def make(c, k, schedules):
    return loggen.programs('%d/C29' % c.seed + ('/%d' % k if k else ''), 100, schedules)


def run(c):
    c.assumptions = ['Threads switch at lock operations, at writes and between lines of console.py, not within a line.']
    vtcheck.rounds(c, lambda k, s: make(c, k, s), lambda ps: judge(c, ps))


def replay(c, r):
    judge(c, [r['program']])
