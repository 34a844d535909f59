"""The properties of the procedure call thread (C18)."""
import rpcgen
import vtcheck

WHAT = {
    'parallel': 'two calls were executed at the same time',
    'elsewhere': 'a call was executed in another thread',
    'twice': 'a call was executed twice',
    'late': 'a call was executed after the thread ended',
    'answered': 'a call was executed after its caller was answered',
    'order': 'the calls of one caller were executed in another order',
    'wrong': 'a caller got an answer that is not the one of its call',
    'swallowed': 'a caller got a result although its call failed',
    'refused': 'a call was refused although the thread was running',
    'accepted': 'a call was accepted although the thread had ended',
    'failed': 'a call failed for no reason of its own',
    'unanswered': 'a call was never answered',
    'lost': 'a call was never executed',
    'alive': 'the thread was still running after it was joined',
    'deadlock': 'all threads wait for each other',
    'livelock': 'the threads spin for ever',
    'error': 'the program could not be run',
}


def judge(c, programs):
    vtcheck.judge(c, 'rpcworker.py', 'RPCTrace', programs, lambda v, family: {'C18'}, WHAT)


def make(c, k, schedules):
    return rpcgen.programs('%d/C18' % c.seed + ('/%d' % k if k else ''), 90, schedules)


def run(c):
    c.assumptions = ['Threads switch at lock operations and between lines of rpc.py, not within a line.']
    vtcheck.rounds(c, lambda k, s: make(c, k, s), lambda ps: judge(c, ps))


def replay(c, r):
    judge(c, [r['program']])
