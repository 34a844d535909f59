"""Which module decides which property, and how."""

DB_TECH = "TLA+ (TLC): cache contract DBCore; traces of the real fbuild over generated histories validated against it"
DB_NOTE = ('Every recorded build history is replayed by TLC against the cache contract (spec/DBCore.tla), both '
           'database engines. Trusts the trace harness, and that the generated histories cover the cases that matter.')
SCHED_TECH = ('TLA+ (TLC): scheduler contract SchedTrace; traces of the real scheduler under controlled schedules validated against it; '
              'model SchedModel explored, and its behaviours replayed on the real scheduler')
SCHED_NOTE = ('The real Scheduler runs generated programs on virtual threads under random, PCT and systematic preemption '
              'schedules; TLC replays every distinct trace against spec/SchedTrace.tla. TLC also explores spec/SchedModel.tla for small '
              'programs, and the real scheduler follows random behaviours of it. Trusts the virtual threads.')


def db(what=''):
    return dict(module='checks_db', level='model_checking', technique=DB_TECH, note=DB_NOTE + what)


def sched():
    return dict(module='checks_sched', level='model_checking', technique=SCHED_TECH, note=SCHED_NOTE)


CHECKS = {'C%02d' % n: db() for n in range(1, 13)}
CHECKS.update({'C%02d' % n: sched() for n in range(13, 18)})

CHECKS['C18'] = dict(
    module='checks_rpc', level='model_checking',
    technique='TLA+ (TLC): contract RPCTrace; traces of the real RPC thread under controlled schedules validated against it',
    note='The real RPC thread runs generated programs of callers, start, join, failures and interrupts on virtual threads; '
         'TLC replays every distinct trace against spec/RPCTrace.tla. Trusts the virtual threads.')

CHECKS['C29'] = dict(
    module='checks_log', level='model_checking',
    technique='TLA+ (TLC): contract LogTrace; traces of the real log under controlled schedules validated against it',
    note='Several threads log through the real Log on virtual threads; TLC judges the console and the log file of every '
         'distinct run by spec/LogTrace.tla. Trusts the virtual threads.')

CHECKS['C25'] = dict(
    module='checks_pattern', level='model_checking',
    technique='TLA+ (TLC): functional specifications Pattern and Glob; answers of the real functions judged by TLC',
    note='TLC evaluates the specification for every pattern and directory tree of a small scope and for random larger ones '
         'and compares the answers of the real code.')

CHECKS['C26'] = dict(
    module='checks_bind', level='model_checking',
    technique='TLA+ (TLC): functional specification Bind; answers of bind_args and of cached calls judged by TLC',
    note='TLC binds the arguments of all calls of small signatures and of random larger ones by spec/Bind.tla, checks that '
         'Python itself agrees with the specification, and judges bind_args and programs of really cached calls by it.')

CHECKS['C27'] = dict(
    module='checks_options', level='model_checking',
    technique='TLA+ (TLC): functional specification Options; what the real functions received judged by TLC',
    note='Lists of platform options are used several times through the real functions, decorated functions, methods and cached '
         'methods; TLC applies them by spec/Options.tla and compares.')

CHECKS['C22'] = dict(
    module='checks_install', level='model_checking',
    technique='TLA+ (TLC): specification Install of histories of installations; file trees left by the real Installer judged by TLC',
    note='Generated histories of marked files, edits and installations run by the real Installer (directly, and through its '
         'privileged helper with a stand-in for pkexec) in scratch trees; TLC computes the trees by spec/Install.tla.')

CHECKS['C28'] = dict(
    module='checks_files', level='model_checking',
    technique='TLA+ (TLC): specification Files of histories of edits and builds; answers and files of the real builders judged by TLC',
    note='Generated histories of edits, deletions and builds with the real builders of files and texts (both database engines); '
         'TLC computes answers and all files by spec/Files.tla.')

CHECKS['C21'] = dict(
    module='checks_main', level='model_checking',
    technique='TLA+ (TLC): specification Main of histories of command lines; runs of the real fbuild.main judged by TLC',
    note='Generated build descriptions, flags, targets, hooks and failures are run by the real fbuild-light in processes of their '
         'own, several after each other; TLC computes events, exit status and what remains by spec/Main.tla.')

CHECKS['C19'] = dict(
    module='checks_exec', level='model_checking',
    technique='TLA+ (TLC): specification Exec of commands that follow scripts; runs through the real Context.execute judged by TLC',
    note='Generated commands (arguments, environment, input, redirections, failures; one after the other and in parallel) are run by '
         'the real Context.execute; the program reports what it got; TLC computes outcome and outputs by spec/Exec.tla.')

CHECKS['C20'] = dict(
    module='checks_exec', level='model_checking',
    technique='TLA+ (TLC): specification Timeout of commands as trees of processes; timed recordings of the real Context.execute judged by TLC',
    note='Generated groups of commands that start further processes, with and without timeouts, run by the real Context.execute among '
         'other tasks; TLC judges the recorded times, outcomes and processes by spec/Timeout.tla. Real time: close calls are not judged.')

CHECKS['C30'] = dict(
    module='checks_exec', level='model_checking',
    technique='TLA+ (TLC): specification Said of what is reported about commands; console and log file of real runs judged by TLC',
    note='Generated commands with marks in messages, arguments and outputs are run by the real Context.execute at every verbosity; '
         'TLC computes the marks to be found on the console and in the log file by spec/Said.tla and compares.')

CHECKS['C23'] = dict(
    module='checks_cc', level='model_checking',
    technique='TLA+ (TLC): specification CBuild of histories of edits and builds; compiler invocations and programs of real builds judged by TLC',
    note='Generated histories of edits, deletions, failures and changes of options are built incrementally by the real builders with '
         'gcc, g++ and clang; TLC computes what must be compiled and what the programs print by spec/CBuild.tla.')

CHECKS['C24'] = dict(
    module='checks_cmd', level='model_checking',
    technique='TLA+ (TLC): functional specification Commands; commands of the real builders judged by TLC',
    note='The real compilers and builders are called with generated options and graphs of libraries, with a stand-in for '
         'Context.execute that records commands; TLC computes the commands by spec/Commands.tla and compares.')

NOT_APPLICABLE = {}
