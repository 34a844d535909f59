"""The listed properties: writes properties.jsonl (see DESIGN.md)."""
import json
import os

DB = 'lib/fbuild/db/database.py'
BE = 'lib/fbuild/db/backend.py'
CB = 'lib/fbuild/db/cache_backend.py'
PB = 'lib/fbuild/db/pickle_backend.py'
SB = 'lib/fbuild/db/sqlite_backend.py'
DI = 'lib/fbuild/db/__init__.py'
SC = 'lib/fbuild/sched.py'
RP = 'lib/fbuild/rpc.py'
MA = 'lib/fbuild/main.py'
CX = 'lib/fbuild/context.py'
IN = 'lib/fbuild/install.py'
KP = 'lib/fbuild/subprocess/killableprocess.py'
FN = 'lib/fbuild/functools.py'
BI = 'lib/fbuild/builders/__init__.py'
CI = 'lib/fbuild/builders/c/__init__.py'
GC = 'lib/fbuild/builders/c/gcc/__init__.py'


def P(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        d['anchors']['observe_at'] = list(observe)
    return d


PROPS = [
 P('C01', 'A changed source always reruns the call',
   'A cached call whose declared source files (single, several or optional) do not have the contents they had when its stored result was computed is executed again, and its old result is never returned, whatever happened to the files in between (edited, replaced, touched, moved back in time, reverted, changed before or after other calls that use the same file looked at them). The only changes that may go unnoticed are those that leave the modification time of a file older than one second exactly as it was.',
   ['histories', 'inputs'], 'every history of builds and edits of the files, every mix of calls sharing files, both database engines',
   'Tests run a handful of two-build histories; a stale answer needs a particular order of edits, touches and calls that share a file.',
   [BE, CB, SB], [('add_file/check_call_files compare modification time, then digest', BE), ('per-call digests are stored separately from the file digest', CB + ', ' + SB)],
   [('file records', 'last seen mtime and digest of every file', CB), ('call file records', 'digest of a source when the call was stored', CB)],
   ['the body of the cached function (does it run?)', 'the value the call returns']),
 P('C02', 'Dependencies registered while running are tracked',
   'Sources and outputs that a cached function registers while it runs belong to its stored call and to every stored call it was executed inside of: if any such source later has other contents or is gone, or any such output is gone, each of these calls is executed again. What the latest execution registered replaces what earlier ones did, and it is reported with the result whether that came from the cache or from running.',
   ['histories', 'programs'], 'every nesting of calls, every set of registered files, every history of edits and deletions',
   'Needs nested calls, parallel tasks and changes or deletions of files that are not arguments; tests register files in flat calls only.',
   [DB, BE, CB, SB], [('add_external_dependencies_to_call records into the running call and its callers', DB), ('check_external_files', BE), ('save_external_files replaces the links', CB + ', ' + SB)],
   [('external links of a call', 'registered sources with digests and outputs', CB)], ['function.call(...) returns (result, srcs, dsts)']),
 P('C03', 'A missing output is always recreated',
   'A call one of whose outputs is missing (an output named by an argument, named by its declared return value, or registered while it ran) is executed again instead of being answered from the cache. After a successful build every declared output of the requested calls exists if the functions create them.',
   ['histories', 'inputs'], 'every subset of outputs deleted between builds, all kinds of output declarations',
   'Only one kind of output with one deletion is sampled by tests.',
   [DB, DI], [('existence check of return/argument/external dsts on a cache hit', DB), ('DST/DSTS/OPTIONAL_DST convert', DI)], (), ['the body of the cached function']),
 P('C04', 'Changed code of a cached function reruns it',
   'When the source text of a cached function, method, property or of the constructor of a persistent class (including inherited constructors) changes between builds, results computed with the old text are never returned: every call of it executes again with the new code, exactly as if it had never been called. Going back to an older text later does not bring back results computed before the change.',
   ['histories', 'programs'], 'every history of code versions (including reverts) of functions, methods, properties and constructors in any module',
   'Tests never change the build description between two builds.',
   [DB, BE, DI], [('_digest_function', DB), ('check_function compares digests', BE), ('cache() drops all calls of a changed function', BE)],
   [('function digests', 'digest of the code a function\'s stored calls were computed with', CB)], ['the body of the cached function']),
 P('C05', 'Changed code of called functions reruns the caller',
   'When the code of a cached function that a stored call executed or consulted while it was computed, directly or through any chain of cached functions, has changed, the stored result of that call is not returned but computed again. This holds whatever order the functions are called in, whether the changed function was already run again in this or an earlier build, and for callees reached through methods, parallel tasks, constructors or handled failures.',
   ['histories', 'programs', 'schedules'], 'every call graph of cached functions, every history of code changes, every order of top-level calls',
   'Depends on call graph shape and on the order in which changed functions are revisited over several builds.',
   [DB, BE], [('dependents recorded per running call and stored with the function', DB), ('check_function checks all dependents', BE), ('find_dependents closes over callees', BE)],
   [('dependents of a function', 'the functions its calls called with their digests', CB)], ['the body of the cached function']),
 P('C06', 'A cached answer is the answer of its own call',
   'A call answered from the cache returns a value equal, in content and type, to what the call with equal arguments of the same function and object returned when it was executed, together with the same sets of sources and outputs; calls whose arguments differ never share an answer. Positional, keyword and defaulted spellings of the same arguments are the same call.',
   ['inputs', 'histories'], 'all argument and result values over the storable types, all call spellings, across processes',
   'The space of arguments, types and spellings is open; tests use a few strings and ints.',
   [DB, FN, CB, SB, DI], [('bind_args normalises the call', FN), ('find_call / save_call compare and store bound arguments', CB + ', ' + SB), ('pickler/unpickler with the context as persistent id', PB)],
   (), ['value returned by the call', 'function.call(...)']),
 P('C07', 'Nothing is executed needlessly',
   'A call that was stored by an earlier or the current build is answered without executing its function as long as its sources and registered files have the same contents (even if they were touched, or changed and changed back between two builds), its outputs exist, and neither its code nor the code of the functions that its function has called changed. In particular repeating a successful build executes no cached function at all.',
   ['histories'], 'every history of builds with no relevant change, both engines',
   'Tests check the first build or one repetition; needless work shows up only for particular histories, files and argument types.',
   [DB, BE, CB, SB], [('prepare decides dirtiness', BE), ('digest comparison after a changed mtime', BE)], (), ['the body of the cached function']),
 P('C08', 'Failed calls leave no trace in the cache',
   'If the function of a cached call raises, the exception reaches the caller, nothing about this execution is stored, and the call is executed again the next time it is made, in the same or any later build; the stored results of other calls stay usable. A caller that handles the failure and succeeds is stored as usual, and a registration or lookup that fails in the middle leaves no half-stored call behind.',
   ['histories', 'fault_sequences'], 'every pattern of failing calls in nested and repeated builds',
   'Needs failures at particular nesting levels followed by further builds.',
   [DB, BE, MA], [('call() only stores after the function returned', DB), ('cache() reads external sources before it changes anything', BE), ('save on the way out after a failed build', MA)], (), ['exceptions and bodies of cached functions over several builds']),
 P('C09', 'Saved state survives being killed at any point',
   'If a build is killed at any point, including in the middle of saving its state, the next build starts normally and its cache holds, for each call, either what the last completed save or what the interrupted build stored: nothing older or mixed is ever returned as current, and work that an earlier build had saved is not lost.',
   ['crash_points', 'histories'], 'every crash point of a build (each file system and database operation), every earlier history',
   'Tests never kill the process while it writes.',
   [PB, SB, CX, MA], [('write to a temporary file and rename', PB), ('sqlite transactions', SB), ('save_configuration in finally', MA)],
   [('fbuild-state.db / .sqldb', 'saved cache', PB)], ['the state file', 'which functions run in the next build']),
 P('C10', 'Unusable saved state is discarded as a whole',
   'When the saved state on disk was written by another version of the format, has no version, is empty, or refers to things that no longer exist, a build does not fail and uses none of it: every call executes, and the state saved afterwards works like one from a fresh build.',
   ['inputs', 'histories'], 'every version stamp and kind of old or incomplete state file, both engines',
   'Tests never start with an old state file.',
   [PB, CB, SB], [('version check in connect', PB + ', ' + SB)], (), ['which functions run in the next build', 'exit status']),
 P('C11', 'State options change exactly what they say',
   'Forcing a rebuild or configuration discards all stored calls; deleting a function (or a file) discards exactly the stored calls of that function (or those that use that file) and reports success if and only if it was known; cleaning removes the build directory; not saving leaves the saved state as it was before the run; dumping changes nothing. None of these runs a build target except forcing a rebuild or configuration and not saving.',
   ['histories', 'configurations'], 'every sequence of builds with these options, both engines',
   'The options are not covered by tests at all; effects show up only in the following build.',
   [MA, CX, CB, SB], [('load_configuration/save_configuration', CX), ('delete_function / delete_file', CB + ', ' + SB), ('build() early exits', MA)], (), ['exit status', 'which functions run in the next build']),
 P('C12', 'Parallel builds equal sequential builds',
   'With any number of worker threads and any interleaving of their work, a build executes and stores the same calls with the same results, dependencies and outputs as a sequential build would: nothing is lost, attributed to another call, or left out of the saved state, and equal calls made at the same time both get a correct answer.',
   ['schedules', 'histories', 'programs'], 'every interleaving of worker threads over every program of nested and parallel cached calls',
   'Interleavings of prepare, run and store in different threads cannot be enumerated by running the build.',
   [DB, BE, SC], [('per-task tracking of the running call', DB), ('prepare/cache are serialised in the database thread', RP), ('cache() re-reads the function record', BE)], (), ['function.call(...)', 'bodies of cached functions', 'following builds']),
 P('C13', 'Mapping runs everything exactly once, in input order',
   'Mapping a function over inputs with the scheduler calls it exactly once per input, duplicates included, returns the results in the order of the inputs, and returns only after all of them finished; this holds for any number of worker threads, nested maps from inside tasks and several maps at the same time.',
   ['schedules', 'inputs', 'programs'], 'every interleaving, thread count, nesting and input list',
   'Tests run whatever interleaving the machine gives.',
   [SC], [('_evaluate and the ready queue', SC), ('Task.index sorts results', SC)], [('ready queue', 'tasks that can run', SC)], ['Scheduler.map']),
 P('C14', 'Dependency-ordered mapping respects the order',
   'When mapping with dependencies, each distinct input runs exactly once and only after all of its dependencies that are among the inputs finished; unknown dependencies are ignored; the result order is the depth-first order of dependencies from the input order, the same for every schedule. If inputs depend on each other in a cycle, an error is raised that names inputs of a cycle, and none of the inputs that wait for it is run.',
   ['schedules', 'inputs'], 'every dependency graph with cycles, self loops, duplicates and unknown names under every interleaving',
   'Graphs and interleavings are unbounded; tests use two or three fixed graphs.',
   [SC], [('map_with_dependencies', SC), ('Task.can_run and children', SC), ('DependencyLoop', SC)], (), ['Scheduler.map_with_dependencies']),
 P('C15', 'Errors in tasks reach the caller and nothing else',
   'If a mapped function raises, the mapping raises that same exception in the code that called it (also through nested maps), never returns partial results, never runs tasks that depend on the failed one or that had not been started when the error is reported, and leaves the scheduler usable: unrelated maps running at the same time and later ones still give their complete results.',
   ['schedules', 'fault_sequences'], 'every placement of failures in nested and parallel maps under every interleaving',
   'Needs failures at particular points of particular interleavings.',
   [SC], [('Task.run stores the exception', SC), ('_evaluate re-raises', SC)], (), ['Scheduler.map']),
 P('C16', 'Only one task runs at a time, and never a deadlock',
   'At any time at most one worker thread executes code outside of interruptible sections, in every interleaving of nested maps and interruptible blocks, also when blocks are nested, raise, or are entered outside of a task. No program of nested and parallel maps deadlocks, for any number of threads.',
   ['schedules', 'programs'], 'every interleaving of every nesting of maps and interruptible blocks for every thread count',
   'Mutual exclusion and deadlock freedom quantify over all schedules.',
   [SC], [('controlling lock in WorkerThread.run', SC), ('interruptible()', SC), ('_evaluate runs other tasks while waiting', SC)], [('controlling lock', 'held by the thread that runs build code', SC)], ['code of tasks']),
 P('C17', 'Shutting down always ends the threads',
   'After the work is done, shutting the scheduler and the database thread down returns in every interleaving, ends all of their threads, can be repeated, and no task that had been accepted before is dropped without its caller being told.',
   ['schedules'], 'every interleaving of shutdown with idle and busy threads',
   'A lost wake-up shows up in very few schedules.',
   [SC, RP], [('shutdown sends one token per thread', SC), ('RPC.join', RP)], (), ['Scheduler.shutdown', 'RPC.join']),
 P('C18', 'Calls into the database thread are serial and exactly once',
   'Every call made through the procedure call thread is executed exactly once in that thread, one at a time and in the order of submission per caller; its own result or its own exception is delivered to its own caller. A call made before the thread runs or after it ended raises the not-running error instead of blocking, a call made right after starting succeeds, and ending the thread answers everything accepted before.',
   ['schedules', 'fault_sequences'], 'every interleaving of callers, start and end, results and exceptions of every kind',
   'Races between start, call and join need particular schedules.',
   [RP], [('call() enqueues under the lock', RP), ('run()/_process', RP), ('start() waits for the thread', RP)], [('_running', 'whether calls are accepted', RP)], ['RPC.call']),
 P('C19', 'Running a command reports exactly what happened',
   'Executing a command passes arguments, standard input and the merged environment (including library search paths appended to an inherited value) unchanged to the program and returns its complete standard output and error; a non-zero exit raises an execution error carrying command, output, error output and status unless errors are ignored, and a command that cannot be started raises an error.',
   ['inputs', 'configurations'], 'every command, input size, exit status, environment and combination of options',
   'Combinations of options, signals and output sizes are open.',
   [CX, KP, 'lib/fbuild/__init__.py'], [('Context.execute', CX), ('killableprocess.Popen', KP)], (), ['return value or exception of Context.execute', 'what the child process saw']),
 P('C20', 'Timeouts kill the command and everything it started',
   'A command that runs longer than its timeout is killed together with all processes of its group and an execution timeout error is raised; a command that finishes in time is neither killed nor reported as timed out and leaves no timer behind. While a command runs, other tasks can run.',
   ['schedules', 'fault_sequences'], 'every order of timer, process exit and waiting, process trees of any shape',
   'The race between the timer and the exit of the process cannot be provoked by a test.',
   [CX, KP], [('timeout_function and Timer', CX), ('Popen.kill(group=True)', KP), ('interruptible around communicate', CX)], (), ['exception of Context.execute', 'processes alive afterwards']),
 P('C21', 'The command line runs the requested targets and saves',
   'The requested targets (or the default one) run in the given order up to the first that fails; an install target must be last and alone implies a build before it; unknown targets are errors. The exit status is zero exactly if everything succeeded, what completed is saved also when a later step failed, and the temporary directory is empty when the first target starts, removed after success and kept after a failure.',
   ['configurations', 'fault_sequences'], 'every list of targets with failures of every kind at every step',
   'The driver is not tested; sequences of targets and failures are open.',
   [MA, CX, 'lib/fbuild/target.py'], [('build()', MA), ('main() try/finally', MA)], (), ['exit status', 'order of target functions', 'state of the next build']),
 P('C22', 'Installing puts every marked file in place',
   'Every file marked for installation ends up, after a successful installation, below the destination directory and prefix (or directly below the destination for absolute directories) under its own or its new name, with the contents of the source (or as an equal symbolic link), with the requested permissions or else those of the source; installing again, over older files, links or read-only files, gives the same. The source files are not changed.',
   ['inputs', 'histories'], 'every list of installed files, prefixes, names, permissions, links and earlier contents of the destination',
   'There is no test of installation.',
   [IN, CX], [('Context.install computes targets', CX), ('LocalCommander.install', IN)], (), ['destination tree after Installer.install']),
 P('C23', 'Incremental C builds equal clean builds',
   'After any sequence of edits to C sources and to headers they include (also headers included by headers, or newly added or removed includes), deletions of outputs, changes of macros, of the sources of a target and of how libraries use each other, and builds that failed, an incremental build gives the same result as building from scratch: the program behaves according to the current sources, and sources whose inputs did not change are not compiled again.',
   ['histories'], 'every history of edits over include graphs, flags and deleted outputs',
   'Each history is one sample; tests build once.',
   [GC, CI, BI], [('compile() registers the headers', GC), ('build_objects passes on the dependencies', BI), ('link_lib/link_exe are cached calls over objects', BI)], (), ['output of the built program', 'compiler invocations']),
 P('C24', 'Command lines of compilers and linkers are complete',
   'For every combination of options, the compiler command contains every include directory, macro, warning, library path, flag and machine flag given to the builder or the call, each once, every source once, the flags for debugging, profiling and optimising exactly if the call, or else the builder, asks for them, and nothing else; flags and sources keep their order. Libraries (including those that libraries depend on, transitively) appear once each, after all sources and before the libraries they depend on, none of them when only compiling. Archives are made from exactly their objects. Files are named after the conventions of the platform, and the answer carries the libraries it was linked with.',
   ['inputs'], 'every combination of options and every acyclic graph of libraries',
   'Library graphs and combinations of options are unbounded.',
   [GC, CI, 'lib/fbuild/builders/platform.py'], [('Gcc.__call__', GC), ('Ar.__call__', GC), ('Library carries its dependencies', CI), ('names of files', 'lib/fbuild/builders/platform.py')], (), ['the command passed to Context.execute']),
 P('C25', 'File patterns match what they describe',
   'A name matches a pattern exactly if it does by the documented rules for *, ?, character sets, negated sets and alternatives, for all names and patterns including special characters, nested and unterminated groups; filtering keeps order and duplicates; a glob returns exactly the existing paths whose components match, with hidden names only for patterns that start with a dot, ** for any depth, exclusion removing exactly the matches, and an escaped path matching only itself.',
   ['inputs'], 'all patterns and names over the special and ordinary characters, all directory trees',
   'An unbounded input space with rich case analysis; tests list examples.',
   ['lib/fbuild/fnmatch.py', 'lib/fbuild/glob.py', 'lib/fbuild/path.py'], [('translate', 'lib/fbuild/fnmatch.py'), ('_iglob', 'lib/fbuild/glob.py'), ('Path.iglob', 'lib/fbuild/path.py')], (), ['fnmatch, filter, glob, Path.glob']),
 P('C26', 'Arguments are bound exactly as Python binds them',
   'Binding the arguments of a cached call gives each parameter the value that Python would bind to it (defaults, keyword-only, variable positional and keyword parameters and bound methods included), and argument lists that Python would reject are rejected with a type error; so calls that Python treats alike are one cached call.',
   ['inputs'], 'all signatures and all argument lists',
   'Signatures and argument lists are unbounded.',
   [FN], [('normalize_args', FN), ('bind_args', FN)], (), ['bind_args', 'normalize_args']),
 P('C27', 'Platform options apply in order and only where they match',
   'Of a list of platform options exactly those apply whose required features are all present and whose excluded features are all absent; they apply in order, a plain key sets the option, a key with plus appends to the given or an empty value and one with minus removes all listed elements, for strings, lists, tuples and sets. All other options are untouched, and so are the options themselves and the values passed in by the caller of a function that takes platform options.',
   ['inputs'], 'all platforms, matchers, option lists and initial options',
   'Combinations are unbounded; tests use fixed examples.',
   ['lib/fbuild/builders/platform.py'], [('platform_match', 'lib/fbuild/builders/platform.py'), ('parse_platform_options', 'lib/fbuild/builders/platform.py'), ('auto_platform_options', 'lib/fbuild/builders/platform.py')], (), ['parse_platform_options, and what decorated functions receive']),
 P('C28', 'Text and file builders write what they promise',
   'Copying, moving, pattern copying and the substitution builders put a file with exactly the specified contents at the specified place below the build directory, return its name, create missing directories, and write nothing when they fail; building again after the source or the patterns changed or the output was deleted gives the same contents as a first build would.',
   ['inputs', 'histories'], 'all source texts, patterns and destinations and every history of changes',
   'Texts, patterns and destinations are unbounded.',
   ['lib/fbuild/builders/file.py', 'lib/fbuild/builders/text.py'], [('_copy_or_move', 'lib/fbuild/builders/file.py'), ('substitute and friends', 'lib/fbuild/builders/text.py')], (), ['files below the build directory']),
 P('C29', 'Log lines of parallel tasks are complete and unmixed',
   'Every message logged at or below the verbosity appears exactly once on the console, every message appears exactly once in the log file, whatever object it is; messages of one thread keep their order (except that one written without buffering may go ahead of those still buffered), and the text of one message, a check with its result included, is never mixed with that of another thread, nor is what a task writes until its first line is complete.',
   ['schedules'], 'every interleaving of logging tasks, nesting and verbosity',
   'Mixing needs particular interleavings of several writers.',
   ['lib/fbuild/console.py'], [('per-thread buffers and flush', 'lib/fbuild/console.py'), ('log_from_thread', SC)], (), ['standard output and the log file']),
 P('C30', 'The log tells which commands ran and what they said',
   'For every command that is run, the log file gives its messages, the whole command line (with the library paths it was given), everything it wrote to its captured outputs and its exit status, in this order, whatever the verbosity is and whether it succeeded, failed or was killed; output that is no text is given quoted. The console gives exactly those parts that the verbosity asks for: messages from the verbosity of the command on, the command line from verbosity one on or if it failed from the verbosity of the command on, outputs from their own verbosity on or else that of the command, and a command that cannot be started always.',
   ['inputs', 'configurations'], 'every command, outcome, output, verbosity of the build and of the command, alone and in parallel',
   'Verbosities, outcomes and outputs combine freely; no test looks at the log.',
   [CX, 'lib/fbuild/console.py'], [('Context.execute: what is logged', CX), ('Log.write: file and console', 'lib/fbuild/console.py')], (), ['standard output and the log file']),
]

def write():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')


if __name__ == '__main__':
    write()
