"""Writes the "fixed:" lines of known-findings.txt, and checks that each fix
commit of /repo has one."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = {
 'rerun a call when one of its external sources disappeared': ('C02', 'a registered source that was deleted did not make its call run again, or the build died with an OSError'),
 'sqlite forgot which calls use an external file when it changed': ('C02', 'sqlite: after a registered file changed, other calls that use it were answered from the cache'),
 'sqlite dropped unchanged external dsts of a call': ('C02', 'sqlite: registered outputs were lost when the call was executed again'),
 'do not save half of a call if an external source cannot be read': ('C08', 'registering a source that does not exist left a half-stored call, answered from the cache later'),
 'track the active cached call per task instead of in a shared list': ('C12', 'with several threads, registered files and called functions were attributed to other calls'),
 'notice changes in called functions that were already rerun': ('C05', 'a changed callee that had already run again did not make its callers run again'),
 'do not crash on a called function whose module is not imported yet': ('C05', 'KeyError in every build after a callee was removed or is not imported yet'),
 'recreate a persistent object when its constructor changed': ('C04', 'a changed constructor of a persistent class was not noticed'),
 'persistent objects with additional members are not equal': ('C06', 'methods of different persistent objects shared their results'),
 'sqlite always reported deleted functions and files as not cached': ('C11', 'sqlite: --delete-function and --delete-file of known ones ended with an error'),
 'do not mark an outdated database as up to date before removing it': ('C10', 'stopped between stamping and removing an outdated state, the next build used it'),
 'do not lose the pickle database when stopped while saving it': ('C09', 'pickle: killed while saving, the next build could not load its state'),
 'start clean if the pickle database cannot be loaded': ('C10', 'pickle: an empty or incomplete state file, or one that refers to removed classes, ended every build'),
 'sqlite ignores calls with values that do not exist anymore': ('C10', 'sqlite: stored values of removed classes ended every build'),
 'sqlite saved the database in spite of --do-not-save-database': ('C11', 'sqlite: --do-not-save-database saved the state'),
 'modifying the result or an argument of a call modified the cache': ('C06', 'a caller that modified a returned list changed what later calls returned'),
 'an overriding cached method got the result of the one it overrides': ('C06', 'super() calls of an overridden cached method returned the result of the overriding one'),
 'shutting down the scheduler could hang': ('C17', 'a nested map took the wake up call of another worker and shutdown() never returned'),
 'tasks that called sys.exit() killed their worker thread': ('C15', 'a SystemExit in a task became an AttributeError, and ended the worker thread'),
 'do not run cancelled tasks': ('C15', 'tasks of a failed map were started after it had reported the error'),
 'name the files of dependency loops of three and more files': ('C14', 'the error for a cycle of three named nobody'),
 "interruptible() released the lock of another thread": ('C16', 'nested or outside of tasks, interruptible() let two tasks run at the same time'),
 'calls right after starting the rpc thread could fail': ('C18', 'RPCNotRunning from a call made after start() returned'),
 'do not wait forever for an rpc thread that ended': ('C18', 'callers and join() waited forever after a fatal error or a second join()'),
 'rpc calls raised results that are exceptions': ('C18', 'a returned exception object was raised'),
 'an rpc call after an interrupted one could return too early': ('C18', 'the call after an interrupted one failed with an assertion'),
 'start the rpc thread with its own event': ('C18', 'the attribute _started replaced the one of Thread, so start() still returned too early'),
 "don't wait for an rpc thread that just starts": ('C18', 'join() while the thread is starting waited forever'),
 'keep the pieces of log lines together': ('C29', 'lines of other threads appeared in the middle of a line'),
 'names with newlines matched file patterns wrongly': ('C25', 'names with newlines: * did not match them, and a did match a\\n'),
 "'**' below anything but a directory found a file that does not exist": ('C25', "no-such/** and file/** found no-such/ and file/"),
 'nested patterns ignored what to exclude': ('C25', 'Path.globall([p], exclude=e) returned files that match e'),
 "'**/**' found an empty path": ('C25', '**/** found an empty path'),
 'cached calls accepted too many positional arguments': ('C26', 'f(ctx, 1, 2) got the cached answer of f(ctx, 1) for def f(ctx, a, *, b=0)'),
 'positional-only arguments of cached calls': ('C26', 'f(ctx, a=1) was accepted, and f(ctx, 1, a=2) rejected for def f(ctx, a, /, **kw)'),
 'parameters named kw or kwargs of cached functions': ('C26', 'f(ctx, kw=3) ended with a TypeError for def f(ctx, kw)'),
 'parameters of cached functions named self or function': ('C26', 'f(ctx, function=1) ended with a TypeError for def f(ctx, function)'),
 'platform options modified the values they add to': ('C27', 'flags+ appended to the list of the caller and to the options themselves, and failed for sets'),
 'adding platform options to a list extends it in place again': ('C27', 'parse_platform_options() extends the lists it is given, which its test relies on; only the decorated functions must not'),
 'configure install built before it configured': ('C21', 'configure install ran build before configure, and install build install was accepted'),
 'interrupts that were ignored ended the build with a TypeError': ('C21', 'SIGINT ended a build with a TypeError although it was started with interrupts ignored'),
 'an interrupt could hang the build': ('C21', 'SIGINT while the main thread adds a task: the handler waited for the lock of the queue forever'),
 '--rebuild --do-not-save-database removed the saved state': ('C11', '--rebuild --do-not-save-database removed the saved state'),
 'installing changed the permissions of the source and failed over old files': ('C22', 'perms were set for the source instead of the target; read-only targets and links in the way'),
 'install paths with more than one leading slash left the destination': ('C22', "ctx.install(f, '//bin') installed into /bin"),
 'moving a file failed in every build but the first': ('C28', 'every build after the first ended with a FileNotFoundError; moving is not cached any more, and leaves files that were moved'),
 'commands with a preexec_fn failed': ('C19', 'Context.execute(preexec_fn=f) called f with the process instead of calling it in the child without arguments, and failed'),
 'killed commands were left as zombies': ('C20', 'a command that was killed after its timeout was not waited for'),
 'commands that finished in time were reported as timed out': ('C20', 'a command that had ended in time, but whose output was still read when the time was over, was reported as timed out'),
 'headers and sources with spaces or # in their names were misunderstood': ('C23', 'compiling a source that includes a header with a space, # or $ in its name failed with FileNotFoundError, or was repeated in every build'),
 'programs were not linked again when libraries of their libraries changed': ('C23', 'a program linked with a static library that uses another static library kept the old code of the other one'),
 'programs did not find the shared libraries of their libraries': ('C23', 'run() of a program linked with a shared library that uses a library in another directory failed with status 127'),
 'static libraries kept objects that were taken out of them': ('C23', 'after a source was taken out of a static library, the library still had its object'),
 'objects with [, ?, * or { in their names were left out of static libraries': ('C23', 'a static library lost the objects of sources with [, ?, * or { in their names'),
 'static libraries could not be linked with libpaths': ('C24', 'link_lib(libpaths=...) of a static builder raised a TypeError'),
 'linking took forever when libraries shared many libraries': ('C24', 'linking with libraries that share libraries on 30 levels did not end'),
 'log any object from a task': ('C29', 'logging an object that is no string from a task raised an AttributeError and lost the message'),
}

# Defects that are not repaired: (property, key of the violation, what fails).
FINDINGS = [
 ('C28', 'substitute: patterns p1, then p2, then p1 again for one output',
  'substitute() of the same source and output with patterns p1, then p2, then p1 again leaves the contents of p2: the third call is answered from the cache, which does not watch the contents of outputs'),
 ('C23', 'macros m1, then m2, then m1 again for one program',
  'building a program with macros m1, then m2, then m1 again leaves the program (and objects) made with m2: the third build is answered from the cache, which does not watch the contents of outputs'),
]


def main():
    log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], stdout=subprocess.PIPE,
                         check=True).stdout.decode().splitlines()
    lines = []
    ok = True
    seen = set()
    for line in log:
        h, s = line.split(' ', 1)
        if s.startswith('fix: '):
            s = s[5:]
            if s not in FIXED:
                print('no entry for: ' + line)
                ok = False
                continue
            seen.add(s)
            lines.append('fixed: property=%s %s %s' % (FIXED[s][0], h, FIXED[s][1]))
    for s in FIXED:
        if s not in seen:
            print('no commit for: ' + s)
            ok = False
    path = os.path.join(HERE, 'known-findings.txt')
    keep = ['finding: ' + json.dumps({'property': p, 'key': k, 'what': w}) for p, k, w in FINDINGS]
    with open(path, 'w') as f:
        f.write(''.join(l + '\n' for l in keep + lines))
    return 0 if ok else 1


if __name__ == '__main__':
    sys.exit(main())
