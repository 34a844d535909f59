"""Checks that what the machinery needs is here, and that the specifications
parse.  Nothing has to be built: the checks run the Python code of /repo."""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'harness'))
import lib

ok = True
for tool in ('java', 'gcc'):
    if not shutil.which(tool):
        print('missing: ' + tool)
        ok = False
r = subprocess.run([lib.PY, '-c', 'import sys; sys.path.insert(0, %r); import fbuild.main' % os.path.join(lib.REPO, 'lib')],
                   env=lib.env())
ok = ok and r.returncode == 0
for f in sorted(os.listdir(lib.SPEC)):
    if f.endswith('.tla'):
        p = subprocess.run(['java', '-cp', lib.TLA_CP, 'tla2sany.SANY', f], cwd=lib.SPEC, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, env=lib.env())
        text = p.stdout.decode()
        if p.returncode or 'Errors:' in text or 'Could not' in text:
            print(text[-2000:])
            ok = False
sys.exit(0 if ok else 1)
