#!/usr/bin/env python3
"""Decides one property of the fbuild in /repo.

usage: check.py PROPERTY [--tier quick|thorough] [--replay FILE]

Exit 0 if the property held on everything explored, 1 (with a VIOLATION line)
if it is broken.
"""
import argparse
import importlib
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'harness'))
sys.dont_write_bytecode = True

import lib
import registry

LEVELS = {p: c['level'] for p, c in registry.CHECKS.items()}


class Check:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.quick = tier == 'quick'
        self.level = LEVELS[prop]
        self.started = time.time()
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        self.dir = tempfile.mkdtemp(prefix='check-%s-' % prop, dir=base)
        self.cov = {'samples': []}
        self.assumptions = []
        self.violations = []
        self.replayfile = None

    def sub(self, name):
        d = tempfile.mkdtemp(prefix=name + '-', dir=self.dir)
        return d

    def left(self):
        """Seconds that this check may still use."""
        return (55 if self.quick else 780) - (time.time() - self.started)

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s, most=3):
        if len(self.cov['samples']) < most:
            self.cov['samples'].append(s)

    def violation(self, key, what, replay):
        """`key` identifies the failing input, call site or history."""
        self.violations.append((key, what, replay))

    def known(self):
        out = []
        path = os.path.join(HERE, 'known-findings.txt')
        if os.path.exists(path):
            with open(path) as f:
                for line in f:
                    if line.startswith('finding: '):
                        k = json.loads(line[len('finding: '):])
                        if k['property'] == self.prop:
                            out.append(k)
        return out

    def finish(self):
        known = self.known()
        new = []
        seen = set()
        for key, what, replay in self.violations:
            for k in known:
                if k['key'] == key:
                    if key not in seen:
                        seen.add(key)
                        print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
                    break
            else:
                new.append((key, what, replay))
        ev = os.path.join(HERE, 'evidence')
        os.makedirs(os.path.join(ev, 'replay'), exist_ok=True)
        path = ''
        if new:
            key, what, replay = new[0]
            path = os.path.join(ev, 'replay', '%s.json' % self.prop)
            with open(path, 'w') as f:
                json.dump({'property': self.prop, 'key': key, 'what': what, 'replay': replay,
                           'others': [[k, w] for k, w, _ in new[1:50]]}, f, indent=1, default=str)
            for key, what, _ in new[:10]:
                print('  %s: %s' % (key, what))
        if not self.replayfile:
            with open(os.path.join(ev, '%s.json' % self.prop), 'w') as f:
                json.dump({'property': self.prop, 'tier': self.tier, 'seed': self.seed,
                           'level': self.level, 'coverage': self.cov, 'assumptions': self.assumptions,
                           'wall_s': round(time.time() - self.started, 2), 'violations': len(new)},
                          f, indent=1, default=str)
        if new:
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        print('%s held: %s (%.1f s)' % (self.prop, ', '.join(
            '%s=%s' % (k, v) for k, v in sorted(self.cov.items()) if isinstance(v, (int, float))),
            time.time() - self.started))
        return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', choices=['quick', 'thorough'], default=lib.tier())
    ap.add_argument('--seed', type=int, default=lib.seed())
    ap.add_argument('--replay')
    a = ap.parse_args()
    spec = registry.CHECKS[a.property]
    c = Check(a.property, a.tier, a.seed)
    try:
        mod = importlib.import_module(spec['module'])
        if a.replay:
            with open(a.replay) as f:
                c.replayfile = json.load(f)
            if c.replayfile['replay'].get('diverged'):
                mod.run(c)
            else:
                mod.replay(c, c.replayfile['replay'])
        else:
            mod.run(c)
        rc = c.finish()
    except lib.Diverged as e:
        c.violation('diverged %s' % e.case, e.what, {'diverged': e.case})
        rc = c.finish()
    except lib.Error as e:
        print('ERROR: %s' % e)
        rc = 2
    finally:
        shutil.rmtree(c.dir, ignore_errors=True)
    return rc


if __name__ == '__main__':
    sys.exit(main())
