"""Asks the real functions; see the modes below.

usage: fnworker.py IN.ndjson OUT.ndjson
"""
import copy
import json
import os
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(REPO, 'lib'))
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')


def text(codes):
    return ''.join(map(chr, codes))


def fnmatch(it):
    import fbuild.fnmatch as m
    p = text(it['p'])
    out = {'yes': [], 'filtered': [], 'error': ''}
    try:
        names = [text(n) for n in it['names']]
        if it.get('bytes'):
            p = p.encode('latin-1')
            names = [n.encode('latin-1') for n in names]
        ask = m.fnmatchcase if it.get('case') else m.fnmatch
        out['yes'] = [k for k, n in enumerate(names, 1) if ask(n, p)]
        # The same names again, so that it is seen which ones are kept.
        kept = m.filter(names + names, p)
        half = kept[:len(kept) // 2]
        pos = {}
        for k, n in enumerate(names, 1):
            pos.setdefault(n, []).append(k)
        out['filtered'] = []
        if kept == half + half:
            for n in half:
                out['filtered'].append(pos[n].pop(0) if pos[n] else -1)
    except Exception as e:
        out['error'] = '%s: %s' % (type(e).__name__, e)
    return out


def glob(it):
    """A tree in a directory of its own, and questions about it."""
    import shutil
    import fbuild.glob
    import fbuild.fnmatch
    from fbuild.path import Path
    root = os.path.join(os.environ['FN_TMP'], 'g%d-%s' % (os.getpid(), it['id']))
    os.mkdir(root)
    os.chdir(root)
    out = {'qs': []}
    try:
        for e in it['tree']:
            p = '/'.join(text(n) for n in e['p'])
            if e['k'] == 'd':
                os.mkdir(p)
            elif e['k'] == 'l':
                os.symlink('no-such-file', p)
            else:
                open(p, 'w').close()
        for q in it['qs']:
            r = {'got': [], 'error': '', 'parts': [], 'escaped': []}
            out['qs'].append(r)
            try:
                pats = [text(p) for p in q['pats']]
                excl = [text(p) for p in q['excl']]
                pre = root + '/' if q.get('abs') else ''
                how = q['how']
                if q['kind'] == 'find':
                    base = '/'.join([pre.rstrip('/')] * bool(pre) + [text(n) for n in q['base']]) or '.'
                    args = [pats[0]] if pats else []
                    got = list(Path(base).find(*args, include_dirs=q['dirs']))
                    strip = len(pre) if pre else 2 if base == '.' else 0
                    r['got'] = [[ord(c) for c in g[strip:]] for g in got]
                    continue
                if q['kind'] == 'escape':
                    r['escaped'] = [ord(c) for c in fbuild.glob.escape(text(q['text']))]
                    pats = [fbuild.glob.escape(text(q['text']))]
                pats = [pre + p for p in pats]
                excl = [pre + p for p in excl]
                if how == 'glob':
                    parts = [fbuild.glob.glob(p) for p in pats]
                    got = [g for part in parts for g in part]
                elif how == 'bytes':
                    parts = [fbuild.glob.glob(p.encode('latin-1')) for p in pats]
                    got = [g.decode('latin-1') for part in parts for g in part]
                else:
                    e = excl[0] if len(excl) == 1 and q.get('plain') else excl
                    if how == 'path':
                        got = Path(pats[0]).glob(exclude=e)
                    elif how == 'all':
                        got = Path.globall(*pats, exclude=e)
                    else:
                        got = Path.globall(pats[0], [pats[1:]], exclude=e) if len(pats) > 1 else Path.globall(pats, exclude=e)
                    parts = [Path(p).glob(exclude=e) for p in pats]
                    if not all(isinstance(g, Path) for g in got):
                        r['error'] = 'not a Path'
                if how == 'bytes':
                    parts = [[g.decode('latin-1') for g in part] for part in parts]
                if not all(g.startswith(pre) for g in got):
                    r['error'] = 'elsewhere'
                r['got'] = [[ord(c) for c in g[len(pre):]] for g in got]
                r['parts'] = [[[ord(c) for c in g[len(pre):]] for g in part] for part in parts]
            except Exception as e:
                r['error'] = '%s: %s' % (type(e).__name__, e)
    finally:
        os.chdir('/')
        shutil.rmtree(root)
    return out


def signature(sig, method):
    """The text of the parameters."""
    out = ['self'] * method
    kinds = [p['k'] for p in sig]
    star = False
    for k, p in enumerate(sig):
        if p['k'] == 'ko' and not star:
            if 'va' not in kinds:
                out.append('*')
            star = True
        if p['k'] == 'va':
            star = True
        t = {'va': '*', 'vk': '**'}.get(p['k'], '') + p['n']
        if p['d']:
            t += '=%d' % (1001 + k)
        out.append(t)
        if p['k'] == 'po' and (k + 1 == len(sig) or sig[k + 1]['k'] != 'po'):
            out.append('/')
    return ', '.join(out)


# Values that are false, and none of them is another one.
FALSE = {1: None, 2: 0, 3: '', 5: (), 6: frozenset(), 8: b''}


def value(it, v):
    return FALSE.get(v, v) if it.get('false') else v


def number(it, v):
    if it.get('false'):
        for k, x in FALSE.items():
            if type(v) is type(x) and v == x:
                return k
    return v


def observe(it, bound):
    """The values at the places of the signature."""
    sig = it['sig']
    out = []
    for p in sig:
        v = bound[p['n']]
        if p['k'] == 'va':
            if type(v) is not tuple:
                raise ValueError('not a tuple')
            v = [number(it, x) for x in v]
        elif p['k'] == 'vk':
            if type(v) is not dict:
                raise ValueError('not a dictionary')
            v = [[k, number(it, x)] for k, x in v.items()]
        else:
            v = number(it, v)
        out.append(v)
    if set(bound) != set(p['n'] for p in sig):
        raise ValueError('more is bound')
    return out


_ctx = None


def context(tmp):
    global _ctx
    import fbuild.context
    if _ctx is None:
        os.chdir(tmp)
        _ctx = fbuild.context.make_default_context(['--database=cache'])
        _ctx.create_buildroot()
        _ctx.db.connect()
        _ctx.logger.verbose = -100
    return _ctx


def bind(it):
    """Binds arguments: by Python itself, by bind_args, and by cached calls.
    """
    import importlib
    import fbuild.functools
    import fbuild.db
    sig = it['sig']
    method = it['method']
    params = signature(sig, method)
    names = ', '.join('%r: %s' % (p['n'], p['n']) for p in sig)
    src = ('import fbuild.db\nRAN = []\n'
           'class C:\n    def plain(%s):\n        return {%s}\n' % (params, names)) if method else (
           'import fbuild.db\nRAN = []\ndef plain(%s):\n    return {%s}\n' % (params, names))
    cached = it['cached']
    if cached and method:
        src += ('class P(fbuild.db.PersistentObject):\n    @fbuild.db.cachemethod\n    def cached(%s):\n'
                '        RAN.append(1)\n        return {%s}\n' % (params, names))
    elif cached:
        src += ('@fbuild.db.caches\ndef cached(%s):\n    RAN.append(1)\n    return {%s}\n' % (
            params, ', '.join('%r: %s' % (p['n'], p['n']) for p in sig if p['n'] != 'ctx')))
    modname = 'sigs_' + it['id'].replace('-', '_')
    tmp = os.path.join(os.environ['FN_TMP'], 'm%d' % os.getpid())
    if tmp not in sys.path:
        os.mkdir(tmp)
        sys.path.insert(0, tmp)
    with open(os.path.join(tmp, modname + '.py'), 'w') as f:
        f.write(src)
    importlib.invalidate_caches()
    mod = importlib.import_module(modname)
    fn = mod.C().plain if method else mod.plain
    if cached:
        context(tmp)
    if cached and method:
        cfn = mod.P(_ctx).cached
    elif cached:
        cfn = mod.cached
    out = {'python': [], 'bound': [], 'cached': []}
    no = {'rejected': True, 'got': [], 'ran': False}
    for call in it['calls']:
        args = [value(it, x) for x in call['args']]
        kws = {x['n']: value(it, x['v']) for x in call['kws']}
        try:
            out['python'].append({'rejected': False, 'got': observe(it, fn(*args, **kws)), 'ran': True})
        except TypeError:
            out['python'].append(no)
        try:
            out['bound'].append({'rejected': False, 'ran': False,
                                 'got': observe(it, fbuild.functools.bind_args(fn, tuple(args), dict(kws)))})
        except TypeError:
            out['bound'].append(no)
        except (ValueError, KeyError):
            out['bound'].append({'rejected': False, 'got': [[-1]] * len(sig), 'ran': False})
        if cached:
            del mod.RAN[:]
            # The context is the first parameter of functions.
            cargs = list(args)
            ckws = dict(kws)
            if not method:
                if args:
                    cargs[0] = _ctx
                elif 'ctx' in ckws:
                    ckws['ctx'] = _ctx
            try:
                r = cfn(*cargs, **ckws)
                if not method:
                    r = dict(r, ctx=7)
                out['cached'].append({'rejected': False, 'got': observe(it, r), 'ran': bool(mod.RAN)})
            except TypeError:
                out['cached'].append(dict(no, ran=bool(mod.RAN)))
    return out


OPTMOD = """
import fbuild.db
from fbuild.builders.platform import auto_platform_options

@auto_platform_options()
def function(ctx, **kw):
    return kw

@auto_platform_options(pass_platform=True)
def passing(ctx, **kw):
    return kw

class Plain:
    def __init__(self, ctx):
        self.ctx = ctx
    @auto_platform_options()
    def method(self, *args, **kw):
        return kw

class Other:
    @auto_platform_options()
    def method(self, ctx, *args, **kw):
        return kw

class P(fbuild.db.PersistentObject):
    @fbuild.db.cachemethod
    @auto_platform_options()
    def method(self, n, **opts):
        return opts
    @auto_platform_options()
    def named(self, n, *, flags=0, macros=0, libs=0):
        return {k: v for k, v in (('flags', flags), ('macros', macros), ('libs', libs)) if v != 0}
"""


def to_value(v):
    return {'none': lambda x: None, 'other': lambda x: len(x), 'str': ''.join, 'list': list, 'tuple': tuple, 'set': set}[v['t']](v['v'])


def from_value(v):
    t = {type(None): 'none', int: 'other', str: 'str', list: 'list', tuple: 'tuple', set: 'set'}.get(type(v), 'unknown')
    return {'t': t, 'v': [] if v is None else ['x'] * v if t == 'other' else sorted(v) if t == 'set' else list(v)}


def options(it):
    import importlib
    tmp = os.path.join(os.environ['FN_TMP'], 'm%d' % os.getpid())
    if tmp not in sys.path:
        os.mkdir(tmp)
        sys.path.insert(0, tmp)
        with open(os.path.join(tmp, 'optmod.py'), 'w') as f:
            f.write(OPTMOD)
        importlib.invalidate_caches()
    import optmod
    from fbuild.builders.platform import parse_platform_options
    ctx = context(tmp)
    entries = [({('!' if m['neg'] else '') + m['f'] for m in e['match']},
                {ch['key'] + ch['op'].strip('='): to_value(ch['val']) for ch in e['changes']}) for e in it['entries']]
    out = {'uses': []}
    for n, u in enumerate(it['uses']):
        given = {x['key']: to_value(x['val']) for x in u['given']}
        platform = None if u['guess'] else frozenset(u['platform'])
        r = {'error': '', 'got': [], 'after': []}
        out['uses'].append(r)
        try:
            how = u['how']
            kw = dict(given)
            if how == 'parse':
                # This one extends the lists in place, as its callers expect.
                kw = copy.deepcopy(given)
                parse_platform_options(ctx, platform, entries, kw)
                got = kw
            else:
                kw['platform_options'] = entries
                if platform is not None or u['none']:
                    kw['platform'] = platform
                if how == 'function':
                    got = optmod.function(ctx, **kw)
                elif how == 'passing':
                    got = optmod.passing(ctx, **kw)
                    if got.pop('platform', None) != platform:
                        raise ValueError('another platform')
                elif how == 'method':
                    got = optmod.Plain(ctx).method(1, **kw)
                elif how == 'other':
                    got = optmod.Other().method(ctx, 1, **kw)
                elif how == 'cached':
                    got = optmod.P(ctx).method(it['id'], **kw)
                elif how == 'named':
                    got = optmod.P(ctx).named(it['id'], **kw)
            r['got'] = [{'key': k, 'val': from_value(v)} for k, v in got.items()]
        except Exception as e:
            r['error'] = '%s: %s' % (type(e).__name__, e)
        r['after'] = [{'key': x['key'], 'val': from_value(given[x['key']])} for x in u['given']]
    out['after'] = [{'changes': [{'val': from_value(v)} for v in e[1].values()]} for e in entries]
    return out


def snapshot(root, skip=()):
    out = []
    for base, dirs, files in os.walk(root):
        for d in list(dirs):
            if os.path.islink(os.path.join(base, d)):
                files.append(d)
            elif os.path.relpath(os.path.join(base, d), root) in skip:
                dirs.remove(d)
        for f in files:
            p = os.path.join(base, f)
            rel = os.path.relpath(p, root)
            if rel in skip:
                continue
            if os.path.islink(p):
                out.append({'p': rel, 'k': 'l', 'c': os.readlink(p), 'm': 0})
            else:
                m = os.stat(p).st_mode & 0o7777
                os.chmod(p, m | 0o400)
                with open(p) as fp:
                    out.append({'p': rel, 'k': 'f', 'c': fp.read(), 'm': m})
                os.chmod(p, m)
    return out


def put(root, e):
    p = os.path.join(root, e['p'])
    if os.path.lexists(p):
        os.remove(p)
    if e['k'] == 'no':
        return
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if e['k'] == 'l':
        os.symlink(e['c'], p)
    else:
        with open(p, 'w') as f:
            f.write(e['c'])
        os.chmod(p, e['m'])


def install(it):
    """A history of installations by the real Installer."""
    import shutil
    import stat
    import fbuild.context
    import fbuild.install
    root = os.path.join(os.environ['FN_TMP'], 'i%d-%s' % (os.getpid(), it['id']))
    os.mkdir(root)
    os.chdir(root)
    path = os.environ['PATH']
    out = {'rounds': []}
    try:
        os.mkdir('.bin')
        with open('.bin/pkexec', 'w') as f:
            f.write('#!/bin/sh\nexport PATH=%s PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=%s/lib\nchmod u+w %s/D\nexec "$@"\n' % (path, REPO, root))
        os.chmod('.bin/pkexec', 0o755)
        os.environ['PATH'] = root + '/.bin'
        for e in it['tree']:
            put(root, e)
        for n, rd in enumerate(it['rounds']):
            r = {'error': '', 'got': []}
            out['rounds'].append(r)
            for e in rd['edits']:
                put(root, e)
            try:
                ctx = fbuild.context.make_default_context(['--database=cache', '--buildroot=.build%d' % n])
                try:
                    ctx.create_buildroot()
                    ctx.load_configuration()
                    ctx.logger.verbose = -100
                    for mk in rd['marks']:
                        how = mk['how']
                        dest = '/'.join(([root] if 'A' in how else []) + mk['dest'])
                        pre = ('/' if 'P' in how else '') + '/'.join(mk['prefix'])
                        ctx.install_destdir = dest
                        ctx.install_prefix = pre
                        sub = ('//' if 'S' in how else '/') * mk['absolute'] + '/'.join(mk['sub']) + ('/' if 'T' in how and mk['sub'] else '')
                        src = (root + '/' if 'F' in how else '') + mk['file']
                        kw = {}
                        if mk['rename']:
                            kw['rename'] = mk['rename']
                        if mk['perms'] >= 0:
                            kw['perms'] = mk['perms']
                        ctx.install(src, sub, **kw)
                    os.makedirs(os.path.join(root, 'D'), exist_ok=True)
                    ctx.install_destdir = 'D'
                    if rd['elsewhere']:
                        ctx.install_destdir = root + '/D'
                    if rd['polkit']:
                        os.chmod('D', 0o555)
                    installer = fbuild.install.Installer(ctx)
                    if rd['elsewhere']:
                        os.chdir('.bin')
                    installer.install()
                finally:
                    os.chdir(root)
                    ctx.save_configuration()
                    ctx.db.shutdown()
                    ctx.scheduler.shutdown()
            except (Exception, SystemExit) as e:
                r['error'] = '%s: %s' % (type(e).__name__, e)
            os.chmod(root + '/D', 0o755)
            r['got'] = snapshot(root, ('.bin',) + tuple('.build%d' % k for k in range(n + 1)))
    finally:
        os.environ['PATH'] = path
        os.chdir('/')
        shutil.rmtree(root)
    return out


def to_subst(v):
    return {'str': lambda: text(v['v']), 'int': lambda: int(text(v['v'])), 'true': lambda: True, 'false': lambda: False,
            'none': lambda: None, 'list': lambda: [text(x) for x in v['items']]}[v['t']]()


def files(it):
    """A history of edits and builds with the builders of files and texts."""
    import re
    import shutil
    import fbuild.builders.file as bf
    import fbuild.builders.text as bt
    import fbuild.context
    root = os.path.join(os.environ['FN_TMP'], 'f%d-%s' % (os.getpid(), it['id']))
    os.mkdir(root)
    os.mkdir(root + '/.state')
    os.chdir(root)
    clock = 1000000000
    out = {'steps': []}
    pathof = lambda p: [ord(ch) for ch in p]
    try:
        for n, st in enumerate(it['steps']):
            r = {'ans': [], 'got': []}
            out['steps'].append(r)
            if st['op'] == 'write':
                p = text(st['p'])
                os.makedirs(os.path.dirname(p) or '.', exist_ok=True)
                with open(p, 'w') as f:
                    f.write(text(st['t']))
                clock += 10
                os.utime(p, (clock, clock))
                continue
            if st['op'] == 'delete':
                if 'some' in st:
                    # One of the outputs that are there.
                    there = sorted(os.path.relpath(os.path.join(b, f), '.') for b, ds, fs in os.walk('build') for f in fs)
                    if there:
                        p = there[int(st['some'] * len(there))]
                        r['p'] = pathof(p)
                        os.remove(p)
                else:
                    os.remove(text(st['p']))
                continue
            ctx = fbuild.context.make_default_context([
                '--state-file=' + root + '/.state/db', '--log-file=' + root + '/.state/log', '--database-engine=' + it['engine']])
            try:
                ctx.create_buildroot()
                ctx.load_configuration()
                ctx.logger.verbose = -100
                for call in st['calls']:
                    src = text(call['src'])
                    dst = text(call['dst'])
                    if call['how2'] == 'below' and not dst.startswith('build/'):
                        dst = 'build/' + dst
                    if call['how2'] == 'path':
                        dst = fbuild.path.Path(dst)
                    if call['slash']:
                        dst = dst + '/'
                    if call['kind'] in ('subst', 'format', 'conf', 'header'):
                        pats = {text(x['key']): to_subst(x['val']) for x in call['pats']}
                    elif call['kind'] == 'regex':
                        pats = []
                        for x in call['res']:
                            flags = (re.M if x['m'] else 0) | (re.I if x['i'] else 0)
                            esc = lambda t: text(t).replace('\\', r'\\')
                            e = ('^' if x['start'] else '') + re.escape(text(x['lit'])) + ('$' if x['end'] else '')
                            new = esc(x['before']) + (r'\g<0>' if x['keep'] else '') + esc(x['after'])
                            pats.append((e, new) if flags == re.M and x['plain'] else (e, new, flags))
                    try:
                        if call['kind'] == 'subst':
                            ret = bt.substitute(ctx, dst, src, pats)
                        elif call['kind'] == 'regex':
                            ret = bt.regex_substitute(ctx, dst, src, pats)
                        elif call['kind'] == 'format':
                            ret = bt.format_substitute(ctx, dst, src, pats)
                        elif call['kind'] == 'conf':
                            ret = bt.autoconf_config_file(ctx, dst, src, pats)
                        elif call['kind'] == 'header':
                            ret = bt.autoconf_config_header(ctx, dst, src, pats)
                        elif call['kind'] == 'copy':
                            ret = bf.copy(ctx, src, dst)
                        elif call['kind'] == 'move':
                            ret = bf.move(ctx, src, dst)
                        elif call['kind'] == 'copyre':
                            fr, to = text(call['from']), text(call['to'])
                            sp, dp = {'end': (re.escape(fr) + '$', to), 'begin': ('^' + re.escape(fr), to),
                                      'group': ('^(.*)' + re.escape(fr) + '$', to + r'\1' + fr)}[call['how']]
                            kw = {'exclude_pattern': re.escape(text(call['excl']))} if call['excl'] else {}
                            ret = bf.copy_regex(ctx, srcdir=src, dstdir=dst, src_pattern=sp, dst_pattern=dp, include_dirs=call['dirs'], **kw)
                        r['ans'].append({'error': False, 'ret': [pathof(p) for p in (ret if call['kind'] == 'copyre' else [ret])]})
                    except Exception as e:
                        r['ans'].append({'error': True, 'ret': [], 'what': '%s: %s' % (type(e).__name__, e)})
            finally:
                ctx.save_configuration()
                ctx.db.shutdown()
                ctx.scheduler.shutdown()
            for base, dirs, names in os.walk('.'):
                if base == '.':
                    dirs.remove('.state')
                for f in names:
                    p = os.path.normpath(os.path.join(base, f))
                    with open(p, newline='') as fp:
                        r['got'].append({'p': pathof(p), 't': [ord(ch) for ch in fp.read()]})
    finally:
        os.chdir('/')
        shutil.rmtree(root)
    return out


def main():
    src, dst = sys.argv[1:3]
    with open(src) as f, open(dst, 'w') as o:
        for line in f:
            it = json.loads(line)
            try:
                r = globals()[it['mode']](it)
            except Exception:
                r = {'crash': traceback.format_exc()[-1500:]}
            r['id'] = it['id']
            o.write(json.dumps(r) + '\n')
    if _ctx is not None:
        o.close()
        os._exit(0)


if __name__ == '__main__':
    main()
