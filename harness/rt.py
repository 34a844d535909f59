"""Runtime of the generated build descriptions.

It runs inside the fbuild process.  The cached functions of a generated
fbuildroot.py are empty shells which call `body` here; what they do (read,
write, register, call other cached functions, fail) is looked up in a plan.
Everything observable is appended to a trace file, one JSON event per line.
"""
import contextlib
import hashlib
import json
import os
import sys
import threading
import time

PLAN = None
FD = None
_tls = threading.local()
_next = [0]
_lock = None
ROOT = {}
OPS = []


def setup(plan, fd):
    global PLAN, FD, _lock
    PLAN = plan
    FD = fd
    _next[0] = plan.get('first_id', 0)
    ROOT.clear()


def log(e, **kw):
    kw['e'] = e
    os.write(FD, (json.dumps(kw) + '\n').encode())


def h(*parts):
    return hashlib.md5('\0'.join(map(str, parts)).encode()).hexdigest()[:8]


def content(path):
    try:
        with open(path, 'rb') as f:
            return hashlib.md5(f.read()).hexdigest()[:8]
    except OSError:
        return '-'


# ---------------------------------------------------------------- values

def dec(v):
    """Decode a value of the plan."""
    import fbuild.path
    if isinstance(v, dict):
        t, x = v['t'], v.get('v')
        if t == 'raw':
            return x
        if t == 'path':
            return fbuild.path.Path(x)
        if t == 'tuple':
            return tuple(dec(y) for y in x)
        if t == 'list':
            return [dec(y) for y in x]
        if t == 'dict':
            return {dec(k): dec(y) for k, y in x}
        if t == 'set':
            return {dec(y) for y in x}
        if t == 'fset':
            return frozenset(dec(y) for y in x)
        if t == 'bytes':
            return x.encode()
        if t == 'float':
            return float(x)
        if t == 'obj':
            import fbuildroot
            return fbuildroot.Plain(dec(x))
        if t == 'rec':
            import fbuild.record
            return fbuild.record.Record(**{k: dec(y) for k, y in x})
        if t == 'pobj':
            return ROOT['pobj'](dec(x))
        raise ValueError(t)
    return v


def enc(v, typed=True):
    """Canonical text of a value.  With typed=False two values get the same
    text exactly if they compare equal (over the pool of values we use)."""
    import fbuild.path
    import fbuild.db
    import fbuild.record
    if v is None:
        return 'None'
    if isinstance(v, bool):
        return repr(v) if typed else 'n:%r' % float(v)
    if isinstance(v, (int, float)):
        return repr(v) if typed else 'n:%r' % float(v)
    if isinstance(v, str):
        if typed and type(v) is not str:
            return '%s:%s' % (type(v).__name__, json.dumps(str(v)))
        return json.dumps(str(v))
    if isinstance(v, bytes):
        return 'b' + json.dumps(v.decode('latin1'))
    if isinstance(v, (tuple, list)):
        return '%s(%s)' % (type(v).__name__, ','.join(enc(x, typed) for x in v))
    if isinstance(v, (set, frozenset)):
        n = type(v).__name__ if typed else 'set'
        return '%s{%s}' % (n, ','.join(sorted(enc(x, typed) for x in v)))
    if isinstance(v, fbuild.record.Record):
        return ('Record' if typed else 'dict') + '{%s}' % ','.join(sorted('%s:%s' % (enc(k, typed), enc(x, typed)) for k, x in v.items()))
    if isinstance(v, dict):
        return 'dict{%s}' % ','.join(sorted('%s:%s' % (enc(k, typed), enc(x, typed)) for k, x in v.items()))
    if hasattr(v, '__dict__'):
        d = {k: x for k, x in v.__dict__.items() if k != 'ctx'}
        return '%s<%s>' % (type(v).__name__, ','.join('%s=%s' % (k, enc(d[k], typed)) for k in sorted(d)))
    return repr(v)


# ---------------------------------------------------------------- calls

def spec_of(fn):
    return PLAN['functions'][fn]


def key_of(fn, args, selfenc=None):
    parts = []
    for p in spec_of(fn)['params']:
        name = p['n']
        v = args[name] if name in args else p.get('default')
        parts.append('%s=%s' % (name, enc(dec(v), False)))
    if selfenc is not None:
        parts.append('self=' + selfenc)
    return fn + '|' + '|'.join(parts)


def files_of(fn, args, kinds):
    out = []
    for p in spec_of(fn)['params']:
        a = p.get('a')
        if a not in kinds:
            continue
        v = dec(args[p['n']] if p['n'] in args else p.get('default'))
        if a in ('SRC', 'DST'):
            out.append(str(v))
        elif a in ('OPTIONAL_SRC', 'OPTIONAL_DST'):
            if v is not None:
                out.append(str(v))
        else:
            out.extend(map(str, v))
    return sorted(set(out))


SRCK = ('SRC', 'SRCS', 'OPTIONAL_SRC')
DSTK = ('DST', 'DSTS', 'OPTIONAL_DST')


def new_id():
    _next[0] += 1
    return _next[0]


def return_dsts(fn, result):
    r = spec_of(fn).get('ret')
    if r == 'DST':
        return [str(result)]
    if r == 'DSTS':
        return [str(x) for x in result]
    if r == 'OPTIONAL_DST':
        return [] if result is None else [str(result)]
    return []


def fun_of(fn, obj, sup):
    """The name the cache knows the function by."""
    spec = spec_of(fn)
    if spec.get('kind') in ('method', 'prop') and sup is None:
        return '%s.%s' % (type(obj).__name__, spec['attr'])
    return fn


def mutate(v):
    """Change a container, and the containers in it, in place."""
    if isinstance(v, list):
        for x in v:
            mutate(x)
        v.append('mutated')
    elif isinstance(v, dict):
        for x in v.values():
            mutate(x)
        v['mutated'] = 1
    elif isinstance(v, set):
        v.add('mutated')
    elif isinstance(v, tuple):
        for x in v:
            mutate(x)


def docall(ctx, call, parent=0, subst=None, sup=None):
    """Make one call of a cached function and log it."""
    call = substitute(call, subst or {})
    fn = call['fn']
    spec = spec_of(fn)
    kind = spec.get('kind', 'fn')
    args = dict(call.get('args', {}))
    selfenc = None
    obj = None
    if kind in ('method', 'prop'):
        if sup is not None:
            obj = sup[0]
        else:
            obj = docall(ctx, {'fn': call.get('cls', spec['cls']), 'args': call.get('self', {})}, parent)
        selfenc = enc(obj, False)
    key = key_of(fn, args, selfenc)
    cid = new_id()
    log('call', id=cid, parent=parent, fn=fn, fun=fun_of(fn, obj, sup), key=key,
        srcs=files_of(fn, args, SRCK), dsts=files_of(fn, args, DSTK),
        files={f: content(f) for f in set(files_of(fn, args, SRCK))})
    # Positional and keyword arguments.
    pos, kw = [], {}
    npos = call.get('npos', 0)
    for i, p in enumerate(spec['params']):
        if p['n'] not in args:
            npos = min(npos, i)
            continue
        if i < npos and not p.get('kwonly'):
            pos.append(dec(args[p['n']]))
        else:
            kw[p['n']] = dec(args[p['n']])
    saved = getattr(_tls, 'pending', None)
    _tls.pending = (cid, fn)
    srcs = dsts = None
    try:
        if kind == 'fn':
            f = ROOT['fn'](fn)
            if call.get('api', 1):
                result, srcs, dsts = f.call(ctx, *pos, **kw)
            else:
                result = f(ctx, *pos, **kw)
        elif kind == 'ctor':
            result = ROOT['fn'](fn)(ctx, *pos, **kw)
        elif kind == 'method':
            m = getattr(super(ROOT['fn'](sup[1]), obj) if sup else obj, spec['attr'])
            if call.get('api', 1):
                result, srcs, dsts = m.call(*pos, **kw)
            else:
                result = m(*pos, **kw)
        elif kind == 'prop':
            if call.get('api', 1):
                result, srcs, dsts = getattr(type(obj), spec['attr']).call(obj)
            else:
                result = getattr(obj, spec['attr'])
    except BaseException as err:
        log('ret', id=cid, how='fail', exc=type(err).__name__, msg=str(err)[:200],
            planned=bool(getattr(err, 'planned', False)))
        # Do not blame the enclosing calls for the same exception.
        err.planned = True
        raise
    finally:
        _tls.pending = saved
    ev = dict(id=cid, how='ok', res=enc(result), rdsts=return_dsts(fn, result), api=srcs is not None)
    if srcs is not None:
        ev['asrcs'] = sorted(map(str, srcs))
        ev['adsts'] = sorted(map(str, dsts))
    log('ret', **ev)
    if call.get('mut'):
        mutate(result)
        mutate(pos)
        mutate(kw)
    return result


def substitute(x, m):
    if isinstance(x, str) and x.startswith('$'):
        return m.get(x[1:], x)
    if isinstance(x, list):
        return [substitute(y, m) for y in x]
    if isinstance(x, dict):
        return {k: substitute(y, m) for k, y in x.items()}
    return x


class PlannedError(Exception):
    planned = True


class PlannedExit(BaseException):
    planned = True


def planned_error(kind):
    import fbuild
    if kind == 'exit':
        e = SystemExit(3)
    elif kind == 'kbd':
        e = KeyboardInterrupt()
    elif kind == 'fbuild':
        e = fbuild.Error('planned')
    else:
        return PlannedError('planned')
    try:
        e.planned = True
    except AttributeError:
        pass
    return e


def actions(fn, ver, args):
    bodies = PLAN.get('bodies', {})
    for k in ('%s@%s' % (fn, ver), fn):
        if k in bodies:
            b = bodies[k]
            break
    else:
        return []
    if isinstance(b, dict):
        sel = b['by']
        v = enc(args.get(sel), False)
        return b['cases'].get(v, b.get('else', []))
    return b


def strs(v):
    """The argument as plan data (for substitution)."""
    import fbuild.path
    if isinstance(v, fbuild.path.Path):
        return {'t': 'path', 'v': str(v)}
    if isinstance(v, tuple):
        return {'t': 'tuple', 'v': [strs(x) for x in v]}
    if isinstance(v, list):
        return {'t': 'list', 'v': [strs(x) for x in v]}
    return v if v is None or isinstance(v, (str, int, bool)) else {'t': 'raw', 'v': v}


def pathof(v):
    if isinstance(v, dict):
        return v['v']
    return str(v)


def paths(v):
    if isinstance(v, dict) and v['t'] in ('tuple', 'list'):
        return [pathof(x) for x in v['v']]
    if isinstance(v, list):
        return [pathof(x) for x in v]
    return [pathof(v)]


def body(fn, ver, ctx, args, self=None):
    """The body of every generated cached function."""
    pend = getattr(_tls, 'pending', None)
    if pend is not None and pend[1] != fn and self is not None:
        # The base class's part of a constructor.
        cid = pend[0]
        log('uses', id=cid, fn=fn, ver=ver)
        if spec_of(pend[1]).get('inherit'):
            log('exec', id=cid, fn=pend[1], ver=0)
            pend = _tls.pending = None
            _tls.inherited = (id(self), cid)
    elif pend is None and self is not None and spec_of(fn).get('kind') == 'ctor' and \
            getattr(_tls, 'inherited', (0, 0))[0] == id(self):
        # More than one constructor is inherited.
        cid = _tls.inherited[1]
        log('uses', id=cid, fn=fn, ver=ver)
    else:
        _tls.pending = None
        cid = pend[0] if pend is not None and pend[1] == fn else 0
        log('exec', id=cid, fn=fn, ver=ver)
    subst = {k: strs(v) for k, v in args.items()}
    acc = [fn, ver] + ['%s=%s' % (k, enc(args[k], False)) for k in sorted(args)]
    if self is not None:
        acc.append(enc(self))
    for i, act in enumerate(actions(fn, ver, args)):
        act = {k: (v if k in ('call', 'trycall', 'map', 'mapdep') else substitute(v, subst)) for k, v in act.items()}
        if 'when' in act:
            # Only if the file has this text.
            try:
                with open(act['when'][0]) as f:
                    if f.read() != act['when'][1]:
                        continue
            except OSError:
                continue
        if 'read' in act:
            for p in paths(act['read']):
                acc.append(content(p))
        elif 'ext' in act:
            import fbuild.path
            srcs = [p for x in act['ext'].get('srcs', []) for p in paths(x)]
            dsts = [p for x in act['ext'].get('dsts', []) for p in paths(x)]
            if 'pick' in act['ext']:
                # Which ones depends on what is in the source, as with includes.
                bits = int(h(*[content(p) for p in paths(act['ext']['pick'])]), 16)
                srcs = [p for n, p in enumerate(srcs) if bits >> n & 1]
                acc.extend(content(p) for p in srcs)
            log('ext', id=cid, srcs=srcs, dsts=dsts)
            mk = fbuild.path.Path if act.get('path') else str
            kw = {}
            if srcs or act.get('both', 1):
                kw['srcs'] = [mk(s) for s in srcs]
            if dsts or act.get('both', 1):
                kw['dsts'] = [mk(d) for d in dsts]
            ctx.db.add_external_dependencies_to_call(**kw)
        elif 'call' in act:
            acc.append(enc(docall(ctx, act['call'], cid, subst)))
        elif 'super' in act:
            sp = spec_of(fn)
            acc.append(enc(docall(ctx, {'fn': sp['super'], 'args': {k: strs(v) for k, v in args.items()}},
                                  cid, subst, (self, sp['cls']))))
        elif 'mutargs' in act:
            mutate(list(args.values()))
        elif 'trycall' in act:
            try:
                acc.append(enc(docall(ctx, act['trycall'], cid, subst)))
            except Exception as e:
                acc.append('failed')
        elif 'map' in act:
            rs = ctx.scheduler.map(lambda c: docall(ctx, c, cid, subst), act['map'])
            acc.extend(enc(r) for r in rs)
        elif 'write' in act:
            for n, p in enumerate(paths(act['write'])):
                data = act['data'] if 'data' in act else h(n, *acc)
                d = os.path.dirname(p)
                if d:
                    os.makedirs(d, exist_ok=True)
                with open(p, 'w') as f:
                    f.write(data)
                log('edit', f=p, c=content(p))
        elif 'rm' in act:
            for p in paths(act['rm']):
                with contextlib.suppress(OSError):
                    os.remove(p)
                log('edit', f=p, c='-')
        elif 'fail' in act:
            raise planned_error(act['fail'])
        elif 'failif' in act:
            # Fail if the file has the text 'bad...'.
            try:
                with open(paths(act['failif'])[0]) as f:
                    bad = f.read().startswith('bad')
            except OSError:
                bad = True
            if bad:
                raise planned_error(act.get('kind', 'error'))
        elif 'yield' in act:
            with ctx.scheduler.interruptible():
                time.sleep(act['yield'])
        elif 'crash' in act:
            log('crash')
            os._exit(77)
        elif 'set' in act:
            acc.append(str(act['set']))
    value = h(*acc)
    r = spec_of(fn).get('result', 'str')
    if self is not None and spec_of(fn).get('kind') == 'ctor':
        if spec_of(fn).get('optattr'):
            return None
        self.val = value
        self.extra = make_result(spec_of(fn).get('extra', 'str'), value, args)
        return None
    return make_result(r, value, args)


def make_result(r, value, args):
    import fbuild.path
    P = fbuild.path.Path
    if r == 'str':
        return value
    if r == 'none':
        return None
    if r == 'path':
        return P(value)
    if r == 'int':
        return int(value, 16)
    if r == 'tuple':
        return (value, P('x/' + value), 1.5, None, True, b'by')
    if r == 'nested':
        return (value, [value], ({'k': [1]},))
    if r == 'list':
        return [value, [P(value)], {'k': (1, 2)}]
    if r == 'dict':
        return {value: [1], 2: P(value), None: {value, 'b'}}
    if r == 'obj':
        import fbuildroot
        return fbuildroot.Plain((value, [P(value)]))
    if r == 'rec':
        import fbuild.record
        return fbuild.record.Record(a=value, b=[P(value)])
    if r.startswith('$'):
        v = args[r[1:]]
        return v
    if r == 'func':
        import fbuildroot
        return fbuildroot.plain_function
    raise ValueError(r)


# ---------------------------------------------------------------- top level

def toplevel(ctx):
    """The build target of the generated fbuildroot."""
    try:
        _toplevel(ctx)
    except BaseException:
        log('main', how='fail')
        raise
    log('main', how='ok')


def _toplevel(ctx):
    for act in PLAN['main']:
        if 'call' in act:
            docall(ctx, act['call'], 0)
        elif 'trycall' in act:
            try:
                docall(ctx, act['trycall'], 0)
            except Exception:
                pass
        elif 'map' in act:
            ctx.scheduler.map(lambda c: docall(ctx, c, 0), act['map'])
        elif 'trymap' in act:
            try:
                ctx.scheduler.map(lambda c: docall(ctx, c, 0), act['trymap'])
            except Exception:
                pass
        elif 'active' in act:
            log('active', files=sorted(map(str, ctx.db.active_files)))
        elif 'edit' in act:
            if os.path.isdir(act['edit']):
                os.rmdir(act['edit'])
            with open(act['edit'], 'w') as f:
                f.write(act['data'])
            log('edit', f=act['edit'], c=content(act['edit']))
        elif 'rm' in act:
            os.remove(act['rm'])
            log('edit', f=act['rm'], c='-')
        elif 'fail' in act:
            raise planned_error(act['fail'])
        elif 'crash' in act:
            log('crash')
            os._exit(77)
