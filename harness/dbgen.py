"""Random scenarios (worlds, edits, histories of builds) for the cache."""
import copy
import random


def calls(x):
    """The functions which a body calls."""
    out = set()
    if isinstance(x, dict):
        if 'fn' in x and isinstance(x['fn'], str):
            out.add(x['fn'])
            out.add(x.get('cls') or x['fn'].split('.')[0])
        for v in x.values():
            out |= calls(v)
    elif isinstance(x, list):
        for v in x:
            out |= calls(v)
    return out


class Gen:
    """One random world and history.  `feat` turns features on."""

    def __init__(self, rng, feat):
        self.r = rng
        self.f = feat
        self.files = ['a.txt', 'b.txt', 'sub/c.txt', 'd d.txt'][:rng.randint(2, 4)]
        self.extfiles = ['e1.h', 'e2.h', 'inc/e3.h'][:rng.randint(1, 3)] if self.on('ext') else []
        self.functions = {}
        self.bodies = {}
        self.templates = []
        self.contents = {}
        self.ncontent = 0
        self.codes = {}
        self.outs = {}
        self.dropped = set()
        self.dirs = set()
        self.pads = {}
        self.engine = ''

    def on(self, name):
        return self.f.get(name, 0) > 0

    def p(self, name, default=0.0):
        return self.r.random() < self.f.get(name, default)

    # -------------------------------------------------------------- world

    def world(self):
        r = self.r
        n = r.randint(self.f.get('nmin', 2), self.f.get('nmax', 5))
        names = []
        for i in range(n):
            fn = 'f%d' % i
            if self.p('classes'):
                cls = 'K%d' % i
                params = [{'n': 'x'}]
                if r.random() < 0.4:
                    params.append({'n': 'y', 'default': 1})
                self.functions[cls] = {'kind': 'ctor', 'params': params}
                if len(params) > 1 and self.on('argpool') and r.random() < 0.6:
                    # Its objects do not all have the same attributes.
                    self.functions[cls]['optattr'] = True
                if self.p('subclass'):
                    sub = cls + 'S'
                    self.functions[sub] = {'kind': 'ctor', 'params': copy.deepcopy(params), 'base': cls}
                    if r.random() < 0.5:
                        self.functions[sub]['inherit'] = True
                    if self.p('deep'):
                        # A subclass of the subclass.
                        self.functions[sub + 'S'] = {'kind': 'ctor', 'params': copy.deepcopy(params), 'base': sub}
                        if r.random() < 0.7:
                            self.functions[sub + 'S']['inherit'] = True
                m = cls + '.m'
                self.functions[m] = dict(self.signature(), kind='method', cls=cls, attr='m')
                if cls + 'S' in self.functions and self.p('super'):
                    # A method that overrides a method and uses it.
                    o = cls + 'S.m'
                    self.functions[o] = dict(copy.deepcopy(self.functions[m]), cls=cls + 'S', super=m)
                    names.append(o)
                names.append(m)
                if r.random() < 0.4:
                    q = cls + '.q'
                    self.functions[q] = {'kind': 'prop', 'cls': cls, 'attr': 'q', 'params': []}
                    names.append(q)
            else:
                self.functions[fn] = dict(self.signature(), kind='fn')
                if self.p('modules'):
                    self.functions[fn]['module'] = 'helper'
                names.append(fn)
        self.names = names
        # Templates: the concrete calls that are ever made.
        self.produced = []
        for fn in reversed(names) if self.on('chain') else names:
            for j in range(r.randint(1, self.f.get('tmax', 3))):
                t = self.template(fn, j)
                self.templates.append(t)
            if self.on('chain'):
                self.produced += [x for t in self.templates if t['fn'] == fn for x in self.outputs(t)]
        if self.on('chain'):
            self.templates.sort(key=lambda t: self.order(t['fn']))
        # Bodies.  Function i calls only later functions (or, with `cycles`,
        # any function, with a depth that is counted down).
        for i, fn in enumerate(names):
            self.bodies[fn] = self.body(i, fn)
            if self.p('bodychange'):
                self.bodies[fn + '@2'] = self.body(i, fn)
        for fn in self.functions:
            self.codes[fn] = 1
        if self.on('styles'):
            for fn, sp in self.functions.items():
                styles = ['num', 'space', 'newline', 'case', 'accent', 'order', 'tab']
                if sp['kind'] != 'ctor' and fn + '@2' not in self.bodies:
                    styles.append('comment')
                sp['style'] = r.choice(styles)
                if sp['kind'] == 'fn' and r.random() < 0.3:
                    # A long function.
                    sp['pad'] = r.choice([40, 300, 5000])

    def signature(self):
        r = self.r
        params = []
        if self.p('src', 0.8):
            a = r.choice(['SRC', 'SRC', 'SRCS', 'OPTIONAL_SRC'])
            params.append({'n': 's', 'a': a})
        if self.p('dst', 0.4):
            a = r.choice(['DST', 'DST', 'DSTS', 'OPTIONAL_DST'])
            params.append({'n': 'd', 'a': a})
        sig = {'params': params}
        if self.p('retdst', 0.2):
            params.append({'n': 'o'})
            t = r.choice(['DST', 'DSTS', 'OPTIONAL_DST'])
            sig['ret'] = t
            sig['result'] = '$o'
        else:
            sig['result'] = r.choice(['str', 'none', 'path', 'int', 'tuple', 'list', 'dict', 'obj', 'rec', 'nested']) \
                if self.p('rettypes') else 'str'
        if self.p('argx', 0.5):
            params.append({'n': 'x'})
        if self.p('defaults', 0.3):
            params.append({'n': 'y', 'default': r.choice([1, 'k', None, {'t': 'tuple', 'v': [1]}])})
        if self.p('defaults', 0.3) and r.random() < 0.5:
            params.append({'n': 'z', 'default': r.choice([2, 'q', False]), 'kwonly': True})
        return sig

    ARGS = [1, 0, 'a', '1', None, True, {'t': 'float', 'v': '1.0'}, {'t': 'tuple', 'v': [1, 2]},
            {'t': 'list', 'v': [1, 2]}, {'t': 'tuple', 'v': []}, {'t': 'path', 'v': 'a'},
            {'t': 'dict', 'v': [['k', 1]]}, {'t': 'fset', 'v': [1, 2]}, {'t': 'set', 'v': [1, 2]},
            {'t': 'bytes', 'v': 'a'}, {'t': 'obj', 'v': 1}, {'t': 'obj', 'v': 2},
            {'t': 'rec', 'v': [['k', 1]]}, {'t': 'list', 'v': [{'t': 'list', 'v': [1]}, 'é']},
            {'t': 'tuple', 'v': [{'t': 'list', 'v': [1]}]}, {'t': 'list', 'v': [1, 2, 'mutated']}]

    # What changing the arguments in place makes of one is another one.
    TWINS = [{'t': 'list', 'v': [1]}, {'t': 'list', 'v': [1, 'mutated']}, {'t': 'dict', 'v': []}, {'t': 'dict', 'v': [['mutated', 1]]}]

    def template(self, fn, j):
        r = self.r
        spec = self.functions[fn]
        args = {}
        for p in spec['params']:
            a = p.get('a')
            if a == 'SRC':
                args['s'] = self.pathval(self.source())
            elif a == 'SRCS':
                k = r.randint(0 if self.on('emptysrcs') else 1, len(self.files))
                fs = r.sample(self.files, k)
                if self.on('chain') and fs and r.random() < 0.5:
                    fs[r.randrange(len(fs))] = self.source()
                args['s'] = {'t': r.choice(['list', 'tuple']), 'v': [self.pathval(x) for x in fs]}
            elif a == 'OPTIONAL_SRC':
                args['s'] = None if r.random() < 0.3 else self.pathval(self.source())
            elif p['n'] in ('d', 'o'):
                t = a or spec['ret']
                base = 'out/%s_%d%s' % (fn.replace('.', '_'), j, p['n'])
                if t == 'DST':
                    args[p['n']] = self.pathval(base)
                elif t == 'DSTS':
                    args[p['n']] = {'t': 'list', 'v': [self.pathval('%s%d' % (base, i)) for i in range(r.randint(1, 3))]}
                else:
                    args[p['n']] = None if r.random() < 0.25 else self.pathval(base)
            elif 'default' in p:
                if r.random() < 0.4:
                    args[p['n']] = p['default'] if r.random() < 0.4 else r.choice(self.ARGS)
            else:
                args[p['n']] = r.choice(self.TWINS if self.p('twins') else self.ARGS) if self.on('argpool') else r.choice([1, 2, 'a'])
        call = {'fn': fn, 'args': args}
        if spec['kind'] in ('method', 'prop'):
            call['self'] = {'x': r.choice([1, 2])}
            if self.functions[spec['cls']].get('optattr') and r.random() < 0.5:
                call['self']['y'] = r.choice([2, 3])
            sub = spec['cls'] + 'S'
            if sub in self.functions and r.random() < 0.5 and (
                    sub + '.m' not in self.functions or spec['kind'] == 'prop'):
                call['cls'] = sub
            if sub + 'S' in self.functions and r.random() < 0.6 and (
                    sub + '.m' not in self.functions or fn == sub + '.m' or spec['kind'] == 'prop'):
                call['cls'] = sub + 'S'
        return call

    def outputs(self, t):
        return [x for n in ('d', 'o') if n in t['args'] for x in self.plain(t['args'][n])]

    def source(self):
        # What another call makes can be a source as well.
        if self.on('chain') and self.produced and self.p('chain'):
            return self.r.choice(self.produced)
        return self.r.choice(self.files)

    def pathval(self, f):
        return {'t': 'path', 'v': f} if self.r.random() < 0.5 else f

    def body(self, i, fn):
        r = self.r
        spec = self.functions[fn]
        acts = []
        pn = {p['n']: p for p in spec['params']}
        if 's' in pn and r.random() < 0.9:
            acts.append({'read': '$s'})
        late = 's' in pn and self.p('late')
        if 's' in pn and not late and self.p('fail'):
            acts.append({'failif': '$s', 'kind': r.choice(['error', 'fbuild'])})
        if self.extfiles and self.p('ext', 0.5):
            k = r.sample(self.extfiles, r.randint(1, len(self.extfiles)))
            if 's' in pn and r.random() < 0.35:
                acts.append({'ext': {'srcs': k, 'pick': '$s'}, 'both': r.choice([0, 1]), 'path': r.choice([0, 1])})
            else:
                acts.append({'ext': {'srcs': k}, 'both': r.choice([0, 1]), 'path': r.choice([0, 1])})
                acts.append({'read': {'t': 'list', 'v': k}})
            if self.p('fail') and r.random() < 0.5:
                acts.append({'failif': k[0]})
        if self.on('chain') and pn.get('s', {}).get('a') in ('SRC', 'SRCS') and r.random() < 0.2:
            acts.append({'ext': {'srcs': ['$s']}, 'both': r.choice([0, 1])})
        if self.p('extdst'):
            d = 'gen/%s_x' % fn.replace('.', '_')
            acts.append({'write': d})
            if self.on('chain') and r.random() < 0.3:
                # Both an output and a source.
                acts.append({'ext': {'srcs': [d], 'dsts': [d]}, 'both': 1})
            else:
                acts.append({'ext': {'dsts': [d]}, 'both': r.choice([0, 1])})
            self.outs.setdefault(fn, []).append(d)
        if 'super' in spec:
            acts.append({'super': 1})
        if self.p('mut'):
            acts.append({'mutargs': 1})
        later = [t for t in self.templates if self.order(t['fn']) > i]
        ncalls = 0
        while later and ncalls < 3 and self.p('nest', 0.5):
            t = self.vary(r.choice(later))
            ncalls += 1
            if self.p('map'):
                acts.append({'map': [self.vary(x) for x in r.sample(later, min(len(later), r.randint(1, 3)))]})
            elif self.p('fail') or self.p('catch'):
                acts.append({'trycall': t})
            else:
                acts.append({'call': t})
            if self.on('chain') and self.outputs(t) and r.random() < 0.4:
                # Uses what the call made.
                acts.append({'ext': {'srcs': self.outputs(t)}, 'both': r.choice([0, 1])})
                acts.append({'read': {'t': 'list', 'v': self.outputs(t)}})
        if self.p('ctorcall') and any(k['kind'] == 'ctor' for k in self.functions.values()):
            cls = r.choice([k for k, v in self.functions.items() if v['kind'] == 'ctor'])
            acts.append({'call': {'fn': cls, 'args': {'x': r.choice([1, 2])}}})
        if self.p('fail') and self.extfiles and r.random() < 0.3:
            acts.append({'failif': r.choice(self.extfiles)})
        if late:
            # Fails after it has called others.
            acts.append({'failif': '$s', 'kind': r.choice(['error', 'fbuild'])})
        for n in ('d', 'o'):
            if n in pn:
                acts.append({'write': '$' + n})
        if self.p('branch') and 'x' in pn:
            keys = ['n:1.0', 'n:2.0', '"a"']
            return {'by': 'x', 'cases': {r.choice(keys): acts}, 'else': [a for a in acts if not {'call', 'trycall', 'map'} & set(a)]}
        if self.p('yield'):
            for _ in range(r.randint(1, 3)):
                acts.insert(r.randint(0, len(acts)), {'yield': r.choice([0, 0.0005, 0.001, 0.002, 0.004])})
        return acts

    def order(self, fn):
        return self.names.index(fn)

    def vary(self, call):
        """The same call, spelled differently."""
        call = dict(call)
        spec = self.functions[call['fn']]
        if self.p('mut') and spec['kind'] != 'ctor':
            call['mut'] = 1
        if spec['kind'] != 'ctor' and self.on('spell'):
            call['npos'] = self.r.randint(0, len(spec['params']))
            call['api'] = self.r.randint(0, 1)
            args = dict(call['args'])
            for p in spec['params']:
                if 'default' in p:
                    if p['n'] in args and args[p['n']] == p['default'] and self.r.random() < 0.5:
                        del args[p['n']]
                    elif p['n'] not in args and self.r.random() < 0.5:
                        args[p['n']] = p['default']
            call['args'] = args
        return call

    # ------------------------------------------------------------ history

    def fresh(self):
        self.ncontent += 1
        # Sometimes contents that differ only in length or a byte.
        return self.r.choice(['text %d\n' % self.ncontent, 'x' * self.ncontent, 'c%03d' % self.ncontent])

    def edit(self, f, mode=None):
        r = self.r
        hist = self.contents.setdefault(f, [])
        if hist and self.p('revert', 0.25):
            c = r.choice(hist)
        elif self.p('fail') and r.random() < 0.5:
            c = 'bad%d' % self.ncontent
            self.ncontent += 1
        else:
            c = self.fresh()
        hist.append(c)
        if f in self.dirs:
            self.dirs.discard(f)
            if r.random() < 0.8:
                mode = 'keep'
        if mode is None:
            mode = r.choice(['next', 'next', 'back', 'future', 'subsec', 'frac']) if self.on('modes') else 'next'
        st = {'op': 'edit', 'f': f, 'c': c, 'mtime': mode, 'replace': r.random() < 0.2}
        if self.on('large'):
            # Some files are large, and what changes is somewhere in them.
            if f not in self.pads:
                self.pads[f] = [r.choice(self.PADS), r.choice(self.PADS)] if self.p('large') else None
            if self.pads[f] and not c.startswith('bad'):
                st['pad'] = self.pads[f]
        return st

    PADS = [0, 5000, 65530, 65536, 70000, 200000, 1100000]

    def mutation(self):
        r = self.r
        choices = ['edit'] * int(self.f.get('w_edit', 3)) + ['touch'] * int(self.f.get('w_touch', 1))
        choices += ['code'] * int(self.f.get('w_code', 0)) + ['rmdst'] * int(self.f.get('w_rmdst', 0))
        choices += ['editext'] * int(self.f.get('w_editext', 0)) + ['delext'] * int(self.f.get('w_delext', 0))
        choices += ['delsrc'] * int(self.f.get('w_delsrc', 0)) + ['editback'] * int(self.f.get('w_editback', 0))
        choices += ['opt'] * int(self.f.get('w_opt', 0)) + ['discard'] * int(self.f.get('w_discard', 0))
        choices += ['drop'] * int(self.f.get('w_drop', 0))
        choices += ['rename'] * int(self.f.get('w_rename', 0))
        choices += ['dirsrc'] * int(self.f.get('w_dirsrc', 0))
        choices += ['rmextdst'] * int(self.f.get('w_rmextdst', 0))
        k = r.choice(choices)
        if k == 'edit':
            return [self.edit(r.choice(self.files))]
        if k == 'editext' and self.extfiles:
            return [self.edit(r.choice(self.extfiles))]
        if k == 'touch':
            f = r.choice(self.files + self.extfiles)
            return [{'op': 'touch', 'f': f, 'mtime': r.choice(['next', 'back', 'future', 'subsec'])}]
        if k == 'code':
            fn = r.choice([k for k, v in self.functions.items() if not v.get('inherit')])
            v = self.codes[fn]
            self.codes[fn] = r.choice([1, 2, 3, 4, 5]) if r.random() < 0.4 else v + 1
            return [{'op': 'code', 'fn': fn, 'v': self.codes[fn]}]
        if k == 'rmdst' and self.on('chain') and self.produced and r.random() < 0.4:
            return [self.edit(r.choice(self.produced))]
        if k == 'rmdst':
            outs = [x for t in self.templates for n in ('d', 'o') if n in t['args'] for x in self.plain(t['args'][n])]
            if outs:
                return [{'op': 'edit', 'f': r.choice(outs), 'c': None}]
        if k == 'rmextdst':
            outs = [x for xs in self.outs.values() for x in xs]
            if outs and self.on('chain') and r.random() < 0.4:
                return [self.edit(r.choice(outs))]
            if outs:
                return [{'op': 'edit', 'f': r.choice(outs), 'c': None}]
        if k == 'delext' and self.extfiles:
            return [{'op': 'edit', 'f': r.choice(self.extfiles), 'c': None}]
        if k == 'dirsrc':
            f = r.choice(self.files)
            self.dirs.add(f)
            return [{'op': 'edit', 'f': f, 'c': None, 'dir': 1, 'mtime': r.choice(['next', 'back', 'future'])}]
        if k == 'delsrc':
            return [{'op': 'edit', 'f': r.choice(self.files), 'c': None}]
        if k == 'opt':
            return self.option()
        if k == 'discard':
            return [self.discard()]
        if k == 'rename':
            return [{'op': 'rename', 'v': r.randint(0, 3)}]
        if k == 'drop':
            if self.dropped and r.random() < 0.6:
                back = sorted(self.dropped)
                self.dropped = set()
                return [{'op': 'addfn', 'fn': f} for f in back]
            return self.drop(r.choice([f for f in self.functions if f not in self.dropped]))
        if k == 'editback':
            # There and back again: nothing changed after all.
            f = r.choice(self.files + self.extfiles)
            if self.contents.get(f):
                c = self.contents[f][-1]
                return [{'op': 'edit', 'f': f, 'c': 'zzz'}, {'op': 'edit', 'f': f, 'c': c}]
        return []

    def option(self):
        """A run that only changes the saved state."""
        r = self.r
        k = r.choice(['delfn', 'delfn', 'delfn', 'delfile', 'delfile', 'delfile', 'clean', 'dump', 'rebuild', 'nosave', 'nosave'])
        st = self.runstep()
        st.pop('jobs', None)
        if k == 'nosave':
            # Something changed, but the next build has to notice it again.
            st['args'] = ['--do-not-save-database']
            if r.random() < 0.3:
                st['kind'] = 'rebuild'
            return (self.mutation_of(['edit', 'code', 'rmdst']) if r.random() < 0.7 else []) + [st]
        st['kind'] = k
        if k == 'delfn':
            st['fn'] = r.choice([f for f in self.functions])
        elif k == 'delfile':
            outs = [x for t in self.templates for n in ('d', 'o') if n in t['args'] for x in self.plain(t['args'][n])]
            st['f'] = r.choice(self.files + self.extfiles + outs[:1] + ['nosuchfile'])
        elif k == 'rebuild':
            st['flag'] = r.choice(['--rebuild', '--configure'])
        if k in ('delfn', 'delfile') and r.random() < 0.15:
            st['args'] = ['--do-not-save-database']
        out = [st]
        if k in ('delfn', 'delfile') and r.random() < 0.3:
            out.append(copy.deepcopy(st))
        return out

    def mutation_of(self, kinds):
        keep = {k: v for k, v in self.f.items() if k.startswith('w_')}
        try:
            for k in keep:
                self.f[k] = 0
            for k in kinds:
                self.f['w_' + k] = 1
            if 'edit' not in kinds:
                self.f['w_edit'] = 0
            self.f['w_touch'] = 0
            return self.mutation()
        finally:
            for k in list(self.f):
                if k.startswith('w_'):
                    del self.f[k]
            self.f.update(keep)

    def discard(self):
        r = self.r
        how = r.choice(['version', 'version', 'version', 'empty', 'cut', 'remove', 'schema'])
        st = {'op': 'corrupt', 'how': how}
        if how == 'version':
            st['version'] = r.choice([None, '0', '1', '2', '30', '', 'x'])
        elif how == 'cut':
            st['part'] = r.choice([0.0, 0.1, 0.5, 0.9, 0.99, 1.0, r.random()])
        return st

    def drop(self, fn):
        """The function is gone; the next builds do without it."""
        gone = {fn}
        fs = self.functions
        while True:
            n = len(gone)
            for f, sp in fs.items():
                if sp.get('base') in gone or sp.get('cls') in gone or sp.get('super') in gone:
                    gone.add(f)
                for key in (f, f + '@2'):
                    if calls(self.bodies.get(key)) & gone:
                        gone.add(f)
            if len(gone) == n:
                break
        gone -= self.dropped
        if not [t for t in self.templates if t['fn'] not in gone | self.dropped and t.get('cls') not in gone | self.dropped]:
            return []
        self.dropped |= gone
        return [{'op': 'drop', 'fn': f} for f in sorted(gone)]

    def plain(self, v):
        if v is None:
            return []
        if isinstance(v, dict):
            if v['t'] == 'path':
                return [v['v']]
            return [x for y in v['v'] for x in self.plain(y)]
        return [v]

    def runstep(self, mode='random'):
        r = self.r
        ts = [t for t in self.templates if t['fn'] not in self.dropped
              and t.get('cls') not in self.dropped] 
        if mode == 'random':
            k = r.randint(1, min(len(ts) + 1, 6))
            ts = [r.choice(ts) for _ in range(k)]
        elif mode == 'all':
            r.shuffle(ts)
        elif mode == 'order':
            pass
        elif mode == 'reverse':
            ts.reverse()
        alive = list(ts)
        main = []
        verb = 'trycall' if self.on('fail') or self.on('chain') or self.on('w_delsrc') or self.on('w_dirsrc') or self.on('w_delext') else 'call'
        if self.p('topmap'):
            main.append({'trymap' if verb == 'trycall' else 'map': [self.vary(t) for t in ts]})
            if verb == 'trycall':
                main[0] = {'map': [self.vary(t) for t in ts]}
        else:
            main = [{verb: self.vary(t)} for t in ts]
        if self.p('midedit') and main:
            main.insert(r.randint(1, len(main)), {'edit': r.choice(self.files), 'data': self.fresh()})
            main += [{verb: self.vary(r.choice(alive))} for _ in range(3)]
        step = {'op': 'run', 'main': main}
        if self.on('jobs'):
            step['jobs'] = r.choice([2, 2, 3, 4])
            if r.random() < self.f.get('vt', 0):
                step['vt'] = {'seed': str(r.random()), 'kind': r.choice(['pct', 'walk'])}
        return step

    def history(self):
        r = self.r
        steps = [self.edit(f, 'next') for f in self.files + self.extfiles]
        for s in steps:
            if s['c'].startswith('bad'):
                s['c'] = self.fresh()
                self.contents[s['f']] = [s['c']]
        last = seen = None
        for k in range(r.randint(self.f.get('rmin', 3), self.f.get('rmax', 5))):
            if k:
                for _ in range(r.choice([0, 1, 1, 2, 3])):
                    steps += self.mutation()
            if last is not None and seen == self.dropped and self.p('again', 0.4):
                steps.append(copy.deepcopy(last))
            else:
                last = self.runstep(r.choice(['random', 'all', 'order', 'reverse']))
                seen = set(self.dropped)
                steps.append(last)
        if self.p('noop', 0.5):
            steps.append(copy.deepcopy(last))
            steps.append(copy.deepcopy(last))
        return steps

    def crash_history(self):
        """A build, changes, a build that is killed somewhere, and what the
        builds after it make of that."""
        r = self.r
        steps = [self.edit(f, 'next') for f in self.files + self.extfiles]
        a = self.runstep(r.choice(['all', 'random']))
        if r.random() < 0.9:
            steps.append(a)
        for _ in range(r.choice([0, 1, 2, 3])):
            steps += self.mutation()
        if r.random() < 0.15:
            steps.append(self.discard())
        b = self.runstep(r.choice(['random', 'all', 'order', 'reverse']))
        if r.random() < 0.1:
            b['kind'] = 'rebuild'
        c = dict(copy.deepcopy(b), crashall={
            'points': self.f.get('points', 0), 'mode': r.choice([0, 0, 1])})
        steps.append(c)
        after = r.random()
        if after < 0.3:
            steps += self.mutation()
        elif after < 0.8:
            # What the build that was stopped has used is changed.
            if r.random() < 0.3:
                steps.append(copy.deepcopy(b))
            for f in self.files + self.extfiles:
                if r.random() < 0.6:
                    steps.append(self.edit(f))
        c = self.runstep('all')
        steps.append(c)
        if r.random() < 0.5:
            steps.append(copy.deepcopy(c))
        return [s for s in steps if s.get('kind') not in ('clean', 'delfn', 'delfile', 'dump')]

    def tiny(self):
        """Few functions of one argument with two values, that call each
        other one way or another and may fail: every combination is likely."""
        r = self.r
        self.files = ['a.txt', 'b.txt']
        n = r.choice([3, 3, 4])
        self.names = ['f%d' % i for i in range(n)]
        for i, fn in enumerate(self.names):
            self.functions[fn] = {'kind': 'fn', 'params': [{'n': 'x'}], 'result': 'str'}
            self.codes[fn] = 1
            cases = {}
            for x in (1, 2):
                acts = []
                for g in self.names[i + 1:]:
                    if r.random() < 0.55:
                        acts.append({r.choice(['call', 'trycall']): {'fn': g, 'args': {'x': r.choice([1, 2])}}})
                r.shuffle(acts)
                if self.on('tinyfiles') and r.random() < 0.4:
                    f = r.choice(self.files)
                    acts.insert(r.randint(0, len(acts)), {'ext': {'srcs': [f]}, 'both': r.choice([0, 1])})
                    acts.append({'read': f})
                    if r.random() < 0.4:
                        acts.append({'failif': f})
                if i and r.random() < 0.35:
                    acts.append({'fail': 1})
                cases['n:%d.0' % x] = acts
            self.bodies[fn] = {'by': 'x', 'cases': cases, 'else': []}
        self.templates = [{'fn': f, 'args': {'x': x}} for f in self.names for x in (1, 2)]

    def tiny_history(self):
        r = self.r
        steps = [{'op': 'edit', 'f': f, 'c': 'one', 'mtime': 'next', 'replace': False} for f in self.files]
        top = [r.choice(self.templates[:4]) for _ in range(2)]
        for k in range(r.randint(5, 9)):
            if k:
                for _ in range(r.choice([0, 1, 1, 1, 2])):
                    if self.on('tinyfiles') and r.random() < 0.4:
                        steps.append({'op': 'edit', 'f': r.choice(self.files), 'c': r.choice(['one', 'two', 'three', 'bad 1']),
                                      'mtime': 'next', 'replace': False})
                    else:
                        fn = r.choice(self.names[1:])
                        self.codes[fn] = r.choice([1, 2, 3])
                        steps.append({'op': 'code', 'fn': fn, 'v': self.codes[fn]})
            ts = [r.choice(top if r.random() < 0.6 else self.templates) for _ in range(r.choice([1, 1, 2, 2, 3]))]
            steps.append({'op': 'run', 'main': [{'trycall': t} for t in ts]})
        return steps

    def scenario(self, sid, engine, family):
        return {'id': sid, 'family': family, 'engine': engine, 'functions': self.functions,
                'bodies': self.bodies, 'steps': self.steps}


def scenarios(seed, family, feat, n, engines=('pickle', 'sqlite')):
    out = []
    for k in range(n):
        rng = random.Random('%s/%s/%d' % (seed, family, k))
        g = Gen(rng, feat)
        if feat.get('tiny'):
            g.tiny()
            g.steps = g.tiny_history()
        else:
            g.world()
            g.steps = g.crash_history() if feat.get('crash') else g.history()
        for e in engines:
            sc = copy.deepcopy(g.scenario('%s-%s-%d-%s' % (family, str(seed).replace('/', '_'), k, e), e, family))
            if e == 'sqlite':
                for st in sc['steps']:
                    # A part of an sqlite file is not something that we or
                    # sqlite would ever leave behind.
                    if st['op'] == 'corrupt' and st['how'] == 'cut':
                        st['how'] = 'empty'
            out.append(sc)
    return out


FEATURES = {
    'src': dict(large=0.25, w_dirsrc=1, src=0.95, dst=0.2, argx=0.3, nest=0.3, modes=1, w_edit=5, w_touch=2, w_delsrc=1, emptysrcs=1, revert=0.3, midedit=0.15),
    'ext': dict(large=0.15, src=0.5, dst=0.2, ext=0.8, extdst=0.4, nest=0.4, w_edit=1, w_editext=5, w_delext=2, w_rmextdst=2, modes=1, revert=0.3),
    'dst': dict(src=0.5, dst=0.8, retdst=0.6, extdst=0.2, ext=0.2, nest=0.4, w_rmdst=6, w_edit=1, w_rmextdst=1),
    'own': dict(src=0.5, dst=0.3, nest=0.1, w_code=5, w_edit=1, w_touch=0, tmax=3, classes=0.4, modules=0.3, argx=0.8, subclass=0.5, deep=0.5, styles=1, super=0.5, ctorcall=0.1),
    'dep': dict(src=0.4, dst=0.1, nest=0.75, w_code=6, w_edit=1, w_touch=0, classes=0.2, modules=0.3, nmin=3, rmax=6, rmin=4, branch=0.4,
                bodychange=0.3, ctorcall=0.15, again=0.25, subclass=0.3, deep=0.5, styles=1),
    'tiny': dict(tiny=1),
    'tinyfile': dict(tiny=1, tinyfiles=1),
    'ident': dict(twins=0.25, src=0.5, argx=0.9, argpool=1, defaults=0.7, rettypes=0.8, spell=1, nest=0.3, tmax=6, w_edit=1, classes=0.4, subclass=0.5, super=0.7, mut=0.3, rmin=2, rmax=3, nmax=3),
    'noop': dict(src=0.8, dst=0.5, ext=0.5, extdst=0.3, retdst=0.3, nest=0.4, w_touch=5, w_edit=1, w_editext=1, w_editback=3, modes=1, noop=0.9, again=0.6,
                 classes=0.2, spell=1),
    'fail': dict(w_dirsrc=2, late=0.3, w_delext=1, src=0.9, ext=0.4, dst=0.4, nest=0.5, fail=0.5, catch=0.5, w_edit=5, w_editext=2, w_code=1, revert=0.4, again=0.4),
    'opts': dict(src=0.6, dst=0.4, ext=0.3, nest=0.4, classes=0.2, modules=0.2, w_opt=8, w_edit=1, w_code=1, rmin=4, rmax=7, nmax=4, again=0.6),
    'discard': dict(src=0.6, dst=0.3, ext=0.3, nest=0.4, classes=0.4, modules=0.3, subclass=0.3, ctorcall=0.2, rettypes=0.4, argpool=1, w_discard=4, w_drop=3, w_rename=2,
                    w_edit=1, w_touch=0, rmin=4, rmax=6, nmax=4, again=0.5),
    'crash': dict(crash=1, src=0.7, dst=0.4, ext=0.4, nest=0.4, classes=0.2, modules=0.2, argx=0.5, w_edit=4, w_editext=2, w_code=2, w_rmdst=1, w_touch=1, nmax=4),
    'par': dict(src=0.6, dst=0.4, retdst=0.2, ext=0.5, extdst=0.3, nest=0.7, map=0.6, topmap=0.9, jobs=1, **{'yield': 0.7}, w_edit=3, w_editext=2, w_code=3,
                w_rmdst=1, w_rmextdst=1, classes=0.2, argx=0.5, nmin=3, spell=1),
    'parfail': dict(src=0.9, dst=0.3, ext=0.3, nest=0.6, map=0.3, catch=0.4, fail=0.4, jobs=1, topmap=0.5, **{'yield': 0.7}, w_edit=4, w_editext=1, w_code=1, nmin=3),
    'chain': dict(src=0.9, dst=0.7, retdst=0.4, ext=0.4, extdst=0.5, chain=0.6, nest=0.6, argx=0.3, modes=1, w_edit=4, w_editext=1, w_rmdst=3, w_rmextdst=3,
                  w_touch=1, w_editback=1, revert=0.3, nmin=3, rmin=4, rmax=6, again=0.5),
    'vpar': None,
    'vparfail': None,
    'mix': dict(src=0.7, dst=0.4, retdst=0.2, ext=0.4, extdst=0.2, nest=0.5, classes=0.2, modules=0.2, argx=0.5, argpool=1, defaults=0.3, rettypes=0.3,
                spell=1, fail=0.1, w_edit=3, w_touch=1, w_code=2, w_rmdst=1, w_editext=2, w_delext=1, w_delsrc=1, w_editback=1, modes=1,
                branch=0.2, bodychange=0.1, ctorcall=0.1, subclass=0.3, super=0.5, mut=0.1, rmax=6),
}

for _f in ('par', 'parfail'):
    FEATURES['v' + _f] = dict(FEATURES[_f], vt=1)
