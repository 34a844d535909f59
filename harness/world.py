"""Generates the build description (fbuildroot.py, helper.py) of a scenario."""


def _params(spec, first):
    out = [first]
    star = False
    for p in spec['params']:
        if p.get('kwonly') and not star:
            out.append('*')
            star = True
        t = p['n']
        if p.get('a'):
            t += ': fbuild.db.' + p['a']
        if 'default' in p:
            t += ' = ' + pylit(p['default'])
        out.append(t)
    return ', '.join(out)


def pylit(v):
    if isinstance(v, dict):
        t, x = v['t'], v.get('v')
        if t == 'path':
            return 'Path(%r)' % x
        if t == 'tuple':
            return '(%s)' % ''.join(pylit(y) + ',' for y in x)
        if t == 'list':
            return '[%s]' % ', '.join(pylit(y) for y in x)
        raise ValueError(t)
    return repr(v)


def _args(spec):
    return 'dict(%s)' % ', '.join('%s=%s' % (p['n'], p['n']) for p in spec['params'])


def _ret(spec):
    return ' -> fbuild.db.' + spec['ret'] if spec.get('ret') else ''


def version(spec, ver):
    """The version of the code, as an expression.  The texts of two versions
    differ in more or less inconspicuous ways."""
    style = spec.get('style', 'num')
    if style == 'space':
        return 'len(%r)' % (' ' * ver)
    if style == 'newline':
        return 'len("""%s""")' % ('\n' * ver)
    if style == 'case':
        return '(%r.index("A") + 1)' % ('a' * (ver - 1) + 'A' + 'a' * (60 - ver))
    if style == 'accent':
        return '(%r.index("\u00f6") + 1)' % ('\u00e4' * (ver - 1) + '\u00f6' + '\u00e4' * (60 - ver))
    if style == 'order':
        return '(%r.index("b") + 1)' % ('a' * (ver - 1) + 'b' + 'a' * (60 - ver))
    if style == 'tab':
        return '("%s".index("\\t") + 1)' % (' ' * (ver - 1) + '\t' + ' ' * (60 - ver))
    if style == 'comment':
        return '0'
    return repr(ver)


def comment(spec, ver, indent):
    if spec.get('style') == 'comment':
        return '%s# version %d\n' % (indent, ver)
    return ''


def function_source(fn, spec, ver):
    pad = '\n'.join('    # padding %d' % i for i in range(spec.get('pad', 0)))
    pad = pad + '\n' if pad else ''
    return ('@fbuild.db.caches\n'
            'def %s(%s)%s:\n%s%s'
            '    return rt.body(%r, %s, ctx, %s)\n' % (
                fn, _params(spec, 'ctx'), _ret(spec), pad, comment(spec, ver, '    '), fn, version(spec, ver), _args(spec)))


def class_source(cls, functions, codes):
    spec = functions[cls]
    base = spec.get('base', 'fbuild.db.PersistentObject')
    out = ['class %s(%s):' % (cls, base)]
    n = 0
    if not spec.get('inherit'):
        out.append('    def __init__(%s):' % _params(spec, 'self, ctx'))
        # A subclass of another generated class runs its base's constructor.
        if spec.get('base'):
            out.append('        super().__init__(ctx, **%s)' % (
                'dict(%s)' % ', '.join('%s=%s' % (p['n'], p['n']) for p in functions[spec['base']]['params'])))
        else:
            out.append('        super().__init__(ctx)')
        for p in spec['params']:
            opt = 'if %s != %s: ' % (p['n'], pylit(p['default'])) if spec.get('optattr') and 'default' in p else ''
            out.append('        %sself.%s = %s' % (opt, p['n'], p['n']))
        out.append('        rt.body(%r, %s, ctx, %s, self)' % (cls, version(spec, codes[cls]), _args(spec)))
        n += 1
    for fn, sp in functions.items():
        if sp.get('cls') != cls:
            continue
        n += 1
        if sp['kind'] == 'prop':
            out.append('    @fbuild.db.cacheproperty')
            out.append('    def %s(self):' % sp['attr'])
            out.append('%s        return rt.body(%r, %s, self.ctx, {}, self)' % (
                comment(sp, codes[fn], '        '), fn, version(sp, codes[fn])))
        else:
            out.append('    @fbuild.db.cachemethod')
            out.append('    def %s(%s)%s:' % (sp['attr'], _params(sp, 'self'), _ret(sp)))
            out.append('%s        return rt.body(%r, %s, self.ctx, %s, self)' % (
                comment(sp, codes[fn], '        '), fn, version(sp, codes[fn]), _args(sp)))
    if not n:
        out.append('    pass')
    return '\n'.join(out) + '\n'


HEAD = '''import fbuild
import fbuild.db
from fbuild.path import Path
import rt
'''

PLAIN = '''
class Plain%(v)d:
    def __init__(self, v):
        self.v = v
    def __eq__(self, other):
        return isinstance(other, Plain%(v)d) and self.v == other.v
    def __hash__(self):
        return hash(repr(self.v))

Plain = Plain%(v)d
Plain.__name__ = 'Plain'
'''

TAIL = '''
def plain_function(x):
    return x

def _lookup(name):
    if name in globals():
        return globals()[name]
    for m in _mods:
        if hasattr(m, name):
            return getattr(m, name)
    raise KeyError(name)

rt.ROOT['fn'] = _lookup

def build(ctx):
    rt.toplevel(ctx)

@fbuild.target.register()
def other(ctx):
    rt.toplevel(ctx)
'''


def sources(functions, codes, plain=0):
    """Returns {file name: text} of the description."""
    mods = {}
    for fn, spec in functions.items():
        kind = spec.get('kind', 'fn')
        mod = spec.get('module', 'fbuildroot')
        if kind == 'fn':
            mods.setdefault(mod, []).append(function_source(fn, spec, codes[fn]))
        elif kind == 'ctor':
            mods.setdefault(mod, []).append(class_source(fn, functions, codes))
    mods.setdefault('fbuildroot', [])
    out = {}
    others = sorted(m for m in mods if m != 'fbuildroot')
    for mod, parts in mods.items():
        text = HEAD
        if mod == 'fbuildroot':
            text += 'import fbuild.target\n'
            for m in others:
                text += 'import %s\n' % m
            text += '_mods = [%s]\n' % ', '.join(others)
        else:
            text += ''
        text += '\n' + '\n'.join(parts)
        if mod == 'fbuildroot':
            # Where the class Plain is defined, and under what name.
            if plain % 2:
                text += '\nfrom plainmod%d import Plain\n' % plain
                out['plainmod%d.py' % plain] = PLAIN % {'v': plain}
            else:
                text += PLAIN % {'v': plain}
            text += TAIL
        out[mod + '.py'] = text
    return out
