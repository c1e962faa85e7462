"""Config files of specific classes import and assign what the class dict asks for"""
import ast
import math
import os

import core
import world
from core import System, require, require_eq

LEVEL = 'model_checking'
KNOWN = {}

IMPORTS = {
    'default': None,
    'none': [],
    'selector': ['from pyfileconf import Selector'],
    'objects': ['from math import pi as p', 'from cmath import tau, inf as i', 'from fxm import f as run', 'from pyfileconf import Selector'],
    'modules': ['import math', 'import os.path as osp', 'from pyfileconf import Selector'],
    'mixed': ['import json', 'from math import pi as p', 'import collections.abc', 'from pyfileconf.selector.models.itemview import ItemView'],
}
ASSIGNS = {
    'default': None,
    'none': [],
    's': ['s = Selector()'],
    'values': ['extra = [1, "x"]', 'n: int = 3', 'long_text = "a = 1; b"'],
    'imported': ['q = p * 2', 's = Selector()'],
    'module': ['q = math.floor(2.5)', 'home = osp.join("a", "b")'],
    'json': ['q = json.dumps([1])', 't: float = p'],
}
# What has to be imported for these assignments
NEEDS = {
    'default': {'Selector'}, 's': {'Selector'}, 'imported': {'p', 'Selector'}, 'module': {'math', 'osp'}, 'json': {'json', 'p'},
}
DEFAULTS = {'S': {'name': None, 'a': None, 'b': 1}, 'U': {'key': None, 'a': None, 'b': 1}}
DEFAULT_IMPORTS = ['from pyfileconf import Selector']
DEFAULT_ASSIGNS = ['s = Selector()']


def names_of(imports):
    return {
        name.asname or name.name.split('.')[0]
        for line in (DEFAULT_IMPORTS if imports is None else imports) for name in ast.parse(line).body[0].names
    }


def valid(imports, assigns):
    return NEEDS.get(assigns, set()) <= names_of(IMPORTS[imports])


def targets(assigns):
    lines = DEFAULT_ASSIGNS if assigns is None else assigns
    return {l.split('=')[0].split(':')[0].strip(): l.split('=', 1)[1].strip() for l in lines}


PAIRS = [(i, a) for i in IMPORTS for a in ASSIGNS if valid(i, a)]


class Always(System):
    """Two collections of specific classes, each with its own imports and assignments"""

    def __init__(self, name, depth, firsts, seconds, split=1, note=''):
        self.name, self.depth, self.firsts, self.seconds, self.split, self.note = name, depth, firsts, seconds, split, note

    def setup(self):
        world.reset_pyfileconf()
        self.mod = world.fxm(self.dir)
        self.root = os.path.join(self.dir, 'm')
        self.specs = None
        self.others = {}
        # Of each item: what was added to its file
        self.items = {}

    def make(self):
        specifics = []
        for name, kind, (i, a), kw in (('cls', 'S', self.specs[0], {}), ('upd', 'U', self.specs[1], dict(key_attr='key', execute_attr='go'))):
            d = dict(name=name, **{'class': getattr(self.mod, kind)}, **kw)
            if IMPORTS[i] is not None:
                d['always_import_strs'] = list(IMPORTS[i])
            if ASSIGNS[a] is not None:
                d['always_assign_strs'] = list(ASSIGNS[a])
            specifics.append(d)
        self.given = specifics
        self.before = [dict(d, **{k: list(v) for k, v in d.items() if isinstance(v, list)}) for d in specifics]
        self.pm = world.manager(
            self.root, name='m', pipeline_dict='from fxm import h\n\npipeline_dict = {"stuff": [h]}\n' if not self.items else None,
            specifics=specifics,
            specific_dicts={'cls': 'class_dict = {"sec": ["one", {"sub": ["deep"]}], "other": {"er": ["three"]}}\n', 'upd': 'class_dict = {"sec": ["one"]}\n'} if not self.items else {})
        for path in self.items or ('cls.sec.one', 'cls.sec.sub.deep', 'cls.other.er.three', 'upd.sec.one'):
            self.scaffold(path)

    def scaffold(self, path):
        i, a = self.specs[path.startswith('upd')]
        item = self.items.setdefault(path, dict(imports=[], assigns={}, values={}, lines=[]))
        for line in DEFAULT_IMPORTS if IMPORTS[i] is None else IMPORTS[i]:
            if line not in item['imports']:
                item['imports'].append(line)
        for k, v in targets(ASSIGNS[a]).items():
            item['assigns'].setdefault(k, v)

    def file(self, path):
        return os.path.join(self.root, 'defaults', *path.split('.')) + '.py'

    def ops(self):
        if self.specs is None:
            return [['specs', list(x), list(y)] for x in self.firsts for y in self.seconds]
        out = [['reload'], ['session'], ['create', 'cls.sec.two'], ['create', 'cls.other.new.four'], ['create', 'upd.more.x']]
        for path in ('cls.sec.one', 'upd.sec.one'):
            out += [['edit', path, 'value'], ['edit', path, 'always'], ['edit', path, 'import'], ['update', path]]
        out += [['edit', 'cls.sec.one', 'used'], ['change', ['mixed', 'json'], ['objects', 'imported']], ['change', ['none', 'none'], ['default', 'default']]]
        return out

    def apply(self, op):
        kind, *args = op
        if kind == 'specs':
            self.specs = [tuple(a) for a in args]
            self.make()
            self.look()
            return
        if kind == 'reload':
            self.pm.reload()
            for path in self.items:
                self.scaffold(path)
        elif kind in ('session', 'change'):
            world.reset_pyfileconf()
            if kind == 'change':
                self.specs = [tuple(a) for a in args]
            self.make()
        elif kind == 'create':
            path = args[0]
            if path in self.items:
                return
            self.pm.create(path)
            self.scaffold(path)
        elif kind == 'update':
            self.pm.update(section_path_str=args[0], a=99)
            obj = self.pm.get(args[0])
            require_eq(obj.a, 99, f'updated argument of {args[0]}')
            self.pm.reset(args[0])
        elif kind == 'edit':
            path, what = args
            item = self.items[path]
            text = world.read(self.file(path))
            lines = text.split('\n')
            if what == 'value':
                idx = [n for n, l in enumerate(lines) if l.startswith(('b =', 'b:'))]
                require(len(idx) == 1, 'config file of %s does not assign b once:\n%s', path, text)
                lines[idx[0]] = 'b = 77  # mine'
                item['values']['b'] = 77
                item['lines'] = [l for l in item['lines'] if not l.startswith('b ')] + ['b = 77  # mine']
            elif what == 'always':
                # The user may change what is always assigned
                name = next(iter(item['assigns']), None)
                if name is None:
                    return
                idx = [n for n, l in enumerate(lines) if l.startswith((name + ' =', name + ':'))]
                require(len(idx) == 1, 'config file of %s does not assign %s once:\n%s', path, name, text)
                lines[idx[0]] = f'{name} = (1, 2)'
                item['assigns'][name] = '(1, 2)'
                item['lines'].append(f'{name} = (1, 2)')
            elif what == 'import':
                line = 'from math import e as euler'
                if line in item['imports']:
                    return
                idx = [n for n, l in enumerate(lines) if l.startswith('a ')][0]
                lines[idx] = 'a = [euler]'
                lines.insert(0, line)
                item['imports'].append(line)
                item['values']['a'] = [math.e]
                item['lines'] = [l for l in item['lines'] if not l.startswith('a ')] + ['a = [euler]']
            elif what == 'used':
                # Names of what is always imported may be used by the user
                names = sorted(names_of(item['imports']) & {'p', 'math', 'json'})
                if not names:
                    return
                idx = [n for n, l in enumerate(lines) if l.startswith('a ')][0]
                lines[idx] = f'a = [{names[0]}]'
                scope = {}
                for line in item['imports']:
                    exec(line, scope)
                if names[0] != 'p':
                    lines[idx] = f'a = {names[0]}.__name__'
                    item['values']['a'] = names[0]
                else:
                    item['values']['a'] = [scope['p']]
                item['lines'] = [l for l in item['lines'] if not l.startswith('a ')] + [lines[idx]]
            world.write(self.file(path), '\n'.join(lines))
            self.pm.reload()
            for p in self.items:
                self.scaffold(p)
        self.look()

    def look(self):
        require([{k: list(v) if isinstance(v, list) else v for k, v in d.items()} for d in self.given] == self.before,
                'the specific class dicts which were passed have changed: %r', self.given)
        for path, item in self.items.items():
            kind = 'U' if path.startswith('upd') else 'S'
            text = world.read(self.file(path))
            lines = [l.strip() for l in text.split('\n')]
            for line in item['imports']:
                n = lines.count(line)
                require(n == 1, 'config file of %s has %r %s times:\n%s', path, line, n, text)
            known = [l for l in lines if l.startswith(('import ', 'from '))]
            require(len(known) == len(item['imports']), 'config file of %s imports something else:\n%s', path, text)
            for line in item['lines']:
                require(line in lines, 'config file of %s lost %r:\n%s', path, line, text)
            expected = dict(DEFAULTS[kind])
            expected['key' if kind == 'U' else 'name'] = path.split('.')[-1]
            expected.update(item['values'])
            scope = {}
            for line in item['imports']:
                exec(line, scope)
            error, got = None, None
            try:
                exec(compile(text, 'config', 'exec'), got := {})
            except Exception as e:
                error = e
            require(error is None, 'config file of %s does not work on its own: %r\n%s', path, error, text)
            assigned = {l.split('=')[0].split(':')[0].strip() for l in lines if '=' in l and not l.startswith('#')}
            require_eq(sorted(assigned), sorted({*expected, *item['assigns']}), f'names assigned in the config file of {path}')
            for k, v in expected.items():
                require_eq(got[k], v, f'{k} in the config file of {path}')
            for k, v in item['assigns'].items():
                value = eval(v, dict(scope))
                if k == 's' and v == 'Selector()':
                    require_eq(type(got[k]), type(value), f'{k} in the config file of {path}')
                else:
                    require_eq(got[k], value, f'{k} in the config file of {path}')
            obj = self.pm.get(path)
            require_eq({k: getattr(obj, k) for k in expected}, expected, f'arguments of {path}')
        # Other items are not affected
        for path in ('stuff/h', 'stuff/section'):
            text = world.read(os.path.join(self.root, 'defaults', *path.split('/')) + '.py')
            if path not in self.others:
                require(not any(word in text for word in ('math', 'json', 'extra', 'osp', 'fxm')), 'config file of %s:\n%s', path, text)
            require_eq(text.strip(), self.others.setdefault(path, text.strip()), f'config file of {path}')

    def check(self):
        pass

    def state(self):
        return [self.specs, self.items]


def systems(tier):
    deep = tier == 'thorough'
    one = [('selector', 's')]
    few = [('objects', 'imported'), ('modules', 'module'), ('mixed', 'values')]
    return [
        Always('pairs', 2, PAIRS, PAIRS if deep else one + few, note='all combinations of imports and assignments, then one operation'),
        Always('histories', 4 if deep else 3, few + [('default', 'default'), ('none', 'none')], one,
               1, note='all sequences of operations after some combinations'),
    ]
