"""Dict files mean what Python takes them to mean, whatever their form is"""
import importlib
import inspect
import os

import core
import world
from pyfileconf import Selector
from core import System, require, require_eq

LEVEL = 'model_checking'
KNOWN = {}

MODULES = dict(
    fxd1='def f(a=1, b=2):\n    return ("fxd1.f", a, b)\n\n\ndef g(a="x", c=None):\n    return ("fxd1.g", a, c)\n\n\n'
         'class K:\n    def __init__(self, a=3):\n        self.a = a\n\n    def __call__(self):\n        return ("fxd1.K", self.a)\n',
    fxd2='def f(a=20):\n    return ("fxd2.f", a)\n\n\ndef h(a=0, s=True):\n    return ("fxd2.h", a, s)\n',
    fxd3='from fxd1 import f as ff, K\nfrom fxd2 import h\nfrom fxd1 import g as f\n\n\ndef local(a=9):\n    return ("fxd3.local", a)\n',
    fxd4='def new(a=4, z=5):\n    return ("fxd4.new", a, z)\n',
    fxd5__sub='def deep(a=6):\n    return ("fxd5.sub.deep", a)\n\n\nclass C:\n    def __init__(self, a=7, b=8):\n        self.a = a\n'
              '        self.b = b\n\n    def __call__(self):\n        return ("fxd5.sub.C", self.a, self.b)\n',
)

# Statements which import items, and the names which are used of these
HEADERS = [
    ('from fxd1 import f, g, K\n', ['f', 'g', 'K']),
    ('from fxd1 import f as one\nfrom fxd1 import f as two\nfrom fxd2 import f\n', ['f', 'two', 'one']),
    ('from fxd1 import g as f, f as g, K as h\n', ['g', 'h', 'f']),
    ('from fxd3 import ff, h as hh, local\n', ['hh', 'ff', 'local']),
    ('"""Items of the project"""\nfrom __future__ import annotations\nimport os\n\nfrom fxd2 import (\n    f as f2,  # renamed\n'
     '    h,\n)\nfrom fxd1 import f\n', ['f', 'f2', 'h']),
    ('from fxd5.sub import deep, C as D\nfrom fxd5 import shallow as s\n', ['D', 's', 'deep']),
    ('from fxd3 import K as f, f as K\nfrom fxd2 import f as local, h\nfrom fxd3 import local as ff\n', ['K', 'f', 'local']),
    ('# items\nimport fxd1\nimport fxd2 as f\nfrom fxd1 import g ; from fxd2 import h as i\nfrom fxd4 import new as g2\n', ['g2', 'i', 'g']),
]
WRAPPERS = [
    '{header}\n{var} = {value}\n',
    '{header}\n\ndef helper(f=None):\n    other = [f]\n    return other\n\n\nOTHER = {{"z": [1]}}\n\n{var} = {value}\n\nLAST = 1\n',
    '{header}\n# pipeline_dict = {{}}\n{var}: dict = {value}  # {{"no": []}}',
]


def nodes(n, depth):
    """All nodes with n leaves"""
    yield from lists(n, depth)
    if depth > 1:
        yield from dicts(n, depth)


def lists(n, depth):
    def rest(n):
        if n == 0:
            yield []
        for first in ([0] if n else []):
            for r in rest(n - 1):
                yield [0] + r
        if depth > 1:
            for k in range(1, n + 1):
                for node in nodes(k, depth - 1):
                    for r in rest(n - k):
                        yield [{'?': node}] + r
    yield from rest(n)


def dicts(n, depth):
    for node in nodes(n, depth - 1):
        yield {'a': node}
    for k in range(0, n + 1):
        for one in nodes(k, depth - 1):
            for two in nodes(n - k, depth - 1):
                yield {'b': one, 'a': two}


def label(node, names):
    """Gives names to leaves and to the sections within lists"""
    if isinstance(node, dict):
        return {k: label(v, names) for k, v in node.items()}
    out = []
    for i, x in enumerate(node):
        if x == 0:
            out.append(names[sum(1 for y in node[:i] if y == 0) % len(names)])
        else:
            out.append({'cde'[i]: label(x['?'], names)})
    return out


def to_tree(node):
    """Sections as dicts of their children in order, and items as strings"""
    if isinstance(node, str):
        return node
    if isinstance(node, dict):
        return {k: to_tree(v) for k, v in node.items()}
    out = {}
    for x in node:
        if isinstance(x, dict):
            out.update(to_tree(x))
        else:
            out[x] = x
    return out


def to_source(node, quote=False):
    if isinstance(node, str):
        return repr(node) if quote else node
    if isinstance(node, dict):
        return '{' + ', '.join(f'"{k}": {to_source(v, quote)}' for k, v in node.items()) + '}'
    return '[' + ', '.join(to_source(x, quote) for x in node) + ']'


def walk(tree, prefix=()):
    for k, v in tree.items():
        yield prefix + (k,), v
        if isinstance(v, dict):
            yield from walk(v, prefix + (k,))


def list_sections(node, prefix=()):
    """Paths of the sections to which items may be added, which are lists that are not within a list"""
    if isinstance(node, dict):
        for k, v in node.items():
            yield from list_sections(v, prefix + (k,))
    else:
        yield prefix, node


def defaults_of(obj):
    return {name: p.default for name, p in inspect.signature(obj).parameters.items()}


class DictFiles(System):
    split = 1

    def __init__(self, name, cases, depth, specific=False, note=''):
        self.name = name
        self.cases = cases
        self.depth = depth
        self.specific = specific
        self.note = note

    def setup(self):
        world.reset_pyfileconf()
        lib = world.lib(self.dir, **MODULES)
        world.write(os.path.join(lib, 'fxd5', '__init__.py'), 'from fxd5.sub import deep as shallow\n')
        self.mod = world.fxm(self.dir)
        self.case = None

    def ops(self):
        if self.case is None:
            return self.cases
        items = [p for p, v in walk(self.tree) if isinstance(v, str)]
        ops = [['update', '.'.join(p)] for p in items[:3]]
        ops += [['edit', '.'.join(p)] for p in items[-1:]]
        targets = [('.'.join(p), node) for p, node in list_sections(self.node)]
        for path, node in targets[:2]:
            ops.append(['create', path])
        ops.append(['create', 'x.y'])
        if not self.specific:
            for path, node in targets[:1]:
                ops.append(['create other', path])
        ops.append(['reload'])
        return ops

    # Model

    def object(self, name):
        """What Python takes the name to be"""
        return self.namespace[name]

    def default(self, path, name):
        if self.specific:
            return {'name': path[-1], 'a': None, 'b': 1}
        return defaults_of(self.object(name))

    def result(self, path):
        tree = self.tree
        for part in path:
            tree = tree[part]
        return self.result_of(tree, path)

    def result_of(self, tree, path):
        if isinstance(tree, dict):
            return [self.result_of(v, path + (k,)) for k, v in tree.items()]
        values = self.values[path]
        if self.specific:
            return ('S', values['name'], values['a'], values['b'])
        obj = self.object(tree)
        return obj(**values)() if inspect.isclass(obj) else obj(**values)

    def rel(self, path):
        return '.'.join((('cls',) if self.specific else ()) + path)

    # Implementation

    def apply(self, op):
        if op[0] == 'dict':
            return self.declare(*op[1:])
        path = tuple(op[1].split('.')) if len(op) > 1 else None
        if op[0] == 'update':
            self.pm.update(section_path_str=self.rel(path), a=100)
            self.values[path] = {**self.values[path], 'a': 100}
        elif op[0] == 'edit':
            file = self.file(path)
            world.write(file, world.read(file) + '\na = 200\n')
            self.pm.refresh(self.rel(path))
            self.files[path] = {**self.files[path], 'a': 200}
            # The update stays on top of what is in the file
            self.values[path] = {**self.values[path], **({} if self.values[path]['a'] == 100 else {'a': 200})}
        elif op[0] == 'reload':
            self.pm.reload()
            self.values = {k: dict(v) for k, v in self.files.items()}
        elif op[0] in ('create', 'create other'):
            if op[0] == 'create':
                from fxd4 import new as obj
                name = 'new'
            else:
                from fxd2 import f as obj
                name = 'f'
            section = [n for p, n in list_sections(self.node) if p == path]
            if name in (section[0] if section else []):
                return
            if self.specific:
                self.pm.create(self.rel(path + ('new',)))
            else:
                taken = self.namespace.get(name)
                if taken is not None and (getattr(taken, '__module__', None), taken.__name__) != (obj.__module__, name):
                    error = world.raises(self.pm.create, self.rel(path), obj)
                    require(isinstance(error, ValueError), f'creating {name}, which is imported from elsewhere, gave {error!r}')
                    return
                self.pm.create(self.rel(path), obj)
            self.namespace.setdefault(name, obj)
            if section:
                section[0].append(name)
            else:
                node = self.node
                for part in path[:-1]:
                    node = node.setdefault(part, {})
                node[path[-1]] = [name]
            self.tree = to_tree(self.node)
            full = path + (name,)
            self.files[full] = self.default(full, name)
            self.values[full] = dict(self.files[full])
        else:
            raise core.HarnessError(op)

    def declare(self, header, wrapper, node):
        text, names = HEADERS[header] if not self.specific else ('', ['one', 'two', 'three'])
        self.case = [header, wrapper, node]
        self.node = label(node, names)
        self.tree = to_tree(self.node)
        var = 'class_dict' if self.specific else 'pipeline_dict'
        source = WRAPPERS[wrapper].format(header=text, var=var, value=to_source(self.node, self.specific))
        # The reference is what Python takes the file to be
        self.namespace = {}
        exec(source, self.namespace)
        self.root = os.path.join(self.dir, 'p')
        kwargs = {}
        if self.specific:
            kwargs = dict(specifics=[world.scd('cls', self.mod.S)], specific_dicts={'cls': source})
            pipeline_dict = 'pipeline_dict = {}\n'
        else:
            pipeline_dict = source
        self.pm = world.manager(self.root, 'm', pipeline_dict, **kwargs)
        self.files = {p: self.default(p, v) for p, v in walk(self.tree) if isinstance(v, str)}
        self.values = {k: dict(v) for k, v in self.files.items()}

    def file(self, path):
        return os.path.join(self.root, 'defaults', *self.rel(path).split('.')) + '.py'

    def check(self):
        if self.case is None:
            return
        # The file says what is declared and was created
        var = 'class_dict' if self.specific else 'pipeline_dict'
        file = os.path.join(self.root, 'cls_dict.py' if self.specific else 'pipeline_dict.py')
        namespace = {}
        exec(compile(world.read(file), file, 'exec'), namespace)
        require_eq(self.describe(namespace[var]), self.describe(self.evaluated()), 'what the dict file says')
        # Config files
        got = {}
        for folder, _, names in os.walk(os.path.join(self.root, 'defaults')):
            for name in names:
                if name.endswith('.py') and name != 'section.py':
                    path = os.path.join(folder, name)
                    values = world.exec_config(path)
                    got[os.path.relpath(path, self.root)] = {
                        k: v for k, v in values.items() if k not in ('Selector', 'S') and not isinstance(v, Selector)
                    }
        want = {os.path.relpath(self.file(p), self.root): v for p, v in self.files.items()}
        require_eq(got, want, 'config files')
        for path, node in walk(self.tree):
            rel = self.rel(path)
            require_eq(self.pm.run(rel), self.result(path), f'result of running {rel}')
            view = world.ItemView.from_section_path_str('m.' + rel)
            if isinstance(node, str):
                item = self.pm.get(rel)
                is_class = self.specific or inspect.isclass(self.object(node))
                require_eq(item(), self.result(path), f'result of calling {rel}')
                called = view()
                require_eq(called() if is_class and not self.specific else called, self.result(path),
                           f'result of calling the view of {rel}')
            else:
                require_eq([c for c in dir(view) if c not in ('type', 'item')], sorted(node), f'dir of the view of {rel}')
        for path in [('nothing',), *[p[:-1] + ('nothing',) for p, v in walk(self.tree)][:2]]:
            require(world.raises(self.pm.run, self.rel(path)) is not None, f'runs {self.rel(path)}, which does not exist')

    def evaluated(self):
        namespace = dict(self.namespace)
        return eval(to_source(self.node, self.specific), namespace)

    def describe(self, node):
        if isinstance(node, dict):
            return {k: self.describe(v) for k, v in node.items()}
        if isinstance(node, list):
            return [self.describe(x) for x in node]
        return node if isinstance(node, str) else f'{node.__module__}.{node.__name__}'

    def state(self):
        return [self.case, self.tree if self.case else None,
                sorted([list(k), v] for k, v in self.files.items()) if self.case else None,
                sorted([list(k), v] for k, v in self.values.items()) if self.case else None]


def structures(leaves, depth):
    out, seen = [], set()
    for n in range(1, leaves + 1):
        for node in dicts(n, depth):
            key = repr(node)
            if key not in seen:
                seen.add(key)
                out.append(node)
    return out


def systems(tier):
    deep = tier == 'thorough'
    small = structures(2, 3)
    large = structures(4 if deep else 3, 3)
    mixed = [{'b': [0, {'?': [0]}], 'a': [0, 0, 0]}, {'a': {'b': [0, 0], 'a': [0]}}, {'a': [{'?': {'a': [0]}}, 0, {'?': [0, 0]}]}]
    out = []
    for h in range(len(HEADERS)):
        cases = [['dict', h, w, node] for w in range(len(WRAPPERS)) for node in mixed]
        out.append(DictFiles(f'imports {h}', cases, 4 if deep else 3, note='all forms of imports x operations'))
    shapes = large if deep else small
    for i in range(0, len(shapes), 40):
        cases = [['dict', (i + j) % len(HEADERS), (i + j) % len(WRAPPERS), node] for j, node in enumerate(shapes[i:i + 40])]
        out.append(DictFiles(f'structures {i}', cases, 2, note='all structures of dicts and lists, one operation'))
        out.append(DictFiles(f'class structures {i}', [c for c in cases], 2, True,
                             note='all structures of dicts and lists of a class dict, one operation'))
    if not deep:
        rest = [n for n in large if n not in small]
        for i in range(0, len(rest), 60):
            cases = [['dict', (i + j) % len(HEADERS), (i + j) % len(WRAPPERS), node] for j, node in enumerate(rest[i:i + 60])]
            out.append(DictFiles(f'larger structures {i}', cases, 1, note='all structures of three items'))
    return out
