"""Creating items at runtime is the same as declaring them in the dict files"""
import copy
import importlib
import os
import shutil

import core
import world
from core import System, require, require_eq
from hist import expected_result, Item
from world import rec

LEVEL = 'model_checking'
KNOWN = {}

FXO = '''
from fxm import f as renamed_f, h
from fxtypes import *

def g(z=9):
    return ('other g', z)

def typed(a: Thing = VALUE, b: int = 2):
    return ('typed', a, b)

def va():
    return ('va',)
'''
FXTYPES = '''
class Thing:
    pass
VALUE = 11
'''

KINDS = {
    'f': {'a': None, 'b': 1}, 'g': {'a': None, 'c': 3}, 'h': {'a': 0, 's': 0}, 'K': {'a': None, 'b': 1},
    'typed': {'a': 11, 'b': 2}, 'S': {'name': None, 'a': None, 'b': 1}, 'U': {'key': None, 'a': None, 'b': 1},
}
START = {
    'stuff': ['f'],
    'deep': {'a': ['K'], 'b': {'c': ['f', 'g']}},
    'mixed': ['f', {'sub': ['K']}],
}
START_CLS = {'sec': ['one'], 'outer': {'in': ['two']}, 'mix': ['p', {'q': ['r']}]}


def add(tree, path, name):
    """Reference semantics of declaring an item. Returns whether it is possible."""
    node = tree
    for part in path[:-1]:
        if not isinstance(node, dict):
            return False
        node = node.setdefault(part, {})
    if not isinstance(node, dict):
        return False
    node = node.setdefault(path[-1], [])
    if not isinstance(node, list):
        return False
    node.append(name)
    return True


def source(tree, quote):
    if isinstance(tree, dict):
        return '{' + ', '.join(f'{k!r}: {source(v, quote)}' for k, v in tree.items()) + '}'
    if isinstance(tree, list):
        return '[' + ', '.join(source(v, quote) for v in tree) + ']'
    return repr(tree) if quote else tree


def items(tree, prefix=''):
    """Nested dict of item paths in order"""
    out = {}
    if isinstance(tree, dict):
        for k, v in tree.items():
            out[k] = items(v, f'{prefix}{k}.')
    else:
        for v in tree:
            if isinstance(v, dict):
                out.update(items(v, prefix))
            else:
                out[v] = f'{prefix}{v}'
    return out


def flat(nested):
    for v in nested.values():
        if isinstance(v, dict):
            yield from flat(v)
        else:
            yield v


class CreateSystem(System):

    def __init__(self, name, alphabet, depth, split=1, note='', start=True, specific='S'):
        self.name = name
        self.alphabet = alphabet
        self.depth = depth
        self.split = split
        self.note = note
        self.start = start
        self.specific = specific

    def setup(self):
        world.reset_pyfileconf()
        self.mod = world.fxm(self.dir)
        world.lib(self.dir, fxo=FXO, fxtypes=FXTYPES)
        self.fxo = importlib.import_module('fxo')
        self.tree = copy.deepcopy(START) if self.start else {}
        self.cls = copy.deepcopy(START_CLS) if self.start else {}
        self.root = os.path.join(self.dir, 'm')
        self.pm = self.project(self.root, 'm')
        self.model = {}
        self.refs = {}
        self.sync()

    def project(self, root, name):
        return world.manager(
            root, name=name,
            pipeline_dict='from fxm import f, g, K, h\nfrom fxo import typed\n\npipeline_dict = ' + source(self.tree, False) + '\n',
            specifics=[self.scd()],
            specific_dicts={'cls': 'class_dict = ' + source(self.cls, True) + '\n'},
        )

    def scd(self):
        if self.specific == 'U':
            # Another key attribute and execute attribute, and what all the config files have
            return world.scd('cls', self.mod.U, ['from fxo import g'], ['extra = 5'], key_attr='key', execute_attr='go')
        return world.scd('cls', self.mod.S)

    def all_items(self):
        return list(flat(items({**self.tree, 'cls': self.cls})))

    def kind(self, path):
        return self.specific if path.startswith('cls.') else path.split('.')[-1]

    def defaults(self, path):
        out = dict(KINDS[self.kind(path)])
        for key in ('name', 'key'):
            if key in out:
                out[key] = path.split('.')[-1]
        return out

    def sync(self):
        for path in self.all_items():
            if path not in self.model:
                self.model[path] = Item(self.defaults(path))

    def ops(self):
        return self.alphabet

    def func(self, name):
        if name == 'other g':
            return self.fxo.g
        if name == 'typed':
            return self.fxo.typed
        if name == 'no source':
            return len
        if name == 'lambda':
            return lambda x: x
        if name == 'not a function':
            return 3
        return getattr(self.mod, name)

    def apply(self, op):
        kind = op[0]
        if kind == 'create':
            path, name = op[1:]
            tree, cls = copy.deepcopy(self.tree), copy.deepcopy(self.cls)
            parts = path.split('.')
            if parts[0] == 'cls':
                new = path
                ok = name is None and len(parts) > 2 and add(cls, parts[1:-1], parts[-1])
                args = [path] if name is None else [path, self.func(name)]
            else:
                new = f'{path}.{name}'
                ok = name in KINDS and add(tree, parts, name)
                args = [path] if name is None else [path, self.func(name)]
            if ok and new in self.model:
                # Creating twice is not specified
                return
            before = world.project_texts(self.root)
            exc = world.raises(self.pm.create, *args)
            if ok:
                require(exc is None, 'create %r %r raised %r', path, name, exc)
                self.tree, self.cls = tree, cls
                self.sync()
                require(os.path.exists(self.file(new)), 'no config file for %s', new)
            else:
                require(exc is not None, 'create %r %r should not be possible', path, name)
                require_eq(world.project_texts(self.root), before, f'files after failed create of {path} {name}')
        elif kind == 'upd':
            path, updates = op[1:]
            if path in self.model:
                self.model[path].update(updates, True)
                self.pm.update(section_path_str=path, **updates)
        elif kind == 'reset':
            if op[1] in self.model:
                self.model[op[1]].reset()
                self.pm.reset(op[1])
        elif kind == 'reload':
            self.pm.reload()
            for item in self.model.values():
                item.reload()
            self.refs.clear()
        elif kind == 'get':
            if op[1] in self.model:
                obj = self.pm.get(op[1])
                if op[1] in self.refs:
                    require(obj is self.refs[op[1]], '%s is another object', op[1])
                self.refs[op[1]] = obj
        elif kind == 'declare':
            # By hand in the dict file
            path, name = op[1:]
            tree, cls = copy.deepcopy(self.tree), copy.deepcopy(self.cls)
            parts = path.split('.')
            if parts[0] == 'cls':
                new = path
                ok = add(cls, parts[1:-1], parts[-1])
            else:
                new = f'{path}.{name}'
                ok = add(tree, parts, name)
            if not ok or new in self.model:
                return
            self.tree, self.cls = tree, cls
            world.write(os.path.join(self.root, 'pipeline_dict.py'),
                        'from fxm import f, g, K, h\nfrom fxo import typed\n\npipeline_dict = ' + source(tree, False) + '\n')
            world.write(os.path.join(self.root, 'cls_dict.py'), 'class_dict = ' + source(cls, True) + '\n')
            self.pm.reload()
            for item in self.model.values():
                item.reload()
            self.refs.clear()
            self.sync()
        elif kind == 'edit':
            # Config file by hand, seen after refresh
            path = op[1]
            if path in self.model:
                text = world.read(self.file(path))
                world.write(self.file(path), text.replace('a: Thing = VALUE', 'a = VALUE') + '\na = 77\n')
                self.model[path].file['a'] = 77
                self.model[path].refresh()
                self.pm.refresh(path)
        else:
            raise core.HarnessError(op)

    def file(self, path):
        return os.path.join(self.root, 'defaults', *path.split('.')) + '.py'

    def result(self, path, cfg):
        return expected_result(self.kind(path), cfg)

    def nested(self, node, cfg):
        if isinstance(node, dict):
            return [self.nested(v, cfg) for v in node.values()]
        return self.result(node, cfg(node))

    def check(self):
        nested = items({**self.tree, 'cls': self.cls})
        texts = world.project_texts(self.root)
        # Items of this manager
        for path, obj in self.refs.items():
            require(self.pm.get(path) is obj, '%s is another object', path)
        for path in self.model:
            require_eq(self.pm.run(path), self.result(path, self.model[path].effective()), f'running {path}')
        for sec, node in nested.items():
            require_eq(self.pm.run(sec), self.nested(node, lambda p: self.model[p].effective()), f'running {sec}')
        require(world.raises(self.pm.get, 'stuff.other') is not None, 'item which does not exist')
        # Project as seen by another process, later
        other = os.path.join(self.dir, 'copy')
        shutil.copytree(self.root, other)
        pm = world.PipelineManager(folder=other, name='copy', specific_class_config_dicts=[self.scd()])
        pm.load()
        for sec, node in nested.items():
            require_eq(pm.run(sec), self.nested(node, lambda p: dict(self.model[p].file)), f'running {sec} after loading the project again')
        # Project which had everything declared from the start
        self.project(os.path.join(self.dir, 'twin'), 'twin')
        twin = world.project_texts(os.path.join(self.dir, 'twin'))
        require_eq(sorted(texts), sorted(twin), 'files of the project')
        for rel, text in twin.items():
            path = rel[len('defaults/'):-len('.py')].replace('/', '.')
            if not rel.startswith('defaults') or self.model.get(path) and self.model[path].file != self.defaults(path):
                continue
            require_eq(texts[rel].rstrip(), text.rstrip(), f'contents of {rel}')

    def state(self):
        return [repr(self.tree), repr(self.cls), {p: i.state() for p, i in self.model.items()}, sorted(self.refs)]


BASEM = '''
def only_here(p=1, q=2):
    return ('only_here', p, q)

def twice(p=3):
    return ('twice', p)

class Base:
    def __init__(self, p=4):
        self.p = p
    def __call__(self):
        return (type(self).__name__, self.p)
'''
WRAPM = '''
import functools
import basem
import fxm
from basem import twice as renamed, Base

def add(func):
    @functools.wraps(func)
    def wrapper(*args, **kwargs):
        return ('added', func(*args, **kwargs))
    return wrapper

# Has the module of the wrapped function
@functools.wraps(basem.only_here)
def only_here(p=1, q=2):
    return ('wrapped', basem.only_here(p, q))

# Has module and name of an item which exists
@functools.wraps(fxm.f)
def f(a=None, b=1):
    return ('wrapped', a, b)

@add
def decorated(x=5, y=6):
    return ('decorated', x, y)

@add
@add
def decorated_twice(x=5):
    return ('decorated_twice', x)

class Derived(Base):
    def __init__(self, p=4, q=7):
        super().__init__(p)
        self.q = q
'''

class Kinds(System):
    """Items which are created from functions and classes of all kinds and places"""
    depth = 2
    SOURCES = {
        # what is passed: (where it is declared, is there a conflict)
        'wrapm.only_here': 'wrapm', 'basem.only_here': 'basem', 'wrapm.decorated': 'wrapm', 'wrapm.decorated_twice': 'wrapm',
        'wrapm.Derived': 'wrapm', 'wrapm.Base': 'basem', 'wrapm.renamed': 'basem', 'wrapm.f': 'wrapm', 'pkgm.inner': 'pkgm.deep.mod',
        'pkgm.deep.mod.inner': 'pkgm.deep.mod', 'pkgm.deep.mod.Within': 'pkgm.deep.mod', 'pkgm.again.inner': 'pkgm.deep.mod',
        'fxm.f': 'fxm',
    }

    def __init__(self, name, depth, note=''):
        self.name, self.depth, self.note = name, depth, note

    def setup(self):
        world.reset_pyfileconf()
        world.fxm(self.dir)
        lib = world.lib(self.dir, basem=BASEM, wrapm=WRAPM, pkgm__again='from . import inner\n')
        world.write(os.path.join(lib, 'pkgm', '__init__.py'), 'from .deep.mod import inner\n')
        world.write(os.path.join(lib, 'pkgm', 'deep', '__init__.py'), '')
        world.write(os.path.join(lib, 'pkgm', 'deep', 'mod.py'), '''
import basem

def inner(v=8):
    return ('inner', v)

class Within(basem.Base):
    def __init__(self, p=40):
        super().__init__(p)
''')
        self.root = os.path.join(self.dir, 'm')
        self.pm = world.manager(self.root, pipeline_dict='from fxm import f\n\npipeline_dict = {"stuff": [f]}\n')
        self.names = {'f': 'fxm'}
        self.model = {}

    def ops(self):
        return [['create', source, place] for source in self.SOURCES for place in ('new', 'stuff')] + [['reload']]

    def expected(self, source):
        mod, name = source.rsplit('.', 1)
        obj = getattr(importlib.import_module(mod), name)
        if name == 'f':
            # There is no default, so it is configured as None
            return obj(None)
        return obj()() if isinstance(obj, type) else obj()

    def apply(self, op):
        if op[0] == 'reload':
            self.pm.reload()
            return
        source, place = op[1:]
        mod, name = source.rsplit('.', 1)
        obj = getattr(importlib.import_module(mod), name)
        path = f'{place}.{obj.__name__}'
        if path in self.model or path == 'stuff.f':
            return
        before = world.project_texts(self.root)
        exc = world.raises(self.pm.create, place, obj)
        # Two which have the same name can not be imported in the same file
        if self.names.setdefault(obj.__name__, self.SOURCES[source]) != self.SOURCES[source]:
            require(exc is not None, 'created %s although %s is imported as %s', source, self.names[obj.__name__], obj.__name__)
            require_eq(world.project_texts(self.root), before, f'files after failed create of {source}')
            return
        require(exc is None, 'create of %s raised %r', source, exc)
        self.model[path] = source

    def check(self):
        want = {'stuff.f': ('f', None, 1), **{path: self.expected(source) for path, source in self.model.items()}}
        for path, result in want.items():
            require_eq(self.pm.run(path), result, f'running {path}')
        other = os.path.join(self.dir, 'copy')
        shutil.copytree(self.root, other)
        pm = world.PipelineManager(folder=other, name='copy')
        pm.load()
        for path, result in want.items():
            require_eq(pm.run(path), result, f'running {path} after loading the project again')

    def state(self):
        return self.model


def systems(tier):
    deep = tier == 'thorough'
    creates = [
        ['create', 'stuff', 'g'], ['create', 'stuff', 'K'], ['create', 'new', 'f'], ['create', 'new.er', 'typed'],
        ['create', 'deep.a', 'f'], ['create', 'deep.b.c', 'K'], ['create', 'deep.b.d', 'g'], ['create', 'mixed', 'g'],
        ['create', 'cls.sec.two', None], ['create', 'cls.outer.in.x', None], ['create', 'cls.new.a.b', None],
        ['create', 'cls.outer.new.y', None], ['create', 'cls.mix.z', None],
    ]
    fails = [
        ['create', 'deep', 'g'], ['create', 'deep.b', 'g'], ['create', 'stuff.f', 'g'], ['create', 'mixed.sub', 'g'],
        ['create', 'stuff', 'no source'], ['create', 'stuff', 'lambda'], ['create', 'brand.new', 'not a function'],
        ['create', 'brand.new', 'lambda'], ['create', 'stuff', None], ['create', 'cls.sec', None], ['create', 'cls.sec.x', 'g'],
        ['create', 'cls.outer.x', None], ['create', 'cls.sec.one.x', None], ['create', 'cls.mix.q.x', None], ['create', 'cls', None],
        ['create', 'stuff', 'other g'],
    ]
    others = [
        ['upd', 'stuff.f', {'a': 5}], ['upd', 'stuff.g', {'a': 6}], ['upd', 'cls.sec.two', {'b': 7}], ['upd', 'stuff.K', {'b': 8}],
        ['get', 'stuff.f'], ['get', 'stuff.K'], ['get', 'cls.sec.one'], ['reload'], ['declare', 'stuff', 'h'],
        ['declare', 'new', 'g'], ['declare', 'cls.sec.three', None], ['edit', 'stuff.g'], ['edit', 'stuff.f'], ['reset', 'stuff.f'],
    ]
    mixed = [others[i] for i in (0, 1, 4, 7, 8, 10, 11, 13)]
    if not deep:
        fails = fails[::2] + fails[-1:]
    out = [
        CreateSystem('creates', creates, 3 if deep else 2, 1, 'all sequences of creates'),
        CreateSystem('creates which fail', creates[:3] + creates[8:10] + fails, 2, 1, 'creates which are not possible'),
        CreateSystem('creates of a customized class', creates[:1] + creates[8:] + [
            ['upd', 'cls.sec.two', {'b': 7}], ['upd', 'cls.new.a.b', {'a': 3}], ['get', 'cls.sec.one'], ['reload'],
        ], 3 if deep else 2, 1, 'class with another key attribute, imports and assignments', specific='U'),
        CreateSystem('creates in an empty project', creates, 3 if deep else 2, 1, 'all sequences of creates', start=False),
        CreateSystem(
            'creates and changes', creates[:3] + creates[8:9] + fails[2:3] + (others if deep else mixed), 3, 1,
            'creates between other changes',
        ),
    ]
    out.append(Kinds('functions and classes of all kinds', 3 if deep else 2, 'wrapped, decorated, renamed, inherited, re-exported'))
    if deep:
        out.append(CreateSystem(
            'long histories', creates[:2] + creates[8:9] + mixed, 4, 1, 'longer histories of creates and changes',
        ))
    return out
