"""Managers do not affect each other, and each path belongs to one manager"""
import gc
import os
import sys

import core
import world
from core import require, require_eq
from hist import ConfigSystem, ITEMS, Item, PIPELINE_DICT, expected_result
from world import rec
from pyfileconf import PipelineManager
from pyfileconf.exceptions.pipelinemanager import (
    NoPipelineManagerForFilepathException, NoPipelineManagerForSectionPathException, PipelineManagerNotLoadedException
)

LEVEL = 'model_checking'
KNOWN = {}

# One project within the folder of another, names and folders which are a prefix of others
FOLDERS = {'m': 'm', 'n': 'm/n', 'mm': 'mm'}
# The same class with different execute attributes, in the same and in other managers
EXECUTE = {('m', 'cls'): '__call__', ('m', 'cls2'): 'other', ('n', 'cls'): 'other', ('n', 'cls2'): '__call__',
           ('mm', 'cls'): '__call__', ('mm', 'cls2'): '__call__'}
PATHS = ['stuff.f', 'kl.K', 'cls.sec.one', 'cls2.sec.one', 'upd.sec.one']
KIND = {**ITEMS, 'cls2.sec.one': ('S', {'name': 'one', 'a': None, 'b': 1})}


def result_of(manager, path, cfg):
    res = expected_result(KIND[path][0], cfg)
    if EXECUTE.get((manager, path.split('.')[0])) == 'other':
        return ('S.other', *res[1:])
    return res


class Managers(ConfigSystem):
    def __init__(self, name, alphabet, depth, split=1, initial=('m', 'n'), note='', folders=FOLDERS):
        super().__init__(name, PATHS, alphabet, depth, split, note)
        self.initial = initial
        self.folders = folders

    def setup(self):
        world.reset_pyfileconf()
        self.mod = world.fxm(self.dir)
        self.pms = {}
        self.models = {}
        self.life = {name: 'absent' for name in self.folders}
        self.all_texts = {}
        for name in self.initial:
            self.create(name)
            self.load(name)
        self.sel = world.Selector()
        for name in self.initial:
            self.models[name] = self.fresh()

    def fresh(self):
        return {p: Item(KIND[p][1]) for p in PATHS}

    def folder(self, name):
        return os.path.join(self.dir, *self.folders[name].split('/'))

    def create(self, name):
        mod = self.mod
        self.pms[name] = world.manager(
            self.folder(name), name=name, pipeline_dict=PIPELINE_DICT,
            specifics=[
                world.scd('cls', mod.S, execute_attr=EXECUTE[name, 'cls']),
                world.scd('cls2', mod.S, execute_attr=EXECUTE[name, 'cls2']),
                world.scd('upd', mod.U, key_attr='key', execute_attr='go'),
            ],
            specific_dicts={n: 'class_dict = {"sec": ["one"]}\n' for n in ('cls', 'cls2', 'upd')},
            load=False,
        )
        self.life[name] = 'created'

    def load(self, name):
        self.pms[name].load()
        self.life[name] = 'loaded'
        self.models[name] = self.fresh()

    def iv(self, item):
        return world.ItemView.from_section_path_str(f'{self.current}.{item}')

    def observe_values(self, item, obj):
        return dict(obj.keywords) if item == 'stuff.f' else {k: getattr(obj, k) for k in KIND[item][1]}

    def ops(self):
        out = []
        for op in self.alphabet:
            life = self.life[op[0]] if op[0] in self.life else None
            if op[0] == 'xb':
                if all(self.life[i.split('.')[0]] == 'loaded' for i, _ in op[1]):
                    out.append(op)
            elif op[1][0] == 'create':
                if life == 'absent':
                    out.append(op)
            elif op[1][0] in ('load', 'badload'):
                if life in ('created', 'failed'):
                    out.append(op)
            elif life == 'loaded':
                out.append(op)
        return out

    def apply(self, op):
        if op[0] == 'xb':
            world.BatchUpdater().update([dict(section_path_str=i, **u) for i, u in op[1]])
            for i, u in op[1]:
                name, path = i.split('.', 1)
                self.models[name][path].update(u, True)
            return
        name, (kind, *args) = op
        if kind == 'create':
            self.create(name)
        elif kind == 'load':
            self.load(name)
        elif kind == 'badload':
            path = os.path.join(self.folder(name), 'pipeline_dict.py')
            world.write(path, 'from fxm import f\npipeline_dict = {"stuff": [f, }\n')
            e = world.raises(self.pms[name].load)
            require(isinstance(e, SyntaxError), 'loading a broken pipeline dict: %r', e)
            world.write(path, PIPELINE_DICT)
            self.life[name] = 'failed'
        elif kind == 'replace':
            # A new manager of the same name and folder takes over
            old = self.pms.pop(name)
            self.create(name)
            del old
            gc.collect()
            self.load(name)
        else:
            self.current = name
            self.pm = self.pms[name]
            self.model = self.models[name]
            if kind == 'run':
                self.run(name, args[0])
            else:
                super().apply([kind, *args])

    def run(self, name, path):
        del rec.CALLS[:]
        got = self.pms[name].run(path)
        it = self.models[name][path]
        it.touch()
        require_eq(got, result_of(name, path, it.effective()), f'result of running {path} of {name}')

    def check(self):
        for name, life in self.life.items():
            if life == 'loaded':
                for path in PATHS:
                    want = self.models[name][path].effective()
                    require_eq(self.observe_values(path, self.pms[name].get(path)), want, f'configuration of {path} of {name}')
                    self.run(name, path)
                    if path != 'kl.K':
                        for sel in (self.sel, world.Selector()):
                            view = sel
                            for part in f'{name}.{path}'.split('.'):
                                view = getattr(view, part)
                            require_eq(view(), result_of(name, path, want), f'calling the view of {path} of {name}')
            elif life != 'absent':
                for act in (lambda: self.pms[name].run('stuff.f'),
                            lambda: getattr(getattr(world.Selector(), name), 'stuff').f.a):
                    e = world.raises(act)
                    require(isinstance(e, PipelineManagerNotLoadedException),
                            'use of manager %s, which is not loaded: %r', name, e)
        self.check_lookup()

    def check_lookup(self):
        active = {n for n, life in self.life.items() if life != 'absent'}
        require_eq(set(world.context.active_managers), active, 'names of the active managers')
        for name in active:
            require(world.context.active_managers[name] is self.pms[name], 'active manager %s is another one', name)
            require(PipelineManager.get_manager_by_section_path_str(f'{name}.stuff.f') is self.pms[name],
                    'manager of section path %s.stuff.f', name)
        require_eq(set(dir(world.Selector())) - {'get_type'}, active, 'dir of a selector')
        for unknown in set(self.folders) - active | {'zzz', 'm_', 'f'}:
            e = world.raises(PipelineManager.get_manager_by_section_path_str, unknown + '.stuff.f')
            require(isinstance(e, NoPipelineManagerForSectionPathException), 'section path in %s: %r', unknown, e)
        cwd = os.getcwd()
        files = {}
        for name in self.folders:
            root = self.folder(name)
            for rel in ('defaults/stuff/f.py', 'defaults/stuff/section.py', 'pipeline_dict.py', 'defaults/x/new.py'):
                files[os.path.join(root, *rel.split('/'))] = name
        files[os.path.join(self.dir, 'm', 'nn', 'x.py')] = 'm'
        files[os.path.join(self.dir, 'lib', 'fxm.py')] = None
        files[os.path.join(self.dir, 'm.py')] = None
        files[os.path.join(self.dir, 'mmm', 'x.py')] = None
        for path, owner in files.items():
            # The closest project which has an active manager
            while owner is not None and owner not in active:
                outer = os.path.dirname(self.folder(owner))
                owner = next((n for n in self.folders if self.folder(n) == outer), None)
            for base, given in ((cwd, path), (self.dir, os.path.relpath(path, self.dir)),
                                (cwd, os.path.join(os.path.dirname(path), '.', '..', os.path.basename(os.path.dirname(path)), os.path.basename(path)))):
                os.chdir(base)
                try:
                    got = world.raises(PipelineManager.get_manager_by_filepath, given)
                    found = PipelineManager.get_manager_by_filepath(given) if got is None else None
                finally:
                    os.chdir(cwd)
                if owner is None:
                    require(isinstance(got, NoPipelineManagerForFilepathException), 'manager of %s: %r %r', given, got, found)
                else:
                    require(found is self.pms[owner], 'manager of %s: expected %s, got %s (%r)', given, owner,
                            found and found.name, got)

    def state(self):
        return [self.life, {n: {p: m[p].state() for p in PATHS} for n, m in self.models.items() if self.life[n] == 'loaded'}]


def per_manager(name, item):
    return [
        [name, ['upd', item, {'a': 1}, True, 'kw']],
        [name, ['upd', item, {'a': 2}, True, 'iv']],
        [name, ['upd', item, {'b': 3}, False, 'batch']],
        [name, ['reset', item]],
        [name, ['refresh', item]],
        [name, ['run', item]],
        [name, ['get', item]],
        [name, ['reload']],
        [name, ['replace']],
    ]


LIFE = [['mm', ['create']], ['mm', ['load']], ['mm', ['badload']]]


class Modules(core.System):
    """Managers whose items are in modules of their own, which have state, and which are imported when an item is first used"""

    def __init__(self, depth, split, note):
        self.name, self.depth, self.split, self.note = 'modules', depth, split, note

    def setup(self):
        world.reset_pyfileconf()
        text = ('COUNT = []\n\ndef f(a=1):\n    COUNT.append(a)\n    return len(COUNT)\n\n'
                'def g(a=1):\n    return len(COUNT)\n\n'
                'class K:\n    def __init__(self, a=1):\n        self.a = a\n    def __call__(self):\n'
                '        return (isinstance(self, K), len(COUNT))\n')
        world.lib(self.dir, **{
            f'{n}items': text for n in 'mn'
        })
        self.pms = {}
        self.count = {}
        self.owned = {}
        for n in 'mn':
            self.make(n)

    def make(self, n):
        # Reloading imports only modules again which were imported by the manager
        self.owned[n] = f'{n}items' not in sys.modules
        self.pms[n] = world.manager(os.path.join(self.dir, 'm/n' if n == 'n' else 'm'), name=n, pipeline_dict=self.text(n))
        self.count.setdefault(n, 0)

    def text(self, n):
        return f'from {n}items import f, g, K\n\npipeline_dict = {{"stuff": [f], "more": {{"deep": [g, K]}}}}\n'

    def ops(self):
        return [[what, n] for n in 'mn' for what in ('f', 'g', 'K', 'reload', 'replace', 'bad', 'raising')]

    def apply(self, op):
        what, n = op
        pm = self.pms[n]
        if what in ('f', 'g', 'K'):
            self.use(what, n)
        elif what == 'replace':
            self.make(n)
        else:
            if what == 'bad':
                path = os.path.join(pm.folder, 'pipeline_dict.py')
                world.write(path, 'pipeline_dict = {')
                require(world.raises(pm.reload) is not None, f'reload of {n} with a broken dict file did not fail')
                world.write(path, self.text(n))
            elif what == 'raising':
                path = os.path.join(pm.folder, 'defaults', 'section.py')
                world.write(path, 'raise ValueError\n')
                world.raises(pm.reload)
                os.remove(path)
            pm.reload()
            if self.owned[n]:
                self.count[n] = 0

    def use(self, what, n):
        pm = self.pms[n]
        if what == 'f':
            self.count[n] += 1
            require_eq(pm.run('stuff.f'), self.count[n], f'count which f of {n} gives')
        elif what == 'g':
            require_eq(pm.run('more.deep.g'), self.count[n], f'count which g of {n} gives')
        else:
            require_eq(pm.run('more.deep.K'), (True, self.count[n]), f'class and count which K of {n} gives')

    def check(self):
        for n in 'nm':
            for what in 'gKfg':
                self.use(what, n)

    def state(self):
        return [self.count, self.owned]


def systems(tier):
    deep = tier == 'thorough'
    out = []
    for item in ['stuff.f', 'cls.sec.one', 'kl.K'] if deep else ['stuff.f', 'cls.sec.one']:
        out.append(Managers(
            f'two:{item}', per_manager('m', item) + per_manager('n', item) + [
                ['xb', [[f'm.{item}', {'a': 5}], [f'n.{item}', {'a': 6, 'b': 7}], [f'm.{item}', {'b': 8}]]]
            ], 3, 2,
            note='all sequences of operations on the same item of two managers, one within the folder of the other'
        ))
    out.append(Managers(
        'life', per_manager('m', 'stuff.f')[1:2] + per_manager('m', 'cls.sec.one')[5:] +
        per_manager('n', 'cls.sec.one')[:1] + per_manager('n', 'cls.sec.one')[8:] + per_manager('mm', 'cls2.sec.one')[1:9] + LIFE,
        4 if deep else 3, 2 if deep else 1,
        note='managers which are created, not loaded, loaded, fail to load and are replaced'
    ))
    out.append(Managers(
        'life-none', [[n, [k]] for n in ('m', 'n', 'mm') for k in ('create', 'load', 'badload', 'replace')] + [
            ['mm', ['run', 'stuff.f']], ['n', ['upd', 'upd.sec.one', {'a': 1}, True, 'iv']],
        ], 6 if deep else 5, 3 if deep else 2, initial=(),
        note='all orders of creating, loading and replacing three managers'
    ))
    out.append(Modules(4 if deep else 3, 2 if deep else 1, 'modules with state, which one manager imports and another reloads'))
    return out
