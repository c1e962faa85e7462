"""Objects of items know the section path at which they are"""
import os

import core
import world
from core import System, require, require_eq
from world import rec, IterativeRunner, Selector, PipelineManager

LEVEL = 'model_checking'
KNOWN = {}

MOD = '''
import pfcrec as _rec


def func(a=1, b=2):
    _rec.CALLS.append(('func', a, b))
    if _rec.HOOK is not None:
        _rec.HOOK(None)
    return (a, b)


def other(a=1):
    return a


class Gen:
    def __init__(self, a=1, b=2):
        self.a = a
        self.b = b

    def __call__(self):
        _rec.CALLS.append(('Gen', self._section_path_str))
        return (self._section_path_str, self.a)


class P:
    def __init__(self, name=None, a=1, b=2):
        self.name = name
        self.a = a
        self.b = b

    def __call__(self):
        before = self._section_path_str
        if _rec.HOOK is not None:
            _rec.HOOK(self)
        _rec.CALLS.append(('P', self._section_path_str))
        return (before, self._section_path_str, self.a)

    def other(self):
        before = self._section_path_str
        if _rec.HOOK is not None:
            _rec.HOOK(self)
        return (before, self._section_path_str, self.a)

    @property
    def where(self):
        return self._section_path_str
'''

DICT = '''from wherem import func, other, Gen

pipeline_dict = {'stuff': [func, Gen], 'deep': {'er': [other], 'stuff': [func]}}
'''

# Paths within a manager to what they are. Parts of the paths repeat, and the same objects are at several places
ITEMS = {
    'stuff.func': 'func',
    'deep.stuff.func': 'func',
    'stuff.Gen': 'Gen',
    'one.x.i': 'P',
    'one.x.j': 'P',
    'two.x.i': 'P',
}
SECTIONS = {
    'stuff': ['stuff.func', 'stuff.Gen'],
    'one.x': ['one.x.i', 'one.x.j'],
    'one': ['one.x.i', 'one.x.j'],
    'two': ['two.x.i'],
}


def flat(value):
    if isinstance(value, dict):
        value = list(value.values())
    if isinstance(value, list):
        return [o for v in value for o in flat(v)]
    return [value]


class Paths(System):
    def __init__(self, name, depth, split, note, managers=('m', 'n'), ways=None):
        self.name, self.depth, self.split, self.note = name, depth, split, note
        self.managers, self.ways = managers, ways

    def setup(self):
        world.reset_pyfileconf()
        world.lib(self.dir, wherem=MOD)
        import wherem
        self.mod = wherem
        self.pms = {}
        for name in self.managers:
            self.make(name)
        self.held = []  # objects which were handed out, with the paths they are at
        self.views = {}
        self.created = []
        rec.HOOK = None

    def make(self, name):
        self.pms[name] = world.manager(
            os.path.join(self.dir, name), name=name,
            pipeline_dict=DICT if name not in self.pms else None,
            specifics=[world.scd('one', self.mod.P), world.scd('two', self.mod.P, execute_attr='other')],
            specific_dicts={
                'one': "class_dict = {'x': ['i', 'j']}\n",
                'two': "class_dict = {'x': ['i']}\n",
            } if name not in self.pms else None,
        )

    def view(self, full):
        if full not in self.views:
            view = Selector()
            for part in full.split('.'):
                view = getattr(view, part)
            self.views[full] = view
        return self.views[full]

    def ops(self):
        out = []
        for name in self.managers:
            for path in ITEMS:
                if self.ways != 'short' or path in ('one.x.i', 'stuff.Gen'):
                    out += [[way, name, path] for way in ('get', 'get-view', 'attr', 'call', 'run')]
            for path in SECTIONS:
                out += [[way, name, path] for way in ('section', 'run-section')]
            out += [['update', name, 'one.x.i'], ['update', name, 'stuff.Gen'], ['reset', name, 'one.x.i'],
                    ['method', name, 'one.x.i'], ['property', name, 'two.x.i'], ['product', name, 'one.x.i'],
                    ['iterate', name, 'two.x.i'], ['nested', name, 'one.x.i'], ['list', name, 'one.x.j']]
            if name == 'm':
                out += [['reload', name], ['replace', name]]
                if not self.created:
                    out.append(['create', name])
        return out

    def hold(self, obj, full):
        require_eq(obj._section_path_str, full, f'path which the object of {full} has')
        self.held.append((obj, full))

    def items(self, name, section):
        return SECTIONS[section] + [i for i in self.created if name == 'm' and i.startswith(section + '.')]

    def result(self, got, full, kind):
        """:return: expected result of the item, which tells the paths it saw"""
        if kind == 'func':
            require(isinstance(got, tuple), f'result of {full} is {got!r}')
        elif kind == 'Gen':
            require_eq(got[0], full, f'path known while {full} runs')
        else:
            require_eq(got[:2], (full, full), f'path known while {full} runs')
        require(not hasattr(got, '_section_path_str'), f'result of {full} has a section path')

    def apply(self, op):
        way, name, *rest = op
        pm = self.pms[name]
        path = rest[0] if rest else None
        full = f'{name}.{path}'
        kind = ITEMS.get(path)
        if way == 'get':
            self.hold(pm.get(path), full)
        elif way == 'get-view':
            self.hold(pm.get(self.view(full)), full)
        elif way == 'attr':
            obj = pm
            for part in path.split('.'):
                obj = getattr(obj, part)
            if kind != 'func' or hasattr(obj, '_section_path_str'):
                self.hold(obj, full)
        elif way == 'call':
            got = self.view(full)()
            if kind == 'Gen':
                self.hold(got, full)  # calling the view of a class gives the object
            else:
                self.result(got, full, kind)
        elif way == 'run':
            self.result(pm.run(path), full, kind)
        elif way == 'list':
            got = pm.run([self.view(f'{name}.stuff.Gen'), path, 'two.x.i'])
            self.result(got[0], f'{name}.stuff.Gen', 'Gen')
            self.result(got[1], full, kind)
            self.result(got[2], f'{name}.two.x.i', 'P')
        elif way == 'section':
            objs = flat(pm.get(path))
            items = self.items(name, path)
            require_eq(len(objs), len(items), f'objects of {path}')
            for obj, item in zip(objs, items):
                self.hold(obj, f'{name}.{item}')
        elif way == 'run-section':
            for got, item in zip(flat(pm.run(path)), self.items(name, path)):
                if item in ITEMS:
                    self.result(got, f'{name}.{item}', ITEMS[item])
        elif way == 'update':
            pm.update(section_path_str=path, a=7)
        elif way == 'reset':
            pm.reset(path)
        elif way == 'method':
            got = self.view(full).other()
            self.result(got, full, kind)
        elif way == 'property':
            require_eq(self.view(full).where, full, 'path which the property of the object sees')
        elif way == 'product':
            for case, got in pm.run_product(path, [dict(section_path_str=path, b=b) for b in (3, 4)]):
                self.result(got, full, kind)
        elif way == 'iterate':
            runner = IterativeRunner([self.view(full), self.view(f'{name}.one.x.i')], [
                dict(section_path_str=full, b=b) for b in (3, 4)])
            for case, got in runner.run_gen():
                self.result(got[0], full, kind)
                self.result(got[1], f'{name}.one.x.i', kind)
        elif way == 'nested':
            seen = []

            def hook(obj):
                if seen:
                    return
                seen.append(None)
                for other in self.managers:
                    self.result(self.pms[other].run('two.x.i'), f'{other}.two.x.i', 'P')
                    self.result(self.view(f'{other}.one.x.j')(), f'{other}.one.x.j', 'P')
                    self.hold(self.pms[other].get('stuff.Gen'), f'{other}.stuff.Gen')

            rec.HOOK = hook
            try:
                self.result(pm.run(path), full, kind)
            finally:
                rec.HOOK = None
        elif way == 'reload':
            pm.reload()
        elif way == 'replace':
            self.make(name)
        elif way == 'create':
            pm.create('one.x.n')
            pm.create('stuff', self.mod.other)
            self.created = ['one.x.n', 'stuff.other']
            for item in self.created:
                self.hold(pm.get(item), f'{name}.{item}')
            self.result(pm.run('one.x.n'), f'{name}.one.x.n', 'P')
        else:
            raise core.HarnessError(way)

    def check(self):
        for obj, full in self.held:
            require_eq(obj._section_path_str, full, f'path which the object of {full}, handed out before, has')
        del rec.CALLS[:]

    def state(self):
        return [[full for _, full in self.held], self.created, sorted(self.views)]


def systems(tier):
    deep = tier == 'thorough'
    out = [
        Paths('one manager', 3, 1, 'all ways to reach each item' if deep else 'all ways to reach two of the items', managers=('m',),
              ways=None if deep else 'short'),
        Paths('two managers', 2, 1, 'all ways to reach each item of two managers with the same paths'),
    ]
    if deep:
        out.append(Paths('sequences of two managers', 3, 2, 'all ways to reach two items of two managers', ways='short'))
    return out
