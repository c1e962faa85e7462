"""Items inherit the configuration of their sections, the project and the local configuration"""
import itertools
import os

import core
import world
from core import System, require, require_eq
from hist import expected_result
from world import rec

LEVEL = 'model_checking'

LIB = '''
import pfcrec as _rec

def h(a=0, t=0):
    _rec.CALLS.append(('h', a, t))
    return ('h', a, t)
'''
PD = '''from fxm import f, K
from c19m import h

pipeline_dict = {
    "deep": {"er": [h, K], "am": [f]},
}
'''
KINDS = {
    'deep.er.h': ('h', {'a': 0, 't': 0}),
    'deep.er.K': ('K', {'a': None, 'b': 1}),
    'deep.am.f': ('f', {'a': None, 'b': 1}),
    'cls.sec.one': ('S', {'name': 'one', 'a': None, 'b': 1}),
}
SECTIONS = ['', 'deep', 'deep.er', 'deep.am']


class Model:
    def __init__(self, items, sections):
        self.item_files = {p: dict(KINDS[p][1], **items.get(p, {})) for p in KINDS}
        self.section_files = {s: dict(sections.get(s, {})) for s in SECTIONS}
        self.reload()

    def reload(self):
        # What persistent and other updates added on top of files
        self.items = {p: [{}, {}] for p in KINDS}
        self.sections = {s: [{}, {}] for s in SECTIONS}
        self.read = {s: dict(v) for s, v in self.section_files.items()}
        # Files of items are read on first use
        self.item_read = {p: None for p in KINDS}
        self.local = {}

    def touch(self, path):
        if self.item_read[path] is None:
            self.item_read[path] = dict(self.item_files[path])

    def update(self, store, updates, persist):
        persisted, other = store
        for k, v in updates.items():
            other.pop(k, None)
            if persist:
                persisted[k] = v
            else:
                other[k] = v

    def section(self, s):
        persisted, other = self.sections[s]
        return {**self.read[s], **persisted, **other}

    def effective(self, path):
        persisted, other = self.items[path]
        base = self.item_read[path] or self.item_files[path]
        out = {**base, **persisted, **other}
        parts = path.split('.')
        layers = [self.section('')]
        for i in range(1, len(parts)):
            s = '.'.join(parts[:i])
            if s in self.sections:
                layers.append(self.section(s))
        layers.append(self.local)
        for layer in layers:
            out.update({k: v for k, v in layer.items() if k in out})
        return out

    def under(self, s):
        return [p for p in KINDS if p.startswith(s + '.')], [x for x in SECTIONS if x == s or x.startswith(s + '.')]

    def reset_section(self, s):
        items, sections = self.under(s)
        for p in items:
            self.items[p] = [{}, {}]
            if self.item_read[p] is not None:
                self.item_read[p] = dict(self.item_files[p])
        for x in sections:
            self.sections[x] = [{}, {}]
            self.read[x] = dict(self.section_files[x])


def source(values):
    return ''.join(f'{k} = {v!r}\n' for k, v in values.items())


class Inheritance(System):
    def __init__(self, name, alphabet, depth, split=1, items=None, sections=None, note=''):
        self.name, self.alphabet, self.depth, self.split, self.note = name, alphabet, depth, split, note
        self.item_files, self.section_files = items or {}, sections or {}

    def setup(self):
        self.build(self.item_files, self.section_files)

    def build(self, items, sections):
        world.reset_pyfileconf()
        mod = world.fxm(self.dir)
        world.lib(self.dir, c19m=LIB)
        self.root = os.path.join(self.dir, 'm')
        self.model = Model(items, sections)
        self.pm = world.manager(
            self.root, pipeline_dict=PD, specifics=[world.scd('cls', mod.S)],
            specific_dicts={'cls': 'class_dict = {"sec": ["one"]}\n'},
        )
        for path, values in items.items():
            self.edit(path, values)
        for s, values in sections.items():
            world.write(self.section_path(s), 'from pyfileconf import Selector\n\ns_ = 1\n' + source(values))
        self.pm.reload()
        self.sel = world.Selector()

    def section_path(self, s):
        return os.path.join(self.root, 'defaults', *[p for p in s.split('.') if p], 'section.py')

    def edit(self, path, values):
        file = os.path.join(self.root, 'defaults', *path.split('.')) + '.py'
        lines = world.read(file).split('\n')
        for k, v in values.items():
            idx = [i for i, l in enumerate(lines) if l.startswith((k + ' =', k + ':'))]
            require(len(idx) == 1, 'config file of %s does not assign %s once: %r', path, k, lines)
            lines[idx[0]] = f'{k} = {v!r}'
        world.write(file, '\n'.join(lines))

    def ops(self):
        return self.alphabet

    def apply(self, op):
        kind, *args = op
        m, pm = self.model, self.pm
        if kind == 'sec':
            s, updates, persist, form = args
            if form == 'kw':
                pm.update(section_path_str=s, pyfileconf_persist=persist, **updates)
            elif form == 'd':
                pm.update(dict(updates), s, persist)
            elif form == 'batch':
                pm.update_batch([dict(section_path_str=s, pyfileconf_persist=persist, **updates)])
            elif form == 'iv':
                view = self.sel.m
                for part in s.split('.'):
                    view = getattr(view, part)
                for k, v in updates.items():
                    setattr(view, k, v)
            m.update(m.sections[s], updates, persist)
        elif kind == 'local':
            pm.update(**args[0])
            m.local.update(args[0])
        elif kind == 'item':
            pm.update(section_path_str=args[0], pyfileconf_persist=args[2], **args[1])
            m.touch(args[0])
            m.update(m.items[args[0]], args[1], args[2])
        elif kind == 'reset':
            pm.reset(args[0])
            if args[0] in KINDS:
                m.items[args[0]] = [{}, {}]
                m.item_read[args[0]] = dict(m.item_files[args[0]])
            else:
                m.reset_section(args[0])
        elif kind == 'refresh':
            pm.refresh(args[0])
            if args[0] in KINDS:
                m.items[args[0]][1] = {}
                m.item_read[args[0]] = dict(m.item_files[args[0]])
            else:
                m.sections[args[0]][1] = {}
                m.read[args[0]] = dict(m.section_files[args[0]])
        elif kind == 'edit-section':
            world.write(self.section_path(args[0]), 's_ = 1\n' + source(args[1]))
            m.section_files[args[0]] = dict(args[1])
        elif kind == 'reload':
            pm.reload()
            m.reload()
        elif kind == 'get':
            self.get(args[0])
        elif kind == 'run':
            self.run(args[0])
        else:
            raise core.HarnessError(kind)

    def get(self, path):
        self.model.touch(path)
        obj = self.pm.get(path)
        kind, defaults = KINDS[path]
        got = dict(obj.keywords) if kind in ('f', 'h') else {k: getattr(obj, k) for k in defaults}
        require_eq(got, self.model.effective(path), f'configuration of {path} from get')

    def run(self, path):
        self.model.touch(path)
        want = expected_result(KINDS[path][0], self.model.effective(path))
        del rec.CALLS[:]
        require_eq(self.pm.run(path), want, f'result of running {path}')
        require_eq(rec.CALLS, [want], f'calls made by running {path}')

    def check(self):
        for path in KINDS:
            self.get(path)
            self.run(path)
            self.get(path)

    def state(self):
        m = self.model
        return [m.item_files, m.section_files, m.items, m.sections, m.read, m.item_read, m.local]


class Precedence(Inheritance):
    """Every combination of places which give a value"""
    depth = 1
    split = 1

    def __init__(self, name):
        super().__init__(name, [], 1, note='every subset of config files and local config which give values, per way to load')

    def setup(self):
        pass

    def ops(self):
        layers = ['item', '', 'deep', 'deep.er', 'deep.am', 'local']
        return [
            [sorted(subset, key=layers.index), first]
            for n in range(len(layers) + 1) for subset in itertools.combinations(layers, n)
            for first in ('get', 'run', 'section', 'runsection', 'view')
        ]

    def apply(self, op):
        subset, first = op
        values = {layer: {'a': 10 + i, 't': 20 + i, 'b': 30 + i} for i, layer in
                  enumerate(['item', '', 'deep', 'deep.er', 'deep.am', 'local'])}
        items = {}
        if 'item' in subset:
            items = {p: {k: values['item'][k] for k in KINDS[p][1] if k != 'name'} for p in KINDS}
        self.build(items, {s: values[s] for s in SECTIONS if s in subset})
        if 'local' in subset:
            self.pm.update(**values['local'])
            self.model.local = dict(values['local'])
        if first == 'run':
            for p in KINDS:
                self.run(p)
        elif first == 'section':
            self.pm.get('deep')
            self.pm.get('cls')
        elif first == 'runsection':
            want = {p: expected_result(KINDS[p][0], self.model.effective(p)) for p in KINDS}
            require_eq(self.pm.run('deep'), [[want['deep.er.h'], want['deep.er.K']], [want['deep.am.f']]], 'result of running a section')
        elif first == 'view':
            require_eq(self.sel.m.deep.er.h(), expected_result('h', self.model.effective('deep.er.h')), 'result of calling a view')
            require_eq(self.sel.m.deep.am.f.keywords, self.model.effective('deep.am.f'), 'keywords of a view')

    def check(self):
        if hasattr(self, 'model'):
            super().check()

    def state(self):
        return None


class Shapes(System):
    """Every path of sections over a few names, which may repeat or be the name of the item or of the defaults folder, with
    every combination of which of the layers set which of the arguments"""
    depth = 1
    split = 1
    NAMES = ['x', 'f', 'defaults']

    def __init__(self, name, length, choices):
        self.name, self.length, self.choices = name, length, choices
        self.note = 'all section paths over three names, with all subsets of layers'

    def setup(self):
        pass

    def ops(self):
        return [
            [list(path), list(layers)] for n in range(1, self.length + 1) for path in itertools.product(self.NAMES, repeat=n)
            for layers in itertools.product(self.choices, repeat=n + 2)
        ]

    def apply(self, op):
        path, layers = op
        world.reset_pyfileconf()
        world.fxm(self.dir)
        root = os.path.join(self.dir, 'm')
        structure = ['f']
        for name in path[::-1]:
            structure = {name: structure}
        text = 'from fxm import f\n\npipeline_dict = ' + repr(structure).replace("['f']", '[f]') + '\n'
        world.write(os.path.join(root, 'pipeline_dict.py'), text)
        want = {'a': None, 'b': 1}
        values = [{k: 10 * i + (k == 'b') for k in keys} for i, keys in enumerate(layers, 1)]
        for i, v in enumerate(values[:-1]):
            world.write(os.path.join(root, 'defaults', *path[:i], 'section.py'), source(v))
        for v in values:
            want.update(v)
        pm = world.manager(root, pipeline_dict=None)
        pm.update(**values[-1])
        item = '.'.join([*path, 'f'])
        result = expected_result('f', want)
        require_eq(pm.run(item), result, f'result of {item}')
        nested = [result]
        for name in path[1:]:
            nested = [nested]
        require_eq(pm.run(path[0]), nested, f'result of {path[0]}')
        pm.reload()
        pm.update(**values[-1])
        require_eq(dict(pm.get(item).keywords), want, f'configuration of {item} after reloading')

    def check(self):
        pass

    def state(self):
        return None


def alphabet(sections, items):
    out = []
    for i, s in enumerate(sections):
        out += [
            ['sec', s, {'a': 5 + i}, True, 'kw'],
            ['sec', s, {'a': 8 + i}, False, 'd'],
            ['sec', s, {'t': 3 + i}, True, ['batch', 'iv'][i % 2]],
            ['reset', s],
            ['refresh', s],
            ['edit-section', s, {'a': 40 + i}],
        ]
    for item, key in items:
        out += [
            ['item', item, {key: 9}, True],
            ['item', item, {key: 11}, False],
            ['reset', item],
            ['refresh', item],
            ['run', item],
        ]
    return out + [['local', {'t': 77}], ['local', {'a': 78}], ['reload']]


def systems(tier):
    deep = tier == 'thorough'
    out = [Precedence('precedence'), Shapes('shapes', 3, ['', 'a', 'ab'] if deep else ['', 'a'])]
    files = {'deep': {'a': 60}, 'deep.er': {'a': 61}, 'deep.am': {'a': 62}}
    out.append(Inheritance(
        'outer+f', alphabet(['deep'], [('deep.am.f', 'b')]), 4 if deep else 3, 2 if deep else 1,
        note='all sequences of operations on a section and an item of a section in it',
        sections={'deep': {'a': 60}}))
    out.append(Inheritance(
        'inner+K', alphabet(['deep.er'], [('deep.er.K', 'b')]), 4 if deep else 3, 2 if deep else 1,
        note='all sequences of operations on a section and a class in it', sections=files))
    out.append(Inheritance(
        'both', alphabet(['deep', 'deep.er'], []) + [['run', 'deep.er.h'], ['get', 'deep.er.K']], 4 if deep else 3, 2 if deep else 1,
        note='all sequences of operations on a section and a section in it',
        sections=files))
    blank = []
    for s in ('deep', 'deep.am'):
        blank += [
            ['sec', s, {'a': 5}, False, 'kw'], ['sec', s, {'b': 6}, True, 'd'], ['edit-section', s, {'a': 40}],
            ['edit-section', s, {'b': 41}], ['edit-section', s, {}], ['refresh', s], ['reset', s],
        ]
    blank += [['refresh', 'deep.am.f'], ['run', 'deep.am.f'], ['reload']]
    out.append(Inheritance('blank', blank, 4 if deep else 3, 2 if deep else 1,
                           note='all sequences of operations on sections whose configs are blank at first and gain and lose keys'))
    item = 'cls.sec.one'
    out.append(Inheritance(
        'specific', [
            ['item', item, {'a': 9}, True], ['item', item, {'b': 4, 'a': 2}, False], ['run', item], ['get', item], ['refresh', item],
            ['reset', item], ['reset', 'cls'], ['reset', 'cls.sec'], ['reset', 'deep'], ['reload'],
            ['item', 'deep.er.h', {'t': 5}, True],
        ], 4 if deep else 3, 2 if deep else 1, note='all sequences of operations on specific classes and their sections'))
    return out


def _item_update_undone():
    """An update of an item, for a key which its section also sets, is undone by an update of another key"""
    import tempfile
    import shutil
    system = Inheritance('known', [], 0, sections={'deep': {'a': 60}})
    system.dir = tempfile.mkdtemp(dir=core.scratch_base())
    try:
        system.setup()
        system.pm.run('deep.am.f')
        system.pm.update(section_path_str='deep.am.f', a=9)
        before = system.pm.run('deep.am.f')
        system.pm.update(section_path_str='deep.am.f', b=2)
        after = system.pm.run('deep.am.f')
        if before[1] != after[1]:
            return f'a was {before[1]} and is {after[1]} after only b was updated'
    finally:
        shutil.rmtree(system.dir)


KNOWN = {'item-update-undone': _item_update_undone}
