"""Names of items, sections, managers and arguments do not matter"""


import os

import core
import names
import world
from core import System, require, require_eq
from world import rec
import pyfileconf
import pyfileconf.runner.models.runner as runner_module

LEVEL = 'exploration'
KNOWN = {}
RULE = 'a project whose item, section, manager or argument has a name which also is a name within pyfileconf or Python'

# Reserved: file of the section config, attributes of views
RESERVED_FILES = {'section'}
VIEW = {'item', 'type', 'selector', 'section_path_str'}
UPDATE_ARGS = {'d_', 'section_path_str', 'pyfileconf_persist'}
class Names(System):
    """A project for each name"""
    depth = 1
    split = 1
    kind = None

    def __init__(self, names, note):
        self.name, self.names, self.note = self.kind, names, note

    def setup(self):
        pass

    def ops(self):
        return list(self.names)

    def apply(self, op):
        world.reset_pyfileconf()
        self.run(op)

    def lib(self, **mods):
        world.lib(self.dir, **mods)
        return [__import__(m) for m in mods]

    def exercise(self, pm, path, results, section=None, view=True, attr=True, extra=()):
        """
        All ways to use an item with the arguments a and b

        :param results: from a, b to the result of running the item
        :param section: from a, b to the result of running the section of the item
        """
        full = f'{pm.name}.{path}'
        what = f'{full}: '
        parent = path.rsplit('.', 1)[0]

        def value(a, b):
            want = results(a, b)
            require_eq(pm.run(path), want, what + 'result of run')
            obj = pm.get(path)
            require_eq(self.call(obj), want, what + 'result of calling what get gives')
            if section is not None:
                require_eq(pm.run(parent), section(a, b), what + 'result of running its section')
                require_eq([self.call(x) for x in pm.get(parent)], section(a, b), what + 'result of calling the items of its section')
            if attr:
                o = pm
                for part in path.split('.'):
                    o = getattr(o, part)
                require(o is obj, what + 'attributes of the manager give another object %r', o)
            if view:
                v = world.Selector()
                for part in full.split('.'):
                    v = getattr(v, part)
                require(world.is_item_view(v), what + 'not a view: %r', v)
                require_eq(v.section_path_str, full, what + 'section path of view')
                require(v.item is obj, what + 'the view gives another object')
                require_eq(self.call(v), want, what + 'result of calling the view')
                require_eq(pm.run(v), want, what + 'result of running the view')
                require(full in world.Selector(), what + 'is not in the selector')
            return obj

        value(1, 2)
        pm.update(section_path_str=path, a=3)
        value(3, 2)
        pm.update({'b': 4}, path, False)
        obj = value(3, 4)
        pm.refresh(path)
        value(3, 2)
        if view:
            v = world.ItemView.from_section_path_str(full)
            v.a = 5
            value(5, 2)
        pm.update_batch([dict(section_path_str=path, a=6), dict(section_path_str=path, b=7)])
        value(6, 7)
        require_eq(pm.run_product(path, [dict(section_path_str=path, a=8), dict(section_path_str=path, a=9)]) and None, None, what + 'iteration')
        require_eq([r for _, r in pm.run_product(path, [dict(section_path_str=path, a=8), dict(section_path_str=path, a=9)])],
                   [results(8, 7), results(9, 7)], what + 'results of iteration')
        pm.reset(path)
        require(value(1, 2) is obj, what + 'replaced by reset')
        world.BatchUpdater().update([dict(section_path_str=full, a=3)])
        value(3, 2)
        pm.reload()
        value(1, 2)
        file = os.path.join(pm.folder, 'defaults', *path.split('.')) + '.py'
        text = world.read(file)
        require('a = 1' in text.split('\n'), what + 'config file is %r', text)
        world.write(file, text.replace('a = 1', 'a = 10'))
        pm.reload()
        value(10, 2)
        pm.update(section_path_str=path, a=3)

    def call(self, obj):
        return obj()

    def next_session(self, pm, paths, specifics=()):
        """Everything is also there for a session which starts with the files"""
        pyfileconf.context.reset()
        again = world.manager(pm.folder, pm.name, specifics=specifics)
        for path, want in paths.items():
            require_eq(again.run(path), want, f'{path}: result of run in the next session')


class General(Names):
    kind = 'general'

    def run(self, n):
        mod, = self.lib(nmmod_=f'def ff_(a=1, b=2):\n    return "ff_", a, b\n\ndef gg_(a=1, b=2):\n    return "gg_", a, b\n\n'
                               f'def {n}(a=1, b=2):\n    return "n", a, b\n')
        other, = self.lib(nmmod2_='def hh_(a=1, b=2):\n    return "hh_", a, b\n')
        pm = world.manager(os.path.join(self.dir, 'm_'), 'mm_', f'''from nmmod_ import ff_, {n}
from nmmod2_ import hh_

pipeline_dict = {{
    "stuff_": [ff_, {n}],
    "{n}": [hh_],
    "outer_": {{"{n}": [hh_]}},
    "far_": {{"{n}": {{"in_": [hh_]}}}},
}}
''')
        in_view = n not in VIEW
        in_section = n not in SECTION_ATTRS
        ff, nn, hh = [lambda a, b, x=x: (x, a, b) for x in ('ff_', 'n', 'hh_')]
        paths = {}
        if n not in RESERVED_FILES:
            self.exercise(pm, f'stuff_.{n}', nn, lambda a, b: [('ff_', 1, 2), nn(a, b)], view=in_view, attr=in_section)
            paths[f'stuff_.{n}'] = nn(10, 2)
            pm.create('fresh_', getattr(mod, n))
            self.exercise(pm, f'fresh_.{n}', nn, lambda a, b: [nn(a, b)], view=in_view, attr=in_section)
            paths[f'fresh_.{n}'] = nn(10, 2)
        self.exercise(pm, f'{n}.hh_', hh, lambda a, b: [hh(a, b)], view=in_view, attr=n not in ATTRS)
        self.exercise(pm, f'outer_.{n}.hh_', hh, lambda a, b: [hh(a, b)], view=in_view, attr=in_section)
        self.exercise(pm, f'far_.{n}.in_.hh_', hh, lambda a, b: [hh(a, b)], view=in_view, attr=in_section)
        pm.create(f'new_.{n}', mod.gg_)
        pm.create(f'{n}', mod.gg_)
        paths.update({f'{n}.hh_': hh(10, 2), f'outer_.{n}.hh_': hh(10, 2), f'far_.{n}.in_.hh_': hh(10, 2), f'new_.{n}.gg_': ('gg_', 1, 2),
                      f'{n}.gg_': ('gg_', 1, 2), 'stuff_.ff_': ('ff_', 1, 2)})
        self.next_session(pm, paths)


class Classes(Names):
    """Manager, general class and sections all have the same name"""
    kind = 'classes'

    def call(self, obj):
        # Views of classes give the object
        return obj()() if world.is_item_view(obj) else obj()

    def run(self, n):
        mod, = self.lib(nmcls_=f'''class {n}:
    def __init__(self, a=1, b=2):
        self.a = a
        self.b = b
    def __call__(self):
        return "n", self.a, self.b
''')
        pm = world.manager(os.path.join(self.dir, n), n, f'from nmcls_ import {n}\n\npipeline_dict = {{"{n}": {{"{n}": [{n}]}}}}\n')
        if n in RESERVED_FILES:
            return
        self.exercise(pm, f'{n}.{n}.{n}', lambda a, b: ('n', a, b), view=n not in VIEW and n not in SELECTOR, attr=n not in ATTRS)
        require_eq(pm.run(n), [[('n', 3, 2)]], 'result of running the section')
        self.next_session(pm, {f'{n}.{n}.{n}': ('n', 10, 2)})


class Specific(Names):
    kind = 'specific'

    def call(self, obj):
        return obj()

    def run(self, n):
        mod, = self.lib(nmspec_='''class S:
    def __init__(self, name=None, a=1, b=2):
        self.name = name
        self.a = a
        self.b = b
    def __call__(self):
        return self.name, self.a, self.b
''')
        specifics = [world.scd('cls_', mod.S)]
        dicts = {'cls_': f'class_dict = {{"sec_": ["one_", "{n}"], "{n}": ["{n}"], "far_": {{"{n}": ["one_"]}}}}\n'}
        if n not in DICTS:
            specifics.append(world.scd(n, mod.S))
            dicts[n] = f'class_dict = {{"{n}": ["{n}", "two_"]}}\n'
        pm = world.manager(os.path.join(self.dir, 'm_'), 'mm_', 'pipeline_dict = {}\n', specifics, dicts)
        in_view = n not in VIEW
        in_section = n not in SECTION_ATTRS
        me, one, two = [lambda a, b, x=x: (x, a, b) for x in (n, 'one_', 'two_')]
        paths = {}
        if n not in RESERVED_FILES:
            self.exercise(pm, f'cls_.sec_.{n}', me, lambda a, b: [one(1, 2), me(a, b)], view=in_view, attr=in_section)
            self.exercise(pm, f'cls_.{n}.{n}', me, lambda a, b: [me(a, b)], view=in_view, attr=in_section)
            pm.create(f'cls_.new_.{n}')
            paths.update({f'cls_.sec_.{n}': me(10, 2), f'cls_.{n}.{n}': me(10, 2), f'cls_.new_.{n}': me(1, 2)})
        self.exercise(pm, f'cls_.far_.{n}.one_', one, lambda a, b: [one(a, b)], view=in_view, attr=in_section)
        paths[f'cls_.far_.{n}.one_'] = one(10, 2)
        if n not in DICTS and n not in RESERVED_FILES:
            self.exercise(pm, f'{n}.{n}.two_', two, lambda a, b: [me(1, 2), two(a, b)], view=in_view, attr=n not in ATTRS)
            pm.create(f'{n}.{n}.new_')
            paths.update({f'{n}.{n}.two_': two(10, 2), f'{n}.{n}.new_': ('new_', 1, 2)})
        self.next_session(pm, paths, specifics)


class Arguments(Names):
    kind = 'arguments'

    def run(self, n):
        mod, = self.lib(nmarg_=f'''def ff_({n}, zz_=1):
    return "ff_", {n}, zz_

class K_:
    def __init__(self, {n}=5, zz_=1):
        self.values = [{n}, zz_]
    def __call__(self):
        return "K_", *self.values

class S_:
    def __init__(self, name_=None, {n}=5, zz_=1):
        self.name_ = name_
        self.values = [{n}, zz_]
    def __call__(self):
        return self.name_, *self.values
''')
        pm = world.manager(
            os.path.join(self.dir, 'm_'), 'mm_', 'from nmarg_ import ff_, K_\n\npipeline_dict = {"stuff_": [ff_], "kl_": [K_]}\n',
            [world.scd('cls_', mod.S_, key_attr='name_')], {'cls_': 'class_dict = {"sec_": ["one_"]}\n'})
        for path, first, default in (('stuff_.ff_', 'ff_', None), ('kl_.K_', 'K_', 5), ('cls_.sec_.one_', 'one_', 5)):
            what = f'{path} with argument {n}: '

            def value(x, z):
                require_eq(pm.run(path), (first, x, z), what + 'result of run')
                require_eq(pm.get(path)(), (first, x, z), what + 'result of calling the object')

            value(default, 1)
            pm.update({n: 2}, path)
            value(2, 1)
            pm.update({n: 3, 'zz_': 2}, section_path_str=path, pyfileconf_persist=False)
            value(3, 2)
            pm.refresh(path)
            value(2, 1)
            if n not in UPDATE_ARGS:
                pm.update(section_path_str=path, **{n: 4})
                value(4, 1)
                pm.update({'zz_': 6}, path, True, **{n: [5]})
                value([5], 6)
                pm.update_batch([{'section_path_str': path, n: 6}])
                value(6, 6)
                require_eq([r for _, r in pm.run_product(path, [{'section_path_str': path, n: 8}, {'section_path_str': path, n: 9}])],
                           [(first, 8, 6), (first, 9, 6)], what + 'results of iteration')
            if n not in VIEW_ATTRS:
                setattr(world.ItemView.from_section_path_str('mm_.' + path), n, 7)
                value(7, pm.run(path)[-1])
            pm.reset(path)
            value(default, 1)
            file = os.path.join(pm.folder, 'defaults', *path.split('.')) + '.py'
            lines = world.read(file).split('\n')
            idx = [i for i, l in enumerate(lines) if l.startswith((n + ' =', n + ':'))]
            require(idx, what + 'config file does not assign it: %r', lines)
            lines[idx[-1]] = f'{n} = "file"'
            world.write(file, '\n'.join(lines))
            pm.refresh(path)
            value('file', 1)
            pm.reload()
            value('file', 1)


# Attributes of the manager and of what it looks up attributes in have precedence over items
Runner = getattr(runner_module, 'Runner', object)
RunnerSectionView = getattr(runner_module, 'RunnerSectionView', object)
ATTRS = set(dir(pyfileconf.PipelineManager)) | set(dir(Runner)) | {
    '_config', '_registrars', '_general_registrar', '_manager_name', '_all_specific_classes', '_specific_class_registrar_map',
    '_loaded_objects', '_import_tracker', '_loaded_modules',
    'folder', 'pipeline_dict_path', 'specific_class_config_dicts', 'specific_class_names', 'default_config_folder_name',
    'default_config_path', 'name', 'auto_pdb', 'force_continue', 'config', 'runner'}
SECTION_ATTRS = set(dir(RunnerSectionView)) | {'_runner', '_section_path_str'}
ATTRS |= SECTION_ATTRS
VIEW_ATTRS = set(dir(world.ItemView)) | VIEW | {'_section_path_str', '_is_item_view'}
VIEW |= VIEW_ATTRS | SECTION_ATTRS
SELECTOR = set(dir(pyfileconf.Selector)) | {'get_type', '_managers', '_is_selector'}
DICTS = {'pipeline', 'cls_', 'general'}


def systems(tier):
    some = names.CLASSES if tier == 'quick' else names.ATTRS
    return [
        General(some, 'each name as function, section, inner section and outer section, and created at runtime'),
        Specific(some, 'each name as specific class dict, section and item'),
        Classes(names.ATTRS, 'each name as manager, section, section within it and class, all at once'),
        Arguments(names.PARAMS, 'each name as argument of a function, class and specific class'),
    ]
