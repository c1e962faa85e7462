"""Item views and selectors stand for the items"""
import copy
import itertools
import os
import types
import warnings

import core
import world
from core import System, require, require_eq
from world import rec, ItemView, Selector, is_item_view

LEVEL = 'model_checking'
KNOWN = {}

MOD = '''
def f(a=1, b=2):
    return ('f', a, b)

def g(a=1, b=2):
    return ('g', a, b)

class K:
    KIND = 'k'
    def __init__(self, a=1, b=2):
        self.a = a
        self.b = b
    def __call__(self, *args):
        return ('K', self.a, self.b)
    def other(self, x=0):
        return ('K.other', self.a, x)
    @property
    def double(self):
        return [self.a, self.a]

class Sub(K):
    def __init__(self, a=1, b=2):
        super().__init__(a, b)
'''
SMOD = '''
class S:
    KIND = 's'
    def __init__(self, name=None, a=1, b=2):
        self.name = name
        self.a = a
        self.b = b
    def __call__(self, x=0):
        return ('S', self.name, self.a, self.b, x)
    def other(self, x=0):
        return ('S.other', self.name, self.a, x)
    @property
    def double(self):
        return [self.a, self.a]

class U(S):
    def __init__(self, name=None, a=1, b=2):
        super().__init__(name, a, b)
    def go(self, x=0):
        return ('U', self.name, self.a, self.b, x)
'''
PD = '''from c16m import f, g, K, Sub

pipeline_dict = {
    "stuff": [f, {"in": [g]}],
    "kl": [K],
    "farm": {"m": [Sub]},
}
'''
DICTS = {'cls': 'class_dict = {"sec": ["one", "two"]}\n', 'us': 'class_dict = {"p": {"q": ["one"]}}\n'}
PATHS = {'stuff.f': 'f', 'stuff.in.g': 'g', 'kl.K': 'K', 'farm.m.Sub': 'Sub', 'cls.sec.one': 'S', 'cls.sec.two': 'S', 'us.p.q.one': 'U'}
SECTIONS = {'': ['cls', 'farm', 'kl', 'stuff', 'us'], 'stuff': ['f', 'in'], 'stuff.in': ['g'], 'kl': ['K'], 'farm': ['m'], 'farm.m': ['Sub'],
            'cls': ['sec'], 'cls.sec': ['one', 'two'], 'us': ['p'], 'us.p': ['q'], 'us.p.q': ['one']}
UPDATED = ['stuff.f', 'kl.K', 'cls.sec.one', 'us.p.q.one']


class Views(System):
    """Views are taken at any time in the life of a project, and used after any other operations"""

    def __init__(self, name, depth, initial=(), split=3, note=''):
        self.name, self.depth, self.initial, self.split, self.note = name, depth, initial, split, note

    def setup(self):
        world.reset_pyfileconf()
        warnings.simplefilter('ignore')
        world.lib(self.dir, c16m=MOD, c16s=SMOD)
        import c16s
        self.s = c16s
        self.pm = None
        self.loaded = False
        self.views = []  # (path, view)
        self.values = {}
        self.created = False
        self.counter = 0
        self.taken = []
        for op in self.initial:
            self.apply(op)

    def state(self):
        return self.pm is not None, self.loaded, self.values, self.created, self.taken

    def ops(self):
        out = []
        if self.pm is None:
            return [['new'], ['take', 'attr'], ['take', 'call']]
        out += [['load'], ['replace']]
        if self.loaded:
            out += [['take', how] for how in ('attr', 'call', 'path')] + [['reload'], ['get'], ['run']]
            out += [['look']] * bool(self.views)
            out += [['update', p] for p in UPDATED] + [['set', p] for p in UPDATED] + [['create']] * (not self.created)
        else:
            out += [['take', 'call']]
        return out

    def new(self):
        return world.manager(
            os.path.join(self.dir, 'p'), 'm', None if self.pm else PD, [
                world.scd('cls', self.s.S), world.scd('us', self.s.U, execute_attr='go')
            ], DICTS if self.pm is None else None, load=False
        )

    def take(self, how):
        paths = list(self.paths())
        s = Selector()
        for path in paths:
            if how == 'attr':
                view = s
                for part in ('m.' + path).split('.'):
                    view = getattr(view, part) if self.loaded or view is s else ItemView(view.section_path_str + '.' + part)
            elif how == 'call':
                view = s('m.' + path)
            else:
                view = ItemView.from_section_path_str('m.' + path)
            self.views.append((path, view))

    def paths(self):
        out = dict(PATHS)
        if self.created:
            out['new.deep.K'] = 'K'
            out['cls.fresh.three'] = 'S'
        return out

    def value(self, path):
        return self.values.get(path, 1)

    def result(self, path, x=0):
        kind = self.paths()[path]
        a = self.value(path)
        if kind in 'fg':
            return kind, a, 2
        if kind in ('K', 'Sub'):
            return 'K', a, 2
        return kind, path.split('.')[-1], a, 2, x

    def apply(self, op):
        kind = op[0]
        if kind == 'new':
            self.pm = self.new()
        elif kind == 'replace':
            self.pm = self.new()
            self.loaded = False
            self.values = {}
        elif kind == 'load':
            self.pm.load()
            self.loaded = True
            self.values = {}
        elif kind == 'reload':
            self.pm.reload()
            self.values = {}
        elif kind == 'get':
            for p in self.paths():
                self.pm.get(p)
        elif kind == 'run':
            for p in self.paths():
                require_eq(self.pm.run(p), self.result(p), f'result of {p}')
        elif kind == 'look':
            # Using the views now must not make a difference later
            for path, view in self.views:
                self.one(path, view)
            self.sections()
        elif kind == 'take':
            self.take(op[1])
            self.taken = sorted({*self.taken, (op[1], self.loaded)})
        elif kind == 'update':
            self.counter += 1
            self.values[op[1]] = self.counter * 10
            self.pm.update(section_path_str=op[1], a=self.counter * 10)
        elif kind == 'set':
            self.counter += 1
            self.values[op[1]] = self.counter * 10
            view = next((v for p, v in self.views if p == op[1]), None) or Selector()('m.' + op[1])
            view.a = self.counter * 10
        elif kind == 'create':
            import c16m
            self.pm.create('new.deep', c16m.K)
            self.pm.create('cls.fresh.three')
            self.created = True

    def check(self):
        if self.pm is None:
            self.apply(['new'])
        for path, view in self.views:
            require(is_item_view(view), '%s: not a view', path)
            require_eq(view.section_path_str, 'm.' + path, 'section path of view')
        if not self.loaded:
            for path, view in self.views[:2]:
                require(world.raises(lambda: view.item) is not None, 'no error')
            self.apply(['load'])
        self.take('attr')
        self.take('path')
        self.take('call')
        # In the order of both taking and the reverse, so that nothing depends on which one is used first
        for path, view in self.views + self.views[::-1]:
            self.one(path, view)
        for (p1, v1), (p2, v2) in itertools.combinations(self.views, 2):
            require((v1 == v2) is (p1 == p2), 'equality of views of %s and %s', p1, p2)
            require((v1 != v2) is (p1 != p2), 'inequality of views of %s and %s', p1, p2)
            if p1 == p2:
                require(hash(v1) == hash(v2), 'hash of views of %s', p1)
        require_eq(len({v for p, v in self.views}), len(self.paths()), 'different views')
        self.sections()
        # Views which are used instead of paths
        for path, view in self.views[::-1][:len(self.paths())]:
            require_eq(self.pm.run(view), self.result(path), f'run of view of {path}')
            self.pm.update({'a': 77}, section_path_str=path)
            self.values[path] = 77
            require_eq(self.pm.run([view, path]), [self.result(path)] * 2, f'run of views of {path} after update')
            self.one(path, view)
            self.pm.reset(view)
            self.values.pop(path)
            for p, v in self.views:
                if p == path:
                    self.one(p, v)
            view.a = 88
            self.values[path] = 88
            require_eq(self.pm.run(path), self.result(path), f'result of {path} after setting an attribute of its view')
            self.pm.refresh(path)
            self.one(path, view)

    def one(self, path, view):
        import c16m
        what = f'view of {path}: '
        kind = self.paths()[path]
        klass = {'K': c16m.K, 'Sub': c16m.Sub, 'S': self.s.S, 'U': self.s.U}.get(kind)
        obj = self.pm.get(path)
        require(view.item is obj, what + 'another object')
        require_eq(view.type, klass or types.FunctionType, what + 'type')
        require(view.__class__ is view.type, what + '__class__ is %r', view.__class__)
        for c in (c16m.K, c16m.Sub, self.s.S, self.s.U, types.FunctionType):
            require(isinstance(view, c) is issubclass(klass or types.FunctionType, c), what + 'isinstance of %r', c)
        require(not hasattr(view, 'nope'), what + 'has an attribute which does not exist')
        require(f'm.{path}' in Selector(), what + 'not in selector')
        require(f'm.{path}.a' not in Selector(), what + 'its attribute is in selector')
        require(f'm.{path}.nope' not in Selector(), what + 'what does not exist is in selector')
        require(f'm.{path}' in repr(view), what + 'repr is %r', repr(view))
        require(not view == obj or klass is None, what + 'equals its object')
        require(callable(view), what + 'not callable')
        if klass is None:
            require_eq(view(), self.result(path), what + 'result of call')
            require_eq(view(b=5), (kind, self.value(path), 5), what + 'result of call with argument')
            require_eq(view.keywords, {'a': self.value(path), 'b': 2}, what + 'keywords')
            require(view.func is obj.func, what + 'function')
        else:
            require_eq(view.a, self.value(path), what + 'attribute a')
            require_eq(view.b, 2, what + 'attribute b')
            require_eq(view.double, [self.value(path)] * 2, what + 'property')
            require_eq(view.KIND, klass.KIND, what + 'class attribute')
            if kind in ('K', 'Sub'):
                require(view() is obj, what + 'calling it does not give the object')
                require_eq(view()(), self.result(path), what + 'result')
                require_eq(view.other(3), ('K.other', self.value(path), 3), what + 'result of method')
            else:
                require_eq(view(), self.result(path), what + 'result of call')
                require_eq(view(4), self.result(path, 4), what + 'result of call with argument')
                require_eq(view.other(3), ('S.other', path.split('.')[-1], self.value(path), 3), what + 'result of method')
                require_eq(view.name, path.split('.')[-1], what + 'name')
                # Paths may go on to methods
                method = world.Selector()(f'{view.section_path_str}.other')
                require_eq(method(3), ('S.other', path.split('.')[-1], self.value(path), 3), what + 'result of view of method')
                require(method.item.__self__ is obj, what + 'object of view of method')
            dup = copy.deepcopy(view)
            require(type(dup) is klass and dup is not obj, what + 'deepcopy is %r', dup)
            require_eq((dup.a, dup.b), (obj.a, obj.b), what + 'attributes of deepcopy')
        require({'item', 'type'} <= set(dir(view)), what + 'dir is %r', dir(view))

    def sections(self):
        sections = {k: list(v) for k, v in SECTIONS.items()}
        if self.created:
            sections[''] = sorted(sections[''] + ['new'])
            sections['cls'] = ['fresh', 'sec']
            sections.update({'new': ['deep'], 'new.deep': ['K'], 'cls.fresh': ['three']})
        for sec, names in sections.items():
            path = 'm.' + sec if sec else 'm'
            require(path in Selector(), 'section %s not in selector', path)
            view = Selector()(path)
            found = [n for n in dir(view) if f'{path}.{n}' in Selector()]
            require_eq(sorted(set(found)), sorted(names), f'items and sections in dir of view of {path}')
            require(world.raises(lambda: view.zork.deeper) is not None, 'no error')
            for name in ('zork', 'append', 'extend', 'items', 'get', 'name', '_items', '__call__', 'basepath'):
                require(f'{path}.{name}' not in Selector(), '%s.%s is in the selector but does not exist', path, name)
        require('m' in dir(Selector()), 'dir of selector')


class Membership(System):
    """What is in a selector, and what is not"""

    DICTS = {
        'm': ('from c16m import f, g, K\n\npipeline_dict = {"stuff": [f], "one": {"stuff": [K, g], "m": [f]}}\n', 'class_dict = {"sec": ["one", "f"]}\n'),
        'mm': ('from c16m import f\n\npipeline_dict = {"m": {"stuff": [f]}, "other": [f]}\n', None),
    }
    PATHS = {
        'm': ['', 'stuff', 'stuff.f', 'one', 'one.stuff', 'one.stuff.K', 'one.stuff.g', 'one.m', 'one.m.f', 'cls', 'cls.sec', 'cls.sec.one', 'cls.sec.f'],
        'mm': ['', 'm', 'm.stuff', 'm.stuff.f', 'other', 'other.f'],
    }
    EXTRA = {
        'stuff.g': ['stuff.g'], 'new.deep.f': ['new', 'new.deep', 'new.deep.f'], 'cls.sec.two': ['cls.sec.two'],
        'cls.more.x': ['cls.more', 'cls.more.x'],
    }

    def __init__(self, name, depth, split=1, note=''):
        self.name, self.depth, self.split, self.note = name, depth, split, note

    def setup(self):
        world.reset_pyfileconf()
        world.lib(self.dir, c16m=MOD, c16s=SMOD)
        self.managers = {}
        self.loaded = {}
        self.selectors = [Selector()]

    def ops(self):
        out = [['selector'], ['look']]
        for name in self.DICTS:
            if name not in self.managers:
                out.append(['make', name])
            out.append(['load' if not self.loaded.get(name) else 'reload', name] if name in self.managers else ['look'])
        if self.loaded.get('m'):
            out += [['create', p] for p in self.EXTRA if p not in self.loaded['m']]
            out += [['get', 'one.stuff.K'], ['get', 'cls.sec.one']]
        return [o for i, o in enumerate(out) if o not in out[:i]]

    def apply(self, op):
        kind, *args = op
        import c16m
        import c16s
        if kind == 'make':
            name = args[0]
            dict_, specific = self.DICTS[name]
            self.managers[name] = world.manager(
                os.path.join(self.dir, name), name=name, pipeline_dict=dict_, load=False,
                specifics=[world.scd('cls', c16s.S)] if specific else [], specific_dicts={'cls': specific} if specific else {})
        elif kind == 'load':
            self.managers[args[0]].load()
            self.loaded[args[0]] = list(self.PATHS[args[0]])
        elif kind == 'reload':
            self.managers[args[0]].reload()
        elif kind == 'create':
            path = args[0]
            if path.startswith('cls'):
                self.managers['m'].create(path)
            else:
                section, name = path.rsplit('.', 1)
                self.managers['m'].create(section, getattr(c16m, name))
            self.loaded['m'] += [p for p in self.EXTRA[path] if p not in self.loaded['m']]
        elif kind == 'get':
            self.managers['m'].get(args[0])
        elif kind == 'selector':
            self.selectors = self.selectors[-1:] + [Selector()]

    def check(self):
        before = repr(sorted(world.context.config_dependencies.items(), key=repr))
        known = {'.'.join(filter(None, [m, p])) for m, paths in self.loaded.items() for p in paths} | set(self.managers)
        candidates = {'.'.join(filter(None, [m, p])) for m, paths in self.PATHS.items() for p in paths}
        candidates |= {f'm.{p}' for paths in self.EXTRA.values() for p in paths}
        for path in sorted(candidates):
            parts = path.split('.')
            candidates |= {path + '.nope', path + '.a', path + 'x', path[:-1], '.'.join(parts[::-1]), 'other.' + path, path + '.' + parts[-1],
                           path + '.section', '.'.join(parts[1:]), path.upper(), path + '.__init__', path + '.items', 'x' + path}
        for path in sorted(candidates - {''}):
            name = path.split('.')[0]
            # Of managers which are not loaded just themselves are known
            unloaded = name in self.managers and name not in self.loaded and '.' in path
            for s in self.selectors:
                for form in (path, world.SectionPath(path)):
                    got = []
                    error = world.raises(lambda: got.append(form in s))
                    if unloaded:
                        require(type(error).__name__ == 'PipelineManagerNotLoadedException', 'no error for %r in selector: %r %r', form, error, got)
                        continue
                    require(error is None, '%r in selector: %r', form, error)
                    require_eq(got[0], path in known, f'{form!r} in selector')
        require_eq({n for n in dir(self.selectors[0]) if n != 'get_type'}, set(self.managers), 'dir of selector')
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            for thing in (None, 1, ('m',), ['m']):
                require_eq(thing in self.selectors[-1], False, f'{thing!r} in selector')
        require_eq(repr(sorted(world.context.config_dependencies.items(), key=repr)), before, 'dependencies after looking')

    def state(self):
        return [sorted(self.managers), self.loaded]


def systems(tier):
    deep = tier == 'thorough'
    return [
        Views('views', 5 if deep else 4, note='all histories from before the manager exists'),
        Membership('membership', 5 if deep else 4, 2 if deep else 1, note='all histories of two managers and all paths made from theirs'),
        Views('used', 3 if deep else 2, [['take', 'call'], ['new'], ['load'], ['take', 'attr'], ['take', 'path'], ['look']], 1,
              note='all histories of views which were used before'),
    ]
