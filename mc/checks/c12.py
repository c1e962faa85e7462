"""Failures while loading leave no traces, and everything works once their cause is repaired"""
import itertools
import os
import shutil
import sys

import core
import world
from core import System, require, require_eq
from world import rec

LEVEL = 'model_checking'
KNOWN = {}

MOD = '''
VERSION = {version}

def f(a=0, b=1):
    return ('f', a, b, VERSION)

def g(a=0, b=1):
    return ('g', a, b, VERSION)

def h(a=0, b=1):
    return ('h', a, b, VERSION)

class S:
    def __init__(self, name=None, a=0, b=1):
        self.name = name
        self.a = a
        self.b = b
    def __call__(self):
        return ('S', self.name, self.a, self.b, VERSION)
'''
PD = '''from c12m import f, g

pipeline_dict = {
    "stuff": [f],
    "more": {"deep": [g]},
}
'''
CD = '''class_dict = {
    "sec": ["one"],
}
'''
CONFIG = '''from pyfileconf import Selector
s = Selector()
a = {a}
b = 1
'''
ITEMS = {
    'stuff.f': 'f', 'more.deep.g': 'g', 'cls.sec.one': 'S',
}
ONE = '''from pyfileconf import Selector
s = Selector()
name = 'one'
a = {a}
b = 1
'''

# Kinds of faults. Those within KINDS_EXEC only show when the file is executed
SYNTAX = {
    'syntax': b'a = (\n',
    'indent': b'a = 1\n   b = 2\n',
    'encoding': b'a = "\xff"\n',
    'nul': b'a = 1\x00\n',
}
EXEC = {
    'value': b'a = int("x")\n',
    'zero': b'a = 1 / 0\n',
    'name': b'a = undefined_name\n',
    'import': b'import module_which_is_missing\na = 1\n',
    'attribute': b'import os\na = os.nothing_like_this\n',
    'key': b'a = {}["k"]\n',
    'stop': b'a = next(iter(()))\n',
    'recursion': b'def r():\n    return r()\na = r()\n',
    'typo': b'from pyfileconf import Selector\ns = Selector()\na = s.m.stuff.nope.x.y\n',
    'manager': b'from pyfileconf import Selector\ns = Selector()\na = s.zork.stuff.x\n',
    'exit': b'import sys\nsys.exit(3)\n',
    'interrupt': b'raise KeyboardInterrupt\n',
    'generator': b'raise GeneratorExit\n',
}
MODULE = {**SYNTAX, **{k: EXEC[k] for k in ('value', 'zero', 'name', 'import', 'exit', 'interrupt', 'stop')},
          'missing': b'def other():\n    pass\n'}
DICTS = {**SYNTAX, 'import': b'from module_which_is_missing import f, g\npipeline_dict = {"stuff": [f]}\n',
         'unknown': b'from c12m import f\npipeline_dict = {"stuff": [f, nope]}\n',
         'notinmodule': b'from c12m import f, nope\npipeline_dict = {"stuff": [f, nope]}\n',
         'variable': b'from c12m import f\nother = {"stuff": [f]}\n',
         'type': b'pipeline_dict = 5\nclass_dict = 5\n',
         'empty': b''}
PLACES = {
    'm/pipeline_dict.py': DICTS, 'm/cls_dict.py': {**SYNTAX, 'variable': b'other = {}\n', 'type': b'class_dict = 5\n', 'empty': b''},
    'lib/c12m.py': MODULE,
    'm/defaults/stuff/f.py': {**SYNTAX, **EXEC}, 'm/defaults/more/deep/g.py': {**SYNTAX, **EXEC},
    'm/defaults/cls/sec/one.py': {**SYNTAX, **EXEC},
    'm/defaults/stuff/section.py': {**SYNTAX, **EXEC}, 'm/defaults/more/section.py': {**SYNTAX, **EXEC},
    'm/defaults/more/deep/section.py': {**SYNTAX, **EXEC}, 'm/defaults/section.py': {**SYNTAX, **EXEC},
}
PHASES = ['load', 'reload', 'lazy', 'refresh', 'reset', 'create', 'replace']
# Faults which are not errors for pyfileconf: the file is just different
NO_ERROR = {'empty', 'variable', 'type', 'unknown', 'missing', 'notinmodule', 'import'}


def item_of(place):
    return {'m/defaults/stuff/f.py': 'stuff.f', 'm/defaults/more/deep/g.py': 'more.deep.g', 'm/defaults/cls/sec/one.py': 'cls.sec.one'}.get(place)


class Startup(System):
    """One fault in one file in one phase, then its repair"""
    depth = 1
    split = 1
    note = 'every place x kind x phase x repair'

    def __init__(self, name, repairs):
        self.name, self.repairs = name, repairs

    def ops(self):
        return [[place, kind, phase, repair] for place, kinds in PLACES.items() for kind in kinds for phase in PHASES
                for repair in self.repairs]

    def state(self):
        return getattr(self, 'case', None)

    def setup(self):
        world.reset_pyfileconf()

    def project(self, name, module):
        files = {
            'defaults/stuff/f.py': CONFIG.format(a=1), 'defaults/more/deep/g.py': CONFIG.format(a=2),
            'defaults/cls/sec/one.py': ONE.format(a=3),
            'defaults/section.py': 'zz = 5\n', 'defaults/stuff/section.py': 'zz = 6\n', 'defaults/more/section.py': 'zz = 7\n',
            'defaults/more/deep/section.py': 'zz = 8\n',
        }
        root = os.path.join(self.dir, name)
        for rel, text in files.items():
            world.write(os.path.join(root, rel), text)
        world.write(os.path.join(root, 'pipeline_dict.py'), PD.replace('c12m', module))
        world.write(os.path.join(root, 'cls_dict.py'), CD)
        world.lib(self.dir, **{module: MOD.format(version=1)})
        return root

    def manager(self, name, module, load=True):
        mod = __import__(self.klass[name])
        return world.manager(os.path.join(self.dir, name), name, specifics=[world.scd('cls', mod.S)], load=load)

    def expected(self, a=None, version=1):
        a = a or {}
        out = {}
        for path, tag in ITEMS.items():
            own = a.get(path, {'stuff.f': 1, 'more.deep.g': 2, 'cls.sec.one': 3}[path])
            out[path] = (tag, own, 1, version) if tag != 'S' else ('S', 'one', own, 1, 1)
        return out

    def clean(self, what):
        context = world.context
        require(not list(context.stack), '%s: stack is %r', what, context.stack)
        require_eq(context.file_is_currently_being_loaded, False, f'{what}: file_is_currently_being_loaded')
        require_eq(context.currently_running_section_path_str, None, f'{what}: running')
        require(sys.stdout is self.stdout, '%s: stdout was not restored', what)
        require(sys.path == self.sys_path, '%s: sys.path is %r', what, sys.path)
        require(os.getcwd() == self.cwd, '%s: working directory was changed', what)
        require(sys.meta_path == self.meta_path, '%s: importers were changed', what)
        require(sys.dont_write_bytecode, '%s: sys.dont_write_bytecode was changed', what)
        # The other manager
        require_eq({p: self.n.run(p) for p in ITEMS}, self.expected({'stuff.f': 50}), f'{what}: results of the other manager')
        for p, obj in self.n_objs.items():
            require(self.n.get(p) is obj, '%s: the object of %s of the other manager was replaced', what, p)
        require_eq(world.project_texts(os.path.join(self.dir, 'n')), self.n_texts, f'{what}: files of the other manager')

    def attempt(self, func):
        """Whether it was successful"""
        try:
            func()
        except (core.Violation, core.OpTimeout):
            raise
        except BaseException as e:
            return e
        return None

    def apply(self, op):
        self.case = op
        place, kind, phase, repair = op
        # Classes come from modules which are not the ones with the faults
        world.lib(self.dir, c12km=MOD.format(version=1), c12kn=MOD.format(version=1))
        self.klass = {'m': 'c12km', 'n': 'c12kn'}
        self.project('n', 'c12n')
        self.n = self.manager('n', 'c12n')
        self.n.update(section_path_str='stuff.f', a=50)
        self.n_objs = {p: self.n.get(p) for p in ITEMS}
        self.n_texts = world.project_texts(os.path.join(self.dir, 'n'))
        root = self.project('m', 'c12m')
        self.stdout, self.sys_path, self.cwd, self.meta_path = sys.stdout, list(sys.path), os.getcwd(), list(sys.meta_path)
        path = os.path.join(self.dir, place)
        with open(path, 'rb') as fh:
            original = fh.read()
        fault = PLACES[place][kind]
        before = world.project_texts(root)

        def break_():
            with open(path, 'wb') as fh:
                fh.write(fault)

        updated = {}
        if phase == 'load':
            break_()
            pm = self.manager('m', 'c12m', load=False)
            error = self.attempt(pm.load)
        else:
            pm = self.manager('m', 'c12m')
            if phase != 'lazy':
                # Also touches everything
                require_eq({p: pm.run(p) for p in ITEMS}, self.expected(), 'results before')
                pm.update(section_path_str='stuff.f', b=1)
            break_()
            if phase == 'reload':
                error = self.attempt(pm.reload)
            elif phase == 'lazy':
                error = None
                for p in ITEMS:
                    e = self.attempt(lambda: pm.get(p))
                    require(e is None or item_of(place) == p or place.startswith('lib') and p != 'cls.sec.one', 'get of %s raises %r', p, e)
                    error = error or e
            elif phase == 'refresh':
                error = None
                for p in ITEMS:
                    e = self.attempt(lambda: pm.refresh(p))
                    require(e is None or item_of(place) == p, 'refresh of %s raises %r', p, e)
                    error = error or e
                # A refresh which failed changed nothing
                require_eq({p: pm.run(p) for p in ITEMS}, self.expected(), 'results after failed refresh')
            elif phase == 'reset':
                error = None
                for p in ITEMS:
                    e = self.attempt(lambda: pm.reset(p))
                    require(e is None or item_of(place) == p, 'reset of %s raises %r', p, e)
                    error = error or e
                require_eq({p: pm.run(p) for p in ITEMS}, self.expected(), 'results after failed reset')
            elif phase == 'create':
                module = __import__('c12km')
                error = self.attempt(lambda: pm.create('more.deep', module.h))
            elif phase == 'replace':
                import warnings
                warnings.simplefilter('ignore')
                # As in a new session
                sys.modules.pop('c12m', None)
                pm = self.manager('m', 'c12m', load=False)
                error = self.attempt(pm.load)
        what = f'{phase} with {kind} in {place}' + (f' (raised {type(error).__name__})' if error else '')
        self.clean(what)
        with open(path, 'rb') as fh:
            now = fh.read()
        if kind in SYNTAX or error is not None and kind not in EXEC:
            require(now == fault, '%s: the broken file was changed to %r', what, now)
        certain = kind not in NO_ERROR and (
            phase in ('load', 'reload', 'replace') and (kind in SYNTAX or place.endswith('section.py') or not place.startswith('m/defaults'))
            or phase in ('lazy', 'refresh', 'reset') and item_of(place) is not None
        )
        if certain:
            require(error is not None, '%s: no error', what)
        if kind == 'interrupt' and error is not None and place.startswith('m/'):
            require(isinstance(error, KeyboardInterrupt), '%s instead of KeyboardInterrupt', what)
        if kind == 'exit' and error is not None and place.startswith('m/'):
            require(isinstance(error, SystemExit), '%s instead of SystemExit', what)
        # While the fault is there, nothing else is affected, any number of times
        if phase in ('lazy', 'refresh', 'reset') and place.startswith('m/defaults'):
            for p in ITEMS:
                if p != item_of(place):
                    require_eq(pm.run(p), self.expected()[p], f'{what}: result of {p}')
        if phase in ('load', 'reload', 'replace') and error is not None:
            again = self.attempt(pm.load)
            require(type(again) is type(error), '%s: loading again gives %r', what, again)
            self.clean(what + ' and load again')

        # Repair
        a, version = {}, 1
        new = original
        if repair == 'edit':
            if item_of(place):
                new = original.replace(b'\na = ', b'\na = 4')
                first = self.expected()[item_of(place)]
                a = {item_of(place): int('4' + str(first[1] if first[0] != 'S' else first[2]))}
            elif place.startswith('lib'):
                new = original.replace(b'VERSION = 1', b'VERSION = 2')
                version = 2
            elif place.endswith('section.py'):
                new = original + b'a = 99\n'
                scope = place[len('m/defaults/'):-len('section.py')].strip('/').replace('/', '.')
                a = {p: 99 for p in ITEMS if p.startswith(scope)}
            else:
                new = original + b'\n\n'
        with open(path, 'wb') as fh:
            fh.write(new)
        what += f', repaired ({repair})'
        if phase in ('lazy', 'refresh', 'reset') and item_of(place):
            getattr(pm, {'lazy': 'get'}.get(phase, phase))(item_of(place))
            require_eq({p: pm.run(p) for p in ITEMS}, self.expected(a), f'{what}: results')
            self.clean(what)
        if phase in ('lazy', 'refresh', 'reset', 'create') or error is None:
            pm.reload()
        else:
            pm.load()
        require_eq({p: pm.run(p) for p in ITEMS}, self.expected(a, version), f'{what}: results after loading')
        self.clean(what)
        # And it is really loaded from the files from then on
        world.lib(self.dir, c12m=MOD.format(version=3))
        pm.reload()
        require_eq({p: pm.run(p) for p in ITEMS}, self.expected(a, 3), f'{what}: results after another reload')
        self.clean(what)
        texts = world.project_texts(root)
        rel = os.path.relpath(path, root)
        for r, text in before.items():
            if r != rel and not (phase == 'create' and r == 'pipeline_dict.py'):
                require(text.split() == texts.get(r, '').split(), '%s: %s was changed to %r', what, r, texts.get(r))
        if not rel.startswith('..'):
            for line in new.decode().split('\n'):
                require(line in texts[rel].split('\n'), '%s: line %r of %s was lost: %r', what, line, rel, texts[rel])


G_CONFIG = '''from pyfileconf import Selector
s = Selector()
a = s.m.stuff.f()
b = 1
'''
KINDS = {'zero': ('ZeroDivisionError', b'a = 1 / 0\n'), 'interrupt': ('KeyboardInterrupt', b'raise KeyboardInterrupt\n'),
         'syntax': ('SyntaxError', b'a = (\n'), 'name': ('NameError', b'from pyfileconf import Selector\ns = Selector()\n'
                                                          b'a = s.m.stuff.f\na = undefined_name\n')}


class Broken(Exception):
    pass


class Failed(System):
    """Files which break and are repaired while a project is used"""
    split = 1
    PD = 'from c12m import f, g\n\npipeline_dict = {"stuff": [f, g]}\n'

    def __init__(self, name, depth, kinds, note):
        self.name, self.depth, self.kinds, self.note = name, depth, kinds, note

    def setup(self):
        world.reset_pyfileconf()
        world.lib(self.dir, c12m=MOD.format(version=1))
        self.pms = {
            n: world.manager(os.path.join(self.dir, n), n, self.PD, files={
                'defaults/stuff/f.py': CONFIG.format(a=1), 'defaults/stuff/g.py': G_CONFIG
            }) for n in ('n', 'm')
        }
        self.pm = self.pms['m']
        self.stdout = sys.stdout
        self.original = {'f': CONFIG.format(a=1).encode(), 'g': G_CONFIG.encode()}
        self.file = {'f': 1, 'g': 'f'}  # or the kind of fault
        self.cfg = {'f': None, 'g': None}  # value of a, None if it is not loaded
        self.updates = {'f': None, 'g': None}
        self.dependent = False
        self.loaded = True

    def state(self):
        return self.file, self.cfg, self.updates, self.dependent, self.loaded

    def path(self, p):
        return os.path.join(self.dir, 'm', 'defaults', 'stuff', f'{p}.py')

    def broken(self, p):
        return self.file[p] in KINDS

    def ops(self):
        out = []
        for p in 'fg':
            if self.broken(p):
                out.append(['fix', p])
                if p == 'f':
                    out.append(['edit'])
            else:
                out += [['break', p, k] for k in self.kinds]
        if not self.loaded:
            return out + [['load']]
        for p in 'fg':
            out += [['get', p], ['run', p]]
            if p == 'f' and self.dependent and self.broken('g'):
                # Changes of f would fail as g cannot be refreshed, after having been applied to f
                continue
            out += [['update', p], ['refresh', p], ['reset', p]]
        return out + [['reload'], ['section'], ['view']]

    # Model

    def load(self, p):
        if self.cfg[p] is None:
            if self.broken(p):
                raise Broken(self.file[p])
            if p == 'f':
                self.cfg[p] = self.file[p]
            else:
                self.dependent = True
                self.load('f')
                self.cfg[p] = self.result('f')

    def result(self, p):
        return (p, self.cfg[p], 1, 1)

    def reread(self, p, updates):
        if self.broken(p):
            raise Broken(self.file[p])
        value = self.file[p]
        if p == 'g':
            self.dependent = True
            self.load('f')
            value = self.result('f')
        self.set(p, value if updates is None else updates)

    def set(self, p, value):
        changed = self.cfg[p] != value
        self.cfg[p] = value
        if changed and p == 'f' and self.dependent:
            self.load('g')
            self.reread('g', self.updates['g'])

    def model(self, op):
        kind = op[0]
        p = op[1] if len(op) > 1 else None
        if kind == 'get':
            self.load(p)
            return self.cfg[p]
        if kind == 'run':
            self.load(p)
            return self.result(p)
        if kind == 'view':
            self.load('g')
            return self.result('g')
        if kind == 'section':
            self.load('f')
            self.load('g')
            return [self.result('f'), self.result('g')]
        if kind == 'update':
            self.load(p)
            self.updates[p] = 9
            self.set(p, 9)
        elif kind == 'refresh':
            self.load(p)
            self.reread(p, self.updates[p])
        elif kind == 'reset':
            self.load(p)
            if self.broken(p):
                raise Broken(self.file[p])
            self.updates[p] = None
            self.reread(p, None)
        elif kind in ('reload', 'load'):
            self.loaded = False
            for q in 'fg':
                if self.file[q] == 'syntax':
                    raise Broken('syntax')
            self.loaded = True
            self.cfg = {'f': None, 'g': None}
            self.updates = {'f': None, 'g': None}

    # Real

    def real(self, op):
        kind = op[0]
        path = f'stuff.{op[1]}' if len(op) > 1 else None
        if kind == 'get':
            return self.pm.get(path).keywords['a']
        if kind == 'run':
            return self.pm.run(path)
        if kind == 'view':
            return world.Selector().m.stuff.g()
        if kind == 'section':
            return self.pm.run('stuff')
        if kind == 'update':
            self.pm.update(section_path_str=path, a=9)
        elif kind == 'refresh':
            self.pm.refresh(path)
        elif kind == 'reset':
            self.pm.reset(path)
        elif kind == 'reload':
            self.pm.reload()
        elif kind == 'load':
            self.pm.load()

    def apply(self, op):
        if op[0] in ('break', 'fix', 'edit'):
            p = op[1] if len(op) > 1 else 'f'
            if op[0] == 'break':
                text, self.file[p] = KINDS[op[2]][1], op[2]
            elif op[0] == 'edit':
                text, self.file['f'] = CONFIG.format(a=7).encode(), 7
            else:
                text, self.file[p] = self.original[p], {'f': 1, 'g': 'f'}[p]
            with open(self.path(p), 'wb') as fh:
                fh.write(text)
            return
        try:
            want = self.model(op)
        except Broken as e:
            want = KINDS[e.args[0]][0]
        try:
            got = self.real(op)
        except (core.Violation, core.OpTimeout):
            raise
        except BaseException as e:
            got = type(e).__name__
        require_eq(got, want, f'outcome of {op}')
        self.clean(op)

    def clean(self, what):
        context = world.context
        require(not list(context.stack), 'after %s: stack is %r', what, context.stack)
        require(sys.stdout is self.stdout, 'after %s: stdout was not restored', what)
        require_eq(set(context.active_managers), {'m', 'n'}, f'after {what}: active managers')

    def check(self):
        if self.loaded:
            for p in 'fg':
                if not self.broken(p) or self.cfg[p] is not None:
                    if p == 'g' and self.cfg['g'] is None and self.broken('f') and self.cfg['f'] is None:
                        continue
                    self.apply(['run', p])
        # The other manager
        require_eq(self.pms['n'].run('stuff.f'), ('f', 1, 1, 1), 'other manager')
        for p in 'fg':
            if self.broken(p):
                self.apply(['fix', p])
        if self.loaded:
            for op in (['refresh', 'f'], ['refresh', 'g'], ['run', 'g'], ['view'], ['reset', 'f'], ['run', 'g'], ['reset', 'g'], ['section'], ['reload']):
                self.apply(op)
        else:
            self.apply(['load'])
        for op in (['view'], ['section'], ['update', 'f'], ['run', 'g']):
            self.apply(op)


class Invalid(System):
    """Managers whose arguments are not valid, or become invalid"""

    def __init__(self, name, depth, note):
        self.name, self.depth, self.split, self.note = name, depth, 1, note

    def setup(self):
        world.reset_pyfileconf()
        self.mod = world.fxm(self.dir)
        self.other = world.manager(os.path.join(self.dir, 'n'), name='n', pipeline_dict='from fxm import f\n\npipeline_dict = {"stuff": [f]}\n')
        self.other.update(section_path_str='stuff.f', a='kept')
        self.root = os.path.join(self.dir, 'm')
        os.makedirs(self.root)
        world.write(os.path.join(self.root, 'pipeline_dict.py'), 'from fxm import f\n\npipeline_dict = {"stuff": [f]}\n')
        world.write(os.path.join(self.root, 'cls_dict.py'), 'class_dict = {"sec": ["one"]}\n')
        self.manager = None
        self.clash = False
        self.loaded = False
        self.value = None

    def ops(self):
        out = [['make', k] for k in (
            'both', 'both, callable', 'twice', 'clash', 'no name', 'name is None', 'no class', 'class is None', 'unknown key', 'no such key_attr',
            'import', 'import is code', 'assignment', 'valid')]
        if self.manager is not None:
            out += [['load'], ['clash'], ['update', 3], ['repair']] + [['reload']] * self.loaded
        return out

    def arguments(self, kind):
        good = {'name': 'cls', 'class': self.mod.S}
        return {
            'both': dict(auto_pdb=True, force_continue=True, specific_class_config_dicts=[good]),
            'both, callable': dict(auto_pdb=print, force_continue=True, specific_class_config_dicts=[good]),
            'twice': dict(specific_class_config_dicts=[dict(good), {**good, 'class': self.mod.U}]),
            'clash': dict(specific_class_config_dicts=[good, dict(good, name='stuff')]),
            'no name': dict(specific_class_config_dicts=[good, {'class': self.mod.U}]),
            'name is None': dict(specific_class_config_dicts=[dict(good, name=None)]),
            'no class': dict(specific_class_config_dicts=[{'name': 'cls'}]),
            'class is None': dict(specific_class_config_dicts=[{'name': 'cls', 'class': None}]),
            'unknown key': dict(specific_class_config_dicts=[dict(good, zork=1)]),
            'no such key_attr': dict(specific_class_config_dicts=[dict(good, key_attr='nope')]),
            'import': dict(specific_class_config_dicts=[dict(good, always_import_strs=['from fxm import'])]),
            'import is code': dict(specific_class_config_dicts=[dict(good, always_import_strs=['a = 1'])]),
            'assignment': dict(specific_class_config_dicts=[dict(good, always_assign_strs=['zork'])]),
            'valid': dict(specific_class_config_dicts=[good]),
        }[kind]

    def apply(self, op):
        kind, *args = op
        if kind == 'make':
            before = world.context.active_managers.get('m')
            kwargs = self.arguments(args[0])
            made = []
            error = world.raises(lambda: made.append(world.PipelineManager(folder=self.root, name='m', **kwargs)))
            if error is not None:
                require(args[0] != 'valid', 'valid arguments are rejected: %r', error)
                require(world.context.active_managers.get('m') is before, 'a manager which was rejected replaced the active one')
                return
            self.loaded = False
            if args[0] != 'valid':
                error = world.raises(made[0].load)
                require(error is not None, 'arguments %s are not rejected', args[0])
                self.manager = None
            else:
                self.manager = made[0]
                self.value = None
        elif kind in ('load', 'reload'):
            error = world.raises(getattr(self.manager, kind))
            require((error is not None) is self.clash, '%s: %r', kind, error)
            self.loaded = not self.clash
            self.value = None
        elif kind in ('clash', 'repair'):
            self.clash = kind == 'clash'
            second = '"cls"' if self.clash else '"more"'
            world.write(os.path.join(self.root, 'pipeline_dict.py'), 'from fxm import f, g\n\npipeline_dict = {"stuff": [f], %s: [g]}\n' % second)
        elif self.loaded:
            self.value = args[0]
            self.manager.update(section_path_str='cls.sec.one', a=args[0])

    def check(self):
        require_eq(self.other.run('stuff.f'), ('f', 'kept', 1), 'result of another manager')
        if self.loaded:
            require_eq(self.manager.run('cls.sec.one'), ('S', 'one', self.value, 1), 'result of cls.sec.one')
            require_eq(self.manager.run('stuff.f'), ('f', None, 1), 'result of stuff.f')
            require(world.context.active_managers['m'] is self.manager, 'another manager is active')
            require('m.cls.sec.one' in world.Selector(), 'cls.sec.one is not in the selector')
        require(not list(world.context.stack), 'stack is %r', world.context.stack)
        require(not world.context.file_is_currently_being_loaded, 'context is not clean')
        require_eq(world.context.currently_running_section_path_str, None, 'currently running item')

    def state(self):
        return [self.manager is not None, self.clash, self.loaded, self.value, sorted(os.listdir(self.root)),
                self.loaded and world.read(os.path.join(self.root, 'pipeline_dict.py'))]


def systems(tier):
    if tier == 'quick':
        return [
            Startup('one', ['edit']),
            Invalid('invalid arguments', 3, 'all histories of managers with invalid arguments and dict files which clash'),
            Failed('while used', 3, ['zero', 'syntax'], 'faults when parsing and executing files'),
        ]
    return [
        Startup('one', ['same', 'edit']),
        Invalid('invalid arguments', 4, 'all histories of managers with invalid arguments and dict files which clash'),
        Failed('while used', 4, ['zero', 'interrupt'], 'faults when executing files'),
        Failed('while used, any kind', 3, list(KINDS), 'all kinds of faults'),
    ]
