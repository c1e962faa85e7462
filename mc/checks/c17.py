"""Creating and loading a project completes what is missing and overwrites nothing"""
import itertools
import os
import shutil

import core
import world
from core import System, require, require_eq
from world import rec
import pyfileconf

LEVEL = 'model_checking'
KNOWN = {}

MOD = '''
def f(a=1, b=2):
    return ('f', a, b)

class S:
    def __init__(self, name=None, a=1):
        self.name = name
        self.a = a
    def __call__(self):
        return ('S', self.name, self.a)
'''
# Parts of a project which may exist before. Contents which a user may have in them
PARTS = {
    'pipeline_dict.py': '# user\nfrom c17m import f\n\npipeline_dict = {\n    "stuff": [f],\n}\n\nEXTRA = 5\n',
    'cls_dict.py': '# user\nclass_dict = {\n    "sec": ["one"],\n}\n',
    'oth_dict.py': '\nclass_dict = {"x": {"y": ["two"]}}\n',
    'D/stuff/f.py': '# user\na = 10\nb = 20\n',
    'D/stuff/section.py': 'b = 21\n',
    'D/section.py': '# nothing\n',
    'D/cls/sec/one.py': 'name = "one"\na = 30\n',
    'D/stuff/unrelated.py': 'x = 1\n',
    'notes.txt': 'notes\n',
    'D/': None,
    'L/': None,
    'L/other.log': 'log\n',
}


class Create(System):
    """Every subset of the parts of a project, for each name of the defaults folder, with and without log folder"""
    split = 1

    def __init__(self, name, depth, parts, defaults, logs, note=''):
        self.name, self.depth, self.parts, self.defaults, self.logs = name, depth, parts, defaults, logs
        self.note = note

    def setup(self):
        world.reset_pyfileconf()
        pyfileconf.options.reset()
        world.lib(self.dir, c17m=MOD)
        import c17m
        self.mod = c17m
        self.root = os.path.join(self.dir, 'deep', 'project')
        self.case = None
        self.pm = None

    def state(self):
        return self.case

    def ops(self):
        if self.case is None:
            return [[d, log, exists, *subset] for d in self.defaults for log in self.logs for exists in ('no', 'empty')
                    for k in range(len(self.parts) + 1) for subset in itertools.combinations(self.parts, k)
                    if k == 0 or exists == 'empty']
        return [['load'], ['again'], ['reload'], ['run'], ['other']]

    def specifics(self):
        return [world.scd('cls', self.mod.S), world.scd('oth', self.mod.S)]

    def path(self, part):
        if part.startswith('D/'):
            return os.path.join(self.root, self.case[0], part[2:])
        if part.startswith('L/'):
            return os.path.join(self.dir, 'logs', part[2:])
        return os.path.join(self.root, part)

    def new(self):
        if self.case[0] == 'defaults':
            return pyfileconf.PipelineManager(self.root, name='m', specific_class_config_dicts=self.specifics())
        return pyfileconf.PipelineManager(
            self.root, name='m', specific_class_config_dicts=self.specifics(), default_config_folder_name=self.case[0])

    def apply(self, op):
        if self.case is None:
            self.case = op
            d, log, exists, *subset = op
            if exists != 'no':
                os.makedirs(self.root)
            self.user = {}
            for part in subset:
                path = self.path(part)
                if PARTS[part] is None:
                    os.makedirs(path, exist_ok=True)
                else:
                    self.user[path] = PARTS[part]
                    world.write(path, PARTS[part])
            before = self.tree()
            self.loaded = False
            if log == 'log':
                pyfileconf.options.log_folder.value = os.path.join(self.dir, 'logs')
            elif log == 'late':
                self.pm = self.new()
                self.pm = None
                pyfileconf.options.log_folder.value = os.path.join(self.dir, 'logs')
            self.pm = self.new()
            after = self.tree()
            for path, text in before.items():
                require(path in after, 'creating the project removed %s', path)
                require_eq(after[path], text, f'contents of {path} after creating the project')
            expected = {*before, *(os.path.join(self.root, p) for p in ('pipeline_dict.py', 'cls_dict.py', 'oth_dict.py'))}
            if log != 'no':
                expected.add(os.path.join(self.dir, 'logs', 'pyfileconf.log'))
            require_eq(sorted(after), sorted(expected), 'files after creating the project')
            require(os.path.isdir(os.path.join(self.root, d)), 'the folder %s for the defaults was not created', d)
            folders = {e for e in os.listdir(self.root) if os.path.isdir(os.path.join(self.root, e))}
            require_eq(folders, {d}, 'folders of the project')
            return
        if op[0] == 'load':
            self.pm.load()
            self.loaded = True
        elif op[0] == 'again':
            import warnings
            warnings.simplefilter('ignore')
            before = self.tree()
            self.pm = self.new()
            require_eq(self.tree(), before, 'files after creating a manager for a project which is complete')
            self.loaded = False
            # The log folder may be removed while the project is used
        elif op[0] == 'reload' and self.loaded:
            self.pm.reload()
        elif op[0] == 'run' and self.loaded:
            self.run()
        elif op[0] == 'other':
            # A file which is missing again is created again
            path = os.path.join(self.root, 'oth_dict.py')
            if path not in self.user:
                os.remove(path)
                self.pm = self.new()
                require(os.path.exists(path), 'a dict file which was removed is not created again')
                self.loaded = False
        self.kept()

    def tree(self):
        out = {}
        for top in (self.root, os.path.join(self.dir, 'logs')):
            for r, ds, fs in os.walk(top):
                for f in fs:
                    p = os.path.join(r, f)
                    out[p] = world.read(p) if f != 'pyfileconf.log' else ''
        return out

    def kept(self):
        for path, text in self.user.items():
            require(os.path.exists(path), '%s was removed', path)
            now = world.read(path)
            if self.loaded or path.startswith(os.path.join(self.root, self.case[0])):
                lines = now.split('\n')
                for line in filter(None, text.split('\n')):
                    require(line in lines, 'line %r of %s was lost: %r', line, path, now)
            else:
                require_eq(now, text, f'contents of {path}')
            if os.path.basename(path) in ('section.py', 'notes.txt', 'unrelated.py', 'other.log') or path.endswith('_dict.py'):
                require_eq(now, text, f'contents of {path}')

    def expected(self):
        subset = self.case[3:]
        out = {}
        if 'pipeline_dict.py' in subset:
            a, b = (10, 20) if 'D/stuff/f.py' in subset else (1, 2)
            if 'D/stuff/section.py' in subset:
                b = 21
            out['stuff.f'] = ('f', a, b)
        if 'cls_dict.py' in subset:
            out['cls.sec.one'] = ('S', 'one', 30 if 'D/cls/sec/one.py' in subset else 1)
        if 'oth_dict.py' in subset:
            out['oth.x.y.two'] = ('S', 'two', 1)
        return out

    def run(self):
        for path, want in self.expected().items():
            require_eq(self.pm.run(path), want, f'result of {path}')
        for path in ('stuff.f', 'cls.sec.one', 'oth.x.y.two'):
            if path not in self.expected():
                require(world.raises(lambda: self.pm.run(path)) is not None, 'no error')

    def check(self):
        if self.case is None:
            return
        if not self.loaded:
            self.pm.load()
            self.loaded = True
        self.kept()
        self.run()
        self.kept()
        before = self.tree()
        for root in (self.dir, self.root):
            for stray in os.listdir(root):
                require(stray in ('lib', 'deep', 'logs', self.case[0], 'pipeline_dict.py', 'cls_dict.py', 'oth_dict.py', 'notes.txt', '__pycache__'),
                        'unexpected file %s', os.path.join(root, stray))
        # Creating, in a project which was empty, is possible and what is created is there in the next session
        import c17m
        self.pm.create('new.inner', c17m.f)
        self.pm.create('cls.fresh.thing')
        import warnings
        warnings.simplefilter('ignore')
        self.pm = self.new()
        self.pm.load()
        self.run()
        require_eq(self.pm.run('new.inner.f'), ('f', 1, 2), 'result of an item which was created')
        require_eq(self.pm.run('cls.fresh.thing'), ('S', 'thing', 1), 'result of an item which was created')
        user = dict(self.user)
        for p in ('pipeline_dict.py', 'cls_dict.py'):
            self.user.pop(os.path.join(self.root, p), None)
        self.kept()


def systems(tier):
    small = ['pipeline_dict.py', 'cls_dict.py', 'D/stuff/f.py', 'D/']
    if tier == 'quick':
        parts = [p for p in PARTS if p not in ('oth_dict.py', 'notes.txt', 'L/', 'D/section.py')]
        return [
            Create('subsets', 1, parts, ['defaults', 'conf'], ['no', 'log'], 'all subsets of most parts'),
            Create('histories', 3, small, ['my_conf'], ['no', 'late'], 'subsets of the main parts with operations after it'),
        ]
    return [
        Create('subsets', 1, list(PARTS), ['defaults', 'conf'], ['no', 'log', 'late'], 'all subsets of all parts'),
        Create('histories', 4, small, ['defaults', 'my_conf'], ['no', 'log', 'late'],
               'subsets of the main parts with operations after it'),
    ]
