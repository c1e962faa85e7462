"""Crashes and errors at any single file operation lose nothing and leave a project which works"""
import errno
import os
import pickle
import shutil

import core
import preload
import world
from core import System, require, require_eq

LIB = preload.ensure()
LEVEL = 'fault_enumeration'
RULE = (
    'For every scenario every single file operation (open for writing, write, rename, mkdir, chmod, unlink, ...) which the '
    'real code makes is one fault point. At each the process is stopped before it, stopped half way through or right after it, '
    'or the operation fails. A case is non-trivial if the fault was reached.'
)
KNOWN = {}

USER_F = '''# Written by the user
from fxm import g as helper
from pyfileconf import Selector

s = Selector()
# about a
a = [1, 2,
     3]
mine = 'kept'
'''
USER_ONE = '''import os
name = 'one'
a = os.sep  # kept
'''
PIPELINE = '# by the user\nfrom fxm import f, g, h, K\n\npipeline_dict = {"stuff": [f, K], "deep": {"er": [h]}}\n'
PIPELINE_MORE = '# by the user\nfrom fxm import f, g, h, K\n\npipeline_dict = {"stuff": [f, K, g], "deep": {"er": [h], "new": [f]}, "other": [h]}\n'
CLASSES = 'class_dict = {"sec": ["one"]}\n'
CLASSES_MORE = 'class_dict = {"sec": ["one", "two"], "outer": {"in": ["far"]}}\n'
EXPECTED = {
    'stuff.f': ('f', None, 1), 'stuff.K': ('K', None, 1), 'stuff.g': ('g', None, 3), 'deep.er.h': ('h', 0, 0), 'deep.new.f': ('f', None, 1),
    'other.h': ('h', 0, 0), 'cls.sec.one': ('S', 'one', None, 1), 'cls.sec.two': ('S', 'two', None, 1), 'cls.outer.in.far': ('S', 'far', None, 1),
    'new.er.K': ('K', None, 1), 'cls.new.a.x': ('S', 'x', None, 1),
}
USER_VALUES = {'stuff.f': ('f', [1, 2, 3], 1), 'cls.sec.one': ('S', 'one', os.sep, 1)}


def in_child(func):
    """Result of a function which is run in another process, None if the process was stopped"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ('ok', func())
            except core.Violation as e:
                out = ('violation', str(e))
            except BaseException:
                import traceback
                out = ('error', traceback.format_exc())
            LIB.pfc_disarm()
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 77:
        return None
    if not data:
        raise core.HarnessError(f'process ended with status {status}')
    kind, value = pickle.loads(data)
    if kind == 'violation':
        raise core.Violation(value)
    if kind == 'error':
        raise core.Violation('unexpected ' + value)
    return value


class Project:
    def __init__(self, root, libdir):
        self.root = root
        self.libdir = libdir
        self.pm = None

    def load(self):
        mod = world.fxm(self.libdir)
        self.mod = mod
        world.reset_pyfileconf()
        self.pm = world.PipelineManager(folder=self.root, name='m', specific_class_config_dicts=[world.scd('cls', mod.S)])
        self.pm.load()

    def step(self, step):
        """One step of a scenario. Does nothing if it has been done before."""
        kind = step[0]
        if kind == 'load':
            if self.pm is None:
                self.load()
        elif kind == 'create':
            new = step[1] if step[2] is None else f'{step[1]}.{step[2]}'
            if world.raises(self.pm.get, new) is not None:
                self.pm.create(*([step[1]] if step[2] is None else [step[1], getattr(self.mod, step[2])]))
        elif kind == 'write':
            # By the user, so without faults
            for rel, text in step[1].items():
                world.write(os.path.join(self.root, rel), text)
        elif kind == 'reload':
            self.pm.reload()
        elif kind == 'use':
            self.pm.update(section_path_str='stuff.f', a=99)
            self.pm.run('stuff')
            self.pm.reset('stuff.f')
            self.pm.refresh('cls.sec.one')
            list(self.pm.run_product_gen('deep.er.h', [{'section_path_str': 'deep.er.h', 'a': 4}]))
        else:
            raise core.HarnessError(step)

    def results(self):
        out = {}
        for path in EXPECTED:
            # Items which are not part of the project raise
            exc = world.raises(self.pm.get, path)
            if exc is None:
                out[path] = self.pm.run(path)
        return out


EDITED = {'defaults/stuff/f.py': USER_F, 'defaults/cls/sec/one.py': USER_ONE, 'defaults/stuff/section.py': '# section\nq = 3\n'}
BASE = {'pipeline_dict.py': PIPELINE, 'cls_dict.py': CLASSES}
SCENARIOS = {
    # files written by the user before, steps before faults, steps with faults
    'new project': ({}, [], [['load']]),
    'declared project': (BASE, [], [['load']]),
    'edited files': ({**BASE, **EDITED}, [], [['load']]),
    'loaded before': ({**BASE, **EDITED}, [['load']], [['load']]),
    'create function': ({**BASE, **EDITED}, [['load']], [['load'], ['create', 'stuff', 'g']]),
    'create in new section': ({**BASE, **EDITED}, [['load']], [['load'], ['create', 'new.er', 'K']]),
    'create specific': ({**BASE, **EDITED}, [['load']], [['load'], ['create', 'cls.sec.two', None]]),
    'create specific in new section': ({**BASE, **EDITED}, [['load']], [['load'], ['create', 'cls.new.a.x', None]]),
    'creates in new project': ({}, [], [['load'], ['create', 'stuff', 'f'], ['create', 'cls.sec.one', None]]),
    'declared later': ({**BASE, **EDITED, 'pipeline_dict.py': PIPELINE_MORE, 'cls_dict.py': CLASSES_MORE}, [], [['load']]),
    'reload': ({**BASE, **EDITED}, [['load']], [['load'], ['reload']]),
    'use': ({**BASE, **EDITED}, [['load']], [['load'], ['use'], ['reload']]),
}


def normalized(texts):
    return {k: v.rstrip() for k, v in texts.items() if k.endswith('.py')}


class Faults(System):
    depth = 2
    split = 2

    def __init__(self, name, scenarios, second=False, note=''):
        self.name = name
        self.scenarios = scenarios
        self.depth = 3 if second else 2
        self.split = self.depth
        self.note = note

    def setup(self):
        world.reset_pyfileconf()
        self.root = os.path.join(self.dir, 'm')
        self.libdir = self.dir
        self.phase = None
        self.n = 0
        self.wheres = []

    def ops(self):
        if self.phase is None:
            return [['scenario', s] for s in self.scenarios]
        if self.n is None:
            return []
        out = []
        for k in range(1, self.n + 1):
            out += [[m, k] for m in ('stop before', 'stop within')]
            if not self.second_round:
                out.append(['fails', k])
        if not self.second_round:
            out += [['read fails', k] for k in range(1, self.n_reads + 1)]
        return out

    def count(self, func, reads=False):
        """Number of file operations"""
        def go():
            LIB.pfc_arm(self.root.encode(), 0, 0, 0)
            if reads:
                LIB.pfc_reads()
            func()
            LIB.pfc_disarm()
            return LIB.pfc_count(), LIB.pfc_log().decode()
        return in_child(go)

    def apply(self, op):
        if op[0] == 'scenario':
            files, before, steps = SCENARIOS[op[1]]
            os.makedirs(self.root)
            for rel, text in files.items():
                world.write(os.path.join(self.root, rel), text)

            def prepare():
                p = Project(self.root, self.libdir)
                for step in before:
                    p.step(step)
            in_child(prepare)
            self.before = world.project_texts(self.root)
            self.steps = steps
            # Without any faults, in a copy: all states which are allowed afterwards
            saved = os.path.join(self.dir, 'saved')
            shutil.copytree(self.root, saved)
            self.versions = {k: {v} for k, v in self.before.items()}
            self.allowed = []

            def clean(n):
                p = Project(self.root, self.libdir)
                for step in steps[:n]:
                    p.step(step)
                if p.pm is None:
                    p.load()
                return p.results()

            for n in range(len(steps) + 1):
                shutil.rmtree(self.root)
                shutil.copytree(saved, self.root)
                self.allowed.append(in_child(lambda: clean(n)))
                for k, v in world.project_texts(self.root).items():
                    self.versions.setdefault(k, {None}).add(v)
            self.final = world.project_texts(self.root)
            for path, value in self.allowed[-1].items():
                want = USER_VALUES[path] if 'defaults/stuff/f.py' in files and path in USER_VALUES else EXPECTED[path]
                require_eq(value, want, f'running {path} without faults')
            shutil.rmtree(self.root)
            shutil.copytree(saved, self.root)
            self.second_round = False

            def all_steps():
                p = Project(self.root, self.libdir)
                for step in self.steps:
                    p.step(step)
            self.go = all_steps
            self.n, self.log = self.count(all_steps)
            shutil.rmtree(self.root)
            shutil.copytree(saved, self.root)
            self.n_reads, self.read_log = self.count(all_steps, True)
            shutil.rmtree(self.root)
            shutil.copytree(saved, self.root)
            self.phase = 'ready'
        else:
            mode, k = op
            reads = mode == 'read fails'
            self.wheres.append(f'{mode} {k}: {(self.read_log if reads else self.log).splitlines()[k - 1]}')
            where = ', '.join(self.wheres)
            code = {'stop before': 1, 'stop within': 2, 'fails': 3, 'read fails': 3}[mode]

            def faulty():
                LIB.pfc_arm(self.root.encode(), k, code, errno.EIO if reads else errno.ENOSPC)
                if reads:
                    LIB.pfc_reads()
                exc = world.raises(self.go)
                LIB.pfc_disarm()
                require(LIB.pfc_hit(), 'fault was not reached')
                if code == 3:
                    # Same process goes on
                    self.files_complete(where)
                    self.recover(where, exc is None)
                return 'done'

            out = in_child(faulty)
            if code != 3:
                require(out is None, 'fault was not reached')
                self.files_complete(where)
                if self.depth == 2 or self.second_round:
                    in_child(lambda: self.recover(where, False))
                    self.n = None
                else:
                    # Second fault while recovering
                    self.second_round = True

                    def again():
                        p = Project(self.root, self.libdir)
                        p.load()
                    self.go = again
                    copy = os.path.join(self.dir, 'copy')
                    shutil.copytree(self.root, copy)
                    self.n, self.log = self.count(again)
                    shutil.rmtree(self.root)
                    shutil.copytree(copy, self.root)
            else:
                self.n = None

    def files_complete(self, where):
        texts = world.project_texts(self.root)
        for rel, options in self.versions.items():
            got = texts.get(rel)
            require(got in options or (got is not None and self.is_user_part(rel, got)), 'after %s: contents of %s are neither the old nor the new ones: %r', where, rel, got)

    def is_user_part(self, rel, got):
        """Intermediate, but complete, version of a file"""
        return got.rstrip() in [o.rstrip() for o in self.versions[rel] if o is not None]

    def recover(self, where, succeeded):
        p = Project(self.root, self.libdir)
        p.load()
        results = p.results()
        allowed = self.allowed if not succeeded else self.allowed[-1:]
        require(results in allowed, 'after %s: running the items after loading again gives %r, expected one of %r', where, results, allowed)
        for step in self.steps:
            p.step(step)
        require_eq(p.results(), self.allowed[-1], f'after {where}: results of doing everything again')
        require_eq(normalized(world.project_texts(self.root)), normalized(self.final), f'after {where}: files after doing everything again')

    def check(self):
        pass

    def state(self):
        return [self.wheres, self.phase]

    def nontrivial(self, ops):
        return len(ops) > 1


def systems(tier):
    deep = tier == 'thorough'
    names = list(SCENARIOS)
    out = [Faults(f'one fault: {n}', [n], note='one fault at every file operation') for n in names]
    for n in names if deep else ['create specific in new section']:
        out.append(Faults(f'two faults: {n}', [n], True, note='a second fault while loading the project again'))
    return out
ASSUMPTIONS = ['A stopped process loses what it has not passed to the operating system, but not what it has (no power failures).']
