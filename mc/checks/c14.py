"""The context tells what is running, and is restored whatever happens"""
import itertools
import os
import sys

import core
import world
from core import System, require, require_eq
from world import rec
import pyfileconf

LEVEL = 'model_checking'
KNOWN = {}

MOD = '''
import pfcrec as _rec

def f(a=0):
    return _rec.HOOK('f', a)

def g(a=0):
    return _rec.HOOK('g', a)

class K:
    def __init__(self, a=0):
        self.a = a
    def __call__(self):
        return _rec.HOOK('K', self.a)

class S:
    def __init__(self, name=None, a=0):
        self.name = name
        self.a = a
    def __call__(self):
        return _rec.HOOK('S' + self.name, self.a)
'''
PD = '''from c14m import f, g, K

pipeline_dict = {
    "stuff": [f, g],
    "kl": [K],
}
'''
EXC = {'V': ValueError, 'K': KeyboardInterrupt, 'X': SystemExit, 'G': GeneratorExit}
TARGETS = ['m.stuff.f', 'm.kl.K', 'm.cls.sec.one', 'n.stuff.f']
FORMS = ['run', 'list', 'section', 'view', 'product', 'call']
TAGS = {'stuff.f': 'f', 'stuff.g': 'g', 'kl.K': 'K', 'cls.sec.one': 'Sone', 'cls.sec.two': 'Stwo'}
SECTION = {'stuff': ['stuff.f', 'stuff.g'], 'kl': ['kl.K'], 'cls.sec': ['cls.sec.one', 'cls.sec.two']}


class Level:
    def __init__(self, form, target, exc=None, catch=False):
        self.form, self.exc, self.catch = form, exc, catch
        self.manager, self.path = target.split('.', 1)

    def __repr__(self):
        return f'{self.form} {self.manager}.{self.path}, which ' + (
            f'raises {EXC[self.exc].__name__}' if self.exc else 'returns') + (' and catches' if self.catch else '')


class Quit(Exception):
    pass


class Model:
    """What happens when the items of each level invoke the next level"""

    def __init__(self, levels, modes):
        self.levels, self.modes = levels, modes
        self.stack, self.events = [], []
        self.a = {}

    def item(self, manager, path, k):
        level = self.levels[k]
        value = (TAGS[path], self.a.get((manager, path), 0))
        self.events.append(('enter', *value, list(self.stack)))
        if k + 1 < len(self.levels):
            try:
                result = self.invoke(k + 1)
            except BaseException as e:
                self.events.append(('raised', *value, type(e).__name__, list(self.stack)))
                if not level.catch:
                    raise
            else:
                self.events.append(('returned', *value, result, list(self.stack)))
        if level.exc:
            raise EXC[level.exc]()
        return value

    def tracked(self, manager, path, k):
        self.stack.append(f'{manager}.{path}')
        try:
            return self.item(manager, path, k)
        finally:
            self.stack.pop()

    def run(self, manager, paths, k):
        """paths: a path, a list for a list of paths, or a tuple for a section"""
        mode = self.modes.get(manager)

        def runner(what):
            if isinstance(what, list):
                return [runner(w) for w in what]
            if isinstance(what, tuple):
                return [self.tracked(manager, p, k) for p in what]
            return self.tracked(manager, what, k)

        if mode is None:
            return runner(paths)
        if mode == 'pdb':
            try:
                return runner(paths)
            except (KeyboardInterrupt, SystemExit):
                raise SystemExit()
            except Exception:
                self.events.append(('debug', list(self.stack)))
                return None
        results = []
        for what in paths if isinstance(paths, list) else [paths]:
            try:
                results.append(runner(what))
            except (KeyboardInterrupt, SystemExit):
                raise SystemExit()
            except Exception:
                pass
        if isinstance(paths, list):
            return results
        return results[0] if results else []

    def invoke(self, k):
        level = self.levels[k]
        m, path = level.manager, level.path
        if level.form == 'run':
            return self.run(m, path, k)
        if level.form == 'list':
            return self.run(m, [path, 'stuff.g'], k)
        if level.form == 'section':
            return self.run(m, tuple(SECTION[path.rsplit('.', 1)[0]]), k)
        if level.form in ('view', 'call'):
            return self.item(m, path, k)
        results = []
        for a in (1, 2):
            self.a[m, path] = a
            results.append(self.run(m, path, k))
        self.a[m, path] = 0
        return results


class Programs(System):
    depth = 1
    split = 1
    note = 'items which invoke items, in all ways to run and call them, with all exceptions, settings of the manager and logging'

    def __init__(self, name, n_levels):
        self.name, self.n_levels = name, n_levels

    def ops(self):
        return [[mode, log, form, target] for mode in (None, 'continue', 'pdb') for log in (False, True)
                for form in FORMS for target in TARGETS]

    def setup(self):
        world.reset_pyfileconf()
        world.lib(self.dir, c14m=MOD)
        import c14m
        self.pms = {n: world.manager(
            os.path.join(self.dir, n), name=n, pipeline_dict=PD, specifics=[world.scd('cls', c14m.S)],
            specific_dicts={'cls': 'class_dict = {"sec": ["one", "two"]}\n'},
        ) for n in ('m', 'n')}

    def apply(self, op):
        mode, log, form, target = op
        if mode == 'continue':
            self.pms['m'].force_continue = True
        elif mode == 'pdb':
            self.pms['m'].auto_pdb = self.debug
        pyfileconf.options.log_stdout.value = log
        self.log = log
        self.traces = []
        self.modes = {'m': mode}
        inner_choices = [
            [Level(f, t, exc, catch) for f in FORMS for t in TARGETS
             for exc in (None, *EXC) for catch in ((False, True) if i + 1 < self.n_levels - 1 else (False,))]
            for i in range(self.n_levels - 1)
        ]
        for inner in itertools.product(*inner_choices):
            for catch in (False, True):
                for exc in (None, 'V'):
                    self.program([Level(form, target, exc, catch), *inner])

    def debug(self):
        self.events.append(('debug', self.frames()))

    def frames(self):
        context = world.context
        paths = [frame.section_path.path_str for frame in context.stack]
        require(all(frame.action.name == 'RUN' for frame in context.stack), 'a file is being loaded while items run: %r', context.stack)
        require_eq(context.currently_running_section_path_str, paths[-1] if paths else None, 'currently running item')
        require_eq(context.file_is_currently_being_loaded, False, 'file_is_currently_being_loaded')
        require_eq(context.stack.currently_loading_file_section_path, None, 'currently_loading_file_section_path')
        return paths

    def item(self, tag, a):
        k = self.k
        level = self.levels[k]
        value = (tag, a)
        self.events.append(('enter', *value, self.frames()))
        self.stdout()
        if k + 1 < len(self.levels):
            self.k += 1
            try:
                result = self.invoke(k + 1)
            except BaseException as e:
                if isinstance(e, (core.Violation, core.OpTimeout)):
                    raise
                self.k = k
                self.events.append(('raised', *value, type(e).__name__, self.frames()))
                self.stdout()
                if not level.catch:
                    raise
            else:
                self.k = k
                self.events.append(('returned', *value, result, self.frames()))
                self.stdout()
        if level.exc:
            raise EXC[level.exc]()
        return value

    def stdout(self):
        # Without a run around it, calls do not redirect anything
        if not world.context.stack.frames:
            return
        require((sys.stdout is self.orig_stdout) is not self.log, 'stdout is %r while an item runs, log_stdout is %r', sys.stdout, self.log)

    def invoke(self, k):
        level = self.levels[k]
        pm, path = self.pms[level.manager], level.path
        if level.form == 'run':
            return pm.run(path)
        if level.form == 'list':
            return pm.run([path, 'stuff.g'])
        if level.form == 'section':
            return pm.run(path.rsplit('.', 1)[0])
        if level.form == 'call':
            return pm.get(path)()
        if level.form == 'view':
            view = world.ItemView.from_section_path_str(f'{level.manager}.{path}')
            return view()() if path == 'kl.K' else view()
        return [r for _, r in pm.run_product(path, [dict(section_path_str=path, a=1), dict(section_path_str=path, a=2)])]

    def program(self, levels):
        model = Model(levels, self.modes)
        want = self.outcome(model.invoke)
        self.levels, self.k, self.events = levels, 0, []
        self.orig_stdout = sys.stdout
        rec.HOOK = self.item
        got = self.outcome(self.invoke)
        require(sys.stdout is self.orig_stdout, '%r: stdout is %r afterwards', levels, sys.stdout)
        require_eq(self.frames(), [], f'{levels}: stack afterwards')
        require_eq(got, want, f'{levels}: outcome')
        require_eq(self.events, model.events, f'{levels}: what happened')
        self.traces.append(model.events)
        # An exception interrupts iterating over cases, the rest of it is not what this is about
        for level in levels:
            if level.form == 'product':
                self.levels, self.k = [Level('run', 'm.stuff.f')], 0
                pm = self.pms[level.manager]
                pm.update(section_path_str=level.path, a=0)

    def state(self):
        return getattr(self, 'modes', None)

    def outcome(self, invoke):
        try:
            return ['returned', invoke(0)]
        except BaseException as e:
            if isinstance(e, (core.Violation, core.OpTimeout)):
                raise
            return ['raised', type(e).__name__]


def systems(tier):
    return [Programs('two', 2)] + ([Programs('three', 3)] if tier == 'thorough' else [])
