"""Results of running items, sections and lists have the structure of what was run"""
import itertools
import logging
import os

import core
import world
from core import System, require, require_eq
from world import rec
import pyfileconf

LEVEL = 'model_checking'
KNOWN = {}

PIPELINE_DICT = '''from fxm import f, g, h, K, boom

pipeline_dict = {
    "stuff": [g, f],
    "solo": [K],
    "mix": {
        "x": [h, K],
        "w": {"deep": [f, boom], "a": [g]},
    },
    "bad": {"only": [boom]},
    "twice": [K, f],
    "void": {"nothing": [], "some": [g], "less": {}},
}
'''
CLASS_DICT = '''class_dict = {
    "sec": ["two", "one"],
    "outer": {"z": ["only"], "b": {"c": ["far"]}, "e": []},
}
'''

F = ('f', None, 1)
G = ('g', None, 3)
H = ('h', 0, 0)
K = ('K', None, 1)
BOOM = 'boom'


def S(name):
    return ('S', name, None, 1)


def U(name):
    return ('U', name, None, 1)


TREE = {
    'stuff': {'g': G, 'f': F},
    'solo': {'K': K},
    'mix': {
        'x': {'h': H, 'K': K},
        'w': {'deep': {'f': F, 'boom': BOOM}, 'a': {'g': G}},
    },
    'bad': {'only': {'boom': BOOM}},
    'twice': {'K': K, 'f': F},
    'void': {'nothing': {}, 'some': {'g': G}, 'less': {}},
    'cls': {'sec': {'two': S('two'), 'one': S('one')},
            'outer': {'z': {'only': S('only')}, 'b': {'c': {'far': S('far')}}, 'e': {}}},
    'upd': {'q': {'one': U('one')}},
}


def paths(tree, prefix=''):
    for k, v in tree.items():
        p = prefix + k
        yield p
        if isinstance(v, dict):
            yield from paths(v, p + '.')


def lookup(path):
    node = TREE
    for part in path.split('.'):
        node = node[part]
    return node


class Boom(Exception):
    pass


def evaluate(node, calls):
    """Reference semantics of running something once"""
    if isinstance(node, dict):
        return [evaluate(v, calls) for v in node.values()]
    if node == BOOM:
        calls.append(('boom', 1, 1))
        raise Boom
    calls.append(node)
    return node


class Hooks:
    def __init__(self, pre=None, post=None):
        self.pre = pre
        self.post = post
        self.seen_pre = []
        self.seen_post = []

    @pyfileconf.hookimpl
    def pyfileconf_pre_run(self, section_path_str_or_list, pm):
        self.seen_pre.append(section_path_str_or_list)
        if self.pre is not None:
            return self.pre(section_path_str_or_list)

    @pyfileconf.hookimpl
    def pyfileconf_post_run(self, results, runner):
        self.seen_post.append(results)
        if self.post is not None:
            return self.post


class Records(logging.Handler):
    """What is logged as an error"""

    def __enter__(self):
        self.messages = []
        self.logger = logging.getLogger('pyfileconf')
        self.before = self.logger.level, self.logger.handlers
        self.logger.handlers = [self]
        self.logger.setLevel(logging.INFO)
        return self

    def __exit__(self, *exc):
        self.logger.handlers = self.before[1]
        self.logger.setLevel(self.before[0])

    def emit(self, record):
        if record.levelno >= logging.ERROR:
            self.messages.append(record.getMessage())


ALL = list(paths(TREE))
SMALL = ['stuff.f', 'solo.K', 'stuff', 'mix.w', 'bad.only.boom', 'cls.sec.one', 'upd', 'cls.outer', 'void']
EXTRA = ['none', 'str', 'list', 'view', 'two-hooks', 'section', 'in-place']


class RunSystem(System):
    depth = 1
    split = 1
    mutates_fs = False

    def __init__(self, name, cases, mode, note='', depth=1):
        self.name = name
        self.cases = cases
        # None, 'force' for force_continue, 'debug' for auto_pdb
        self.mode = mode
        self.force = mode == 'force'
        self.note = note
        self.depth = depth

    def setup(self):
        world.reset_pyfileconf()
        mod = world.fxm(self.dir)
        self.pm = world.manager(
            os.path.join(self.dir, 'm'), name='m', pipeline_dict=PIPELINE_DICT,
            specifics=[world.scd('cls', mod.S), world.scd('upd', mod.U, key_attr='key', execute_attr='go')],
            specific_dicts={'cls': CLASS_DICT, 'upd': 'class_dict = {"q": ["one"]}\n'},
            force_continue=self.force, auto_pdb=self.debug if self.mode == 'debug' else False,
        )
        self.debugged = 0

    def debug(self):
        self.debugged += 1

    def ops(self):
        return self.cases

    def view(self, path):
        return world.ItemView.from_section_path_str('m.' + path)

    def real_arg(self, arg):
        if isinstance(arg, list):
            return [self.view(a[1:]) if a.startswith('@') else a for a in arg]
        return self.view(arg[1:]) if arg.startswith('@') else arg

    def apply(self, op):
        arg, extra, post, *interrupt = op
        names = [a.lstrip('@') for a in arg] if isinstance(arg, list) else arg.lstrip('@')
        # Reference
        added = []
        hooks = []
        if extra == 'str':
            added = ['stuff.g']
            hooks = [Hooks(lambda a: 'stuff.g')]
        elif extra == 'list':
            added = ['stuff.g', 'solo']
            hooks = [Hooks(lambda a: ['stuff.g', 'solo'])]
        elif extra == 'view':
            added = ['stuff.g']
            hooks = [Hooks(lambda a: self.view('stuff.g'))]
        elif extra == 'section':
            added = ['mix.x']
            hooks = [Hooks(lambda a: ['mix.x'])]
        elif extra == 'two-hooks':
            added = ['stuff.g', 'solo.K', 'stuff']
            # The last registered one is called first
            hooks = [Hooks(lambda a: ['solo.K', 'stuff']), Hooks(lambda a: 'stuff.g')]
        elif extra == 'in-place':
            if not isinstance(arg, list):
                return
            names = names + ['stuff.g']
            hooks = [Hooks(lambda a: a.append('stuff.g'))]
        if added:
            names = (names if isinstance(names, list) else [names]) + added
        if post is not None:
            hooks.append(Hooks(post=post))
        calls = []
        failed = False
        failures = []
        if not self.force or interrupt:
            try:
                if isinstance(names, list):
                    want = [evaluate(lookup(n), calls) for n in names]
                    if post is not None:
                        want = want + [post]
                else:
                    want = evaluate(lookup(names), calls)
                    if post is not None:
                        want = [want, post]
            except Boom:
                failed = True
        else:
            want = []
            for n in names if isinstance(names, list) else [names]:
                try:
                    want.append(evaluate(lookup(n), calls))
                except Boom:
                    failures.append(n)
            if not isinstance(names, list):
                want = want[0] if want else []
        # Implementation
        import pyfileconf.plugin.manager as plm_mod
        for h in hooks:
            plm_mod.plm.register(h)
        del rec.CALLS[:]
        real = self.real_arg(arg)
        self.debugged = 0
        exc = None
        if interrupt:
            rec.BOOM = {'KeyboardInterrupt': KeyboardInterrupt, 'SystemExit': SystemExit}[interrupt[0]]
        with Records() as records:
            try:
                got = self.pm.run(real)
            except BaseException as e:
                exc = type(e)
        rec.BOOM = ZeroDivisionError
        if interrupt and failed and exc is not None:
            # Leaves the program in all modes, other items do not run any more
            require(not issubclass(exc, Exception), 'running %r raised %r', op, exc)
            got = None
        elif exc is not None:
            require(exc is ZeroDivisionError and failed and self.mode is None, 'running %r raised %r', op, exc)
            got = None
        elif self.mode == 'debug':
            require_eq(got, None if failed else want, f'result of running {op}')
            require_eq(self.debugged, int(failed), 'how often the debugger was called')
        else:
            require(not failed, 'running %r did not raise, gave %r', op, got)
            require_eq(got, want, f'result of running {op}')
        if not interrupt and not failed:
            self.reported(records.messages, failures)
        self.outcome = [got, calls]
        require_eq(rec.CALLS, calls, f'calls made by running {op}')
        for h in hooks:
            require(len(h.seen_pre) == 1, 'pre run hook called %s times', len(h.seen_pre))
            if post is not None and not failed and not self.force:
                require(len(h.seen_post) == 1, 'post run hook called %s times', len(h.seen_post))
            plm_mod.plm.unregister(h)
        require_eq(len(world.context.stack.frames), 0, 'frames left on the context stack')

    @staticmethod
    def reported(messages, failures):
        """The last message is about all failures"""
        require(bool(messages) == bool(failures), '%s errors were logged for failures of %s', len(messages), failures)
        last = messages[-1] if messages else ''
        require_eq(last.count('ZeroDivisionError: boom'), len(failures), 'number of exceptions in the report')
        at = 0
        for path in failures:
            require(last.find(path, at) >= 0, '%s is not in the report of failures', path)
            at = last.find(path, at) + 1

    def check(self):
        pass

    def state(self):
        # What was observed last. The implementation must not have any other state
        return getattr(self, 'outcome', None)

    def nontrivial(self, ops):
        return True


def systems(tier):
    deep = tier == 'thorough'
    out = []
    marked = ['@' + p for p in SMALL if not isinstance(lookup(p), dict)]
    singles = [[p, 'none', None] for p in ALL] + [['@' + p, 'none', None] for p in ALL]
    lists = [[[], 'none', None]] + [[[p], 'none', None] for p in ALL + marked]
    pool = ALL if deep else SMALL
    lists += [[list(c), 'none', None] for c in itertools.product(pool + marked, repeat=2)]
    lists += [[list(c), 'none', None] for c in itertools.product(SMALL if deep else SMALL[:5], repeat=3)]
    if deep:
        lists += [[list(c), 'none', None] for c in itertools.product(SMALL[:6], repeat=4)]
    hooked = [
        [a, e, p] for a in ['stuff.f', 'stuff', '@solo.K', ['stuff.f'], ['stuff', '@cls.sec.one'], 'bad.only.boom',
                            ['stuff.f', 'bad', 'solo'], []]
        for e in EXTRA for p in (None, 'post') if not (e == 'none' and p is None)
    ]
    hooked_force = [h for h in hooked if h[2] is None]
    out.append(RunSystem('single', singles, None, 'each item and each section, by path and by view'))
    out.append(RunSystem('lists', lists, None, 'lists of up to 3 items and sections'))
    out.append(RunSystem('hooks', hooked, None, 'hooks which add items and results'))
    out.append(RunSystem('force:single', singles, 'force', 'each item and each section, with force_continue'))
    out.append(RunSystem('force:lists', lists, 'force', 'lists of up to 3 items and sections, with force_continue'))
    out.append(RunSystem('force:hooks', hooked_force, 'force', 'hooks which add items, with force_continue'))
    out.append(RunSystem('force:repeat', [[p, 'none', None] for p in SMALL] + [[['bad', 'stuff.f'], 'none', None]], 'force',
                         'runs following other runs', depth=3 if deep else 2))
    out.append(RunSystem('repeat', [[p, 'none', None] for p in SMALL] + [[['bad', 'stuff.f'], 'none', None]], None,
                         'runs following other runs', depth=3 if deep else 2))
    short = lists[:len(ALL + marked) + 1] + [[list(c), 'none', None] for c in itertools.product(SMALL, repeat=2)]
    out.append(RunSystem('debug:single', singles, 'debug', 'each item and each section, with auto_pdb'))
    out.append(RunSystem('debug:lists', lists if deep else short, 'debug', 'lists of items and sections, with auto_pdb'))
    out.append(RunSystem('debug:hooks', hooked, 'debug', 'hooks which add items, with auto_pdb'))
    interrupts = [[a, 'none', None, e] for e in ('KeyboardInterrupt', 'SystemExit') for a in (
        'bad.only.boom', 'bad', 'mix', ['stuff.f', 'bad', 'solo'], ['bad'], ['stuff', 'mix.w', 'stuff.g'], 'stuff', ['solo'])]
    for mode in (None, 'force', 'debug'):
        out.append(RunSystem(f'interrupt:{mode}', interrupts + [['stuff.f', 'none', None], ['bad', 'none', None]], mode,
                             'the user interrupts a run', depth=2))
    return out
