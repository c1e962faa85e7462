"""Running a product of configurations runs each combination once, with exactly its configuration"""
import copy
import itertools
import os

import core
import world
from core import require, require_eq
from hist import ConfigSystem, ITEMS, build, expected_result, Item
from world import rec
from pyfileconf.iterate import IterativeRunner
import pyfileconf

LEVEL = 'model_checking'

SECTIONS = {'stuff': ['stuff.f', 'stuff.g'], 'cls.sec': ['cls.sec.one', 'cls.sec.two']}
ITEMS2 = {**ITEMS, 'cls.sec.two': ('S', {'name': 'two', 'a': None, 'b': 1})}

UPDATES = [
    {'section_path_str': 'stuff.f', 'a': 1},
    {'section_path_str': 'stuff.f', 'b': 5},
    {'section_path_str': 'stuff.f', 'a': 2, 'b': 1},
    {'section_path_str': 'cls.sec.one', 'a': 3},
    {'section_path_str': 'kl.K', 'a': 4},
    {'section_path_str': 'kl.K', 'b': 4},
    {'section_path_str': 'stuff.g', 'c': 6},
    {'section_path_str': 'stuff.f'},
]


class Failed(Exception):
    pass


class Run:
    """Reference semantics of an iterative run: defaults are taken when it is created"""

    def __init__(self, system, updates, prefix='', further=()):
        self.system = system
        groups = {}
        for u in updates:
            groups.setdefault(u['section_path_str'], []).append(u)
        self.cases = [tuple(dict(c) for c in case) for case in itertools.product(*groups.values())]
        self.defaults = {}
        for sp in [*groups, *further]:
            item = system.model[sp[len(prefix):]]
            item.touch()
            self.defaults[sp] = item.effective()
        self.prefix = prefix

    def apply(self, case):
        for conf in case:
            sp = conf['section_path_str']
            item = self.system.model[sp[len(self.prefix):]]
            updates = {**self.defaults[sp], **conf}
            updates.pop('section_path_str')
            item.update(updates, True)

    def result(self, what):
        if isinstance(what, list):
            out = [self.one(w) for w in what]
            # A single item gives its result
            return out[0] if len(out) == 1 else out
        return self.one(what)

    def one(self, what):
        if what in SECTIONS:
            return [self.one(i) for i in SECTIONS[what]]
        item = self.system.model[what]
        item.touch()
        return expected_result(ITEMS2[what][0], item.effective())


class CaseHooks:
    def __init__(self, extra=None, modify=None):
        self.extra = extra
        self.modify = modify
        self.applied = []

    @pyfileconf.hookimpl
    def pyfileconf_iter_get_cases(self, config_updates, runner):
        return self.extra or []

    @pyfileconf.hookimpl
    def pyfileconf_iter_modify_cases(self, cases, runner):
        if self.modify == 'reverse':
            cases.reverse()
        elif self.modify == 'drop':
            del cases[-1]
        elif self.modify == 'clear':
            del cases[:]

    @pyfileconf.hookimpl
    def pyfileconf_iter_update_for_case(self, case, runner):
        self.applied.append(case)


class Skipper(IterativeRunner):
    def should_run(self, case):
        return case[0].get('a') != 1


class ProductSystem(ConfigSystem):
    def setup(self):
        super().setup()
        self.model['cls.sec.two'] = Item(ITEMS2['cls.sec.two'][1])
        self.gens = {}

    def view(self, what):
        if isinstance(what, list):
            return [self.view(w) for w in what]
        return self.iv(what[1:]) if what.startswith('@') else what

    @staticmethod
    def plain(what):
        if isinstance(what, list):
            return [w.lstrip('@') for w in what]
        return what.lstrip('@')

    def apply(self, op):
        kind = op[0]
        if kind in ('product', 'product-discard', 'gen-all', 'runner', 'runner-skip', 'gen-skip', 'hooked', 'runner-twice'):
            what, updates = op[1], [dict(u) for u in op[2]]
            given = copy.deepcopy(updates)
            names = self.plain(what)
            run = Run(self, updates)
            cases = run.cases
            hooks = None
            if kind == 'hooked':
                hooks = CaseHooks(*op[3])
                extra = [tuple(dict(c) for c in case) for case in (op[3][0] or [])]
                hooks.extra = extra
                # The defaults are those of the first case
                cases = extra + cases
                for sp in {c['section_path_str'] for case in extra for c in case}:
                    if sp not in run.defaults:
                        self.model[sp].touch()
                        run.defaults[sp] = self.model[sp].effective()
                if op[3][1] == 'reverse':
                    cases = cases[::-1]
                elif op[3][1] == 'drop':
                    cases = cases[:-1]
                elif op[3][1] == 'clear':
                    cases = []
                import pyfileconf.plugin.manager as plm_mod
                plm_mod.plm.register(hooks)
            rounds = 2 if kind == 'runner-twice' else 1
            runner = None
            for _ in range(rounds):
                want = []
                calls = []
                expected_cases = cases
                if kind in ('runner-skip', 'gen-skip'):
                    expected_cases = [c for c in cases if c[0].get('a') != 1]
                for case in expected_cases:
                    run.apply(case)
                    res = run.result(names)
                    calls += flatten(res)
                    want.append((case, res))
                del rec.CALLS[:]
                if kind == 'product' or kind == 'hooked':
                    got = self.pm.run_product(self.view(what), given)
                elif kind == 'product-discard':
                    got = self.pm.run_product(self.view(what), given, collect_results=False)
                    want = []
                elif kind == 'gen-all':
                    got = list(self.pm.run_product_gen(self.view(what), given))
                else:
                    if runner is None:
                        klass = Skipper if kind in ('runner-skip', 'gen-skip') else IterativeRunner
                        runner = klass(self.view(what), given, base_section_path_str='m', strip_manager_from_iv=True)
                    got = list(runner.run_gen()) if kind == 'gen-skip' else runner.run()
                require_eq(got, want, f'results of {op}')
                require_eq(rec.CALLS, calls, f'calls made by {op}')
            require_eq(given, updates, 'updates passed to the run')
            if hooks is not None:
                import pyfileconf.plugin.manager as plm_mod
                plm_mod.plm.unregister(hooks)
                require_eq(len(hooks.applied), len(cases), 'number of cases applied')
        elif kind == 'failing':
            self.failing(*op[1:])
        elif kind == 'mutating':
            self.mutating(op[1])
        elif kind == 'gen':
            # The defaults are taken when the generator is created
            _, key, what, updates = op
            run = Run(self, [dict(u) for u in updates])
            gen = self.pm.run_product_gen(self.view(what), [dict(u) for u in updates])
            self.gens[key] = [run, gen, self.plain(what), 0]
        elif kind == 'next':
            run, gen, names, i = self.gens[op[1]]
            if i < len(run.cases):
                case = run.cases[i]
                run.apply(case)
                del rec.CALLS[:]
                want = (case, run.result(names))
                require_eq(next(gen), want, f'case {i} of {op}')
                require_eq(rec.CALLS, flatten(want[1]), f'calls made by case {i}')
                self.gens[op[1]][3] += 1
            else:
                e = world.raises(next, gen)
                require(isinstance(e, StopIteration), 'generator went on after %s cases', i)
                del self.gens[op[1]]
        else:
            super().apply(op)

    def failing(self, what, updates, value, lazily):
        """The run of a case raises"""
        def fail(kind, a, b):
            if a == value:
                raise ZeroDivisionError(kind)

        names = self.plain(what)
        run = Run(self, [dict(u) for u in updates])
        calls = []
        want = []
        failed = False
        for case in run.cases:
            run.apply(case)
            expected = flatten(run.result(names))
            stop = [i for i, c in enumerate(expected) if c[0] in ('f', 'K') and c[1] == value]
            calls += expected[:stop[0] + 1] if stop else expected
            if stop:
                failed = True
                break
            want.append((case, run.result(names)))
        del rec.CALLS[:]
        rec.HOOK = fail
        got = []
        try:
            if lazily:
                for pair in self.pm.run_product_gen(self.view(what), [dict(u) for u in updates]):
                    got.append(pair)
            else:
                got = self.pm.run_product(self.view(what), [dict(u) for u in updates])
        except ZeroDivisionError:
            require(failed, 'product run failed')
            if not lazily:
                got = want
        else:
            require(not failed, 'product run did not fail')
        finally:
            rec.HOOK = None
        require_eq(got, want, 'results of the failing product run')
        require_eq(rec.CALLS, calls, 'calls made by the failing product run')

    def mutating(self, updates):
        """What was passed is left alone, also if the item changes what it is called with"""
        def change(kind, a, b):
            seen.append((kind, copy.deepcopy(a), b))
            if isinstance(a, list):
                a.append('changed')
            elif isinstance(a, dict):
                a['changed'] = 1

        seen = []
        given = copy.deepcopy(updates)
        run = Run(self, copy.deepcopy(updates))
        want = []
        for case in run.cases:
            run.apply(case)
            want += flatten(run.result('stuff.f'))
        rec.HOOK = change
        try:
            for how in ('run_product', 'run_product_gen'):
                del seen[:]
                list(getattr(self.pm, how)('stuff.f', given))
                require_eq(given, updates, f'updates passed to {how}')
                require_eq(seen, want, f'what the item was called with by {how}')
        finally:
            rec.HOOK = None
        # What the item did to its arguments is not looked at
        self.pm.update(section_path_str='stuff.f', a=0)
        self.model['stuff.f'].update({'a': 0}, True)

    def ops(self):
        out = []
        for op in self.alphabet:
            if op[0] == 'next' and op[1] not in self.gens:
                continue
            if op[0] == 'gen' and op[1] in self.gens:
                continue
            out.append(op)
        return out

    def state(self):
        return [super().state(), {k: v[3] for k, v in self.gens.items()}]


def flatten(result):
    if isinstance(result, list):
        return [x for r in result for x in flatten(r)]
    return [result]


class Sections(core.System):
    """Product runs with updates of sections"""
    depth = 1

    def __init__(self, name, alphabet, depth, note=''):
        self.name = name
        self.alphabet = alphabet
        self.depth = depth
        self.note = note

    def setup(self):
        world.reset_pyfileconf()
        self.pm = build(self.dir)
        self.model = {p: Item(ITEMS2[p][1]) for p in ITEMS2}

    def ops(self):
        return self.alphabet

    def set(self, sp, values):
        for path, item in self.model.items():
            if path == sp or path.startswith(sp + '.'):
                item.update(values, True)

    def results(self, what):
        # In the order in which the items are declared
        out = []
        for w in what:
            found = [expected_result(ITEMS2[p][0], i.effective()) for p, i in self.model.items()
                     if p == w or p.startswith(w + '.')]
            out.append(found[0] if w in self.model else [found] if w == 'deep' else found)
        return out[0] if len(out) == 1 else out

    def apply(self, op):
        what, updates, lazily = op
        groups = {}
        for u in updates:
            groups.setdefault(u['section_path_str'], []).append(u)
        for item in self.model.values():
            item.touch()
        want = []
        for case in itertools.product(*groups.values()):
            for conf in case:
                self.set(conf['section_path_str'], {k: v for k, v in conf.items() if k != 'section_path_str'})
            want.append((case, self.results(what)))
        given = [dict(u) for u in updates]
        if lazily:
            got = list(self.pm.run_product_gen(list(what), given))
        else:
            got = self.pm.run_product(list(what), given)
        require_eq(got, want, f'results of {op}')
        require_eq(given, updates, 'updates passed to the run')

    def check(self):
        for path, item in self.model.items():
            require_eq(self.pm.run(path), expected_result(ITEMS2[path][0], item.effective()), f'result of running {path}')

    def state(self):
        return {p: i.state() for p, i in self.model.items()}


def section_products(deep):
    def updates(sp, keys, values):
        return [{'section_path_str': sp, **dict(zip(keys, v))} for v in values]

    groups = [
        [updates('stuff', 'a', [(1,), (2,)]), updates('stuff', 'ab', [(1, 5), (1, 6)]), updates('stuff', 'ac', [(4, 7), (3, 3)]),
         updates('stuff', 'c', [(None,)])],
        [updates('deep', 'a', [(1,), (2,)]), updates('deep.er', 's', [(1,), (2,)]), updates('deep', 'as', [(8, 9)])],
        [updates('kl.K', 'a', [(1,), (2,)]), updates('kl', 'b', [(7,), (8,)]), updates('kl', 'a', [(None,), (3,)])],
    ]
    out = []
    whats = [['stuff', 'deep', 'kl.K'], ['deep.er'], ['kl', 'stuff.g']]
    for n in (1, 2, 3):
        for chosen in itertools.combinations(groups, n):
            for lists in itertools.product(*chosen):
                for order in (lists, lists[::-1]) if n > 1 else (lists,):
                    for what in whats if deep else [whats[len(out) % 3]]:
                        out.append([what, [u for l in order for u in l], len(out) % 2 == 1])
    return out


class TwoManagers(core.System):
    """Iterative runs across managers, with full section paths"""
    mutates_fs = False
    depth = 2

    def __init__(self, name, alphabet, depth, note=''):
        self.name = name
        self.alphabet = alphabet
        self.depth = depth
        self.note = note

    def setup(self):
        world.reset_pyfileconf()
        self.pms = {n: build(self.dir, n) for n in ('m', 'n')}
        self.model = {f'{n}.{p}': Item(ITEMS[p][1]) for n in self.pms for p in ITEMS}

    def ops(self):
        return self.alphabet

    def apply(self, op):
        what, updates, gen = op
        run = Run(self, updates)
        want = []
        for case in run.cases:
            run.apply(case)
            results = [expected_result(ITEMS[w.split('.', 1)[1]][0], self.cur(w)) for w in what]
            want.append((case, results[0] if len(results) == 1 else results))
        runner = IterativeRunner(list(what), [dict(u) for u in updates])
        got = list(runner.run_gen()) if gen else runner.run()
        require_eq(got, want, f'results of {op}')

    def cur(self, w):
        self.model[w].touch()
        return self.model[w].effective()

    def check(self):
        for path, item in self.model.items():
            n, rel = path.split('.', 1)
            require_eq(self.pms[n].run(rel), expected_result(ITEMS[rel][0], self.cur(path)), f'result of running {path}')

    def state(self):
        return {p: i.state() for p, i in self.model.items()}


def systems(tier):
    deep = tier == 'thorough'
    items = ['stuff.f', 'stuff.g', 'kl.K', 'cls.sec.one']
    whats = ['stuff.f', '@cls.sec.one', 'stuff', ['stuff.f', 'cls.sec'], ['@kl.K'], ['kl.K', 'kl.K', '@stuff.f']]
    lists = [list(c) for r in (1, 2, 3) for c in itertools.product(UPDATES, repeat=r)]
    if not deep:
        lists = [l for l in lists if len(l) < 3] + [list(c) for c in itertools.product(UPDATES[:5], repeat=3)]
    out = []
    alphabet = [['product', whats[i % len(whats)], l] for i, l in enumerate(lists)]
    if deep:
        alphabet = [['product', w, l] for w in whats for l in lists]
    out.append(ProductSystem('all update lists', items, alphabet, 1, 1, 'every list of up to 3 updates'))
    pre = [['upd', 'stuff.f', {'a': 9}, False, 'kw'], ['upd', 'stuff.f', {'b': 8}, True, 'kw'], ['reset', 'stuff.f'],
           ['refresh', 'stuff.f'], ['upd', 'kl.K', {'a': 9}, False, 'd']]
    u = UPDATES
    forms = [
        ['product', ['stuff.f', '@kl.K'], [u[0], u[1], u[4]]],
        ['product-discard', 'stuff', [u[0], u[2]]],
        ['gen-all', 'stuff.f', [u[0], u[4], u[1]]],
        ['runner', ['stuff.f'], [u[1], u[0]]],
        ['runner-twice', ['stuff.f', 'kl.K'], [u[2], u[5]]],
        ['runner-skip', 'stuff.f', [u[0], u[1], u[2]]],
        ['hooked', 'stuff.f', [u[0], u[1]], [[[u[2]]], 'reverse']],
        ['hooked', 'stuff.f', [u[0], u[1]], [[[u[2]], [u[0]]], 'drop']],
        ['hooked', 'kl.K', [u[4], u[5]], [None, 'reverse']],
        ['hooked', ['kl.K', 'stuff.f'], [u[4], u[5]], [[[u[0]], [u[1], u[4]]], 'reverse']],
        ['hooked', 'stuff.f', [u[0], u[1]], [None, 'clear']],
        ['gen-skip', 'stuff.f', [u[0], u[1], u[2]]],
        ['product', ['stuff.f', 'kl.K'], []],
        ['product', [], [u[0], u[1]]],
    ]
    failing = [
        ['failing', 'stuff.f', [u[0], u[2], u[1]], 2, False],
        ['failing', ['kl.K', '@stuff.f'], [u[1], u[0], u[4]], 1, False],
        ['failing', ['stuff.f', '@kl.K'], [u[0], u[5], u[4]], 4, True],
        ['failing', 'stuff', [u[0], u[1]], 5, True],
        ['mutating', [{'section_path_str': 'stuff.f', 'a': []}, {'section_path_str': 'stuff.f', 'a': [1]}]],
        ['mutating', [{'section_path_str': 'stuff.f', 'a': {'x': 1}}, {'section_path_str': 'stuff.f', 'a': {}}]],
    ]
    out.append(ProductSystem('failing cases', items, pre + forms[:1] + forms[4:6] + failing, 3 if deep else 2, 1,
                             'product runs in which an item raises, or changes its arguments, between others'))
    out.append(Sections('updates of sections', section_products(deep), 1, 'product runs with updates of sections'))
    out.append(ProductSystem('runs between changes', items, pre + forms, 3 if deep else 2, 1,
                             'all forms of iterative run between changes of configuration'))
    gens = [
        ['gen', 'p', ['stuff.f', 'kl.K'], [u[0], u[2], u[4]]],
        ['gen', 'q', 'stuff.f', [u[1], u[0]]],
        ['next', 'p'], ['next', 'q'],
        ['upd', 'stuff.f', {'a': 9}, True, 'kw'],
        ['upd', 'kl.K', {'b': 9}, False, 'kw'],
        ['reset', 'stuff.f'],
    ]
    out.append(ProductSystem('interleaved generators', ['stuff.f', 'kl.K'], gens, 6 if deep else 5, 2,
                             'all interleavings of two generators and changes of configuration'))
    both = []
    for what in (['m.stuff.f'], ['m.stuff.f', 'n.stuff.f'], ['n.cls.sec.one', 'm.kl.K']):
        for updates in itertools.product(
            [{'section_path_str': 'm.stuff.f', 'a': 1}, {'section_path_str': 'n.stuff.f', 'a': 2},
             {'section_path_str': 'n.cls.sec.one', 'b': 3}, {'section_path_str': 'm.stuff.f', 'b': 4}], repeat=2
        ):
            both.append([what, list(updates), len(both) % 2 == 1])
    out.append(TwoManagers('two managers', both, 2, 'iterative runs across managers, one after the other'))
    return out


def _section_keys_left():
    """What one combination sets on a section is left in place for the next one, which does not set it"""
    import tempfile
    import shutil
    d = tempfile.mkdtemp(dir=core.scratch_base())
    try:
        world.reset_pyfileconf()
        pm = build(d)
        got = pm.run_product('stuff', [{'section_path_str': 'stuff', 'a': 1}, {'section_path_str': 'stuff', 'b': 2}])
        if got[1][1] != [('f', None, 2), ('g', None, 3)]:
            return f'the second combination gave {got[1][1]}'
    finally:
        shutil.rmtree(d)


KNOWN = {'section-keys-left': _section_keys_left}
