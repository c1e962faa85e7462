"""The plugins which are registered at the time decide what happens"""
import os

import core
import world
from core import System, require, require_eq
import pyfileconf
from pyfileconf import IterativeRunner, remove_default_plugins, reset_plugins
import pyfileconf.plugin.manager as plugin_manager

LEVEL = 'model_checking'
KNOWN = {}


class Plugin:
    def __init__(self, name):
        self.name = name
        self.events = []
        self.cases = []

    @pyfileconf.hookimpl
    def pyfileconf_iter_get_cases(self, config_updates, runner):
        self.events.append(['cases'])
        return [tuple(dict(d) for d in case) for case in self.cases]

    @pyfileconf.hookimpl
    def pyfileconf_iter_modify_cases(self, cases, runner):
        self.events.append(['modify', len(cases)])

    @pyfileconf.hookimpl
    def pyfileconf_iter_update_for_case(self, case, runner):
        self.events.append(['case'])

    @pyfileconf.hookimpl
    def pyfileconf_pre_run(self, section_path_str_or_list, pm):
        self.events.append(['pre_run', pm.name])

    @pyfileconf.hookimpl
    def pyfileconf_post_run(self, results, runner):
        self.events.append(['post_run'])

    @pyfileconf.hookimpl
    def pyfileconf_pre_update(self, pm, d_, section_path_str, kwargs):
        self.events.append(['pre_update', section_path_str])

    @pyfileconf.hookimpl
    def pyfileconf_post_update(self, pm, d_, section_path_str, kwargs):
        self.events.append(['post_update', section_path_str])

    @pyfileconf.hookimpl
    def pyfileconf_pre_update_batch(self, pm, updates):
        self.events.append(['pre_batch'])
        return []

    @pyfileconf.hookimpl
    def pyfileconf_post_update_batch(self, pm, updates):
        self.events.append(['post_batch'])

    @pyfileconf.hookimpl
    def pyfileconf_pre_config_changed(self, manager, orig_config, updates, section_path_str):
        self.events.append(['pre_change', section_path_str])

    @pyfileconf.hookimpl
    def pyfileconf_post_config_changed(self, manager, new_config, updates, section_path_str):
        self.events.append(['post_change', section_path_str])


class Module:
    """Plugins may implement just some of the hooks"""

    def __init__(self, events):
        self.events = events

    @pyfileconf.hookimpl
    def pyfileconf_post_run(self, results, runner):
        self.events.append(['post_run'])
        return 'added'

    @pyfileconf.hookimpl
    def pyfileconf_post_update_batch(self, updates):
        self.events.append(['post_batch'])

    @pyfileconf.hookimpl
    def pyfileconf_iter_modify_cases(self, cases):
        self.events.append(['modify', len(cases)])

    @pyfileconf.hookimpl
    def pyfileconf_pre_config_changed(self, section_path_str):
        self.events.append(['pre_change', section_path_str])


class Plugins(System):
    def __init__(self, name, depth, split, note):
        self.name, self.depth, self.split, self.note = name, depth, split, note

    def setup(self):
        world.reset_pyfileconf()
        world.fxm(self.dir)
        self.root = os.path.join(self.dir, 'm')
        self.pm = world.manager(
            self.root, name='m', pipeline_dict='from fxm import f, g\n\npipeline_dict = {"stuff": [f, g]}\n')
        world.write(os.path.join(self.root, 'defaults', 'stuff', 'g.py'),
                    'from pyfileconf import Selector\n\ns = Selector()\na = s.m.stuff.f()[1:]\nc = 3\n')
        self.pm.reload()
        self.f = {'a': None, 'b': 1}
        self.g = (None, 1)
        self.pm.get('stuff.f')
        self.pm.get('stuff.g')
        self.plugins = {'p': Plugin('p'), 'q': Plugin('q')}
        self.plugins['q'].cases = [({'section_path_str': 'stuff.f', 'b': 5},)]
        self.plugins['part'] = Module([])
        self.registered = []
        self.default = True
        self.runner = None
        self.cases = None

    def ops(self):
        out = [['unregister' if p in self.registered else 'register', p] for p in self.plugins]
        out += [['reset'], ['update', 'a', 7], ['update', 'a', 8], ['batch', 9], ['product'], ['runner'], ['run']]
        if self.default:
            out.append(['remove'])
        if self.runner is not None:
            out.append(['run-runner'])
        return out

    def changed(self, **values):
        """Events of changes of f"""
        if all(self.f[k] == v for k, v in values.items()):
            return []
        self.f.update(values)
        out = [['pre_change', 'stuff.f'], ['post_change', 'stuff.f']]
        now = (self.f['a'], self.f['b'])
        if self.default and self.g != now:
            self.g = now
            out += [['pre_change', 'stuff.g'], ['post_change', 'stuff.g']]
        return out

    def result(self, result):
        return [result, 'added'] if 'part' in self.registered else result

    def apply(self, op):
        kind, *args = op
        for p in self.plugins.values():
            del p.events[:]
        expected = []
        if kind == 'register':
            plugin_manager.plm.register(self.plugins[args[0]])
            self.registered.append(args[0])
        elif kind == 'unregister':
            plugin_manager.plm.unregister(self.plugins[args[0]])
            self.registered.remove(args[0])
        elif kind == 'reset':
            reset_plugins()
            self.registered = []
            self.default = True
        elif kind == 'remove':
            remove_default_plugins()
            self.default = False
        elif kind == 'update':
            key, value = args
            self.pm.update(section_path_str='stuff.f', **{key: value})
            expected = [['pre_update', 'stuff.f'], *self.changed(**{key: value}), ['post_update', 'stuff.f']]
        elif kind == 'batch':
            self.pm.update_batch([dict(section_path_str='stuff.f', b=args[0])])
            expected = [['pre_batch'], *(self.changed(b=args[0]) if self.default else []), ['post_batch']]
        elif kind in ('product', 'runner'):
            updates = [dict(section_path_str='stuff.f', b=b) for b in (3, 4)]
            expected = [['cases']]
            cases = [3, 4] if self.default else []
            if 'q' in self.registered:
                cases.append(5)
            expected.append(['modify', len(cases)])
            defaults = dict(self.f)
            if kind == 'product':
                results = self.pm.run_product('stuff.f', updates)
                expected += self.ran(results, cases, defaults)
            else:
                self.runner = IterativeRunner('stuff.f', updates, base_section_path_str='m', strip_manager_from_iv=True)
                self.cases = cases, defaults
        elif kind == 'run-runner':
            expected = self.ran(self.runner.run(), *self.cases)
        elif kind == 'run':
            require_eq(self.pm.run('stuff.f'), self.result(('f', self.f['a'], self.f['b'])), 'result of stuff.f')
            expected = [['pre_run', 'm'], ['post_run']]
        else:
            raise core.HarnessError(kind)
        for name, p in self.plugins.items():
            if name == 'part':
                want = [e for e in expected if e[0] in ('post_run', 'post_batch', 'modify', 'pre_change')]
            else:
                want = expected
            require_eq(p.events, want if name in self.registered else [], f'hooks of plugin {name} called by {op}')

    def ran(self, results, cases, defaults):
        got = [case[0]['b'] for case, _ in results]
        # The order of the cases of several plugins is not specified
        require_eq(sorted(got), sorted(cases), 'cases which were run')
        expected = []
        for case, result in results:
            b = case[0]['b']
            expected.append(['case'])
            if self.default:
                expected += [['pre_batch'], *self.changed(**{**defaults, 'b': b}), ['post_batch']]
            expected += [['pre_run', 'm'], ['post_run']]
            require_eq(result, self.result(('f', self.f['a'], self.f['b'])), f'result of case with b={b}')
        return expected

    def check(self):
        for path, name, values in (('stuff.f', 'f', self.f), ('stuff.g', 'g', {'a': self.g, 'c': 3})):
            require_eq(dict(self.pm.get(path).keywords), values, f'configuration of {path}')

    def state(self):
        return [self.registered, self.default, self.f, self.g, self.cases]


def systems(tier):
    deep = tier == 'thorough'
    return [Plugins('plugins', 5 if deep else 4, 2 if deep else 1, 'all sequences of registering plugins and operations')]
