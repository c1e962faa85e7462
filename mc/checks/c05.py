"""Hooks see each configuration change exactly once"""
import os

import core
import world
from core import require, require_eq
from hist import build, ConfigSystem, ITEMS, Item
import pyfileconf

LEVEL = 'model_checking'
KNOWN = {}


class Recorder:
    def __init__(self, system):
        self.system = system
        self.events = []
        self.inject = {}
        self.inplace = False
        self.extra_batch = None

    @pyfileconf.hookimpl
    def pyfileconf_pre_update(self, pm, d_, section_path_str, kwargs):
        self.events.append(['pre_update', pm.name, section_path_str, {**(d_ or {}), **kwargs}])
        extra = self.inject.get(section_path_str)
        if extra and self.inplace:
            (kwargs if d_ is None else d_).update(extra)
        elif extra:
            return dict(extra)

    @pyfileconf.hookimpl
    def pyfileconf_post_update(self, pm, d_, section_path_str, kwargs):
        self.events.append(['post_update', pm.name, section_path_str, {**(d_ or {}), **kwargs}])

    @pyfileconf.hookimpl
    def pyfileconf_pre_update_batch(self, pm, updates):
        self.events.append(['pre_batch', [dict(u) for u in updates]])
        return self.extra_batch or []

    @pyfileconf.hookimpl
    def pyfileconf_post_update_batch(self, pm, updates):
        self.events.append(['post_batch', [dict(u) for u in updates]])

    @pyfileconf.hookimpl
    def pyfileconf_pre_config_changed(self, manager, orig_config, updates, section_path_str):
        self.events.append(['pre_change', section_path_str, self.known(dict(orig_config), section_path_str),
                            self.known(dict(updates), section_path_str)])

    @pyfileconf.hookimpl
    def pyfileconf_post_config_changed(self, manager, new_config, updates, section_path_str):
        self.events.append(['post_change', section_path_str, self.known(dict(new_config), section_path_str),
                            self.known(dict(updates), section_path_str)])

    def known(self, d, sp):
        # Only what the file of the item assigns, other variables such as s = Selector() are not configuration
        return {k: v for k, v in d.items() if k in ITEMS.get(sp, (None, d))[1] or k == 'zzz'}


class HookSystem(ConfigSystem):
    def setup(self):
        super().setup()
        self.rec = Recorder(self)
        import pyfileconf.plugin.manager as plm_mod
        plm_mod.plm.register(self.rec)

    def expect_change(self, item, updates, apply):
        """Events for one potential change"""
        it = self.model[item]
        it.touch()
        before = it.effective()
        apply(it)
        after = it.effective()
        if before == after:
            return []
        known = {k: v for k, v in updates(it).items()}
        return [['pre_change', item, before, known], ['post_change', item, after, known]]

    def apply(self, op):
        kind = op[0]
        self.rec.events = []
        self.rec.inject = {}
        self.rec.inplace = False
        self.rec.extra_batch = None
        pm = self.pm
        expected = []
        if kind in ('upd', 'inject'):
            if kind == 'inject':
                _, item, updates, extra, form, self.rec.inplace = op
                persist = True
                self.rec.inject = {item: extra}
            else:
                _, item, updates, persist, form = op
                extra = {}
            full = {**updates, **extra}
            change = self.expect_change(item, lambda it: full, lambda it: it.update(full, persist))
            if form in ('batch', 'xbatch'):
                prefix = 'm.' if form == 'xbatch' else ''
                given = [dict(section_path_str=prefix + item, pyfileconf_persist=persist, **updates)]
                expected = [['pre_batch', given]] + change + [['post_batch', given]]
            else:
                expected = [['pre_update', 'm', item, updates]] + change + [['post_update', 'm', item, full]]
            if form == 'kw':
                pm.update(section_path_str=item, pyfileconf_persist=persist, **updates)
            elif form == 'd':
                given = dict(updates)
                pm.update(given, section_path_str=item, pyfileconf_persist=persist)
                require_eq(given, updates, f'dictionary which was passed to update {item}')
            elif form == 'mixed':
                first, *others = updates.items()
                given = dict([first])
                pm.update(given, item, persist, **dict(others))
                require_eq(given, dict([first]), f'dictionary which was passed to update {item}')
            elif form == 'iv':
                setattr(self.iv(item), *list(updates.items())[0])
            elif form == 'batch':
                pm.update_batch(given)
            elif form == 'xbatch':
                world.BatchUpdater().update(given)
        elif kind == 'shared':
            # One dictionary of updates for two items, hooks add to the updates of the first one
            _, item, other, updates, extra = op
            self.rec.inject = {item: extra}
            given = dict(updates)
            for path, full in ((item, {**updates, **extra}), (other, updates)):
                change = self.expect_change(path, lambda it: full, lambda it: it.update(full, True))
                expected += [['pre_update', 'm', path, updates]] + change + [['post_update', 'm', path, full]]
                pm.update(given, section_path_str=path)
        elif kind == 'extra-batch':
            given = [dict(section_path_str=op[1], **op[2])]
            extra = [dict(section_path_str=op[3], **op[4])]
            self.rec.extra_batch = extra
            changes = {}
            # Whether updates added by hooks are applied before or after is not specified: they are for other items
            for item, u in ((op[1], op[2]), (op[3], op[4])):
                changes[item] = self.expect_change(item, lambda it, u=u: u, lambda it, u=u: it.update(u, True))
            pm.update_batch(given)
            got = self.rec.events
            require_eq(got[0], ['pre_batch', given], 'first event of a batch')
            require_eq(got[-1], ['post_batch', given], 'last event of a batch')
            for item in changes:
                require_eq([e for e in got[1:-1] if e[1] == item], changes[item], f'changes of {item} in a batch')
            require_eq(len(got), 2 + sum(map(len, changes.values())), 'number of events of a batch')
            return
        elif kind == 'reset':
            expected = self.expect_change(op[1], lambda it: dict(it.file), lambda it: it.reset())
            pm.reset(op[1], **({'allow_create': True} if len(op) == 3 else {}))
        elif kind == 'refresh':
            expected = self.expect_change(op[1], lambda it: it.effective(), lambda it: it.refresh())
            pm.refresh(op[1])
        else:
            super().apply(op)
        require_eq(self.rec.events, expected, f'hook calls of {op}')


class SectionHooks(core.System):
    """Hooks which see changes of sections"""

    def __init__(self, name, depth, split, note):
        self.name, self.depth, self.split, self.note = name, depth, split, note

    def setup(self):
        world.reset_pyfileconf()
        self.pm = build(self.dir)
        # Of each section: what is in the file, persistent updates, current
        self.sections = {s: [{}, {}, {}] for s in ('stuff', 'deep', 'deep.er')}
        self.b = {'stuff.f': (1, 1), 'deep.er.h': (0, 0)}
        for path in ('stuff.f', 'stuff.g', 'deep.er.h'):
            self.pm.get(path)
        self.rec = Recorder(self)
        import pyfileconf.plugin.manager as plm_mod
        plm_mod.plm.register(self.rec)

    def ops(self):
        out = []
        for s in ('stuff', 'deep.er'):
            out += [
                ['upd', s, {'a': 1}, True, 'kw'], ['upd', s, {'a': 1}, False, 'd'], ['upd', s, {'c': 5}, True, 'batch'],
                ['reset', s], ['refresh', s], ['edit', s, {'a': 7}],
            ]
        return out + [
            ['upd', 'deep', {'a': 2}, True, 'kw'], ['reset', 'deep'], ['reset', 'cls.sec'], ['reset', 'stuff', 'allow_create'],
            ['item', 'stuff.f', 'b'], ['item', 'deep.er.h', 's'],
        ]

    def change(self, s, updates, now):
        before, self.sections[s][2] = self.sections[s][2], now
        if before == now:
            return []
        return [['pre_change', s, before, updates], ['post_change', s, dict(now), updates]]

    def apply(self, op):
        kind, path, *args = op
        pm = self.pm
        self.rec.events = events = []
        if kind == 'upd':
            updates, persist, form = args
            file, persisted, cur = self.sections[path]
            if persist:
                persisted.update(updates)
            expected = self.change(path, updates, {**cur, **updates})
            given = [dict(section_path_str=path, pyfileconf_persist=persist, **updates)]
            if form == 'batch':
                pm.update_batch(given)
                expected = [['pre_batch', given]] + expected + [['post_batch', given]]
            else:
                if form == 'kw':
                    pm.update(section_path_str=path, pyfileconf_persist=persist, **updates)
                else:
                    pm.update(dict(updates), path, persist)
                expected = [['pre_update', 'm', path, updates]] + expected + [['post_update', 'm', path, updates]]
            require_eq(events, expected, f'hook calls of {op}')
        elif kind == 'refresh':
            file, persisted, cur = self.sections[path]
            pm.refresh(path)
            now = {**file, **persisted}
            got = [e[:3] for e in events]
            require_eq(got, [e[:3] for e in self.change(path, {}, now)], f'hook calls of {op}')
        elif kind == 'reset':
            under = [s for s in self.sections if s == path or s.startswith(path + '.')]
            items = {p: v for p, v in self.b.items() if p.startswith(path + '.')}
            expected = []
            for s in under:
                self.sections[s][1] = {}
                expected += self.change(s, dict(self.sections[s][0]), dict(self.sections[s][0]))
            pm.reset(path, **({'allow_create': True} if args else {}))
            require_eq([e for e in events if e[1] in self.sections], expected, f'hook calls of {op} for sections')
            for p, (file, now) in items.items():
                own = [e[0] for e in events if e[1] == p]
                require(own in ([], ['pre_change', 'post_change']), 'hook calls of %s for %s: %s', op, p, own)
                require(own or file == now, 'hooks were not called for %s by %s', p, op)
                self.b[p] = (file, file)
            others = [e for e in events if e[1] not in self.sections and not e[1].startswith(path + '.')]
            require_eq(others, [], f'hook calls of {op} for others')
        elif kind == 'edit':
            world.write(os.path.join(pm.folder, 'defaults', *path.split('.'), 'section.py'), 'a = 7\n')
            self.sections[path][0] = dict(args[0])
        elif kind == 'item':
            file, now = self.b[path]
            pm.update(section_path_str=path, **{args[0]: 99})
            want = ['pre_update'] + ['pre_change', 'post_change'] * (now != 99) + ['post_update']
            require_eq([e[0] for e in events], want, f'hook calls of {op}')
            self.b[path] = (file, 99)

    def check(self):
        pass

    def state(self):
        return [self.sections, self.b]


def systems(tier):
    deep = tier == 'thorough'
    out = []
    for item, other in [('stuff.f', 'stuff.g'), ('kl.K', 'upd.sec.one'), ('cls.sec.one', 'kl.K')]:
        alphabet = [
            ['upd', item, {'a': 1}, True, 'kw'],
            ['upd', item, {'a': 1}, False, 'd'],
            ['upd', item, {'a': 2, 'b': 1}, True, 'mixed'],
            ['upd', item, {'a': None}, True, 'iv'],
            ['upd', item, {'b': 5}, True, 'batch'],
            ['upd', item, {'a': 1, 'b': 5}, False, 'xbatch'],
            ['inject', item, {'a': 1}, {'b': 8}, 'kw', False],
            ['inject', item, {'a': 1}, {'b': 7}, 'd', True],
            ['shared', item, other, {'a': 4}, {'b': 6}],
            ['extra-batch', item, {'a': 1}, other, {'a': 2}],
            ['reset', item],
            ['reset', item, 'allow_create'],
            ['refresh', item],
            ['run', item],
            ['edit', item, {'a': 7}],
        ]
        out.append(HookSystem(f'hooks:{item}', [item, other], alphabet, 4 if deep else 3, 2 if deep else 1,
                              'all sequences of 15 operations with a recording plugin'))
    out.append(SectionHooks('hooks of sections', 4 if deep else 3, 2 if deep else 1, 'all sequences of operations on sections and items in them'))
    return out
