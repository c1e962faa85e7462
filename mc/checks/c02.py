"""Looking at a project never changes what happens later"""
import copy
import os

import core
import world
from core import require, require_eq
from hist import ConfigSystem
from world import rec

LEVEL = 'model_checking'
KNOWN = {}


def must_raise(func, *args):
    exc = world.raises(func, *args)
    require(exc is not None, '%s%r was expected to fail', getattr(func, '__name__', func), args)
    require(isinstance(exc, Exception), 'looking up failed with %r', exc)


def _attr(obj, path):
    for part in path.split('.'):
        obj = getattr(obj, part)
    return obj


OBS = {
    'get-section': lambda s: s.pm.get('stuff'),
    'get-nested': lambda s: s.pm.get('deep'),
    'attr-item': lambda s: _attr(s.pm, 'stuff.f'),
    'attr-section-only': lambda s: _attr(s.pm, 'deep.er'),
    'attr-specific': lambda s: _attr(s.pm, 'cls.sec.one'),
    'attr-typo': lambda s: must_raise(_attr, s.pm, 'stuff.nope'),
    'attr-typo-deep': lambda s: must_raise(_attr, s.pm, 'deep.er.nope'),
    'attr-typo-top': lambda s: must_raise(_attr, s.pm, 'nope'),
    'get-typo': lambda s: must_raise(s.pm.get, 'stuff.nope'),
    'run-typo': lambda s: must_raise(s.pm.run, 'deep.nope'),
    'run-partial-typo': lambda s: must_raise(s.pm.run, ['stuff.g', 'stuff.nope']),
    'run-raises': lambda s: must_raise(s.pm.run, 'bad.boom'),
    'update-typo': lambda s: must_raise(lambda: s.pm.update(a=1, section_path_str='stuff.nope')),
    'refresh-typo': lambda s: must_raise(s.pm.refresh, 'stuff.nope'),
    'reset-typo': lambda s: must_raise(s.pm.reset, 'stuff.nope'),
    'view': lambda s: _attr(world.Selector(), 'm.stuff.f'),
    'view-item': lambda s: s.iv('kl.K').item,
    'view-type': lambda s: [s.iv(i).type for i in ('stuff.f', 'kl.K', 'cls.sec.one')],
    'view-eq-hash-repr': lambda s: (
        s.iv('stuff.f') == s.iv('stuff.g'), hash(s.iv('stuff.f')), repr(s.iv('cls.sec.one')),
        isinstance(s.iv('kl.K'), int), world.is_item_view(s.iv('kl.K'))),
    'view-dir': lambda s: (dir(s.iv('deep.er')), dir(s.iv('stuff.f')), dir(world.Selector()), dir(s.pm)),
    'view-typo': lambda s: must_raise(_attr, world.Selector(), 'm.stuff.nope.a'),
    'view-attr': lambda s: (s.iv('cls.sec.one').a, s.iv('kl.K').b),
    'view-copy': lambda s: copy.deepcopy(s.iv('kl.K')),
    'contains': lambda s: ('m.stuff.f' in s.sel, 'm.stuff.nope' in s.sel, 'm.stuff' in s.sel, 'm.cls' in s.sel,
                           'm.cls.sec.one' in s.sel, 'm.cls.sec.one.a' in s.sel),
    'config-get': lambda s: s.pm.config.get('stuff.f'),
    'run-all': lambda s: s.pm.run(['stuff', 'deep', 'kl', 'cls', 'upd']),
}


class ObsSystem(ConfigSystem):
    def __init__(self, name, obs, mutations, items, depth, split=1, note='', alternate=False):
        alphabet = [['obs', o] for o in obs] + mutations
        super().__init__(name, items, alphabet, depth, split, note)
        self.alternate = alternate

    def ops(self):
        out = super().ops()
        if self.alternate and self.last is not None:
            out = [o for o in out if (o[0] == 'obs') != (self.last == 'obs')]
        return out

    def setup(self):
        super().setup()
        self.last = None
        self.context0 = self.context_state()

    def context_state(self):
        ctx = world.context
        return [
            sorted((k, sorted(sp.path_str for sp in v)) for k, v in ctx.config_dependencies.items() if v),
            len(ctx.stack.frames), ctx.currently_running_section_path_str, sorted(ctx.active_managers),
        ]

    def apply(self, op):
        self.last = op[0]
        if op[0] == 'obs':
            OBS[op[1]](self)
        else:
            super().apply(op)

    def check(self):
        require_eq(self.context_state(), self.context0, 'global context')
        # Lookups by attribute, by path and by selector all still find the items
        for item in self.item_paths:
            by_attr = _attr(self.pm, item)
            require(by_attr is self.pm.get(item), 'attribute lookup of %s found %r', item, by_attr)
            require(by_attr is self.iv(item).item, 'item view of %s found %r', item, self.iv(item).item)
        super().check()

    def nontrivial(self, ops):
        return any(o[0] == 'obs' for o in ops)


def systems(tier):
    deep = tier == 'thorough'
    items = ['stuff.f', 'kl.K', 'cls.sec.one', 'deep.er.h', 'upd.sec.one']
    muts = [
        ['upd', 'stuff.f', {'a': 1}, True, 'kw'],
        ['upd', 'cls.sec.one', {'a': 2}, False, 'kw'],
        ['reset', 'stuff.f'],
        ['reload'],
    ]
    muts2 = [
        ['upd', 'kl.K', {'a': 1}, True, 'iv'],
        ['upd', 'deep.er.h', {'a': 2}, False, 'd'],
        ['refresh', 'deep.er.h'],
        ['edit-reload', 'kl.K', {'b': 7}],
        ['reset', 'kl.K'],
    ]
    out = [
        ObsSystem('all-observations', list(OBS), muts + muts2, items, 3 if deep else 2, 1,
                  'every sequence over 26 observations and 9 changes'),
        ObsSystem('lookups', ['attr-section-only', 'attr-typo', 'attr-typo-deep', 'view-typo', 'get-typo', 'attr-item',
                              'run-raises', 'run-typo', 'update-typo'],
                  muts[:3], items, 4 if deep else 3, 1, 'abandoned and failed lookups between changes'),
        ObsSystem('observe-between-changes', ['run-all', 'get-section', 'view-attr', 'config-get', 'view-copy', 'reset-typo'],
                  muts2, items, 4 if deep else 3, 1, 'observations between changes of items'),
        ObsSystem('alternate', list(OBS), muts + muts2, items, 4 if deep else 3, 1,
                  'observations and changes in turns', alternate=True),
    ]
    return out
