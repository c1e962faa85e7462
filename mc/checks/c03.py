"""Each item is one live object, configured in place, until the project is reloaded"""
import core
import world
from core import require, require_eq
from hist import ConfigSystem, ITEMS, single_item_alphabet, expected_result
from world import rec

LEVEL = 'model_checking'
KNOWN = {}

ACCESS = {
    'get': lambda s, i: s.pm.get(i),
    'get-view': lambda s, i: s.pm.get(s.iv(i)),
    'attr': lambda s, i: _attr(s.pm, i),
    'view-item': lambda s, i: s.iv(i).item,
    'section': lambda s, i: _from_section(s, i),
}


def _attr(obj, path):
    for part in path.split('.'):
        obj = getattr(obj, part)
    return obj


def _from_section(s, item):
    section, name = item.rsplit('.', 1)
    found = s.pm.get(section)
    names = {'stuff': ['f', 'g'], 'kl': ['K'], 'deep.er': ['h'], 'cls.sec': ['one', 'two'], 'upd.sec': ['one']}[section]
    require(isinstance(found, list) and len(found) == len(names), 'section %s gave %r', section, found)
    return found[names.index(name)]


class IdentitySystem(ConfigSystem):
    def __init__(self, name, items, alphabet, depth, split=1, note='', odd=None):
        super().__init__(name, items, alphabet, depth, split, note)
        self.odd = odd

    def setup(self):
        super().setup()
        self.base_inits = len(rec.INITS)
        self.held = {}

    def on_reload(self):
        self.held = {}

    def apply(self, op):
        if op[0] == 'access':
            obj = ACCESS[op[1]](self, op[2])
            self.model[op[2]].touch()
            if not (op[1] == 'section' and ITEMS[op[2]][0] == 'K'):
                # What represents a class item in a section is not specified. It must not change the item itself
                self.see(op[2], obj, op[1])
        elif op[0] == 'access-section':
            for name in ('one', 'two'):
                item = f'{op[1]}.{name}'
                if item in self.model:
                    self.model[item].touch()
            _from_section(self, op[1] + '.one')
        else:
            super().apply(op)
        # Every reference which was handed out shows the current configuration
        for item, obj in self.held.items():
            want = self.model[item].effective()
            got = dict(obj.keywords) if ITEMS[item][0] in 'fgh' else {k: getattr(obj, k) for k in want}
            require_eq(got, want, f'configuration seen through a reference to {item} obtained before {op}')

    def note_object(self, item, obj, how):
        self.see(item, obj, how)

    def see(self, item, obj, how):
        if item in self.held:
            require(self.held[item] is obj, 'object for %s from %s is not the one obtained before', item, how)
        else:
            self.held[item] = obj
        kind = ITEMS[item][0]
        if kind in 'fgh':
            require(obj.func.__name__ == kind, 'function of %s is %r', item, obj.func)
        else:
            require(type(obj).__name__ == kind, 'type of %s is %r', item, type(obj))

    def check(self):
        for item in self.item_paths:
            self.model[item].touch()
            for how, func in ACCESS.items():
                obj = func(self, item)
                if not (how == 'section' and ITEMS[item][0] == 'K'):
                    self.see(item, obj, how)
            obj = self.held[item]
            want = expected_result(ITEMS[item][0], self.model[item].effective())
            # Calling the object itself, running it and calling the view are the same thing
            kind = ITEMS[item][0]
            direct = obj.go() if kind == 'U' else obj()
            require_eq(direct, want, f'calling the object for {item}')
            require_eq(self.pm.run(item), want, f'running {item}')
            view_call = self.iv(item)()
            if kind == 'K':
                require(view_call is obj, 'calling the view of a class item gave %r', view_call)
            else:
                require_eq(view_call, want, f'calling the view of {item}')
            self.see(item, self.pm.get(item), 'get after run')
        # Each class item was created once since the project was loaded
        for kind in 'K':
            created = {id(o): o for k, o in rec.INITS[self.base_inits:] if k == kind}
            require(len(created) <= self.loads(), '%s was created %s times', kind, len(created))

    def loads(self):
        return getattr(self, 'n_loads', 0) + 1

    def state(self):
        return [super().state(), sorted(self.held)]


class WithReload(IdentitySystem):
    def on_reload(self):
        old = dict(self.held)
        super().on_reload()
        self.n_loads = getattr(self, 'n_loads', 0) + 1


def systems(tier):
    deep = tier == 'thorough'
    out = []
    for item in ['stuff.f', 'kl.K', 'cls.sec.one', 'upd.sec.one']:
        alphabet = [['access', how, item] for how in ACCESS] + [
            ['upd', item, {'a': 1}, True, 'kw'],
            ['upd', item, {'a': 2, 'b': 5}, False, 'iv' if item != 'kl.K' else 'd'],
            ['reset', item],
            ['refresh', item],
            ['run', item],
            ['edit', item, {'a': 7}],
        ]
        alphabet = [[o[0], o[1], o[2], True, o[4]] if o[0] == 'upd' and o[4] == 'iv' else o for o in alphabet]
        out.append(IdentitySystem(f'one:{item}', [item], alphabet, 4 if deep else 3, 2 if deep else 1,
                                  'all sequences of 5 kinds of access and 6 changes'))
    pair = ['stuff.f', 'cls.sec.one', 'kl.K', 'upd.sec.one']
    alphabet = [['access', 'attr', i] for i in pair] + [['upd', i, {'a': 1}, True, 'kw'] for i in pair] + [
        ['reset', i] for i in pair] + [['access-section', 'cls.sec'], ['reload']]
    out.append(WithReload('four-items', pair, alphabet, 4 if deep else 3, 2 if deep else 1,
                          'items of every kind at once, with reload'))
    for odd in world.ODD:
        for item in ['kl.K', 'cls.sec.one', 'upd.sec.one']:
            alphabet = [['access', 'get', item], ['access', 'attr', item], ['upd', item, {'a': 2, 'b': 5}, True, 'kw'], ['reset', item]]
            if deep:
                alphabet += [['access', 'view-item', item], ['run', item], ['refresh', item], ['edit', item, {'a': 7}], ['reload']]
            out.append(WithReload(f'odd:{odd}:{item}', [item], alphabet, 2, 1,
                                  'classes with special methods or attributes which make their objects unusual', odd))
    return out
