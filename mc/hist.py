"""
Histories of configuration operations on one or more items, with a reference model of the effective
configuration of each item.
"""
import os

import core
import world
from core import System, require, require_eq, Violation
from world import rec

ITEMS = {
    # path: (kind, file defaults)
    'stuff.f': ('f', {'a': None, 'b': 1}),
    'kl.K': ('K', {'a': None, 'b': 1}),
    'cls.sec.one': ('S', {'name': 'one', 'a': None, 'b': 1}),
    'upd.sec.one': ('U', {'key': 'one', 'a': None, 'b': 1}),
    'stuff.g': ('g', {'a': None, 'c': 3}),
    'deep.er.h': ('h', {'a': 0, 's': 0}),
}

PIPELINE_DICT = '''from fxm import f, g, h, K, boom

pipeline_dict = {
    "stuff": [f, g],
    "kl": [K],
    "deep": {"er": [h]},
    "bad": [boom],
}
'''


def expected_result(kind, cfg):
    if kind == 'S':
        return ('S', cfg['name'], cfg['a'], cfg['b'])
    if kind == 'U':
        return ('U', cfg['key'], cfg['a'], cfg['b'])
    return (kind, *cfg.values())


def build(root, name='m', odd=None, **kw):
    mod = world.fxm(root, odd)
    return world.manager(
        os.path.join(root, name), name=name, pipeline_dict=PIPELINE_DICT,
        specifics=[
            world.scd('cls', mod.S),
            world.scd('upd', mod.U, key_attr='key', execute_attr='go'),
        ],
        specific_dicts={
            'cls': 'class_dict = {"sec": ["one", "two"]}\n',
            'upd': 'class_dict = {"sec": ["one"]}\n',
        },
        **kw
    )


class Item:
    """Reference model of the configuration of an item"""

    def __init__(self, file):
        self.file = dict(file)
        self.cur = None  # not read from the file yet
        self.persisted = {}

    def touch(self):
        if self.cur is None:
            self.cur = dict(self.file)

    def update(self, updates, persist):
        self.touch()
        for k, v in updates.items():
            if k in self.cur:
                self.cur[k] = v
                if persist:
                    self.persisted[k] = v

    def refresh(self):
        self.touch()
        self.cur = {**self.file, **self.persisted}

    def reset(self):
        self.cur = dict(self.file)
        self.persisted = {}

    def reload(self):
        self.cur = None
        self.persisted = {}

    def effective(self):
        return dict(self.file) if self.cur is None else dict(self.cur)

    def state(self):
        return [self.file, self.cur, self.persisted]


class ConfigSystem(System):
    """
    :param items: section paths of the items which are operated on
    :param alphabet: operations
    """

    odd = None

    def __init__(self, name, items, alphabet, depth, split=1, note=''):
        self.name = name
        self.item_paths = items
        self.alphabet = alphabet
        self.depth = depth
        self.split = split
        self.note = note

    def setup(self):
        world.reset_pyfileconf()
        self.pm = build(self.dir, odd=self.odd)
        self.model = {p: Item(ITEMS[p][1]) for p in ITEMS}
        self.sel = world.Selector()
        self.texts = world.project_texts(self.pm.folder)
        self.objs = {}
        self.inits = {}

    def ops(self):
        return self.alphabet

    def path_of(self, item):
        return os.path.join(self.pm.folder, 'defaults', *item.split('.')) + '.py'

    def iv(self, item):
        return world.ItemView.from_section_path_str('m.' + item)

    def observe_values(self, item, obj):
        kind = ITEMS[item][0]
        if kind in ('f', 'g', 'h'):
            return dict(obj.keywords)
        return {k: getattr(obj, k) for k in ITEMS[item][1]}

    def real_get(self, item):
        return self.pm.get(item)

    def note_object(self, item, obj, how):
        pass

    def apply(self, op):
        kind = op[0]
        m = self.model
        pm = self.pm
        if kind == 'upd':
            _, item, updates, persist, form = op
            updates = dict(updates)
            if form == 'kw':
                pm.update(section_path_str=item, pyfileconf_persist=persist, **updates)
            elif form == 'd':
                pm.update(updates, section_path_str=item, pyfileconf_persist=persist)
            elif form == 'both':
                # Keyword arguments have precedence
                pm.update({k: 'other' for k in updates}, section_path_str=item, pyfileconf_persist=persist, **updates)
            elif form == 'mixed':
                first = dict(list(updates.items())[:1])
                rest = dict(list(updates.items())[1:])
                pm.update(first, item, persist, **rest)
            elif form == 'iv':
                view = self.iv(item)
                for k, v in updates.items():
                    setattr(view, k, v)
            elif form == 'batch':
                pm.update_batch([dict(section_path_str=item, pyfileconf_persist=persist, **updates)])
            elif form == 'xbatch':
                world.BatchUpdater().update(
                    [dict(section_path_str='m.' + item, pyfileconf_persist=persist, **updates)])
            else:
                raise core.HarnessError(form)
            m[item].update(op[2], persist)
        elif kind == 'batch2':
            # several updates in a single batch, applied in order
            pm.update_batch([dict(section_path_str=i, **u) for i, u in op[1]])
            for i, u in op[1]:
                m[i].update(u, True)
        elif kind == 'reset':
            pm.reset(op[1], **({'allow_create': True} if len(op) == 3 else {}))
            m[op[1]].reset()
        elif kind == 'ivreset':
            pm.reset(self.iv(op[1]))
            m[op[1]].reset()
        elif kind == 'batchreset':
            world.BatchUpdater(base_section_path_str='m').reset(op[1])
            for i in op[1]:
                m[i].reset()
        elif kind == 'refresh':
            pm.refresh(op[1])
            m[op[1]].refresh()
        elif kind == 'reload':
            pm.reload()
            for it in m.values():
                it.reload()
            self.on_reload()
        elif kind == 'get':
            obj = self.real_get(op[1])
            m[op[1]].touch()
            self.note_object(op[1], obj, 'get')
            require_eq(self.observe_values(op[1], obj), m[op[1]].effective(), f'configuration of {op[1]} from get')
        elif kind == 'run':
            del rec.CALLS[:]
            result = pm.run(op[1])
            m[op[1]].touch()
            want = expected_result(ITEMS[op[1]][0], m[op[1]].effective())
            require_eq(result, want, f'result of running {op[1]}')
            require_eq(rec.CALLS, [want], f'calls made by running {op[1]}')
        elif kind == 'edit':
            # The user changes the config file
            path = self.path_of(op[1])
            lines = world.read(path).split('\n')
            for k, v in op[2].items():
                idx = [i for i, l in enumerate(lines) if l.startswith(k + ' =') or l.startswith(k + ':')]
                require(len(idx) == 1, 'config file of %s does not assign %s once: %r', op[1], k, lines)
                lines[idx[0]] = f'{k} = {v!r}'
            world.write(path, '\n'.join(lines))
            m[op[1]].file.update(op[2])
            self.texts = world.project_texts(self.pm.folder)
        elif kind == 'edit-refresh':
            ConfigSystem.apply(self, ['edit', op[1], op[2]])
            ConfigSystem.apply(self, ['refresh', op[1]])
        elif kind == 'edit-reload':
            ConfigSystem.apply(self, ['edit', op[1], op[2]])
            ConfigSystem.apply(self, ['reload'])
        else:
            raise core.HarnessError(kind)

    def on_reload(self):
        self.objs = {}

    def check(self):
        for item in self.item_paths:
            self.check_item(item)
        self.check_files()

    def check_item(self, item):
        want = self.model[item].effective()
        obj = self.pm.get(item)
        require_eq(self.observe_values(item, obj), want, f'configuration of {item} from get')
        del rec.CALLS[:]
        expected = expected_result(ITEMS[item][0], want)
        require_eq(self.pm.run(item), expected, f'result of running {item}')
        require_eq(rec.CALLS, [expected], f'calls made by running {item}')
        require_eq(self.observe_values(item, self.pm.get(item)), want, f'configuration of {item} after running it')

    def check_files(self):
        texts = world.project_texts(self.pm.folder)
        for rel in sorted(set(texts) | set(self.texts)):
            # Loading does not keep the newline at the end of files
            require((texts.get(rel) or '').rstrip() == (self.texts.get(rel) or '').rstrip(),
                    'file %s changed by configuration operations: %r -> %r',
                    rel, self.texts.get(rel), texts.get(rel))

    def state(self):
        return {p: self.model[p].state() for p in self.item_paths}


def single_item_alphabet(item, full=True):
    ops = [
        ['upd', item, {'a': 1}, True, 'kw'],
        ['upd', item, {'a': 1}, False, 'kw'],
        ['upd', item, {'a': 2, 'b': 5}, True, 'd'],
        ['upd', item, {'b': 1}, True, 'iv'],
        ['reset', item],
        ['refresh', item],
        ['run', item],
        ['edit', item, {'a': 7}],
        ['reload'],
    ]
    if full:
        ops += [
            ['get', item],
            ['upd', item, {'a': 3, 'b': 6}, False, 'mixed'],
            ['upd', item, {'a': [1], 'zzz': 4}, True, 'batch'],
            ['upd', item, {'b': None}, True, 'xbatch'],
            ['ivreset', item],
            ['reset', item, 'allow_create'],
            ['upd', item, {'b': 9}, True, 'both'],
        ]
    return ops


def mixed_alphabet(items):
    ops = []
    for i in items:
        ops += [
            ['upd', i, {'a': 1}, True, 'kw'],
            ['upd', i, {'a': 2}, False, 'iv' if i == items[0] else 'd'],
            ['reset', i],
            ['refresh', i],
            ['run', i],
        ]
    # Setting through an item view always persists
    ops = [[o[0], o[1], o[2], True, o[4]] if o[0] == 'upd' and o[4] == 'iv' else o for o in ops]
    ops += [
        ['batch2', [[items[0], {'a': 4}], [items[1], {'a': 5, 'b': 2}], [items[0], {'a': 6}]]],
        ['batchreset', list(items)],
        ['reload'],
    ]
    return ops


def edits_alphabet(item):
    """Values in the file and in updates overlap"""
    return [
        ['edit-refresh', item, {'a': 7}],
        ['edit-refresh', item, {'a': 1}],
        ['edit', item, {'a': 1}],
        ['upd', item, {'a': 1}, True, 'kw'],
        ['upd', item, {'a': 1}, False, 'kw'],
        ['upd', item, {'a': 7, 'b': 5}, True, 'd'],
        ['refresh', item],
        ['reset', item],
    ]
