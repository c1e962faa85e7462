"""The effective configuration of each item follows the history of configuration operations"""
import datetime
import functools
import warnings

import numpy as np
import pandas as pd

import core
import world
from core import require, require_eq
from hist import ITEMS, ConfigSystem, Item, build, edits_alphabet, mixed_alphabet, single_item_alphabet

LEVEL = 'model_checking'
KNOWN = {}


class NoEq:
    def __eq__(self, other):
        raise RuntimeError('not possible to compare')
    __hash__ = object.__hash__


class Expression:
    """As in libraries where comparing gives an expression"""
    def __init__(self, *parts):
        self.parts = parts

    def __eq__(self, other):
        return Expression(self, other)

    def __ne__(self, other):
        return Expression(self, other)
    __hash__ = object.__hash__


@functools.lru_cache(None)
def values():
    return {
        'one': 1, 'true': True, 'one.': 1.0, 'str': '1', 'none': None, 'list': [1, 2], 'tuple': (1, 2), 'array': np.array([1, 2]),
        'array1': np.array([1]), 'array11': np.array([[1]]), 'float64': np.float64(1), 'frame': pd.DataFrame({'c': [1, 2]}),
        'frame2': pd.DataFrame({'c': [1, 3]}), 'series': pd.Series([1, 2]), 'noeq': NoEq(), 'noeq2': NoEq(), 'expr': Expression(1),
        'expr2': Expression(2), 'nan': float('nan'), 'empty': [], 'zero': 0, 'false': False, 'dict': {'k': 1}, 'set': {1, 2},
        'func': len, 'class': NoEq, 'date': datetime.date(2020, 1, 2), 'frame-empty': pd.DataFrame(), 'framelist': [pd.DataFrame({'c': [1]})],
    }


class Values(ConfigSystem):
    """Updates between values of all types, including ones which are equal but of other types or cannot be compared"""

    def __init__(self, item, names, depth, loaded, note):
        super().__init__(f'values:{item}:{loaded}', [item], None, depth, 1, note)
        self.names = names
        self.loaded = loaded

    def setup(self):
        warnings.simplefilter('ignore')
        super().setup()
        # The model compares by name
        self.value = {'a': 'none'}
        self.persisted = None
        if self.loaded:
            # Updates apply to the existing object, otherwise it is created with them
            self.pm.get(self.item_paths[0])

    def ops(self):
        return [[v, persist, more] for v in self.names for persist in (True, False) for more in (True, False)] + [
            ['refresh'], ['reset']]

    def apply(self, op):
        item = self.item_paths[0]
        if op[0] == 'refresh':
            self.pm.refresh(item)
            self.value['a'] = self.persisted or 'none'
        elif op[0] == 'reset':
            self.pm.reset(item)
            self.value['a'], self.persisted = 'none', None
        else:
            name, persist, more = op
            value = values()[name]
            if more:
                # Something else changes as well
                self.pm.update({'a': value, 'b': 9}, item, persist)
            else:
                self.pm.update(section_path_str=item, a=value, pyfileconf_persist=persist)
            self.value['a'] = name
            if persist:
                self.persisted = name

    def check(self):
        item = self.item_paths[0]
        want = values()[self.value['a']]
        obj = self.pm.get(item)
        got = self.observe_values(item, obj)['a']
        require(got is want, 'value of %s: expected %r, got %r', item, want, got)
        result = self.pm.run(item)
        require(any(r is want for r in result), 'result of running %s: expected %r in %r', item, want, result)

    def state(self):
        return [self.value, self.persisted]


def systems(tier):
    deep = tier == 'thorough'
    out = []
    for item in ['stuff.f', 'kl.K', 'cls.sec.one', 'upd.sec.one']:
        out.append(ConfigSystem(f'one:{item}', [item], single_item_alphabet(item), 4 if deep else 3, 2 if deep else 1,
                                note='all sequences of 16 operations on one item'))
    for item in ['stuff.f', 'kl.K', 'cls.sec.one'] if deep else ['stuff.f', 'cls.sec.one']:
        out.append(ConfigSystem(f'edits:{item}', [item], edits_alphabet(item), 6 if deep else 4, 3 if deep else 2,
                                note='all sequences of 8 operations with file edits and updates to the same values'))
    for items in (['stuff.f', 'cls.sec.one'], ['kl.K', 'upd.sec.one'], ['stuff.f', 'stuff.g', 'deep.er.h']):
        out.append(ConfigSystem('mixed:' + '+'.join(items), items, mixed_alphabet(items), 4 if deep else 3,
                                2 if deep else 1, note='all interleavings of operations on several items'))
    for item in ['stuff.f', 'cls.sec.one', 'kl.K']:
        # Values of the kinds which are most easily confused, or all
        for loaded in (True, False):
            out.append(Values(item, list(values()) if deep else list(values())[:18 if loaded else 6], 2, loaded, 'all sequences of two updates to values of many types'))
    if deep:
        for item in ['stuff.f', 'cls.sec.one']:
            out.append(ConfigSystem(f'deep:{item}', [item], single_item_alphabet(item, full=False), 5, 2,
                                    note='all sequences of 9 operations on one item'))
    return out
