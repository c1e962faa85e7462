"""Scaffolding preserves what the user wrote in config files and only adds what is missing"""
import ast
import itertools
import os
import sys

import core
import world
from core import System, require, require_eq
from world import rec

LEVEL = 'model_checking'
KNOWN = {}

FXTYPES = 'VALUE = 11\nOTHER = 12\n\ndef make(x=1):\n    return ("made", x)\n'
SIG = 'a=None, b=1, c=VALUE'
MODULE = 'from fxtypes import VALUE, OTHER\nimport os.path as p\n\ndef target({}):\n    return dict(locals())\n'
CLASS = ('from fxtypes import VALUE, OTHER\nimport os.path as p\n\nclass target:\n    def __init__(self{}):\n        self.__dict__.update(locals())\n'
         '        del self.__dict__["self"]\n    def __call__(self):\n        out = dict(self.__dict__)\n        out.pop("_section_path_str", None)\n        return out\n')

BLOCKS = [
    '', '\n', '# comment about a\n', 'a = 5\n', 'b: int = 7\n', 'b = [1,\n     2]\n', 'a = 1  # trailing comment\n', 'import os\n',
    'import os.path as pp\na = pp.sep\n', 'from fxtypes import VALUE\nb = VALUE\n', 'from fxtypes import (\n    VALUE as V,\n    OTHER,\n)\na = [V, OTHER]\n',
    'helper = 3\na = helper + 1\n', 'if True:\n    a = 8\n', 'for i in range(3):\n    b = i\n', 'with open("/dev/null") as fh:\n    a = 1\n',
    'try:\n    import json\nexcept ImportError:\n    json = None\n', "x = '''\nimport notreal\na = 3\n'''\n", 'a = {"k": 1}\na["k2"] = 2\n',
    'a = 1\na += 1\n', 'a = [i for i in range(3)]\n', 'from fxtypes import *\n', 's = Selector()\n', 'from pyfileconf import Selector\n', 'assert True\n',
    'helper = 4\ndel helper\n', 'if True:\n    import json\n    b = json.__name__\n', 'a = 1 \\\n    + 2\n', 'b = """x\n\n\ny"""\n', 'a = "unicode \u00e9"\n',
    'c = None\n', '# c = 3\n', 'a = b = 4\n', 'print("", end="")\n', 'a = "a = 3"\n', 'import fxtypes\nc = fxtypes.make(2)\n', 'a = lambda: 3\n',
    'c = [VALUE]\n', 'a: "int" = 3\n', 'a: int\n', 'while False:\n    pass\n', '# import os\n', '#\n\n#\n', 'a = (\n    1,\n    # inside\n    2,\n)\n',
    'import os, sys\na = sys.maxsize\n', 'extra = 1\n', 'a = 1\n\n\n\nb = 2\n', 'if True:\n    a = 1\nelse:\n    a = 2\n', 'a = f"{3}"\n', 'a = -1\n',
    "a = r'\\d'\n", 'def helper():\n    return 3\na = helper()\n', 'class Helper:\n    X = 1\na = Helper.X\n', 'a = 1; b = 2\n', 'a, b = 1, 2\n',
    '"""Docstring"""\n', 'import os  # trailing\n', 'import os; a = os.sep\n', 'from __future__ import annotations\n', 'a = 1\r\nb = 2\r\n', 'a = 3', '# -*- coding: utf8 -*-\n',
    'a = """one  \n  two\t\n   \n"""\n', 'if True:\n\ta = "\t"\n\n\tb = 6\n', 'a = "   "   \n', 'b = """  # no comment\n#\n\n\n\n# end"""\n',
    'a = (1,  \n     2)  \n', '   # indented comment\n', '\x0c\na = 2\n', 'a = """\nif x:\n    y = 1\n  from os import *\n"""\n', 'a = "x\\\ny"\n',
]

FEW = [
    '# comment about a\n', 'a = 5\n', 'from fxtypes import VALUE\nb = VALUE\n', 'import os.path as pp\na = pp.sep\n', '\n',
    'if True:\n    import json\n    b = json.__name__\n', 's = Selector()\n', '"""Docstring"""\n', 'b: int = 7\n', 'from pyfileconf import Selector\n',
    'import os\n', 'c = [VALUE]\n', 'from __future__ import annotations\n', 'a = b = 4\n', 'helper = 3\na = helper + 1\n', "x = '''\nimport notreal\na = 3\n'''\n",
    'def helper():\n    return 3\na = helper()\n', 'a, b = 1, 2\n', 'from fxtypes import *\n', 'a = 1\n\n\n\nb = 2\n', 'a = 3',
]


class Edited(System):
    """Config files which the user wrote before the project is loaded"""
    depth = 1
    split = 1

    def __init__(self, name, cases, kind='function', note=''):
        self.name = name
        self.cases = cases
        self.kind = kind
        self.note = note

    def setup(self):
        world.reset_pyfileconf()
        source = MODULE.format(SIG) if self.kind == 'function' else CLASS.format(', ' + SIG)
        world.lib(self.dir, fxtypes=FXTYPES, fxsig=source)

    def ops(self):
        return self.cases

    def apply(self, op):
        text = ''.join(BLOCKS[i] if isinstance(i, int) else i for i in op)
        root = os.path.join(self.dir, 'm')
        path = os.path.join(root, 'defaults', 'stuff', 'target.py')
        # What the file means on its own. Selector is always available.
        ns = {}
        try:
            exec(compile('from pyfileconf import Selector\ns = Selector()\nfrom fxtypes import VALUE\n', 'pre', 'exec'), ns)
            exec(compile(text, path, 'exec'), ns)
        except Exception:
            # Not valid in this order
            return
        defaults = {'a': None, 'b': 1, 'c': 11}
        expected = {k: ns.get(k, v) for k, v in defaults.items()}
        os.makedirs(os.path.dirname(path))
        with open(path, 'w', newline='', encoding='utf8') as f:
            f.write(text)
        pm = world.manager(root, name='m', pipeline_dict='from fxsig import target\npipeline_dict = {"stuff": [target]}\n')
        first = world.read(path)
        self.preserved(text, first)
        result = pm.run('stuff.target')
        self.same(result, expected, 'values passed')
        ns = {}
        exec(compile(first, path, 'exec'), ns)
        self.same({k: ns[k] for k in expected}, expected, f'values in config file\n{first}\n')
        for i in range(2):
            pm.reload()
            again = world.read(path)
            require_eq(again.rstrip(), first.rstrip(), 'config file after loading again')
        self.same(pm.run('stuff.target'), expected, 'values passed after loading again')

    def same(self, got, expected, what):
        require_eq(sorted(got), sorted(expected), what)
        for k, v in expected.items():
            if callable(v):
                require(callable(got[k]) and got[k].__name__ == v.__name__, '%s: %s is %r, expected %r', what, k, got[k], v)
            else:
                require_eq(got[k], v, f'{what}: {k}')

    def preserved(self, before, after):
        """Every line which the user wrote is still there, in order. Imports may be written differently."""
        def lines(text):
            try:
                tree = ast.parse(text)
            except SyntaxError:
                raise core.Violation(f'not valid: {text}')
            imports = set()
            for node in tree.body:
                if isinstance(node, (ast.Import, ast.ImportFrom)):
                    imports.update(range(node.lineno, node.end_lineno + 1))
            return [l for i, l in enumerate(text.replace('\r\n', '\n').split('\n'), 1) if l.strip() and i not in imports]
        rest = iter(lines(after))
        for line in lines(before):
            if not any(line.rstrip() == l.rstrip() for l in rest):
                raise core.Violation(f'line {line!r} is lost or moved. Before:\n{before}\nafter:\n{after}')

    def nontrivial(self, ops):
        return any(ops[0])


SIGS = [
    [('a', 'None'), ('b', '1')],
    [('a', '3'), ('b', 'VALUE')],
    [('b', '1'), ('a', 'None'), ('c', 'p.sep')],
    [('c', 'OTHER'), ('d', '[VALUE, {"k": OTHER}]')],
    [('b', '1')],
    [('a', 'None'), ('e: Optional[List[int]]', 'None'), ('b', '1')],
]
NAMES = {'VALUE': 11, 'OTHER': 12, 'p': os.path}


class Evolving(System):
    """Signature and config file evolve together over multiple loads of the project"""

    def __init__(self, name, kind, alphabet, depth, split=1, note=''):
        self.name = name
        self.kind = kind
        self.alphabet = alphabet
        self.depth = depth
        self.split = split
        self.note = note

    def setup(self):
        world.lib(self.dir, fxtypes=FXTYPES)
        self.root = os.path.join(self.dir, 'm')
        self.path = os.path.join(self.root, 'defaults', *(('cls', 'sec', 'one') if self.kind == 'specific' else ('stuff', 'target'))) + '.py'
        self.item = 'cls.sec.one' if self.kind == 'specific' else 'stuff.target'
        self.values = {}
        self.lines = []
        self.load(0)

    def load(self, i):
        sig = ([('name', 'None')] if self.kind == 'specific' else []) + SIGS[i]
        self.sig = {n.split(':')[0]: ('one' if n == 'name' else eval(d, dict(NAMES))) for n, d in sig}
        params = ', '.join(f'{n} = {d}' for n, d in sig)
        source = MODULE.format(params) if self.kind == 'function' else CLASS.format(', ' + params)
        # As if starting another process
        world.reset_pyfileconf()
        for name in ('fxsig', 'fxtypes'):
            sys.modules.pop(name, None)
        world.lib(self.dir, fxsig='from typing import Optional, List\n' + source)
        if self.kind == 'specific':
            import fxsig
            kw = dict(pipeline_dict='pipeline_dict = {}\n', specifics=[world.scd('cls', fxsig.target)],
                      specific_dicts={'cls': 'class_dict = {"sec": ["one"]}\n'})
        else:
            kw = dict(pipeline_dict='from fxsig import target\npipeline_dict = {"stuff": [target]}\n')
        self.pm = world.manager(self.root, name='m', **kw)
        for n, v in self.sig.items():
            self.values.setdefault(n, v)
        self.cur = None

    def ops(self):
        return self.alphabet

    def expected(self):
        return {n: (self.values if self.cur is None else self.cur)[n] for n in self.sig}

    def apply(self, op):
        kind = op[0]
        if kind == 'evolve':
            self.load(op[1])
        elif kind == 'set':
            # User changes the value in the file, and loads the project again
            text = world.read(self.path)
            line = f'{op[1]} = {op[2]}'
            old = [l for l in text.splitlines() if l.split(':')[0].split('=')[0].strip() == op[1]]
            if old:
                text = '\n'.join(line if l == old[0] else l for l in text.splitlines())
            else:
                text = text.rstrip('\n') + '\n' + line
            world.write(self.path, text + '\n')
            self.values[op[1]] = eval(op[2])
            self.pm.reload()
            self.cur = None
        elif kind == 'delete':
            # Comes back with the default
            text = world.read(self.path)
            if op[1] == 'all':
                os.remove(self.path)
                self.values = dict(self.sig)
                self.lines = []
            else:
                kept = [l for l in text.splitlines() if l.split(':')[0].split('=')[0].strip() != op[1]]
                world.write(self.path, '\n'.join(kept) + '\n')
                self.values.pop(op[1], None)
                if op[1] in self.sig:
                    self.values[op[1]] = self.sig[op[1]]
            self.pm.reload()
            self.cur = None
        elif kind == 'line':
            text = world.read(self.path)
            world.write(self.path, (op[1] + '\n' + text) if op[2] == 'top' else text.rstrip('\n') + '\n' + op[1] + '\n')
            self.lines.append(op[1])
            self.pm.reload()
            self.cur = None
        elif kind == 'upd':
            before = world.project_texts(self.root)
            self.pm.update(section_path_str=self.item, **{op[1]: 'updated'})
            if self.cur is None:
                self.cur = dict(self.values)
            self.cur[op[1]] = 'updated'
            require_eq(self.run(), self.expected(), 'values passed after update')
            require_eq(world.project_texts(self.root), before, 'files after update and run')
        elif kind == 'reload':
            self.pm.reload()
            self.cur = None
        else:
            raise core.HarnessError(op)
        ns = {}
        text = world.read(self.path)
        exec(compile(text, self.path, 'exec'), ns)
        require_eq({k: ns.get(k, 'missing') for k in self.values}, self.values, f'values in config file\n{text}\n')
        # Variables which the user did not assign
        extra = [k for k in ns if k not in self.values and k in 'abcde']
        require(not extra, 'unexpected variables %r in config file', extra)
        for line in self.lines:
            require_eq(text.count(line), self.lines.count(line), f'occurrences of {line!r} in\n{text}\n')

    def run(self):
        out = self.pm.run(self.item)
        if '__class__' in out:
            del out['__class__']
        return out

    def check(self):
        require_eq(self.run(), self.expected(), 'values passed')

    def state(self):
        return [self.sig, self.values, self.lines, self.cur]


def systems(tier):
    deep = tier == 'thorough'
    n = range(len(BLOCKS))
    few = [BLOCKS.index(b) for b in BLOCKS if b in FEW]
    out = [
        Edited('single blocks', [[i] for i in n], 'function', 'every kind of statement'),
        Edited('pairs of blocks', [[i, j] for i in n for j in n if i != j], 'function', 'all pairs of kinds of statements'),
        Edited('class: single blocks', [[i] for i in n], 'class', 'every kind of statement'),
        Edited('triples of blocks', [list(c) for c in itertools.permutations(few if deep else few[:14], 3)], 'function', 'triples of statements'),
    ]
    alphabet = [['evolve', i] for i in range(len(SIGS))] + [
        ['set', 'a', '42'], ['set', 'c', "'user'"], ['delete', 'a'], ['delete', 'b'], ['delete', 'all'], ['line', '# a comment', 'top'],
        ['line', 'extra = 3', 'end'], ['upd', 'b'], ['reload'],
    ]
    for kind in ('function', 'class', 'specific'):
        names = alphabet if deep or kind == 'function' else [a for a in alphabet if a not in (['evolve', 0], ['delete', 'all'], ['reload'], ['delete', 'b'], ['evolve', 1])]
        out.append(Evolving(f'evolving {kind}', kind, names, (4 if kind == 'function' else 3) if deep else 3, 1,
                            'signature changes over loads, edits and updates'))
    return out
