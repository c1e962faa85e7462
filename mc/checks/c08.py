"""Scaffolded config files represent the signature of the function or class"""
import enum
import inspect
import itertools
import os
import sys

import core
import world
from core import System, require, require_eq
from world import rec

LEVEL = 'exploration'
RULE = (
    'Every signature of the grammar (parameters x annotations x defaults x import forms x function/class/specific class), '
    'each in its own process and project. A case is non-trivial if the signature has an annotation or a default.'
)
KNOWN = {}

HEAD = '''import os
import os.path
import collections as col
import xml.dom
import fxtypes
import fxtypes as ft
import typing
import collections.abc
from typing import List, Dict, Optional, Tuple, Union, Callable, Literal, Annotated
from typing import Any as Anything
from fxtypes import Thing, VALUE
from fxtypes import Thing as Renamed, OTHER as RENAMED
from fxtypes import (
    make,
    Sub as SubThing,
)
'''

FXTYPES = '''
class Thing:
    ATTR = 7
    def __eq__(self, other):
        return type(self) is type(other)
    __hash__ = None
class Sub(Thing):
    pass
VALUE = 11
OTHER = 12
def make(x=1):
    return ('made', x)
'''

FXB = 'X = "fxb"\nA = "fxb.A"\nclass D:\n    A = "fxb.D"\n'
OWN = '''
OTHER_ = 0
CONST = 5
class Local:
    X = 3
'''

ANNOTATIONS = [
    None, 'int', 'List[int]', 'Optional[Thing]', '"Thing"', 'Tuple[int, ...]', 'int | None', 'fxtypes.Thing',
    'ft.Thing', 'Renamed', 'Dict[str, "SubThing"]', 'Anything', 'Callable[[int], Thing]', 'Local', 'col.OrderedDict',
    'Union[str, "int"]', 'None', 'List["Thing"]', 'Literal[1, "a", None]', 'Literal[-1]', 'Annotated[int, VALUE]',
    'Callable[..., int]', 'type[Thing]', '"int | None"', 'Dict[str, List[Optional[Thing]]]', 'typing.List[typing.Any]',
    '"Literal[\'x y\']"', 'list', 'Tuple[()]', 'Callable[[], None]', '"List[Thing]"', 'collections.abc.Iterable',
    'Optional["ft.Thing"]', 'Annotated[int, make(x=VALUE)]', 'Annotated[List[Thing], "a b"]',
]
DEFAULTS = [
    None, '1', '-1', '1.5', '"s"', "'it\\'s'", 'None', 'True', '[]', '[1, "a"]', '{}', '{"k": [1, (2,)]}', '()', '(1,)',
    '{1}', 'VALUE', '[VALUE, RENAMED]', 'Thing()', 'Thing.ATTR', 'fxtypes.VALUE', 'ft.OTHER', 'os.sep', 'os.path.sep',
    'xml.dom.NotFoundErr', 'col.OrderedDict()', 'make(2)', 'make(x=VALUE)', 'CONST', 'CONST + 1', 'Local.X', 'not True',
    '1 if VALUE else 2', 'b"x"', '"multi\\nline"', '"percent %s {brace}"', '"unicode \u00e9"', '2 ** 3', '1 < 2',
    'f"{VALUE}"', '[1, 2][0]', '...', '1j', '1e10', '"#nota comment"', '"\'"', "'\"'", 'int', 'print', 'Renamed.ATTR',
    '{"a": VALUE, **{"b": 1}}', '[*[1], 2]', '10000000000000000000', '0x10', '"""triple"""',
    '[i for i in range(3)]', '{i: VALUE for i in (1, 2)}', '{k: v for k, v in {"a": VALUE}.items()}', 'len("abc")',
    '"a" "b"', '-VALUE', 'VALUE if OTHER_ else 3', '[VALUE][0:1]', 'dict(a=1, b=[VALUE])', '"%s" % VALUE', '(VALUE, )',
    '[[], {}, ()]', '{(1, 2): [3]}', 'VALUE and 3', 'VALUE or None', '~1', '-1.0', "'a\\\\b'", "r'a\\d'", '"tab\\t"', 'float("inf")',
    'Thing', 'os.path.join("a", "b")', 'make(*[3])', 'make(**{"x": 4})', 'f"{VALUE!r:>4} {{}}"', 'None or VALUE',
    '1_000', '"' + 'x' * 150 + '"', '[' + ', '.join(str(i) for i in range(60)) + ']', 'sum(x for x in [VALUE])',
    'set()', 'frozenset({1})', 'range(3)', 'slice(1, 2)', "'''a\n'b'\n'''",
]
SMALL_ANN = [None, 'List[Thing]', 'Tuple[int, ...]', '"SubThing"', 'Local']
SMALL_DEF = [None, '1', '[VALUE]', 'ft.OTHER', 'Thing()', 'CONST']


def param(name, ann, default):
    out = name
    if ann is not None:
        out += f': {ann}'
    if default is not None:
        out += f' = {default}' if ann is not None else f'={default}'
    return out


class Signature(System):
    depth = 1
    split = 1

    def __init__(self, name, cases, note=''):
        self.name = name
        self.cases = cases
        self.note = note

    def setup(self):
        world.reset_pyfileconf()
        world.lib(self.dir, fxtypes=FXTYPES)
        world.lib(self.dir, fxa='X = "fxa"\nZ = "fxa.Z"\nA = "fxa.A"\n', fxb__fxc='A = "fxb.fxc.A"\n')
        world.write(os.path.join(self.dir, 'lib', 'fxb', '__init__.py'), FXB)

    def ops(self):
        return self.cases

    def apply(self, op):
        kind, sig = op[:2]
        head = op[2] if len(op) > 2 else HEAD
        if kind == 'source':
            source = head + OWN + sig
            kind = 'class' if 'class target' in sig else 'function'
        elif kind == 'function':
            source = f'{head}{OWN}\ndef target({sig}):\n    return locals()\n'
        else:
            sep = ', ' if sig else ''
            source = (f'{head}{OWN}\nclass target:\n    def __init__(self{sep}{sig}):\n'
                      '        self.__dict__.update(locals())\n        del self.__dict__["self"]\n'
                      '    def __call__(self):\n        return dict(self.__dict__)\n')
        world.lib(self.dir, fxsig=source)
        import fxsig
        target = fxsig.target
        params = inspect.signature(target).parameters
        annotations = dict((target if kind == 'function' else target.__init__).__annotations__)
        annotations.pop('return', None)
        root = os.path.join(self.dir, 'm')
        # Load without the module being imported already, as is done by users
        if kind != 'specific':
            del sys.modules['fxsig']
        if kind == 'specific':
            pm = world.manager(
                root, name='m', pipeline_dict='pipeline_dict = {}\n',
                specifics=[world.scd('cls', target, key_attr=list(params)[0])],
                specific_dicts={'cls': 'class_dict = {"sec": ["one"]}\n'},
            )
            item = 'cls.sec.one'
        else:
            pm = world.manager(root, name='m', pipeline_dict='from fxsig import target\npipeline_dict = {"stuff": [target]}\n')
            item = 'stuff.target'
        path = os.path.join(root, 'defaults', *item.split('.')) + '.py'
        text = world.read(path)
        expected = {
            n: (None if p.default is inspect.Parameter.empty else p.default) for n, p in params.items()
        }
        if kind == 'specific':
            expected[list(params)[0]] = 'one'
        # The file on its own
        ns = {}
        exec(compile(text, path, 'exec'), ns)
        import ast
        assigned = [
            t.id for stmt in ast.parse(text).body if isinstance(stmt, (ast.Assign, ast.AnnAssign))
            for t in (stmt.targets if isinstance(stmt, ast.Assign) else [stmt.target])
        ]
        # Each file comes with s = Selector()
        assigned = [a for a in assigned if a != 's']
        require_eq(assigned, list(params), f'variables assigned by\n{text}\n')
        for n, v in expected.items():
            self.same(ns[n], v, f'value of {n} in\n{text}\n')
        got_ann = ns.get('__annotations__', {})
        require_eq(sorted(got_ann), sorted(annotations), f'annotated variables in\n{text}\n')
        for n, a in annotations.items():
            self.same_annotation(got_ann[n], a, ns, fxsig, f'annotation of {n} in\n{text}\n')
        # As loaded
        obj = pm.get(item)
        values = dict(obj.keywords) if kind == 'function' else dict(obj.__dict__)
        values.pop('_section_path_str', None)
        require_eq(sorted(values), sorted(expected), 'names of arguments passed')
        for n, v in expected.items():
            self.same(values[n], v, f'argument {n}')
        result = pm.run(item)
        for n, v in expected.items():
            self.same(result[n], v, f'argument {n} while running')
        # Loading again leaves the file as it is
        pm.reload()
        require_eq(world.read(path).rstrip(), text.rstrip(), 'config file after loading again')
        pm2 = world.PipelineManager(folder=root, name='m2', specific_class_config_dicts=pm.specific_class_config_dicts)
        pm2.load()
        require_eq(world.read(path).rstrip(), text.rstrip(), 'config file after loading for the third time')
        result = pm2.run(item)
        for n, v in expected.items():
            self.same(result[n], v, f'argument {n} while running after loading again')

    def same(self, got, want, what):
        if type(got).__name__ == type(want).__name__ and type(got).__module__ == type(want).__module__ == 'fxtypes':
            return
        if isinstance(want, enum.Enum) and want.__class__.__module__ == 'fxsig':
            # Module is imported again on reload
            require(repr(got) == repr(want), '%s: expected %r got %r', what, want, got)
            return
        if isinstance(want, type) and getattr(want, '__module__', '') in ('fxtypes', 'fxsig'):
            require(isinstance(got, type) and got.__qualname__ == want.__qualname__, '%s: expected %r got %r', what, want, got)
            return
        require_eq(got, want, what)

    def same_annotation(self, got, want, ns, mod, what):
        # Forward references may be kept or resolved
        def resolve(a, scope):
            return eval(a, scope) if isinstance(a, str) else a
        got, want = resolve(got, ns), resolve(want, vars(mod))
        require(repr(got) == repr(want), '%s: expected %r, got %r', what, want, got)

    def state(self):
        return None

    def nontrivial(self, ops):
        return ':' in ops[0][1] or '=' in ops[0][1]


def signatures(pool, sizes):
    for size in sizes:
        for combo in itertools.product(pool, repeat=size):
            names = [f'p{i}' for i in range(size)]
            yield names, combo


def valid(combo, star):
    """Parameters without a default may not follow ones with a default, unless they are keyword only"""
    seen = False
    for i, (ann, default) in enumerate(combo):
        if star is not None and i >= star:
            return True
        if default is not None:
            seen = True
        elif seen:
            return False
    return True


def render(names, combo, star):
    parts = [param(n, a, d) for n, (a, d) in zip(names, combo)]
    if star is not None:
        parts.insert(star, '*')
    return ', '.join(parts)


IMPORT_FORMS = [
    ('import fxtypes\n', 'fxtypes.'),
    ('import fxtypes as q\n', 'q.'),
    ('from fxtypes import Thing, VALUE, make\n', ''),
    ('from fxtypes import VALUE\nfrom fxtypes import make, Thing\n', ''),
    ('import os, fxtypes\n', 'fxtypes.'),
    ('import os as o, fxtypes as q\n', 'q.'),
    ('from fxtypes import (Thing,\n    VALUE,\n    make)\n', ''),
    ('from fxtypes import Thing as T, VALUE as V, make as M\n', None),
    ('# comment\nimport fxtypes  # trailing\n', 'fxtypes.'),
    ('"""Docstring"""\nimport fxtypes\n', 'fxtypes.'),
    ('try:\n    import fxtypes\nexcept ImportError:\n    fxtypes = None\n', 'fxtypes.'),
    ('from fxtypes import *\n', ''),
]


SOURCES = [
    'def target(\n    a,  # comment\n    b: int = 1,\n    *,\n    c="x",  # other, comment\n):\n    return locals()\n',
    'def deco(f):\n    return f\n\n@deco\ndef target(a: int = VALUE):\n    return locals()\n',
    'import functools\ndef deco(f):\n    @functools.wraps(f)\n    def target(*args, **kwargs):\n        return f(*args, **kwargs)\n'
    '    return target\n\n@deco\ndef target(a: int = VALUE, b=2):\n    return locals()\n',
    'def other():\n    def target(wrong=1):\n        pass\n\ndef target(a=2):\n    def target(wrong=3):\n        pass\n    return dict(a=a)\n',
    'class Other:\n    def target(self, wrong=1):\n        pass\n\ndef target(a=2):\n    return locals()\n',
    'def target(a=2) -> "Thing":\n    "Docstring"\n    return locals()\n',
    'def target(a=2):\n    import fxtypes as a_module\n    VALUE = 3\n    return dict(a=a)\n',
    'def target(a=VALUE): return locals()\n',
    'def helper(VALUE=3):\n    return VALUE\ndef target(a=helper()):\n    return locals()\n',
    'class target:\n    X = 3\n    def method(self, wrong=1):\n        pass\n    def __init__(self, a=VALUE, b: int = 2):\n'
    '        self.a = a\n        self.b = b\n    def __call__(self):\n        return dict(self.__dict__)\n',
    'class Base:\n    def __init__(self, wrong=1):\n        pass\nclass target(Base):\n    def __init__(self, a=VALUE):\n'
    '        self.a = a\n    def __call__(self):\n        return dict(self.__dict__)\n',
    'class Holder:\n    class target:\n        def __init__(self, wrong=2):\n            pass\nclass target:\n'
    '    def __init__(self, a=VALUE):\n        self.a = a\n    def __call__(self):\n        return dict(self.__dict__)\n',
    'class Meta(type):\n    pass\nclass target(metaclass=Meta):\n    def __init__(self, a=VALUE):\n'
    '        self.a = a\n    def __call__(self):\n        return dict(self.__dict__)\n',
    'A = B = 4\ndef target(a=A, b=B):\n    return locals()\n',
    'A: int = 4\ndef target(a=A):\n    return locals()\n',
    'A, B = 4, 5\ndef target(a=A, b=B):\n    return locals()\n',
    'if VALUE:\n    A = 5\nelse:\n    A = 6\ndef target(a=A):\n    return locals()\n',
    'for A in (1, 2):\n    pass\ndef target(a=A):\n    return locals()\n',
    'try:\n    A = 1\nexcept Exception:\n    A = 2\ndef target(a=A):\n    return locals()\n',
    'def target(a=1):\n    return locals()\nLATER = 3\n',
    'class Choice:\n    ONE = 1\nA = Choice.ONE\ndef target(a=A, b=Choice.ONE, c: Choice = None):\n    return locals()\n',
    'list = 3\ndef other():\n    dict = [1]\ndef target(a=dict):\n    return locals()\n',
    'import enum\nclass Color(enum.Enum):\n    RED = 1\ndef target(a=Color.RED, b: "Color" = Color["RED"]):\n    return locals()\n',
    'from fxtypes import VALUE as A\nA = A + 1\ndef target(a=A):\n    return locals()\n',
    'async def aother(wrong=1):\n    pass\ndef target(a=1):\n    return locals()\n',
    'target_other = 1\ndef not_target(wrong=1):\n    pass\ndef target(a=1):\n    return locals()\ndef target2(wrong=1):\n    pass\n',
    'def target(long_name_of_a_parameter=1, another_long_name_of_a_parameter=[1, 2, 3], yet_another_long_name={"k": "v"}):\n    return locals()\n',
    'def target(name=2, pipeline=3):\n    return locals()\n',
    'def target(section_path_str=1, func=2, d_=3, kwargs=4, args=5, cls=6, klass=7):\n    return locals()\n',
    'class target:\n    def __init__(this, a=VALUE, b: int = 2):\n        this.a = a\n        this.b = b\n    def __call__(this):\n        return dict(this.__dict__)\n',
    'class target:\n    def __init__(self, *, a=VALUE, b: int):\n        self.a = a\n        self.b = b\n    def __call__(self):\n        return dict(self.__dict__)\n',
    'class target:\n    def __init__(self):\n        pass\n    def __call__(self):\n        return dict(self.__dict__)\n',
    'class target:\n    A = 1\n    def __call__(self):\n        return dict(self.__dict__)\n    @classmethod\n    def make(cls, wrong=1):\n        return cls()\n'
    '    def __init__(\n        self,  # me\n        a: int = VALUE,\n    ):\n        self.a = a\n',
    'def deco(f):\n    return f\nclass target:\n    @deco\n    def __init__(self, a=VALUE):\n        self.a = a\n    def __call__(self):\n        return dict(self.__dict__)\n',
    '@staticmethod\ndef unused(wrong=1):\n    pass\ndef target(self=1, cls=2, this=3):\n    return locals()\n',
    'if VALUE:\n    def target(a=VALUE):\n        return locals()\n',
]


# Whatever binds a name in a module or only seems to do so. Flag whether it does
BINDINGS = [
    ('from fxa import X', True), ('from fxb import X', True), ('from fxa import Z as X', True), ('from fxa import X as Y', False),
    ('from fxb import *', True), ('import fxa', False), ('X = [3]', True), ('X: int = 4', True), ('X: int', False),
    ('for X in (1, 2):\n    pass', True), ('if False:\n    from fxb import X', False), ('if VALUE:\n    from fxa import X', True),
    ('from typing import TYPE_CHECKING\nif TYPE_CHECKING:\n    from fxb import X', False),
    ('try:\n    from fxmissing import X\nexcept ImportError:\n    from fxa import X', True),
    ('try:\n    from fxa import X\nexcept ImportError:\n    X = None', True),
    ('def helper():\n    from fxb import X\n    return X', False), ('def helper2():\n    X = 5\n    return X', False),
    ('class Other:\n    from fxb import X', False), ('class Other2:\n    X = 6', False),
    ('(X := 7)', True), ('[X for X in (1,)]', False), ('other = lambda X=1: X', False),
    ('import fxa', False), ('import fxb.fxc', False), ('X = 8; Y = 9', True), ('(X, Y) = 8, 9', True),
]
# For a default X.A
ATTR_BINDINGS = [
    ('import fxa as X', True), ('import fxb as X', True), ('import fxb.fxc as X', True), ('from fxb import fxc as X', True),
    ('from fxb import D as X', True), ('class X:\n    A = "own"', True), ('def helper():\n    import fxb as X', False),
    ('try:\n    import fxmissing as X\nexcept ImportError:\n    import fxa as X', True), ('import fxa', False), ('import fxb', False),
    ('import fxb.fxc', False), ('from fxa import A', False), ('A = 1', False), ('if False:\n    import fxb as X', False),
]


def bindings(blocks, default, lengths):
    for n in lengths:
        for combo in itertools.product(blocks, repeat=n):
            if any(binds for _, binds in combo):
                yield ['source', '\n'.join(text for text, _ in combo) + f'\ndef target(a={default}, b=[{default}]):\n    return locals()\n']


def systems(tier):
    deep = tier == 'thorough'
    out = []
    for kind in ('function', 'class'):
        one = []
        for ann in ANNOTATIONS:
            for default in (DEFAULTS if deep or ann in (None, 'List[int]') else DEFAULTS[:1] + ['1', 'VALUE', 'CONST']):
                one.append([kind, param('a', ann, default)])
        if kind == 'class' and not deep:
            one = one[::2]
        one.append([kind, ''])
        out.append(Signature(f'{kind}: one parameter', one, 'every annotation and default'))
    small = list(itertools.product(SMALL_ANN, SMALL_DEF))
    two = []
    for kind in ('function', 'class') if deep else ('function',):
        for names, combo in signatures(small, [2]):
            for star in (None, 0, 1):
                if valid(combo, star):
                    two.append([kind, render(names, combo, star)])
    if not deep:
        two = two[::2]
    out.append(Signature('two parameters', two, 'pairs of parameters, positional and keyword only'))
    tiny = [(None, None), (None, '1'), ('"SubThing"', None), ('Local', 'CONST')]
    three = []
    for names, combo in signatures(tiny, [3] if not deep else [3, 4]):
        for star in (None, 0, 1, 2):
            if valid(combo, star):
                three.append(['function' if deep or len(three) % 2 else 'class', render(names, combo, star)])
    out.append(Signature('three parameters', three, 'triples of parameters, positional and keyword only'))
    spec = []
    for names, combo in signatures([(None, None), ('int', '1'), ('"SubThing"', None), ('Local', 'CONST'), (None, 'Thing()')], [1, 2]):
        combo = (('str', 'None'),) + combo
        spec.append(['specific', render(['key'] + names, tuple((a, d or 'None') for a, d in combo), None)])
    out.append(Signature('specific classes', spec, 'specific classes'))
    forms = []
    for head, prefix in IMPORT_FORMS:
        t, v, mk = ('T', 'V', 'M') if prefix is None else (prefix + 'Thing', prefix + 'VALUE', prefix + 'make')
        for kind in ('function', 'class'):
            for sig in (f'a: {t} = None', f'a={v}', f'a: "{t}" = {mk}({v})', f'a=[{v}, {t}()], b: {t} = {t}()'):
                forms.append([kind, sig, head])
    out.append(Signature('import forms', forms, 'names imported in every form'))
    for name, blocks, default in (('names', BINDINGS, 'X'), ('attributes', ATTR_BINDINGS, 'X.A')):
        out.append(Signature(f'bindings of {name}', list(bindings(blocks, default, [1, 2, 3] if deep else [1, 2])),
                             'all sequences of statements which bind a name, or another name, or not here'))
    out.append(Signature('sources', [['source', x] for x in SOURCES], 'forms of definitions'))
    return out
