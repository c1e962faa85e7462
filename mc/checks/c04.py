"""Configuration which is computed from other items follows the changes of those items"""
import itertools
import os

import core
import world
from core import System, require, require_eq
from world import rec

LEVEL = 'model_checking'
KNOWN = {}

FXR = '''
import pfcrec as _rec
from pyfileconf import Selector

def reader(x=0, y=0):
    s = Selector()
    return ('reader', x, y, s.m.cls.sec.one.a)

def caller(x=0, y=0):
    s = Selector()
    return ('caller', x, y, s.m.stuff.f())

def outer(x=0, y=0):
    return ('outer', x, y, _rec.PM.run('rt.reader'))

def getter(x=0, y=0):
    return ('getter', x, y, _rec.PM.get('cls.sec.two').a)
'''


# Each way in which an item may use another item while it is running, by the kind of the other item.
# As (name, expression, what it sees), which is the whole result of running the item or only the value of a
WAYS = {
    'f': [
        ('run', "_rec.PM.run('stuff.f')", 'result'),
        ('list', "_rec.PM.run(['stuff.f'])[0]", 'result'),
        ('section', "_rec.PM.run('stuff')[0]", 'result'),
        ('get', "_rec.PM.get('stuff.f')()", 'result'),
        ('get section', "_rec.PM.get('stuff')[0]()", 'result'),
        ('runner', "_rec.PM.runner.stuff.f()", 'result'),
        ('view', "Selector().m.stuff.f()", 'result'),
        ('view keywords', "Selector().m.stuff.f.keywords['a']", 'a'),
    ],
    'K': [
        ('run', "_rec.PM.run('kl.K')", 'result'),
        ('section', "_rec.PM.run('kl')[0]", 'result'),
        ('get', "_rec.PM.get('kl.K').a", 'a'),
        ('runner', "_rec.PM.runner.kl.K.a", 'a'),
        ('view', "Selector().m.kl.K()()", 'result'),
        ('view attribute', "Selector().m.kl.K.a", 'a'),
    ],
    'S': [
        ('run', "_rec.PM.run('cls.sec.one')", 'result'),
        ('section', "_rec.PM.run('cls.sec')[0]", 'result'),
        ('get', "_rec.PM.get('cls.sec.one').a", 'a'),
        ('get section', "_rec.PM.get('cls.sec')[0].a", 'a'),
        ('runner', "_rec.PM.runner.cls.sec.one.a", 'a'),
        ('view', "Selector().m.cls.sec.one()", 'result'),
        ('view attribute', "Selector().m.cls.sec.one.a", 'a'),
        ('view method', "Selector().m.cls.sec.one.other()[2]", 'a'),
    ],
    'U': [
        ('run', "_rec.PM.run('upd.sec.one')", 'result'),
        ('get', "_rec.PM.get('upd.sec.one').a", 'a'),
        ('view', "Selector().m.upd.sec.one()", 'result'),
        ('view attribute', "Selector().m.upd.sec.one.a", 'a'),
    ],
}
WAY_PATHS = {'f': 'm.stuff.f', 'K': 'm.kl.K', 'S': 'm.cls.sec.one', 'U': 'm.upd.sec.one'}

FXW = '''
import pfcrec as _rec
from pyfileconf import Selector

def use(x=0, y=0):
    return ('use', x, y, {expr})

class Use:
    def __init__(self, x=0, y=0):
        self.x = x
        self.y = y

    def __call__(self):
        return ('Use', self.x, self.y, {expr})
'''


class Node:
    """Reference model of an item whose file may refer to other items"""

    def __init__(self, name, path, kind, own, deps):
        self.name = name
        self.path = path  # with manager
        self.kind = kind
        self.own = own
        self.deps = deps  # list of (node name, form)
        self.cur = None
        self.persisted = {}
        self.runtime = set()  # nodes which depend on this one as they used it while running

    @property
    def manager(self):
        return self.path.split('.')[0]

    @property
    def rel(self):
        return self.path.split('.', 1)[1]


class Model:
    def __init__(self, nodes):
        self.nodes = {n.name: n for n in nodes}

    def file(self, n):
        """What executing the config file of the node gives now"""
        if n.kind == 'R':
            return {'x': 0, 'y': 0}
        refs = []
        for dep, form in n.deps:
            d = self.nodes[dep]
            if form == 'attr':
                self.touch(d)
                refs.append((d.cur['a'], d.cur['b']))
            elif form == 'call':
                self.touch(d)
                refs.append((d.kind, *d.cur.values()))
            elif form == 'view':
                refs.append(('view', dep))
        out = {}
        if n.kind == 'S':
            out['name'] = n.name.split('_')[-1]
        if n.kind == 'U':
            out['key'] = n.name.split('_')[-1]
        out['a'] = (n.own, *refs) if refs else n.own
        out['c' if n.kind == 'g' else 'b'] = 1
        return out

    def touch(self, n):
        if n.cur is None:
            n.cur = self.file(n)

    def dependents(self, n):
        """Items refreshed when this one changes. A reference which only passes the item on does not count"""
        return [
            d for d in self.nodes.values()
            if (d.cur is not None and any(dep == n.name and form != 'view' for dep, form in d.deps))
            or d.name in n.runtime
        ]

    def set(self, n, new):
        changed = new != n.cur
        n.cur = new
        if changed:
            self.propagate(n)

    def propagate(self, n):
        for d in self.dependents(n):
            self.refresh(d)

    def refresh(self, n):
        self.touch(n)
        self.set(n, {**self.file(n), **n.persisted})

    def update(self, n, updates, persist):
        self.touch(n)
        if persist:
            n.persisted.update(updates)
        self.set(n, {**n.cur, **updates})

    def reset(self, n):
        self.touch(n)
        n.persisted = {}
        self.set(n, self.file(n))


EXPR = {
    'attr': '(s.{p}.a, s.{p}.b)',
    'call': 's.{p}()',
    'view': 's.{p}',
}

KLASS = {'S': 'S', 'U': 'U', 'K': 'K'}


class DepSystem(System):
    users = 'reader, caller, outer, getter'

    def __init__(self, name, make_nodes, alphabet, depth, split=1, warm=True, note='', check_order=None):
        self.name = name
        self.make_nodes = make_nodes
        self.alphabet = alphabet
        self.depth = depth
        self.split = split
        self.warm = warm
        self.note = note

    def setup(self):
        world.reset_pyfileconf()
        mod = world.fxm(self.dir)
        world.lib(self.dir, fxr=self.runtime_module())
        self.model = Model(self.make_nodes())
        self.pms = {}
        used = {n.manager for n in self.model.nodes.values()} | {'m'}
        for m in sorted(used):
            files = {}
            for n in self.model.nodes.values():
                if n.manager != m or n.kind == 'R':
                    continue
                files['defaults/' + n.rel.replace('.', '/') + '.py'] = self.source(n)
            self.pms[m] = world.manager(
                os.path.join(self.dir, m), name=m,
                pipeline_dict=f'from fxm import f, g, h, K\nfrom fxr import {self.users}\n'
                              'pipeline_dict = {"stuff": [f, g], "kl": [K], "deep": {"er": [h]},'
                              f' "rt": [{self.users}]}}\n',
                specifics=[
                    world.scd('cls', mod.S, imports=['from pyfileconf import Selector'], assigns=['s = Selector()']),
                    world.scd('upd', mod.U, key_attr='key', execute_attr='go'),
                ],
                specific_dicts={
                    'cls': 'class_dict = {"sec": ["one", "two", "three", "four"]}\n',
                    'upd': 'class_dict = {"sec": ["one"]}\n',
                },
                files=files,
            )
        rec.PM = self.pms['m']
        if self.warm:
            for n in reversed(list(self.model.nodes.values())):
                self.observe(n)

    def runtime_module(self):
        return FXR

    def source(self, n):
        refs = ', '.join(EXPR[form].format(p=self.model.nodes[dep].path) for dep, form in n.deps)
        value = f'({n.own!r}, {refs},)' if refs else repr(n.own)
        head = 'from pyfileconf import Selector\n'
        key = ''
        if n.kind in KLASS:
            head += f'from fxm import {n.kind}\n'
        if n.kind == 'S':
            key = f'name = {n.rel.split(".")[-1]!r}\n'
        if n.kind == 'U':
            key = f'key = {n.rel.split(".")[-1]!r}\n'
        return f'{head}\ns = Selector()\n{key}a = {value}\n{"c" if n.kind == "g" else "b"} = 1\n'

    def ops(self):
        return self.alphabet

    def encode(self, value):
        if world.is_item_view(value):
            path = value.section_path_str
            if any(n.path == path and n.kind in 'fgh' for n in self.model.nodes.values()):
                config = value.keywords
                return ['view', path, self.encode(config['a']), config['b']]
            return ['view', path, self.encode(value.a), value.b]
        if isinstance(value, tuple):
            return [self.encode(v) for v in value]
        return value

    def expect(self, value):
        if isinstance(value, tuple) and value and value[0] == 'view':
            d = self.model.nodes[value[1]]
            self.model.touch(d)
            return ['view', d.path, self.expect(d.cur['a']), d.cur['b']]
        if isinstance(value, tuple):
            return [self.expect(v) for v in value]
        return value

    def observe(self, n, obj=None):
        """The current configuration as seen by getting the item, compared to the model"""
        self.model.touch(n)
        if obj is None:
            obj = self.pms[n.manager].get(n.rel)
        values = dict(obj.keywords) if n.kind in 'fghR' and n.name != 'Use' else {k: getattr(obj, k) for k in n.cur}
        want = {k: self.expect(v) for k, v in n.cur.items()}
        require_eq({k: self.encode(v) for k, v in values.items()}, want, f'configuration of {n.path}')
        return obj

    def run(self, n):
        self.model.touch(n)
        result = self.pms[n.manager].run(n.rel)
        self.compare_run(n, result)

    def compare_run(self, n, result):
        c = n.cur
        if n.kind == 'S':
            want = ('S', c['name'], c['a'], c['b'])
        elif n.kind == 'U':
            want = ('U', c['key'], c['a'], c['b'])
        else:
            want = (n.kind, *c.values())
        require_eq(self.encode(result), self.expect(want), f'result of running {n.path}')

    def apply(self, op):
        m = self.model
        n = m.nodes[op[1]]
        pm = self.pms[n.manager]
        if op[0] == 'upd':
            if op[3] or op[1] == 'never':
                pm.update(dict(op[2]), section_path_str=n.rel)
            else:
                pm.update(section_path_str=n.rel, pyfileconf_persist=False, **op[2])
            m.update(n, op[2], op[3])
        elif op[0] == 'batch':
            # An update of several items at once, given from the dependent to what it depends on
            pm.update_batch([dict(section_path_str=m.nodes[i].rel, **u) for i, u in op[2]])
            for i, u in op[2]:
                m.update(m.nodes[i], u, True)
        elif op[0] == 'reset':
            pm.reset(n.rel)
            m.reset(n)
        elif op[0] == 'refresh':
            pm.refresh(n.rel)
            m.refresh(n)
        elif op[0] == 'get':
            self.observe(n)
        elif op[0] == 'run':
            self.run(n)
        elif op[0] == 'bind':
            # Set the configuration of an item to another item. Only passes it on
            d = m.nodes[op[2]]
            pm.update(section_path_str=n.rel, a=world.ItemView.from_section_path_str(d.path))
            m.update(n, {'a': ('view', op[2])}, True)
        else:
            raise core.HarnessError(op)

    def check(self):
        nodes = list(self.model.nodes.values())
        for n in reversed(nodes):
            self.observe(n)
        for n in nodes:
            self.run(n)
        for n in nodes:
            self.observe(n)
        require_eq(len(world.context.stack.frames), 0, 'frames left on the context stack')

    def state(self):
        return [[n.name, n.cur, n.persisted, n.runtime] for n in self.model.nodes.values()]


NAMES = ['one', 'two', 'three', 'four']


def topology(edges, k, forms=('attr',), managers=('m',)):
    """Nodes of a DAG where edges go from earlier to later nodes"""
    def make():
        nodes = []
        for j in range(k):
            deps = [(NAMES[i], forms[(i + j) % len(forms)]) for i, jj in edges if jj == j]
            nodes.append(Node(NAMES[j], f'{managers[j % len(managers)]}.cls.sec.{NAMES[j]}', 'S', 10 * (j + 1), deps))
        return nodes
    return make


def topo_alphabet(k):
    ops = []
    for j in range(k):
        ops += [['upd', NAMES[j], {'b': 5 + j}, True], ['upd', NAMES[j], {'a': 70 + j}, False], ['reset', NAMES[j]]]
    ops.append(['get', NAMES[k - 1]])
    return ops


class RuntimeSystem(DepSystem):
    """Items which use other items while they run"""

    def compare_run(self, n, result):
        m = self.model
        if n.kind != 'R':
            return super().compare_run(n, result)
        require_eq(self.encode(result), self.expect(self.running(n)), f'result of running {n.path}')

    def running(self, n):
        m = self.model
        m.touch(n)
        c = n.cur
        if n.name == 'reader':
            d = m.nodes['one']
            m.touch(d)
            out = d.cur['a']
        elif n.name == 'caller':
            d = m.nodes['f']
            m.touch(d)
            out = ('f', d.cur['a'], d.cur['b'])
        elif n.name == 'getter':
            d = m.nodes['two']
            m.touch(d)
            out = d.cur['a']
        elif n.name == 'outer':
            d = m.nodes['reader']
            out = self.running(d)
        d.runtime.add(n.name)
        return (n.name, c['x'], c['y'], out)


def runtime_nodes():
    nodes = [
        Node('one', 'm.cls.sec.one', 'S', 10, []),
        Node('two', 'm.cls.sec.two', 'S', 20, [('one', 'attr')]),
        Node('f', 'm.stuff.f', 'f', 30, []),
    ]
    for name in ('reader', 'caller', 'getter', 'outer'):
        nodes.append(Node(name, 'm.rt.' + name, 'R', 0, []))
    return nodes


class WaySystem(RuntimeSystem):
    """An item which uses another item in some way while it runs"""

    def __init__(self, user, kind, way, expr, sees, warm):
        name = f'{user} {kind} by {way}, {"warm" if warm else "cold"}'
        alphabet = [
            ['run', user], ['upd', 'one', {'a': 70}, True], ['upd', user, {'x': 5}, False], ['get', 'one'],
            ['reset', 'one'],
        ]
        super().__init__(name, lambda: [
            Node('one', WAY_PATHS[kind], kind, 10, []),
            Node(user, 'm.rt.' + user, 'R', 0, []),
        ], alphabet, 3, 1, warm, 'each way in which an item may use another item while running')
        self.expr = expr
        self.users = 'use, Use'
        self.sees = sees

    def runtime_module(self):
        return FXR + FXW.format(expr=self.expr)

    def running(self, n):
        m = self.model
        c = n.cur
        d = m.nodes['one']
        m.touch(d)
        out = d.cur['a']
        if self.sees == 'result':
            out = (d.kind, *d.cur.values())
        d.runtime.add(n.name)
        return (n.name, c['x'], c['y'], out)


def way_systems(warms):
    for kind, ways in WAYS.items():
        for way, expr, sees in ways:
            for warm in warms:
                yield WaySystem('use', kind, way, expr, sees, warm)
    for kind in ('f', 'K'):
        for way, expr, sees in WAYS[kind]:
            yield WaySystem('Use', kind, way, expr, sees, True)


def kinds_nodes(consumer, provider, form):
    """provider <- consumer <- last"""
    paths = {'S': 'm.cls.sec.{}', 'U': 'm.upd.sec.one', 'K': 'm.kl.K', 'f': 'm.stuff.f', 'g': 'm.stuff.g', 'nS': 'n.cls.sec.{}'}

    def node(name, kind, own, deps):
        path = paths[kind].format(name)
        real = {'nS': 'S'}.get(kind, kind)
        n = Node(name, path, real, own, deps)
        if kind == 'U':
            n.fixed_key = 'one'
        return n

    def make():
        return [
            node('one', provider, 10, []),
            node('two', consumer, 20, [('one', form)]),
            node('three', 'S', 30, [('two', 'call' if consumer in 'fg' else 'view' if form == 'view' else 'attr')]),
        ]
    return make


def systems(tier):
    deep = tier == 'thorough'
    out = []
    pairs = list(itertools.combinations(range(3), 2))
    for r in range(1, 4):
        for edges in itertools.combinations(pairs, r):
            name = ','.join(f'{i + 1}{j + 1}' for i, j in edges)
            out.append(DepSystem(f'3 items, edges {name}', topology(edges, 3), topo_alphabet(3), 4 if deep else 3,
                                 2 if deep else 1, True, 'all sequences from a loaded project'))
            out.append(DepSystem(f'3 items, cold, edges {name}', topology(edges, 3), topo_alphabet(3), 3 if deep else 2,
                                 1, False, 'all sequences from a project in which nothing is loaded'))
            if deep or r == 3:
                out.append(DepSystem(f'2 managers, edges {name}', topology(edges, 3, managers=('m', 'n')),
                                     topo_alphabet(3), 3 if deep else 2, 1, True, 'items in two managers'))
                out.append(DepSystem(f'views and attributes, edges {name}', topology(edges, 3, forms=('view', 'attr')),
                                     topo_alphabet(3), 3 if deep else 2, 1, True, 'some references only pass the item on'))
    pairs4 = list(itertools.combinations(range(4), 2))
    shapes = [e for r in range(3, 7) for e in itertools.combinations(pairs4, r) if any(j == 3 for i, j in e)
              and any(i == 0 for i, j in e)]
    if not deep:
        shapes = [e for e in shapes if len(e) in (3, 4) and {0, 1, 2, 3} == {x for p in e for x in p}]
    for edges in shapes:
        name = ','.join(f'{i + 1}{j + 1}' for i, j in edges)
        alphabet = [['upd', 'one', {'b': 5}, True], ['upd', 'one', {'a': 70}, False], ['reset', 'one'],
                    ['upd', 'two', {'a': 71}, True], ['upd', 'three', {'b': 7}, False], ['upd', 'four', {'b': 8}, False]]
        if deep:
            alphabet += [['reset', 'two'], ['refresh', 'four'], ['upd', 'three', {'a': 72}, True]]
        out.append(DepSystem(f'4 items, edges {name}', topology(edges, 4), alphabet, 3 if deep else 2, 1, True,
                             'all sequences for each shape of 4 items'))
    for consumer, provider, form in [
        ('f', 'S', 'attr'), ('K', 'S', 'attr'), ('S', 'K', 'attr'), ('S', 'f', 'call'), ('g', 'f', 'call'),
        ('K', 'f', 'call'), ('f', 'K', 'attr'), ('S', 'nS', 'attr'), ('f', 'nS', 'attr'), ('nS', 'K', 'attr'),
        ('nS', 'f', 'call'), ('f', 'K', 'view'), ('K', 'S', 'view'),
    ]:
        alphabet = [
            ['upd', 'one', {'b': 5}, True], ['upd', 'one', {'a': 70}, False], ['reset', 'one'],
            ['upd', 'two', {'c' if consumer == 'g' else 'b': 6}, False], ['upd', 'two', {'a': 71}, True], ['reset', 'two'],
            ['refresh', 'three'],
            ['upd', 'three', {'b': 7}, False], ['run', 'two'],
        ]
        for warm in (True, False) if deep else (True,):
            out.append(DepSystem(f'{consumer} uses {form} of {provider}, {"warm" if warm else "cold"}',
                                 kinds_nodes(consumer, provider, form), alphabet,
                                 3 if deep else 2, 1, warm, 'references between kinds of items'))
    alphabet = [
        ['run', 'reader'], ['run', 'caller'], ['run', 'getter'], ['run', 'outer'],
        ['upd', 'one', {'a': 70}, True], ['upd', 'f', {'b': 6}, False], ['reset', 'one'],
        ['upd', 'reader', {'x': 1}, False], ['upd', 'outer', {'y': 2}, False], ['upd', 'getter', {'x': 4}, True],
        ['upd', 'getter', {'y': 4}, False],
    ]
    out.append(RuntimeSystem('dependencies from running', runtime_nodes, alphabet, 4 if deep else 3, 1, False,
                             'items which use other items while running'))
    alphabet = [
        ['bind', 'two', 'one'], ['bind', 'three', 'two'], ['upd', 'one', {'a': 70}, True], ['upd', 'one', {'b': 5}, False],
        ['reset', 'one'], ['reset', 'two'], ['refresh', 'three'], ['upd', 'two', {'b': 6}, False], ['upd', 'two', {'a': 7}, True],
        ['batch', 'two', [['three', {'b': 9}], ['two', {'b': 8}], ['one', {'a': 3}]]],
    ]
    out.append(DepSystem('items bound to items', topology([(0, 1), (1, 2)], 3), alphabet, 4 if deep else 3, 1, True,
                         'configuration set to item views'))
    out += way_systems((True, False))
    return out
