"""Section paths, their parts and file paths correspond to each other"""
import itertools
import os

import core
import world
from core import System, require, require_eq
from world import rec

from pyfileconf.sectionpath.sectionpath import SectionPath
from pyfileconf.exceptions.pipelinemanager import NoPipelineManagerForFilepathException

LEVEL = 'exploration'
RULE = (
    'algebra: every section path of up to the given number of parts over an alphabet which contains prefixes and suffixes '
    'of each other and file endings, and every pair of these, against the lists of their parts. layouts: every arrangement '
    'of up to three managers in a tree of folders (siblings, nested, names which are prefixes of each other, relative '
    'folders) and every file of the tree, looked up by file and by section path. A case is non-trivial if it has at '
    'least two parts or two managers.'
)
KNOWN = {}

PARTS = ['a', 'b', 'ab', 'py', '_a']


def paths(n):
    for k in range(1, n + 1):
        yield from itertools.product(PARTS, repeat=k)


class Algebra(System):
    depth = 1
    split = 1
    mutates_fs = False

    def __init__(self, n):
        self.n = n
        self.name = f'algebra:{n}'

    def setup(self):
        world.reset_pyfileconf()
        self.done = 0
        self.paths = list(paths(self.n))
        world.fxm(self.dir)
        self.pm = world.manager(os.path.join(self.dir, 'p'), 'm', 'from fxm import f\npipeline_dict = {"a": [f]}\n')

    def ops(self):
        firsts = list(paths(min(self.n, 2)))
        return [['prefix', '.'.join(f)] for f in firsts if len(f) == min(self.n, 2)] + [['short']]

    def apply(self, op):
        if op[0] == 'short':
            mine = [p for p in self.paths if len(p) < min(self.n, 2)]
        else:
            f = tuple(op[1].split('.'))
            mine = [p for p in self.paths if p[:len(f)] == f]
        for p in mine:
            self.single(p)
            for q in self.paths:
                self.pair(p, q)
        self.done = len(mine)

    def single(self, p):
        s = '.'.join(p)
        sp = SectionPath(s)
        require_eq(list(sp), list(p), f'the parts of {s}')
        require_eq(len(sp), len(p), f'the number of parts of {s}')
        require_eq(sp.path_str, s, f'the string of {s}')
        for i in range(-len(p), len(p)):
            require_eq(sp[i], p[i], f'part {i} of {s}')
        for i in range(len(p) + 1):
            for j in range(i, len(p) + 1):
                require_eq(list(sp[i:j]), list(p[i:j]), f'parts {i}:{j} of {s}')
        back = SectionPath.from_section_str_list(list(p))
        require(back == sp and back.path_str == s and hash(back) == hash(sp), f'{s} from its parts is {back}')
        for base in ('/x', '/x/y.z', 'x', './x', '../x', '/x/', '/x/../y', '/' + p[0]):
            fp = sp.to_filepath(base)
            require_eq(os.path.normpath(fp), os.path.normpath(os.path.join(base, *p)), f'file path of {s} in {base}')
            for end in ('', '.py'):
                for other in (base, os.path.abspath(base)):
                    back = SectionPath.from_filepath(other, fp + end)
                    require(back == sp, f'section path of {fp + end} in {other} is {back.path_str}')
        for kind in (s, sp):
            got = SectionPath.from_ambiguous(kind)
            require(got == sp, f'from_ambiguous({kind!r}) is {got}')
            got = SectionPath.from_ambiguous(kind, base_section_path_str='m')
            require_eq(list(got), ['m', *p], f'from_ambiguous({kind!r}) with a base')
            got = SectionPath.list_from_ambiguous(kind)
            require(got == [sp], f'list_from_ambiguous({kind!r}) is {got}')
        require(not sp == s, f'{s} equals its string')

    def pair(self, p, q):
        a, b = SectionPath('.'.join(p)), SectionPath('.'.join(q))
        require((a == b) == (p == q), f'equality of {p} and {q}')
        if p == q:
            require(hash(a) == hash(b), f'hash of {p}')
        require(bool(a.endswith(b)) == (p[-len(q):] == q), f'{p} endswith {q} is {a.endswith(b)}')
        ends = p + q
        j = SectionPath.join(a, b)
        require(list(j) == list(ends) and j.path_str == '.'.join(ends), f'join of {p} and {q} is {j}')
        for x, y in ((a.path_str, b), (a, b.path_str), (a.path_str, b.path_str)):
            require(SectionPath.join(x, y) == j, f'join of {x!r} and {y!r}')
        require(list(a) == list(p) and list(b) == list(q), f'join changed {p} or {q}')
        require(j.endswith(b), f'join of {p} and {q} does not end with {q}')
        got = SectionPath.list_from_ambiguous([a, b.path_str], base_section_path_str='x.y')
        require([list(g) for g in got] == [['x', 'y', *p], ['x', 'y', *q]], f'list of {p}, {q} is {got}')

    def state(self):
        return self.done

    def nontrivial(self, ops):
        return True


# Folders in which managers may be. Some are within each other, some have names which start with the names of others
FOLDERS = ['a', 'ab', 'a/b', 'a/b/c', 'b/a', 'a/defaults_', 'c.d', 'a/b/cd']


class Layouts(System):
    depth = 1
    split = 1
    mutates_fs = True

    def __init__(self, n):
        self.n = n
        self.name = f'layouts:{n}'

    def setup(self):
        world.reset_pyfileconf()
        world.fxm(self.dir)
        self.layout = None

    def ops(self):
        out = []
        for k in range(1, self.n + 1):
            for combo in itertools.permutations(FOLDERS, k):
                for style in ('abs', 'rel', 'slash'):
                    out.append([style, *combo])
        return out

    def apply(self, op):
        style, *folders = op
        self.layout = op
        cwd = os.getcwd()
        root = os.path.join(self.dir, 'r')
        os.makedirs(root)
        os.chdir(root)
        try:
            self.run(style, folders, root)
        finally:
            os.chdir(cwd)

    def run(self, style, folders, root):
        managers = {}
        for i, f in enumerate(folders):
            folder = {'abs': os.path.join(root, f), 'rel': f, 'slash': os.path.join(root, f) + '/'}[style]
            name = f'm{i}'
            managers[name] = (f, world.manager(
                folder, name, 'from fxm import f, g\npipeline_dict = {"s": {"t": [f]}, "u": [g, f]}\n', load=False
            ))
        for name, (f, pm) in managers.items():
            pm.load()
        # All files which exist, and some which do not
        files = []
        for r, ds, fs in os.walk(root):
            files += [os.path.join(r, x) for x in fs + ['other.py']]
        for path in files:
            rel = os.path.relpath(path, root)
            best = None
            for name, (f, pm) in managers.items():
                if rel.startswith(f + '/') and (best is None or len(f) > len(managers[best][0])):
                    best = name
            for form in (path, rel, './' + rel, os.path.join(root, 'b', '..', rel)):
                try:
                    got = pyfileconf_lookup(form)
                except NoPipelineManagerForFilepathException:
                    require(best is None, f'no manager found for {form}, which belongs to {best}')
                    continue
                require(best is not None, f'manager {got.name} found for {form}, which belongs to none')
                require(got is managers[best][1], f'manager {got.name} found for {form}, which belongs to {best}')
        for name, (f, pm) in managers.items():
            for item in ('s.t.f', 'u.g', 'u.f'):
                path = SectionPath(item).to_filepath(pm.default_config_path) + '.py'
                require(os.path.isfile(path), f'no config file for {name}.{item} at {path}')
                require_eq(
                    SectionPath.from_filepath(pm.default_config_path, path).path_str, item, f'section path of {path}'
                )
                # A config file finds the manager it belongs to while it is loaded
                world.write(path, 'from pyfileconf import context\n'
                                  'a = context.stack.currently_loading_file_section_path.path_str\n')
        for name, (f, pm) in managers.items():
            pm.reload()
            for item in ('s.t.f', 'u.g', 'u.f'):
                require_eq(pm.get(item).keywords['a'], f'{name}.{item}', f'section path seen by the config of {name}.{item}')
                view = getattr(world.Selector(), name)
                for part in item.split('.'):
                    view = getattr(view, part)
                require_eq(SectionPath.from_ambiguous(view).path_str, f'{name}.{item}', 'section path of a view')
                require_eq(
                    SectionPath.from_ambiguous(view, strip_manager_from_iv=True).path_str, item,
                    'section path of a view without the manager'
                )
                require_eq(
                    SectionPath.from_ambiguous(view, strip_manager_from_iv=True, base_section_path_str='x.y').path_str,
                    f'x.y.{item}', 'section path of a view with another base'
                )

    def state(self):
        return self.layout

    def nontrivial(self, ops):
        return any(len(op) > 2 for op in ops)


def pyfileconf_lookup(path):
    return world.PipelineManager.get_manager_by_filepath(path)


def systems(tier):
    if tier == 'quick':
        return [Algebra(4), Layouts(2)]
    return [Algebra(5), Layouts(3)]
