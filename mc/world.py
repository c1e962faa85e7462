"""
Building of pyfileconf projects in scratch folders.
"""
import importlib
import logging
import os
import sys
import types

import core  # sets up sys.path

import pyfileconf
from pyfileconf import PipelineManager, Selector, IterativeRunner, context
from pyfileconf.selector.models.itemview import ItemView, is_item_view
from pyfileconf.batch import BatchUpdater
from pyfileconf.sectionpath.sectionpath import SectionPath


# Recorder module which fixture modules import. Never wiped by reloading, as it is loaded already.
rec = types.ModuleType('pfcrec')
rec.CALLS = []
rec.INITS = []
rec.UPDATES = []
rec.HOOK = None
rec.BOOM = ZeroDivisionError
sys.modules['pfcrec'] = rec

FXM = '''
import pfcrec as _rec

def f(a, b=1):
    _rec.CALLS.append(('f', a, b))
    if _rec.HOOK is not None:
        _rec.HOOK('f', a, b)
    return ('f', a, b)

def g(a=None, c=3):
    _rec.CALLS.append(('g', a, c))
    return ('g', a, c)

def h(a=0, s=0):
    _rec.CALLS.append(('h', a, s))
    return ('h', a, s)

def boom(a=1, b=1):
    _rec.CALLS.append(('boom', a, b))
    raise _rec.BOOM('boom')

class K:
    def __init__(self, a=None, b=1):
        _rec.INITS.append(('K', self))
        self.a = a
        self.b = b
    def __call__(self):
        _rec.CALLS.append(('K', self.a, self.b))
        if _rec.HOOK is not None:
            _rec.HOOK('K', self.a, self.b)
        return ('K', self.a, self.b)

class S:
    def __init__(self, name=None, a=None, b=1):
        _rec.INITS.append(('S', self))
        self.name = name
        self.a = a
        self.b = b
    def __call__(self):
        _rec.CALLS.append(('S', self.name, self.a, self.b))
        return ('S', self.name, self.a, self.b)
    def other(self):
        return ('S.other', self.name, self.a, self.b)

class U:
    """Specific class with a custom update function, key attribute and execute attribute"""
    def __init__(self, key=None, a=None, b=1):
        _rec.INITS.append(('U', self))
        self.key = key
        self.a = a
        self.b = b
    def _pyfileconf_update_(self, key=None, a=None, b=1):
        _rec.UPDATES.append(('U', key, a, b))
        self.key = key
        self.a = a
        self.b = b
    def go(self):
        _rec.CALLS.append(('U', self.key, self.a, self.b))
        return ('U', self.key, self.a, self.b)
'''


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w', encoding='utf8') as f:
        f.write(text)


def read(path):
    with open(path, encoding='utf8') as f:
        return f.read()


def reset_pyfileconf():
    logging.getLogger('pyfileconf').setLevel(1000)
    context.reset()
    pyfileconf.reset_plugins()
    rec.CALLS.clear()
    rec.INITS.clear()
    rec.UPDATES.clear()
    rec.HOOK = None
    rec.BOOM = ZeroDivisionError


def lib(root, **modules):
    """Write modules to root/lib and make them importable"""
    path = os.path.join(root, 'lib')
    os.makedirs(path, exist_ok=True)
    for name, text in modules.items():
        write(os.path.join(path, name.replace('__', '/') + '.py'), text)
    if path not in sys.path:
        sys.path.insert(0, path)
    importlib.invalidate_caches()
    return path


# Special methods of the classes of items, which must not make a difference
ODD = {
    'empty': 'def __len__(self): return 0',
    'false': 'def __bool__(self): return False',
    'no-truth': 'def __bool__(self): raise ValueError("no truth value")',
    'equal': 'def __eq__(self, other): return True\n    __hash__ = object.__hash__',
    'unequal': 'def __eq__(self, other): return False\n    __hash__ = object.__hash__',
    'no-compare': 'def __eq__(self, other): raise ValueError("cannot compare")',
    'elementwise': 'def __eq__(self, other): return [False]\n    __hash__ = None',
    'container': 'def __iter__(self): return iter(())\n    def __getitem__(self, key): raise KeyError(key)\n'
                 '    def __contains__(self, key): return True',
    'named': 'name = "odd"\n    key = "odd"\n    type = "odd"\n    item = "odd"\n    config = "odd"\n    path = "odd"\n    klass = "odd"',
    'items': 'def items(self): return []\n    def keys(self): return []\n    def get(self, *args): raise KeyError(args)\n'
             '    def update(self, *args): raise TypeError(args)',
    'generous': 'def __getattr__(self, name):\n        if name.startswith("_"): raise AttributeError(name)\n        return self',
    'context': 'def __enter__(self): raise ValueError\n    def __exit__(self, *args): return True\n    def __del__(self): pass',
    'dir': 'def __dir__(self): return []',
}


def fxm(root, odd=None):
    text = FXM
    if odd:
        for kind in 'KSU':
            text = text.replace(f'class {kind}:', f'class {kind}(Odd):')
        text = f'class Odd:\n    {ODD[odd]}\n{text}'
    else:
        text = 'from pyfileconf.userbase import PyfileconfBase\n' + text.replace('class S:', 'class S(PyfileconfBase):')
    lib(root, fxm=text)
    import fxm as mod
    return mod


def scd(name, klass, imports=(), assigns=(), **kw):
    return dict(name=name, **{'class': klass}, always_import_strs=list(imports), always_assign_strs=list(assigns), **kw)


def manager(root, name='m', pipeline_dict=None, specifics=(), specific_dicts=None, files=None, load=True, **kwargs):
    """
    :param root: project folder
    :param pipeline_dict: full source of pipeline_dict.py
    :param specifics: specific class config dicts
    :param specific_dicts: name to full source of <name>_dict.py
    :param files: relative path in project to source
    """
    os.makedirs(root, exist_ok=True)
    if pipeline_dict is not None:
        write(os.path.join(root, 'pipeline_dict.py'), pipeline_dict)
    for n, text in (specific_dicts or {}).items():
        write(os.path.join(root, f'{n}_dict.py'), text)
    for rel, text in (files or {}).items():
        write(os.path.join(root, rel), text)
    pm = PipelineManager(folder=root, name=name, specific_class_config_dicts=list(specifics), **kwargs)
    if load:
        pm.load()
    return pm


def project_texts(root):
    out = {}
    for r, ds, fs in os.walk(root):
        for f in fs:
            p = os.path.join(r, f)
            with open(p, 'rb') as fh:
                out[os.path.relpath(p, root)] = fh.read().decode('utf8', 'replace')
    return out


def exec_config(path, extra=None):
    """Executes a config file, returns its variables, without going through pyfileconf"""
    ns = dict(extra or {})
    exec(compile(read(path), path, 'exec'), ns)
    return {k: v for k, v in ns.items() if not k.startswith('__')}


def raises(func, *args, **kwargs):
    """Returns the exception, or None"""
    try:
        func(*args, **kwargs)
    except (KeyboardInterrupt, core.Violation, core.OpTimeout):
        raise
    except BaseException as e:
        return e
    return None
