"""Options and logging"""
import io
import logging
import os
import sys

import core
import world
from core import System, require, require_eq
from world import rec
import pyfileconf
from pyfileconf import options

LEVEL = 'model_checking'
KNOWN = {}

MOD = '''
import pfcrec as _rec

def f(a=0):
    return _rec.HOOK('f', a)

def g(a=0):
    return _rec.HOOK('g', a)
'''
PD = 'from c15m import f, g\n\npipeline_dict = {"stuff": [f, g]}\n'
DEFAULTS = {'log_stdout': False, 'log_folder': None, 'log_file_rollover_freq': 'D', 'log_file_num_keep': 0}
VALUES = {
    'log_stdout': [True, False],
    'log_folder': ['A', 'B', 'A/C', None, 'bad'],
    'log_file_rollover_freq': ['H', 'D'],
    'log_file_num_keep': [3, 0],
}


class Failure(Exception):
    pass


class Lines(logging.Handler):
    def __init__(self):
        super().__init__(1)
        self.lines = []

    def emit(self, record):
        if record.levelno >= logging.INFO:
            self.lines.append(record.getMessage())


class Options(System):
    """Changes of options in all ways, with things printed and logged after each"""
    split = 1

    def __init__(self, name, depth, values, note):
        self.name, self.depth, self.values, self.note = name, depth, values, note

    def setup(self):
        world.reset_pyfileconf()
        options.reset()
        world.lib(self.dir, c15m=MOD)
        rec.HOOK = self.item
        self.pm = world.manager(os.path.join(self.dir, 'p'), 'm', PD)
        self.logger = logging.getLogger('pyfileconf')
        self.logger.setLevel(logging.INFO)
        self.seen = Lines()
        self.logger.addHandler(self.seen)
        self.console = io.StringIO()
        # The handler of pyfileconf for the console
        streams = [h for h in self.logger.handlers if type(h) is logging.StreamHandler]
        require_eq(len(streams), 1, 'console handlers')
        streams[0].setStream(self.console)
        self.out = io.StringIO()
        self.n_handlers = len(self.logger.handlers)
        self.values_ = dict(DEFAULTS)
        self.files = {}
        self.inside = []
        self.counter = 0
        with open(os.path.join(self.dir, 'file'), 'w') as fh:
            fh.write('x')

    def folder(self, value):
        if value == 'bad':
            return os.path.join(self.dir, 'file', 'logs')
        return None if value is None else os.path.join(self.dir, value)

    def real(self, attr, value):
        return self.folder(value) if attr == 'log_folder' else value

    def ops(self):
        out = []
        for attr, values in self.values.items():
            for v in values:
                for how in ('option', 'options', 'value'):
                    out.append(['set', how, attr, v])
                out.append(['with', attr, v])
            for how in ('option', 'options', 'value'):
                out.append(['reset', how, attr])
        out += [['reset', 'all'], ['several'], ['with-error'], ['run'], ['run-error'], ['nested'], ['section'], ['create']]
        return out

    def state(self):
        return self.values_, sorted((k, len(v)) for k, v in self.files.items())

    def item(self, tag, a):
        print(f'printed {tag} {a}')
        sys.stdout.flush()
        if tag == 'f' and self.inside:
            action = self.inside.pop()
            if action == 'error':
                raise Failure()
            if action == 'run':
                self.pm.run('stuff.g')
            print('end of f')
        return tag, a

    # Model

    def model_set(self, attr, value):
        self.values_[attr] = value

    def model_reset(self):
        self.values_ = dict(DEFAULTS)

    def expect_log(self, line):
        folder = self.values_['log_folder']
        if folder is not None:
            self.files.setdefault(folder, []).append(line)

    # Real

    def set(self, how, attr, value):
        real = self.real(attr, value)
        if how == 'option':
            return options.set_option(attr, real)
        if how == 'options':
            return options.set_options([(attr, real)])
        getattr(options, attr).value = real
        return options

    def try_set(self, how, attr, value):
        if value == 'bad':
            require(world.raises(lambda: self.set(how, attr, value)) is not None, 'no error')
            return
        self.set(how, attr, value)
        self.model_set(attr, value)

    def apply(self, op):
        kind = op[0]
        if kind == 'set':
            self.try_set(op[1], op[2], op[3])
        elif kind == 'with':
            attr, value = op[1:]
            if value == 'bad':
                require(world.raises(lambda: options.set_option(attr, self.real(attr, value)).__enter__()) is not None, 'no error')
            else:
                with options.set_option(attr, self.real(attr, value)):
                    self.model_set(attr, value)
                    self.observe()
                    self.run(['f'])
                self.model_reset()
        elif kind == 'with-error':
            try:
                with options:
                    options.set_options([('log_folder', self.folder('B')), ('log_stdout', True)])
                    self.model_set('log_folder', 'B')
                    self.model_set('log_stdout', True)
                    self.observe()
                    raise Failure()
            except Failure:
                pass
            self.model_reset()
        elif kind == 'several':
            options.set_options([('log_folder', self.folder('A')), ('log_stdout', True), ('log_file_num_keep', 3)])
            for attr, v in (('log_folder', 'A'), ('log_stdout', True), ('log_file_num_keep', 3)):
                self.model_set(attr, v)
        elif kind == 'reset':
            if op[1] == 'all':
                options.reset()
                self.model_reset()
            else:
                attr = op[2]
                if op[1] == 'option':
                    options.reset_option(attr)
                elif op[1] == 'options':
                    options.reset_options([attr])
                else:
                    getattr(options, attr).reset()
                self.model_set(attr, DEFAULTS[attr])
        elif kind == 'run':
            self.run(['f'])
        elif kind == 'section':
            self.run(['f', 'g'], 'stuff')
        elif kind == 'run-error':
            self.run(['f'], inside='error')
        elif kind == 'nested':
            self.run(['f'], inside='run')
        elif kind == 'create':
            # A manager which is created makes the log folder if it is missing
            pm = world.manager(os.path.join(self.dir, 'q'), 'q', PD)
            require_eq(pm.get('stuff.g').keywords, {'a': 0}, 'config in new project')
            for line in self.seen.lines:
                self.expect_log(line)
            self.seen.lines.clear()
            self.console.seek(0)
            self.console.truncate()
        self.observe()

    def run(self, tags, path='stuff.f', inside=None):
        log = self.values_['log_stdout']
        self.seen.lines.clear()
        lines = []
        for tag in tags:
            lines.append(f'printed {tag} 0')
            if tag == 'f' and inside == 'error':
                break
            if tag == 'f' and inside:
                lines.append('printed g 0')
            if tag == 'f' and inside:
                lines.append('end of f')
        self.inside = [inside] if inside else []
        before = sys.stdout
        sys.stdout = self.out
        try:
            self.out.seek(0)
            self.out.truncate()
            try:
                self.pm.run(path)
                require(inside != 'error', 'no error')
            except Failure:
                require(inside == 'error', 'error')
            require(sys.stdout is self.out, 'stdout was not restored')
        finally:
            sys.stdout = before
        printed = self.out.getvalue()
        logged = [l for l in self.seen.lines if l.startswith(('printed', 'end of'))]
        if log:
            require_eq(logged, lines, 'printed lines which are logged')
            require_eq(printed, '', 'printed lines which are not only logged')
        else:
            require_eq(logged, [], 'printed lines which are logged without log_stdout')
            require_eq(printed, ''.join(l + '\n' for l in lines), 'printed lines')
        for line in self.seen.lines:
            self.expect_log(line)
        self.seen.lines.clear()

    def observe(self):
        for attr, value in self.values_.items():
            require_eq(getattr(options, attr).value, self.real(attr, value), f'value of {attr}')
            require_eq(getattr(options, attr).default_value, DEFAULTS[attr], f'default of {attr}')
        # A message to the log arrives exactly once everywhere
        self.seen.lines.clear()
        self.console.seek(0)
        self.console.truncate()
        self.counter += 1
        message = f'message {self.counter}'
        self.logger.info(message)
        require_eq(self.seen.lines, [message], 'message to the log')
        require_eq(self.console.getvalue(), f'[pyfileconf INFO]: {message}\n', 'log in console')
        self.expect_log(message)
        self.seen.lines.clear()
        for folder in ('A', 'B', 'A/C'):
            path = os.path.join(self.dir, folder, 'pyfileconf.log')
            got = world.read(path) if os.path.exists(path) else None
            want = self.files.get(folder)
            if want is None:
                require(not got, 'log in folder %s, which was not used: %r', folder, got)
            else:
                require_eq(got, ''.join(f'[pyfileconf INFO]: {line}\n' for line in want), f'log in folder {folder}')
        handlers = [h for h in self.logger.handlers if isinstance(h, logging.handlers.TimedRotatingFileHandler)]
        require_eq(len(handlers), int(self.values_['log_folder'] is not None), 'file handlers')
        require_eq(len(self.logger.handlers), self.n_handlers + len(handlers), 'handlers')
        if handlers:
            h = handlers[0]
            require_eq(h.when, self.values_['log_file_rollover_freq'], 'rollover frequency in use')
            require_eq(h.backupCount, self.values_['log_file_num_keep'], 'number of files kept in use')


def systems(tier):
    more = tier == 'thorough'
    return [
        Options('folders', 4 if more else 3, {'log_stdout': [True], 'log_folder': ['A', 'B', None]}, 'folder and stdout'),
        Options('all', 3 if more else 2, VALUES, 'all options and values'),
    ]
