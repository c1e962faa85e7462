"""
Explicit-state exploration of the real pyfileconf implementation.

Two engines, both exhaustive within stated bounds:

* histories: depth first exploration of every operation sequence up to a depth. A node of the search
  is a live process which has executed the sequence on the real code, in lockstep with a reference
  model. Children are forked, so every sequence is executed on exactly the state its prefix produced
  (memory, modules, files), and every prefix gets its own final observation which cannot disturb
  the sequences which extend it.
* cases: every element of a finite input space is executed, each in its own forked process.

Nothing in here reads or depends on the source text of pyfileconf.
"""
import os
import sys

sys.dont_write_bytecode = True
REPO = os.environ.get('PFC_REPO', '/repo')
sys.path.insert(0, REPO)

import gc
import hashlib
import json
import mmap
import shutil
import signal
import struct
import tempfile
import time
import traceback
import warnings

warnings.simplefilter('ignore')

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
OP_TIMEOUT = 40
N_WORKERS = int(os.environ.get('PFC_WORKERS', '8'))


class Violation(BaseException):
    """The implementation broke the property"""


class HarnessError(BaseException):
    """The machinery itself is broken"""


class OpTimeout(BaseException):
    pass


def _on_alarm(*args):
    raise OpTimeout()


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def require_eq(actual, expected, what):
    if not _same(actual, expected):
        raise Violation(f'{what}: expected {expected!r}, got {actual!r}')


def _same(a, b):
    """Equality which also distinguishes types, so that True is not 1 and (1,) is not [1]"""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(_same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    try:
        return bool(a == b)
    except Exception:
        return a is b


def canon(obj):
    """Canonical form for hashing of model states"""
    if isinstance(obj, dict):
        return ['d'] + sorted([[canon(k), canon(v)] for k, v in obj.items()], key=repr)
    if isinstance(obj, (list, tuple)):
        return [type(obj).__name__] + [canon(x) for x in obj]
    if isinstance(obj, (set, frozenset)):
        return ['s'] + sorted([canon(x) for x in obj], key=repr)
    return repr(obj)


def scratch_base():
    base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else tempfile.gettempdir()
    return base


class Fs:
    """Snapshot and restore of a scratch folder"""

    def __init__(self, root):
        self.root = root
        self.files = {}
        self.dirs = set()
        for r, ds, fs in os.walk(root):
            rel = os.path.relpath(r, root)
            self.dirs.add(rel)
            for f in fs:
                p = os.path.join(r, f)
                with open(p, 'rb') as fh:
                    self.files[os.path.normpath(os.path.join(rel, f))] = fh.read()

    def restore(self):
        seen = set()
        seen_dirs = set()
        for r, ds, fs in os.walk(self.root, topdown=True):
            rel = os.path.normpath(os.path.relpath(r, self.root))
            if rel not in self.dirs:
                shutil.rmtree(r)
                ds[:] = []
                continue
            seen_dirs.add(rel)
            for f in fs:
                p = os.path.join(r, f)
                key = os.path.normpath(os.path.join(rel, f))
                if key not in self.files:
                    os.remove(p)
                    continue
                seen.add(key)
                with open(p, 'rb') as fh:
                    same = fh.read() == self.files[key]
                if not same:
                    with open(p, 'wb') as fh:
                        fh.write(self.files[key])
        for d in sorted(self.dirs - seen_dirs):
            os.makedirs(os.path.join(self.root, d), exist_ok=True)
        for key in self.files.keys() - seen:
            with open(os.path.join(self.root, key), 'wb') as fh:
                fh.write(self.files[key])

    def text(self, prefix=''):
        return {k: v.decode('utf8', 'replace') for k, v in self.files.items() if k.startswith(prefix)}


class System:
    """
    A system to explore: the real code plus a reference model.

    setup: build the real world (in self.dir, which exists and is empty) and the model.
    ops: operations enabled in the current model state, in a fixed order. JSON values.
    apply: run one operation on the real code and on the model, comparing what is observable at once.
    check: final observation. May disturb the state, as it is only run at the end of a history.
    state: model state, for counting distinct states.
    """
    name = 'system'
    depth = 3
    split = 1
    mutates_fs = True
    traces = ()

    def setup(self):
        raise NotImplementedError

    def ops(self):
        raise NotImplementedError

    def apply(self, op):
        raise NotImplementedError

    def check(self):
        pass

    def state(self):
        return None

    def nontrivial(self, ops):
        return True


class Shared:
    """Counters shared between forked processes"""
    NAMES = ['nodes', 'transitions', 'checks', 'violations', 'harness_errors', 'truncated', 'nontrivial']

    def __init__(self, n):
        self.n = n
        self.map = mmap.mmap(-1, 8 * len(self.NAMES) * n)

    def add(self, worker, name, amount=1):
        off = 8 * (worker * len(self.NAMES) + self.NAMES.index(name))
        cur, = struct.unpack_from('<q', self.map, off)
        struct.pack_into('<q', self.map, off, cur + amount)

    def total(self, name):
        i = self.NAMES.index(name)
        return sum(struct.unpack_from('<q', self.map, 8 * (w * len(self.NAMES) + i))[0] for w in range(self.n))


class Ctx:
    def __init__(self, tmp, deadline, n_workers):
        self.tmp = tmp
        self.deadline = deadline
        self.shared = Shared(n_workers)
        self.worker = 0
        self.n_workers = n_workers
        self.claims = os.path.join(tmp, 'claims')
        os.makedirs(self.claims, exist_ok=True)
        self.vfile = os.path.join(tmp, 'violations')
        self.efile = os.path.join(tmp, 'errors')
        self.sfile = None
        self.stop = os.path.join(tmp, 'stop')
        self.samples = os.path.join(tmp, 'samples')

    def claim(self, key):
        path = os.path.join(self.claims, hashlib.sha1(key.encode()).hexdigest())
        try:
            os.close(os.open(path, os.O_CREAT | os.O_EXCL | os.O_WRONLY))
            return True
        except FileExistsError:
            return False

    def stopped(self):
        if os.path.exists(self.stop):
            return True
        if time.time() > self.deadline:
            self.shared.add(self.worker, 'truncated')
            return True
        return False

    def append(self, path, data):
        fd = os.open(path, os.O_CREAT | os.O_APPEND | os.O_WRONLY)
        try:
            os.write(fd, data)
        finally:
            os.close(fd)

    def violation(self, system, ops, msg):
        self.shared.add(self.worker, 'violations')
        self.append(self.vfile, (json.dumps({'system': system.name, 'ops': ops, 'message': str(msg)[:6000]}) + '\n').encode())
        open(self.stop, 'w').close()

    def error(self, system, ops, msg):
        self.shared.add(self.worker, 'harness_errors')
        self.append(self.efile, (json.dumps({'system': system.name, 'ops': ops, 'message': str(msg)[:6000]}) + '\n').encode())
        open(self.stop, 'w').close()

    def digest(self, system):
        return hashlib.blake2b(
            json.dumps([system.name, canon(system.state())], default=repr).encode(), digest_size=12
        ).digest()

    def record_state(self, system):
        digest = self.digest(system)
        self.append(self.sfile, digest)
        return digest

    def record_transition(self, before, op, after):
        self.append(self.sfile + '.t', hashlib.blake2b(
            before + json.dumps(op).encode() + after, digest_size=12
        ).digest())

    def record_traces(self, system):
        """Systems which execute several traces in one operation have the states of each trace in traces"""
        traces = {tuple(repr(state) for state in trace) for trace in system.traces}
        self.shared.add(self.worker, 'checks', len(system.traces))
        for trace in traces:
            before = self.digest(system)
            for state in trace:
                after = hashlib.blake2b((system.name + state).encode(), digest_size=12).digest()
                self.append(self.sfile, after)
                self.record_transition(before, 'trace', after)
                before = after
        system.traces = []

    def sample(self, system, ops):
        self.append(self.samples, (json.dumps({'system': system.name, 'ops': ops}) + '\n').encode())


def guarded(func, *args):
    """
    Runs a step of the system. Returns None or the description of a violation.
    """
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(OP_TIMEOUT)
    try:
        func(*args)
    except Violation as v:
        return f'{v}'
    except OpTimeout:
        return f'did not finish within {OP_TIMEOUT}s'
    except HarnessError:
        raise
    except BaseException as e:
        return f'unexpected {type(e).__name__}: {e}\n' + ''.join(traceback.format_exc()[-3500:])
    finally:
        signal.alarm(0)
    return None


def _child_status_problem(status):
    if os.WIFSIGNALED(status):
        return f'process died with signal {os.WTERMSIG(status)}'
    if os.WEXITSTATUS(status) != 0:
        return f'process ended with status {os.WEXITSTATUS(status)}'
    return None


def _explore(ctx, system, prefix, depth_left, owner):
    """Explores everything below the current state, then does the final observation of this state"""
    if depth_left > 0 and not ctx.stopped():
        ops = system.ops()
        snap = Fs(system.dir) if system.mutates_fs else None
        for op in ops:
            if ctx.stopped():
                break
            new_prefix = prefix + [op]
            child_owner = owner
            if len(new_prefix) == system.split:
                if not ctx.claim(json.dumps([system.name, new_prefix])):
                    continue
                child_owner = True
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    _child(ctx, system, new_prefix, depth_left - 1, child_owner)
                except HarnessError as e:
                    ctx.error(system, new_prefix, traceback.format_exc())
                except BaseException as e:
                    ctx.error(system, new_prefix, traceback.format_exc())
                finally:
                    os._exit(code)
            _, status = os.waitpid(pid, 0)
            problem = _child_status_problem(status)
            if problem:
                ctx.violation(system, new_prefix, problem)
            if snap is not None:
                snap.restore()
    mine = owner or ctx.claim(json.dumps([system.name, prefix, 'check']))
    if mine and not ctx.stopped():
        problem = guarded(system.check)
        ctx.shared.add(ctx.worker, 'checks')
        if problem:
            ctx.violation(system, prefix, problem)


def _child(ctx, system, prefix, depth_left, owner):
    problem = guarded(system.apply, prefix[-1])
    mine = owner or ctx.claim(json.dumps([system.name, prefix, 'node']))
    if problem:
        if mine:
            ctx.violation(system, prefix, problem)
        return
    if not mine:
        system._digest = ctx.digest(system)
    else:
        ctx.shared.add(ctx.worker, 'nodes')
        ctx.shared.add(ctx.worker, 'transitions')
        if system.nontrivial(prefix):
            ctx.shared.add(ctx.worker, 'nontrivial')
        before = system._digest
        system._digest = ctx.record_state(system)
        ctx.record_transition(before, prefix[-1], system._digest)
        ctx.record_traces(system)
        if depth_left == 0 and ctx.worker < 3:
            if ctx.claim(json.dumps([system.name, 'sample', ctx.worker])):
                ctx.sample(system, prefix)
    _explore(ctx, system, prefix, depth_left, owner)


def _quiet():
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)
    if not os.environ.get('PFC_DEBUG'):
        os.dup2(null, 2)


def _worker(ctx, make_systems, w):
    ctx.worker = w
    ctx.sfile = os.path.join(ctx.tmp, f'states.{w}')
    _quiet()
    for system in make_systems():
        if ctx.stopped():
            return
        pid = os.fork()
        if pid == 0:
            try:
                system.dir = os.path.join(ctx.tmp, f'w{w}', 'p')
                os.makedirs(system.dir)
                problem = guarded(system.setup)
                if problem:
                    if ctx.claim(json.dumps([system.name, 'setup'])):
                        ctx.violation(system, [], 'while setting up: ' + problem)
                else:
                    # Keeps forked processes from touching, and so copying, all the memory
                    gc.collect()
                    gc.freeze()
                    gc.disable()
                    system._digest = ctx.digest(system)
                    if ctx.claim(json.dumps([system.name, 'root'])):
                        ctx.record_state(system)
                        ctx.shared.add(w, 'nodes')
                    _explore(ctx, system, [], system.depth, False)
            except BaseException:
                ctx.error(system, [], traceback.format_exc())
            finally:
                os._exit(0)
        _, status = os.waitpid(pid, 0)
        if _child_status_problem(status):
            ctx.error(system, [], 'worker: ' + _child_status_problem(status))
        shutil.rmtree(os.path.join(ctx.tmp, f'w{w}'), ignore_errors=True)


def explore(systems, deadline):
    """
    :param systems: list of systems. Only constructed, not set up
    :return: results dictionary
    """
    tmp = tempfile.mkdtemp(prefix='pfcmc', dir=scratch_base())
    os.chmod(tmp, 0o755)
    try:
        ctx = Ctx(tmp, deadline, N_WORKERS)
        sys.stdout.flush()
        pids = []
        for w in range(N_WORKERS):
            pid = os.fork()
            if pid == 0:
                try:
                    # Start at different systems so that workers do not wait for the last ones to be split
                    _worker(ctx, lambda: systems, w)
                except BaseException:
                    traceback.print_exc()
                    os._exit(3)
                os._exit(0)
            pids.append(pid)
        bad = False
        for pid in pids:
            _, status = os.waitpid(pid, 0)
            bad = bad or status != 0
        states = _distinct(os.path.join(tmp, f'states.{w}') for w in range(N_WORKERS))
        transitions = _distinct(os.path.join(tmp, f'states.{w}.t') for w in range(N_WORKERS))
        return {
            'states': states,
            'nodes': ctx.shared.total('nodes'),
            'transitions': transitions,
            'operations': ctx.shared.total('transitions'),
            'checks': ctx.shared.total('checks'),
            'nontrivial': ctx.shared.total('nontrivial'),
            'truncated': ctx.shared.total('truncated') > 0,
            'violations': _read_lines(ctx.vfile),
            'errors': _read_lines(ctx.efile) + (
                [{'system': '?', 'ops': [], 'message': 'a worker failed'}] if bad else []
            ),
            'samples': _read_lines(ctx.samples)[:6],
        }
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _distinct(paths):
    found = set()
    for path in paths:
        if os.path.exists(path):
            with open(path, 'rb') as f:
                data = f.read()
            found.update(data[i:i + 12] for i in range(0, len(data), 12))
    return len(found)


def _read_lines(path):
    if not os.path.exists(path):
        return []
    out = []
    with open(path, encoding='utf8') as f:
        for line in f:
            try:
                out.append(json.loads(line))
            except ValueError:
                pass
    return out


def run_in_child(func, quiet=True):
    """Runs func in a forked process, returns its JSON-able result, or a description of how it died"""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            if quiet:
                _quiet()
            try:
                out = {'result': func()}
            except BaseException:
                out = {'error': traceback.format_exc()}
            data = json.dumps(out, default=repr).encode()
            while data:
                n = os.write(w, data)
                data = data[n:]
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    while True:
        chunk = os.read(r, 65536)
        if not chunk:
            break
        data += chunk
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if not data:
        return {'error': _child_status_problem(status) or 'no result'}
    return json.loads(data)


def replay(system, ops):
    """
    Executes a single history from scratch.

    :return: (index of failing step or None, message)
    """
    tmp = tempfile.mkdtemp(prefix='pfcmc', dir=scratch_base())
    os.chmod(tmp, 0o755)

    def go():
        system.dir = os.path.join(tmp, 'p')
        os.makedirs(system.dir)
        problem = guarded(system.setup)
        if problem:
            return [0, 'while setting up: ' + problem]
        for i, op in enumerate(ops):
            enabled = [json.dumps(o) for o in system.ops()]
            if json.dumps(op) not in enabled:
                return [-1, 'not enabled']
            problem = guarded(system.apply, op)
            if problem:
                return [i + 1, problem]
        problem = guarded(system.check)
        if problem:
            return [len(ops), 'at the end: ' + problem]
        return [None, None]

    try:
        out = run_in_child(go, quiet=not os.environ.get('PFC_DEBUG'))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if 'error' in out:
        return len(ops), out['error']
    return out['result']


def minimize(make_system, ops, limit=60):
    """Greedily drops operations while the history still fails"""
    step, msg = replay(make_system(), ops)
    if step is None or step == -1:
        return ops, None
    ops = ops[:step]
    tries = 0
    changed = True
    while changed and tries < limit:
        changed = False
        for i in range(len(ops) - 1, -1, -1):
            cand = ops[:i] + ops[i + 1:]
            tries += 1
            s, m = replay(make_system(), cand)
            if s is not None and s != -1:
                ops, msg, changed = cand[:s], m, True
                break
            if tries >= limit:
                break
    return ops, msg
