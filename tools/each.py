"""Runs every single operation of the systems matching a name on its own and lists those which fail"""
import os, sys, importlib
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'mc'))
import core
mod = importlib.import_module('checks.' + sys.argv[1].lower())
for s in mod.systems(sys.argv[3] if len(sys.argv) > 3 else 'quick'):
    if sys.argv[2] in s.name:
        probe = s.cases if hasattr(s, 'cases') else s.alphabet
        bad = 0
        for op in probe:
            step, msg = core.replay(s, [op])
            if step is not None:
                bad += 1
                print('---', repr(op)[:300])
                print('    ', msg[:200].replace('\n', '\n     '), '...', msg[-200:])
        print(s.name, len(probe), 'cases', bad, 'failed')
