"""
Runs the current check again with shim.c loaded, so that single file operations can be made to crash or fail.
"""
import ctypes
import hashlib
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SOURCE = os.path.join(HERE, 'shim.c')


def build():
    with open(SOURCE, 'rb') as f:
        digest = hashlib.sha256(f.read()).hexdigest()[:16]
    folder = os.path.join(os.path.dirname(HERE), 'evidence')
    path = os.path.join(folder, f'shim-{digest}.so')
    if not os.path.exists(path):
        os.makedirs(folder, exist_ok=True)
        fd, temp = tempfile.mkstemp(dir=folder, suffix='.so')
        os.close(fd)
        subprocess.run(['gcc', '-O1', '-w', '-shared', '-fPIC', '-o', temp, SOURCE, '-ldl'], check=True)
        os.replace(temp, path)
    return path


def ensure():
    if os.environ.get('PFC_SHIM') != '1':
        env = dict(os.environ, PFC_SHIM='1', LD_PRELOAD=build())
        os.execve(sys.executable, [sys.executable] + sys.orig_argv[1:], env)
    os.environ.pop('LD_PRELOAD', None)
    lib = ctypes.CDLL(None)
    lib.pfc_arm.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_int, ctypes.c_int]
    lib.pfc_log.restype = ctypes.c_char_p
    lib.pfc_count.restype = ctypes.c_long
    lib.pfc_hit.restype = ctypes.c_long
    return lib
