"""Interpreters under chosen hash seeds, from which simulated processes are forked.

A running interpreter cannot change its hash seed, so each seed gets a server process that imports
the property module, prepares it and then forks one simulated process per request.
    python -m sim.zygote SOCKET MODULE TIER
"""

import atexit
import gc
import importlib
import os
import pickle
import select
import signal
import socket
import struct
import subprocess
import sys
import time
import traceback

from sim import kernel

_sock = {}


def _send(s, obj):
    b = pickle.dumps(obj)
    s.sendall(struct.pack('>I', len(b)) + b)


def _recv(s):
    def get(n):
        out = b''
        while len(out) < n:
            x = s.recv(min(1 << 20, n - len(out)))
            if not x:
                raise kernel.HarnessError('the interpreter of a hash seed went away')
            out += x
        return out

    return pickle.loads(get(struct.unpack('>I', get(4))[0]))


def start(module, tier, hashes, env=None):
    """Start one server per hash seed; called once, before the workers are forked."""
    os.makedirs(kernel.SCRATCH, exist_ok=True)
    for h in hashes:
        path = os.path.join(kernel.SCRATCH, f'zygote-{os.getpid()}-{h}.sock')
        e = dict(os.environ, PYTHONHASHSEED=str(h), **(env or {}))
        p = subprocess.Popen([sys.executable, '-u', '-m', 'sim.zygote', path, module, tier], env=e)
        _sock[h] = path
        atexit.register(_stop, p, path)
    end = kernel.REAL_MONO() + 240
    for h, path in _sock.items():
        while not os.path.exists(path):
            if kernel.REAL_MONO() > end:
                raise kernel.HarnessError(f'the interpreter with hash seed {h} did not start')
            time.sleep(0.05)


def _stop(p, path):
    p.kill()
    p.wait()
    if os.path.exists(path):
        os.unlink(path)


def process(h, fname, *args, **kw):
    """kernel.process in the interpreter with hash seed h; fname names a function of the property module."""
    with socket.socket(socket.AF_UNIX) as s:
        s.connect(_sock[h])
        _send(s, (fname, args, kw))
        d = _recv(s)
    if 'harness' in d:
        raise kernel.HarnessError(d['harness'])
    return d['proc']


def sim_process(sim, h, fname, *args, label='', quiet=False, **kw):
    """Sim.process, in the interpreter with hash seed h."""
    def run(_fn, *a, **k):
        return process(h, fname, *a, **k)

    return sim.process(fname, *args, label=label or fname, quiet=quiet, runner=run, **kw)


def _serve(path, name, tier):
    parent = os.getppid()
    module = importlib.import_module(name)
    module.zygote_setup(tier)
    gc.collect()
    gc.freeze()
    tmp = path + '.new'
    s = socket.socket(socket.AF_UNIX)
    s.bind(tmp)
    s.listen(64)
    os.rename(tmp, path)
    while os.getppid() == parent:
        try:
            while os.waitpid(-1, os.WNOHANG)[0]:
                pass
        except ChildProcessError:
            pass
        if not select.select([s], [], [], 1.0)[0]:
            continue
        c, _ = s.accept()
        if os.fork() == 0:
            try:
                s.close()
                fname, args, kw = _recv(c)
                try:
                    d = dict(proc=kernel.process(getattr(module, fname), *args, **kw))
                except BaseException:
                    d = dict(harness=traceback.format_exc())
                _send(c, d)
            finally:
                os._exit(0)
        c.close()


if __name__ == '__main__':
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _serve(*sys.argv[1:4])
