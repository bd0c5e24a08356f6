"""Simulated processes on a simulated host, and the record of one simulated run.

A *case* is a JSON object.  ``run_case(module, case)`` executes it under a fresh ``Sim``; nothing in
it reads a real clock or draws from a generator that was not seeded from the case.
"""

import collections
import datetime as _dt
import hashlib
import io
import os
import pickle
import random
import select
import shutil
import signal
import sys
import time
import traceback
import warnings

from sim.fs import SimFS, tree

SCRATCH = os.environ.get('AVSIM_SCRATCH', '/tmp/avsim')
REAL_TIME = time.time
REAL_MONO = time.monotonic


class HarnessError(Exception):
    """The harness, not Aviary, failed."""


class Proc:
    """Outcome of one simulated process."""

    def __init__(self, status, value=None, exc=None, events=(), notes=(), steps=(), fired=(), out='', warns=()):
        self.status = status  # ok | raise | crash | timeout | died
        self.value = value
        self.exc = exc  # (type name, message, traceback text, [mro names])
        self.events = list(events)
        self.notes = list(notes)
        self.steps = list(steps)
        self.fired = list(fired)
        self.out = out
        self.warns = list(warns)

    @property
    def ok(self):
        return self.status == 'ok'

    def why(self):
        if self.status == 'raise':
            return f'{self.exc[0]}: {self.exc[1]}'
        return self.status


class Ctx:
    """Handed to the function that runs inside a simulated process."""

    def __init__(self, fs, sim_seed):
        self.fs = fs
        self.notes = []
        self.rng = random.Random(sim_seed)

    def note(self, *x):
        self.notes.append(x)


class SimClock:
    """A clock owned by the simulator: starts at `t0`, moves `tick` per reading, and may jump."""

    def __init__(self, t0=1.7e9, tick=0.001, jumps=()):
        self.t, self.tick, self.jumps, self.n = float(t0), float(tick), dict(jumps), 0

    def time(self):
        self.n += 1
        self.t += self.tick + float(self.jumps.get(self.n, 0.0))
        return self.t

    def install(self):
        clk = self
        time.time = clk.time
        time.time_ns = lambda: int(clk.time() * 1e9)
        time.perf_counter = clk.time
        time.monotonic = clk.time
        time.sleep = lambda s: setattr(clk, 't', clk.t + max(0.0, s))
        real_local, real_strftime, real_gm = time.localtime, time.strftime, time.gmtime
        time.localtime = lambda s=None: real_local(clk.time() if s is None else s)
        time.gmtime = lambda s=None: real_gm(clk.time() if s is None else s)
        time.strftime = lambda f, t=None: real_strftime(f, time.localtime() if t is None else t)

        class SimDateTime(_dt.datetime):
            @classmethod
            def now(cls, tz=None):
                return cls.fromtimestamp(clk.time(), tz)

            @classmethod
            def today(cls):
                return cls.fromtimestamp(clk.time())

            @classmethod
            def utcnow(cls):
                return cls.fromtimestamp(clk.time(), _dt.timezone.utc).replace(tzinfo=None)

        real = _dt.datetime
        for name, mod in list(sys.modules.items()):
            if mod is None or not (name.startswith('aviary') or name.startswith('openmdao') or name.startswith('dymos')):
                continue
            for k, v in list(vars(mod).items()):
                if v is real:
                    setattr(mod, k, SimDateTime)
                elif v is _dt:
                    pass
        _dt.datetime = SimDateTime


_OUT_LIMIT = 200_000


def process(fn, *args, root, cwd='.', plan=(), bufsize=8192, write_through=False, listing=None, clock=None,
            env=None, seed=0, timeout=300.0, user=None, only=None, capture=True, pidno=0, **kw):
    """Run fn(ctx, *args, **kw) in a simulated process on the host rooted at `root`."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            _child(w, fn, args, kw, root, cwd, plan, bufsize, write_through, listing, clock, env, seed, user, only, capture, pidno)
        finally:
            os._exit(99)
    os.close(w)
    chunks = []
    deadline = REAL_MONO() + timeout
    timed_out = False
    while True:
        left = deadline - REAL_MONO()
        if left <= 0:
            timed_out = True
            os.kill(pid, signal.SIGKILL)
            break
        ready, _, _ = select.select([r], [], [], left)
        if ready:
            b = os.read(r, 1 << 20)
            if not b:
                break
            chunks.append(b)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if timed_out:
        return Proc('timeout')
    data = b''.join(chunks)
    if not data:
        return Proc('died', exc=('died', f'wait status {st}', '', []))
    d = pickle.loads(data)
    if d.get('harness'):
        raise HarnessError(d['harness'])
    return Proc(**d)


def _child(w, fn, args, kw, root, cwd, plan, bufsize, write_through, listing, clock, env, seed, user, only, capture, pidno):
    import numpy as np

    events, warns = [], []
    real_write, real_exit = os.write, os._exit

    def send(d):
        b = pickle.dumps(d)
        mv = memoryview(b)
        while mv:
            n = real_write(w, mv[: 1 << 20])
            mv = mv[n:]

    def emit(*e):
        events.append(e)

    out = io.StringIO()
    null = os.open(os.devnull, os.O_RDWR)
    for fd in (0, 1, 2):
        os.dup2(null, fd)
    if capture:
        sys.stdout = out
        sys.stderr = out
    state = {}

    def base(status):
        fs = state.get('fs')
        return dict(status=status, events=events, notes=state['ctx'].notes if 'ctx' in state else [],
                    steps=fs.steps if fs else [], fired=fs.fired if fs else [],
                    out=out.getvalue()[:_OUT_LIMIT], warns=warns)

    def crash():
        d = base('crash')
        if state.get('fs'):
            state['fs'].active = False
        send(d)
        real_exit(137)

    try:
        host = os.path.realpath(root)
        os.chdir(os.path.join(host, cwd))
        for k, v in (env or {}).items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        if env and 'TZ' in env:
            time.tzset()
        random.seed(seed)
        np.random.seed(seed % (2**32))
        sim_pid = 1000 + pidno
        real_pid = os.getpid()
        os.getpid = lambda: sim_pid
        if 'psutil' in sys.modules:  # OpenMDAO asks it for the memory in use
            import psutil

            real_process = psutil.Process
            psutil.Process = lambda pid=None: real_process(real_pid if pid in (None, sim_pid) else pid)
        ent = random.Random(seed * 1000003 + pidno)
        os.urandom = lambda n: bytes(ent.getrandbits(8) for _ in range(n))
        import tempfile

        class _Names:
            def __iter__(self):
                return self

            def __next__(self):
                return ''.join(ent.choice('abcdefghijklmnopqrstuvwxyz0123456789_') for _ in range(8))

        tempfile._name_sequence = _Names()
        if user is not None:
            import getpass

            if user == '!fail':
                def nouser():
                    raise OSError('simulated: no user name')
                getpass.getuser = nouser
            else:
                getpass.getuser = lambda: user
        fs = SimFS(host, plan, bufsize, write_through, listing, emit, crash, only)
        state['fs'] = fs
        ctx = state['ctx'] = Ctx(fs, seed)

        def show(message, category, filename, lineno, file=None, line=None):
            warns.append((category.__name__, str(message)))

        ctx.warns = warns
        if clock is not None:
            clk = SimClock(**clock)
            ctx.clock = clk
        fs.install()
        if clock is not None:
            clk.install()
        warnings.simplefilter('always')
        warnings.showwarning = show
        real_simplefilter = warnings.simplefilter
        ctx.show = show
    except BaseException:
        send(dict(harness='process setup failed: ' + traceback.format_exc()))
        real_exit(98)
    try:
        value = fn(ctx, *args, **kw)
        fs.active = False
        d = base('ok')
        d['value'] = value
    except HarnessError:
        send(dict(harness=traceback.format_exc()))
        real_exit(98)
    except BaseException as e:
        fs.active = False
        d = base('raise')
        d['exc'] = (type(e).__name__, str(e)[:2000], traceback.format_exc()[-4000:], [c.__name__ for c in type(e).__mro__])
    try:
        send(d)
    except Exception:
        send(dict(harness='result not picklable: ' + traceback.format_exc()))
        real_exit(98)
    real_exit(0)


_counter = [0]


class Sim:
    """One simulated run: a host directory, the event log and what was observed."""

    def __init__(self, case, label=''):
        self.case = case
        self.log = []
        self.violations = []
        self.counts = collections.Counter()
        self.faults = collections.Counter()
        self.faults_planned = collections.Counter()
        self.states = set()
        self.nontrivial = False
        self.sim_time = 0.0
        _counter[0] += 1
        self.base = os.path.join(SCRATCH, f'{os.getpid():08d}-{_counter[0]:06d}')
        os.makedirs(self.base)
        self._hosts = 0
        self.root = self.new_host()

    def new_host(self, name=None):
        self._hosts += 1
        p = os.path.join(self.base, name or f'host{self._hosts}')
        os.makedirs(p)
        return p

    def note(self, *x):
        self.log.append(x)

    def process(self, fn, *args, root=None, label='', quiet=False, runner=None, **kw):
        for p in kw.get('plan', ()):
            self.faults_planned[p['kind']] += 1
        self.counts['processes'] += 1
        kw.setdefault('pidno', self.counts['processes'])
        res = (runner or process)(fn, *args, root=root or self.root, **kw)
        self.counts['io_steps'] += len(res.steps)
        for (_, op, _, kind) in res.fired:
            self.faults[f'{kind}@{op}'] += 1
        if not quiet:
            self.log.append(('proc', label or getattr(fn, '__name__', '?'), res.status, res.exc[:2] if res.exc else None))
            self.log.extend(res.events)
            self.log.extend(('note',) + tuple(n) for n in res.notes)
        if res.status == 'timeout':
            raise HarnessError(f'simulated process {label or fn} exceeded its wall-clock limit')
        if res.status == 'died':
            raise HarnessError(f'simulated process {label or fn} died: {res.exc}')
        return res

    def violate(self, kind, detail, **data):
        self.violations.append(dict(kind=kind, detail=str(detail)[:1500], **data))
        self.log.append(('violation', kind))

    def fault(self, kind, n=1):
        self.faults[kind] += n
        self.log.append(('fault', kind))

    def state(self, x):
        self.states.add(hashlib.sha1(repr(x).encode('utf-8', 'surrogateescape')).hexdigest()[:16])

    def tree(self, root=None):
        return tree(root or self.root)

    def close(self):
        shutil.rmtree(self.base, ignore_errors=True)

    def digest(self):
        text = repr(self.log).replace(self.base, '$BASE').replace(self.base[1:], '$BASE')
        return hashlib.sha256(text.encode('utf-8', 'surrogateescape')).hexdigest()[:24]


def run_case(module, case):
    """Execute one case; returns a plain dict (never raises)."""
    t = REAL_MONO()
    sim = None
    res = dict(violations=[], harness=None)
    try:
        sim = Sim(case)
        sim.note('case', repr(case))
        module.run(sim, case)
    except HarnessError as e:
        res['harness'] = f'{e}'
    except Exception:
        res['harness'] = traceback.format_exc()
    if sim is not None:
        res.update(
            violations=sim.violations,
            counts=dict(sim.counts),
            faults=dict(sim.faults),
            planned=dict(sim.faults_planned),
            states=sim.states,
            nontrivial=bool(sim.nontrivial),
            digest=sim.digest(),
            sim_time=sim.sim_time,
            log=sim.log if os.environ.get('AVSIM_KEEP_LOG') else None,
        )
        sim.close()
    res['wall'] = REAL_MONO() - t
    return res
