"""Simulated disk: a seam under Python's own file buffering.

``SimFS.install()`` runs inside a forked child and replaces the calls through which Python code
reaches the file system.  Only paths below ``root`` (the scratch directory of the simulated host)
are touched: each intercepted call is a numbered *step*, logged as an event, at which the fault plan
may act.  Everything else goes straight to the real call, except that directory listings everywhere
are reordered by the listing salt when one is given.

Fault kinds
    eio, eacces, enospc      the call fails with that errno (enospc on a write stores a prefix first
                             and stays full for the rest of the process unless ``arg`` says once)
    sticky_eio               as eio, and every later write to the same path fails too
    short                    a write stores / a read returns only a prefix (legal behaviour)
    close_eio                a close fails after closing
    interrupt                KeyboardInterrupt is raised instead of the call
    crash                    the process dies before the call
    crash_mid                the process dies after a prefix of a write
    crash_after              the process dies just after the call took effect
"""

import builtins
import errno
import hashlib
import importlib.machinery
import io
import os
import shutil
import stat as _stat

_REAL = dict(
    open=io.open,
    os_open=os.open,
    rename=os.rename,
    replace=os.replace,
    remove=os.remove,
    unlink=os.unlink,
    rmdir=os.rmdir,
    mkdir=os.mkdir,
    listdir=os.listdir,
    scandir=os.scandir,
    fsync=os.fsync,
    write=os.write,
    link=os.link,
    symlink=os.symlink,
    truncate=os.truncate,
    get_data=importlib.machinery.SourceFileLoader.get_data,
)

CRASH_KINDS = ('crash', 'crash_mid', 'crash_after')
ERRNO = {
    'eio': errno.EIO,
    'sticky_eio': errno.EIO,
    'eacces': errno.EACCES,
    'enospc': errno.ENOSPC,
    'close_eio': errno.EIO,
    'emfile': errno.EMFILE,
}

# which fault kinds make sense at which operation
KINDS_FOR = {
    'open_r': ('eio', 'eacces', 'emfile', 'interrupt', 'crash'),
    'open_w': ('eio', 'eacces', 'enospc', 'interrupt', 'crash', 'crash_after'),
    'read': ('eio', 'short', 'interrupt', 'crash'),
    'write': ('eio', 'sticky_eio', 'enospc', 'short', 'interrupt', 'crash', 'crash_mid', 'crash_after'),
    'close_w': ('close_eio', 'interrupt', 'crash', 'crash_after'),
    'fsync': ('eio', 'enospc', 'crash'),
    'rename': ('eio', 'eacces', 'crash', 'crash_after', 'interrupt'),
    'remove': ('eio', 'eacces', 'crash', 'crash_after'),
    'mkdir': ('eio', 'eacces', 'enospc', 'crash', 'crash_after'),
    'rmdir': ('eio', 'crash', 'crash_after'),
    'list': ('eio', 'eacces', 'crash'),
}


class SimFS:
    def __init__(self, root, plan=(), bufsize=8192, write_through=False, listing=None, emit=None, crash=None, only=None):
        self.root = os.path.realpath(root)
        self.plan = {int(p['step']): p for p in plan}
        self.bufsize = max(1, int(bufsize))
        self.write_through = bool(write_through)
        self.listing = listing
        self.emit = emit or (lambda *a: None)
        self.crash_fn = crash or (lambda: os._exit(137))
        self.n = 0
        self.steps = []  # (op, relpath)
        self.fired = []
        self.full = False
        self.bad = set()
        self.active = True
        self.only = only  # optional predicate(relpath)

    # -- bookkeeping -----------------------------------------------------------------------------
    def inside(self, path):
        if not self.active or isinstance(path, bool):
            return None
        try:
            if isinstance(path, int):
                path = os.readlink(f'/proc/self/fd/{path}')
            p = os.path.abspath(os.fsdecode(path))
        except (TypeError, OSError, ValueError):
            return None
        # resolve the directory part only, a final symlink is what the call acts on
        d, b = os.path.split(p)
        try:
            p = os.path.join(os.path.realpath(d), b)
        except OSError:
            pass
        if p == self.root or p.startswith(self.root + os.sep):
            rel = os.path.relpath(p, self.root)
            if self.only is not None and not self.only(rel):
                return None
            return rel
        return None

    def step(self, op, rel, detail=''):
        i = self.n
        self.n += 1
        self.steps.append((op, rel))
        # a pickle's size depends on the identity of equal strings, which the hash seed decides
        self.emit('io', i, op, rel, None if rel.endswith('.pkl') else detail)
        f = self.plan.get(i)
        if f is None:
            return None
        kind = f['kind']
        if kind not in KINDS_FOR[op]:
            return None
        self.fired.append((i, op, rel, kind))
        self.emit('fault', i, op, rel, kind)
        if kind == 'crash':
            self.crash_fn()
        if kind == 'interrupt':
            raise KeyboardInterrupt(f'simulated interrupt at step {i}')
        if kind in ('short', 'crash_mid', 'crash_after'):
            return f
        if op == 'write' and kind in ('enospc', 'sticky_eio'):
            return f
        if op == 'close_w':
            return f
        raise OSError(ERRNO[kind], f'simulated {kind}', rel)

    def after(self, f):
        if f is not None and f['kind'] == 'crash_after':
            self.crash_fn()

    # -- open ------------------------------------------------------------------------------------
    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        rel = self.inside(file)
        if rel is None:
            return _REAL['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
        if opener is None and not isinstance(file, int):
            # let the real thing reject bad modes and directories
            base = mode.replace('b', '').replace('t', '').replace('U', '')
            if base not in ('r', 'w', 'a', 'x', 'r+', 'w+', 'a+', 'x+', '+r', '+w', '+a', '+x'):
                return _REAL['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
        writing = any(c in mode for c in 'wax+')
        f = None
        if not isinstance(file, int):
            f = self.step('open_w' if writing else 'open_r', rel, mode)
        binary = 'b' in mode
        rawmode = mode.replace('b', '').replace('t', '').replace('U', '')
        raw = FaultRaw(self, rel, writing, file, rawmode, closefd, opener)
        self.after(f)
        if buffering == 0:
            if not binary:
                raw.close()
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = self.bufsize if buffering in (-1, 1) else buffering
        if '+' in mode:
            buf = io.BufferedRandom(raw, size)
        elif writing:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        enc = encoding
        text = io.TextIOWrapper(
            buf, enc, errors, newline, line_buffering=(buffering == 1), write_through=self.write_through and writing
        )
        text.mode = mode
        return text

    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        rel = self.inside(path) if dir_fd is None else None
        if rel is None:
            return _REAL['os_open'](path, flags, mode, dir_fd=dir_fd)
        writing = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
        f = self.step('open_w' if writing else 'open_r', rel, 'fd')
        fd = _REAL['os_open'](path, flags, mode, dir_fd=dir_fd)
        self.after(f)
        return fd

    def os_write(self, fd, data):
        rel = self.inside(fd)
        if rel is None:
            return _REAL['write'](fd, data)
        return self._write(rel, data, lambda b: _REAL['write'](fd, b))

    def fsync(self, fd):
        fd = fd if isinstance(fd, int) else fd.fileno()
        rel = self.inside(fd)
        if rel is not None:
            self.step('fsync', rel)
        return _REAL['fsync'](fd)

    def _write(self, rel, data, real):
        data = bytes(data)
        f = self.step('write', rel, len(data))
        if self.full or rel in self.bad:
            raise OSError(errno.ENOSPC if self.full else errno.EIO, 'simulated persistent failure', rel)
        if f is None:
            return real(data)
        kind, frac = f['kind'], float(f.get('arg', 0.5))
        k = min(len(data), int(len(data) * frac))
        if kind == 'enospc':
            self.full = not f.get('once')
            if k:
                return real(data[:k])
            raise OSError(errno.ENOSPC, 'simulated enospc', rel)
        if kind == 'sticky_eio':
            self.bad.add(rel)
            raise OSError(errno.EIO, 'simulated eio', rel)
        if kind == 'short':
            return real(data[: max(1, k)])
        if kind == 'crash_mid':
            if k:
                real(data[:k])
            self.crash_fn()
        n = real(data)
        self.after(f)
        return n

    # -- directory operations --------------------------------------------------------------------
    def _two(self, name, op):
        real = _REAL[name]

        def call(src, dst, *a, **k):
            rel = self.inside(dst)
            if rel is None:
                rel = self.inside(src)
            if rel is None or k:
                return real(src, dst, *a, **k)
            f = self.step(op, rel, self.inside(src) or '')
            r = real(src, dst, *a)
            self.after(f)
            return r

        return call

    def _one(self, name, op):
        real = _REAL[name]

        def call(path, *a, **k):
            rel = self.inside(path)
            if rel is None or k.get('dir_fd') is not None:
                return real(path, *a, **k)
            if op == 'mkdir' and os.path.isdir(path):
                return real(path, *a, **k)  # will raise FileExistsError, not an effect
            f = self.step(op, rel)
            r = real(path, *a, **k)
            self.after(f)
            return r

        return call

    def _order(self, path, names, key=lambda n: n):
        if self.listing is None:
            return sorted(names, key=key)
        salt = str(self.listing)
        return sorted(names, key=lambda n: hashlib.sha1((salt + os.fsdecode(key(n))).encode('utf-8', 'surrogateescape')).digest())

    def listdir(self, path='.'):
        rel = self.inside(path)
        if rel is not None:
            self.step('list', rel)
        return self._order(path, _REAL['listdir'](path))

    def scandir(self, path='.'):
        rel = self.inside(path)
        if rel is not None:
            self.step('list', rel)
        with _REAL['scandir'](path) as it:
            ents = list(it)
        return _Scan(self._order(path, ents, key=lambda e: e.name))

    # -- install ---------------------------------------------------------------------------------
    def install(self):
        builtins.open = self.open
        io.open = self.open
        os.open = self.os_open
        os.write = self.os_write
        os.fsync = self.fsync
        os.rename = self._two('rename', 'rename')
        os.replace = self._two('replace', 'rename')
        os.link = self._two('link', 'rename')
        os.symlink = self._two('symlink', 'rename')
        os.remove = self._one('remove', 'remove')
        os.unlink = self._one('unlink', 'remove')
        os.rmdir = self._one('rmdir', 'rmdir')
        os.mkdir = self._one('mkdir', 'mkdir')
        os.truncate = self._one('truncate', 'open_w')
        os.listdir = self.listdir
        os.scandir = self.scandir
        # numpy keeps its own reference to io.open
        try:
            from numpy.lib import _datasource

            _datasource._file_openers._load()
            _datasource._file_openers._file_openers[None] = self.open
        except (ImportError, AttributeError):
            pass
        # shutil: no fd-relative deletes, no in-kernel copies
        shutil._use_fd_functions = False
        for name in ('_USE_CP_SENDFILE', '_HAS_FCOPYFILE', '_USE_CP_COPY_FILE_RANGE'):
            if hasattr(shutil, name):
                setattr(shutil, name, False)
        fs = self

        def get_data(loader, path):
            rel = fs.inside(path)
            if rel is not None:
                fs.step('open_r', rel, 'import')
            return _REAL['get_data'](loader, path)

        importlib.machinery.SourceFileLoader.get_data = get_data
        return self


class FaultRaw(io.FileIO):
    def __init__(self, fs, rel, writing, file, mode, closefd, opener):
        self._fs, self._rel, self._writing = fs, rel, writing
        super().__init__(file, mode, closefd=closefd, opener=opener)

    def write(self, b):
        if self.closed:
            return super().write(b)
        return self._fs._write(self._rel, b, super().write)

    def readinto(self, b):
        f = self._fs.step('read', self._rel)
        if f is not None and f['kind'] == 'short' and len(b) > 1:
            data = super().read(max(1, len(b) // 7))
            b[: len(data)] = data
            return len(data)
        return super().readinto(b)

    def readall(self):
        self._fs.step('read', self._rel)
        return super().readall()

    def read(self, size=-1):
        f = self._fs.step('read', self._rel)
        if f is not None and f['kind'] == 'short' and size > 1:
            size = max(1, size // 7)
        return super().read(size)

    def close(self):
        if self.closed:
            return
        f = None
        try:
            if self._writing:
                f = self._fs.step('close_w', self._rel)
        finally:
            super().close()
        if f is not None:
            if f['kind'] == 'close_eio':
                raise OSError(errno.EIO, 'simulated eio on close', self._rel)
            self._fs.after(f)


class _Scan:
    def __init__(self, ents):
        self._it = iter(ents)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def tree(root):
    """{relative path: bytes | None for directories | ('link', target)} of a scratch directory."""
    out = {}
    for d, dirs, files in os.walk(root):
        for n in dirs + files:
            p = os.path.join(d, n)
            rel = os.path.relpath(p, root)
            st = os.lstat(p)
            if _stat.S_ISLNK(st.st_mode):
                out[rel] = ('link', os.readlink(p))
            elif _stat.S_ISDIR(st.st_mode):
                out[rel] = None
            else:
                with _REAL['open'](p, 'rb') as f:
                    out[rel] = f.read()
    return out
