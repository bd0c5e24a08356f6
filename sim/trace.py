"""Interrupts at a chosen line of chosen source files: the seam for asynchronous failure inside code without I/O."""

import sys


class Injected(KeyboardInterrupt):
    """The interrupt the simulator raised."""


class LineFault:
    """Raise `exc` when the n-th line event of the watched files happens (n counted from 0)."""

    def __init__(self, files, at=None, exc=Injected):
        self.files = tuple(files)
        self.at = at
        self.exc = exc
        self.n = 0
        self.fired = None

    def _watch(self, code):
        return code.co_filename.endswith(self.files)

    def _global(self, frame, event, arg):
        return self._local if event == 'call' and self._watch(frame.f_code) else None

    def _local(self, frame, event, arg):
        if event == 'line':
            n = self.n
            self.n += 1
            if self.at is not None and n == self.at and self.fired is None:
                self.fired = (frame.f_code.co_name, n)
                raise self.exc('simulated interrupt')
        return self._local

    def __enter__(self):
        self._old = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(self._old)
        return False
