"""Simulated spool disk: temporary files whose writes/opens/seeks can fail.

The files themselves are real unnamed temporary files in the run's scratch directory
(they must be real for the code to take its file path); which operation fails, and how,
is decided by the plan."""
import errno
import io
import os
import sys
import tempfile
import weakref

from .stream import PlanError

_orig = {
    'TemporaryFile': tempfile.TemporaryFile,
}


class SimDisk:
    def __init__(self, scratch=None, faults=()):
        # faults: list of [op, nth, errno-name]; op in open/write/read/seek/flush
        self.faults = {(f[0], f[1]): f[2] for f in faults}
        self.count = {}
        self.fired = []
        self.files = []
        self.scratch = scratch

    def hit(self, op):
        n = self.count[op] = self.count.get(op, 0) + 1
        e = self.faults.get((op, n))
        if e:
            if not hasattr(errno, e):
                raise PlanError(e)
            self.fired.append((op, n, e))
            raise OSError(getattr(errno, e), os.strerror(getattr(errno, e)))

    # -- seam
    def install(self):
        disk = self

        def TemporaryFile(mode='w+b', buffering=-1, encoding=None, newline=None,
                          suffix=None, prefix=None, dir=None, *, errors=None):
            disk.hit('open')
            if 'b' not in mode:
                return _orig['TemporaryFile'](mode, buffering, encoding, newline, suffix, prefix,
                                              dir or disk.scratch, errors=errors)
            f = SimTemp(disk)
            disk.files.append(weakref.ref(f))
            return f
        self.patched = [(tempfile, 'TemporaryFile')]
        for name, m in list(sys.modules.items()):
            if name == 'ombott' or name.startswith('ombott.'):
                self.patched += [(m, k) for k, v in vars(m).items() if v is _orig['TemporaryFile']]
        for m, k in self.patched:
            setattr(m, k, TemporaryFile)
        return self

    def remove(self):
        for m, k in self.patched:
            setattr(m, k, _orig['TemporaryFile'])
        for f in self.files:
            f = f()
            try:
                f.disk = None
                f.close()
            except Exception:
                pass


class SimTemp(io.BufferedRandom):
    """A real temporary file, with the disk deciding the fate of each operation."""
    sim_on_disk = True

    def __init__(self, disk):
        fd, path = tempfile.mkstemp(dir=disk.scratch)
        os.unlink(path)
        self.disk = disk
        self.bytes_written = 0
        self.largest_read = 0
        super().__init__(io.FileIO(fd, 'w+b'))

    def write(self, b):
        if self.disk:
            self.disk.hit('write')
        n = super().write(b)
        self.bytes_written += len(b)
        return n

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def read(self, *a):
        if self.disk:
            self.disk.hit('read')
        d = super().read(*a)
        self.largest_read = max(self.largest_read, len(d))
        return d

    def seek(self, *a):
        if self.disk:
            self.disk.hit('seek')
        return super().seek(*a)

    def flush(self):
        if self.disk:
            self.disk.hit('flush')
        return super().flush()


def on_disk(f):
    """True: content on disk; False: in memory; None: cannot tell."""
    seen = 0
    while f is not None and seen < 5:
        seen += 1
        if isinstance(f, (io.BytesIO, io.StringIO)):
            return False
        if isinstance(f, tempfile.SpooledTemporaryFile):
            return bool(f._rolled)
        if getattr(f, 'sim_on_disk', False):
            return True
        try:
            f.fileno()
            return True
        except Exception:
            pass
        f = getattr(f, 'file', None) or getattr(f, '_file', None) or getattr(f, 'raw', None)
    return None
