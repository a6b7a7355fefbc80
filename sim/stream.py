"""Simulated request input: the client's bytes travelling through a connection."""


class Passthru(BaseException):
    """Verdicts of the harness itself: pass through the code under test untouched."""


class PlanError(Passthru):
    """The plan is not executable (only shrinking makes such plans)."""


class SimStop(BaseException):
    """Something the simulated world cannot survive; not catchable as Exception."""


class SimBlocked(SimStop):
    """A read that would wait for ever: the peer has nothing more to send."""


class SimHang(SimStop):
    """The code keeps polling a finished stream."""


class SimInput:
    """wsgi.input of the simulated server.

    data   bytes the client sends on this connection (may go on after the body)
    frag   per-read limits, cycled: a read returns at most frag[i] bytes (0: no limit)
    segs   absolute offsets no single read crosses (network segment borders)
    end    what happens after the last byte: 'eof' (peer closed) or 'block' (peer waits)
    fail   None or [offset, kind]: the read that reaches offset raises an I/O error, once
    """

    ERRORS = {
        'reset': lambda: ConnectionResetError(104, 'Connection reset by peer'),
        'timeout': lambda: TimeoutError('timed out'),
        'oserror': lambda: OSError(5, 'Input/output error'),
    }

    def __init__(self, data, frag=(), segs=(), end='eof', fail=None, log=None):
        self.data = data
        self.frag = [max(0, int(x)) for x in frag]
        self.segs = sorted(set(s for s in segs if 0 < s < len(data)))
        self.end = end
        self.fail = list(fail) if fail else None
        self.failed = False
        self.pos = 0
        self.calls = []          # (position, requested, returned); requested None: all, returned -1: error
        self.ri = 0
        self.eof_reads = 0
        self.short = 0
        self.ticks = 0
        self.log = log
        self.closed = False
        self.blocked = False

    # -- the one place where bytes move
    def _take(self, n):
        """n: bytes asked for, None for 'all'"""
        avail = len(self.data) - self.pos
        self.ticks += 1
        if self.fail and not self.failed:
            off, kind = self.fail
            if self.pos >= off and n != 0:
                self.failed = True
                self.calls.append((self.pos, n, -1))
                raise (self.ERRORS.get(kind) or (lambda: PlanError(kind)))()
            avail = min(avail, off - self.pos)
        if n == 0:
            self.calls.append((self.pos, 0, 0))
            return b''
        if avail == 0:
            if self.end == 'block':
                self.blocked = True
                raise SimBlocked('read(%r) at %d waits for bytes the client will never send' % (n, self.pos))
            self.eof_reads += 1
            if self.eof_reads > 2000:
                raise SimHang('stream polled %d times after its end' % self.eof_reads)
            self.calls.append((self.pos, n, 0))
            return b''
        want = avail if n is None else min(n, avail)
        if n is None:
            got = want
        else:
            got = want
            if self.frag:
                lim = self.frag[self.ri % len(self.frag)]
                self.ri += 1
                if lim:
                    got = min(got, lim)
            for s in self.segs:
                if s > self.pos:
                    got = min(got, s - self.pos)
                    break
            if got < want:
                self.short += 1
        ret = self.data[self.pos:self.pos + got]
        self.calls.append((self.pos, n, got))
        self.pos += got
        if len(self.calls) > 2000000:
            raise SimHang('too many reads')
        return ret

    def read(self, size=-1):
        if size is None or size < 0:
            if self.end == 'block':
                self.blocked = True
                raise SimBlocked('read() to the end of a connection that stays open')
            return self._take(None)
        return self._take(size)

    def readline(self, size=-1):
        out = bytearray()
        while size is None or size < 0 or len(out) < size:
            c = self._take(1)
            if not c:
                break
            out += c
            if c == b'\n':
                break
        return bytes(out)

    def readlines(self, hint=None):
        return list(self)

    def __iter__(self):
        while True:
            ln = self.readline()
            if not ln:
                return
            yield ln

    def readinto(self, b):
        d = self._take(len(b))
        b[:len(d)] = d
        return len(d)

    def read1(self, size=-1):
        return self._take(None if size is None or size < 0 else size)
