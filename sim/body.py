"""Pieces shared by the body properties: connections with request windows, handler-side
access programs, spool disk wiring."""
from .stream import SimInput, SimStop
from .disk import SimDisk
from . import draw, core


def make_app(ombott, conf):
    return ombott.Ombott({k: v for k, v in conf.items() if v is not None})


# handler-side ways to look at the raw body
ACCESS = ['body', 'body', 'pieces', 'twice', 'input', 'copy', 'seek', 'iter', 'sub', 'lines', 'setenv']


ENV = [('CONTENT_TYPE', 'text/x-other'), ('QUERY_STRING', 'a=1'), ('HTTP_X_SEEN', '1'), ('HTTP_COOKIE', 'a=b'), ('PATH_INFO', '/other'), ('x.own', 'value'), ('REMOTE_USER', 'me')]


def read_body(ombott, app, op, sizes=()):
    """Perform one access; returns the bytes the handler ends up with."""
    req = app.request
    if op == 'body':
        return req.body.read()
    if op == 'pieces':
        f = req.body
        out, i = [], 0
        while True:
            n = sizes[i % len(sizes)] if sizes else 7
            i += 1
            p = f.read(max(1, n))
            if not p:
                return b''.join(out)
            out.append(p)
    if op == 'twice':
        req.body.read(3)
        return req.body.read()
    if op == 'input':
        req.body
        f = req.environ['wsgi.input']
        f.seek(0)
        return f.read()
    if op == 'copy':
        # the stream can be consumed once: a copy made before the body was read
        # takes it away from the original, as with any copied environ
        req.body
        return req.copy().body.read()
    if op == 'seek':
        f = req.body
        f.seek(0, 2)
        n = f.tell()
        f.seek(0)
        d = f.read()
        if len(d) != n:
            raise core.Violation('size-by-seek', 'seek(0,2) says %d bytes, read gives %d' % (n, len(d)))
        return d
    if op == 'iter':
        return b''.join(req.body)
    if op == 'lines':
        f = req.body
        out = []
        while True:
            ln = f.readline()
            if not ln:
                return b''.join(out)
            out.append(ln)
    if op == 'setenv':
        # the handler changes what has nothing to do with the body
        req.body.read(2)
        for k, v in ENV:
            old = req.get(k)
            req[k] = v
            if old is None:
                del req[k]
            else:
                req[k] = old
        return req.body.read()
    if op == 'sub':
        # a nested WSGI component receives a copy of the environ
        req.body
        env = dict(req.environ)
        env.pop('ombott.request', None)
        return ombott.Request(env, config=app.config).body.read()
    raise core.PlanError(op)


def conn_gen(rng, length, hot=(), faults=True, hi=None):
    """Transport part of a plan."""
    d = dict(frag=draw.frag(rng), segs=draw.segs(rng, length, hot), end=rng.choice(['eof', 'block']), fail=None)
    if faults and rng.random() < 0.12:
        top = hi if hi is not None else length
        d['fail'] = [rng.randint(0, max(0, top)), rng.choice(['reset', 'timeout', 'oserror'])]
    return d


def conn_make(data, c):
    return SimInput(data, frag=c.get('frag') or (), segs=c.get('segs') or (), end=c.get('end') or 'eof',
                    fail=c.get('fail'))


def disk_gen(rng, p=0.1):
    if rng.random() >= p:
        return []
    return [[rng.choice(['open', 'write', 'write', 'write', 'read', 'seek', 'flush']), rng.randint(1, 4),
             rng.choice(['ENOSPC', 'EIO', 'EMFILE', 'EDQUOT'])]]


class Spool:
    """Installs the simulated spool disk for the duration of a run."""

    def __init__(self, faults):
        self.disk = SimDisk(core.scratch_base(), faults or ())

    def __enter__(self):
        self.disk.install()
        return self.disk

    def __exit__(self, *a):
        self.disk.remove()


def conn_account(r, conn, disk=None):
    r.simtime += len(conn.calls)
    r.fault('short read', conn.short)
    if conn.failed:
        r.fault('read error (%s)' % conn.fail[1])
    if conn.eof_reads:
        r.fault('end of stream seen by a read')
    if disk:
        r.simtime += sum(disk.count.values())
        for op, n, e in disk.fired:
            r.fault('disk %s error' % op)


def check_window(conn, lo, hi, first_call, what):
    """No read may ask for bytes beyond hi."""
    for pos, n, got in conn.calls[first_call:]:
        if n is None or pos + n > hi:
            raise core.Violation('over-read', '%s: read(%s) at offset %d of a body that ends at %d' % (
                what, 'all' if n is None else n, pos - lo, hi - lo))
