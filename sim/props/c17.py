"""C17  Range and conditional requests describe exactly the bytes delivered."""
import builtins
import calendar
import errno
import mimetypes
import os
import re
import shutil
import tempfile
import threading
import time

from .. import core, world, wsgi, sched, draw
from ..stream import PlanError

PROP = 'C17'
RUNS = {'quick': 14000, 'thorough': 300000}
RULE = ('one run = a small file store (files of 0 to 3.2 million bytes, many around 1 MiB; rewritten between requests), a clock, a time zone and one application serving 2-8 requests: Range headers '
        'drawn from the grammar of RFC 7233 around the edges of the file and from near misses, conditional dates in the three HTTP formats around the modification time or echoed from an earlier '
        'answer, GET paired with HEAD, bodies streamed one after the other, interleaved, on two threads under a seeded schedule, or left early; file opens and reads may fail. Every answer is '
        'compared with a reference reading of the header and the bytes in the store. Non-trivial: a range or a conditional date was judged.')
TIME_UNIT = 'simulated seconds'
STATES = 'distinct (kind of range, size class of the file, kind of date and zone, method, status)'
REAL = ['ombott (whole package)', 'files (in a scratch folder)', 'email.utils, time zone database']
STUB = ['WSGI server and its file_wrapper', 'clock and TZ', 'file faults (open, read)', 'client that leaves', 'thread scheduler in two-thread runs']
PROBES = ['whole file', 'empty file', 'larger than the buffer', 'multi-chunk range', 'suffix', 'suffix longer than the file', 'open range', 'clipped range', 'last byte', 'first byte', 'unsatisfiable', 'reversed',
          'several ranges', 'junk range', 'foreign unit', 'spaces', 'leading zeros', 'more than 4300 digits', '304', 'older date', 'equal date', 'echoed Last-Modified', 'rfc850 date', 'asctime date', 'date with length', 'junk date',
          'date and range', 'HEAD compared', 'file_wrapper', 'interleaved', 'two threads', 'left early', 'read error', 'open error', 'file rewritten', 'other time zone', 'fractional mtime', 'daylight saving']
ASSUMPTIONS = ['the streaming buffer is 1 MiB', 'files do not change while one request is answered', 'headers that are no valid Range are answered 416, or 206 when they can be read as a range by a generous reader',
               'dates that are no HTTP-date but that email.utils can read may count or not']
BUF = 1 << 20
SIZES = [0, 1, 2, 3, 10, 100]
ZONES = ['UTC', 'UTC', 'Europe/Moscow', 'America/New_York', 'Asia/Kolkata', 'Pacific/Apia', 'Europe/London', 'Africa/Casablanca', 'EST5EDT', 'XXX-13:45', 'Europe/Lisbon', 'Asia/Pyongyang', 'America/Caracas', 'AAA+3BBB,0/0,J365/25']
NAMES = ['f.bin', 'f.txt', 'f.html', 'f.tar.gz', 'noext', 'f.bin2']
DAYS = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']
LONG = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday']
MONTHS = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']

_blob = None


def data(n, salt):
    global _blob
    if _blob is None:
        _blob = draw.blob(['ctr', 400, 7]) + draw.blob(['ctr', 4 * BUF, 17])
    return _blob[salt % 400:][:n]


# ------------------------------------------------------------------ dates
def fmt(t, kind):
    y, mo, d, h, mi, s, wd = time.gmtime(t)[:7]
    if kind == 'rfc850':
        return '%s, %02d-%s-%02d %02d:%02d:%02d GMT' % (LONG[wd], d, MONTHS[mo - 1], y % 100, h, mi, s)
    if kind == 'asctime':
        return '%s %s %2d %02d:%02d:%02d %d' % (DAYS[wd], MONTHS[mo - 1], d, h, mi, s, y)
    return '%s, %02d %s %04d %02d:%02d:%02d GMT' % (DAYS[wd], d, MONTHS[mo - 1], y, h, mi, s)


def read_date(text):
    """-> (seconds or None, sure)"""
    m = (re.fullmatch(r'(?:Mon|Tue|Wed|Thu|Fri|Sat|Sun), (\d\d) (\w{3}) (\d{4}) (\d\d):(\d\d):(\d\d) GMT(?:; length=\d+)?', text)
         or re.fullmatch(r'(?:Mon|Tues|Wednes|Thurs|Fri|Satur|Sun)day, (\d\d)-(\w{3})-(\d\d) (\d\d):(\d\d):(\d\d) GMT', text))
    if m:
        d, mo, y, h, mi, s = m.groups()
    else:
        m = re.fullmatch(r'(?:Mon|Tue|Wed|Thu|Fri|Sat|Sun) (\w{3}) ([ \d]\d) (\d\d):(\d\d):(\d\d) (\d{4})', text)
        if not m:
            return None, not re.search(r'\d', text)
        mo, d, h, mi, s, y = m.groups()
    if mo not in MONTHS:
        return None, False
    y = int(y)
    if y < 100:
        y += 1900 if y > 68 else 2000
    d, h, mi, s = int(d), int(h), int(mi), int(s)
    if not (1 <= d <= 31 and h < 24 and mi < 60 and s < 60 and 1 <= y):
        return None, False
    mo = MONTHS.index(mo) + 1
    if d > calendar.monthrange(y, mo)[1]:
        return None, False
    return calendar.timegm((y, mo, d, h, mi, s)), True


# ------------------------------------------------------------------ ranges
def read_range(h, n):
    """-> list of permitted answers: '416', '200' or (start, end)"""
    m = re.fullmatch(r'\s*(bytes)\s*=(.*)', h, re.I | re.S)
    if not m:
        return ['416']
    elems = [x.strip(' \t') for x in m.group(2).split(',')]
    strict = h.startswith('bytes=') and h[6:7] not in (' ', '\t', ',', '')

    def one(e, generous):
        sp = r'\s*' if generous else ''
        m = re.fullmatch(sp + r'(\d*)' + sp + '-' + sp + r'(\d*)' + sp, e, re.A)
        if not m or not (m.group(1) or m.group(2)):
            return None
        a, b = m.groups()
        big = max(len(a), len(b)) > 4000
        if not a:
            k = n if len(b) > 4000 and b.strip('0') else int(b[-4000:])
            return (max(0, n - k), n, big) if k and n else (0, 0, big)
        a = 1 << 80 if len(a) > 4000 and a[:-4000].strip('0') else int(a[-4000:])
        b = 1 << 80 if not b or len(b) > 4000 and b[:-4000].strip('0') else int(b[-4000:])
        if b < a:
            return (0, 0, False)
        return (a, min(b + 1, n), big) if a < n else (0, 0, big)
    valid = strict and all(not e or one(e, False) and not (lambda m: m and int(m.group(1)[-4000:]) > int(m.group(2)[-4000:]))(re.fullmatch(r'(\d+)-(\d+)', e, re.A)) for e in elems)
    first = next((e for e in elems if e), None)
    if first is None:
        return ['416']
    got = one(first, True)
    if got is None or got[0] >= got[1]:
        return ['416']
    if valid and not got[2]:
        return [got[:2]]
    return ['416', got[:2]]


def gen_range(rng, n):
    k = rng.randrange(20)
    edge = lambda: max(0, rng.choice([0, 0, 1, n - 2, n - 1, n - 1, n, n + 1, n // 2, 2 * n, rng.randrange(n + 2), BUF - 1, BUF, BUF + 1, n - BUF, n - BUF - 1, rng.randrange(4 * BUF), 10 ** 18]))
    if k < 6:
        a = edge()
        b = rng.choice([a, a + 1, a + BUF - 1, a + BUF, a + rng.randrange(50), edge(), edge(), n - 1])
        e = '%d-%d' % (a, max(a, b))
    elif k < 8:
        e = '%d-' % edge()
    elif k < 11:
        e = '-%d' % edge()
    elif k == 11:
        a, b = edge(), edge()
        e = '%d-%d' % (max(a, b) + 1, min(a, b))
    elif k == 12:
        e = rng.choice(['-', '', '--1', '1--2', '-1-2', '1-2-3', 'a-b', '0x1-5', '+1-5', '1-+5', '-+5', '1_0-20', '1.0-2', '0-1e3', '- 5', ' 0-5', '0 - 5', '0-5 ', '-0', '\u00b2-5', '5', '0-5;q=1', 'first-last', '*', '0-*', '/5', "0-5'"])
    elif k == 13:
        z = '0' * rng.randint(0, 30)
        e = rng.choice(['%s%d-%s%d' % (z, edge(), '0' * rng.randint(0, 30), edge()), '%s%d-' % (z, edge()), '-%s%d' % (z, edge()), '%s%d-%d' % (z, edge(), edge())])
    elif k == 14:
        z = rng.choice(['0', '9']) * rng.choice([20, 4299, 4300, 4301, 6000])
        e = rng.choice(['0-' + z, z + '-', '-' + z, z + '1-' + z + '5'])
    else:
        e = ', '.join(rng.choice(['%d-%d' % (edge(), edge()), '-%d' % edge(), '%d-' % edge(), '0-0', '', 'x']) for _ in range(rng.randint(2, 4)))
        if rng.random() < 0.3:
            e = e.replace(', ', rng.choice([',', ' , ', ',,', ',\t']))
    return (rng.choice(['bytes='] * 24 + ['Bytes=', 'bytes =', ' bytes=', 'xbytes=', 'items=', '', 'bytes', 'bytes:', 'bytes==', 'seconds=1,bytes=', 'bytes=bytes=', 'byte=', 'items bytes=', 'BYTES=', 'x=bytes='])) + e


def gen_size(rng):
    return draw.pick(rng, (3, rng.choice(SIZES)), (4, rng.randint(0, 40)), (3, rng.randint(0, 5000)), (0.7, max(0, rng.choice([1, 2, 3]) * BUF + rng.choice([-2, -1, 0, 0, 1, 2, 777]))))


def gen_mtime(rng):
    t = rng.choice([0, 1, rng.randrange(2 ** 31), rng.randrange(2 ** 31), rng.randrange(1262304000, 1420070400), 1330000000, 1301184000, 1319943600, 1446352200, 1425798000, 1699164000, 1710000000, 951782400, 2 ** 31 + 5, rng.randrange(1600000000, 1800000000)])
    return t + rng.choice([0, 0, 0, 0.5, 0.999, 0.25])


def gen_ims(rng, mtime):
    k = rng.randrange(10)
    if k < 7:
        t = int(mtime) + rng.choice([0, 0, 0, -1, 1, 59, -60, 3600, -3600, 7200, -7200, 86400, -86400, rng.randrange(-10 ** 7, 10 ** 7), 1800, -1800])
        t = max(0, t)
        kind = rng.choice(['imf', 'imf', 'rfc850', 'asctime', 'length'])
        if kind == 'rfc850' and not 0 <= t < 3124224000:
            kind = 'imf'
        return fmt(t, kind) + ('; length=%d' % rng.randrange(1000) if kind == 'length' else '')
    if k == 7:
        return 'echo'
    return rng.choice(['junk', '', '0', str(int(mtime) + 10), '2030-01-01T00:00:00Z', 'Sat, 31 Dec 2016 23:59:60 GMT', 'Fri, 31 Feb 2040 00:00:00 GMT', 'Mon, 01 Xxx 2040 00:00:00 GMT', ';', ' ', 'yesterday', 'Sun, 06 Nov 2044 08:49:37 +0200',
                       '06 Nov 2044', 'Sun, 06 Nov 9999999 08:49:37 GMT', 'Sun, 06 Nov 2044 25:61:61 GMT', 'GMT', ',', 'Sun,', 'Sun, 00 Nov 2044 00:00:00 GMT', '*', 'Thu, 01 Jan 0000 00:00:00 GMT', '\u00e9', '(', 'Sun, 06 Nov 2044 08:49:37 \xff'])


def gen_req(rng, files):
    i = rng.randrange(len(files))
    return dict(file=i, method=rng.choice(['GET'] * 5 + ['HEAD']), range=gen_range(rng, files[i][1]) if rng.random() < 0.7 else None, ims=gen_ims(rng, files[i][2]) if rng.random() < 0.4 else None,
                pair=rng.random() < 0.3, wrapper=rng.random() < 0.3, leave=rng.choice([0, 1, 2]) if rng.random() < 0.05 else None, how=rng.choice(['return', 'return', 'raise', 'direct']), params=rng.randrange(4))


def gen_file(rng):
    return [rng.choice(NAMES), gen_size(rng), gen_mtime(rng), rng.randrange(400)]


def gen_steps(rng, files, two):
    steps = []
    for _ in range(rng.choice([1, 2, 3]) if two else rng.choice([2, 3, 4, 6, 8])):
        k = rng.random()
        if k < 0.08 and not two:
            i = rng.randrange(len(files))
            f = [files[i][0], max(0, files[i][1] + rng.choice([-1, 1, 5])) if rng.random() < 0.5 else gen_size(rng), gen_mtime(rng) if rng.random() < 0.7 else files[i][2] + rng.choice([1, -1, 2, 10]), rng.randrange(400)]
            if f[2] < 0:
                f[2] = 0
            files[i] = f
            steps.append(['write', i, f])
        elif k < 0.16 and not two:
            steps.append(['zone', rng.randrange(len(ZONES))])
        elif k < 0.2:
            steps.append(['sleep', rng.choice([0.5, 1, 60, 86400, 10 ** 7, 3e8])])
        elif k < 0.3 and not two:
            a, b = gen_req(rng, files), gen_req(rng, files)
            steps.append(['both', a, b, [rng.randint(0, 1) for _ in range(rng.randint(1, 6))]])
        else:
            steps.append(['req', gen_req(rng, files)])
    return steps


def gen(rng, tier):
    two = rng.random() < 0.03
    files = [gen_file(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    for i, f in enumerate(files):
        f[0] = NAMES[(NAMES.index(f[0]) + i) % len(NAMES)] if any(f[0] == g[0] for g in files[:i]) else f[0]
    if len({f[0] for f in files}) < len(files):
        files = files[:1]
    init = [list(f) for f in files]
    clients = [gen_steps(rng, files, two) for _ in range(2 if two else 1)]
    return dict(files=init, zone=rng.randrange(len(ZONES)) if rng.random() < 0.6 else 0, clock=rng.choice([1700000000, 10 ** 9, 1330000000, 4102444800]), clients=clients, mode=sched.gen_mode(rng, 2) if two else None,
                faults=[[rng.choice(['open', 'read', 'read']), rng.randint(1, 4), rng.choice(['EIO', 'EACCES', 'ENOENT', 'EMFILE'])]] if rng.random() < 0.05 else [])


def ok_file(f):
    return len(f) == 4 and f[0] in NAMES and isinstance(f[1], int) and 0 <= f[1] <= 4 * BUF and isinstance(f[2], (int, float)) and 0 <= f[2] < 2 ** 33 and isinstance(f[3], int) and 0 <= f[3] < 400


def ok_req(q, p):
    return (0 <= q['file'] < len(p['files']) and q['method'] in ('GET', 'HEAD') and (q['range'] is None or isinstance(q['range'], str)) and (q['ims'] is None or isinstance(q['ims'], str))
            and q['how'] in ('return', 'raise', 'direct') and 0 <= q['params'] < 4 and (q['leave'] is None or isinstance(q['leave'], int) and q['leave'] >= 0)
            and not re.search('[\r\n\0]', (q['range'] or '') + (q['ims'] or '')) and all(ord(c) < 256 for c in (q['range'] or '') + (q['ims'] or '')))


def valid(p):
    if not p['files'] or not all(ok_file(f) for f in p['files']) or len({f[0] for f in p['files']}) != len(p['files']) or not 0 <= p['zone'] < len(ZONES) or not isinstance(p['clock'], (int, float)):
        return False
    if not 1 <= len(p['clients']) <= 2 or bool(p['mode']) != (len(p['clients']) == 2):
        return False
    for c in p['clients']:
        for s in c:
            if s[0] == 'req':
                if not ok_req(s[1], p):
                    return False
            elif s[0] == 'both':
                if p['mode'] or not ok_req(s[1], p) or not ok_req(s[2], p) or not all(x in (0, 1) for x in s[3]):
                    return False
            elif s[0] == 'write':
                if p['mode'] or not 0 <= s[1] < len(p['files']) or not ok_file(s[2]) or s[2][0] != p['files'][s[1]][0]:
                    return False
            elif s[0] == 'zone':
                if p['mode'] or not 0 <= s[1] < len(ZONES):
                    return False
            elif s[0] == 'sleep':
                if not isinstance(s[1], (int, float)) or not 0 <= s[1] <= 1e9:
                    return False
            else:
                return False
    return all(f[0] in ('open', 'read') and isinstance(f[1], int) and hasattr(errno, f[2]) for f in p['faults'])


PARAMS = [{}, {'mimetype': 'text/x-a'}, {'download': True}, {'mimetype': None}]


class Wrapper:
    """the server's file_wrapper: reads a file to its end"""

    def __init__(self, f, size=8192):
        self.f, self.size = f, size
        if hasattr(f, 'close'):
            self.close = f.close

    def __iter__(self):
        return self

    def __next__(self):
        part = self.f.read(self.size)
        if part:
            return part
        raise StopIteration


class World:
    def __init__(self, p, r):
        self.p, self.r = p, r
        self.dir = tempfile.mkdtemp(prefix='c17-', dir=core.scratch_base())
        self.files = [list(f) for f in p['files']]
        for f in self.files:
            self.write(f)
        self.now = p['clock']
        self.om = world.fresh()
        self.app = self.om.default_app()
        self.jobs = {}
        self.direct = {}
        self.last_modified = {}
        self.faults = {(f[0], f[1]): f[2] for f in p['faults']}
        self.count = {}
        self.fired = 0

        @self.app.route('/f', method=['GET', 'HEAD'])
        def handler():
            q = self.jobs[threading.get_ident()]
            res = self.om.static_file(self.files[q['file']][0], self.dir, **PARAMS[q['params']])
            if q['how'] == 'raise':
                raise res
            if q['how'] == 'direct':
                self.direct[threading.get_ident()] = res
                return 'x'
            return res

    def write(self, f):
        path = os.path.join(self.dir, f[0])
        with real_open(path, 'wb') as fp:
            fp.write(data(f[1], f[3]))
        os.utime(path, ns=(int(f[2] * 1000) * 10 ** 6,) * 2)

    def hit(self, op, path):
        n = self.count[op] = self.count.get(op, 0) + 1
        e = self.faults.get((op, n))
        if e:
            self.fired += 1
            self.r.fault('file %s error' % op)
            self.r.probe(op + ' error')
            raise OSError(getattr(errno, e), os.strerror(getattr(errno, e)), path)

    def open(self, path, *a, **k):
        f = real_open(path, *a, **k)
        if isinstance(path, str) and path.startswith(self.dir) and self.faults:
            try:
                self.hit('open', path)
            except OSError:
                f.close()
                raise
            try:
                return Faulty(f, self)
            except (AttributeError, ValueError):
                return f
        return f


class Faulty:
    def __init__(self, f, w):
        self._f, self._w = f, w

    def read(self, *a):
        self._w.hit('read', self._f.name)
        return self._f.read(*a)

    def readinto(self, b):
        self._w.hit('read', self._f.name)
        return self._f.readinto(b)

    def __getattr__(self, n):
        return getattr(self._f, n)

    def __iter__(self):
        return self

    def __next__(self):
        part = self.read(8192)
        if part:
            return part
        raise StopIteration

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._f.close()


real_open = builtins.open
real_time = time.time
DATE_KINDS = [('rfc850', r'\w+day, '), ('asctime', r'\w{3} \w{3} '), ('length', '.*length'), ('imf', '.*GMT$')]


class Client:
    def __init__(self, w):
        self.w, self.r = w, w.r

    def environ(self, q, method=None):
        h = []
        if q['range'] is not None:
            h.append(('Range', q['range']))
        ims = q['ims']
        if ims == 'echo':
            ims = self.w.last_modified.get(q['file'])
        if ims is not None:
            h.append(('If-Modified-Since', ims))
        return wsgi.make_environ(method or q['method'], '/f', headers=h, extra={'wsgi.file_wrapper': Wrapper} if q['wrapper'] else None), ims

    def req(self, q, pair=False):
        w, me = self.w, threading.get_ident()
        w.jobs[me] = q
        w.direct.pop(me, None)
        method = 'HEAD' if pair else q['method']
        env, ims = self.environ(q, method)
        fired = w.fired
        ex = wsgi.call(w.app, env, abort_after=q['leave'] if q['how'] != 'direct' else None)
        if q['how'] == 'direct' and me in w.direct:
            # the returned response itself
            res = w.direct.pop(me)
            ex = wsgi.Exchange()
            ex.environ = env
            ex.starts.append((res.status_line, res.headerlist, False))
            body = res.body
            if isinstance(res, w.om.HTTPError):
                body = ''
            try:
                if hasattr(body, 'read'):
                    while 1:
                        part = body.read(8192)
                        if not part:
                            break
                        ex.chunks.append(part)
                else:
                    ex.chunks = [x.encode() if isinstance(x, str) else x for x in body]
            except OSError as e:
                ex.iter_error = e
            if hasattr(body, 'close'):
                body.close()
        self.judge(q, method, ims, ex, w.fired > fired, q['leave'] is not None and q['how'] != 'direct')
        return ex

    def judge(self, q, method, ims, ex, fired, left, whole=True):
        w, r = self.w, self.r
        name, n, mtime, salt = w.files[q['file']]
        head = method == 'HEAD'
        what = '%s %s (%d bytes, modified %s = %s) TZ=%s Range: %r If-Modified-Since: %r (%s): %s, %d bytes' % (
            method, name, n, mtime, fmt(int(mtime), 'imf'), os.environ.get('TZ'), q['range'] if len(q['range'] or '') < 200 else q['range'][:90] + '...', ims, q['how'], ex.brief(), len(ex.body))
        if ex.escaped or ex.problems or ex.close_error:
            r.fail('crash', '%s %r %r' % (what, ex.escaped or ex.close_error, ex.problems))
        code = ex.code
        kind = None
        if fired and (code == 500 or ex.iter_error):
            if code == 500:
                return
        elif ex.iter_error:
            r.fail('crash', '%s %r' % (what, ex.iter_error))
        # conditional
        want = None
        if ims:
            t, sure = read_date(ims)
            dk = next((k for k, x in DATE_KINDS if re.match(x, ims)), None) if t is not None else 'junk'
            if t is not None:
                want = t >= int(mtime)
                r.probe('rfc850 date', dk == 'rfc850')
                r.probe('asctime date', dk == 'asctime')
                r.probe('date with length', dk == 'length')
                r.probe('equal date', t == int(mtime))
                r.probe('older date', t < int(mtime))
                r.probe('echoed Last-Modified', q['ims'] == 'echo')
                r.probe('date and range', q['range'] is not None)
            else:
                r.probe('junk date')
                want = False if sure else None
            kind = dk, want
            r.nontrivial = True
            if want and code != 304:
                r.fail('not-304', what)
            if want is False and code == 304:
                r.fail('304', what)
        elif code == 304:
            r.fail('304', what)
        if code == 304:
            r.probe('304')
            if ex.body:
                r.fail('304-body', what)
            self.seen(q, kind, 'none', n, method, code)
            return
        full = data(n, salt)
        rk = 'none'
        if not q['range']:
            if code != 200:
                r.fail('status', what)
            start, end = 0, n
            r.probe('whole file')
        else:
            r.nontrivial = True
            allowed = read_range(q['range'], n)
            rk = self.range_kind(q['range'], n, allowed)
            if code == 416:
                if '416' not in allowed:
                    r.fail('416', what + ' instead of %s' % allowed)
                self.seen(q, kind, rk, n, method, code)
                return
            if code != 206:
                r.fail('status', what)
            m = re.fullmatch(r'bytes (\d+)-(\d+)/(\d+)', ex.header('Content-Range') or '')
            if not m or len(ex.header_all('Content-Range')) != 1:
                r.fail('content-range', what)
            start, end, total = int(m.group(1)), int(m.group(2)) + 1, int(m.group(3))
            if total != n or not 0 <= start < end <= n:
                r.fail('content-range', what)
            if (start, end) not in allowed:
                r.fail('slice', what + ' instead of %s' % allowed)
            r.probe('multi-chunk range', end - start > BUF)
        if ex.header_all('Content-Length') != [str(end - start)]:
            r.fail('content-length', what)
        if code == 200 and ex.header('Content-Range') is not None:
            r.fail('content-range', what)
        lm = ex.header('Last-Modified')
        if lm is not None:
            w.last_modified[q['file']] = lm
        if head:
            if ex.body:
                r.fail('head-body', what)
        else:
            body = ex.body
            if any(len(c) > BUF for c in ex.chunks):
                r.fail('chunk', '%s, chunk of %d bytes' % (what, max(len(c) for c in ex.chunks)))
            piece = full[start:end]
            if left or fired and ex.iter_error or not whole:
                if not piece.startswith(body):
                    r.fail('bytes', what)
                r.probe('left early', left)
            elif body != piece:
                at = next((i for i in range(0, len(piece) + 1, 4096) if body[i:i + 4096] != piece[i:i + 4096]), len(piece))
                at += next((i for i, (a, b) in enumerate(zip(body[at:], piece[at:at + 4096])) if a != b), min(len(body), len(piece)) - at)
                r.fail('bytes', '%s: %d bytes of %d, wrong from offset %d' % (what, len(body), len(piece), at))
        r.probe('empty file', n == 0)
        r.probe('larger than the buffer', n > BUF)
        r.probe('file_wrapper', q['wrapper'] and code == 200)
        r.probe('fractional mtime', mtime != int(mtime))
        self.seen(q, kind, rk, n, method, code)

    def range_kind(self, h, n, allowed):
        r = self.r
        one = re.fullmatch(r'bytes=(\d*)-(\d*)', h, re.A)
        if one and (one.group(1) or one.group(2)):
            a, b = one.groups()
            if max(len(a), len(b)) > 4300:
                k = 'more than 4300 digits'
            elif not a:
                k = 'suffix longer than the file' if int(b) > n else 'suffix'
            elif b and int(b) < int(a):
                k = 'reversed'
            elif allowed == ['416']:
                k = 'unsatisfiable'
            elif not b:
                k = 'open range'
            elif int(b) >= n:
                k = 'clipped range'
            elif (a + b)[0] == '0' and len(a) > 1:
                k = 'leading zeros'
            elif int(b) == n - 1:
                k = 'last byte'
            else:
                k = 'first byte' if int(a) == 0 else 'inner'
        elif ',' in h and allowed != ['416']:
            k = 'several ranges'
        elif not re.match(r'\s*bytes\s*=', h, re.I):
            k = 'foreign unit'
        elif allowed != ['416']:
            k = 'spaces'
        else:
            k = 'junk range'
        if k != 'inner':
            r.probe(k)
        return k

    def seen(self, q, kind, rk, n, method, code):
        size = '0' if n == 0 else 'tiny' if n < 4 else 'small' if n < BUF - 5 else 'buf-' if n < BUF else 'buf' if n == BUF else 'buf+' if n < 2 * BUF else 'many'
        self.r.states.append((rk, size, kind, os.environ.get('TZ') if kind else None, method, code, q['how']))
        self.r.note(method, code, rk, size, kind)

    def both(self, a, b, pattern):
        """two bodies streamed at once by one worker"""
        w, me = self.w, threading.get_ident()
        outs = []
        for q in (a, b):
            q = dict(q, how='return', leave=None)
            w.jobs[me] = q
            env, ims = self.environ(q)
            ex = wsgi.Exchange()
            ex.environ = env
            fired = w.fired
            try:
                ret = w.app(env, lambda st, hd, exc=None, ex=ex: ex.starts.append((st, list(hd), False)))
                it = iter(ret)
            except Exception as e:
                self.r.fail('crash', '%s: %r' % (q, e))
            outs.append([q, ims, ex, ret, it, True, w.fired > fired])
        i = 0
        while any(o[5] for o in outs):
            o = outs[pattern[i % len(pattern)] if i < 12 else i % 2]
            i += 1
            if not o[5]:
                continue
            fired = w.fired
            try:
                o[2].chunks.append(next(o[4]))
            except StopIteration:
                o[5] = False
            except OSError as e:
                o[5] = False
                o[2].iter_error = e
            o[6] = o[6] or w.fired > fired
        for o in outs:
            close = getattr(o[3], 'close', None)
            if close:
                close()
            self.judge(o[0], o[0]['method'], o[1], o[2], o[6], False)
        self.r.probe('interleaved')

    def play(self, steps):
        w, r = self.w, self.r
        for s in steps:
            if s[0] == 'req':
                q = s[1]
                lm = w.last_modified.get(q['file'])
                ex = self.req(q)
                if q['pair'] and q['method'] == 'GET' and not w.faults and not w.p['mode'] and q['ims'] != 'echo':
                    hx = self.req(q, True)
                    if (hx.status, undated(hx.headers)) != (ex.status, undated(ex.headers)):
                        r.fail('head', 'GET %s (%s): %s, HEAD: %s' % (w.files[q['file']], q, ex.brief(), hx.brief()))
                    r.probe('HEAD compared')
            elif s[0] == 'both':
                self.both(*s[1:])
            elif s[0] == 'write':
                w.files[s[1]] = list(s[2])
                w.write(s[2])
                w.last_modified.pop(s[1], None)
                r.probe('file rewritten')
            elif s[0] == 'zone':
                zone(s[1], r)
            else:
                w.now += s[1]
                r.simtime += s[1]


def undated(headers):
    """the moment of answering may be read from another clock than the simulated one"""
    return sorted((k, '' if k.lower() == 'date' else v) for k, v in headers)


def zone(i, r):
    os.environ['TZ'] = ZONES[i]
    time.tzset()
    r.probe('other time zone', ZONES[i] != 'UTC')
    r.probe('daylight saving', bool(time.daylight))


def run(p, r):
    if not valid(p):
        raise PlanError('shape')
    mimetypes.init()
    w = World(p, r)
    tz = os.environ.get('TZ')
    try:
        zone(p['zone'], r)
        builtins.open = w.open
        time.time = lambda: w.now
        cs = [Client(w) for _ in p['clients']]
        if len(cs) == 1:
            cs[0].play(p['clients'][0])
        else:
            with sched.locks():
                s = sched.Sched([lambda c=c, st=st: c.play(st) for c, st in zip(cs, p['clients'])], sched.resolve(p['mode'], [2000, 2000]), 'line', budget=2000000).run()
            for e in s.errors:
                if e:
                    raise e
            r.fault('preemption', len(s.switches))
            r.probe('two threads')
    finally:
        builtins.open = real_open
        time.time = real_time
        if tz is None:
            os.environ.pop('TZ', None)
        else:
            os.environ['TZ'] = tz
        time.tzset()
        shutil.rmtree(w.dir, ignore_errors=True)
