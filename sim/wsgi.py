"""Simulated WSGI server (PEP 3333) with an independent protocol check."""
import io
import re
import sys

from .stream import SimStop, Passthru

STATUS_RE = re.compile(r'^[1-9][0-9][0-9] [^\x00-\x1f\x7f]+$')
TOKEN_RE = re.compile(r"^[!#$%&'*+\-.^_`|~0-9A-Za-z]+$")
HOP = {'connection', 'keep-alive', 'proxy-authenticate', 'proxy-authorization', 'te',
       'trailers', 'transfer-encoding', 'upgrade'}


def raw_path(path):
    """text or bytes -> PATH_INFO native string"""
    if isinstance(path, str):
        path = path.encode('utf8')
    return path.decode('latin1')


def make_environ(method='GET', path='/', query='', headers=(), inp=None, host='sim.test',
                 content_type=None, content_length=None, errors=None, extra=None, scheme='http', bare=False):
    env = {
        'REQUEST_METHOD': method,
        'SCRIPT_NAME': '',
        'PATH_INFO': raw_path(path),
        'QUERY_STRING': query,
        'SERVER_NAME': 'sim.test',
        'SERVER_PORT': '80',
        'SERVER_PROTOCOL': 'HTTP/1.1',
        'REMOTE_ADDR': '192.0.2.1',
        'wsgi.version': (1, 0),
        'wsgi.url_scheme': scheme,
        'wsgi.input': inp if inp is not None else io.BytesIO(b''),
        'wsgi.errors': errors if errors is not None else io.StringIO(),
        'wsgi.multithread': True,
        'wsgi.multiprocess': False,
        'wsgi.run_once': False,
    }
    if host is not None:
        env['HTTP_HOST'] = host
    if content_type is not None:
        env['CONTENT_TYPE'] = content_type
    if content_length is not None:
        env['CONTENT_LENGTH'] = str(content_length)
    for k, v in headers:
        key = k.upper().replace('-', '_')
        if key not in ('CONTENT_TYPE', 'CONTENT_LENGTH'):
            key = 'HTTP_' + key
        env[key] = (env[key] + ', ' + v) if key in env else v
    # PEP 3333: variables whose value is empty may be left out
    for k in ('PATH_INFO', 'QUERY_STRING', 'SCRIPT_NAME') if bare else ('PATH_INFO',):
        if not env[k]:
            del env[k]
    if extra:
        env.update(extra)
    return env


class Exchange:
    """Everything the server saw for one request."""

    def __init__(self):
        self.starts = []         # (status, headers, exc_info given)
        self.chunks = []
        self.escaped = None      # exception that left the application callable
        self.iter_error = None   # exception while the body was iterated
        self.close_error = None
        self.stopped = None      # SimStop raised inside
        self.problems = []       # protocol violations
        self.environ = None
        self.ret = None
        self.iterated = False

    @property
    def status(self):
        return self.starts[-1][0] if self.starts else None

    @property
    def code(self):
        try:
            return int(self.status[:3])
        except Exception:
            return None

    @property
    def headers(self):
        # malformed ones are reported by check_head; here only what is a header
        hs = self.starts[-1][1] if self.starts else []
        if not isinstance(hs, list):
            return []
        return [h for h in hs if isinstance(h, tuple) and len(h) == 2 and isinstance(h[0], str) and isinstance(h[1], str)]

    def header(self, name, default=None):
        for k, v in self.headers:
            if k.lower() == name.lower():
                return v
        return default

    def header_all(self, name):
        return [v for k, v in self.headers if k.lower() == name.lower()]

    @property
    def body(self):
        return b''.join(self.chunks)

    @property
    def errlog(self):
        e = self.environ.get('wsgi.errors')
        return e.getvalue() if hasattr(e, 'getvalue') else ''

    def brief(self):
        b = self.body
        return '%s %s %r%s%s' % (
            self.status, sorted((str(k), str(v)) for k, v in self.headers), b[:120], '...' if len(b) > 120 else '',
            ' ESCAPED %r' % (self.escaped,) if self.escaped else '')


def call(app, environ, max_chunks=None, abort_after=None):
    """One request through the application as a PEP 3333 server would do it.

    abort_after: the client goes away after that many chunks; the server then stops
    iterating and calls close()."""
    ex = Exchange()
    ex.environ = environ

    def write(data):
        ex.problems.append('write() used')
        ex.chunks.append(data)

    def start_response(status, headers, exc_info=None):
        ex.starts.append((status, list(headers) if isinstance(headers, list) else headers, exc_info is not None))
        check_head(ex, status, headers)
        if ex.iterated and exc_info is None:
            ex.problems.append('start_response during iteration without exc_info')
        return write

    try:
        ret = app(environ, start_response)
    except SimStop as e:
        ex.stopped = e
        return ex
    except Passthru:
        raise
    except BaseException as e:
        ex.escaped = e
        return ex
    ex.ret = ret
    if isinstance(ret, (str, bytes)):
        ex.problems.append('returned %s instead of an iterable of byte strings' % type(ret).__name__)
    try:
        it = iter(ret)
    except TypeError as e:
        ex.problems.append('return value not iterable: %r' % (e,))
        return ex
    ex.iterated = True
    n = 0
    try:
        if not (abort_after is not None and abort_after <= 0):
            for chunk in it:
                if not isinstance(chunk, bytes):
                    ex.problems.append('body chunk of type %s' % type(chunk).__name__)
                    break
                ex.chunks.append(chunk)
                n += 1
                if abort_after is not None and n >= abort_after:
                    break
                if max_chunks is not None and n >= max_chunks:
                    ex.problems.append('endless body')
                    break
    except SimStop as e:
        ex.stopped = e
    except Passthru:
        raise
    except BaseException as e:
        ex.iter_error = e
    close = getattr(ret, 'close', None)
    if close is not None:
        try:
            close()
        except SimStop as e:
            ex.stopped = e
        except Passthru:
            raise
        except BaseException as e:
            ex.close_error = e
    if not ex.starts:
        ex.problems.append('start_response never called')
    return ex


def check_head(ex, status, headers):
    p = ex.problems
    if type(status) is not str:
        p.append('status is %s' % type(status).__name__)
    else:
        if not STATUS_RE.match(status):
            p.append('malformed status line %r' % status)
        try:
            status.encode('latin1')
        except UnicodeError:
            p.append('status not latin-1: %r' % status)
    if type(headers) is not list:
        p.append('header list is %s' % type(headers).__name__)
        return
    seen = set()
    for h in headers:
        if type(h) is tuple and len(h) == 2 and type(h[0]) is str and h[0].lower() in ('content-type', 'content-length'):
            if h[0].lower() in seen:
                p.append('two %s headers' % h[0])
            seen.add(h[0].lower())
        if type(h) is not tuple or len(h) != 2:
            p.append('header entry %r' % (h,))
            continue
        k, v = h
        if type(k) is not str or type(v) is not str:
            p.append('header %r: %r not native strings' % (k, v))
            continue
        if not TOKEN_RE.match(k):
            p.append('bad header name %r' % k)
        if k.lower() in HOP:
            p.append('hop-by-hop header %r' % k)
        if k.lower() == 'status':
            p.append('Status header')
        try:
            v.encode('latin1')
        except UnicodeError:
            p.append('header %r value not latin-1' % k)
        if any(c in v for c in '\r\n\0'):
            p.append('control character in header %r: %r' % (k, v))
