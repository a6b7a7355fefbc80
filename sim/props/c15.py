"""C15  Cookies round-trip; forged signed cookies are never deserialised."""
import base64
import hashlib
import hmac
import io
import math
import pickle
import re
import threading
import _pickle

from .. import world, wsgi, sched
from ..stream import PlanError

PROP = 'C15'
RUNS = {'quick': 16000, 'thorough': 300000}
RULE = ('one run = a session of one client (or of two clients on two threads under a seeded schedule) with one application: cookies (any name, plain text or signed values of any picklable '
        'shape, any secret) are set in every way an application can (response, returned, raised, redirected and copied responses, errors, hooks, generators), kept by a client '
        'model, sent back among foreign cookies and read; between the parties an adversary alters signed cookies (substitution, deletion, insertion, truncation, swapped and '
        'recomputed signatures, hostile payloads, other secrets, other names). Everything handed to an unpickler is recorded. Non-trivial: a cookie was read back or a forged one presented.')
TIME_UNIT = 'exchanges (scheduler steps in two-thread runs)'
STATES = 'distinct (way the cookie was set, kind of value, kind of name, foreign cookies around it) and (mutation, kind of value)'
REAL = ['ombott (whole package)', 'http.cookies', 'pickle, hmac, base64 (deserialisation recorded)']
STUB = ['WSGI server', 'browser (cookie jar)', 'adversary', 'thread scheduler in two-thread runs']
PROBES = ['plain read back', 'signed read back', 'empty text', 'non-ASCII text', 'text with separators', 'odd name', 'set refused', 'deleted cookie absent', 'overwritten cookie', 'several cookies at once',
          'foreign cookies around', 'forged: sub', 'forged: rawsub', 'forged: del', 'forged: ins', 'forged: trunc', 'forged: head', 'forged: swapsig', 'forged: swappay', 'forged: sigedit', 'forged: hostile',
          'forged: secret', 'forged: digest', 'forged: rename', 'forged beside the genuine one', 'two threads', 'bytes secret', 'signed falsy value', 'every position altered', 'read without secret']
ASSUMPTIONS = ['secrets that HMAC itself does not distinguish (trailing NUL bytes) count as one', 'names and control characters http.cookies refuses, and texts with lone surrogates or above 4096 characters, may be refused',
               'the client returns the value exactly as it was sent']
HOWS = ['response', 'returned', 'raised', 'error', 'redirect', 'copy', 'generator', 'twice', 'hook', 'after', 'errhandler', 'status']
SECRETS = ['s3cret', 'other', 's3cre', 's3crets', 'S3cret', '\u00e9\u4e2d', 'x' * 70, ' ', '0', 'k?!', 'bytes:\xff\x01a', 'bytes:s3cret2', 'x' * 70 + 'y', 'x' * 64 + 'z', 'ab' * 40, 's3cret ', '\u00c9\u4e2d', 'S3CRET']
TOKEN = "!#$%&'*+-.^_`|~:abzABZ019"


NEAR = ['last', 'first', 'middle', 'longer', 'shorter', 'case', 'cut8', 'cut16', 'cut32', 'cut64', 'empty', 'reverse', 'hash']


def near(key, how):
    """a secret akin to `key`"""
    if not key:
        return key
    m = len(key) // 2
    return {'last': key[:-1] + bytes([key[-1] ^ 1]), 'first': bytes([key[0] ^ 1]) + key[1:], 'middle': key[:m] + bytes([key[m] ^ 1]) + key[m + 1:], 'longer': key + key[-1:], 'shorter': key[:-1],
            'case': key.swapcase(), 'cut8': key[:8], 'cut16': key[:16], 'cut32': key[:32], 'cut64': key[:64], 'empty': b'', 'reverse': key[::-1], 'hash': hashlib.md5(key).digest()}[how]


def same_key(a, b):
    """does HMAC-MD5 take both for the same key?"""
    return hmac.digest(a, b'', 'md5') == hmac.digest(b, b'', 'md5')


class Point:
    def __init__(self, x=0, y=None):
        self.x, self.y = x, y

    def __eq__(self, o):
        return type(o) is Point and equal(self.x, o.x) and equal(self.y, o.y)

    __hash__ = None


FIRED = []


def fire(tok):
    FIRED.append(tok)
    return tok


class Bomb:
    def __reduce__(self):
        return fire, ('boom',)


def equal(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return a == b or math.isnan(a) and math.isnan(b)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return len(a) == len(b) and all(k in b and equal(v, b[k]) for k, v in a.items())
    return a == b


def build(v, depth=0):
    """value of a plan value"""
    if not isinstance(v, list) or not v or depth > 6:
        raise PlanError('value')
    k = v[0]
    try:
        if k == 'str' and isinstance(v[1], str):
            return v[1]
        if k == 'int':
            return int(v[1])
        if k == 'float':
            return float(v[1])
        if k == 'none':
            return None
        if k == 'bool':
            return bool(v[1])
        if k == 'bytes':
            return v[1].encode('latin1')
        if k == 'list':
            return [build(x, depth + 1) for x in v[1]]
        if k == 'tuple':
            return tuple(build(x, depth + 1) for x in v[1])
        if k == 'set':
            return {build(x, depth + 1) for x in v[1]}
        if k == 'dict':
            return {build(a, depth + 1): build(b, depth + 1) for a, b in v[1]}
        if k == 'point':
            return Point(build(v[1], depth + 1), build(v[2], depth + 1))
    except (TypeError, ValueError, IndexError, AttributeError):
        pass
    raise PlanError('value')


# ------------------------------------------------------------------ generators
def gen_text(rng):
    k = rng.randrange(9)
    if k == 0:
        return rng.choice(['', '0', ' ', '""', '"', '!', '!a?b', '\\', '\\303', '=', ';', ',', '%C3%A9', '"a"', '\t', 'None', 'a=b; c=d', 'deleted', "'"])
    if k == 1:
        return ''.join(rng.choice('abcxyz019') for _ in range(rng.choice([1, 3, 8, 40])))
    if k == 2:
        return ''.join(rng.choice('ab ;,="\\\'%&?!/<>[]{}()@:\t') for _ in range(rng.randint(1, 12)))
    if k == 3:
        return ''.join(rng.choice('a\u00e9\u00ff\u0080\u00a0\u00ad') for _ in range(rng.randint(1, 6)))
    if k == 4:
        return ''.join(rng.choice('a\u0451\u4e2d\U0001f36a\u2028\u0101\ufeff\u00e9;') for _ in range(rng.randint(1, 6)))
    if k == 5:
        return ''.join(chr(rng.choice([0, 1, 10, 13, 31, 127, 133, 32, 97, 92, 34])) for _ in range(rng.randint(1, 6)))
    if k == 6:
        return ''.join(chr(rng.randrange(256)) for _ in range(rng.randint(1, 30)))
    if k == 7:
        return rng.choice(['\\' + '%03o' % rng.randrange(256), '\\"', '"\\', 'a\\073b', '\u00c3\u00a9', '\\\\', '"' * 3]) + rng.choice(['', 'x', '"'])
    return rng.choice(['a', '\u00e9', '\\']) * rng.choice([100, 1000, 2048, 4095, 4096, 4097])


def gen_value(rng, depth=0):
    k = rng.randrange(14 if depth < 3 else 7)
    if k <= 1:
        return ['str', gen_text(rng)[:200]]
    if k == 2:
        return ['int', rng.choice([0, 1, -1, 2 ** 31, 2 ** 64 + 1, rng.randrange(10 ** 9)])]
    if k == 3:
        return ['float', repr(rng.choice([0.0, -0.0, 1.5, 1e300, float('inf'), float('nan')]))]
    if k == 4:
        return ['none']
    if k == 5:
        return ['bool', rng.randint(0, 1)]
    if k == 6:
        return ['bytes', ''.join(chr(rng.randrange(256)) for _ in range(rng.randint(0, 8)))]
    if k in (7, 8):
        return ['list', [gen_value(rng, depth + 1) for _ in range(rng.randint(0, 3))]]
    if k == 9:
        return ['tuple', [gen_value(rng, depth + 1) for _ in range(rng.randint(0, 3))]]
    if k == 10:
        return ['set', [['int', rng.randrange(5)] for _ in range(rng.randint(0, 3))]]
    if k in (11, 12):
        return ['dict', [[['str', rng.choice(['a', 'b', 'user', '\u00e9', ''])], gen_value(rng, depth + 1)] for _ in range(rng.randint(0, 3))]]
    return ['point', gen_value(rng, depth + 1), gen_value(rng, depth + 1)]


def gen_name(rng):
    k = rng.randrange(8)
    if k < 5:
        return rng.choice(['a', 'b', 'sid', 'user', 'A', 'a1', 'session_id', 'x-y'])
    if k == 5:
        return rng.choice(['$a', '$Version', '__Host-id', 'a.b', 'x:y', "it's", '*', '|', '~', '!', '$', 'a$b', '1', 'None', 'paths', 'n' * 60, '#', '%41'])
    if k == 6:
        return ''.join(rng.choice(TOKEN) for _ in range(rng.randint(1, 5)))
    return rng.choice(['path', 'Expires', 'secure', 'HttpOnly', 'max-age', 'version', 'a b', 'a;b', 'a=b', '\u00e9', '', 'a,b', 'a/b', 'a"b', 'samesite'])


OPTS = [{}, {}, {}, {'path': '/'}, {'httponly': True}, {'secure': True}, {'max_age': 3600}, {'path': '/a b', 'domain': 'sim.test'}, {'samesite': 'Lax'}, {'expires': 4102444800}, {'path': '/\u00e9'},
        {'comment': 'a; b'}]
FOREIGN = [['before', 'x=1'], ['after', 'x=1'], ['before', 'prefs={"a": 1, "b": "x y"}'], ['before', '$Version=1'], ['before', 'path=/x'], ['after', '$Path=/'], ['before', 'flag'], ['before', 'a[b]=1'],
           ['before', 'l=\xe9'], ['before', ' '], ['before', 'q="open'], ['after', 'q="open'], ['before', 'e=Wed, 01 Jan 2020 00:00:00 GMT'], ['before', 'c=1,2'], ['before', '=v'], ['after', 'secure'],
           ['before', 'g=\xc3\xa9'], ['before', 'z=!a?b'], ['before', 'm=a=b=c'], ['after', '']]


def gen_cookie(rng, names):
    n = rng.choice(names) if names and rng.random() < 0.3 else gen_name(rng)
    names.append(n)
    if rng.random() < 0.5:
        return [n, None, ['str', gen_text(rng)], rng.randrange(len(OPTS))]
    return [n, rng.randrange(len(SECRETS)), gen_value(rng), rng.randrange(len(OPTS))]


def gen_mut(rng):
    k = rng.choice(['sub', 'sub', 'sub', 'rawsub', 'del', 'ins', 'trunc', 'head', 'swapsig', 'swappay', 'sigedit', 'hostile', 'secret', 'digest', 'rename'])
    pos = rng.random()
    c = rng.choice('AZaz09+/=!?"\\; -_\x00\xe9\u00c1') if rng.random() < 0.7 else chr(rng.randrange(256))
    if k in ('sub', 'rawsub', 'ins'):
        return [k, pos, c]
    if k in ('del', 'trunc', 'head'):
        return [k, pos, rng.choice([1, 1, 2, 4, 8])]
    if k == 'sigedit':
        return [k, rng.choice(['empty', 'pad', 'unpad', 'space', 'urlsafe', 'case', 'double', 'prefix', 'utf8', 'nul', 'nomark', 'one', 'hex', 'qmark', 'zero'])]
    if k == 'hostile':
        return [k, rng.choice(['keep', 'empty', 'md5', 'nosecret', 'own', 'bare', 'twoq', 'append', 'prepend'])]
    if k == 'secret':
        return [k, rng.choice([rng.randrange(len(SECRETS))] + NEAR * 2), rng.choice(['same', 'bomb'])]
    if k == 'digest':
        return [k, rng.choice(['sha1', 'sha256', 'md5plain', 'raw'])]
    return [k, rng.randrange(13)]


def gen_steps(rng, two):
    steps, names = [], []
    for i in range(rng.choice([1, 2, 3, 4, 6])):
        cs = [gen_cookie(rng, names) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        steps.append(['set', rng.choice(HOWS), cs])
        if rng.random() < 0.1:
            steps.append(['delete', rng.choice(names)])
        if rng.random() < 0.7:
            steps.append(['read', [rng.randrange(len(FOREIGN)) for _ in range(rng.choice([0, 0, 0, 1, 1, 2]))], rng.choice(['; ', '; ', ';', ' ; ']), rng.randint(0, 3)])
        if not two and rng.random() < 0.04:
            steps.append(['sweep', rng.randrange(8), rng.choice(['sub', 'del', 'ins', 'trunc', 'head']), rng.choice('AZaz09+/=!?"\\; _\xe9\u00c1')])
        for _ in range(rng.choice([0, 1, 2, 4])):
            steps.append(['forge', rng.randrange(8), gen_mut(rng), rng.choice(['alone', 'alone', 'alone', 'first', 'last'])])
    return steps


def gen(rng, tier):
    two = rng.random() < 0.05
    return dict(clients=[gen_steps(rng, two) for _ in range(2 if two else 1)], mode=sched.gen_mode(rng, 2) if two else None, gran='ins' if two and rng.random() < 0.3 else 'line')


def valid(p):
    if not p['clients'] or len(p['clients']) > 2 or bool(p['mode']) != (len(p['clients']) == 2) or p['gran'] not in ('line', 'ins'):
        return False
    for steps in p['clients']:
        for s in steps:
            if s[0] == 'set':
                if s[1] not in HOWS or not s[2]:
                    return False
                for n, sec, v, o in s[2]:
                    if not isinstance(n, str) or not 0 <= o < len(OPTS) or sec is not None and not 0 <= sec < len(SECRETS):
                        return False
                    if sec is None and (v[0] != 'str' or not isinstance(v[1], str)):
                        return False
                    build(v)
            elif s[0] == 'delete':
                if not isinstance(s[1], str):
                    return False
            elif s[0] == 'read':
                if not all(0 <= f < len(FOREIGN) for f in s[1]) or s[2] not in ('; ', ';', ' ; '):
                    return False
            elif s[0] == 'sweep':
                if p['mode'] or s[2] not in ('sub', 'del', 'ins', 'trunc', 'head') or not isinstance(s[3], str) or len(s[3]) != 1 or ord(s[3]) > 255:
                    return False
            elif s[0] == 'forge':
                m = s[2]
                if m[0] == 'secret' and m[1] not in NEAR and not (type(m[1]) is int and 0 <= m[1] < len(SECRETS)):
                    return False
                if m and m[0] == 'rename' and not (len(m) == 2 and type(m[1]) is int and 0 <= m[1] < 13):
                    return False
                if s[3] not in ('alone', 'first', 'last') or not m or m[0] in ('sub', 'rawsub', 'ins') and (not isinstance(m[2], str) or len(m[2]) != 1 or ord(m[2]) > 255):
                    return False
            else:
                return False
    return True


def secret_of(i):
    s = SECRETS[i]
    return s[6:].encode('latin1') if s.startswith('bytes:') else s


def sbytes(s):
    return s if isinstance(s, bytes) else s.encode('utf8')


def unquote(raw):
    """the text a quoted cookie value stands for"""
    if len(raw) < 2 or raw[0] != '"' or raw[-1] != '"':
        return raw
    return re.sub(r'\\(?:([0-3][0-7][0-7])|(.))', lambda m: chr(int(m.group(1), 8)) if m.group(1) else m.group(2), raw[1:-1], flags=re.S)


def quote(text):
    if re.fullmatch(r"[\w!#$%&'*+\-.^`|~:]+", text, re.A):
        return text
    return '"%s"' % ''.join('\\' + c if c in '"\\' else c if 32 <= ord(c) < 127 and c not in ',;' else '\\%03o' % ord(c) for c in text)


class Unpickles:
    """records everything handed to an unpickler"""

    def __enter__(self):
        self.calls = []
        self.saved = [(m, n, getattr(m, n)) for m in (pickle, _pickle) for n in ('loads', 'load', 'Unpickler') if hasattr(m, n)]
        loads, unp = _pickle.loads, _pickle.Unpickler

        def rec(data):
            self.calls.append((threading.get_ident(), bytes(data)))

        def my_loads(data, *a, **k):
            rec(data)
            return loads(data, *a, **k)

        def my_unp(f, *a, **k):
            data = f.read()
            rec(data)
            return unp(io.BytesIO(data), *a, **k)

        def my_load(f, *a, **k):
            return my_unp(f, *a, **k).load()
        for m, n, _ in self.saved:
            setattr(m, n, {'loads': my_loads, 'load': my_load, 'Unpickler': my_unp}[n])
        return self

    def __exit__(self, *a):
        for m, n, v in self.saved:
            setattr(m, n, v)

    def take(self):
        me = threading.get_ident()
        out = [d for t, d in self.calls if t == me]
        self.calls = [(t, d) for t, d in self.calls if t != me]
        return out


MISSING = '<missing>'


class World:
    def __init__(self, ombott, r, un):
        self.ombott = ombott
        self.app = ombott.default_app()
        self.r = r
        self.un = un
        self.todo = {}
        app = self.app

        @app.on('before_request')
        def before():
            f = self.todo.get(threading.get_ident(), (None, None, None))[0]
            if f:
                f()

        @app.on('after_request')
        def after():
            f = self.todo.get(threading.get_ident(), (None, None, None))[2]
            if f:
                f()

        @app.error(451)
        def on_error(res):
            self.todo[threading.get_ident()][3]()
            return 'sorry'

        @app.route('/', method=['GET', 'POST'])
        def handler():
            return self.todo[threading.get_ident()][1]()

    def exchange(self, do, cookie=None, before=None, after=None, error=None):
        self.todo[threading.get_ident()] = (before, do, after, error)
        env = wsgi.make_environ('GET', '/')
        if cookie is not None:
            env['HTTP_COOKIE'] = cookie
        ex = wsgi.call(self.app, env)
        self.todo[threading.get_ident()] = (None,) * 4
        self.r.simtime += 1
        if ex.escaped:
            self.r.fail('escape', ex.brief())
        return ex


class Client:
    def __init__(self, w):
        self.w = w
        self.r = w.r
        self.jar = {}        # name -> raw value text
        self.truth = {}      # name -> (value, secret or None, how, kind)
        self.old = []        # signed cookies seen: (name, text, secret, payload bytes, kind)

    # ---- application side
    def set_in(self, res, cookies, out):
        for n, sec, v, o in cookies:
            val = build(v)
            try:
                res.set_cookie(n, val, **dict({'secret': secret_of(sec)} if sec is not None else {}, **OPTS[o]))
            except Exception as e:
                out.append((n, sec, v, e))
            else:
                out.append((n, sec, v, None))

    def do_set(self, how, cookies):
        r, app, om = self.r, self.w.app, self.w.ombott
        out = []

        def do():
            if how == 'errhandler':
                om.abort(451, 'x')
            if how in ('returned', 'raised', 'error'):
                res = om.HTTPError(418, 'x') if how == 'error' else om.HTTPResponse('x')
                self.set_in(res, cookies, out)
                if how == 'returned':
                    return res
                raise res
            if how == 'twice':
                for n, sec, v, o in cookies:
                    try:
                        app.response.set_cookie(n, 'stale')
                    except Exception:
                        pass
            if how not in ('hook', 'after'):
                self.set_in(app.response, cookies, out)
            if how == 'redirect':
                om.redirect('/x')
            if how == 'copy':
                raise app.response.copy(cls=om.HTTPResponse)
            if how == 'generator':
                return iter(['a', 'b'])
            if how == 'status':
                app.response.status = (204, 304, 201)[len(cookies) % 3]
            return 'x'

        def late():
            self.set_in(app.response, cookies, out)
        ex = self.w.exchange(do, before=late if how == 'hook' else None, after=late if how == 'after' else None, error=late)
        if not out:
            r.fail('crash', 'cookies %s set by %s: %s\n%s' % (cookies, how, ex.brief(), ex.errlog[-600:]))
        want = {}
        for n, sec, v, e in out:
            if e is None:
                want[n] = (sec, v)
                continue
            r.probe('set refused')
            text = v[1] if sec is None else ''
            plain = re.fullmatch(r"[A-Za-z0-9_\-]+", n) and n.lower() not in ('path', 'expires', 'secure', 'httponly', 'max-age', 'version', 'samesite', 'domain', 'comment', 'partitioned')
            plain = plain and not re.search('[\x00-\x1f\x7f]', text)
            if plain and not any('\ud800' <= c <= '\udfff' for c in text) and len(text) <= 1000:
                r.fail('refused', 'set_cookie(%r, %r, secret=%r): %r' % (n, build(v), sec, e))
        got = {}
        for line in ex.header_all('Set-Cookie'):
            head, _, attrs = line.partition(';')
            n, eq, raw = head.partition('=')
            n, raw = n.strip(' \t'), raw.strip(' \t')
            if n in got and got[n] != raw:
                r.fail('doubled', 'cookies %s set by %s: two Set-Cookie of %r' % (cookies, how, n))
            got[n] = raw
            if re.search(r'(?i);\s*max-age=(-|0*;|0*$)', ';' + attrs):
                self.jar.pop(n, None)
            else:
                self.jar[n] = raw
        if how == 'twice':
            for n in set(got) - set(want):       # the second one was refused
                self.truth.pop(n, None)
            got = {n: x for n, x in got.items() if n in want}
        for n, (sec, v) in want.items():
            if n not in got:
                r.fail('not-sent', 'cookie %r = %r (secret %r) set by %s: not among Set-Cookie %s' % (n, build(v), sec, how, ex.header_all('Set-Cookie')))
            r.probe('overwritten cookie', n in self.truth)
            self.truth[n] = (v, sec, how)
            if sec is not None:
                text = unquote(got[n])
                m = re.fullmatch(r'!([^?]*)\?(.*)', text, re.S)
                try:
                    self.old.append((n, text, sec, base64.b64decode(m.group(2)), v[0], got[n]))
                except Exception:
                    self.old.append((n, text, sec, None, v[0], got[n]))
        for n in got:
            if n not in want and how != 'twice':
                r.fail('not-set', 'cookies %s set by %s: Set-Cookie %s' % (cookies, how, ex.header_all('Set-Cookie')))
        r.probe('several cookies at once', len(want) > 1)

    def do_delete(self, name):
        app = self.w.app
        ok = []

        def do():
            try:
                app.response.delete_cookie(name)
                ok.append(1)
            except Exception:
                pass
            return 'x'
        ex = self.w.exchange(do)
        if not ok:
            return
        for line in ex.header_all('Set-Cookie'):
            n, _, raw = line.partition(';')[0].partition('=')
            if n.strip() == name and re.search(r'(?i)max-age=-', line):
                self.jar.pop(name, None)
                self.truth.pop(name, None)
                return
        self.r.fail('not-deleted', 'delete_cookie(%r): %s' % (name, ex.header_all('Set-Cookie')))

    def get(self, wants, header):
        """-> [value or MISSING], calls of the unpickler"""
        app = self.w.app
        out = []
        self.w.un.take()

        def do():
            for n, sec in wants:
                out.append(app.request.get_cookie(n, MISSING, **({'secret': secret_of(sec)} if sec is not None else {})))
            return 'x'
        ex = self.w.exchange(do, cookie=header)
        return out, self.w.un.take(), ex

    def do_read(self, foreign, sep, order):
        r = self.r
        names = list(self.truth)
        parts = ['%s=%s' % (n, self.jar[n]) for n in self.jar]
        if order % 2:
            parts.reverse()
        mine = {n for n in self.jar}
        for f in foreign:
            where, text = FOREIGN[f]
            if text.partition('=')[0].strip() in mine:
                continue
            parts.insert(0 if where == 'before' else len(parts), text)
            r.probe('foreign cookies around')
        gone = [n for n in ('gone', 'A2') if n not in self.jar]
        wants = [(n, self.truth[n][1]) for n in names] + [(n, s) for n in gone for s in (None, 0)]
        header = sep.join(parts)
        got, calls, ex = self.get(wants, header if parts or order > 1 else None)
        if len(got) != len(wants):
            r.fail('crash', 'Cookie: %r, reading %s: %s\n%s' % (header, wants, ex.brief(), ex.errlog[-600:]))
        for (n, sec), g in zip(wants, got):
            if n not in self.truth:
                if g != MISSING:
                    r.fail('phantom', 'Cookie: %r: %r reads as %r' % (header, n, g))
                continue
            v, _, how = self.truth[n]
            val = build(v)
            if type(g) is not type(val) or not equal(g, val):
                r.fail('round-trip', 'cookie %r = %r (secret %r) set by %s, returned as Cookie: %r, reads as %r' % (n, val, None if sec is None else secret_of(sec), how, header, g))
            r.nontrivial = True
            r.probe('plain read back' if sec is None else 'signed read back')
            r.probe('bytes secret', sec is not None and isinstance(secret_of(sec), bytes))
            r.probe('signed falsy value', sec is not None and not val)
            kind = v[0]
            if sec is None:
                kind = 'empty' if not val else 'wide' if any(ord(c) > 255 for c in val) else 'latin' if any(ord(c) > 127 for c in val) else 'separators' if re.search('[;," =\\\\]', val) else 'control' if re.search('[\x00-\x1f\x7f]', val) else 'ascii'
                r.probe('empty text', kind == 'empty')
                r.probe('non-ASCII text', kind in ('wide', 'latin'))
                r.probe('text with separators', kind == 'separators')
            odd = not re.fullmatch(r'[A-Za-z0-9_\-]+', n)
            r.probe('odd name', odd)
            r.states.append((how, kind, odd, len(foreign)))
        if any(self.truth[n][1] is not None for n in names):
            n = next(n for n in names if self.truth[n][1] is not None)
            got, calls, ex = self.get([(n, None)], header)
            r.probe('read without secret')
            if calls:
                r.fail('deserialised', 'cookie %r read without a secret was unpickled' % n)

    def forged(self, old, m):
        """-> (name asked, text or raw header value, raw?, secret) or None"""
        n, text, sec, payload, kind, raw = old
        key = sbytes(secret_of(sec))
        k = m[0]
        sig, _, pay = text[1:].partition('?')
        at = m[1] if k in ('sub', 'del', 'ins', 'trunc', 'head') and type(m[1]) is int else int(m[1] * len(text)) if k in ('sub', 'del', 'ins', 'trunc', 'head') and isinstance(m[1], float) else 0

        def hm(msg, key=key, alg=hashlib.md5):
            return base64.b64encode(hmac.new(key, msg, alg).digest()).decode()
        bomb = base64.b64encode(pickle.dumps((n, Bomb()), -1)).decode()
        if k == 'sub':
            return n, text[:at] + m[2] + text[at + 1:], False, sec
        if k == 'rawsub':
            at = int(m[1] * len(raw))
            return n, raw[:at] + m[2] + raw[at + 1:], True, sec
        if k == 'del':
            return n, text[:at] + text[at + m[2]:], False, sec
        if k == 'ins':
            return n, text[:at] + m[2] + text[at:], False, sec
        if k == 'trunc':
            return n, text[:at] if type(m[1]) is int or m[1] < 0.5 else text[:-m[2]], False, sec
        if k == 'head':
            return n, text[at:] if type(m[1]) is int or m[1] < 0.5 else text[m[2]:], False, sec
        if k in ('swapsig', 'swappay'):
            for o in self.old:
                osig, _, opay = o[1][1:].partition('?')
                if opay != pay and k == 'swapsig':
                    return n, '!%s?%s' % (osig, pay), False, sec
                if osig != sig and k == 'swappay':
                    return n, '!%s?%s' % (sig, opay), False, sec
            return None
        if k == 'sigedit':
            e = m[1]
            s2 = {'empty': '', 'pad': sig + '=', 'unpad': sig.rstrip('='), 'space': ' ' + sig, 'urlsafe': sig.replace('+', '-').replace('/', '_'), 'case': sig.swapcase(), 'double': sig + sig,
                  'prefix': sig[:len(sig) // 2], 'utf8': sig + '\xe9', 'nul': sig + '\x00', 'one': sig[:1], 'hex': base64.b64decode(sig + '==').hex() if re.fullmatch('[A-Za-z0-9+/]+=*', sig) else 'x', 'zero': 'A' * 22 + '==',
                  'qmark': sig, 'nomark': sig}.get(e)
            if e == 'nomark':
                return n, '%s?%s' % (sig, pay), False, sec
            if e == 'qmark':
                return n, '!%s??%s' % (sig, pay), False, sec
            return n, '!%s?%s' % (s2, pay), False, sec
        if k == 'hostile':
            e = m[1]
            t = {'keep': '!%s?%s' % (sig, bomb), 'empty': '!?' + bomb, 'md5': '!%s?%s' % (base64.b64encode(hashlib.md5(bomb.encode()).digest()).decode(), bomb),
                 'nosecret': '!%s?%s' % (hm(bomb.encode(), b''), bomb), 'own': '!%s?%s' % (hm(bomb.encode(), b'attacker'), bomb), 'bare': bomb,
                 'twoq': '!%s?%s?%s' % (sig, pay, bomb), 'append': '!%s?%s%s' % (sig, pay, bomb), 'prepend': '!%s?%s%s' % (sig, bomb, pay)}.get(e)
            return (n, t, False, sec) if t else None
        if k == 'secret':
            other = near(key, m[1]) if isinstance(m[1], str) else sbytes(secret_of(m[1]))
            if same_key(other, key):
                return None
            msg = pay if m[2] == 'same' else bomb
            return n, '!%s?%s' % (hm(msg.encode('latin1'), other), msg), False, sec
        if k == 'digest':
            msg = pay.encode('latin1')
            d = {'sha1': hm(msg, alg=hashlib.sha1), 'sha256': hm(msg, alg=hashlib.sha256), 'md5plain': base64.b64encode(hashlib.md5(msg).digest()).decode(),
                 'raw': hmac.new(key, msg, hashlib.md5).digest().decode('latin1')}.get(m[1])
            return (n, '!%s?%s' % (d, pay), False, sec) if d is not None else None
        if k == 'rename':
            alt = ['other' if n != 'other' else 'another', n + 'x', n + '.', n[:-1], n[1:], n.swapcase(), n.upper(), n.lower(), 'x' + n, n * 2, '_' + n, n.replace('-', '_'), n[::-1]][m[1] if len(m) > 1 else 0]
            return (alt, text, False, sec) if alt and alt != n else None
        raise PlanError(k)

    def do_forge(self, i, m, where):
        r = self.r
        if not self.old:
            return
        old = self.old[i % len(self.old)]
        f = self.forged(old, m)
        if f is None:
            return
        name, text, is_raw, sec = f
        raw = text if is_raw else quote(text)
        if is_raw and (';' in raw or re.search('[\x00-\x1f\x7f]', raw)):
            return                   # another cookie, not another value
        effective = unquote(raw)
        genuine = [o for o in self.old if o[2] == sec and o[1] == effective and o[0] == name]
        if genuine:
            return                   # nothing was altered
        if m[0] != 'rename' and any(o[2] == sec and o[1] == effective for o in self.old):
            return
        parts = ['%s=%s' % (name, raw)]
        both = name in self.jar and where != 'alone' and self.truth.get(name, (0, None))[1] == sec
        if both:
            parts.insert(1 if where == 'first' else 0, '%s=%s' % (name, self.jar[name]))
        header = '; '.join(parts)
        del FIRED[:]
        got, calls, ex = self.get([(name, sec)], header)
        what = 'cookie %r, secret %r, genuine text %r, altered (%s) to %r, Cookie: %r' % (old[0], secret_of(sec), old[1], m, effective, header)
        if len(got) != 1:
            r.fail('crash', '%s: %s\n%s' % (what, ex.brief(), ex.errlog[-600:]))
        allowed = [old[3]] if m[0] == 'rename' else []
        ok = got[0] == MISSING
        if both:
            r.probe('forged beside the genuine one')
            v = build(self.truth[name][0])
            allowed += [o[3] for o in self.old if o[0] == name and o[2] == sec]
            ok = ok or equal(got[0], v)
        if FIRED or any(c not in allowed for c in calls):
            r.fail('deserialised', '%s: unpickled %r' % (what, [c for c in calls if c not in allowed] or FIRED))
        if not ok:
            r.fail('accepted', '%s: reads as %r' % (what, got[0]))
        r.probe('forged: ' + m[0])
        r.nontrivial = True
        r.states.append((m[0], m[1] if m[0] in ('sigedit', 'hostile', 'digest') else None, old[4], where if both else 'alone'))
        r.fault('cookie altered in transit')

    def play(self, steps):
        for s in steps:
            if s[0] == 'set':
                self.do_set(s[1], s[2])
            elif s[0] == 'delete':
                self.do_delete(s[1])
                self.r.probe('deleted cookie absent')
            elif s[0] == 'read':
                self.do_read(*s[1:])
            elif s[0] == 'sweep' and self.old:
                text = self.old[s[1] % len(self.old)][1]
                for at in range(len(text) + (s[2] == 'ins')):
                    self.do_forge(s[1], [s[2], at, s[3] if s[2] in ('sub', 'ins') else 1], 'alone')
                self.r.probe('every position altered')
            elif s[0] == 'forge':
                self.do_forge(*s[1:])


def run(p, r):
    if not valid(p):
        raise PlanError('shape')
    with Unpickles() as un:
        w = World(world.fresh(), r, un)
        cs = [Client(w) for _ in p['clients']]
        if len(cs) == 1:
            cs[0].play(p['clients'][0])
        else:
            with sched.locks():
                s = sched.Sched([lambda c=c, st=st: c.play(st) for c, st in zip(cs, p['clients'])], sched.resolve(p['mode'], [6000, 6000]), p['gran'], budget=3000000).run()
            for e in s.errors:
                if e:
                    raise e
            r.simtime += s.total
            r.fault('preemption', len(s.switches))
            r.probe('two threads')
    r.note([sorted(c.truth) for c in cs], [sorted(c.jar.items()) for c in cs])
