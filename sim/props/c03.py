"""C03: every request gets exactly one well-formed WSGI response."""
import itertools

from .. import world, wsgi, draw
from ..core import Violation
from ..stream import PlanError

PROP = 'C03'
RUNS = {'quick': 30000, 'thorough': 600000}
TIME_UNIT = 'server-visible events: application calls, body chunks, reads of file bodies, hook and handler calls'
STATES = '(method, kind of outcome, nesting, failing hook, status class, body kind delivered)'
RULE = ('A simulated PEP 3333 server drives 1-4 requests through one application whose handlers, hooks and error handlers are generated programs: '
        'every return type, raised / returned / yielded / nested responses, iterables and file-likes of several make, failures at every point before '
        'the first chunk and later, clients that leave after n chunks, hooks added and removed between requests. A reference model evaluates the '
        'same program to the status and body that must come out. Non-trivial: something other than a plain string was returned, or something failed.')
REAL = ['ombott (whole package)']
STUB = ['WSGI server and client', 'handler programs, iterables and file-likes', 'wsgi.file_wrapper', 'error log']
PROBES = ['op refused', 'header checked late', 'HEAD', '1xx', '204/304', 'critical page', 'handler exception', 'exception at first next', 'exception later', 'before hook failed', 'after hook failed',
          'route hook failed', 'file_wrapper', 'own file wrapper', 'yielded response', 'error loop', '404', '405', 'custom error handler', 'error handler failed',
          'client left early', 'nested response', 'leading empty items', 'hook removed', 'suppressed iterable closed', 'unencodable', 'path rewritten by a hook', 'redirect', 'unsendable header', 'close fails', 'unsupported item', 'bytes-like object', 'hook removes itself']
ASSUMPTIONS = ['status lines and header values given by the handler itself are legal',
               'exceptions that do not derive from Exception (KeyboardInterrupt, SystemExit, GeneratorExit) and MemoryError end the server on purpose',
               'after-hooks that follow a failing after-hook, and iterables that failed before their first output, are not judged']

METHODS = ['GET', 'POST', 'PUT', 'PATCH', 'DELETE', 'OPTIONS', 'HEAD']


# ------------------------------------------------------------------ the handler side
class Boom(Exception):
    pass


class BadRepr(Exception):
    def __repr__(self):
        raise ValueError('no repr')

    __str__ = __repr__


EXC = {
    'value': lambda: ValueError('boom <b>{x}</b>'),
    'key': lambda: KeyError('boom'),
    'own': lambda: Boom('boom', {'a': 1}),
    'stop': lambda: StopIteration('boom'),
    'attr': lambda: AttributeError('boom'),
    'type': lambda: TypeError('boom'),
    'unicode': lambda: ValueError('b\xf6\xf6m \u2603'),
    'surrogate': lambda: ValueError('boom \udcff'),
    'badrepr': lambda: BadRepr(),
    'os': lambda: OSError(28, 'No space left on device'),
    'assert': lambda: AssertionError(),
    'decode': lambda: UnicodeDecodeError('utf8', b'\xff', 0, 1, 'boom'),
    'runtime': lambda: RuntimeError('boom'),
    'recursion': lambda: RecursionError('boom'),
    'chained': lambda: chained(),
}


def chained():
    try:
        try:
            raise KeyError('first')
        except KeyError as e:
            raise ValueError('second') from e
    except ValueError as e:
        return e


class Track:
    """what happened to one iterable or file of the handler"""

    def __init__(self, kind, spec):
        self.kind, self.spec = kind, spec
        self.out = 0             # non-empty items handed out
        self.closes = 0
        self.closable = False
        self.after_close = 0     # items asked for after close
        self.failed = False
        self.ref = None
        self.used = False


class Iter:
    """iterator over plan items"""

    def __init__(self, t, items, fail):
        self.t, self.items, self.fail, self.i = t, items, fail, 0

    def __iter__(self):
        return self

    def __next__(self):
        self.t.used = True
        if self.t.closes:
            self.t.after_close += 1
        if self.fail and self.i >= self.fail[0]:
            self.fail, f = None, self.fail
            self.t.failed = f[1] != 'stop'
            self.items = []
            raise EXC[f[1]]()
        if self.i >= len(self.items):
            raise StopIteration
        x = self.items[self.i]
        self.i += 1
        if x or not isinstance(x, (str, bytes)):
            self.t.out += 1
        return x() if callable(x) else x


def closed(t):
    t.closes += 1
    if t.spec.get('cf'):
        raise EXC[t.spec['cf']]()


class IterClose(Iter):
    def close(self):
        closed(self.t)


class Able:
    """iterable whose iterator is another object; close is on the iterable"""

    def __init__(self, t, it):
        self.t, self.it = t, it

    def __iter__(self):
        return self.it

    def close(self):
        closed(self.t)


class AbleNo:
    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return self.it


class File:
    """file-like: read only"""

    def __init__(self, t, data, short, fail):
        self.t, self.data, self.short, self.fail, self.n = t, data, short, fail, 0

    def read(self, n=-1):
        self.t.used = True
        if self.t.closes:
            self.t.after_close += 1
        self.n += 1
        if self.fail and self.n > self.fail[0]:
            self.t.failed = True
            raise EXC[self.fail[1]]()
        if n is None or n < 0:
            n = len(self.data)
        if self.short:
            n = min(n, self.short)
        d, self.data = self.data[:n], self.data[n:]
        if d:
            self.t.out += 1
        return d


class FileClose(File):
    def close(self):
        closed(self.t)


class FileIter(FileClose):
    def __iter__(self):
        return iter(lambda: self.read(4000), b'')


class FileIterNoClose(File):
    def __iter__(self):
        return iter(lambda: self.read(4000), b'')


CF = ('it', 'able', 'ablegen', 'close', 'iter')     # makes whose close() may fail
FILES = {'read': File, 'close': FileClose, 'iter': FileIter, 'iternoclose': FileIterNoClose}


class Wrapper:
    """wsgi.file_wrapper of the simulated server"""

    def __init__(self, f, block=7):
        self.f, self.block = f, block
        if hasattr(f, 'close'):
            self.close = f.close

    def __iter__(self):
        while True:
            d = self.f.read(self.block)
            if not d:
                return
            yield d


class Sim:
    def __init__(self, p, r):
        self.p, self.r = p, r
        self.o = world.fresh()
        cfg = {}
        if p.get('debug'):
            cfg['debug'] = True
        if p.get('default'):
            self.app = self.o.default_app()
            self.app.setup(cfg)
        else:
            self.app = self.o.Ombott(cfg)
        self.tracks = []
        self.trace = []
        self.accepted = False
        self.req = None
        self.hooks = {'before': [], 'after': []}   # [(id, function, program)] in registration order
        self.serial = 0
        app = self.app
        for m in METHODS:
            if m == 'HEAD' and not p.get('headroute'):
                continue
            app.route('/r', m, self.route('r'))
        app.route('/a/<x>/<n:int>', ['GET', 'POST'], self.route('a'))
        app.route('/any', 'ANY', self.route('any'))
        app.route('/post', 'POST', self.route('post'))
        for ph in ('before', 'after'):
            for prog in p.get(ph) or []:
                self.add_hook(ph, prog)
        if p.get('rhook'):
            app.on_route('/r', self.rhook(p['rhook']))
        if p.get('part'):
            app.error(404, '/part')(self.part(p['part']))
        for code, prog in p.get('errh') or []:
            app.error(code)(self.errh(prog))

    def route(self, name):
        def handler(**kw):
            self.trace.append(['h', name])
            return self.perform(self.req['h'])
        return handler

    def part(self, prog):
        def part(prefix, params=None):
            self.trace.append(['h', 'part'])
            return self.perform(prog)
        return part

    def rhook(self, prog):
        def rhook(prefix):
            self.trace.append(['rh'])
            self.perform_hook(prog)
            return RETS[prog.get('ret') or 0]
        return rhook

    def errh(self, prog):
        def errh(err):
            self.trace.append(['eh', err.status_code])
            return self.perform(prog)
        return errh

    def add_hook(self, ph, prog):
        hid = self.serial
        self.serial += 1

        def hook():
            self.trace.append([ph[0], hid])
            if prog.get('once'):
                # a hook that removes itself when it is called
                self.hooks[ph][:] = [h for h in self.hooks[ph] if h[0] != hid]
                self.app.remove_hook(ph + '_request', hook)
                self.r.probe('hook removes itself')
            self.perform_hook(prog)
            return RETS[prog.get('ret') or 0]   # what a hook returns is nobody's business
        self.hooks[ph].append((hid, hook, prog))
        (self.app.on if hid % 4 == 1 else self.app.add_hook)(ph + '_request', hook)

    def rm_hook(self, ph, k):
        if not self.hooks[ph]:
            return
        hid, f, prog = self.hooks[ph].pop(k % len(self.hooks[ph]))
        self.app.remove_hook(ph + '_request', f)
        self.r.probe('hook removed')

    def perform_hook(self, prog):
        self.ops(prog.get('ops') or [])
        f = prog.get('fail')
        if f:
            if f[0] == 'exc':
                raise EXC[f[1]]()
            if f[0] in ('resp', 'err'):
                raise self.resp(f)
            raise PlanError(f[0])

    def ops(self, ops):
        res = self.app.response
        for op in ops:
            k = op[0]
            if k == 'status':
                res.status = op[1]
            elif k == 'ct':
                res.content_type = op[1]
            elif k == 'hdr':
                res.headers[op[1]] = op[2]
            elif k == 'add':
                res.headers.append(op[1], op[2])
            elif k == 'bad':
                BADOPS[op[1]](res)
                self.accepted = True
            elif k == 'late':
                LATE[op[1]](res)
                self.r.probe('header checked late')
            elif k == 'cookie':
                res.set_cookie(op[1], op[2])
            elif k == 'path':
                self.app.request.environ['PATH_INFO'] = op[1]
            elif k == 'method':
                if self.app.request.environ['REQUEST_METHOD'].upper() != 'HEAD':
                    self.app.request.environ['REQUEST_METHOD'] = op[1]
            else:
                raise PlanError(k)

    def perform(self, prog):
        self.ops(prog.get('ops') or [])
        return 'accepted' if self.accepted else self.value(prog['ret'])

    def resp(self, x):
        """['resp'|'err', {status, hdrs, ct, cookies, body}]"""
        d = x[1]
        body = self.value(d['body']) if d.get('body') else ''
        if x[0] == 'resp':
            r = self.o.HTTPResponse(body, d.get('status') or 200)
        else:
            r = self.o.HTTPError(d.get('status') or 500, body)
        for k, v in d.get('hdrs') or []:
            r.headers.append(k, v)
        if d.get('ct'):
            r.content_type = d['ct']
        for k, v in d.get('cookies') or []:
            r.set_cookie(k, v)
        return r

    def value(self, x):
        k = x[0]
        if k == 'str':
            return x[1]
        if k == 'bytes':
            return x[1].encode('utf8')
        if k == 'empty':
            return {'none': None, 'str': '', 'bytes': b'', 'list': [], 'tuple': (), 'false': False}[x[1]]
        if k == 'exc':
            raise EXC[x[1]]()
        if k in ('resp', 'err'):
            return self.resp(x)
        if k == 'raise':
            raise self.resp(x[1])
        if k == 'abort':
            self.o.abort(x[1], x[2])
        if k == 'redirect':
            self.o.redirect(x[1])
        if k == 'iter':
            return self.iterable(x[1])
        if k == 'file':
            return self.file(x[1])
        if k == 'bad':
            return {'int': 5, 'object': object(), 'ints': [1, 2], 'nones': [None, 3], 'mixed': [b'', None, 4.5], 'barray': bytearray(b'abc'), 'mview': memoryview(b'abc'),
                    'barrays': [b'', bytearray(b'abc'), bytearray(b'd')], 'mviews': iter([memoryview(b'abc'), memoryview(b'd')])}[x[1]]
        raise PlanError(k)

    def items(self, d):
        enc = (lambda s: s.encode('utf8')) if d.get('bytes') else (lambda s: s)
        items = [enc(s) for s in d['items']]
        if d.get('first'):
            # a response object yielded first (after empty items)
            n = 0
            while n < len(items) and not items[n]:
                n += 1
            items.insert(n, lambda: self.resp(d['first']))
        elif d.get('odd'):
            # an item of an unsupported type first
            n = 0
            while n < len(items) and not items[n]:
                n += 1
            items.insert(n, lambda: 4.5)
        return items

    def iterable(self, d):
        t = Track('iter', d)
        self.tracks.append(t)
        items, fail, make = self.items(d), d.get('fail'), d['make']
        if make == 'list':
            t.ref = [x() if callable(x) else x for x in items]
            return t.ref
        if make == 'tuple':
            return tuple(x() if callable(x) else x for x in items)
        if make == 'gen':
            it = Iter(t, items, fail)
            t.closable = True

            def gen():
                try:
                    for x in it:
                        yield x
                finally:
                    closed(t)
            t.ref = gen()
        elif make == 'it':
            t.closable = True
            t.ref = IterClose(t, items, fail)
        elif make == 'noclose':
            t.ref = Iter(t, items, fail)
        elif make == 'able':
            t.closable = True
            t.ref = Able(t, Iter(t, items, fail))
        elif make == 'ableno':
            t.ref = AbleNo(Iter(t, items, fail))
        elif make == 'ablegen':
            t.closable = True
            it = Iter(t, items, fail)
            t.ref = Able(t, (x for x in it))
        elif make == 'map':
            t.ref = map(lambda x: x, Iter(t, items, fail))
        elif make == 'chain':
            t.ref = itertools.chain([], Iter(t, items, fail))
        else:
            raise PlanError(make)
        return t.ref

    def file(self, d):
        t = Track('file', d)
        self.tracks.append(t)
        t.ref = FILES[d['make']](t, filedata(d), d.get('short') or 0, d.get('fail'))
        t.closable = hasattr(t.ref, 'close')
        return t.ref


def filedata(d):
    n = d['size']
    return bytes((i * 7 + i // 251) % 256 for i in range(n)) if n < 5000 else (b'0123456789abcdef' * (n // 16 + 1))[:n]


# ------------------------------------------------------------------ the reference model
class Crit(Exception):
    """the last-resort page"""


class Want:
    def __init__(self):
        self.status = 200
        self.ct = None
        self.body = None         # bytes, or None: framework text
        self.final = None        # plan item that is the body
        self.later = False       # iteration may fail after the first chunk
        self.any_status = False
        self.probes = []
        self.firstread = False
        self.badhdr = set()      # headers whose value cannot be sent


def charset(ct):
    if ct and 'charset=' in ct:
        return ct.split('charset=')[-1].split(';')[0].strip()
    return 'utf-8'


def enc(text, ct):
    try:
        return text.encode(charset(ct))
    except (LookupError, UnicodeError):
        return None


def surrogate(text):
    return any('\ud800' <= c <= '\udfff' for c in text)


ERR500 = ['err', {'status': 500, 'body': None}]


class Model:
    def __init__(self, p, req):
        self.p, self.req = p, req
        self.w = Want()
        self.errh = {}
        for c, prog in p.get('errh') or []:
            self.errh[c] = prog

    def ops(self, ops):
        for op in ops or []:
            if op[0] == 'status':
                self.w.status = code_of(op[1])
            elif op[0] == 'ct':
                self.w.ct = op[1]
            elif op[0] == 'hdr':
                (self.w.badhdr.add if surrogate(op[2]) else self.w.badhdr.discard)(op[1])
            elif op[0] == 'late':
                self.w.badhdr.add('late')
            elif op[0] == 'bad':
                self.w.probes.append('op refused')
                return True

    def perform(self, prog):
        """-> value in plan form; exceptions become ERR500, raised responses themselves"""
        if self.ops(prog.get('ops')):
            return ['exc', 'value']
        return prog['ret']

    def apply(self, d, err):
        self.w.status = code_of(d.get('status') or (500 if err else 200))
        self.w.ct = d.get('ct')
        self.w.badhdr = {k for k, v in d.get('hdrs') or [] if surrogate(v)}

    def page(self):
        """default error page"""
        w = self.w
        w.final = None
        w.body = None
        if self.req.get('json'):
            w.ct = 'application/json'
            return
        if charset(w.ct).lower() not in ('utf-8',):
            w.any_status = True      # depends on the text of the page

    def err_body_trouble(self, d):
        """may the default page fail to render? (a JSON page of a body that is no text)"""
        b = d.get('body')
        return bool(b) and b[0] != 'str' and b != ['empty', 'none']

    def cast(self, v):
        w = self.w
        n = 0
        while True:
            n += 1
            if n > 900:
                w.any_status = True
                w.body = None
                w.probes.append('error loop')
                w.status = 500
                return
            k = v[0]
            if k == 'raise':
                # raised: same as returned, at top level
                v = v[1]
                continue
            if k == 'abort':
                v = ['err', {'status': v[1], 'body': ['str', v[2]]}]
                continue
            if k == 'redirect':
                w.status = 303
                w.body = b''
                w.probes.append('redirect')
                return
            if k == 'exc':
                w.probes.append('handler exception')
                v = ERR500
                continue
            if k in ('resp', 'err'):
                d = v[1]
                inner = raises(d.get('body'))
                if inner is not None:
                    # building the response failed inside the handler
                    v = inner
                    continue
                if k == 'resp':
                    self.apply(d, False)
                    v = d.get('body') or ['empty', 'str']
                    if v[0] in ('resp', 'err'):
                        w.probes.append('nested response')
                    continue
                self.apply(d, True)
                prog = self.errh.get(w.status)
                if prog:
                    w.probes.append('custom error handler')
                    if self.ops(prog.get('ops')):
                        w.probes.append('error handler failed')
                        raise Crit
                    v = prog['ret']
                    inner = raises(v)
                    if inner is not None:
                        # the error handler itself failed
                        w.probes.append('error handler failed')
                        raise Crit
                    continue
                if self.err_body_trouble(d):
                    w.any_status = True
                self.page()
                return
            if k == 'empty':
                w.body = b''
                return
            if k == 'str':
                if not v[1]:
                    w.body = b''
                    return
                w.body = enc(v[1], w.ct)
                if w.body is None:
                    w.probes.append('unencodable')
                    self.bad500()
                return
            if k == 'bytes':
                w.body = v[1].encode('utf8')
                return
            if k == 'bad' and x_bytes(v):
                # unsupported, or else sent as what it holds
                w.any_status = True
                w.body = w.final = None
                w.later = 500 in self.errh
                w.probes.append('bytes-like object')
                return
            if k == 'bad':
                v = ERR500
                continue
            if k == 'file':
                d = v[1]
                w.final = d
                w.body = filedata(d)
                if d.get('fail'):
                    w.later = True
                    if not d['fail'][0]:
                        w.any_status = True     # whether a file is looked at before the response starts is up to the framework
                return
            if k == 'iter':
                d = v[1]
                items, fail = d['items'], d.get('fail') if d['make'] not in ('list', 'tuple') else None
                lead = 0
                while lead < len(items) and not items[lead]:
                    lead += 1
                if lead:
                    w.probes.append('leading empty items')
                if fail and fail[0] <= lead:
                    if fail[1] == 'stop':
                        # StopIteration from __next__ is the end of the iteration
                        w.body = b''
                        return
                    w.probes.append('exception at first next')
                    v = ERR500
                    continue
                if d.get('first'):
                    w.probes.append('yielded response')
                    inner = raises(d['first'][1].get('body'))
                    if inner is not None:
                        raise PlanError('first')
                    v = d['first']
                    continue
                if d.get('odd'):
                    w.probes.append('unsupported item')
                    v = ERR500
                    continue
                if lead == len(items):
                    w.body = b''
                    return
                w.final = d
                out = []
                for i, s in enumerate(items):
                    if not s and i < lead:
                        continue
                    if fail and i >= fail[0]:
                        if fail[1] != 'stop':
                            w.probes.append('exception later')
                            w.later = True
                        break
                    b = s.encode('utf8') if d.get('bytes') else enc(s, w.ct)
                    if b is None:
                        w.probes.append('unencodable')
                        if i == lead:
                            self.bad500()
                            return
                        w.later = True
                        break
                    out.append(b)
                else:
                    if fail:
                        if fail[1] != 'stop':
                            w.probes.append('exception later')
                            w.later = True
                w.body = b''.join(out)
                if charset(w.ct) == 'utf-16' and not d.get('bytes'):
                    w.body = None       # one byte order mark per chunk or not
                return
            raise PlanError(k)

    def bad500(self):
        self.w.status = 500
        self.w.body = None
        self.w.final = None
        if 500 in self.errh:
            self.w.any_status = True    # a custom page or the last-resort one


BAD = ['int', 'object', 'ints', 'nones', 'mixed', 'barray', 'mview', 'barrays', 'mviews']


def x_bytes(v):
    return v[1] in BAD[5:]


def raises(v):
    """does evaluating this value raise inside the handler? -> what it raises, in plan form"""
    if not v:
        return None
    if v[0] == 'exc':
        return ERR500
    if v[0] == 'raise':
        return v[1]
    if v[0] == 'abort':
        return ['err', {'status': v[1], 'body': ['str', v[2]]}]
    if v[0] == 'redirect':
        return v
    if v[0] in ('resp', 'err'):
        return raises(v[1].get('body'))
    return None


def code_of(s):
    return s if isinstance(s, int) else int(s.split()[0])


def expect(p, req, hooks):
    """-> (Want, list of hook/handler events that must be seen, optional events)"""
    m = Model(p, req)
    w = m.w
    ev = []
    opt = []
    path, method = PATHS[req['path']], req['method']
    if req['path'] == 'x':
        path = '/' + req['raw']
    v = None
    for hid, _, prog in hooks['before']:
        ev.append(['b', hid])
        for op in prog.get('ops') or []:
            if op[0] == 'path':
                path = op[1]
                w.probes.append('path rewritten by a hook')
            elif op[0] == 'method' and method.upper() != 'HEAD':
                method = op[1]
        m.ops(prog.get('ops'))
        if prog.get('fail'):
            w.probes.append('before hook failed')
            v = hook_value(prog['fail'])
            if prog['fail'][0] == 'exc':
                w.probes.append('handler exception')
            break
    if v is None:
        kind = route_of(path, method.upper(), p)
        if kind == '404':
            w.probes.append('404')
            if p.get('part') and path.startswith('/part'):
                ev.append(['h', 'part'])
                v = m.perform(p['part'])
                v = norm(v)
            else:
                v = ['err', {'status': 404, 'body': ['str', 'x']}]
        elif kind == '405':
            w.probes.append('405')
            v = ['err', {'status': 405, 'body': ['str', 'x']}]
        else:
            if p.get('rhook') and kind == 'r':
                ev.append(['rh'])
                m.ops(p['rhook'].get('ops'))
                if p['rhook'].get('fail'):
                    w.probes.append('route hook failed')
                    v = hook_value(p['rhook']['fail'])
            if v is None:
                ev.append(['h', kind])
                v = m.perform(req['h'])
                if v[0] == 'exc':
                    w.probes.append('handler exception')
                v = norm(v)
    if v[0] == 'redirect':
        v = ['redirect', v[1]]
    failed = False
    for hid, _, prog in reversed(hooks['after']):
        (opt if failed else ev).append(['a', hid])
        if not failed:
            m.ops(prog.get('ops'))
            if prog.get('fail'):
                failed = True
                w.probes.append('after hook failed')
                v = hook_value(prog['fail'])
    try:
        m.cast(v)
    except Crit:
        w.probes.append('critical page')
        m.bad500()
    if w.badhdr:
        # the head cannot be sent: the last-resort page
        w.probes.append('unsendable header')
        w.any_status = True
        w.body = None
    return w, ev, opt


def norm(v):
    x = raises(v)
    return v if x is None else x


def hook_value(f):
    if f[0] == 'exc':
        return ERR500
    return norm(f)


PATHS = {'r': '/r', 'a': '/a/one/12', 'any': '/any', 'post': '/post', 'miss': '/nowhere/at/all', 'part': '/part/of/it', 'abad': '/a/one/x', 'x': None, 'none': ''}


def route_of(path, method, p):
    path = '/' + path.lstrip('/')
    if path == '/r':
        return 'r' if method in METHODS else '405'
    if path == '/any':
        return 'any'
    if path == '/post':
        return 'post' if method == 'POST' else '405'
    if path == '/a/one/12':
        return 'a' if method in ('GET', 'POST', 'HEAD') else '405'
    return '404'


# ------------------------------------------------------------------ one run
def run(p, r):
    if not valid(p):
        raise PlanError('shape')
    s = Sim(p, r)
    for n, req in enumerate(p['reqs']):
        for e in req.get('edit') or []:
            if e[0] == 'add':
                s.add_hook(e[1], e[2])
            else:
                s.rm_hook(e[1], e[2])
        one(s, p, n, req, r)


def one(s, p, n, req, r):
    s.req = req
    del s.tracks[:]
    del s.trace[:]
    s.accepted = False
    want, ev, opt = expect(p, req, s.hooks)
    path = '/' + req['raw'] if req['path'] == 'x' else PATHS[req['path']]
    heads = []
    if req.get('json'):
        heads.append(('Accept', 'application/json'))
    env = wsgi.make_environ(req['method'], path, req.get('query') or '', heads, host=req.get('host', 'sim.test'), bare=bool(req.get('bare')))
    if req.get('wrapper'):
        env['wsgi.file_wrapper'] = Wrapper
    ex = wsgi.call(s.app, env, max_chunks=200000, abort_after=req.get('abort'))
    r.simtime += 1 + len(ex.chunks) + len(s.trace) + sum(t.out for t in s.tracks)
    for x in set(want.probes):
        r.probe(x)
    r.note(n, ex.status, len(ex.body), s.trace[:], [(t.closes, t.out) for t in s.tracks])
    if s.accepted:
        # what cannot be sent was put right instead of refused: fine if the response is well-formed
        want.any_status = True
        want.body = None
    what = 'request %d (%s %s)' % (n, req['method'], path)
    head = req['method'].upper() == 'HEAD'
    final_code = ex.code
    # -- protocol
    if ex.escaped is not None:
        raise Violation('escaped', '%s: %r escaped to the server' % (what, ex.escaped), 'escaped')
    if len(ex.starts) != 1:
        raise Violation('starts', '%s: start_response called %d times' % (what, len(ex.starts)), 'starts')
    if ex.problems:
        raise Violation('malformed', '%s: %s; response %s' % (what, '; '.join(ex.problems), ex.brief()), 'malformed:' + ex.problems[0][:20])
    # -- hooks
    got = [e for e in s.trace if e[0] != 'eh']
    need = list(ev)
    if got[:len(need)] != need or any(e not in opt for e in got[len(need):]) or len(got) - len(need) > len(opt):
        raise Violation('hooks', '%s: hooks and handler ran as %r, must be %r%s' % (what, got, need, ' (then possibly %r)' % opt if opt else ''), 'hooks')
    # -- status
    would = head or 100 <= want.status < 200 or want.status in (204, 304)
    cf = [t for t in s.tracks if t.spec.get('cf') and t.closes]
    if cf and (would or {'unencodable', 'yielded response', 'unsupported item', 'exception at first next'} & set(want.probes)):
        # close() failed before the response started
        r.probe('close fails')
        r.fault('close raises')
        if ex.code not in (500, want.status) and not want.any_status:
            raise Violation('status', '%s: status %s after close() of the handler iterable failed; %s' % (what, ex.status, ex.brief()), 'status:close')
        want.any_status = True
    if not want.any_status and ex.code != want.status:
        raise Violation('status', '%s: status %s, the handler program means %d; %s' % (what, ex.status, want.status, ex.brief()), 'status')
    suppressed = head or 100 <= final_code < 200 or final_code in (204, 304)
    r.probe('HEAD', head)
    r.probe('1xx', 100 <= final_code < 200)
    r.probe('204/304', final_code in (204, 304))
    aborted = req.get('abort') is not None and len(ex.chunks) >= req['abort']
    if suppressed:
        if ex.body:
            raise Violation('body', '%s: a response %s to %s carries a body of %d bytes' % (what, ex.status, req['method'], len(ex.body)), 'body:suppressed')
    else:
        later = want.later or want.any_status and (isinstance(ex.iter_error, (UnicodeError, LookupError)) or any(t.failed and t.out for t in s.tracks))     # e.g. a custom page for a failure
        if ex.iter_error is not None and not later:
            raise Violation('escaped', '%s: %r escaped to the server while the body was iterated' % (what, ex.iter_error), 'escaped:iter')
        whole = ex.iter_error is None and not aborted
        cl = ex.header_all('Content-Length')
        if whole and cl:
            if len(cl) != 1 or cl[0] != str(len(ex.body)):
                raise Violation('length', '%s: Content-Length %s, %d bytes returned' % (what, cl, len(ex.body)), 'length')
        if want.body is not None and not want.any_status:
            if whole and not want.later and ex.body != want.body:
                raise Violation('content', '%s: body is %s, the handler produced %s' % (what, draw_clip(ex.body), draw_clip(want.body)), 'content')
            if not whole and not want.body.startswith(ex.body):
                raise Violation('content', '%s: body starts with %s, the handler produced %s' % (what, draw_clip(ex.body), draw_clip(want.body)), 'content')
            if want.later and ex.iter_error is not None and want.final and want.final.get('items') and ex.body != want.body:
                raise Violation('content', '%s: %s was delivered before the failure, the handler produced %s' % (what, draw_clip(ex.body), draw_clip(want.body)), 'content')
    if ex.close_error is not None and not cf:
        raise Violation('escaped', '%s: %r escaped from close()' % (what, ex.close_error), 'escaped:close')
    # -- closing
    for t in s.tracks:
        if not t.closable:
            continue
        if t.kind == 'iter' and t.spec['make'] == 'gen' and t.failed:
            continue            # finished by its own failure
        produced = t.out
        if t.kind == 'file' and t.spec is want.final and not any(x is not t for x in cf):
            produced = True
        if produced and t.closes != 1:
            raise Violation('close', '%s: a handler %s that produced output was closed %d times' % (what, t.kind, t.closes), 'close:%d' % min(t.closes, 2))
        if t.closes > 1:
            raise Violation('close', '%s: a handler %s was closed %d times' % (what, t.kind, t.closes), 'close:2')
        if suppressed and produced and t.kind == 'iter':
            r.probe('suppressed iterable closed')
    # -- accounting
    if want.final and want.final.get('size') is not None:
        r.probe('file_wrapper' if req.get('wrapper') else 'own file wrapper')
    if ex.iter_error is not None:
        r.fault('iterable fails while streaming')
    if aborted:
        r.probe('client left early')
        r.fault('client goes away')
    for t in s.tracks:
        if t.failed:
            r.fault('%s raises' % t.kind)
    for x, f in (('handler exception', 'handler raises'), ('before hook failed', 'before hook raises'), ('after hook failed', 'after hook raises'),
                 ('route hook failed', 'route hook raises'), ('error handler failed', 'error handler raises')):
        r.fault(f, want.probes.count(x))
    if req['h']['ret'][0] != 'str' or want.probes:
        r.nontrivial = True
    r.states.append((req['method'], chain(req['h']['ret']), req['path'], tuple(sorted(set(want.probes))), final_code // 100))


def chain(v, d=0):
    if not v or d > 4:
        return ()
    k = v[0]
    if k in ('resp', 'err'):
        return (k,) + chain(v[1].get('body'), d + 1)
    if k == 'raise':
        return (k,) + chain(v[1], d + 1)
    if k == 'iter':
        return (k, v[1]['make'], bool(v[1].get('first')), bool(v[1].get('fail')))
    if k == 'file':
        return (k, v[1]['make'])
    return (k,)


def draw_clip(b):
    return repr(b) if len(b) < 200 else '%r...(%d bytes)' % (b[:120], len(b))


# ------------------------------------------------------------------ plans
def gen(rng, tier):
    p = dict(before=[gen_hook(rng) for _ in range(draw.pick(rng, (5, 0), (3, 1), (2, 2), (1, 3)))],
             after=[gen_hook(rng, True) for _ in range(draw.pick(rng, (5, 0), (3, 1), (2, 2), (1, 3)))], errh=[], reqs=[])
    if rng.random() < 0.15:
        p['debug'] = 1
    if rng.random() < 0.2:
        p['default'] = 1
    if rng.random() < 0.3:
        p['headroute'] = 1
    if rng.random() < 0.12:
        p['rhook'] = gen_hook(rng)
    if rng.random() < 0.15:
        p['part'] = gen_prog(rng)
    if rng.random() < 0.4:
        p['errh'] = [[c, gen_prog(rng, errh=True)] for c in sorted(rng.sample([400, 404, 405, 500, 503, 418, 200, 302], rng.randint(1, 4)))]
    for k in range(draw.pick(rng, (6, 1), (3, 2), (1, 3), (1, 4))):
        q = dict(method=draw.pick(rng, (8, 'GET'), (3, 'POST'), (4, 'HEAD'), (1, 'PUT'), (1, 'DELETE'), (1, 'OPTIONS'), (1, 'PATCH'), (0.4, 'BREW'), (0.3, 'get'), (0.3, 'head'), (0.2, 'Post')),
                 path=draw.pick(rng, (16, 'r'), (2, 'a'), (1, 'any'), (1, 'post'), (1, 'miss'), (1.5, 'part'), (0.5, 'abad'), (0.7, 'x'), (0.4, 'none')), h=gen_prog(rng, redirect=bool(p.get('default'))))
        if q['path'] == 'x':
            q['raw'] = draw.text(rng, 'ab/.%{}<>"\'\u00e9\u2603\r\n\t ;?#[]:', 1, 8)
        if rng.random() < 0.1:
            q['bare'] = 1
        if rng.random() < 0.2:
            q['json'] = 1
        if rng.random() < 0.3:
            q['wrapper'] = 1
        if rng.random() < 0.12:
            q['abort'] = rng.choice([0, 1, 1, 2, 3])
        if rng.random() < 0.2:
            q['query'] = rng.choice(['a=1', 'a=<b>&c={d}', '%'])
        if k and rng.random() < 0.4:
            q['edit'] = []
            for _ in range(rng.randint(1, 2)):
                ph = rng.choice(['before', 'after'])
                q['edit'].append(['add', ph, gen_hook(rng, ph == 'after')] if rng.random() < 0.5 else ['rm', ph, rng.randrange(4)])
        p['reqs'].append(q)
    return p


def gen_ops(rng):
    ops = []
    for _ in range(draw.pick(rng, (6, 0), (3, 1), (1, 2), (1, 3))):
        ops.append(draw.pick(rng, (3, ['status', gen_status(rng)]), (2, ['hdr', 'X-One', rng.choice(['v', '\xe9\u2603', 'a: b', ''])]), (0.2, ['hdr', 'X-One', 'lone \udc80']), (1, ['add', 'X-Two', rng.choice(['w', '\xfc'])]),
                             (1, ['cookie', 'c', rng.choice(['v', 'a b', '\xe9'])]), (1.2, ['ct', gen_ct(rng)])))
    return ops


def gen_ct(rng):
    return draw.pick(rng, (3, 'text/plain'), (2, 'text/plain; charset=utf-8'), (2, 'text/html; charset=latin1'), (1, 'text/plain; charset=utf-16'),
                     (1, 'text/plain; charset=ascii'), (0.5, 'text/plain; charset=bogus'), (0.5, 'text/plain; charset=latin1; x=y'), (0.5, 'application/json'))


def gen_status(rng):
    return draw.pick(rng, (4, rng.choice([200, 201, 202, 206, 301, 302, 307])), (3, rng.choice([400, 401, 403, 404, 405, 418, 500, 503])),
                     (3, rng.choice([204, 304])), (2, rng.choice([100, 101, 102, 103, 150, 199])), (1, rng.choice(['299 My own', '200 OK then', '102 Wait', '204 Void', '404 Gone missing', '404 Gone \xe9', '200 \u2603', '503 a: b;c,"d"'])),
                     (1, rng.choice([205, 299, 599, 999, 600])))


RETS = [None, False, True, 0, '', 'hook says', b'x', [], ['a'], 404, {}, {'a': 1}, StopIteration]


def gen_hook(rng, after=False):
    h = dict(ops=[])
    if rng.random() < 0.3:
        h['ops'] = gen_ops(rng)
    if not after and rng.random() < 0.06:
        h['ops'] = [['path', rng.choice(['/r', '/any', '/nowhere', 'r', '/post'])]]
    if not after and rng.random() < 0.04:
        h['ops'] = [['method', rng.choice(['GET', 'POST', 'PUT'])]]
    if rng.random() < 0.06:
        h['once'] = 1
    if rng.random() < 0.3:
        h['ret'] = rng.randrange(len(RETS))
    if rng.random() < 0.2:
        h['fail'] = draw.pick(rng, (3, ['exc', rng.choice(sorted(EXC))]), (2, gen_resp(rng, 1)), (1, gen_err(rng, 1)))
    return h


# neither can be sent: refused at once ..
BADOPS = dict(
    statussplit=lambda r: setattr(r, 'status', '404 no such\r\nX-Y: z'), statusplus=lambda r: setattr(r, 'status', '+200 x'), statusunder=lambda r: setattr(r, 'status', '2_00 x'),
    statusempty=lambda r: setattr(r, 'status', '200  '), statuslow=lambda r: setattr(r, 'status', '99 x'), statusint=lambda r: setattr(r, 'status', 1000), statusbare=lambda r: setattr(r, 'status', '200'),
    statustext=lambda r: setattr(r, 'status', 'OK then'), statusnul=lambda r: setattr(r, 'status', '404 a\0b'), statusdigit=lambda r: setattr(r, 'status', '\u0664\u0660\u0664 x'),
    hdrlf=lambda r: r.headers.__setitem__('X-One', 'a\nb: c'), hdrcr=lambda r: r.headers.append('X-One', 'a\rb'), hdrnul=lambda r: r.headers.append('X-Two', '\0'),
    hdrlist=lambda r: r.headers.__setitem__('X-One', ['a']), hdrbytes=lambda r: r.headers.append('X-One', b'a'), hdrdefault=lambda r: r.headers.setdefault('X-Three', 'a\r\nb'), ct=lambda r: setattr(r, 'content_type', 'text/plain\r\nX: y'))
# .. or when the head is sent
LATE = dict(
    name=lambda r: r.headers.append('X-One\r\nX-Two', 'v'), colon=lambda r: r.headers.append('X-One: x', 'v'), noname=lambda r: r.headers.append('', 'v'), uname=lambda r: r.headers.append('X-\xe9\u2603', 'v'),
    space=lambda r: r.headers.append('X One', 'v'), update=lambda r: r.headers.update({'X-Up': 'a\r\nX: y'}), updlist=lambda r: r.headers.update({'X-Up': ['a', 'b\nc']}), deflist=lambda r: r.headers.setdefault('X-Def', ['a', 'b\rc']))


def gen_prog(rng, errh=False, redirect=False):
    ops = gen_ops(rng)
    if rng.random() < 0.05:
        ops.append(['bad', rng.choice(sorted(BADOPS))] if rng.random() < 0.6 else ['late', rng.choice(sorted(LATE))])
    return dict(ops=ops, ret=gen_value(rng, 0, errh, redirect))


def gen_text(rng):
    return draw.pick(rng, (6, 'text'), (2, 'b\xf6se \u2603'), (1, 'x' * rng.choice([1, 100, 70000])), (1, '<b>{0}</b>'), (1, '0'))


def gen_value(rng, depth=0, errh=False, redirect=False):
    k = draw.pick(rng, (3, 'str'), (2, 'bytes'), (2, 'empty'), (6, 'iter'), (4, 'file'), (0 if depth > 2 else 3, 'resp'), (0 if depth > 1 else 2, 'err'),
                  (0 if depth else 3, 'raise'), (0 if depth else 1, 'abort'), (3 if not errh else 1, 'exc'), (1, 'bad'), (1 if redirect and not depth else 0, 'redirect'))
    if k == 'str':
        return ['str', gen_text(rng)]
    if k == 'bytes':
        return ['bytes', gen_text(rng)]
    if k == 'empty':
        return ['empty', rng.choice(['none', 'str', 'bytes', 'list', 'tuple', 'false'])]
    if k == 'exc':
        return ['exc', rng.choice(sorted(EXC))]
    if k == 'abort':
        return ['abort', rng.choice([400, 404, 405, 500, 503, 418, 204, 304]), rng.choice(['text', '<b>', '{x}', 'b\xf6se'])]
    if k == 'redirect':
        return ['redirect', rng.choice(['/to', 'to', 'http://other.test/x', '?q', ''])]
    if k == 'bad':
        return ['bad', rng.choice(BAD)]
    if k == 'raise':
        return ['raise', gen_resp(rng, depth) if rng.random() < 0.6 else gen_err(rng, depth)]
    if k == 'resp':
        return gen_resp(rng, depth)
    if k == 'err':
        return gen_err(rng, depth)
    if k == 'file':
        d = dict(make=rng.choice(['read', 'close', 'close', 'iter', 'iter', 'iternoclose']), size=rng.choice([0, 1, 5, 7, 30, 200, 65536, 65537, 140000] if rng.random() < 0.3 else [0, 1, 5, 7, 14, 30]))
        if rng.random() < 0.3:
            d['short'] = rng.choice([1, 3, 1000]) if d['size'] < 1000 else 3000
        if rng.random() < 0.12:
            d['fail'] = [rng.randint(0, 3), rng.choice(['os', 'value'])]
        if rng.random() < 0.05 and d['make'] in CF:
            d['cf'] = rng.choice(['os', 'value'])
        return ['file', d]
    d = dict(make=draw.pick(rng, (3, 'gen'), (3, 'it'), (1, 'noclose'), (2, 'able'), (1, 'ableno'), (1, 'ablegen'), (2, 'list'), (1, 'tuple'), (1, 'map'), (1, 'chain')),
             items=[rng.choice(['', '', 'a', 'chunk', '\xfc', '\u2603', 'x' * 30]) for _ in range(rng.choice([0, 1, 2, 3, 4, 6]))])
    if rng.random() < 0.5:
        d['bytes'] = 1
    if rng.random() < 0.25 and d['make'] not in ('list', 'tuple'):
        d['fail'] = [rng.randint(0, len(d['items']) + 1), rng.choice(sorted(EXC))]
    if rng.random() < 0.15 and depth < 2:
        d['first'] = gen_resp(rng, depth + 1) if rng.random() < 0.7 else gen_err(rng, depth + 1)
        if raises(d['first']) is not None:
            del d['first'][1]['body']
    if not d.get('first') and rng.random() < 0.04:
        d['odd'] = 1
    if rng.random() < 0.06 and d['make'] in CF:
        d['cf'] = rng.choice(['os', 'value', 'surrogate'])
    if rng.random() < 0.03:
        d['items'] = [''] * rng.choice([50, 3000]) + d['items']
    return ['iter', d]


def gen_resp(rng, depth):
    d = dict(status=gen_status(rng))
    if rng.random() < 0.8:
        d['body'] = gen_value(rng, depth + 1)
    if rng.random() < 0.3:
        d['hdrs'] = [[rng.choice(['X-One', 'X-Two', 'Location', 'Allow']), rng.choice(['v', '\u2603'])] for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.2:
        d['ct'] = gen_ct(rng)
    if rng.random() < 0.2:
        d['cookies'] = [['k', 'v']]
    return ['resp', d]


def gen_err(rng, depth):
    d = gen_resp(rng, depth)[1]
    d['status'] = rng.choice([400, 404, 405, 500, 503, 418, 200, 302]) if rng.random() < 0.8 else gen_status(rng)
    if d.get('body') and rng.random() < 0.6:
        d['body'] = ['str', gen_text(rng)]
    return ['err', d]


# ------------------------------------------------------------------ which (shrunk) plans are inside the domain
def vvalue(v, top=True, depth=0):
    if depth > 8:
        return False
    k = v[0]
    if k in ('str', 'bytes'):
        return isinstance(v[1], str)
    if k == 'empty':
        return v[1] in ('none', 'str', 'bytes', 'list', 'tuple', 'false')
    if k == 'exc':
        return v[1] in EXC
    if k == 'abort':
        return vstatus(v[1]) and isinstance(v[2], str)
    if k == 'redirect':
        return isinstance(v[1], str)
    if k == 'bad':
        return v[1] in BAD
    if k == 'raise':
        return v[1][0] in ('resp', 'err') and vvalue(v[1], False, depth + 1)
    if k in ('resp', 'err'):
        d = v[1]
        return vstatus(d.get('status') or 200) and (not d.get('body') or vvalue(d['body'], False, depth + 1)) and vct(d.get('ct')) \
            and all(len(h) == 2 and h[0] in ('X-One', 'X-Two', 'Location', 'Allow') and isinstance(h[1], str) for h in d.get('hdrs') or []) \
            and all(len(h) == 2 and h[0] == 'k' and isinstance(h[1], str) for h in d.get('cookies') or [])
    if k == 'file':
        d = v[1]
        return d['make'] in FILES and isinstance(d['size'], int) and vfail(d.get('fail')) and isinstance(d.get('short') or 0, int) and (not d.get('cf') or d['make'] in CF and d['cf'] in EXC)
    if k == 'iter':
        d = v[1]
        return isinstance(d['items'], list) and all(isinstance(x, str) for x in d['items']) and vfail(d.get('fail')) \
            and d['make'] in ('gen', 'it', 'noclose', 'able', 'ableno', 'ablegen', 'list', 'tuple', 'map', 'chain') \
            and (not d.get('cf') or d['make'] in CF and d['cf'] in EXC) \
            and (not d.get('first') or (d['first'][0] in ('resp', 'err') and vvalue(d['first'], False, depth + 1) and raises(d['first']) is None))
    return False


def vfail(f):
    return not f or (len(f) == 2 and isinstance(f[0], int) and f[1] in EXC)


def vct(c):
    return not c or ('/' in c and c.isprintable())


def vstatus(s):
    return (isinstance(s, int) and 100 <= s <= 999) or (isinstance(s, str) and s[:3].isdigit() and len(s) > 4 and s[3] == ' ' and 100 <= int(s[:3]) and s[4:].isprintable() and s.strip() == s)


def vops(ops, hook=False):
    for op in ops or []:
        if op[0] == 'status' and not vstatus(op[1]):
            return False
        if op[0] == 'ct' and not vct(op[1]) or op[0] == 'ct' and not op[1]:
            return False
        if op[0] in ('hdr', 'add', 'cookie') and not (op[1] in ('X-One', 'X-Two', 'c') and isinstance(op[2], str)):
            return False
        if op[0] in ('path', 'method') and not (hook and isinstance(op[1], str) and op[1] and op[1].upper() != 'HEAD'):
            return False
        if op[0] in ('bad', 'late'):
            if hook or op[1] not in (BADOPS if op[0] == 'bad' else LATE):
                return False
        elif op[0] not in ('status', 'ct', 'hdr', 'add', 'cookie', 'path', 'method'):
            return False
    return True


def vhook(h):
    return type(h.get('ret') or 0) is int and 0 <= (h.get('ret') or 0) < len(RETS) and vops(h.get('ops'), True) and (not h.get('fail') or (h['fail'][0] in ('exc', 'resp', 'err') and vvalue(h['fail'])))


def vprog(g):
    return vops(g.get('ops')) and vvalue(g['ret'])


def valid(p):
    for ph in ('before', 'after'):
        if not all(vhook(h) for h in p.get(ph) or []):
            return False
    if p.get('rhook') and not vhook(p['rhook']) or p.get('part') and not vprog(p['part']):
        return False
    if not all(vstatus(c) and isinstance(c, int) and vprog(g) for c, g in p.get('errh') or []):
        return False
    for q in p['reqs']:
        if not vprog(q['h']) or q['path'] not in PATHS or not q['method'] or (q['path'] == 'x' and not q.get('raw')):
            return False
        if any(op[0] in ('path', 'method') for op in q['h'].get('ops') or []):
            return False
        for e in q.get('edit') or []:
            if len(e) != 3 or e[1] not in ('before', 'after') or e[0] == 'add' and not vhook(e[2]) or e[0] == 'rm' and not isinstance(e[2], int) or e[0] not in ('add', 'rm'):
                return False
        if 'redirect' in repr(q['h']['ret']) and not p.get('default'):
            return False
    return bool(p['reqs'])
