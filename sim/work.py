"""Workload interpreter shared by C08, C09, C10: simulated clients, handler programs, hooks,
error handlers. The ground truth about "which request is this" is the simulated server's own
slot stack, never the framework."""
import hashlib
import io
import json
import re
import threading

from . import world, wsgi, draw, chunked
from .sched import point
from .stream import SimInput, SimStop, Passthru, PlanError

NAMES = ['a', 'b', 'sid', 'tok']
HDRS = ['X-A', 'X-B', 'X-Tok']
RHDRS = ['X-One', 'X-Two', 'X-Three', 'Cache-Control', 'Content-Language']


class Slot:
    def __init__(self, spec, app_i, tag):
        self.spec = spec
        self.app_i = app_i
        self.tag = tag
        self.obs = []
        self.hookobs = []
        self.bad = []            # direct violations noticed inside the run
        self.ex = None
        self.nested = []         # (path of spec, Slot) of nested requests
        self.handled = 0
        self.env = None
        self.inp = None


class SimEnv(dict):
    """environ of the simulated server (a dict that can be watched for retention)"""
    __slots__ = ('__weakref__',)


# ------------------------------------------------------------------ bodies
def body_bytes(b, tok):
    """-> (data, content type, content length or None, extra headers)"""
    k = b[0] if b else 'none'
    n = int(b[1]) if b and len(b) > 1 and b[1] is not None else 3
    if k == 'none':
        return b'', None, None, []
    if k == 'raw':
        d = (tok * (n // len(tok) + 1))[:n].encode('latin1', 'replace')
        return d, 'application/octet-stream', len(d), []
    if k == 'form':
        d = ('a=%s&b=%d&tok=%s' % (tok, n, tok * (n % 7 + 1))).encode()
        return d, 'application/x-www-form-urlencoded', len(d), []
    if k == 'json':
        d = json.dumps({'a': tok, 'n': n, 'l': [tok] * (n % 5)}).encode()
        return d, 'application/json', len(d), []
    if k == 'badjson':
        d = ('{"a": "%s"' % tok).encode()
        return d, 'application/json', len(d), []
    if k in ('mp', 'badmp'):
        bd = 'B' + tok
        head = '--%s\r\nContent-Disposition: form-data; name="a"\r\n\r\n%s\r\n' % (bd, tok)
        up = '--%s\r\nContent-Disposition: form-data; name="up"; filename="%s.txt"\r\nContent-Type: text/plain\r\nX-P: %s\r\n\r\n%s\r\n' % (
            bd, tok, tok, tok * (n % 9 + 1))
        d = (head + up + '--%s--\r\n' % bd).encode()
        if k == 'badmp':
            d = d[:max(0, len(d) - 4 - n % (len(d) // 2))]
        return d, 'multipart/form-data; boundary=' + bd, len(d), []
    if k in ('chunk', 'badchunk'):
        pl = ('a=%s&tok=%s' % (tok, tok * (n % 7 + 1))).encode()
        m = max(1, len(pl) // 2)
        d, _ = chunked.encode([pl[:m], pl[m:]], [])
        d = d + b'\r\n'
        if k == 'badchunk':
            d = d[:max(1, len(d) - 8)] if n % 2 else b'zz' + d
        return d, 'application/x-www-form-urlencoded', None, [('Transfer-Encoding', 'chunked')]
    if k == 'short':
        d = ('a=%s' % tok).encode()
        return d, 'application/x-www-form-urlencoded', len(d) + 5, []
    raise PlanError(k)


PATHS = {
    'h': lambda t: '/h/' + t,
    'hx': lambda t: '/h/x/' + t,
    'int': lambda t: '/n/' + str(sum(map(ord, t)) % 997),
    'rest': lambda t: '/p/' + t + '/q/' + t,
    'only': lambda t: '/only',
    'miss': lambda t: '/nowhere/' + t,
    'part': lambda t: '/part/' + t,
    'root': lambda t: '/',
    'lb': lambda t: '/h/x' + t,
    'lb2': lambda t: '/h/lit/' + t,
    'lit': lambda t: '/h/lit',
    'lb3': lambda t: '/p/deep/er/' + t,
    'rex': lambda t: '/x/' + alt(t) + '/end',
    'rexsel': lambda t: '/x/' + 'b' * (1 + len(t) % 5) + '/' + t,
}


def alt(t):
    """text for one of the alternatives of the rex wildcard"""
    n = sum(map(ord, t))
    return ('a' * (1 + n % 5), 'b' * (1 + n % 7), 'c%d' % n)[n // 7 % 3]


def make_env(spec, world_, slot):
    tok = spec.get('tok') or 't'
    data, ctype, clen, extra = body_bytes(spec.get('body'), spec.get('btok') or tok)
    inp = SimInput(data, frag=spec.get('frag') or (), segs=(), end='eof', fail=spec.get('fail'))
    heads = [(k, v) for k, v in (spec.get('hdrs') or [])]
    heads += extra
    if spec.get('cookies'):
        heads.append(('Cookie', '; '.join('%s=%s' % (k, v) for k, v in spec['cookies'])))
    if spec.get('json'):
        heads.append(('Accept', 'application/json'))
    kind = spec.get('path') or 'h'
    if kind == 'bad':
        path = b'/h/' + tok.encode() + b'\xff\xfe'
    elif kind in PATHS:
        path = PATHS[kind](tok)
        if spec.get('pfx'):
            path = '/%s%s' % (spec['pfx'], path)
    else:
        raise PlanError(kind)
    if spec.get('ctype'):
        ctype = spec['ctype']
    if spec.get('empty'):   # a server may pass empty values instead of none
        ctype, clen = ctype or '', '' if clen is None else clen
    bare = bool(spec.get('bare'))   # or leave them out
    if bare and path == '/':
        path = ''
    env = wsgi.make_environ(spec.get('method') or 'GET', path, spec.get('query') or '', heads, inp,
                            host=spec.get('host') or 'sim.test', content_type=ctype, content_length=clen, bare=bare)
    for k, v in (spec.get('extra') or []):
        env[k] = v
    if spec.get('wrapper'):
        env['wsgi.file_wrapper'] = FileWrapper
    env['sim.slot'] = slot.tag
    e = SimEnv(env)
    slot.env, slot.inp = e, inp
    return e


class MemFile(io.BytesIO):
    """a file body whose repr (it can end up on error pages) has no address"""
    def __repr__(self):
        return '<file>'


class Steps:
    """an iterator body whose repr has no address"""
    def __init__(self, gen):
        self.gen = gen
        self.close = gen.close

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.gen)

    def __repr__(self):
        return '<steps>'


class FileWrapper:
    def __init__(self, f, n=4):
        self.f, self.n = f, n
        self.close = getattr(f, 'close', lambda: None)

    def __iter__(self):
        while True:
            point()
            d = self.f.read(self.n)
            if not d:
                return
            yield d


ERRORS = ['RequestError', 'BodySizeError', 'BodyParsingError']


# ------------------------------------------------------------------ the world
class World:
    """Fresh import of the framework plus the apps of the plan."""

    def __init__(self, apps, interfere=True, default_first=False):
        self.o = world.fresh()
        self.interfere = interfere
        self.tls = threading.local()
        self.apps = []
        self.conf = apps
        self.shared = {}
        self.serial = 0
        for i, conf in enumerate(apps):
            self.apps.append(self.make_app(i, conf or {}))

    # -- slots
    def stack(self):
        st = getattr(self.tls, 'st', None)
        if st is None:
            st = self.tls.st = []
        return st

    def cur(self):
        st = self.stack()
        return st[-1] if st else None

    def serve(self, spec, app_i=0, tag=None, abort_after=None):
        slot = Slot(spec, app_i, tag or 'r')
        env = make_env(spec, self, slot)
        st = self.stack()
        st.append(slot)
        try:
            slot.ex = wsgi.call(self.apps[app_i], env, max_chunks=400, abort_after=spec.get('abort'))
        finally:
            st.pop()
        return slot

    # -- application
    def make_app(self, i, conf):
        o = self.o
        cfg = {}
        if conf.get('mem') is not None:
            cfg['max_memfile_size'] = int(conf['mem'])
        if conf.get('max') is not None:
            cfg['max_body_size'] = int(conf['max'])
        if conf.get('debug'):
            cfg['debug'] = True
        if conf.get('domain'):
            cfg['app_name_header'] = 'sim.appname'
            table = dict(conf['domain'])
            cfg['domain_map'] = lambda h: table.get(h)
        if conf.get('default') or conf.get('setup'):
            app = o.default_app() if conf.get('default') else o.Ombott()
            emap = self.errors_map(app, conf.get('emap'))
            if emap:
                cfg['errors_map'] = emap
            app.setup(cfg)
        else:
            emap = conf.get('emap') and self.errors_map(o.Ombott(), conf['emap'])
            if emap:
                cfg['errors_map'] = emap
            app = o.Ombott(cfg)
        app.sim_i = i

        def handler(**kw):
            return self.handle(app, i, kw)

        for pfx in ['', '/dom'] if conf.get('domain') else ['']:
            for rule in ['/', '/h/<name>', '/h/x/<name>', '/n/<num:int>', '/p/<rest:path>', '/h/lit', '/h/<b>/<c>',
                         '/p/deep/er/x/y', '/p/deep/<rest>',
                         '/x/<v:rex((a+)|(b+)|([^ab/]+))>/end', '/x/<v:rex((a+)|(b+)|([^ab/]+))[2]>/<w>']:
                if rule == '/' and pfx:
                    rule = ''
                app.route(pfx + rule, ['GET', 'POST', 'PUT'], handler)
            app.route(pfx + '/only', 'POST', handler)
        for ph, name in (('before', 'before_request'), ('after', 'after_request')):
            for h, ops in enumerate(conf.get(ph) or []):
                app.add_hook(name, self.hook(app, i, ph, h, ops))
        if conf.get('rhook'):
            app.on_route('/h', lambda prefix: self.rhook(app, prefix))
        if conf.get('part'):
            def part(prefix, params=None):
                s = self.cur()
                s.obs.append(['part', prefix])
                return self.handle(app, i, {})
            app.error(404, '/part')(part)
        for code, prog in (conf.get('errh') or []):
            app.error(code)(self.errh(app, i, prog))
        # response objects the application builds once, at startup
        for key, make in (('resp', lambda: o.HTTPResponse('shared', 200)), (404, lambda: o.HTTPError(404, 'shared error')),
                          (500, lambda: o.HTTPError(500, 'shared error'))):
            r = make()
            r.headers['X-Shared'] = 'one'
            r.headers.append('X-Shared', 'two')
            r.set_cookie('shared', 'jar')
            self.shared[id(app), key] = r
        return app

    def errors_map(self, app, emap):
        """the error responses of the application itself, by the name of the exception"""
        if not emap:
            return None
        names = {c.__name__: c for c in app.config.errors_map}
        ret = {}
        for name, status, text in emap:
            if name in names and isinstance(status, int):
                ret[names[name]] = e = self.o.HTTPError(status, text)
                e.headers['X-Mapped'] = 'mapped'
                e.set_cookie('mapped', 'jar')
        return ret

    def rhook(self, app, prefix):
        s = self.cur()
        self.look(app, s)
        s.hookobs.append(['rhook', prefix])
        point()

    def hook(self, app, i, phase, h, ops):
        def hook():
            s = self.cur()
            s.hookobs.append([phase, h])
            self.look(app, s)
            for op in ops or []:
                self.op(app, i, s, op, s.hookobs)
                point()
        return hook

    def errh(self, app, i, prog):
        def errh(err):
            s = self.cur()
            self.look(app, s)
            s.obs.append(['err', err.status, describe(err.body)])
            own = not any(err is x for x in self.shared.values())
            for op in (prog or {}).get('ops') or []:
                if op[0].startswith('err_') and not own:
                    continue        # what an application does to its own shared objects is its own business
                if op[0] == 'err_set':
                    err.headers[op[1]] = self.val(s, op[2])
                elif op[0] == 'err_append':
                    err.headers.append(op[1], self.val(s, op[2]))
                elif op[0] == 'err_get':
                    s.obs.append(['err_get', describe(err.headers.get(op[1]))])
                elif op[0] == 'err_list':
                    s.obs.append(['err_list', sorted(map(list, err.headerlist))])
                elif op[0] == 'err_body':
                    s.obs.append(['err_body', describe(err.body)])
                    err.body = self.val(s, op[1])
                elif op[0] == 'err_cookie':
                    err.set_cookie(op[1], self.val(s, op[2]))
                elif op[0] == 'err_status':
                    err.status = op[1]
                else:
                    self.op(app, i, s, op, s.obs)
                point()
            return self.ret(app, i, s, (prog or {}).get('ret') or ['str', 'error page $'])
        return errh

    def look(self, app, s):
        """The application's request must be the one the server is serving in this slot."""
        try:
            tag = app.request.environ.get('sim.slot')
        except (AttributeError, KeyError) as e:
            tag = repr(e)
        if tag != s.tag:
            s.bad.append('a handler of request %r sees the environ of %r' % (s.tag, tag))
        try:
            a = app.request.app
        except Exception as e:
            a = e
        if a is not app:
            s.bad.append('app.request.app is %r inside a handler of another application' % (a,))

    def handle(self, app, i, kw):
        s = self.cur()
        s.handled += 1
        if s.handled > 3:
            raise PlanError('recursion')
        self.look(app, s)
        s.obs.append(['args', sorted([k, describe(v)] for k, v in kw.items())])
        h = s.spec.get('h') or {}
        for op in h.get('ops') or []:
            self.op(app, i, s, op, s.obs)
            point()
        self.look(app, s)
        return self.ret(app, i, s, h.get('ret') or ['str', 'ok $'])

    def val(self, s, v):
        return str(v if v is not None else '').replace('$', s.spec.get('tok') or 't')

    # -- operations of handlers and hooks
    def op(self, app, i, s, op, log):
        k = op[0] if op else None
        if not isinstance(k, str):
            raise PlanError(k)
        if k == 'try':
            try:
                self.op(app, i, s, op[1], log)
            except SimStop:
                raise
            except Passthru:
                raise
            except Exception as e:
                log.append(['caught', type(e).__name__, describe(getattr(e, 'status', None)), describe(getattr(e, 'body', None))])
                if len(op) > 2 and hasattr(e, 'headers'):
                    try:
                        log.append(['caught_h', sorted(map(list, e.headerlist))])
                        e.headers[op[2]] = self.val(s, '$')
                        e.headers.append('X-Multi', self.val(s, '$'))
                        e.body = 'changed by ' + self.val(s, '$')
                        e.set_cookie('caught', self.val(s, '$'))
                    except PlanError:
                        raise
                if len(op) > 3 and op[3]:
                    raise
            return
        f = getattr(self, 'op_' + k, None)
        if f is None:
            raise PlanError(k)
        v = f(app, i, s, *op[1:])
        if v is not None:
            log.append([k] + list(op[1:2] if k in ('hdr', 'cookie', 'env', 'attr_get', 'rhdr', 'mut') else []) + [v[0]])

    # reads
    def op_path(self, app, i, s):
        return [app.request.path]

    def op_method(self, app, i, s):
        return [app.request.method]

    def op_qs(self, app, i, s):
        return [app.request.query_string]

    def op_query(self, app, i, s):
        return [sorted([k, describe(v)] for k, v in app.request.query.items())]

    def op_hdr(self, app, i, s, name):
        return [describe(app.request.headers.get(name))]

    def op_headers(self, app, i, s):
        return [sorted([k, describe(v)] for k, v in app.request.headers.items())]

    def op_cookie(self, app, i, s, name):
        return [describe(app.request.get_cookie(name))]

    def op_cookies(self, app, i, s):
        return [sorted([k, v] for k, v in app.request.cookies.items())]

    def op_scookie(self, app, i, s, name):
        return [describe(app.request.get_cookie(name, secret='k'))]

    def op_body(self, app, i, s):
        return [describe(app.request.body.read())]

    def op_bodypart(self, app, i, s, n):
        f = app.request.body
        a = f.read(max(1, int(n or 1)))
        point()
        return [describe(a + f.read())]

    def op_input(self, app, i, s):
        app.request.body
        f = app.request.environ['wsgi.input']
        f.seek(0)
        return [describe(f.read())]

    def op_forms(self, app, i, s):
        return [sorted([k, describe(v)] for k, v in app.request.forms.items())]

    def op_post(self, app, i, s):
        return [sorted([k, describe(v)] for k, v in app.request.POST.items())]

    def op_params(self, app, i, s):
        return [sorted([k, describe(v)] for k, v in app.request.params.items())]

    def op_files(self, app, i, s):
        out = []
        for k, v in sorted(app.request.files.items()):
            vs = v if isinstance(v, list) else [v]
            for u in vs:
                point()
                out.append([k, u.filename, describe(u.file.read()), sorted([a, describe(b)] for a, b in u.headers.items()), describe(u.content_type)])
        return [out]

    def op_json(self, app, i, s):
        return [describe(app.request.json)]

    def op_url(self, app, i, s):
        return [app.request.url]

    def op_fullpath(self, app, i, s):
        return [app.request.fullpath]

    def op_urlargs(self, app, i, s):
        return [sorted([k, describe(v)] for k, v in app.request.url_args.items())]

    def op_rule(self, app, i, s):
        return [describe(getattr(getattr(app.request, 'route', None), 'name', None))]

    def op_env(self, app, i, s, key):
        return [describe(app.request.environ.get(key))]

    def op_get(self, app, i, s, key):
        return [describe(app.request.get(key))]

    def op_clen(self, app, i, s):
        return [describe(app.request.content_length)]

    def op_ctype(self, app, i, s):
        return [describe(app.request.content_type)]

    def op_remote(self, app, i, s):
        return [describe([app.request.remote_addr, app.request.remote_route])]

    def op_auth(self, app, i, s):
        return [describe(app.request.auth)]

    def op_isjson(self, app, i, s):
        return [bool(app.request.is_json_requested)]

    def op_attr_get(self, app, i, s, name):
        return [describe(getattr(app.request, name, None))]

    def op_status_get(self, app, i, s):
        r = app.response
        return [[r.status, r.status_code, r.status_line]]

    def op_rhdr(self, app, i, s, name):
        return [describe(app.response.headers.get(name))]

    def op_rhdrs(self, app, i, s):
        return [sorted(map(list, app.response.headerlist))]

    def op_rlen(self, app, i, s):
        return [len(app.response.headers)]

    def op_rbody_get(self, app, i, s):
        return [describe(app.response.body)]

    # what a request presents belongs to its handler, who may change it
    def op_mut(self, app, i, s, what):
        v = getattr(app.request, what, None)
        point()
        if isinstance(v, dict):
            for k in sorted(v, key=str)[:1]:
                if isinstance(v[k], list):
                    v[k].append(self.val(s, 'm-$'))
                else:
                    del v[k]
            v['mut'] = self.val(s, 'm-$')
            point()
            return [[sorted(map(str, v)), describe(v.get('mut'))]]
        return [describe(v)]

    def op_bwrite(self, app, i, s):
        f = app.request.body
        f.seek(0, 2)
        f.write(self.val(s, 'w-$').encode())
        point()
        f.seek(0)
        return [describe(f.read())]

    # writes
    def op_attr(self, app, i, s, name, v):
        setattr(app.request, name, self.val(s, v))

    def op_item(self, app, i, s, key, v):
        app.request[key] = self.val(s, v)

    def op_status(self, app, i, s, v):
        app.response.status = v

    def op_set(self, app, i, s, name, v):
        app.response.headers[name] = self.val(s, v)

    def op_append(self, app, i, s, name, v):
        app.response.headers.append(name, self.val(s, v))

    def op_sdef(self, app, i, s, name, v):
        app.response.headers.setdefault(name, self.val(s, v))

    def op_update(self, app, i, s, name, v):
        app.response.headers.update({name: self.val(s, v)})

    def op_del(self, app, i, s, name):
        app.response.headers.clear(name)

    def op_clear(self, app, i, s):
        app.response.headers.clear()

    def op_ct(self, app, i, s, v):
        app.response.content_type = v

    def op_expires(self, app, i, s, v):
        app.response.expires = int(v)

    def op_rbody(self, app, i, s, v):
        app.response.body = self.val(s, v)

    def op_setcookie(self, app, i, s, name, v, opts=None):
        app.response.set_cookie(name, self.val(s, v), **(opts or {}))

    def op_signcookie(self, app, i, s, name, v):
        app.response.set_cookie(name, [self.val(s, v)], secret='k')

    def op_delcookie(self, app, i, s, name):
        app.response.delete_cookie(name)

    def op_crash(self, app, i, s, v):
        raise ValueError(self.val(s, v))

    def op_abort(self, app, i, s, code, v):
        self.o.abort(code, self.val(s, v))

    def op_pt(self, app, i, s, n=1):
        for _ in range(min(20, int(n or 1))):
            point()

    # interference: things done by other parts of the process (skipped in the solo reference)
    def op_nest(self, app, i, s, j, spec):
        if not self.interfere:
            return
        if len(self.stack()) > 4 or not (0 <= j < len(self.apps)):
            raise PlanError('nesting')
        if j in [x.app_i for x in self.stack()]:
            # one application re-entered on the thread it is serving on is not this property
            raise PlanError('re-entered')
        self.serial += 1
        sub = self.serve(spec, j, '%s/%d' % (s.tag, len(s.nested)))
        s.nested.append(sub)

    def op_copy(self, app, i, s, changes):
        if not self.interfere:
            return
        req = app.request
        c = req.copy()
        if c is req:
            s.bad.append('copy() returned the request itself')
            return
        if (c.path, c.method, c.query_string) != (req.path, req.method, req.query_string):
            s.bad.append('the copy shows %r, the original %r' % ((c.path, c.method, c.query_string), (req.path, req.method, req.query_string)))
        point()
        for k, v in changes or []:
            c[k] = v
            if c.get(k) != v:
                s.bad.append('copy[%r] is %r after being set to %r' % (k, c.get(k), v))
            point()
        s.__dict__.setdefault('keep', []).append(c)

    def op_copyread(self, app, i, s):
        """the copies made before still show what was written to them"""
        if not self.interfere:
            return
        for c in s.__dict__.get('keep', []):
            if c.environ is app.request.environ:
                s.bad.append('a copy shares the environ of the original')

    def op_newapp(self, app, i, s, n=1):
        if not self.interfere:
            return
        a = self.o.Ombott({'max_memfile_size': 7, 'max_body_size': 1, 'debug': True})
        point()
        a.route('/h/<name>', 'GET', lambda name: 'from the new app')
        point()
        a.add_hook('before_request', lambda: a.response.headers.append('X-One', 'new app'))
        a.error(404)(lambda e: 'new app')
        a.error(500)(lambda e: 'new app')
        b = self.o.Ombott()
        point()
        for cfg in (b.config, b.request.config):
            for k, v in (('max_memfile_size', 3), ('max_body_size', 1), ('debug', True), ('app_name_header', 'sim.other')):
                if hasattr(cfg, k):
                    setattr(cfg, k, v)
        b.setup({'max_memfile_size': 5, 'errors_map': self.errors_map(b, [[n, 499, 'new app'] for n in ERRORS])})
        b.route('/h/<name:re:[a-z]+>', ['GET', 'POST'], lambda name: (b.response.set_cookie('sid', 'new app'), b.request.forms, 'new app')[-1])
        b.add_hook('after_request', lambda: b.response.headers.append('X-Two', 'new app'))
        b.on_route('/h', lambda prefix: point())
        self.shared.setdefault('apps', []).extend([a, b])
        if n == 2:
            for x in (a, b):
                self.stack().append(None)
                try:
                    wsgi.call(x, wsgi.make_environ('POST', '/h/new', 'a=new', [('Cookie', 'sid=new')], io.BytesIO(b'a=new'), content_length=5,
                                                   content_type='application/x-www-form-urlencoded'), max_chunks=50)
                finally:
                    self.stack().pop()

    def op_newreq(self, app, i, s):
        if not self.interfere:
            return
        env = wsgi.make_environ('PUT', '/foreign', 'foreign=1', [('X-A', 'foreign'), ('Cookie', 'sid=foreign')])
        env['sim.slot'] = 'foreign'
        r = self.o.Request(env)
        point()
        if r.path != '/foreign' or r.query_string != 'foreign=1' or r.get_cookie('sid') != 'foreign':
            s.bad.append('a new Request shows %r' % ((r.path, r.query_string),))
        r['HTTP_X_A'] = 'changed'
        r.extra_attr = 'foreign'

    def op_newresp(self, app, i, s):
        if not self.interfere:
            return
        r = self.o.Response()
        point()
        r.status = 418
        r.headers['X-One'] = 'foreign'
        r.set_cookie('sid', 'foreign')
        r.body = 'foreign'
        h = self.o.HTTPResponse('foreign', 418, X_Two='foreign')
        h.set_cookie('sid', 'foreign')
        e = self.o.HTTPError(418, 'foreign')
        e.headers['X-One'] = 'foreign'
        if r.status_code != 418 or r.headers['X-One'] != 'foreign':
            s.bad.append('a new Response shows %r %r' % (r.status, r.headers))

    def op_ownnew(self, app, i, s):
        """copy and re-read through the copy (also part of the solo reference)"""
        c = app.request.copy()
        return [[c.path, c.query_string, sorted([k, describe(v)] for k, v in c.query.items()), describe(c.get_cookie('sid'))]]

    # -- results of handlers
    def resp(self, app, i, s, d, error=False):
        o = self.o
        body = d.get('body')
        body = self.ret(app, i, s, body) if isinstance(body, list) else self.val(s, body or '')
        if error:
            r = o.HTTPError(d.get('status') or 500, body)
        else:
            r = o.HTTPResponse(body, d.get('status') or 200)
        for k, v in d.get('hdrs') or []:
            r.headers.append(k, self.val(s, v))
        for k, v in d.get('cookies') or []:
            r.set_cookie(k, self.val(s, v))
        return r

    def ret(self, app, i, s, ret, depth=0):
        k = ret[0] if ret else None
        o = self.o
        if k == 'str':
            return self.val(s, ret[1])
        if k == 'bytes':
            return self.val(s, ret[1]).encode()
        if k == 'none':
            return None
        if k == 'echo':
            return hashlib.sha1(json.dumps([s.obs, s.hookobs], sort_keys=True).encode()).hexdigest()
        if k == 'list':
            return [self.val(s, x).encode() if len(ret) > 2 and ret[2] else self.val(s, x) for x in ret[1]]
        if k == 'gen':
            # items: text, or an operation to perform in between
            def gen():
                for it in ret[1]:
                    if isinstance(it, list):
                        self.op(app, i, s, it, s.obs)
                    else:
                        yield self.val(s, it).encode() if len(ret) > 2 and ret[2] else self.val(s, it)
                    point()
            return Steps(gen())
        if k == 'file':
            return MemFile(self.val(s, ret[1]).encode())
        if k == 'resp':
            return self.resp(app, i, s, ret[1])
        if k == 'raise':
            raise self.resp(app, i, s, ret[1])
        if k == 'err':
            return self.resp(app, i, s, ret[1], True)
        if k == 'raise_err':
            raise self.resp(app, i, s, ret[1], True)
        if k == 'yieldresp':
            r = self.resp(app, i, s, ret[1])

            def g():
                yield r
            return Steps(g())
        if k == 'shared':
            r = self.shared[id(app), 'resp']
            if len(ret) > 1 and ret[1]:
                raise r.with_traceback(None)
            return r
        if k == 'shared_err':
            if ret[1] not in (404, 500):
                raise PlanError('shared_err')
            raise self.shared[id(app), ret[1]].with_traceback(None)
        if k == 'badtype':
            return [1, 2]
        if k == 'self':
            return app.response.copy(cls=o.HTTPResponse)
        if k == 'redirect':
            o.redirect(self.val(s, ret[1]))
        raise PlanError(k)


def describe(v):
    if isinstance(v, bytes):
        return 'b:' + (v.decode('latin1') if len(v) <= 200 else '%d:%s' % (len(v), hashlib.sha1(v).hexdigest()))
    if v is None or isinstance(v, (str, int, float, bool)):
        return v
    if isinstance(v, (list, tuple)):
        return [describe(x) for x in v]
    if isinstance(v, dict):
        return {str(k): describe(x) for k, x in sorted(v.items())}
    if hasattr(v, 'raw_filename'):
        return ['upload', v.raw_filename]
    return type(v).__name__


ADDR = re.compile(r'0x[0-9a-fA-F]{6,}')


def summary(slot):
    """what the outside world and the handler saw for one request"""
    ex = slot.ex
    body = ex.body.decode('latin1')
    heads = [list(map(str, h)) for h in ex.headers] if isinstance(ex.headers, list) else repr(ex.headers)
    if ADDR.search(body):
        # tracebacks and reprs on error pages may show memory addresses, which nobody controls
        body = ADDR.sub('0xADDR', body)
        if isinstance(heads, list):
            heads = [[k, 'ADDR' if k.lower() == 'content-length' else v] for k, v in heads]
    return dict(
        status=ex.status, headers=heads,
        body=body, starts=len(ex.starts), problems=list(ex.problems),
        escaped=repr(ex.escaped) if ex.escaped else None, stopped=repr(ex.stopped) if ex.stopped else None,
        iter_error=repr(ex.iter_error) if ex.iter_error else None,
        close_error=repr(ex.close_error) if ex.close_error else None,
        obs=json.loads(json.dumps(slot.obs)), hooks=json.loads(json.dumps(slot.hookobs)), handled=slot.handled)


def diff(a, b, what=('alone', 'here')):
    """first difference between two summaries as (key, text), or None"""
    for k in ('escaped', 'stopped', 'hooks', 'obs', 'status', 'headers', 'body', 'starts', 'iter_error', 'close_error', 'problems', 'handled'):
        if k == 'headers' and isinstance(a[k], list) and isinstance(b[k], list):
            if sorted(a[k]) != sorted(b[k]):
                x = [h for h in a[k] if h not in b[k]]
                y = [h for h in b[k] if h not in a[k]]
                return k, 'headers: %s only %r, %s only %r' % (what[0], x[:6], what[1], y[:6])
        elif a[k] != b[k]:
            x, y = a[k], b[k]
            if isinstance(x, list) and isinstance(y, list):
                for n in range(max(len(x), len(y))):
                    p = x[n] if n < len(x) else '(nothing)'
                    q = y[n] if n < len(y) else '(nothing)'
                    if p != q:
                        return k, '%s[%d]: %s %r, %s %r' % (k, n, what[0], p, what[1], q)
            return k, '%s: %s %s, %s %s' % (k, what[0], clip(x), what[1], clip(y))
    return None


def clip(x):
    x = repr(x)
    return x if len(x) < 500 else x[:300] + '...' + x[-180:]


# ------------------------------------------------------------------ generators
READS = ['path', 'method', 'qs', 'query', ['hdr', 'X-A'], ['hdr', 'X-Tok'], 'headers', ['cookie', 'sid'], 'cookies', ['scookie', 'sg'], 'url',
         'fullpath', 'urlargs', ['env', 'PATH_INFO'], ['env', 'QUERY_STRING'], ['get', 'HTTP_X_A'], 'remote', 'auth', 'isjson', 'clen', 'ctype',
         ['attr_get', 'mine'], ['attr_get', 'other'], 'status_get', ['rhdr', 'X-One'], 'rhdrs', 'rlen', 'rbody_get', 'ownnew',
         ['mut', 'cookies'], ['mut', 'query'], ['mut', 'url_args']]
BODYREADS = ['body', 'body', ['bodypart', 3], 'input', 'forms', 'forms', 'post', 'params', 'files', 'json',
             ['mut', 'forms'], ['mut', 'POST'], ['mut', 'params'], ['mut', 'files'], ['mut', 'json'], 'bwrite']


def gen_read(rng):
    x = rng.choice(READS)
    return list(x) if isinstance(x, list) else [x]


def gen_bodyread(rng):
    x = rng.choice(BODYREADS)
    x = list(x) if isinstance(x, list) else [x]
    if rng.random() < 0.35:
        y = ['try', x]
        if rng.random() < 0.4:
            y += ['X-Caught']
            if rng.random() < 0.5:
                y += [1]
        return y
    return x


def gen_write(rng):
    k = rng.randrange(16)
    if k == 0:
        return ['attr', rng.choice(['mine', 'other']), '$']
    if k == 1:
        return ['item', rng.choice(['HTTP_X_A', 'HTTP_COOKIE', 'QUERY_STRING', 'sim.own']), rng.choice(['a=$', 'sid=$', '$'])]
    if k in (2, 3):
        return ['status', rng.choice([200, 201, 202, 203, 404, 418, 500, '299 $ own'.replace('$', 'My'), 204, 304, 299, 299, '599 Net $'.replace('$', 'Oth'), 599, '404 Lost', '200 Fine'])]
    if k in (4, 5):
        return ['set', rng.choice(RHDRS), 'v-$']
    if k in (6, 7):
        return ['append', rng.choice(RHDRS), 'w-$']
    if k == 8:
        return ['sdef', rng.choice(RHDRS), 'd-$']
    if k == 9:
        return ['ct', rng.choice(['text/plain', 'text/html; charset=latin1', 'application/json', 'text/plain; charset=utf-16'])]
    if k in (10, 11):
        return ['setcookie', rng.choice(NAMES), 'c-$'] + ([{'path': '/', 'max_age': rng.randint(1, 99)}] if rng.random() < 0.3 else [])
    if k == 12:
        return ['delcookie', rng.choice(NAMES)]
    if k == 13:
        return ['signcookie', 'sg', '$']
    if k == 14:
        return rng.choice([['del', rng.choice(RHDRS)], ['clear'], ['update', rng.choice(RHDRS), 'u-$'], ['expires', rng.randint(0, 10 ** 9)]])
    return ['rbody', 'rb-$']


def gen_resp(rng, nested=True):
    d = dict(status=rng.choice([200, 201, 202, 301, 400, 401, 404, 418, 500, 503, 204, 304, '299 Mine', 299, '599 Net', 599, '404 Lost']), body='resp $')
    if rng.random() < 0.6:
        d['hdrs'] = [[rng.choice(RHDRS), 'r-$'] for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.5:
        d['cookies'] = [[rng.choice(NAMES), 'rc-$'] for _ in range(rng.randint(1, 2))]
    if nested and rng.random() < 0.2:
        d['body'] = gen_ret(rng, False)
    return d


def gen_ret(rng, nested=True, default_app=False, inner=True):
    k = rng.randrange(20)
    if k < 4:
        return ['str', 'ok $']
    if k == 4:
        return ['bytes', 'ok $']
    if k == 5:
        return rng.choice([['none'], ['str', ''], ['list', []]])
    if k in (6, 7):
        items = []
        for _ in range(rng.randint(1, 4)):
            r = rng.random()
            if r < 0.25 and inner:
                items.append(rng.choice([gen_read(rng), gen_write(rng)]))
            else:
                items.append(rng.choice(['i-$', '$', '', 'long ' * rng.randint(1, 5) + '$']))
        if inner and rng.random() < 0.12:
            items.append(['crash', 'gen $'])
        return ['gen', items, rng.random() < 0.5]
    if k == 8:
        return ['list', ['l-$', '$'], rng.random() < 0.5]
    if k == 9:
        return ['file', 'file content $ ' * rng.randint(1, 3)]
    if not nested:
        return ['str', 'ok $']
    if k in (10, 11):
        return ['resp', gen_resp(rng)]
    if k in (12, 13):
        return ['raise', gen_resp(rng)]
    if k == 14:
        return [rng.choice(['err', 'raise_err']), gen_resp(rng, False)]
    if k == 15:
        return ['yieldresp', gen_resp(rng, False)]
    if k == 16:
        return ['echo']
    if k == 17:
        return rng.choice([['shared', 0], ['shared', 1], ['shared_err', 404], ['shared_err', 500]])
    if k == 18:
        return rng.choice([['badtype'], ['self']])
    return ['redirect', '/to/$'] if default_app else ['echo']


def gen_ops(rng, lo=1, hi=7, body=True):
    ops = []
    for _ in range(rng.randint(lo, hi)):
        r = rng.random()
        if r < 0.42:
            ops.append(gen_read(rng))
        elif r < 0.55 and body:
            ops.append(gen_bodyread(rng))
        elif r < 0.93:
            ops.append(gen_write(rng))
        elif r < 0.95:
            ops.append(['crash', 'boom $'])
        elif r < 0.97:
            ops.append(['abort', rng.choice([400, 403, 404, 500, 503]), 'aborted $'])
        else:
            ops.append(['pt', rng.randint(1, 4)])
    return ops


def gen_body(rng):
    k = draw.pick(rng, (5, 'none'), (2, 'raw'), (4, 'form'), (2, 'json'), (3, 'mp'), (2, 'chunk'),
                  (1, 'badjson'), (1, 'badmp'), (1, 'badchunk'), (1, 'short'))
    return [k, rng.randint(0, 40)]


def gen_req(rng, tok, default_app=False, faults=False):
    body = gen_body(rng)
    s = dict(tok=tok, method='GET' if body[0] == 'none' and rng.random() < 0.8 else rng.choice(['POST', 'PUT', 'POST', 'GET']),
             path=draw.pick(rng, (9, 'h'), (2, 'hx'), (2, 'int'), (2, 'rest'), (1.5, 'rex'), (1, 'rexsel'), (1, 'lb'), (1, 'lb2'), (0.5, 'lit'), (1, 'lb3'), (2, 'only'), (2, 'miss'), (1, 'part'), (1, 'root'), (1.5, 'bad')),
             query=rng.choice(['', 'a=$', 'a=$&b=2', 'tok=$&tok=x', 'a=%3Cb%3E$']).replace('$', tok), body=body)
    if rng.random() < 0.06:
        s['method'] = rng.choice(['HEAD', 'OPTIONS', 'DELETE'])
    if rng.random() < 0.5:
        s['hdrs'] = [[rng.choice(HDRS), 'h-' + tok] for _ in range(rng.randint(1, 2))]
    if rng.random() < 0.15:
        s.setdefault('hdrs', []).append(rng.choice([
            ['Authorization', 'Basic dXNlcjo='], ['X-Forwarded-For', '10.0.0.%d' % rng.randint(1, 9)], ['X-Requested-With', 'XMLHttpRequest'],
            ['X-Forwarded-Proto', 'https'], ['X-Forwarded-Host', tok + '.fwd']]))
    if rng.random() < 0.4:
        s['cookies'] = [[rng.choice(NAMES), 'k-' + tok] for _ in range(rng.randint(1, 2))]
    if rng.random() < 0.25:
        # texts that other requests carry as well
        s['btok'] = 'same'
        s['query'] = s['query'].replace(tok, 'same')
        for pairs in (s.get('cookies') or [], s.get('hdrs') or []):
            for kv in pairs:
                kv[1] = kv[1].replace(tok, 'same')
    if rng.random() < 0.25:
        s['json'] = 1
    if rng.random() < 0.5:
        s['host'] = tok + '.sim'
    if body[0] != 'none' and rng.random() < 0.4:
        s['frag'] = [rng.randint(1, 9) for _ in range(rng.randint(1, 3))]
    if faults and body[0] != 'none' and rng.random() < 0.12:
        s['fail'] = [rng.randint(0, 20), rng.choice(['reset', 'timeout', 'oserror'])]
    if faults and rng.random() < 0.08:
        s['abort'] = rng.randint(0, 2)
    if rng.random() < 0.15:
        s['wrapper'] = 1
    if rng.random() < 0.06:
        s['empty'] = 1
    if rng.random() < 0.06:
        s['bare'] = 1
    if body[0] not in ('none',) and rng.random() < 0.85:
        ops = gen_ops(rng, 0, 4) + [gen_bodyread(rng)] + gen_ops(rng, 0, 4)
    else:
        ops = gen_ops(rng, 1, 7)
    s['h'] = dict(ops=ops, ret=gen_ret(rng, True, default_app))
    return s


def gen_errh(rng):
    ops = []
    for _ in range(rng.randint(0, 4)):
        ops.append(rng.choice([['err_set', rng.choice(RHDRS), 'e-$'], ['err_append', rng.choice(RHDRS), 'ea-$'], ['err_get', rng.choice(RHDRS)],
                               ['err_list'], ['err_body', 'eb-$'], ['err_cookie', rng.choice(NAMES), 'ec-$'],
                               ['append', rng.choice(RHDRS), 'er-$'], ['setcookie', rng.choice(NAMES), 'erc-$'], ['set', rng.choice(RHDRS), 'es-$'],
                               ['status', 599], ['path'], ['url'], ['rhdrs'], ['status_get'], ['crash', 'in the error handler $']]))
    return dict(ops=ops, ret=rng.choice([['str', 'page $'], ['echo'], ['bytes', 'page $'], ['none'], ['gen', ['p-$', 'q'], False], ['list', ['x$'], True]]))


def gen_app(rng, default=False):
    c = {}
    if default:
        c['default'] = 1
    if rng.random() < 0.4:
        c['mem'] = rng.choice([8, 20, 40, 100, 400, 1000])
    if rng.random() < 0.3:
        c['max'] = rng.choice([5, 60, 300, 1000])
    if rng.random() < 0.2:
        c['debug'] = 1
    if rng.random() < 0.45:
        c['before'] = [gen_ops(rng, 0, 3, False) for _ in range(rng.randint(1, 2))]
    if rng.random() < 0.45:
        c['after'] = [gen_ops(rng, 0, 3, False) for _ in range(rng.randint(1, 2))]
    for ph in ('before', 'after'):
        for ops in c.get(ph) or []:
            # a hook that fails every request would leave nothing to look at
            if rng.random() < 0.8:
                ops[:] = [o for o in ops if o[0] not in ('crash', 'abort', 'urlargs') and o != ['mut', 'url_args']]
    if rng.random() < 0.4:
        c['errh'] = [[code, gen_errh(rng)] for code in rng.sample([400, 404, 405, 413, 500, 418], rng.randint(1, 4))]
    if rng.random() < 0.3:
        c['rhook'] = 1
    if rng.random() < 0.2:
        c['part'] = 1
    if rng.random() < 0.2:
        c['setup'] = 1
    if rng.random() < 0.2:
        c['emap'] = [[n, rng.choice([400, 409, 413, 422]), 'mapped %s' % n] for n in rng.sample(ERRORS, rng.randint(1, 3))]
    return c


def share(rng, app, specs):
    """some of the requests are answered with the same response object of the application, and its error handlers build on it"""
    what = rng.choice([['shared', 0], ['shared', 1], ['shared_err', 404], ['shared_err', 500], ['shared_err', 500]])
    for q in specs:
        if rng.random() < 0.8:
            q['h'] = dict(q['h'], ret=list(what))
            if q.get('path') in ('miss', 'only', 'bad', 'part'):
                q['path'] = 'h'
    if what[0] == 'shared_err' and rng.random() < 0.8:
        h = gen_errh(rng)
        h['ops'] += [rng.choice([['setcookie', rng.choice(NAMES), 'erc-$'], ['append', 'X-Shared', 'er-$'], ['append', rng.choice(RHDRS), 'er-$'],
                                 ['set', rng.choice(RHDRS), 'es-$'], ['rbody', 'rb-$'], ['status', 599]]) for _ in range(rng.randint(1, 3))]
        app['errh'] = [e for e in app.get('errh') or [] if e[0] != what[1]] + [[what[1], h]]
