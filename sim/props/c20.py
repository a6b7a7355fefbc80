"""C20  Error pages of the framework never reflect request data unescaped."""
import html.parser
import html
import json
import re
import sys
import urllib.parse

from .. import draw, world, wsgi, core, sched, chunked
from ..stream import SimInput, PlanError

PROP = 'C20'
RUNS = {'quick': 9000, 'thorough': 110000}
RULE = ('one run = one application with debug off, serving 1-5 requests (on one thread, or on two under a seeded schedule) that all end in an error page of the '
        'framework: 404, 405, 400 (undecodable path, malformed JSON or chunk framing), 413, 500 (crash in handler, hook, iterator, unsupported type, endless '
        'response chain), static file errors, and the last-resort page (crashing error handler, unknown charset, unreadable template). Path, query string, Host, '
        'X-Forwarded-* and script name carry markup, quotes, entities, percent escapes and format-string syntax between unique markers; HTML or JSON is asked for. '
        'Non-trivial: some hostile text actually shows in a page.')
TIME_UNIT = 'requests served (scheduler steps in two-thread runs)'
STATES = 'distinct (error kind, rendering, hostile token shown, source it came from, form it took)'
REAL = ['ombott (whole package)', 'html.parser and json of CPython as judges']
STUB = ['WSGI server and clients', 'opening of the page template (fails when the plan says so)', 'thread scheduler in two-thread runs']
PROBES = ['html page', 'json page', 'last-resort page', 'last-resort page as JSON', 'template unreadable', 'hostile path shown', 'hostile query shown', 'hostile host shown',
          'format syntax shown', 'two threads', 'page after a failed page', 'debug switched off late', 'exception text carries request data', 'HEAD']
ASSUMPTIONS = ['text of exceptions raised by application code may show in JSON (as JSON text, application/json); in HTML it has to be escaped or withheld']

TOKENS = ['<script>alert(1)</script>', '<', '>', '"', "'", '&', '&lt;', '&#60;', '&amp;', '{0}', '{}', '{e}', '{url}', '{e.status}', '{e.__class__}', '{url!r}',
          '{', '}', '{{', '}}', '%s', '%d', '%(x)s', '%', '%3Cb%3E', '%253Cb%253E', '%22', '%27', '$url', '</pre>', '</tt>', '<!--', '-->', '</title>', '<style', '</style',
          '<style>', "'>", '">', "' onload='x", '" onload="x', '\\', '\\x3c', '\\u003c', '\x00', '\x01', '\n', '\r\n', '\t', '\u00e9', '\u2028', '\uff1c', '\u20ac',
          '<b', '</', ';', ':', '//', '?', '#', '@', '[', ']', ' ', '`', '<![CDATA[', ']]>', '<?x', '\x7f', '\x85', '{exception}', '{traceback}', '..', '/../', '\u0130<', 'a"b\'c<d>e&f',
          '<svg/onload=x>', '+ADw-b+AD4-', '"}', '",', '\\"', '{"a":1}', "\\'"]
FMT = re.compile(r'^[{}%$][A-Za-z0-9_.!{}()$%]*$')
SRC = ['path', 'query', 'host', 'fhost', 'proto', 'xscript', 'script']
KINDS = ['404', '404', '405', 'badpath', 'badjson', 'badchunk', 'badmp', '413', 'crash', 'crash', 'crashreq', 'crashkey', 'hook', 'after', 'unsupported', 'itercrash', 'loop', 'abort404',
         'static404', 'static403', 'errhandler', 'errhandlerreq', 'charset', 'attr', 'first', 'bodyjson', 'encode']
LAST = ('errhandler', 'errhandlerreq')
CARRY = ('crashreq', 'crashkey', 'errhandlerreq', 'attr', 'first', 'bodyjson', 'encode')


def gen_text(rng, n=None):
    return [rng.choice(TOKENS) for _ in range(n or rng.choice([1, 1, 2, 3]))]


def gen_req(rng):
    src = {}
    for s in SRC:
        if rng.random() < dict(path=0.75, query=0.6, host=0.3, fhost=0.12, proto=0.1, xscript=0.1, script=0.1)[s]:
            src[s] = gen_text(rng)
    if not src:
        src['path'] = gen_text(rng)
    return dict(kind=rng.choice(KINDS), src=src, lead=draw.pick(rng, (6, ''), (1, '/'), (1, '//'), (1, 'http://['), (1, 'http://h/'), (1, 'x:'), (1, '[')),
                accept=draw.pick(rng, (4, None), (2, 'text/html'), (4, 'application/json'), (1, 'application/json, text/plain, */*'), (1, '*/*'), (1, 'text/html,application/json')),
                method=draw.pick(rng, (8, 'GET'), (1, 'HEAD'), (2, 'POST'), (1, 'get')), ctype=draw.pick(rng, (5, None), (1, 'text/html'), (1, 'application/json'), (1, 'text/plain')))


def gen(rng, tier):
    n = rng.choice([1, 1, 2, 2, 3, 4, 5])
    p = dict(reqs=[gen_req(rng) for _ in range(n)], fault=None, mode=None, gran='line', conf=draw.pick(rng, (6, 'plain'), (1, 'domain'), (1, 'xscript'), (1, 'late'), (1, 'errmap')))
    if rng.random() < 0.2:
        p['fault'] = [rng.randint(0, 2), rng.choice(['EIO', 'EMFILE', 'ENOENT', 'EACCES'])]
    if n > 1 and rng.random() < 0.15:
        p['mode'] = sched.gen_mode(rng, 2)
        p['gran'] = 'ins' if rng.random() < 0.3 else 'line'
        p['fault'] = None
    return p


def valid(p):
    return bool(p['reqs']) and all(q and q['kind'] in KINDS and isinstance(q['src'], dict) and q['method'] in ('GET', 'HEAD', 'POST', 'get')
                                   and all(isinstance(t, str) for s in q['src'].values() for t in s or ()) for q in p['reqs']) \
        and p['conf'] in ('plain', 'domain', 'xscript', 'late', 'errmap') and p['gran'] in ('line', 'ins')


# ------------------------------------------------------------------ fault: the template cannot be opened
_fault = None       # [opens still let through, errno name] or None
_hooked = False


def _audit(event, args):
    if _fault is None or event != 'open':
        return
    f = args[0]
    if isinstance(f, str) and f.startswith(world.REPO) and f.endswith('.html'):
        import errno
        import os
        _fault[2] += 1
        if _fault[0] <= 0:
            _fault[3] += 1
            _fault[0] = 1 << 30
            e = getattr(errno, _fault[1])
            raise OSError(e, os.strerror(e), f)
        _fault[0] -= 1


# ------------------------------------------------------------------ the application
class Weird(Exception):
    def __repr__(self):
        raise ValueError(self.args)
    __str__ = __repr__


def build(ombott, plan):
    app = ombott.default_app()
    conf = dict(max_memfile_size=64, max_body_size=200)
    if plan['conf'] == 'domain':
        conf.update(domain_map=lambda host: 'site', app_name_header='HTTP_X_OMBOTT_APP')
    elif plan['conf'] == 'xscript':
        conf.update(allow_x_script_name=True)
    elif plan['conf'] == 'errmap':
        # without the map the errors of the request layer are ordinary exceptions
        conf.update(errors_map={})
    if plan['conf'] == 'late':
        app.setup(dict(conf, debug=True))
        call(app, dict(kind='404', src={'path': ['x']}, lead='', accept=None, method='GET', ctype=None), 'warm')
    app.setup(conf)
    from ombott.static_stream import static_file
    pre = '/site' if plan['conf'] == 'domain' else ''

    def add(name, fn, method='ANY'):
        app.route('%s/%s/<x:path>' % (pre, name), method=method, callback=fn)
    req, resp = app.request, app.response

    def ct():
        c = req.get('sim.ctype')
        if c:
            resp.content_type = c

    add('w405', lambda x: 'x', 'DELETE')

    def crash(x):
        ct()
        raise RuntimeError('static text')

    def crashreq(x):
        ct()
        raise ValueError('bad value %s in %s' % (req.query_string, req.url))

    def crashkey(x):
        ct()
        return {}[x]

    def attr(x):
        return getattr(req, x)

    def unsupported(x):
        ct()
        return [object]

    def itercrash(x):
        ct()

        def g():
            if x:
                raise RuntimeError(x)
            yield 'a'
        return g()

    def loop(x):
        r = ombott.HTTPResponse('x')
        r.body = r
        return r

    def charset(x):
        resp.content_type = 'text/html; charset=no-such-charset'
        return 'text'

    def encode(x):
        resp.content_type = 'text/html; charset=ascii'
        return [x + '\u20ac']

    def first(x):
        def g():
            raise ombott.HTTPError(500, 'static', Weird(x))
            yield 'a'
        return g()

    def bodyjson(x):
        raise ombott.HTTPError(500, b'static', Weird(x))
    add('crash', crash)
    add('crashreq', crashreq)
    add('crashkey', crashkey)
    add('attr', attr)
    add('unsupported', unsupported)
    add('itercrash', itercrash)
    add('loop', loop)
    add('charset', charset)
    add('encode', encode)
    add('first', first)
    add('bodyjson', bodyjson)
    add('abort404', lambda x: ombott.abort(404, 'static text'))
    add('static404', lambda x: static_file(x, '/nonexistent-sim-root'))
    add('static403', lambda x: static_file('/../../' + x, '/nonexistent-sim-root/sub'))
    add('json', lambda x: repr(req.json))
    add('body', lambda x: req.body.read())
    add('forms', lambda x: repr(dict(req.POST)))
    add('plain', lambda x: 'fine')
    add('eh', lambda x: ombott.abort(418, 'static'))
    add('ehr', lambda x: ombott.abort(424, 'static'))

    @app.error(418)
    def eh(res):
        raise RuntimeError('static text')

    @app.error(424)
    def ehr(res):
        raise RuntimeError(req.url)

    @app.on('before_request')
    def before():
        if req.get('sim.hook') == 'before':
            raise RuntimeError(req.url)

    @app.on('after_request')
    def after():
        if req.get('sim.hook') == 'after':
            raise RuntimeError(req.url)
    return app


ROUTE = {'404': 'nowhere', '405': 'w405', 'badpath': 'nowhere', 'badjson': 'json', 'badchunk': 'body', 'badmp': 'forms', '413': 'body', 'hook': 'plain', 'after': 'plain', 'errhandler': 'eh',
         'errhandlerreq': 'ehr'}


def weave(tokens, tag):
    """tokens between unique markers"""
    out = ['zq%s0q' % tag]
    for i, t in enumerate(tokens or ()):
        out += [t, 'zq%s%dq' % (tag, i + 1)]
    return ''.join(out)


TAGS = dict(path='p', query='u', host='h', fhost='f', proto='o', xscript='x', script='s')


def make_env(q, tag, errors=None):
    """tag makes the markers of every request unique"""
    kind, src = q['kind'], q['src']
    text = {s: weave(src[s], '%s%sn' % (TAGS[s], tag)) for s in SRC if src.get(s) is not None}
    path = '/%s/%s' % (ROUTE.get(kind, kind), text.get('path', 'x'))
    if kind == '404':
        path = '/' + (q['lead'] or '') + path[1:]
    raw = path.encode('utf8')
    if kind == 'badpath':
        raw += b'\xff<b>\xfe'
    hd = []
    inp, extra, ctype, cl = None, {}, None, None
    if kind == 'badjson':
        data = ('{"a": "%s"' % text.get('query', '')).encode('utf8')[:60]
        inp, ctype, cl = SimInput(data), 'application/json', len(data)
    elif kind == 'badchunk':
        inp = SimInput(b'zz<b>\r\nabc\r\n0\r\n\r\n')
        hd.append(('Transfer-Encoding', 'chunked'))
    elif kind == 'badmp':
        data = b'--b\r\nno colon <b>\r\n\r\nx\r\n--b--'
        inp, ctype, cl = SimInput(data), 'multipart/form-data; boundary=b', len(data)
    elif kind == '413':
        data = b'<b>' * 100
        inp, cl = SimInput(data), len(data)
    if kind in ('hook', 'after'):
        extra['sim.hook'] = 'before' if kind == 'hook' else 'after'
    if q['ctype']:
        extra['sim.ctype'] = q['ctype']
    if 'fhost' in text:
        hd.append(('X-Forwarded-Host', text['fhost']))
    if 'proto' in text:
        hd.append(('X-Forwarded-Proto', text['proto']))
    if 'xscript' in text:
        hd.append(('X-Script-Name', text['xscript']))
    if q['accept'] is not None:
        hd.append(('Accept', q['accept']))
    nat = lambda s: s.encode('utf8').decode('latin1')
    env = wsgi.make_environ(q['method'], raw.decode('latin1').encode('latin1'), query=nat(text.get('query', '')), headers=[(k, nat(v)) for k, v in hd],
                            host=nat(text['host']) if 'host' in text else 'sim.test', inp=inp, content_type=ctype, content_length=cl, extra=extra)
    if 'script' in text:
        env['SCRIPT_NAME'] = '/' + nat(text['script'])
    return env


def call(app, q, tag):
    ex = wsgi.call(app, make_env(q, tag), max_chunks=1000)
    return ex


# ------------------------------------------------------------------ judging a page
class Structure(html.parser.HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.out = []

    def handle_starttag(self, tag, attrs):
        self.out.append(('<', tag, tuple(k for k, v in attrs)))

    def handle_startendtag(self, tag, attrs):
        self.out.append(('</>', tag, tuple(k for k, v in attrs)))

    def handle_endtag(self, tag):
        self.out.append(('/', tag))

    def handle_comment(self, data):
        self.out.append(('!--',))

    def handle_decl(self, d):
        self.out.append(('!', d))

    def handle_pi(self, d):
        self.out.append(('?',))

    def unknown_decl(self, d):
        self.out.append(('![',))


def structure(text):
    p = Structure()
    p.feed(text)
    p.close()
    return p.out


MARK = re.compile(r'zq([a-z][a-z0-9]*n)([0-9]+)q')
ENTITY = re.compile(r'&(?:[a-zA-Z][a-zA-Z0-9]*|#[0-9]+|#[xX][0-9a-fA-F]+);')


def shown(text, q, tag):
    """(source, token, text the page shows for it) for every token of the request"""
    by = {'%s%sn' % (TAGS[s], tag): s for s in SRC if q['src'].get(s) is not None}
    ms = list(MARK.finditer(text))
    out = []
    for a, b in zip(ms, ms[1:]):
        if a.group(1) != b.group(1) or int(b.group(2)) != int(a.group(2)) + 1 or a.group(1) not in by:
            continue
        s = by[a.group(1)]
        toks = q['src'][s] or []
        if int(a.group(2)) < len(toks):
            out.append((s, toks[int(a.group(2))], text[a.end():b.start()]))
    return out


def check_escaped(r, what, text, q, tag, markup):
    """Every piece of request text in the page is there in escaped form only."""
    n = 0
    for s, tok, seen in shown(text, q, tag):
        n += 1
        if markup:
            bad = [c for c in '<>"\'' if c in seen]
            if bad:
                r.fail('unescaped', '%s: %s of the request shows unescaped: %r (sent %r)' % (what, s, seen, tok))
            if '&' in ENTITY.sub('', seen):
                r.fail('unescaped', '%s: %s of the request shows with a bare ampersand: %r (sent %r)' % (what, s, seen, tok))
            if seen == tok and '&' in tok:
                r.fail('unescaped', '%s: entity from the %s of the request is passed through: %r' % (what, s, seen))
        form = 'raw' if seen == tok else 'percent' if '%' in seen and '%' not in tok else 'entity' if '&' in seen else 'other'
        if FMT.match(tok):
            un = html.unescape(seen)
            if tok not in (un, urllib.parse.unquote(un), un.replace('\\\\', '\\')):
                r.fail('format', '%s: format syntax from the %s of the request is interpreted: %r became %r' % (what, s, tok, seen))
            r.probe('format syntax shown')
        r.probe('hostile path shown', s == 'path')
        r.probe('hostile query shown', s == 'query')
        r.probe('hostile host shown', s in ('host', 'fhost'))
        r.nontrivial = True
        r.states.append((q['kind'], 'html' if markup else 'json', tok, s, form))
    return n


def judge(r, ex, q, tag, what, conf, benign, foreign=()):
    if ex.stopped:
        r.fail('hang', '%s: %s' % (what, ex.stopped))
    if ex.escaped:
        r.fail('escaped', '%s: %r left the application' % (what, ex.escaped))
    if ex.iter_error:
        r.fail('escaped', '%s: %r while the page was sent' % (what, ex.iter_error))
    if ex.code is None:
        r.fail('no-answer', '%s: %s' % (what, ex.brief()))
    if q['method'] == 'HEAD':
        r.probe('HEAD')
        return
    if ex.code < 400:
        return                   # not an error response
    for k, v in ex.headers:
        if '\n' in v or '\r' in v:
            r.fail('header', '%s: header %r: %r' % (what, k, v))
    ctype = (ex.header('Content-Type') or '').split(';')[0].strip().lower()
    asked = (q['accept'] or '').startswith('application/json')
    doc = None
    m = re.search(r'charset=([^;\s]+)', ex.header('Content-Type') or '', re.I)
    try:
        text = ex.body.decode(m.group(1).strip('"') if m else 'utf8')
    except (LookupError, UnicodeError):
        text = ex.body.decode('utf8', 'backslashreplace')
    if asked or ctype == 'application/json':
        try:
            doc = json.loads(text, parse_constant=lambda c: int('no'))
        except ValueError as e:
            doc = e
    if asked:
        if isinstance(doc, ValueError):
            r.fail('json', '%s: JSON was requested, the body is no JSON (%s): %s %r' % (what, doc, ex.header('Content-Type'), text[:300]))
        if ctype != 'application/json' and not ctype.endswith('+json'):
            r.fail('json', '%s: JSON was requested, the body is declared as %r' % (what, ex.header('Content-Type')))
        r.probe('json page')
        r.probe('last-resort page as JSON', q['kind'] in LAST)
        if q['kind'] not in CARRY and q['kind'] not in ('hook', 'after', 'itercrash', 'badjson') and conf != 'errmap':
            for s in strings(doc):
                check_escaped(r, what, s, q, tag, True)
        return
    if isinstance(doc, (dict, list)):
        return
    r.probe('html page')
    r.probe('last-resort page', q['kind'] in LAST or 'Critical' in text)
    r.probe('exception text carries request data', q['kind'] in CARRY)
    check_escaped(r, what, text, q, tag, True)
    for o, otag in foreign:
        check_escaped(r, what, text, o, otag, True)
    if benign is not None:
        got = structure(text)
        if got not in benign:
            benign = benign[0]
            i = next((i for i, (a, b) in enumerate(zip(got, benign)) if a != b), min(len(got), len(benign)))
            r.fail('structure', '%s: the page does not have the elements it has for a harmless request: element %d is %r, not %r\n%s' % (
                what, i, got[i] if i < len(got) else None, benign[i] if i < len(benign) else None, text[-500:]))


def strings(doc):
    if isinstance(doc, str):
        yield doc
    elif isinstance(doc, dict):
        for k, v in doc.items():
            yield from strings(k)
            yield from strings(v)
    elif isinstance(doc, list):
        for v in doc:
            yield from strings(v)


def harmless(q):
    return dict(q, src={s: ['ok'] for s in q['src']}, lead='')


def describe(plan, i, q):
    return 'request %d (%s %s%s, %s, %s)' % (i, q['method'], q['kind'], ', Accept %s' % q['accept'] if q['accept'] else '', plan['conf'],
                                           ', '.join('%s %r' % (s, ''.join(t or ())) for s, t in sorted(q['src'].items())))


_pages = {}


def page(plan, q):
    """elements of the page for a harmless request of this kind, from a fresh application (a pure function of these)"""
    key = (plan['conf'], q['kind'], q['accept'], q['method'], q['ctype'], tuple(sorted(q['src'])))
    if key not in _pages:
        _pages[key] = make_page(plan, q)
    return _pages[key]


def make_page(plan, q):
    ombott = world.fresh()
    app = build(ombott, plan)
    ex = call(app, harmless(q), 'b')
    if ex.escaped or ex.stopped or ex.code is None or ex.code < 400:
        return None, ex.code
    ctype = (ex.header('Content-Type') or '').lower()
    try:
        m = re.search(r'charset=([^;\s]+)', ctype)
        text = ex.body.decode(m.group(1) if m else 'utf8')
    except (LookupError, UnicodeError):
        return None, ex.code
    try:
        json.loads(text)
        return None, ex.code
    except ValueError:
        return structure(text), ex.code


def run(plan, r):
    global _fault, _hooked
    if not valid(plan):
        raise PlanError('shape')
    # a rule may not match the hostile path: the plain 404 page is as good, and so is the last-resort page
    common = [page(plan, dict(kind=k, src={'path': ['ok']}, lead='', accept=None, method='GET', ctype=None))[0] for k in ('404', 'errhandler')]
    expect = []
    for q in plan['reqs']:
        own = page(plan, dict(q, lead=''))[0]
        expect.append([x for x in [own] + common if x])
    ombott = world.fresh()
    app = build(ombott, plan)
    if plan['conf'] == 'late':
        r.probe('debug switched off late')
    exs = [None] * len(plan['reqs'])
    if plan['mode'] and len(plan['reqs']) > 1:
        half = len(plan['reqs']) // 2
        parts = [list(range(half)), list(range(half, len(plan['reqs'])))]

        def client(ids):
            def go():
                for i in ids:
                    exs[i] = call(app, plan['reqs'][i], 'r%d' % i)
            return go
        with sched.locks():
            s0 = [2000, 2000]
            s = sched.Sched([client(x) for x in parts], sched.resolve(plan['mode'], s0), plan['gran']).run()
        for e in s.errors:
            if e:
                raise e
        r.simtime += s.total
        r.fault('preemption', len(s.switches))
        r.probe('two threads')
    else:
        if plan['fault']:
            if not _hooked:
                _hooked = True
                sys.addaudithook(_audit)
            _fault = [plan['fault'][0] or 0, plan['fault'][1] or 'EIO', 0, 0]
        try:
            for i, q in enumerate(plan['reqs']):
                before = _fault[3] if _fault else 0
                exs[i] = call(app, q, 'r%d' % i)
                if _fault and _fault[3] > before:
                    r.fault('page template cannot be opened (%s)' % _fault[1])
                    r.probe('template unreadable')
                    expect[i] = None
        finally:
            _fault = None
        r.simtime += len(plan['reqs'])
    failed = False
    for i, (q, ex) in enumerate(zip(plan['reqs'], exs)):
        r.probe('page after a failed page', failed)
        failed = failed or q['kind'] in LAST or ex.code == 500
        what = describe(plan, i, q)
        judge(r, ex, q, 'r%d' % i, what, plan['conf'], expect[i], [(o, 'r%d' % j) for j, o in enumerate(plan['reqs']) if j != i])
        r.note(i, q['kind'], ex.status, ex.header('Content-Type'), ex.body)
