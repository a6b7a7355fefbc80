"""C05  Chunked transfer decoding is exact and rejects every truncation."""
import json
import urllib.parse

from .. import draw, world, wsgi, body, core, chunked
from ..stream import SimStop

PROP = 'C05'
RUNS = {'quick': 24000, 'thorough': 450000}
RULE = ('one run = one chunked request (0-6 chunks, any hex case / leading zeros / extensions / trailers, several buffer '
        'sizes, or hundreds of them, or long extensions, optionally a contradicting Content-Length) sent over a PRNG-fragmented connection to a fresh app, either '
        'intact or hit by one transport fault: cut at an arbitrary byte, CRLF after a chunk damaged, byte flipped, inserted, '
        'dropped or duplicated, segment lost or duplicated, read error, or a garbage stream. '
        'Non-trivial: a fault fired or a short read happened in a message with at least one chunk.')
STATES = 'distinct (fault, decoder verdict of the reference, position class of the fault, number of reads mod 64, status, access)'
PROBES = ['cut inside size line', 'cut inside data', 'cut inside CRLF', 'cut at chunk border', 'segment border inside the CRLF after a chunk',
          'short read inside data', 'Content-Length contradicts', 'second access after rejection', 'trailers', 'size line longer than buffer',
          'chunk larger than buffer', 'body spilled to disk', 'hundreds of chunks', 'chunk headers longer than 4096 in total', 'garbage accepted', 'reference rejects', 'reference accepts damaged stream']
REAL = ['Ombott', 'Request/BodyMixin (_iter_chunked, _body_read, forms, json)', 'error mapping to responses']
STUB = ['WSGI server', 'connection (wsgi.input)', 'spool disk', 'handler programs']
ASSUMPTIONS = ['reference decoder: RFC 9112 chunked grammar, extensions are anything without CR or LF; what it calls a malformed '
               'size line may be accepted or refused', 'size lines longer than max(buffer, 4096) are not generated',
               'a cut inside the zero-size chunk line or behind it may be accepted or refused']

EXT = ['', '', '', ';a', ';name=value', ';q="x y"', '; foo = bar', ';a=1;b=2', ';', ';' + 'x' * 40, ' ', '\t', ' ;z', ';0\t', ';a=;;;=']


def gen(rng, tier):
    mem = draw.pick(rng, (2, rng.randint(1, 8)), (4, rng.randint(9, 64)), (3, rng.randint(65, 700)), (1, 8192), (1, 102400))
    kind = draw.pick(rng, (6, 'raw'), (2, 'form'), (1, 'json'))
    spec, payload = None, None
    nch = rng.choice([0, 1, 1, 2, 2, 3, 4, 6])
    many = rng.random() < 0.008 and kind == 'raw'
    if many:  # a body of thousands of tiny chunks, or of dozens with long extensions
        sizes = [rng.randint(1, 3) for _ in range(rng.choice([rng.randint(900, 2500), rng.randint(8, 60)]))]
        spec = draw.blobspec(rng, sum(sizes))
    elif kind == 'raw':
        sizes = []
        for _ in range(nch):
            sizes.append(max(1, rng.choice([rng.randint(1, 5), rng.randint(1, 40), mem * rng.randint(1, 3) + rng.randint(-2, 2),
                                            rng.choice([15, 16, 17, 255, 256, 257])])))
            sizes[-1] = min(sizes[-1], 3000 if mem < 8192 else 220000)
        spec = draw.blobspec(rng, sum(sizes))
    else:
        if kind == 'form':
            payload = urllib.parse.urlencode([(draw.text(rng, 'abcé', 1, 3) + str(i), draw.text(rng, 'xyz &=+%\r\n0', 0, 9))
                                              for i in range(rng.randint(1, 4))])
        else:
            payload = json.dumps({draw.text(rng, 'ab', 1, 3): draw.text(rng, 'xyz0', 0, 9) for _ in range(rng.randint(0, 4))})
        mem = max(mem, len(payload))
        sizes, left = [], len(payload)
        while left:
            n = rng.randint(1, left)
            sizes.append(n)
            left -= n
    opts = [dict(upper=rng.random() < 0.5, zeros=rng.choice([0, 0, 0, 1, 3, 8]),
                 ext=(';' + 'e' * rng.randint(100, 1500)) if rng.random() < 0.01 else rng.choice(EXT)) for _ in range(min(len(sizes), 60) + 1)]
    if many and len(sizes) <= 60:
        for o in opts:
            o['ext'] = ';' + 'e' * rng.randint(300, 2500)
    trailers = draw.pick(rng, (4, '\r\n'), (1, 'X-T: 1\r\n\r\n'), (1, 'A: b\r\nC: d\r\n\r\n'), (1, ''))
    plan = dict(mem=mem, kind=kind, sizes=sizes, spec=spec, payload=payload, opts=opts, trailers=trailers,
                te=draw.pick(rng, (6, 'chunked'), (1, 'Chunked'), (1, 'gzip, chunked'), (1, 'CHUNKED')),
                cl=draw.pick(rng, (5, None), (1, ''), (1, 0), (1, rng.randint(1, 30)), (1, sum(sizes))),
                op=rng.choice(body.ACCESS), sizes2=[rng.randint(1, 20)], again=rng.random() < 0.4, disk=body.disk_gen(rng, 0.04))
    enc, spans = chunked.encode([b'x' * n for n in sizes], opts)
    hot = [x for s in (spans if len(spans) < 100 else rng.sample(spans, 20) + spans[-1:]) for x in s]
    total = len(enc) + len(trailers)
    f = draw.pick(rng, (5, None), (4, 'cut'), (3, 'crlf'), (1, 'flip'), (1, 'insert'), (1, 'drop'), (1, 'dup'), (1, 'lose'), (1, 'garbage'))
    fault = None
    near = lambda: max(0, min(total - 1, rng.choice(hot or [0]) + rng.randint(-2, 2))) if rng.random() < 0.6 else rng.randrange(max(1, total))
    if f == 'cut':
        fault = ['cut', near()]
    elif f == 'crlf' and sizes:
        fault = ['crlf', rng.randrange(len(sizes)), rng.choice(['', '\n', '\r', '\n\r', 'ab', '\r\r', '\n\n', '\ra', 'a\n', 'X\r\n', '\r\r\n', '0\r\n', '\x00\x00'])]
    elif f == 'flip':
        fault = ['flip', near(), rng.randint(1, 255)]
    elif f == 'insert':
        fault = ['insert', near(), draw.text(rng, '\r\n0;aFg -', 1, 3)]
    elif f in ('drop', 'lose'):
        fault = ['drop', near(), 1 if f == 'drop' else rng.randint(1, 20)]
    elif f == 'dup':
        fault = ['dup', near(), rng.randint(1, 12)]
    elif f == 'garbage':
        fault = ['garbage', draw.text(rng, ['\r\n', '\r', '\n', '0', '5', 'f', ';', ' ', '-', '+', 'x', '0x', '_', '\xff', '\x00', 'abc', '\u00b2'.encode().decode('latin1')], 0, 25)]
    plan['fault'] = fault
    c = body.conn_gen(rng, total, hot, hi=max([s[1] for s in spans] or [0]))
    if fault and fault[0] in ('cut', 'garbage', 'flip', 'insert', 'drop', 'dup', 'crlf'):
        c['end'] = 'eof'
    if not trailers:
        c['end'] = 'eof'
    if total > 20000 and c['frag'] and not many:
        c['frag'] = [x and x * 300 + 11 for x in c['frag']]
    plan['conn'] = c
    return plan


def valid(plan):
    if not isinstance(plan['te'], str) or 'chunked' not in plan['te'].lower():
        return False
    if plan['kind'] == 'form' and (not plan['payload'] or set(plan['payload']) - set(
            'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789%=&+')):
        return False
    if plan['conn'].get('end') == 'block' and (not plan['trailers'] or not plan['trailers'].endswith('\r\n')
                                               or plan['trailers'] != '\r\n' and not plan['trailers'].endswith('\r\n\r\n')):
        return False
    return True


def build(plan):
    pay = draw.blob(plan['spec']) if plan['kind'] == 'raw' and plan['spec'] else (plan['payload'] or '').encode('latin1')
    chunks, pos = [], 0
    for n in plan['sizes'] or ():
        c = pay[pos:pos + n]
        if c:
            chunks.append(c)
        pos += n
    if pos < len(pay):
        chunks.append(pay[pos:])
    enc, spans = chunked.encode(chunks, [o or {} for o in plan['opts'] or ()])
    data = enc + (plan['trailers'] or '').encode('latin1')
    f = plan['fault']
    where = None
    if f:
        p = f[1] if f[0] != 'garbage' else 0
        if f[0] == 'cut':
            where = 'other'
            for a, b, d, e in spans:
                if a < p < b:
                    where = 'cut inside size line'
                elif b <= p < d:
                    where = 'cut inside data'
                elif d < p < e:
                    where = 'cut inside CRLF'
                elif p == a:
                    where = 'cut at chunk border'
            data = data[:p]
        elif f[0] == 'crlf':
            if f[1] >= len(chunks):
                raise core.PlanError('no such chunk')
            d, e = spans[f[1]][2:]
            data = data[:d] + f[2].encode('latin1') + data[e:]
        elif f[0] == 'flip':
            if p < len(data):
                data = data[:p] + bytes([data[p] ^ (f[2] & 255)]) + data[p + 1:]
        elif f[0] == 'insert':
            data = data[:p] + f[2].encode('latin1') + data[p:]
        elif f[0] == 'drop':
            data = data[:p] + data[p + f[2]:]
        elif f[0] == 'dup':
            data = data[:p + f[2]] + data[p:]
        elif f[0] == 'garbage':
            data = f[1].encode('latin1')
    return b''.join(chunks), data, spans, where


def run(plan, r):
    ombott = world.fresh()
    mem = plan['mem'] or 1
    payload, data, spans, where = build(plan)
    verdict, ref, refpos = chunked.decode(data)
    lines_ok = all(len(ln) <= max(mem, 4096) - 4 for ln in data.split(b'\n'))
    conn = body.conn_make(data, plan['conn'])
    kind, op = plan['kind'], plan['op']
    with body.Spool(plan['disk']) as disk:
        app = body.make_app(ombott, dict(max_memfile_size=mem))
        seen = []

        def access():
            req = app.request
            if kind == 'form':
                return dict(req.forms)
            if kind == 'json':
                return req.json
            return body.read_body(ombott, app, op, plan['sizes2'] or (3,))

        @app.post('/c')
        def handler():
            for i in range(2 if plan['again'] else 1):
                try:
                    seen.append(access())
                except Exception as e:
                    seen.append(e)
                    err = e
            if isinstance(seen[-1], Exception):
                raise seen[-1]
            return 'done'

        ctype = {'form': 'application/x-www-form-urlencoded', 'json': 'application/json'}.get(kind)
        env = wsgi.make_environ('POST', '/c', inp=conn, content_type=ctype, content_length=plan['cl'],
                                headers=[('Transfer-Encoding', plan['te'])])
        ex = wsgi.call(app, env)
    what = 'chunked message %r%s, buffer %d, fault %r' % (data[:80], '...' if len(data) > 80 else '', mem, plan['fault'])
    if ex.stopped:
        if conn.blocked and verdict != 'ok':
            # waiting for the rest of a message that is not finished is no hang
            r.note('waits')
            return
        r.fail('read-blocks' if conn.blocked else 'hang', '%s: %s' % (what, ex.stopped))
    if ex.escaped:
        r.fail('escaped', '%s: %r escaped' % (what, ex.escaped))
    infra = conn.failed or disk.fired
    code = ex.code
    if not infra and not (code == 200 or 400 <= code < 500):
        r.fail('server-error', '%s: answered %s\n%s' % (what, ex.status, ex.errlog[-600:]))

    def view(b):
        if kind == 'form':
            d = {}
            for k, v in urllib.parse.parse_qsl(b.decode('latin1'), keep_blank_values=True):
                d[k] = v if k not in d else (d[k] + [v] if isinstance(d[k], list) else [d[k], v])
            return d
        if kind == 'json':
            return json.loads(b) if b else None
        return b
    errs = [x for x in seen if isinstance(x, Exception)]
    goods = [x for x in seen if not isinstance(x, Exception)]
    if errs and goods and not disk.fired:
        r.fail('partial-after-error', '%s: one access raised %r, another presents %r' % (what, errs[0], str(goods[0])[:80]))
    zero = spans[-1]
    if not infra:
        if plan['fault'] is None:
            want = view(payload)
            if not lines_ok:
                pass
            elif errs or not goods:
                r.fail('legal-refused', '%s: legal chunked body refused: %s %r' % (what, ex.status, errs[:1]))
            else:
                for g in goods:
                    if g != want:
                        r.fail('wrong-body', '%s: presents %r, sent %r' % (what, str(g)[:120], str(want)[:120]))
        elif verdict == 'ok':
            if goods and (plan['fault'][0] != 'garbage' or True):
                for g in goods:
                    try:
                        want = view(ref)
                    except ValueError:
                        continue
                    if kind != 'form' and g != want:
                        r.fail('wrong-body', '%s: presents %r, the stream encodes %r' % (what, str(g)[:120], str(want)[:120]))
            elif kind == 'raw' and lines_ok and plan['fault'][0] != 'garbage' and b'\n' not in \
                    data[:refpos].replace(b'\r\n', b''):
                r.fail('legal-refused', '%s: the stream is still a legal chunked body (%d bytes), refused: %s' % (what, len(ref), ex.status))
        elif verdict in ('truncated', 'nocrlf'):
            cut_in_zero = plan['fault'][0] == 'cut' and plan['fault'][1] > zero[0]
            if goods and not cut_in_zero:
                r.fail('damaged-accepted', '%s: the encoding is %s after %d payload bytes, but the application was given %r' % (
                    what, {'truncated': 'cut short', 'nocrlf': 'missing CRLF after chunk data'}[verdict], len(ref), str(goods[0])[:80]))
            r.probe('reference rejects')
        elif goods:
            r.probe('garbage accepted')
        if errs and code == 200:
            r.fail('status', '%s: access failed with %r, response is %s' % (what, errs[0], ex.status))
    elif goods:
        # an I/O error somewhere: whatever is presented must still be the complete body
        if conn.failed and kind == 'raw' and any(g != payload for g in goods) and plan['fault'] is None:
            r.fail('partial-after-error', '%s: read error at %s, yet %r is presented' % (what, plan['conn']['fail'], str(goods[0])[:80]))
        if disk.fired and kind == 'raw' and plan['fault'] is None and any(g != payload for g in goods):
            r.fail('partial-after-error', '%s: disk error %s, yet %r is presented' % (what, disk.fired, str(goods[0])[:80]))
    shorts = [(p, n, g) for p, n, g in conn.calls if n and 0 < g < n]
    if plan['sizes'] and (plan['fault'] or shorts or infra):
        r.nontrivial = True
    if plan['fault']:
        r.fault('stream ' + plan['fault'][0])
    body.conn_account(r, conn, disk)
    ends = {s[2] for s in spans[:-1]}
    r.probe(where or '', bool(where) and where != 'other')
    r.probe('segment border inside the CRLF after a chunk', not plan['fault'] and any(e + 1 in conn.segs for e in ends))
    r.probe('short read inside data', any(n > 2 for p, n, g in shorts))
    r.probe('Content-Length contradicts', plan['cl'] not in (None, len(payload)))
    r.probe('second access after rejection', len(errs) > 1)
    r.probe('trailers', len(plan['trailers'] or '') > 2)
    r.probe('size line longer than buffer', any(s[1] - s[0] > mem for s in spans))
    r.probe('chunk larger than buffer', any(s[2] - s[1] > mem for s in spans))
    r.probe('hundreds of chunks', len(spans) > 300)
    r.probe('chunk headers longer than 4096 in total', sum(s[1] - s[0] for s in spans) > 4096)
    r.probe('body spilled to disk', bool(disk.files))
    r.probe('reference accepts damaged stream', bool(plan['fault']) and verdict == 'ok')
    r.note(ex.status, ex.body if code == 200 else '', conn.calls, [x if not isinstance(x, Exception) else repr(x) for x in seen])
    r.states.append((plan['fault'] and plan['fault'][0], verdict, where, len(conn.calls) % 64, code, kind if kind != 'raw' else op, bool(infra)))
