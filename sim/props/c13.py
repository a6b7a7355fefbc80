"""C13  Body size limits and disk spooling bound what a request can consume."""
import tracemalloc

from .. import draw, world, wsgi, body, core, chunked, disk as diskmod
from ..stream import SimInput

PROP = 'C13'
RUNS = {'quick': 16000, 'thorough': 300000}
RULE = ('one run = one fresh app (limits given to the constructor or through setup()) and 1-3 requests over one fragmenting connection whose '
        'body size is drawn around max_body_size and max_memfile_size (below, equal, one above, far above), framed by Content-Length or '
        'in chunks, as raw bytes, urlencoded text, JSON text or multipart with text and file parts; optional spool disk error. '
        'A few runs stream a body of megabytes through a small threshold with the allocator traced. Non-trivial: a size within 3 '
        'bytes of a limit, or a limit crossed.')
STATES = 'distinct (kind, framing, side of each limit (<,=,>), reads made mod 32, spilled, outcome)'
PROBES = ['equal to max_body_size', 'one above max_body_size', 'equal to memory threshold', 'one above memory threshold', 'far above limit',
          'oversized chunked', 'oversized content-length', 'form text refused', 'multipart text refused', 'file part larger than threshold accepted',
          'body kept on disk', 'second access after 413', 'limit smaller than buffer', 'memory traced', 'single chunk larger than limit', 'no limit', 'refusal of a huge text measured', 'stray Content-Length', 'names larger than threshold refused']
REAL = ['Ombott', 'Request/BodyMixin', 'multipart parser', 'spool file contents (real files)']
STUB = ['WSGI server', 'connection (wsgi.input)', 'spool disk fault layer', 'handler programs']
ASSUMPTIONS = ['one buffer is max_memfile_size bytes', 'bytes read count as body bytes; the framing of chunks is not counted',
               'multipart: refusal is demanded when the text alone exceeds the threshold, acceptance when text and part headers fit']

B = 'sim-XX'


def around(rng, *pts):
    n = rng.choice([p for p in pts if p is not None])
    return max(0, n + draw.pick(rng, (3, 0), (3, 1), (2, -1), (2, rng.randint(-3, 3)), (2, rng.randint(-40, 40)),
                                (1, n), (1, 3 * n + rng.randint(0, 50)), (1, 9 * n)))


def gen_req(rng, mem, maxb):
    kind = draw.pick(rng, (4, 'raw'), (2, 'form'), (1, 'json'), (2, 'multi'), (1, 'multi-raw'))
    q = dict(kind=kind, framing=rng.choice(['cl', 'chunked']), method=rng.choice(['POST', 'POST', 'PUT']),
             n=min(60000, around(rng, mem, maxb, maxb)), salt=rng.randrange(1000), sizes=[], access=[])
    k = rng.randrange(4)
    q['sizes'] = ([0] if k == 0 else [rng.randint(1, max(1, mem))] if k == 1 else [mem + rng.randint(-1, 1) or 1] if k == 2 else
                  [rng.randint(1, 2 * mem + 5) for _ in range(rng.randint(1, 5))])
    if kind == 'multi':
        q['parts'] = [[rng.choice(['text', 'file', 'file']), min(20000, around(rng, mem, mem // 2, 5))] for _ in range(rng.randint(1, 4))]
        if rng.random() < 0.2:
            # long names, many small fields
            k = rng.randint(1, 8)
            q['parts'] = [['text', rng.randint(0, 3), 0, max(0, mem // k + rng.randint(-6, 6))] for _ in range(k)]
    if q['framing'] == 'chunked' and rng.random() < 0.25:
        # a Content-Length next to chunked framing means nothing
        q['stray'] = rng.choice(['', 0, 1, mem, mem + 1, (maxb or 0) + 1, (maxb or 0) + mem + 1, 10 ** 6, 10 ** 12])
    q['access'] = [rng.choice({'raw': ['body', 'pieces', 'input', 'iter', 'copy'], 'form': ['forms', 'POST', 'forms', 'body'], 'json': ['json', 'forms', 'body'],
                               'multi': ['forms', 'files', 'POST', 'body'], 'multi-raw': ['body', 'pieces']}[kind]) for _ in range(rng.randint(1, 2))]
    return q


def gen(rng, tier):
    mem = draw.pick(rng, (3, rng.randint(1, 16)), (4, rng.randint(17, 300)), (2, rng.randint(300, 3000)))
    maxb = draw.pick(rng, (3, rng.randint(0, 40)), (3, around(rng, mem, mem)), (3, rng.randint(40, 3000)), (2, None))
    plan = dict(mem=mem, maxb=maxb, how=rng.choice(['ctor', 'setup', 'setup2']), reqs=[gen_req(rng, mem, maxb) for _ in range(rng.choice([1, 1, 1, 2, 3]))],
                conn=dict(frag=[], segs=[]), disk=body.disk_gen(rng, 0.06), catch=rng.random() < 0.5, big=None)
    total = sum(len(payload(q)) for q in plan['reqs'])
    plan['conn'] = body.conn_gen(rng, total, [x for x in (mem, maxb) if x], faults=False)
    if total > 20000:
        plan['conn']['frag'] = [x and x * 300 + 37 for x in plan['conn']['frag']]
    if rng.random() < 0.03:
        # text far larger than any reasonable buffer: is it loaded before it is refused?
        plan.update(maxb=rng.choice([None, 10 ** 6]), disk=[])
        n = rng.randint(150000, 250000)
        q = gen_req(rng, mem, None)
        q.update(kind=rng.choice(['form', 'json', 'multi', 'multi']), n=n, sizes=[rng.choice([0, rng.randint(20000, 90000)])])
        if q['kind'] == 'multi':
            q['parts'] = [[rng.choice(['text', 'file']), rng.randint(0, 5)] for _ in range(rng.randint(0, 2))]
            q['parts'].insert(rng.randint(0, len(q['parts'])), rng.choice([['text', n], ['file', 5, n], ['text', 5, n]]))
        q['access'] = [rng.choice({'form': ['forms', 'POST'], 'json': ['json', 'forms'], 'multi': ['forms', 'files', 'POST']}[q['kind']])]
        plan.update(reqs=[q], conn=dict(frag=[rng.choice([0, 65536, 4096])], segs=[]))
    if rng.random() < 0.004:
        mem = rng.randint(2000, 60000)
        n = rng.randint(2000000, 4000000)
        plan = dict(plan, mem=mem, maxb=rng.choice([None, n, n - 1, n // 2]), disk=[], conn=dict(frag=[rng.choice([0, 65536, 4096])], segs=[]),
                    reqs=[dict(kind='raw', framing=rng.choice(['cl', 'chunked']), method='POST', n=n, salt=1, sizes=[rng.randint(5000, 300000)],
                               access=['body'])], big=True)
    return plan


def valid(plan):
    return (plan['mem'] or 0) >= 1 and all(q and q['kind'] and (q['kind'] != 'multi' or all(p and p[0] for p in q['parts'] or [None]))
                                           for q in plan['reqs'] or [None])


def letters(n, salt):
    return draw.blob(['ctr', n, salt]).replace(b'|', b'_').replace(b'.', b'-')


def payload(q):
    n, kind = q['n'] or 0, q['kind']
    salt = q['salt'] or 0
    if kind in ('raw', 'multi-raw'):
        return draw.blob(['ctr', n, salt])
    if kind == 'form':
        k = 'k%d=' % salt
        return (k.encode() + letters(max(0, n - len(k)), salt))[:n]
    if kind == 'json':
        return b'{"k":"' + letters(max(0, n - 8), salt) + b'"}'
    out = b''
    for i, (t, m, *hl) in enumerate(q['parts']):
        out += b'--' + B.encode() + b'\r\n' + head(t, i, *hl) + b'\r\n\r\n' + letters(m or 0, salt + i) + b'\r\n'
    return out + b'--' + B.encode() + b'--\r\n'


def name(i, nl=0):
    return 'p%d' % i + 'n' * (nl or 0)


def head(t, i, hl=0, nl=0):
    h = b'Content-Disposition: form-data; name="%s"' % name(i, nl).encode()
    if hl:
        h = b'X-Long: %s\r\n' % (b'l' * hl) + h
    return h + b'; filename="f%d"' % i if t == 'file' else h


def run(plan, r):
    ombott = world.fresh()
    mem, maxb = plan['mem'], plan['maxb']
    conf = dict(max_memfile_size=mem, max_body_size=maxb)
    if plan['how'] == 'setup':
        app = ombott.Ombott()
        app.setup(conf)
    elif plan['how'] == 'setup2':
        app = ombott.Ombott(dict(max_memfile_size=3, max_body_size=2))
        app.setup(conf)
    else:
        app = ombott.Ombott(conf)
    seen = []
    q = None

    def handler():
        for a in q['access'] or ():
            try:
                if a in ('forms', 'files', 'POST', 'json'):
                    try:
                        v = getattr(app.request, a)
                    finally:
                        loads.append((a, max([f().largest_read for f in disk.files if f()] or [0])))
                    v = summary(v)
                else:
                    v = body.read_body(ombott, app, a, [mem, 7])
            except Exception as e:
                seen.append((a, e))
                if not plan['catch']:
                    raise
            else:
                seen.append((a, v))
        if not plan['big']:
            try:
                f = app.request.body
                where.append(diskmod.on_disk(f))
            except Exception:
                pass
        return 'fine'
    where, loads = [], []
    for m in ('POST', 'PUT'):
        app.route('/p', method=m, callback=handler)
    with body.Spool(plan['disk']) as disk:
        for i, q in enumerate(plan['reqs']):
            one(plan, r, app, q, i, disk, seen, where, mem, maxb)
            if i == 0 and not plan['big']:
                for a, n in loads[:1]:
                    # one read this large is no buffer
                    if n > 2 * mem + 70000:
                        r.fail('text-loaded', 'the first access (%s) of a %s body of %d bytes loaded %d bytes of the file at once, threshold %d' % (
                            a, q['kind'], len(payload(q)), n, mem))
                    r.probe('refusal of a huge text measured', len(payload(q)) > 140000)


def summary(v):
    if not isinstance(v, dict):
        return v
    out = {}
    for k, x in v.items():
        f = getattr(x, 'file', None)
        out[k] = x if isinstance(x, str) or f is None else ('file', f.read())
    return out


def one(plan, r, app, q, i, disk, seen, where, mem, maxb):
    data = payload(q)
    size = len(data)
    if q['framing'] == 'chunked':
        cs, a, j = [], 0, 0
        while a < size:
            n = (q['sizes'] or [0])[j % len(q['sizes'] or [0])] or size
            if n < 1 or len(cs) > 5000:
                n = size
            cs.append(data[a:a + n])
            a += n
            j += 1
        wire, spans = chunked.encode(cs, [])
        wire += b'\r\n'
    else:
        wire, spans = data, [[0, 0, size, size]]
    conn = body.conn_make(wire + b'GET /next HTTP/1.1\r\n\r\n', dict(plan['conn'] or {}, fail=None, end='block'))
    ctype = {'raw': 'application/octet-stream', 'form': 'application/x-www-form-urlencoded', 'json': 'application/json',
             'multi': 'multipart/form-data; boundary=' + B, 'multi-raw': 'application/octet-stream'}[q['kind']]
    env = wsgi.make_environ(q['method'] or 'POST', '/p', inp=conn, content_type=ctype,
                            content_length=size if q['framing'] == 'cl' else q.get('stray'),
                            headers=[('Transfer-Encoding', 'chunked')] if q['framing'] == 'chunked' else [])
    del seen[:], where[:]
    files0, fired0 = len(disk.files), len(disk.fired)
    peak = None
    if plan['big']:
        tracemalloc.start()
        base = tracemalloc.get_traced_memory()[0]
        q = q_big(q)
    if plan['big']:
        seen_big = []

        def handler_big():
            f = app.request.body
            n = 0
            while True:
                p = f.read(8192)
                if not p:
                    break
                if data[n:n + len(p)] != p:
                    r.fail('wrong-body', 'big body differs near %d' % n)
                n += len(p)
            seen_big.append(n)
            return 'fine'
        app.route('/big', method='POST', callback=handler_big)
        env['PATH_INFO'] = '/big'
    try:
        ex = wsgi.call(app, env)
        if plan['big']:
            peak = tracemalloc.get_traced_memory()[1] - base
    finally:
        if plan['big']:
            tracemalloc.stop()
    what = 'request %d: %s body of %d bytes (%s), max_body_size %s, threshold %s' % (i, q['kind'], size, q['framing'], maxb, mem)
    if ex.stopped:
        r.fail('read-blocks' if conn.blocked else 'hang', '%s: %s' % (what, ex.stopped))
    if ex.escaped:
        r.fail('escaped', '%s: %r' % (what, ex.escaped))
    faulty = len(disk.fired) > fired0
    # body bytes taken from the stream
    got = sum(max(0, min(conn.pos, e) - a) for _, a, e, _ in spans)
    over = maxb is not None and size > maxb
    if maxb is not None and got > maxb + mem:
        r.fail('read-too-much', '%s: %d body bytes were read, limit + one buffer is %d' % (what, got, maxb + mem))
    if conn.pos > len(wire):
        r.fail('over-read', '%s: read into the next request' % what)
    errs = [(a, e) for a, e in seen if isinstance(e, Exception)]
    goods = [(a, v) for a, v in seen if not isinstance(v, Exception)]
    spilled = len(disk.files) > files0
    if over:
        if goods or (plan['big'] and seen_big):
            r.fail('oversized-accepted', '%s: the handler was given %s' % (what, str(goods)[:150]))
        if not faulty:
            for a, e in errs:
                if getattr(e, 'status_code', None) != 413:
                    r.fail('not-413', '%s: access %r failed with %r instead of a 413' % (what, a, e))
            if not (plan['catch'] and not plan['big']) and ex.code != 413:
                r.fail('not-413', '%s: answered %s' % (what, ex.status))
    else:
        judge_within(plan, r, q, what, data, size, mem, errs, goods, ex, faulty)
        if plan['big'] and (ex.code != 200 or seen_big != [size]):
            r.fail('refused', '%s: %s %s' % (what, ex.status, seen_big))
        if size > mem and not faulty:
            if where and where[0] is False:
                r.fail('in-memory', '%s: Request.body is an in-memory buffer' % what)
            # a wrapper around the file is fine, but the bytes must be on the disk
            if where and where[0] is not True and not spilled:
                r.fail('in-memory', '%s: nothing was written to a temporary file' % what)
            r.probe('body kept on disk', bool(where and where[0]))
    if peak is not None:
        r.probe('memory traced')
        # generous: buffers of the code, of the file and of the transport
        bound = 400000 + 6 * mem + 3 * max((plan['conn']['frag'] or [0])) + 2 * max(q['sizes'] or [0])
        if size > 1500000 and peak > max(bound, size // 2):
            r.fail('memory', '%s: %d bytes of memory at the peak' % (what, peak))
    body.conn_account(r, conn)
    for op, n, e in disk.fired[fired0:]:
        r.fault('disk %s error' % op)
    edge = [x for x in (mem, maxb) if x is not None and abs(size - x) <= 3]
    if edge or over or size > mem:
        r.nontrivial = True
    cmp_ = lambda x: None if x is None else (size > x) - (size < x)
    r.probe('equal to max_body_size', size == maxb)
    r.probe('one above max_body_size', maxb is not None and size == maxb + 1)
    r.probe('equal to memory threshold', size == mem)
    r.probe('one above memory threshold', size == mem + 1)
    r.probe('far above limit', maxb is not None and size > 2 * maxb + 20)
    r.probe('oversized chunked', over and q['framing'] == 'chunked')
    r.probe('oversized content-length', over and q['framing'] == 'cl')
    r.probe('second access after 413', over and len(errs) > 1)
    r.probe('limit smaller than buffer', maxb is not None and maxb < mem)
    r.probe('no limit', maxb is None)
    r.probe('stray Content-Length', q['framing'] == 'chunked' and q.get('stray') is not None)
    r.probe('single chunk larger than limit', over and q['framing'] == 'chunked' and spans[0][2] - spans[0][1] > maxb)
    r.note(ex.status, conn.calls[:500] if not plan['big'] else None, [(a, v if not isinstance(v, Exception) else repr(v)) for a, v in seen], where)
    r.states.append((q['kind'], q['framing'], cmp_(mem), cmp_(maxb), len(conn.calls) % 32, spilled, ex.code, faulty))


def q_big(q):
    return dict(q, access=[])


def judge_within(plan, r, q, what, data, size, mem, errs, goods, ex, faulty):
    kind = q['kind']
    for a, e in errs + goods:
        must_refuse = must_accept = None
        text = a in ('forms', 'files', 'POST', 'json')
        if not text:
            must_accept = True
        elif kind in ('form', 'json'):
            must_refuse = size > mem
            must_accept = not must_refuse
        elif kind == 'multi':
            # names are text too
            txt = sum((n or 0) + len(name(j, *hl[1:])) for j, (t, n, *hl) in enumerate(q['parts']) if t == 'text')
            need = txt + sum(len(head(t, j, *hl)) + 8 + len(B) for j, (t, n, *hl) in enumerate(q['parts'])) + 8
            must_refuse = txt > mem
            must_accept = need <= mem
        else:
            continue
        ok = not isinstance(e, Exception)
        if faulty:
            if not ok:
                continue
        if must_refuse and ok:
            r.fail('text-loaded', '%s: %s presents form text larger than the threshold: %s' % (what, a, str(e)[:100]))
        if must_refuse and not ok and getattr(e, 'status_code', None) != 413 and not faulty:
            r.fail('not-413', '%s: %s failed with %r' % (what, a, e))
        if must_accept and not ok and not faulty:
            r.fail('refused', '%s: %s failed with %r' % (what, a, e))
        r.probe('form text refused', kind == 'form' and bool(must_refuse))
        r.probe('names larger than threshold refused', kind == 'multi' and text and bool(must_refuse) and not ok and sum(n or 0 for t, n, *hl in q['parts'] if t == 'text') <= mem)
        r.probe('multipart text refused', kind == 'multi' and text and bool(must_refuse))
        if ok:
            if not text:
                want = data
            elif kind == 'form':
                k, eq, v = data.decode().partition('=')
                want = {k: v} if k else {}
            elif kind == 'json':
                want = {'k': data[6:-2].decode()}
            else:
                want = {}
                for j, (t, n, *hl) in enumerate(q['parts']):
                    if a == 'forms' and t != 'text' or a == 'files' and t != 'file':
                        continue
                    d = letters(n or 0, (q['salt'] or 0) + j)
                    want[name(j, *hl[1:])] = ('file', d) if t == 'file' else d.decode()
                r.probe('file part larger than threshold accepted', a != 'forms' and any(t == 'file' and (n or 0) > mem for t, n, *hl in q['parts']))
            if a in ('files', 'POST') and e != want and files_read_twice(q, a):
                continue
            if e != want:
                r.fail('wrong-content', '%s: %s is %s, sent %s' % (what, a, str(e)[:150], str(want)[:150]))
    if not faulty and not errs and goods and ex.code != 200:
        r.fail('status', '%s: %s' % (what, ex.brief()))
    if errs and not plan['catch'] and not faulty and ex.code != getattr(errs[0][1], 'status_code', None):
        r.fail('status', '%s: %r was answered as %s' % (what, errs[0][1], ex.status))


def files_read_twice(q, a):
    """An upload that was read before is at its end."""
    return sum(1 for x in q['access'] if x in ('files', 'POST')) > 1
