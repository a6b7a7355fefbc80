"""C04  Content-Length bodies arrive byte-exact under any read fragmentation."""
from .. import draw, world, wsgi, body, core
from ..stream import SimStop

PROP = 'C04'
RUNS = {'quick': 16000, 'thorough': 300000}
RULE = ('one run = one keep-alive connection delivering 1-3 Content-Length requests (bodies 0..4x the buffer, next '
        'request already pipelined behind) to a fresh app, with a PRNG-chosen read fragmentation, segment borders near '
        'buffer multiples, optional early EOF, read error or spool disk error, and 1-3 handler accesses per request. '
        'Non-trivial: at least one short read, split or fault fired while a non-empty body was read.')
STATES = 'distinct (body length mod buffer, number of reads, read sizes signature, spilled, access ops, outcome)'
PROBES = ['body spilled to disk', 'body exactly at threshold', 'short read inside body', 'early eof', 'pipelined bytes behind body',
          'read error then second access', 'disk error then second access', 'body larger than 3 buffers', 'default buffer size']
REAL = ['Ombott', 'Request/BodyMixin (_iter_body, _body_read, body caching)', 'Response casting', 'tempfile contents (real files)']
STUB = ['WSGI server', 'connection (wsgi.input)', 'spool disk fault layer', 'handler programs']
ASSUMPTIONS = ['a peer that closes early: the bytes delivered so far, or a client error, are both accepted',
               'after an injected read/disk error any failure is accepted, but never a wrong or partial body']


def gen_plan_req(rng, mem, tier):
    k = rng.random()
    if k < 0.35:
        n = max(0, mem * rng.randint(0, 3) + rng.randint(-2, 2))
    elif k < 0.8:
        n = rng.randint(0, 4 * mem)
    else:
        n = rng.randint(0, 300)
    n = min(n, 250000)
    return dict(body=draw.blobspec(rng, n), ops=[rng.choice(body.ACCESS) for _ in range(rng.randint(1, 3))],
                sizes=[rng.randint(1, 40) for _ in range(3)], catch=rng.random() < 0.5,
                method=rng.choice(['POST', 'POST', 'PUT', 'PATCH', 'DELETE', 'GET']),
                ctype=draw.pick(rng, (4, None), (2, 'application/octet-stream'), (1, 'text/plain'),
                               (1, 'multipart/form-data; boundary=XX'), (1, 'application/json'),
                               (1, 'application/x-www-form-urlencoded')))


def gen(rng, tier):
    mem = draw.memfile(rng)
    if mem > 8192 and rng.random() < 0.5:
        mem = rng.randint(1, 64)
    reqs = [gen_plan_req(rng, mem, tier) for _ in range(draw.pick(rng, (5, 1), (2, 2), (1, 3)))]
    total = sum(q['body'][1] for q in reqs)
    tail = rng.choice([0, 0, 1, 5, 40])
    hot, pos = [], 0
    for q in reqs:
        n = q['body'][1]
        hot += [pos, pos + n] + [pos + mem * j for j in range(1, min(5, n // mem + 1))]
        pos += n
    c = body.conn_gen(rng, total + tail, hot)
    if total > 20000 and c['frag']:
        c['frag'] = [x and x * 400 + 37 for x in c['frag']]
        mem = max(mem, 300)
    cut = None
    if rng.random() < 0.12 and reqs[-1]['body'][1]:
        cut = rng.randint(1, min(reqs[-1]['body'][1], 60))
        tail, c['end'] = 0, 'eof'
    return dict(mem=mem, reqs=reqs, tail=tail, conn=c, cut=cut, disk=body.disk_gen(rng), mapped=rng.random() < 0.2)





def run(plan, r):
    ombott = world.fresh()
    mem = plan['mem'] or 1
    bodies = [draw.blob(q['body']) for q in plan['reqs']]
    data = b''.join(bodies) + draw.blob(['ctr', plan['tail'] or 0, 999])
    cut = plan['cut']
    if cut:
        data = data[:-cut]
    conn = body.conn_make(data, plan['conn'])
    with body.Spool(plan['disk']) as disk:
        app = body.make_app(ombott, dict(max_memfile_size=mem))
        seen = []

        def handler():
            q = plan['reqs'][len(done)]
            for op in q['ops'] or ():
                before = (conn.failed, len(disk.fired))
                try:
                    d = body.read_body(ombott, app, op, q['sizes'] or (7,))
                except Exception as e:
                    seen.append((op, before, e))
                    if not q['catch']:
                        raise
                else:
                    seen.append((op, before, d))
            return 'ok %d' % len(done)
        done = []
        for m in ('POST', 'PUT', 'PATCH', 'DELETE', 'GET'):
            app.route('/b', method=m, callback=handler)
        pos = 0
        for i, q in enumerate(plan['reqs']):
            want = bodies[i]
            lo, hi = pos, pos + len(want)
            avail = data[lo:hi]
            early = len(avail) < len(want)
            del seen[:]
            first = len(conn.calls)
            conn.pos = lo        # the server discards what the application left unread
            env = wsgi.make_environ(q['method'] or 'POST', '/b', inp=conn, content_type=q['ctype'],
                                    content_length=len(want) if want else [0, '', None][(q['sizes'] or [0])[0] % 3])
            ex = wsgi.call(app, env)
            done.append(1)
            what = 'request %d (Content-Length %d, buffer %d)' % (i, len(want), mem)
            if ex.stopped:
                r.fail('read-blocks' if conn.blocked else 'hang', '%s: %s' % (what, ex.stopped))
            body.check_window(conn, lo, hi, first, what)
            if ex.escaped:
                r.fail('escaped', '%s: %r escaped to the server' % (what, ex.escaped))
            faulty = conn.failed or disk.fired
            if not faulty and not seen:
                r.fail('no-access', '%s: handler was not reached: %s' % (what, ex.brief()))
            nerr = 0
            for k, (op, before, got) in enumerate(seen):
                bad = before[0] or before[1] or conn.failed or disk.fired
                if isinstance(got, Exception):
                    nerr += 1
                    if bad:
                        continue
                    if early and 400 <= ex.code < 500:
                        continue
                    if early and q['catch']:
                        continue
                    r.fail('refused', '%s: access %r raised %r although every byte was delivered' % (what, op, got))
                if nerr and got not in (want, avail):
                    r.fail('shifted', '%s: after a failed access a second one (%s) presents %r... (%d bytes) instead of the %d sent'
                           % (what, op, got[:40], len(got), len(want)))
                if got != avail:
                    d = next((j for j in range(min(len(got), len(avail))) if got[j] != avail[j]), min(len(got), len(avail)))
                    r.fail('wrong-body', '%s: access %r gives %d bytes, %d were delivered; first difference at %d: %r / %r' % (
                        what, op, len(got), len(avail), d, got[d:d + 20], avail[d:d + 20]))
                if bad and early is False and conn.failed and conn.fail[0] < hi and conn.fail[0] >= lo and got != want:
                    r.fail('partial', what)
            if nerr and len(seen) > nerr:
                r.probe('access succeeded after a failed one')
            if nerr > 1 and conn.failed:
                r.probe('read error then second access')
            if nerr > 1 and disk.fired:
                r.probe('disk error then second access')
            if not faulty and not early and (ex.code != 200 or ex.body != b'ok %d' % i):
                r.fail('status', '%s: %s' % (what, ex.brief()))
            calls = conn.calls[first:]
            shorts = sum(1 for p, n, g in calls if n and 0 < g < n)
            r.note(i, ex.status, ex.body, calls, [(o, x if isinstance(x, bytes) else repr(x)) for o, b, x in seen])
            if want and calls and (shorts or early or conn.failed or disk.fired):
                r.nontrivial = True
            r.probe('short read inside body', shorts and 1)
            r.probe('early eof', early)
            r.probe('body spilled to disk', bool(disk.files))
            r.probe('body exactly at threshold', len(want) == mem)
            r.probe('pipelined bytes behind body', len(data) > hi)
            r.probe('body larger than 3 buffers', len(want) > 3 * mem)
            r.probe('default buffer size', mem == 102400)
            r.states.append((len(want) % mem, len(calls), hash_sizes(calls), bool(disk.files), tuple(q['ops'] or ()),
                             ex.code, nerr))
            pos = hi
            if early or conn.failed:
                break
    body.conn_account(r, conn, disk)


def hash_sizes(calls):
    h = 0
    for p, n, g in calls[:64]:
        h = (h * 1000003 + (n or 0) * 31 + g) & 0xffffffff
    return h
