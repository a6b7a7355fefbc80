"""C06  Multipart parsing is independent of how the body is split into reads."""
from .. import draw, world, wsgi, body, core, mpart, chunked
from ..stream import SimInput

PROP = 'C06'
RUNS = {'quick': 16000, 'thorough': 320000}
RULE = ('one run = one well-formed multipart/form-data body (0-4 parts, contents built from delimiter look-alikes, optional '
        'leading CRLF and epilogue), whole or cut to a prefix, delivered by the simulated transport in 6-10 different divisions '
        'into reads (borders biased to delimiters and header ends, incl. byte by byte); every division is parsed by the streaming '
        'parser and 2 of them travel through the WSGI stack (Content-Length and chunked framing), and compared with the '
        'delivery in one piece. Non-trivial: at least two reads and at least one complete delimiter.')
STATES = 'distinct (number of parts, prefix class, piece count class, kind of section each border falls in)'
PROBES = ['border inside delimiter', 'border inside CRLF after delimiter', 'border inside header end', 'border between closing hyphens',
          'border in epilogue', 'epilogue', 'leading CRLF', 'prefix', 'prefix inside delimiter', 'byte by byte', 'empty content',
          'no parts', 'damaged body', 'tight memory threshold', 'delivered through chunked framing', 'content ends with part of the delimiter', 'two uploads read alternately']
REAL = ['MultipartMarkup / BodyMarkuper', 'Ombott', 'Request.POST/forms/files', '_body_read']
STUB = ['WSGI server', 'connection (wsgi.input)', 'handler']
ASSUMPTIONS = ['errors are compared by class, not by message text', 'every part has a Content-Disposition header (form-data)']

HEADS = ['Content-Disposition: form-data; name="%s"', 'Content-Disposition: form-data; name="%s"; filename="f.bin"\r\nContent-Type: text/plain',
         'Content-Disposition: form-data; name="%s"; filename="-.-"', 'Content-Type: text/plain\r\nContent-Disposition: form-data; name="%s"',
         'X-A:  \r\nContent-Disposition: form-data; name="%s"; filename="x"\r\nX-B: \xc3\xa9;--']


def gen(rng, tier):
    b = mpart.boundary(rng)
    parts = []
    for i in range(rng.choice([0, 1, 1, 1, 2, 2, 3, 4])):
        h = rng.choice(HEADS) % ('n%d' % i)
        c = mpart.content(rng, b)
        if 'filename' not in h:
            c = c.encode('latin1').decode('ascii', 'ignore')
        parts.append([h, mpart.clean(c, b)])
    plan = dict(boundary=b, parts=parts, preamble=draw.pick(rng, (4, ''), (1, '\r\n')),
                epilogue=draw.pick(rng, (3, ''), (2, '\r\n'), (1, mpart.content(rng, b)), (1, '\r\n--' + b + '\r\nX: y\r\n\r\n'), (1, '-'), (1, '\n')),
                prefix=None, cuts=[])
    plan['damage'] = []
    data, hot = build(plan)
    if rng.random() < 0.1:
        for _ in range(rng.choice([1, 1, 2, 3])):
            plan['damage'].append([rng.choice(hot) + rng.randint(-4, 4), rng.choice([0, 0, 1, 1, 2, 6]),
                                   rng.choice(['', '\r', '\n', '-', '\r\n', '\r\n\r\n', '\n\r\n', '\r\n\r', '--' + b, '\r\n--' + b, 'x', ':', '\xff'])])
        data = damaged(data, plan['damage'])
    elif parts and rng.random() < 0.03:
        # a part whose header block is empty, or begins or ends with a lone CR or LF
        h = rng.choice(parts)[0].encode('latin1')
        at = data.find(h)
        plan['damage'].append([at, len(h), ''] if rng.random() < 0.5 else [at + rng.choice([0, len(h)]), 0, rng.choice(['\r', '\n', '\r\n', '\r\r', '\n\n'])])
        data = damaged(data, plan['damage'])
        for k in (-2, -1, 0, 1, 2, 3):
            plan['cuts'] += [[at + k], [at + k, at + k + 1], [at - 1, at + k]]
    n = len(data)
    if rng.random() < 0.45 and n > 1:
        plan['prefix'] = min(n - 1, max(1, rng.choice(hot) + rng.randint(-4, 3))) if rng.random() < 0.7 else rng.randrange(1, n)
        n = plan['prefix']
        hot = [h for h in hot if h < n] + [n - 1]
    for _ in range(rng.randint(6, 10) if not plan['cuts'] else 3):
        plan['cuts'].append(mpart.cuts(rng, n, hot))
    plan['wsgi'] = rng.random() < 0.5
    plan['chunked'] = rng.random() < 0.5
    plan['mem'] = rng.choice([100000, 0, 1, 7, 30])
    # another upload, under its own boundary, whose reads alternate with the reads of this one
    plan['other'] = draw.pick(rng, (5, None), (1, mpart.boundary(rng)), (1, b + 'a'), (1, b[:-1].rstrip(' ') or 'q'), (1, b))
    return plan


def valid(plan):
    b = plan['boundary']
    if not b or b[-1] == ' ' or plan['preamble'] not in ('', '\r\n', None):
        return False
    tok = '\r\n--' + b
    for h, c in plan['parts'] or ():
        if (h + '\r\n\r\n').find('\r\n\r\n') != len(h) or tok in c or tok in h or '\r' in h.replace('\r\n', '') or '\n' in h.replace('\r\n', ''):
            return False
        if not h or any(':' not in ln for ln in h.split('\r\n')) or 'name="' not in h:
            return False
        if 'filename' not in h and any(ord(ch) > 127 for ch in c):
            return False
        if (c + tok).find(tok) != len(c):
            return False
    return plan['prefix'] is None or plan['prefix'] > 0


def build(plan):
    return mpart.assemble([(h, c) for h, c in plan['parts'] or ()], plan['boundary'], plan['preamble'] or '', plan['epilogue'] or '')


def damaged(data, damage):
    for at, cut, ins in damage or ():
        at = max(0, min(len(data), at or 0))
        data = data[:at] + (ins or '').encode('latin1') + data[at + (cut or 0):]
    return data


def pieces(data, cuts):
    out, a = [], 0
    for c in sorted(set(cuts or ())):
        if a < c < len(data):
            out.append(data[a:c])
            a = c
    out.append(data[a:])
    return out


def run(plan, r):
    ombott = world.fresh()
    from ombott.request_pkg.multipart import MultipartMarkup
    data, hot = build(plan)
    data = damaged(data, plan['damage'])
    full = len(data)
    if plan['damage']:
        r.probe('damaged body')
    if plan['prefix'] is not None:
        data = data[:plan['prefix']]
    if not data:  # the damage took everything
        return
    b = plan['boundary']

    def parse(chunks):
        m = MultipartMarkup(b)
        for c in chunks:
            m.parse(c)
        if m.error is not None:
            return 'error', type(m.error).__name__
        return 'parts', [(name, tuple(rng_)) for name, rng_ in m.markups]
    ref = parse([data])
    r.note(ref)
    what = 'body %r%s boundary %r' % (data[:400], '...' if len(data) > 400 else '', b)
    if plan['prefix'] is None and not plan['damage'] and ref[0] == 'error':
        r.fail('well-formed-refused', '%s in one piece: %s' % (what, ref))
    r.probe('prefix', plan['prefix'] is not None)
    r.probe('leading CRLF', bool(plan['preamble']))
    r.probe('epilogue', bool(plan['epilogue']) and plan['prefix'] is None)
    r.probe('no parts', not plan['parts'])
    r.probe('empty content', any(not c for h, c in plan['parts'] or ()))
    r.probe('content ends with part of the delimiter', any(c.endswith(('\r', '\r\n', '\r\n-', '\r\n--')) for h, c in plan['parts'] or ()))
    zones = zone_map(plan, full) if not plan['damage'] else ['damaged'] * (full + 1)
    r.probe('prefix inside delimiter', plan['prefix'] is not None and zones[len(data)] == 'delimiter')
    for cuts in plan['cuts'] or ():
        ps = pieces(data, cuts)
        got = parse(ps)
        r.simtime += len(ps)
        if got != ref:
            r.fail('division', '%s\n delivered as %r\n gives %s\n in one piece  %s' % (what, ps[:60], got, ref))
        z = set()
        a = 0
        for p in ps[:-1]:
            a += len(p)
            z.add(zones[a])
        r.fault('read border inside ' + 'message', len(ps) - 1)
        for k in z:
            r.probe('border ' + {'delimiter': 'inside delimiter', 'crlf': 'inside CRLF after delimiter', 'headend': 'inside header end',
                                 'close': 'between closing hyphens', 'epilogue': 'in epilogue'}.get(k, 'elsewhere'))
        if len(ps) == len(data):
            r.probe('byte by byte')
        if len(ps) > 1 and len(data) >= len(b) + 2:
            r.nontrivial = True
        r.states.append((len(plan['parts'] or ()), plan['prefix'] is not None and zones[len(data)], min(len(ps), 9), tuple(sorted(z))))

    if plan['other']:
        alternate(plan, data, b, ref, parse, r, MultipartMarkup, what)

    if plan['wsgi'] and not plan['damage']:
        # the smallest threshold under which the part headers and texts still fit: the rest is buffered on disk, read
        # after read of that size
        need = sum(len(h) + 4 + ('filename' not in h and len(c)) for h, c in plan['parts'] or ()) + 1
        got = []

        def serve(cuts, chunk, mem):
            app = ombott.Ombott({'max_memfile_size': mem})

            @app.post('/u')
            def handler():
                got.append(snapshot(app.request))
                return 'ok'
            del got[:]
            if chunk:
                enc, spans = chunked.encode(pieces(data, cuts), [])
                inp = SimInput(enc + b'\r\n')
                env = wsgi.make_environ('POST', '/u', inp=inp, content_type='multipart/form-data; boundary=' + quote(b),
                                        headers=[('Transfer-Encoding', 'chunked')])
            else:
                inp = SimInput(data, segs=cuts)
                env = wsgi.make_environ('POST', '/u', inp=inp, content_type='multipart/form-data; boundary=' + quote(b),
                                        content_length=len(data))
            ex = wsgi.call(app, env)
            body.conn_account(r, inp)
            return (ex.code, list(got))
        one = serve([], False, 100000)
        for cuts in (plan['cuts'] or [])[:2]:
            two = serve(cuts, bool(plan['chunked']), need + (plan['mem'] or 0))
            r.probe('tight memory threshold', need + (plan['mem'] or 0) < len(data))
            r.probe('delivered through chunked framing', bool(plan['chunked']))
            if one != two:
                r.fail('division-wsgi', '%s\n delivered as %r%s\n gives %s\n in one piece  %s' % (
                    what, pieces(data, cuts)[:60], ' (chunked)' if plan['chunked'] else '', two, one))
            r.note(two)


def alternate(plan, data, b, ref, parse, r, MultipartMarkup, what):
    b2 = plan['other']
    twin = dict(plan, boundary=b2, parts=[[h, mpart.clean(c, b2)] for h, c in plan['parts'] or ()], prefix=None, damage=[])
    if not valid(twin) or '\r\n--' + b2 in (plan['epilogue'] or ''):
        return
    data2, _ = build(twin)
    cuts = plan['cuts'] or [[]]
    one, two = pieces(data, cuts[0]), pieces(data2, cuts[-1])
    m1, m2 = MultipartMarkup(b), MultipartMarkup(b2)
    for i in range(max(len(one), len(two))):
        for m, ps in ((m1, one), (m2, two)):
            if i < len(ps):
                m.parse(ps[i])
    r.probe('two uploads read alternately')
    r.simtime += len(one) + len(two)
    for m, want, x in ((m1, ref, what), (m2, None, 'body %r boundary %r' % (data2[:400], b2))):
        got = ('error', type(m.error).__name__) if m.error is not None else ('parts', [(name, tuple(rng_)) for name, rng_ in m.markups])
        if want is None:
            # independent of the parser: as many parts as were sent
            n = sum(1 for name, _ in got[1] if name == 'headers') if got[0] == 'parts' else -1
            if n != len(twin['parts']):
                r.fail('alternate', '%s\n read alternately with boundary %r gives %s, %d parts were sent' % (x, b, got, len(twin['parts'])))
        elif got != want:
            r.fail('alternate', '%s\n read alternately with another upload (boundary %r) gives %s\n alone, in one piece,  %s' % (x, b2, got, want))


def quote(b):
    return '"%s"' % b if any(c in '()<>@,;:\\"/[]?=' for c in b) else b


def snapshot(req):
    out = []
    for name, src in (('forms', req.forms), ('files', req.files)):
        for k in src:
            vs = src[k] if isinstance(src[k], list) else [src[k]]
            for v in vs:
                if isinstance(v, str) or v is None:
                    out.append((name, k, v))
                else:
                    out.append((name, k, v.raw_filename, v.file.read()))
    return out


def zone_map(plan, full):
    """For every offset of the body: what a read border there cuts."""
    z = ['content'] * (full + 2)
    pos = len(plan['preamble'] or '')
    b = plan['boundary']

    def paint(a, e, name):
        for i in range(a + 1, e):
            z[i] = name
    paint(0 if plan['preamble'] else pos, pos + 2 + len(b), 'delimiter')
    pos += 2 + len(b)
    for h, c in plan['parts'] or ():
        paint(pos, pos + 2, 'crlf')
        pos += 2 + len(h)
        paint(pos, pos + 4, 'headend')
        pos += 4 + len(c)
        paint(pos, pos + 4 + len(b), 'delimiter')
        pos += 4 + len(b)
    paint(pos, pos + 2, 'close')
    for i in range(pos + 2, full + 1):
        z[i] = 'epilogue'
    return z
