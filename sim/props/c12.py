"""C12  Malformed request bodies yield client errors, never server faults."""
import json

from .. import draw, world, wsgi, body, core, chunked, mpart
from ..stream import SimInput

PROP = 'C12'
RUNS = {'quick': 24000, 'thorough': 500000}
RULE = ('one run = one request body (multipart damaged by mutations of delimiters, header lines and bytes or truncated at any offset; valid, damaged or '
        'non-object JSON; arbitrary urlencoded text; random bytes) under one of many content types, sent with Content-Length or chunked framing '
        '(itself optionally damaged) over a fragmenting connection that may end early, read by a handler through 1-3 accesses to forms, files, POST, '
        'params, json or the raw body. Non-trivial: the body is not a well-formed instance of its content type or an access failed.')
STATES = 'distinct (family, mutations applied, content type class, framing, accesses, status, error class)'
PROBES = ['multipart 4xx', 'multipart still accepted', 'json 4xx', 'json non-object', 'urlencoded accepted', 'truncated multipart', 'no boundary in content type',
          'header without colon', 'header not utf-8', 'missing name', 'text not utf-8', 'damaged chunk framing', 'stream ends early', 'field delivered from damaged body',
          'unterminated last part withheld', 'access after a failed access', 'text over the memory threshold', 'deeply nested JSON', 'wrong content type for the body', 'odd charset', 'overlong boundary']
REAL = ['Ombott', 'Request/BodyMixin', 'multipart parser', 'parse_qsl', 'error map', 'error pages']
STUB = ['WSGI server', 'connection (wsgi.input)', 'handler programs']
ASSUMPTIONS = ['the Content-Length header itself is a number', 'which 4xx status is not prescribed']

LONG = ['x' * 254, 'x' * 300, '\xc3\xa9' * 130, '\xe4\xb8\xad' * 300, '\xff' * 256, '-. ' * 200, '..' * 200]   # names no file system takes
HDRS = ['Content-Disposition: form-data; name="%s"', 'Content-Disposition: form-data; name="%s"; filename="%s.bin"', 'content-disposition:form-data;name=%s',
        'Content-Disposition: form-data; name="%s"\r\nContent-Type: text/plain; charset=utf-8', 'Content-Disposition: form-data; name="%s"; filename=""']
BADHDRS = ['Content-Disposition', 'Content-Disposition:', ': form-data; name="x"', 'Content-Disposition: form-data', 'Content-Disposition: form-data; name',
           'Content-Disposition: form-data; name=', 'Content-Disposition: ; ; ;', 'Content-Disposition: form-data; name="x', 'Content-Disposition: form-data; filename="f"',
           'Content-Disposition: form-data; name="\xff\xfe"', '\xff\xff: \xfe', 'X: y', '', 'Content-Disposition: form-data; =;==;"', 'Content-Disposition: form-data; name=x; filename',
           'Content-Disposition: form-data; name="a"\r\nContent-Disposition: form-data; filename="b"', 'Content-Type: ', 'Content-Length: abc\r\nContent-Disposition: form-data; name="q"; filename="z"',
           'Content-Disposition: form-data; name="x"\n\nfoo', 'Content-Disposition: form-data; name="x"\r\r\n', '\x00: \x00', 'a' * 300, 'Content-Disposition: form-data; name="";', ';', '"']
CTYPES = ['multipart/form-data', 'multipart/form-data; boundary=', 'multipart/form-data; boundary=""', 'multipart/', 'multipart/mixed', 'multipart/form-data; boundary',
          'multipart/form-data; charset=utf-8; boundary=%s', 'Multipart/Form-Data; Boundary=%s', 'multipart/form-data; boundary="%s"; x=y', 'multipart/form-data; boundary=%s; charset=utf-8',
          'multipart/form-data; boundary=\xff', 'multipart/form-data; boundary="', 'multipart/form-data;boundary=%s', 'multipart/form-data; boundary=a\rb', 'multipart/mixed; boundary=%s',
          'application/json', 'application/json; charset=utf-8', 'application/jsonp', 'application/x-www-form-urlencoded', '', 'text/plain', ';', 'application/json;', 'multipart/form-data; boundary=;', None,
          'multipart/form-data; boundary= %s', 'multipart/form-data; xboundary=%s']
CHARSETS = ['utf-8', 'UTF8', 'latin1', 'bogus', 'utf-16', 'idna', 'base64', 'rot13', 'unicode_escape', 'raw-unicode-escape', 'punycode', 'undefined', 'ascii', '', '"', '"utf-8"', "'x'", '\x00', 'a' * 200, 'mbcs', 'hex', 'utf_7']
JSONS = ['', ' ', '{}', '[]', 'null', 'true', '0', '"x"', '[1,2]', '[["a",1]]', '["ab"]', '{"a":1}', '{"a":{"b":[1,2]}}', '{"a":1', '{"a":}', '{a:1}', "{'a':1}", '[1,]', 'NaN', 'Infinity', '1e999',
         '\xff\xfe', '\xef\xbb\xbf{}', '{"a":"\\ud800"}', '{"":1}', '{"a":1,"a":2}', '\x00', '{"a":"\xc3\xa9"}', '{"a":"\xe9"}', '[' * 30, '{"a":' * 30, '\xfe\xff\x00{', '1' * 50, '"\\u"', '[[1,2]]', '{"a":1}garbage', '-',
         '\xff\xfe{\x00}\x00', '[{}]', '"ab"', '12345']
FAM = ['multipart', 'multipart', 'multipart', 'multipart', 'json', 'form', 'random']


def gen(rng, tier):
    fam = rng.choice(FAM)
    b = mpart.boundary(rng)
    if rng.random() < 0.03:
        b = draw.text(rng, 'aA01-', 1, 9) * rng.choice([8, 25, 60, 300])   # longer than any boundary should be
    data, muts = '', []
    ctype = None
    if fam == 'multipart':
        parts = []
        for i in range(rng.choice([0, 1, 1, 2, 2, 3, 4])):
            h = rng.choice(HDRS)
            h = h % tuple('n%d%s' % (i, rng.choice(['', '', ' x', '\xc3\xa9'] * 8 + LONG)) for _ in range(h.count('%s')))
            if rng.random() < 0.25:
                h = rng.choice(BADHDRS)
                muts.append('header')
            elif rng.random() < 0.1:
                h += '\r\n' + rng.choice(BADHDRS)
                muts.append('header')
            c = mpart.content(rng, b) if rng.random() < 0.4 else 'c%d.' % i + draw.blob(['ctr', rng.choice([0, 1, 5, 40, 200]), i]).decode()
            if 'filename' not in h and rng.random() < 0.85:
                c = c.encode('latin1').decode('ascii', 'ignore')
            parts.append((h, mpart.clean(c, b)))
        raw, hot = mpart.assemble(parts, b, rng.choice(['', '', '', '\r\n', 'preamble\r\n']), rng.choice(['', '\r\n', '\r\n', 'epi']), rng.choice(['--'] * 6 + ['', '-', '\r\n', '--x']))
        data = raw.decode('latin1')
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            data, m = mutate(rng, data, hot, b)
            muts.append(m)
        ctype = 'multipart/form-data; boundary=' + quote(b)
    elif fam == 'json':
        data = rng.choice(JSONS)
        if rng.random() < 0.08:
            data = rng.choice(['[', '{"a":', '[[{"x":[']) * rng.choice([900, 3000, 30000])
            muts.append('deep')
        if rng.random() < 0.3:
            data, m = mutate(rng, data, [], b)
            muts.append(m)
        ctype = 'application/json'
    elif fam == 'form':
        data = ''.join(rng.choice(['a', 'b', '=', '=', '&', '&', '%', '%C3%A9', '%ff', '+', ';', '\xff', '\x00', 'k=v', '&&', '%u1234', '%0', '\xc3\xa9', '\r\n']) for _ in range(rng.randint(0, 25)))
        ctype = 'application/x-www-form-urlencoded'
    else:
        data = ''.join(chr(rng.choice([0, 10, 13, 34, 45, 59, 61, 97, 98, 123, 125, 255, rng.randrange(256)])) for _ in range(rng.randint(0, 80)))
        muts.append('random')
    if ctype is None or rng.random() < 0.2:
        ctype = rng.choice(CTYPES)
        if ctype and '%s' in ctype:
            ctype = ctype % b
        muts.append('ctype')
    if ctype and rng.random() < 0.06:
        ctype += '; charset=' + rng.choice(CHARSETS)
        muts.append('charset')
    n = len(data)
    plan = dict(data=data, ctype=ctype, boundary=b, muts=sorted(set(muts)), fam=fam, framing=rng.choice(['cl', 'chunked']),
                sizes=[rng.randint(1, max(1, n)) for _ in range(3)], mem=draw.pick(rng, (5, 100000), (3, max(1, n + rng.randint(-3, 60))), (2, rng.randint(1, 200))),
                access=[rng.choice(['forms', 'files', 'POST', 'POST', 'params', 'json', 'body']) for _ in range(rng.randint(1, 3))],
                catch=rng.choice([0, 0, 1, 2]), cut=None, dmg=None, method=rng.choice(['POST', 'POST', 'PUT', 'GET']),
                conn=body.conn_gen(rng, n, [data.find('--' + b)], faults=False))
    if n > 2000:
        plan['conn']['frag'] = [x and x * 300 for x in plan['conn']['frag']]
    if rng.random() < 0.15 and n:
        plan['cut'] = rng.randint(1, min(n, 40))
    if plan['framing'] == 'chunked' and rng.random() < 0.25:
        plan['dmg'] = [rng.randrange(1000), rng.choice(['', 'x', '\r', '\n', '-1', ' ', '\r\n', '0', 'ffffffffffffffff', ';', '\xff', '+', '_'])]
    if rng.random() < 0.15:
        plan['empty'] = 1   # CONTENT_LENGTH / CONTENT_TYPE present, but empty
    return plan


def valid(plan):
    return (bool(plan['boundary']) and all(a in ('forms', 'files', 'POST', 'params', 'json', 'body') for a in plan['access'] or ['']) and isinstance(plan['data'], str)
            and plan['framing'] in ('cl', 'chunked') and plan['method'] in ('POST', 'PUT', 'GET'))


def quote(b):
    return '"%s"' % b if any(c in '()<>@,;:\\"/[]?=' for c in b) else b


def mutate(rng, s, hot, b):
    n = len(s)
    if not n:
        return rng.choice(['-', '\r\n', 'x']), 'insert'
    at = min(n, max(0, rng.choice(hot) + rng.randint(-4, 4))) if hot and rng.random() < 0.7 else rng.randint(0, n)
    k = rng.randrange(8)
    if k == 0:
        return s[:at], 'truncate'
    if k == 1:
        return s[:at] + s[min(n, at + rng.randint(1, 6)):], 'delete'
    if k == 2:
        return s[:at] + rng.choice(['\r', '\n', '\r\n', '-', '--', '--' + b, '\r\n--' + b, '\r\n--' + b + '--', '\r\n--' + b + '\r\n', '\r\n\r\n', '\xff', '"', ':', '\x00', ' ']) + s[at:], 'insert'
    if k == 3 and n:
        at = min(at, n - 1)
        return s[:at] + chr(ord(s[at]) ^ (1 << rng.randrange(8))) + s[at + 1:], 'flip'
    if k == 4:
        e = min(n, at + rng.randint(1, 40))
        return s[:e] + s[at:e] + s[e:], 'duplicate'
    if k == 5:
        return s.replace('\r\n', rng.choice(['\n', '\r', '']), rng.choice([1, 1, 2, -1])), 'lineends'
    if k == 6:
        return s.replace('--' + b, rng.choice(['-' + b, '--' + b[:-1], '--' + b + 'x', b, '']), rng.choice([1, 1, -1])), 'delimiter'
    d = '\r\n--' + b
    i = s.find(d, at)
    if i >= 0:
        return s[:i] + s[i + len(d):], 'delimiter'
    return s[:at], 'truncate'


def candidates(data, b):
    """Every (header block, content) terminated by a delimiter in the bytes sent, read generously."""
    d = b'--' + b
    full = b'\r\n' + d
    starts = [len(d)] if data.startswith(d) else []
    i = data.find(full)
    while i >= 0:
        starts.append(i + len(full))
        i = data.find(full, i + 1)
    out = []
    for s in starts:
        if data[s:s + 2] != b'\r\n':
            continue
        for h0 in {s + 2, s}:
            he = data.find(b'\r\n\r\n', h0)
            if he < 0:
                continue
            e = data.find(full, he + 4)
            if e >= 0:
                out.append((data[h0:he], data[he + 4:e]))
    return out


def run(plan, r):
    ombott = world.fresh()
    sent = plan['data'].encode('latin1')
    app = ombott.Ombott(dict(max_memfile_size=max(1, plan['mem'] or 1)))
    fields, log, jsons, nothing = [], [], [], []
    acc = list(plan['access'] or ['body'])

    def handler():
        for i, a in enumerate(acc):
            try:
                v = app.request.body.read() if a == 'body' else getattr(app.request, a)
            except Exception as e:
                log.append((a, e))
                if i >= (plan['catch'] or 0) or i == len(acc) - 1:
                    raise
                continue
            log.append((a, v if not isinstance(v, dict) else 'dict'))
            if a == 'json':
                jsons.append(v)
            elif v is None:
                nothing.append(a)
            if a in ('forms', 'files', 'POST', 'params') and isinstance(v, dict):
                for k in v:
                    for x in (v[k] if isinstance(v[k], list) else [v[k]]):
                        f = getattr(x, 'file', None)
                        if f is not None:
                            f.seek(0)
                            x.filename, x.content_type, x.get_header('X-A')
                            fields.append((k, f.read()))
                        else:
                            fields.append((k, x))
        return 'fine'
    for m in ('POST', 'PUT', 'GET'):
        app.route('/f', method=m, callback=handler)
    if plan['framing'] == 'chunked':
        cs, a, j = [], 0, 0
        sizes = [max(1, x or 1) for x in plan['sizes'] or [7]]
        while a < len(sent):
            n = sizes[j % len(sizes)]
            cs.append(sent[a:a + n])
            a, j = a + n, j + 1
        wire, spans = chunked.encode(cs, [])
        wire += b'\r\n'
        if plan['dmg']:
            p, s = plan['dmg']
            sp = spans[(p or 0) % len(spans)]
            at = sp[(p or 0) // 7 % 4]
            wire = wire[:at] + (s or '').encode('latin1') + wire[at + ((p or 0) // 31 % 3):]
    else:
        wire = sent
    total = len(wire)
    if plan['cut']:
        wire = wire[:max(0, len(wire) - plan['cut'])]
    conn = body.conn_make(wire, dict(plan['conn'] or {}, end='eof', fail=None))
    env = wsgi.make_environ(plan['method'] or 'POST', '/f', inp=conn, content_type=plan['ctype'], content_length=total if plan['framing'] == 'cl' and (total or not plan.get('empty')) else '' if plan.get('empty') else None,
                            headers=[('Transfer-Encoding', 'chunked')] if plan['framing'] == 'chunked' else [])
    ex = wsgi.call(app, env)
    what = '%s body %r%s, content type %r, %s%s, accesses %s' % (plan['fam'], sent[:300], '...' if len(sent) > 300 else '', plan['ctype'], plan['framing'],
                                                              ' (ends %d bytes early)' % plan['cut'] if plan['cut'] else '', acc)
    err = next((e for a, e in log if isinstance(e, Exception)), None)
    if ex.stopped:
        r.fail('hang', '%s: %s' % (what, ex.stopped))
    if ex.escaped:
        r.fail('escaped', '%s: %r' % (what, ex.escaped))
    if ex.code is None or not (ex.code == 200 or 400 <= ex.code < 500):
        r.fail('server-fault', '%s: %s (%r)' % (what, ex.status, err))
    if 'Traceback' in ex.errlog:
        r.fail('traceback', '%s: traceback on wsgi.errors\n%s' % (what, ex.errlog[-600:]))
    if not log:
        r.fail('no-access', '%s: %s' % (what, ex.brief()))
    # ---- integrity of what was delivered
    ctl = (plan['ctype'] or '').lower()
    clean = plan['framing'] == 'cl' or not plan['dmg']
    if fields and ctl.startswith('multipart/'):
        if plan['framing'] == 'cl':
            got = wire
        else:
            got = chunked.decode(wire)[1] if clean else None
        if got is not None:
            cands = candidates(got, plan['boundary'].encode('latin1'))
            for b2 in other_boundaries(plan):
                cands += candidates(got, b2)
            for k, v in fields:
                raw = v if isinstance(v, bytes) else None if v is None else v.encode('utf8', 'surrogateescape') if isinstance(v, str) else None
                if raw is None:
                    r.fail('field-without-data', '%s: field %r has the value %r' % (what, k, v))
                if not any(c == raw for h, c in cands):
                    r.fail('truncated-field', '%s: field %r = %r is no complete part of what was delivered' % (what, k, raw[:100]))
                name = k.encode('utf8') if isinstance(k, str) else b''
                if not any(c == raw and name in h for h, c in cands):
                    r.fail('misplaced-field', '%s: field %r = %r belongs to no part of that name' % (what, k, raw[:100]))
    if fields and ctl.split(';')[0].strip() == 'application/json' and plan['framing'] == 'cl':
        try:
            want = json.loads(wire)
        except Exception:
            want = None
        if not isinstance(want, dict):
            r.fail('json', '%s: fields %s presented' % (what, fields[:3]))
        for k, v in fields:
            if k not in want:
                r.fail('json', '%s: field %r is not in the JSON sent' % (what, k))
    if nothing:
        r.fail('nothing', '%s: %s is None, neither a result nor an error' % (what, nothing))
    if jsons and ctl.split(';')[0].strip() == 'application/json' and clean and not plan['cut'] and 'deep' not in plan['muts']:
        try:
            want, ok = json.loads(sent), True
        except ValueError:
            want, ok = None, not sent
        for j in jsons:
            if not ok:
                r.fail('malformed-accepted', '%s: malformed JSON is presented as %r' % (what, j))
            if repr(j) != repr(want):
                r.fail('json', '%s: the JSON is presented as %r' % (what, j))
    bad = bool(plan['muts'] or plan['cut'] or plan['dmg'])
    mp = ctl.startswith('multipart/')
    four = ex.code >= 400
    r.nontrivial = bad or four
    r.probe('multipart 4xx', mp and four)
    r.probe('multipart still accepted', mp and bad and bool(fields))
    r.probe('json 4xx', plan['fam'] == 'json' and four)
    r.probe('json non-object', plan['fam'] == 'json' and plan['data'][:1] in ('[', '"', '1', '0', 't', 'n') and 'forms' in acc)
    r.probe('urlencoded accepted', plan['fam'] == 'form' and bool(fields))
    r.probe('truncated multipart', plan['fam'] == 'multipart' and ('truncate' in plan['muts'] or bool(plan['cut'])))
    r.probe('no boundary in content type', mp and 'boundary=' not in ctl)
    t = type(err).__name__ if err else None
    msg = str(err)
    r.probe('header without colon', 'header' in plan['muts'] and four)
    r.probe('header not utf-8', mp and '\xff' in plan['data'] and four)
    r.probe('missing name', 'Content-Disposition: form-data\r\n' in plan['data'] and four)
    r.probe('text not utf-8', mp and four and any(ord(c) > 127 for c in plan['data']))
    r.probe('damaged chunk framing', bool(plan['dmg']))
    r.probe('stream ends early', bool(plan['cut']))
    r.probe('field delivered from damaged body', bad and bool(fields))
    r.probe('unterminated last part withheld', mp and plan['framing'] == 'cl' and unterminated(wire, plan['boundary']) and ex.code == 200)
    r.probe('access after a failed access', len([1 for a, e in log if isinstance(e, Exception)]) > 1)
    r.probe('text over the memory threshold', ex.code == 413)
    r.probe('deeply nested JSON', 'deep' in plan['muts'])
    r.probe('odd charset', 'charset' in plan['muts'])
    r.probe('overlong boundary', len(plan['boundary']) > 70)
    r.probe('wrong content type for the body', 'ctype' in plan['muts'])
    for m in plan['muts'] or ():
        r.fault('body ' + m)
    if plan['dmg']:
        r.fault('chunk framing damaged')
    body.conn_account(r, conn)
    r.note(ex.status, ex.body, [(a, repr(e) if isinstance(e, Exception) else '') for a, e in log], fields)
    r.states.append((plan['fam'], tuple(plan['muts'] or ()), ctl[:12], plan['framing'], tuple(acc), ex.code, t))


def unterminated(data, b):
    return not data.rstrip(b'\r\n').endswith(b'--' + b.encode('latin1') + b'--') and (b'--' + b.encode('latin1') + b'\r\n') in data


def other_boundaries(plan):
    import re
    m = re.search(r'boundary\s*=\s*(.*)', plan['ctype'] or '', re.I | re.S)
    out = set()
    if m:
        v = m.group(1)
        for x in (v, v.strip(), v.strip().strip('"'), v.split(';')[0], v.split(';')[0].strip(), v.split(';')[0].strip().strip('"'), v.strip().strip('"').split('"')[0]):
            out |= {x.encode('latin1'), x.encode('utf8')}
    return sorted(x for x in out if x)
