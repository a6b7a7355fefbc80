"""C07  Multipart forms and uploads round-trip exactly."""
import io

from .. import draw, world, wsgi, body, core, mpart, chunked

PROP = 'C07'
RUNS = {'quick': 20000, 'thorough': 400000}
RULE = ('one run = 1-2 forms (0-6 fields, text and files interleaved, repeated names, names and file names with semicolons, equals signs, spaces, backslashes, UTF-8; '
        'contents full of CR, LF, dashes and delimiter look-alikes) encoded by an independent multipart encoder under a drawn boundary, header spelling and framing, '
        'delivered over a fragmenting connection to an app whose memory threshold is at or above what headers and texts need, and taken apart by a handler '
        'program of form/file accesses with interleaved reads, seeks and saves of the uploads. Non-trivial: at least two fields, or one with look-alike content or '
        'special characters in a name.')
STATES = 'distinct (kinds and repetition pattern of the fields, special character classes, framing, spilled, handler program)'
PROBES = ['no fields', 'repeated text name', 'repeated file name', 'name shared by text and file', 'semicolon in name', 'equals in name', 'backslash in name', 'UTF-8 name',
          'special characters in file name', 'empty text', 'empty file', 'empty file name', 'content ends with part of the delimiter', 'content starts with part of the delimiter',
          'spilled to disk', 'chunked', 'quoted boundary', 'interleaved reads of two uploads', 'binary content', 'saved', 'content type with parameters', 'body read before the form']
REAL = ['Ombott', 'Request.POST/forms/files', 'multipart parser', 'FileUpload', 'BytesIOProxy', 'spool file contents (real files)']
STUB = ['WSGI server', 'connection (wsgi.input)', 'client-side encoder', 'handler programs']
ASSUMPTIONS = ['text fields are UTF-8, also when the part declares a Content-Type', 'names are quoted without escapes as browsers do', 'headers and texts fit the memory threshold (else C13 applies)',
               'an upload with an empty file name may be presented as file or as text']

NAMES = ['a', 'a', 'b', 'n', 'file', 'a;b', 'a=b', 'a; name=x', 'x; filename=y', 'sp ace', ' lead', 'trail ', 'back\\slash', 'a\\', '\xfc\xf1\xee', '\u65e5\u672c', '\U0001f600', ';', '=', ';;==', "it's", 'a,b', 'a:b',
         'a[0]', 'name', 'filename', '', 'A', '--', 'x' * 90, 'a%22b', 'tab\tx', 'a/b', '\u2028x', 'e\u0301', 'self', 'copy', '*', 'a\x0bb', '\x85', 'form-data; name=z', '\ufeff', '\ufeffa', 'a\ufeff', '%41', '=?utf-8?q?a?=', "'a'", '&#65;']
FNAMES = ['f.txt', 'f.txt', 'C:\\dir\\f.txt', '../../etc/passwd', 'a;b.txt', 'a=b', 'sp ace.bin', '\u65e5\u672c.txt', 'no', '.', 'x' * 300, "it's", 'a; filename=q', ' ', '\\', 'name="'[:5], 'z;', '=', '\xe9', '', '%00', 'a, b', '\ufeffa', '%41.txt', '=?utf-8?q?a?=', "'a'", 'a.TXT', 'A:b', "utf-8''a", '~a', '/abs', 'dir/f.txt', 'dir\\', 'a..b']
CTS = ['text/plain', 'application/octet-stream', 'image/png', 'text/plain; charset=utf-8', 'application/x; a="b;c"; d=e', None, None, 'x/y']


def field(rng, b):
    kind = rng.choice(['text', 'text', 'file'])
    name = rng.choice(NAMES) if rng.random() < 0.8 else draw.text(rng, 'ab;= \\\xe9\u65e5\'.,:-', 0, 10)
    if kind == 'text':
        k = rng.randrange(5)
        v = (rng.choice(['\ufeff', '\ufeffa', '\x00', 'a\x00', '\ufffe', '\x1a', '\u2028', '\x85', ' a ', '\ta', '%41', '&#65;', '=?utf-8?q?a?=', '"a"', "'a'"]) if rng.random() < 0.06 else
             '' if k == 0 else mpart.content(rng, b).encode('latin1').decode('ascii', 'ignore') if k < 3 else
             draw.text(rng, 'ab \r\n-\xe9\u65e5\U0001f600;="', 0, 30))
        return ['text', name, None, rng.choice([None, None, None, 'text/plain', 'text/plain; charset=utf-8']), v]
    v = '' if rng.random() < 0.12 else mpart.content(rng, b)
    if rng.random() < 0.15:
        v += draw.blob(draw.blobspec(rng, rng.choice([10, 300, 2000, 9000]))).decode('latin1')
    return ['file', name, rng.choice(FNAMES) if rng.random() < 0.8 else draw.text(rng, 'ab;= \\.\xe9', 1, 8), rng.choice(CTS), v]


def gen(rng, tier):
    forms = []
    for _ in range(draw.pick(rng, (4, 1), (1, 2))):
        b = mpart.boundary(rng)
        if rng.random() < 0.1:
            b = draw.text(rng, "ab 1'()+_,-./:=?", 1, 12).strip() or 'q'
        fs = [field(rng, b) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 6]))]
        if len(fs) > 1 and rng.random() < 0.4:
            n = rng.choice(fs)[1]
            for f in fs:
                if rng.random() < 0.6:
                    f[1] = n
        fs = [f[:4] + [clean(f, b)] for f in fs]
        forms.append(dict(boundary=b, fields=fs, quoted=needs_quote(b) or rng.random() < 0.3, style=rng.randrange(6), extra=rng.random() < 0.2, pre=rng.choice(['', '', '', '\r\n']),
                          epi=rng.choice(['', '\r\n', '\r\n', 'epilogue --' + b]), framing=rng.choice(['cl', 'cl', 'chunked']), sizes=[rng.randint(1, 400) for _ in range(3)],
                          slack=rng.choice([0, 0, 1, 17, 100000]), prog=[rng.choice(['forms', 'files', 'POST', 'copy', 'body', 'params']) for _ in range(rng.randint(1, 4))],
                          reads=[rng.choice([1, 3, 7, 64, 0, -1]) for _ in range(4)], how=rng.choice(['read', 'interleave', 'save', 'seek']),
                          conn=body.conn_gen(rng, 400, range(0, 400, 37), faults=False)))
    return dict(forms=forms, method=rng.choice(['POST', 'POST', 'PUT']))


def needs_quote(b):
    return any(c in '()<>@,;:\\"/[]?= ' for c in b)


def raw(f):
    return f[4].encode('utf8') if f[0] == 'text' else f[4].encode('latin1')


def clean(f, b):
    # latin-1 text is a byte string for files, so cleaning works on bytes for both
    tok = ('\r\n--' + b).encode()
    v = raw(f)
    while tok in v:
        v = v.replace(tok, tok[:-1])
    return v.decode('utf8' if f[0] == 'text' else 'latin1', 'ignore')


def valid(plan):
    for fm in plan['forms']:
        b = fm['boundary']
        if not b or len(b) > 70 or b[-1] == ' ' or b[0] == ' ' or (needs_quote(b) and not fm['quoted']) or any(not (c.isalnum() and ord(c) < 128 or c in "'()+_,-./:=? ") for c in b):
            return False
        tok = ('\r\n--' + b).encode()
        if '--' + b in (fm['epi'] or '') and fm['epi'].startswith('\r\n--' + b):
            return False
        for f in fm['fields'] or ():
            if f[0] not in ('text', 'file') or not isinstance(f[1], str) or not isinstance(f[4], str) or any(c in '"\r\n' for c in f[1] + (f[2] or '')):
                return False
            if f[0] == 'file' and not isinstance(f[2], str) or (f[0] == 'text' and f[2] is not None):
                return False
            if (raw(f) + tok).find(tok) != len(raw(f)):
                return False
            if f[3] is not None and (f[3].count('/') != 1 or f[3].startswith('/') or f[3] != f[3].strip()):
                return False
    return True


def encode(fm):
    b = fm['boundary'].encode()
    out = (fm['pre'] or '').encode() + b'--' + b
    need = 0
    for i, (kind, name, fname, ct, v) in enumerate(fm['fields'] or ()):
        st = ((fm['style'] or 0) + i) % 6
        cd = ['Content-Disposition', 'content-disposition', 'CONTENT-DISPOSITION', 'Content-Disposition', 'Content-Disposition', 'Content-Disposition'][st]
        sep = [': ', ':', ': ', ': ', ':  ', ': '][st]
        semi = ['; ', ';', ' ; ', '; ', ';  ', '; '][st]
        n, f = '%s="%s"' % ('Name' if st == 5 else 'name', name), '%s="%s"' % ('FileName' if st == 5 else 'filename', fname)
        if st == 3 and name and name.isalnum() and name.isascii():
            n = 'name=%s' % name
        ps = [n] + ([f] if kind == 'file' else [])
        if st == 4:
            ps.reverse()
        h = [cd + sep + 'form-data' + semi + semi.join(ps)]
        if ct is not None:
            h.insert(0 if st == 5 else 1, ['Content-Type', 'content-type'][st == 1] + sep + ct)
        if fm['extra']:
            h.append('X-Extra: form-data; name="other"; filename="other"')
        head = '\r\n'.join(h).encode('utf8')
        data = raw([kind, name, fname, ct, v])
        need += len(head) + 4 + (len(data) if kind == 'text' or not fname else 0)
        out += b'\r\n' + head + b'\r\n\r\n' + data + b'\r\n--' + b
    return out + b'--' + (fm['epi'] or '').encode(), need


def norm(v):
    return v if isinstance(v, list) else [v]


def run(plan, r):
    ombott = world.fresh()
    with body.Spool([]) as disk:
        for i, fm in enumerate(plan['forms']):
            one(ombott, plan, fm, i, r, disk)


def one(ombott, plan, fm, i, r, disk):
    data, need = encode(fm)
    app = ombott.Ombott(dict(max_memfile_size=max(1, need + (fm['slack'] or 0))))
    res = []

    def take(v, name):
        """a presented value -> comparable"""
        f = getattr(v, 'file', None)
        if f is None:
            return ('text', v)
        ups.append(v)
        return ('file', v, v.raw_filename, v.content_type)

    ups = []

    def handler():
        for p in fm['prog'] or ['POST']:
            req = app.request
            if p == 'body':
                req.body.read(5)
                continue
            del ups[:]
            if p == 'copy':
                req.body        # a copy made earlier would take the stream away from the original
                v = req.copy().POST
                p = 'POST'
            else:
                v = getattr(req, p)
            got = {k: [take(x, k) for x in norm(v[k])] for k in v}
            lists = {k: isinstance(v[k], list) for k in v}
            contents = drain(ups, fm, r)
            got = {k: [x if x[0] == 'text' else ('file', contents[id(x[1])], x[2], x[3]) for x in vs] for k, vs in got.items()}
            res.append((p, got, lists))
        return 'fine'
    app.route('/u', method=plan['method'] or 'POST', callback=handler)
    hd = []
    if fm['framing'] == 'chunked':
        cs, a, j = [], 0, 0
        sizes = [max(1, x or 1) for x in fm['sizes'] or [50]]
        while a < len(data):
            n = sizes[j % len(sizes)]
            cs.append(data[a:a + n])
            a, j = a + n, j + 1
        wire = chunked.encode(cs, [])[0] + b'\r\n'
        hd = [('Transfer-Encoding', 'chunked')]
    else:
        wire = data
    b = fm['boundary']
    conn = body.conn_make(wire, dict(fm['conn'] or {}, end='eof', fail=None))
    ct = ['multipart/form-data; boundary=', 'multipart/form-data; charset=utf-8; boundary=', 'multipart/form-data;boundary=',
          'multipart/form-data; boundary=', 'Multipart/Form-Data; Boundary=', 'multipart/form-data ; BOUNDARY='][(fm['style'] or 0) % 6] + ('"%s"' % b if fm['quoted'] else b)
    files0 = len(disk.files)
    ex = wsgi.call(app, wsgi.make_environ(plan['method'] or 'POST', '/u', inp=conn, content_type=ct, headers=hd, content_length=len(data) if fm['framing'] != 'chunked' else [None, ''][(fm['style'] or 0) % 2]))
    fields = fm['fields'] or []
    what = 'form %d: %s, boundary %r, %s' % (i, str([(f[0], f[1], f[2], f[3], raw(f)[:60]) for f in fields])[:900], b, fm['framing'])
    if ex.stopped or ex.escaped:
        r.fail('hang' if ex.stopped else 'escaped', '%s: %r' % (what, ex.stopped or ex.escaped))
    if ex.code != 200:
        r.fail('refused', '%s: %s %r' % (what, ex.status, ex.errlog[-800:]))
    for p, got, lists in res:
        compare(r, what, p, got, lists, fields)
    # ---- account
    body.conn_account(r, conn)
    names = [f[1] for f in fields]
    kinds = {}
    for f in fields:
        kinds.setdefault(f[1], []).append(f[0])
    special = set()
    for f in fields:
        for c, nm in ((';', 'semicolon'), ('=', 'equals'), ('\\', 'backslash')):
            if c in f[1]:
                special.add(nm)
                r.probe(nm + ' in name')
        if not f[1].isascii():
            special.add('utf8')
            r.probe('UTF-8 name')
        if f[2] and any(c in ';=\\ ' or ord(c) > 127 for c in f[2]):
            special.add('fname')
            r.probe('special characters in file name')
        d = raw(f)
        r.probe('content ends with part of the delimiter', d.endswith((b'\r', b'\r\n', b'\r\n-', b'\r\n--')))
        r.probe('content starts with part of the delimiter', d.startswith((b'\n', b'\r', b'-', b'\r\n-')))
        r.probe('binary content', f[0] == 'file' and any(x > 127 for x in d))
        r.probe('empty text', f[0] == 'text' and not d)
        r.probe('empty file', f[0] == 'file' and not d)
        r.probe('empty file name', f[2] == '')
        r.probe('content type with parameters', f[0] == 'file' and ';' in (f[3] or ''))
    r.probe('no fields', not fields)
    r.probe('repeated text name', any(v.count('text') > 1 for v in kinds.values()))
    r.probe('repeated file name', any(v.count('file') > 1 for v in kinds.values()))
    r.probe('name shared by text and file', any(len(set(v)) > 1 for v in kinds.values()))
    r.probe('spilled to disk', len(disk.files) > files0)
    r.probe('chunked', fm['framing'] == 'chunked')
    r.probe('quoted boundary', bool(fm['quoted']))
    r.probe('body read before the form', 'body' in (fm['prog'] or ())[:-1])
    if len(fields) > 1 or special or any(b'\r' in raw(f) for f in fields):
        r.nontrivial = True
    pat = tuple((f[0], names.index(f[1])) for f in fields)
    r.note(ex.status, [(p, repr(sorted(got.items()))) for p, got, lists in res])
    r.states.append((pat, tuple(sorted(special)), fm['framing'], len(disk.files) > files0, tuple(fm['prog'] or ()), fm['how']))


def drain(ups, fm, r):
    """Read all uploads the way the plan says; id(upload) -> bytes"""
    how = fm['how']
    sizes = [x if x is not None else -1 for x in fm['reads'] or [-1]]
    out = {}
    for u in ups:
        u.file.seek(0)
    if how == 'interleave':
        parts = {id(u): [] for u in ups}
        live = list(ups)
        j = 0
        if len(ups) > 1:
            r.probe('interleaved reads of two uploads')
        while live:
            for u in list(live):
                n = sizes[j % len(sizes)]
                j += 1
                d = u.file.read(n) if n >= 0 else readall(u.file, j)
                if n >= 0 and len(d) > n:
                    r.fail('over-read', 'upload read(%d) returned %d bytes' % (n, len(d)))
                parts[id(u)].append(d)
                if not d and n != 0:
                    live.remove(u)
                if j > 60 and sum(map(len, parts[id(u)])) > 200 and u in live:
                    parts[id(u)].append(u.file.read())
                    live.remove(u)
                if j > 5000:
                    for u in live:
                        parts[id(u)].append(u.file.read())
                    live = []
                    break
        return {k: b''.join(v) for k, v in parts.items()}
    for u in ups:
        if how == 'save':
            f = io.BytesIO()
            u.save(f, chunk_size=max(1, sizes[0]))
            out[id(u)] = f.getvalue()
            r.probe('saved')
        elif how == 'seek':
            n = u.file.seek(0, 2)
            n = u.file.tell()
            u.file.seek(max(0, n - 2))
            tail = readall(u.file, n)
            if n >= 2:
                u.file.seek(-2, 2)
                t2 = u.file.read(100)
                u.file.seek(n - 2)
                a = u.file.read(1)
                u.file.seek(0, 1)
                a += readall(u.file, n + 1)
                if t2 != tail or a != tail or u.file.tell() != n:
                    r.fail('seek', 'upload: last two bytes read as %r, %r and %r, ends at %d of %d' % (tail, t2, a, u.file.tell(), n))
            for k, (off, wh) in enumerate([(-1 - n % 5, 0), (-n - 3, 2), (-n - 7, 1), (2, 2), (n + 9, 0)]):
                # before the beginning or behind the end: refused, or clipped to the upload
                try:
                    u.file.seek(off, wh)
                except (ValueError, OSError):
                    continue
                got = readall(u.file, k)
                if got not in raws(fm):
                    r.fail('over-read', 'upload of %d bytes: seek(%d, %d), then read() -> %r' % (n, off, wh, got[:60]))
            u.file.seek(0)
            d = readall(u.file, len(tail))
            if len(d) != n or not d.endswith(tail) or len(tail) != min(2, n):
                r.fail('seek', 'upload: end at %d, tail %r, content %d bytes ...%r' % (n, tail, len(d), d[-4:]))
            out[id(u)] = d
        else:
            out[id(u)] = readall(u.file, sizes[0])
            if u.file.read() or u.file.read(5):
                r.fail('over-read', 'upload: data after its end')
    return out


def raws(fm):
    return {b''} | {raw(f) for f in fm['fields'] if f[0] == 'file'}


def readall(f, j):
    return [f.read, lambda: f.read(-1), lambda: f.read(None), lambda: f.read(1 << 40)][j % 4]()


def compare(r, what, p, got, lists, fields):
    want = {}
    for kind, name, fname, ct, v in fields:
        x = ('text', v) if kind == 'text' else ('file', v.encode('latin1'), fname, ct)
        if kind == 'file' and fname == '':
            x = ('either', v.encode('latin1'), fname, ct)
        want.setdefault(name, []).append(x)
    for name, ws in want.items():
        gs = got.get(name, [])
        if p in ('forms', 'params'):
            ws = [w for w in ws if w[0] != 'file']
        elif p == 'files':
            ws = [w for w in ws if w[0] != 'text']
        hard = [w for w in ws if w[0] != 'either']
        gs2 = list(gs)
        if p in ('forms', 'files', 'params'):
            # uploads without a file name may be on either side
            soft = [w for w in ws if w[0] == 'either']
            if len(gs) == len(hard) + len(soft):
                pass
            else:
                ws = hard
        if len(gs) != len(ws):
            r.fail('fields-lost', '%s\n %s[%r] holds %d values, %d were submitted: %s' % (what, p, name, len(gs), len(ws), str(gs)[:300]))
        for g, w in zip(gs, ws):
            if not same(g, w):
                r.fail('field-changed', '%s\n %s[%r] presents %s, submitted %s' % (what, p, name, str(g)[:300], str(w)[:300]))
        if lists.get(name) and len(ws) == 1:
            r.fail('field-changed', '%s\n %s[%r] is a list, one value was submitted' % (what, p, name))
    for name in got:
        if name not in want:
            r.fail('field-invented', '%s\n %s[%r] was not submitted' % (what, p, name))


def same(g, w):
    if w[0] == 'text':
        return g[0] == 'text' and g[1] == w[1]
    if w[0] == 'either' and g[0] == 'text':
        return isinstance(g[1], str) and g[1].encode('utf8', 'replace') == w[1]
    if g[0] != 'file' or g[1] != w[1] or g[2] != w[2]:
        return False
    if w[3] is not None:
        if not isinstance(g[3], str):
            return False
        if ';' in w[3]:
            return [x.strip() for x in g[3].split(';')] == [x.strip() for x in w[3].split(';')]
        return g[3] == w[3]
    return True
