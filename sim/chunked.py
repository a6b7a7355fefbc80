"""Reference encoder/decoder for chunked transfer coding (RFC 9112 section 7.1)."""
import re

LINE = re.compile(rb'^([0-9a-fA-F]+)[ \t]*((?:;[^\r\n]*)?)$')


def encode(chunks, opts):
    """chunks: list of payload bytes; opts: per chunk {upper, zeros, ext}; returns
    (encoded, list of [size-line start, data start, data end, end])"""
    out, spans = b'', []
    for i, c in enumerate(list(chunks) + [b'']):
        o = opts[i] if i < len(opts) else {}
        h = '%x' % len(c)
        if o.get('upper'):
            h = h.upper()
        h = '0' * int(o.get('zeros') or 0) + h
        line = h + (o.get('ext') or '')
        a = len(out)
        out += line.encode('latin1') + b'\r\n'
        b = len(out)
        out += c
        d = len(out)
        if c:
            out += b'\r\n'
        spans.append([a, b, d, len(out)])
    return out, spans


def decode(data):
    """('ok', payload, end of the zero chunk's line) | ('truncated'|'nocrlf'|'badline', payload so far, pos)"""
    pos, out = 0, b''
    while True:
        e = data.find(b'\r\n', pos)
        if e < 0:
            # no complete size line: cut short, unless what is there is no beginning of one
            if re.match(rb'^[0-9a-fA-F]*[ \t]*(;.*|\r?)$', data[pos:], re.S) and b'\n' not in data[pos:]:
                return 'truncated', out, pos
            return 'badline', out, pos
        m = LINE.match(data[pos:e])
        if not m:
            return 'badline', out, pos
        n = int(m.group(1), 16)
        pos = e + 2
        if n == 0:
            return 'ok', out, pos
        if len(data) - pos < n:
            return 'truncated', out, pos
        out += data[pos:pos + n]
        pos += n
        if data[pos:pos + 2] != b'\r\n':
            if b'\r\n'.startswith(data[pos:pos + 2]):
                return 'truncated', out, pos
            return 'nocrlf', out, pos
        pos += 2
