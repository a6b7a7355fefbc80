"""Well-formed multipart/form-data bodies, built part by part with known positions."""
from . import draw

NASTY = ['\r\n', '\r', '\n', '-', '--', '\r\n-', '\r\n--', '\n--', '\r--', '\r\r\n', '\r\n\r\n', '\n\n', '--\r\n', 'a', 'b', ' ', '\x00', '\xff',
         'xyz', ';', '=', '"', ':']


def boundary(rng):
    k = rng.randrange(10)
    if k < 3:
        return draw.text(rng, 'ab', 1, 4)
    if k < 5:
        return draw.text(rng, 'a-', 1, 6).rstrip(' ') or 'a'
    if k == 5:
        return '-' * rng.randint(1, 5)
    if k == 6:
        return '----WebKitFormBoundary' + draw.text(rng, 'abcXYZ019', 16, 16)
    if k == 7:
        return '-' * 27 + draw.text(rng, '0123456789', 10, 29)
    if k == 8:
        return draw.text(rng, "abz019'()+_,-./:=?", 1, 70)
    return draw.text(rng, 'aA01', 1, 12)


def content(rng, b, maxlen=60):
    """Bytes (latin-1 text) full of delimiter look-alikes, but without the delimiter."""
    tok = '\r\n--' + b
    out = ''
    n = rng.choice([0, 0, 1, 2, 3, 5, 8])
    for _ in range(n):
        k = rng.randrange(9)
        if k < 3:
            out += rng.choice(NASTY)
        elif k < 5:
            out += tok[:rng.randint(1, len(tok) - 1)]
        elif k == 5:
            out += tok[rng.randint(1, len(tok) - 1):]
        elif k == 6:
            i = rng.randrange(len(tok))
            out += tok[:i] + rng.choice('\r\n-xaB') + tok[i + 1:]
        elif k == 7:
            out += draw.text(rng, [chr(c) for c in (0, 10, 13, 45, 97, 128, 255)], 1, 12)
        else:
            out += draw.text(rng, 'abcdef 0123', 1, maxlen)
    return clean(out, b)


def clean(s, b):
    """No delimiter in the content, nor one formed together with what precedes or follows it."""
    tok = '\r\n--' + b
    while tok in s:
        s = s.replace(tok, tok[:-1])
    return s


def assemble(parts, b, preamble='', epilogue='', close='--'):
    """parts: [(header block text, content text)] latin-1; returns (bytes, hot offsets)"""
    out = preamble + '--' + b
    hot = [len(out) - len(b) - 2, len(out)]
    for head, data in parts:
        out += '\r\n' + head + '\r\n\r\n'
        hot += [len(out) - 4, len(out)]
        out += data
        hot += [len(out), len(out) + 2]
        out += '\r\n--' + b
        hot.append(len(out))
    out += close + epilogue
    hot.append(len(out) - len(epilogue))
    return out.encode('latin1'), hot


def cuts(rng, n, hot):
    """A division of n bytes into reads: sorted inner offsets."""
    if n < 2:
        return []
    k = rng.randrange(8)
    if k == 0:
        return list(range(1, n))
    if k == 1:
        s = rng.randint(1, 9)
        return list(range(rng.randint(1, s), n, s))
    if k == 2:
        return [rng.randrange(1, n)]
    near = [min(n - 1, max(1, h + rng.randint(-4, 4))) for h in hot] or [1]
    if k <= 4:
        h = rng.choice(near)
        return sorted(set(min(n - 1, max(1, h + d)) for d in range(rng.randint(-4, 0), rng.randint(1, 5))))
    if k == 5:
        return sorted(set(rng.sample(near, min(len(near), rng.randint(1, 4)))))
    return sorted(set([rng.choice(near) for _ in range(2)] + [rng.randrange(1, n) for _ in range(rng.randint(1, 5))]))
