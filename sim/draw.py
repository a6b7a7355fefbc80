"""Generators shared by the property modules. Everything is drawn from the run's PRNG."""
import hashlib


def pick(rng, *weighted):
    """weighted: (weight, value) pairs"""
    tot = sum(w for w, _ in weighted)
    x = rng.random() * tot
    for w, v in weighted:
        x -= w
        if x < 0:
            return v
    return weighted[-1][1]


def frag(rng):
    """Per-read limits of a fragmenting connection."""
    k = rng.randrange(8)
    if k == 0:
        return []
    if k == 1:
        return [1]
    if k == 2:
        return [rng.randint(1, 8)]
    if k == 3:
        return [rng.randint(1, 4) for _ in range(rng.randint(2, 6))]
    if k == 4:
        return [rng.choice([0, 1, 2, 3, 5, 8, 13, 1000]) for _ in range(rng.randint(2, 8))]
    if k == 5:
        return [0] * rng.randint(0, 6) + [rng.randint(1, 3)] + [0] * rng.randint(1, 6)
    if k == 6:
        return [rng.randint(1, 64) for _ in range(rng.randint(1, 12))]
    return [0, 1]


def segs(rng, length, hot=()):
    """Absolute offsets no read crosses: near the interesting ones, or anywhere."""
    out = set()
    if length < 2 or rng.random() < 0.3:
        return []
    hot = [h for h in hot if 0 < h < length]
    for _ in range(rng.choice([1, 1, 2, 3, 5, 8])):
        if hot and rng.random() < 0.75:
            out.add(rng.choice(hot) + rng.choice([-3, -2, -1, 0, 0, 1, 2, 3]))
        else:
            out.add(rng.randrange(1, length))
    return sorted(x for x in out if 0 < x < length)


def blob(spec):
    """[kind, length, salt] -> bytes; every stretch of it tells where it came from"""
    kind, n, salt = spec
    n = max(0, int(n))
    if kind == 'ctr':
        out = bytearray()
        i = 0
        while len(out) < n:
            out += b'%x.%d|' % (i, salt)
            i += 1
        return bytes(out[:n])
    if kind == 'rnd':
        out = bytearray()
        i = 0
        while len(out) < n:
            out += hashlib.sha512(b'%d/%d' % (salt, i)).digest()
            i += 1
        return bytes(out[:n])
    if kind == 'crlf':
        pat = [b'\r\n', b'\n', b'\r', b'--', b'0\r\n\r\n', b'a', b'\r\n--', b';', b'%d' % salt]
        out = bytearray()
        i = 0
        while len(out) < n:
            h = hashlib.sha1(b'%d:%d' % (salt, i)).digest()
            for c in h:
                out += pat[c % len(pat)]
            i += 1
        return bytes(out[:n])
    return (b'%d' % (salt % 10)) * n


def blobspec(rng, n):
    return [rng.choice(['ctr', 'ctr', 'rnd', 'crlf']), n, rng.randrange(1000)]


def memfile(rng):
    return pick(rng, (3, rng.randint(1, 8)), (4, rng.randint(9, 64)), (3, rng.randint(65, 700)),
                (1, 1024), (1, 8192), (1, 102400))


def around(rng, n, spread=3):
    return max(0, n + rng.randint(-spread, spread))


def text(rng, alphabet, lo, hi):
    return ''.join(rng.choice(alphabet) for _ in range(rng.randint(lo, hi)))
