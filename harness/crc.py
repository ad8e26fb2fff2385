"""The checksum of 0-db (CRC-32C polynomial, initial value 0, no final inversion) and its collisions."""

POLY = 0x82F63B78


def _table():
    t = []
    for i in range(256):
        x = i
        for _ in range(8):
            x = (x >> 1) ^ (POLY if x & 1 else 0)
        t.append(x)
    return t


T = _table()
_BACK = {t >> 24: i for i, t in enumerate(T)}
_cache = {}


def crc(b):
    c = _cache.get(b) if len(b) > 512 else None
    if c is None:
        c = 0
        for x in b:
            c = (c >> 8) ^ T[(c ^ x) & 255]
        if len(b) > 512:
            _cache[b] = c
    return c


def forge(prefix, target):
    """prefix followed by the 4 bytes which make its checksum target"""
    idx = []
    c = target
    for _ in range(4):
        i = _BACK[c >> 24]
        idx.append(i)
        c = ((c ^ T[i]) << 8) & 0xffffffff
    c = crc(prefix)
    out = bytearray()
    for i in reversed(idx):
        out.append((c ^ i) & 255)
        c = (c >> 8) ^ T[i]
    r = prefix + bytes(out)
    assert crc(r) == target
    return r


def colliding_keys(rnd, n=3):
    """distinct keys of one index bucket: equal low 24 bits; the first two have equal length"""
    base = rnd.getrandbits(24)
    r = []
    for i in range(n):
        hi = rnd.getrandbits(8) if i else 7
        r.append(forge(rnd.randbytes(4 + (0 if i < 2 else 3 * i)), base | hi << 24))
    return r


def colliding_values(rnd, length, before=b"", after=b""):
    """two different payloads of one length and one checksum, with a common start and a common end"""
    n = length - len(before) - len(after)
    a = before + rnd.randbytes(n)
    while True:
        b = forge(before + rnd.randbytes(n - 4), crc(a))
        if b != a:
            return a + after, b + after
