"""Profiles: what the scripts generated from the specification are about."""
import random, struct
import crc
from driver import argrec, clip, default_cfg


def words():
    return ["SET", "SETX", "GET", "MGET", "DEL", "EXISTS", "CHECK", "SCAN", "SCANX", "RSCAN", "KSCAN",
            "HISTORY", "KEYCUR", "LENGTH", "KEYTIME", "DBSIZE", "NSNEW", "NSDEL", "NSLIST", "NSSET",
            "NSINFO", "NSJUMP", "SELECT", "RELOAD", "FLUSH", "AUTH", "INDEX", "DATA", "PING", "TIME",
            "WAIT", "HOOKS", "INFO", "MIRROR", "MASTER", "*", "NOSUCH", "GETX"]


class Profile:
    def __init__(self, ops, cfg=None, keys=None, vals=None, names=None, ts=None, pws=None, props=None,
                 clients=(1,), setup=(), depth=150, bytes_=None, waits=("*", "SET", "GET", "DEL", "PING"),
                 timeouts=("100", "150"), owners=("77", "0"), prefixes=None, ns="x", mode=None,
                 wordlist=None, rnd=None):
        rnd = rnd or random.Random(1)
        self.bytes = {}
        self.cfg = default_cfg(**(cfg or {}))
        keys = keys if keys is not None else std_keys(rnd)
        vals = vals if vals is not None else std_vals(rnd)
        self.keys = self.addall(keys)
        self.vals = self.addall(vals)
        self.names = [self.lit(n) for n in (names or ["x", "y", "default"])]
        self.ts = [self.lit(str(t)) for t in (ts or [0, 1, 1500000000, 2147483647, 2147483648,
                                                     4294967295, 4294967296 + 7])]
        self.pws = [self.lit(p) for p in (pws or ["secret", "wrong"])]
        self.props = [[self.lit(a), self.lit(b)] for a, b in (props or [("lock", "0")])]
        self.waits = [self.lit(w) for w in waits]
        self.timeouts = [self.lit(t) for t in timeouts]
        self.owners = [self.lit(o) for o in owners]
        for t in ("600000", "0", "28", "", "SECURE", "CHALLENGE", "DIRTY", "RESET", "RAW", "default", "zzbar"):
            self.lit(t)
        if prefixes is None:
            prefixes = sorted({b[:n] for b in keys.values() for n in (1, 2, len(b)) if b[:n]})[:24]
        self.prefixes = []
        for b in prefixes:
            self.prefixes.append(self.raw(b))
        self.junk8 = [self.raw(x) for x in (b"\0" * 8, b"\xff" * 8, struct.pack("<II", 0, 29),
                                            struct.pack("<II", 0, 30), struct.pack("<II", 5, 29), b"short", b"123456789")]
        self.junk17 = [self.raw(x) for x in (b"\0" * 17, b"\xff" * 17, b"x" * 16, b"y" * 18, b"\x05" * 17,
                                             rnd.randbytes(17), rnd.randbytes(17))]
        self.badids = [self.raw(x) for x in (b"\0", b"12345678", b"\xff" * 8, struct.pack("<Q", 1 << 32),
                                             struct.pack("<Q", (1 << 32) + 1), b"1234567", b"123456789",
                                             struct.pack("<Q", 4096), struct.pack("<Q", 1 << 40), b"k", b"z" * 255,
                                             b"\0" * 16)]
        self.odd = [self.raw(x) for x in (b"", b"a", b"\0", b"z" * 256, b"-1", b"99999999999999999999",
                                          b"default", b"x", b"\r\n", b"*", b"q" * 300, b"%s%n", b"1", b"w" * 130)]
        self.words = [self.lit(w) for w in (wordlist or words())]
        if bytes_:
            for t, b in bytes_.items():
                self.bind(t, b)
        self.clients = list(clients)
        self.ops = []
        for op, w in ops.items():
            self.ops += [op] * max(1, round(w * 10)) if w else []
        self.depth = depth
        self.rebuild = ["user"]
        self.cfgs = [self.cfg]          # the options the daemon is given, one time or another
        self.stops = ["kill", "stop", "term", "int"]
        self.hms = [["jump-index", "ok"]]
        self.setup = list(setup)

    def bind(self, t, b):
        if t in self.bytes:
            assert self.bytes[t] == b, (t, b)
        assert b not in self.bytes.values() or self.bytes.get(t) == b, (t, b)
        self.bytes[t] = b

    def find(self, b):
        for t, x in self.bytes.items():
            if x == b:
                return t
        return None

    def addall(self, d):
        r = []
        for t, b in d.items():
            f = self.find(b)
            if f is None:
                self.bind(t, b)
                f = t
            r.append(f)
        return r

    def lit(self, t):
        b = t.encode("latin-1")
        f = self.find(b)
        if f is not None:
            return f
        assert t not in self.bytes, t
        self.bind(t, b)
        return t

    def raw(self, b):
        f = self.find(b)
        if f is not None:
            return f
        if len(b) == 8 and struct.unpack("<Q", b)[0] < 1 << 24:
            t = "#%d" % struct.unpack("<Q", b)[0]
        elif 0 < len(b) <= 24 and b.isalnum() and b.decode() not in self.bytes:
            t = b.decode()
        else:
            t = "b%d" % len(self.bytes)
        self.bind(t, b)
        return t

    def cmd(self, c, *a):
        return {"k": "cmd", "c": c, "a": [self.lit(x) for x in a]}

    def conn(self, c):
        return {"k": "conn", "c": c}

    def json(self):
        return {"cfg": dict(self.cfg, dmax=clip(self.cfg["dmax"])), "cfgs": [dict(c, dmax=clip(c["dmax"]), isz=self.cfg["isz"]) for c in self.cfgs],
                "args": {t: argrec(t, b) for t, b in self.bytes.items()},
                "keys": self.keys, "vals": self.vals, "names": self.names, "ts": self.ts, "pws": self.pws,
                "props": self.props, "waits": self.waits, "timeouts": self.timeouts, "owners": self.owners,
                "prefixes": self.prefixes, "junk8": self.junk8, "junk17": self.junk17, "badids": self.badids,
                "odd": self.odd, "words": self.words, "clients": self.clients, "rebuild": self.rebuild, "stops": self.stops, "hms": self.hms, "ops": self.ops,
                "depth": self.depth, "setup": self.setup}


def std_keys(rnd, n=12):
    """short and long keys, prefixes of each other, binary ones, three of one index bucket"""
    c = crc.colliding_keys(rnd, 3)
    ks = [b"a", b"ab", c[0], c[1], c[2], b"k" * 255, b"\0", b"\0\0", b"abcdefgh", rnd.randbytes(40),
          b"key:1", b"key:10"][:n]
    return {"k%d" % i: b for i, b in enumerate(ks)}


def std_vals(rnd):
    """empty, short, long, and different payloads of one checksum, in each part of them"""
    a, b = crc.colliding_values(rnd, 12)
    n = rnd.choice([1, 70, 600])
    c, d = crc.colliding_values(rnd, n + 12 + 3, bytes(n), rnd.choice([b"", b"end"]).ljust(3, b"\0"))
    e, f = crc.colliding_values(rnd, 600, b"", rnd.randbytes(590))
    vs = [b"", b"x", a, b, rnd.randbytes(1000), b"\0", b"\0\0", rnd.randbytes(64), c, d, e, f]
    return {"v%d" % i: b for i, b in enumerate(vs)}
