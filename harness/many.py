"""Many of everything: index and data files by the thousand, namespaces and connections by the hundred, records by the ten thousand."""
import os, random
from mc import Bounded

DSZ = 524288


def token(mode, i):
    return "#%d" % i if mode == "seq" else "k%d" % i


class Files:
    """a namespace with very many files"""

    def __init__(self, ctx, mode, files, seed, p=0.4, pdel=0.05, ns="x", admin=None):
        self.r = random.Random(seed)
        self.mode = mode
        self.b = Bounded("", [], cfg={"dsz": DSZ})
        self.s = []
        self.n = 0                  # keys made
        self.add("!conn 1", "NSNEW " + ns, "NSSET %s mode %s" % (ns, mode), "SELECT " + ns)
        self.ns = ns
        self.hot = self.r.random() < 0.5
        for i in range(files):
            for _ in range(3):
                if self.r.random() < p:
                    self.change(pdel)
            self.add("NSJUMP")

    def add(self, *ms):
        for m in ms:
            self.s.append(self.b.move(m))
        return self

    def key(self, i=None):
        if i is None:
            i = self.r.randrange(min(self.n, 4) if self.hot and self.r.random() < 0.5 else self.n)
        return token(self.mode, i)

    def change(self, pdel=0.3):
        x = self.r.random()
        if self.n == 0 or x < 0.5:
            self.add("SET %s v%d" % ("''" if self.mode == "seq" else token("user", self.n), self.r.randrange(50)))
            self.n += 1
        elif x < 1 - pdel:
            self.add("SET %s w%d" % (self.key(), self.r.randrange(50)))
        else:
            self.add("DEL " + self.key())
        return self

    def all(self):
        for i in range(0, self.n, 100):
            self.add("MGET " + " ".join(token(self.mode, j) for j in range(i, min(self.n + 1, i + 100))))
        return self.add("NSINFO " + self.ns)

    def again(self, how="kill"):
        return self.add("!restart " + how, "!conn 1", "SELECT " + self.ns)

    def reload(self):
        return self.add("RELOAD " + self.ns)

    def walk(self, m, steps):
        a = [self.b.token(x) for x in m.split(" ")]
        self.s.append({"k": "cmd", "c": 1, "a": a})
        for _ in range(steps - 1):
            self.s.append({"k": "cmd", "c": 1, "a": a + ["@%d" % len(self.s)]})
        return self


def changes(f, k, pdel=0.3, each=()):
    for i in range(k):
        f.change(pdel)
        for m, p in each:
            if f.r.random() < p:
                f.add(m() if callable(m) else m)


def t_values(f):
    f.all()
    changes(f, 80)
    f.all().again(f.r.choice(["kill", "term"])).all()
    changes(f, 40)
    f.all().reload().all()


def t_dirty(f):
    f.add("INDEX DIRTY")
    changes(f, 30, each=[("INDEX DIRTY", .5)])
    f.add("INDEX DIRTY RESET", "INDEX DIRTY")
    changes(f, 60, each=[("INDEX DIRTY", .3), ("NSJUMP", .2)])
    f.add("INDEX DIRTY").again().add("INDEX DIRTY")
    changes(f, 30, each=[("INDEX DIRTY", .4)])


def t_scan(f):
    f.walk("SCAN", 60).walk("RSCAN", 60)
    changes(f, 30, each=[("SCAN", .1), ("RSCAN", .1)])
    for _ in range(20):
        f.add("KEYCUR " + f.key())
        f.s.append({"k": "cmd", "c": 1, "a": [f.r.choice(["SCAN", "RSCAN"]), "@%d" % len(f.s)]})
    f.again()
    f.walk("SCAN", 60).walk("RSCAN", 60)


def t_history(f):
    for i in range(min(4, f.n)):
        f.walk("HISTORY " + f.key(i), 120)
    for _ in range(15):
        f.walk("HISTORY " + f.key(), 12)
    f.again()
    for i in range(min(4, f.n)):
        f.walk("HISTORY " + f.key(i), 40)


def t_raw(f):
    last = sum(e["k"] == "cmd" and e["a"][0] == "NSJUMP" for e in f.s)
    for _ in range(150):
        f.add("DATA RAW %d 28" % f.r.randrange(last + 2))
    for _ in range(30):
        f.add("CHECK " + f.key(), "KEYTIME " + f.key(), "LENGTH " + f.key())


def t_disk(f):
    for i in range(6):
        f.s.append({"k": "disk", "ns": f.ns})
        changes(f, 20, each=[("NSJUMP", .3)])
        if i == 3:
            f.again()
    f.s.append({"k": "disk", "ns": f.ns})
    f.all()


def t_flush(f):
    f.add("NSSET %s password p" % f.ns, "NSSET %s public 0" % f.ns, "SELECT %s p" % f.ns, "FLUSH")
    f.all()
    n, f.n = f.n, 0
    changes(f, 30, each=[("NSJUMP", .3)])
    f.all().add("!restart", "!conn 1", "SELECT %s p" % f.ns)
    f.all().walk("SCAN", 5)
    f.n = max(n, f.n)
    f.all()


def t_delete(f):
    f.add("SELECT default", "NSDEL " + f.ns, "NSLIST", "NSNEW " + f.ns, "NSSET %s mode %s" % (f.ns, f.mode), "SELECT " + f.ns)
    f.all()
    f.n = 0
    changes(f, 20, each=[("NSJUMP", .3)])
    f.all().walk("SCAN", 5).again().all().add("INDEX DIRTY")


def t_rebuild(f):
    f.add("!rebuild " + f.ns, "!conn 1", "SELECT " + f.ns)
    f.all()
    changes(f, 30)
    f.all().s.append({"k": "live", "c": 1})


def t_compact(f):
    f.s.append({"k": "compact", "ns": f.ns, "how": "kill"})
    f.add("!conn 1", "SELECT " + f.ns)
    f.all()
    changes(f, 30, each=[("NSJUMP", .3)])
    f.all().again().all().s.append({"k": "live", "c": 1})


def t_dump(f):
    f.s.append({"k": "idump", "ns": f.ns})
    changes(f, 30, each=[("NSJUMP", .3)])
    f.s.append({"k": "idump", "ns": f.ns})


def t_check(f):
    last = sum(e["k"] == "cmd" and e["a"][0] == "NSJUMP" for e in f.s)
    f.s += [{"k": "icheck", "ns": f.ns, "f": i, "cut": -1} for i in sorted({last, last - 1, last // 2, 9, 10, 256, 1000, 0}) if i <= last]


def t_lib(f):
    for how in ("kill", "close", "exit"):
        f.s.append({"k": "lib", "how": f.r.choice(["kill", "stop", "term"])})
        f.all()
        changes(f, 20, each=[("NSJUMP", .3)])
        f.s.append({"k": "daemon", "how": how})
        f.add("!conn 1", "SELECT " + f.ns)
        changes(f, 20, each=[("NSJUMP", .3)])
    f.all()


FILES = {"K01": (t_values, ("user",)), "K02": (t_values, ("seq",)), "K03": (t_values, ("user", "seq")), "K11": (t_values, ("user", "seq")),
         "K06": (t_disk, ("user", "seq")), "K07": (t_dirty, ("user", "seq")), "K08": (t_scan, ("user", "seq")), "K09": (t_history, ("user", "seq")),
         "N03": (t_flush, ("user", "seq")), "A03": (t_delete, ("user", "seq")), "T02": (t_raw, ("user", "seq")), "T01": (t_rebuild, ("user",)), "T04": (t_check, ("user",)),
         "T05": (t_compact, ("user", "seq")), "T07": (t_dump, ("user", "seq")), "L01": (t_lib, ("user", "seq"))}


def checked(ctx, opts):
    """with the address sanitizer, unless the daemon of opts is a special one"""
    import props
    opts = dict(opts or {})
    if "binary" not in opts and "env" not in opts:
        opts.update(binary=os.path.join(ctx.src(cflags=props.ASAN), "zdbd", "zdb"), env=props.ASANENV)
    return opts


def files(ctx, opts=None):
    tail, modes = FILES[ctx.prop]
    sizes = [1100, 257, 34] if ctx.quick else [9, 17, 33, 65, 129, 255, 256, 257, 511, 513, 1023, 1024, 1025, 1026, 1100, 1500, 2047, 2049, 2100, 3000]
    for mode in modes:
        ss = []
        for n in sizes:
            # (sequential mode: a file which got no entry takes no room in the table of the files)
            p = 1.0 if mode == "seq" and n in (1100, 2100) else min(0.35, 500.0 / n / 3) if n > 1000 else 0.5
            f = Files(ctx, mode, n, ctx.rnd.randrange(1 << 30), p=p)
            tail(f)
            ss.append(f)
        b = ss[0].b
        for f in ss[1:]:
            b.bytes.update(f.b.bytes)
        ctx.scripts("very many files, " + mode, b, [f.s for f in ss], checked(ctx, opts))


# ------------------------------------------------------------ namespaces ---
def namespaces(ctx):
    """some hundred namespaces which come and go, in slots which are used again"""
    out = []
    b = Bounded("", [], cfg={"dsz": DSZ})
    for size in ([45, 30] if ctx.quick else [31, 32, 33, 64, 65, 120, 200, 300]):
        r = random.Random(ctx.rnd.randrange(1 << 30))
        s = []
        add = lambda *ms: s.extend(b.move(m) for m in ms)
        add("!conn 1", "!conn 2")
        live = []
        nm = lambda: "n%d" % r.randrange(size * 3 // 2)
        for i in range(size * 8):
            x = r.random()
            if len(live) < size * (0.7 if i < size * 5 else 0.2) or x < 0.15:
                n = nm()
                add("NSNEW " + n)
                if n not in live:
                    live.append(n)
            elif x < 0.4:
                n = r.choice(live)
                live.remove(n)
                add("NSDEL " + n)
            elif x < 0.55:
                add("NSSET %s %s" % (r.choice(live), r.choice(["maxsize 5000", "worm 1", "worm 0", "public 0", "public 1", "password s", "password *", "mode seq", "lock 1", "lock 0"])))
            elif x < 0.8:
                c = r.choice("12")
                add("%s: SELECT %s%s" % (c, r.choice(live), r.choice(["", " s"])), "%s: SET %s v%d" % (c, r.choice(["a", "b", "''"]), i % 50), "%s: MGET a b #0 #1" % c)
            elif x < 0.95:
                add("NSINFO " + (r.choice(live) if r.random() < 0.8 else nm()))
            else:
                add(r.choice(["NSLIST", "NSLIST", "DBSIZE", "RELOAD " + r.choice(live), "NSJUMP", "SCAN"]))
            if i % (size * 2) == size:
                add("!restart " + r.choice(["kill", "term", "stop"]), "!conn 1", "!conn 2", "NSLIST")
        add("NSLIST", *["NSINFO " + n for n in live])
        out.append(s)
    ctx.scripts("very many namespaces", b, out)


# --------------------------------------------------------------- clients ---
def clients(ctx):
    """some hundred connections which come and go"""
    out = []
    b = Bounded("", [], cfg={"dsz": DSZ})
    for size in ([100, 40] if ctx.quick else [31, 32, 33, 63, 64, 65, 128, 250]):
        r = random.Random(ctx.rnd.randrange(1 << 30))
        s = []
        add = lambda *ms: s.extend(b.move(m) for m in ms)
        add("!conn 1", *["NSNEW n%d" % i for i in range(6)])
        live = [1]
        free = [c for c in range(2, size + 1) if c != 99]        # 99 is the driver
        wait = set()
        for i in range(size * 10):
            x = r.random()
            if free and (len(live) < size * 3 // 5 or x < 0.12):
                c = free.pop(r.randrange(len(free)))
                live.append(c)
                add("!conn %d" % c, "%d: SELECT n%d" % (c, r.randrange(6)))
                continue
            c = r.choice(live)
            if c in wait:
                if x < 0.5:
                    add("!wcheck %d" % c, "!close %d" % c)      # woken or not
                    wait.discard(c)
                    live.remove(c)
                    free.append(c)
                continue
            if x < 0.25 and len(live) > 2:
                live.remove(c)
                free.append(c)
                add("!close %d" % c)
            elif x < 0.33:
                add("%d: NSDEL n%d" % (c, r.randrange(6)))
            elif x < 0.45:
                add("%d: NSNEW n%d" % (c, r.randrange(6)))
            elif x < 0.6:
                add("%d: SELECT n%d" % (c, r.randrange(6)))
            elif x < 0.68 and len(wait) < size // 4:
                add("%d: WAIT %s 600000" % (c, r.choice(["SET", "*", "GET"])))
                wait.add(c)
            else:
                add("%d: %s" % (c, r.choice(["SET a v%d" % (i % 50), "GET a", "SET b v", "DEL a", "MGET a b", "SCAN", "NSLIST", "DBSIZE", "PING"])))
        for c in live:
            if c in wait:
                add("!wcheck %d" % c)
        out.append(s)
    ctx.scripts("very many connections", b, out)


# --------------------------------------------------------------- records ---
class Full:
    """a namespace with very many records"""
    ns = "x"

    def __init__(self, ctx, mode, seed):
        self.r = random.Random(seed)
        self.mode, self.seq = mode, mode == "seq"
        self.b = Bounded("", [], cfg={"dsz": 256 << 20})
        self.s = []
        self.used = 0               # numbers made keys or payloads of
        self.runs = []              # (first, how many) of the records made
        self.ids = 0                # records of the index, sequential mode
        self.dead = []
        self.add("!conn 1", "NSNEW x", "NSSET x mode " + mode, "SELECT x")

    def add(self, *ms):
        for m in ms:
            self.s.append(self.b.move(m))
        return self

    def fill(self, how, n, b=0, key=""):
        self.s.append({"k": "fill", "c": 1, "how": how, "n": n, "b": b, "v": self.used, "seq": self.seq, "key": key})
        self.used += n
        return self

    def new(self, n):
        self.runs.append((self.ids if self.seq else self.used, n))
        self.fill("new", n, self.used)
        self.ids += n
        return self

    def set(self, v):
        self.add("SET %s %s" % ("''" if self.seq else "k%d" % self.r.randrange(1 << 20), v))
        self.ids += 1
        return self

    def key(self):
        """a key of one of the runs, rather at its ends"""
        b, n = self.r.choice(self.runs)
        j = self.r.choice([0, 1, n - 2, n - 1, n // 2, self.r.randrange(n), self.r.randrange(n)]) % n
        return "#%d" % (b + j) if self.seq else "F%d" % (b + j + 1)

    def over(self, n, key=None):
        self.fill("over", n, 0, key or self.key())
        self.ids += n
        return self

    def delete(self, part=3):
        """part of a run goes"""
        b, n = self.runs.pop(self.r.randrange(len(self.runs)))
        k = max(1, n // part)
        at = self.r.choice([0, n - k, self.r.randrange(n - k + 1)])
        self.dead.append((b + at, k))
        self.runs += [x for x in ((b, at), (b + at + k, n - at - k)) if x[1]]
        return self.fill("del", k, b + at)

    def all(self):
        for b, n in self.runs + self.dead:
            self.s.append({"k": "fill", "c": 1, "how": "all", "n": n, "b": b, "v": 0, "seq": self.seq, "key": ""})
        return self.add("NSINFO " + self.ns, "DBSIZE")

    def again(self, how=None):
        return self.add("!restart " + (how or self.r.choice(["kill", "term", "stop"])), "!conn 1", "SELECT x")

    def live(self):
        self.s.append({"k": "live", "c": 1})
        return self

    def walk(self, m, steps):
        a = [self.b.token(x) for x in m.split(" ")]
        self.s.append({"k": "cmd", "c": 1, "a": a})
        for _ in range(steps - 1):
            self.s.append({"k": "cmd", "c": 1, "a": a + ["@%d" % len(self.s)]})
        return self

    def bits(self, k):
        """single requests in between"""
        for _ in range(k):
            x = self.r.random()
            if x < 0.2:
                self.set("v%d" % self.r.randrange(50))
            elif x < 0.35:
                self.add("SET %s w%d" % (self.key(), self.r.randrange(1000)))
                self.ids += self.seq
            else:
                self.add(self.r.choice(["GET ", "EXISTS ", "CHECK ", "LENGTH ", "KEYTIME ", "HISTORY "]) + self.key())
        return self


def r_values(f, n):
    f.set("v1").new(n).bits(10).over(max(2, n // 20)).bits(5).all()
    f.delete().bits(10).new(max(2, n // 4)).set("v2").delete(2).all()
    f.again().all().bits(15).over(3).new(2).delete(2)
    f.add("RELOAD x").all().add("NSJUMP").bits(5).new(n // 3 + 1).over(n // 10 + 1).again().all().bits(5)


def r_wide(f, n):
    f.set("v1").new(n).bits(6).over(2).delete(100).bits(4).again().all().bits(4).new(3).delete(3).add("NSINFO x")


def r_scan(f, n):
    f.set("v1").new(n).delete(2).live()
    f.walk("SCAN", 12).walk("RSCAN", 12)
    for _ in range(8):
        f.add("KEYCUR " + f.key())
        f.s.append({"k": "cmd", "c": 1, "a": [f.r.choice(["SCAN", "RSCAN"]), "@%d" % len(f.s)]})
    f.add("NSJUMP").new(n // 4 + 1).delete(1).over(n // 10 + 2).live().walk("RSCAN", 6)
    f.again().live()


def r_history(f, n):
    f.new(20).over(n)
    k = f.key()
    f.over(n // 2 + 2, k).add("NSJUMP").over(n // 3 + 2, k)
    f.walk("HISTORY " + k, min(2 * n + 10, 700)).add("NSINFO x").again().all()
    f.walk("HISTORY " + f.key(), min(n, 300)).walk("HISTORY " + k, 50)


def r_kscan(f, n):
    prefixes = lambda: f.add("KSCAN F", "KSCAN F000", "KSCAN k", "KSCAN F9", "KSCAN " + f.key())
    for v in range(3):
        f.set("v%d" % v)
    f.new(n)
    prefixes().over(3).delete(2)
    prefixes().again()
    prefixes().add("NSJUMP").new(n // 2 + 1).delete(3)
    prefixes().add("RELOAD x")
    prefixes().live()


def r_kwide(f, n):
    f.set("v1").new(n).add("KSCAN F", "KSCAN k").delete(100).again().add("KSCAN F")


def r_disk(f, n):
    disk = {"k": "disk", "ns": "x"}
    f.s.append(disk)
    f.new(n).s.append(disk)
    f.over(n // 3 + 1).bits(10).delete().s.append(disk)
    f.add("NSJUMP", "INDEX DIRTY").new(n // 2 + 1).delete(1).s.append(disk)
    f.again().add("INDEX DIRTY").over(3).delete(2).add("INDEX DIRTY").s.append(disk)


def r_rebuild(f, n):
    again = lambda: f.add("!rebuild x", "!conn 1", "SELECT x")
    f.set("v1").new(n).over(n // 10 + 2).delete(3)
    again().all().live().add("NSJUMP").new(n // 2 + 1).bits(6).delete(2)
    again().all().bits(6)


RECORDS = {"K01": (r_values, ("user",), 4000), "K02": (r_values, ("seq",), 4000), "K03": (r_values, ("user", "seq"), 3000),
           "K11": (r_values, ("user", "seq"), 5000), "K08": (r_scan, ("user", "seq"), 3000), "K09": (r_history, ("user", "seq"), 400), "K10": (r_kscan, ("user",), 4000),
           "K06": (r_disk, ("user", "seq"), 5000), "T01": (r_rebuild, ("user",), 1000)}


def records(ctx, opts=None):
    tail, modes, most = RECORDS[ctx.prop]
    sizes = [most, 300, 130] if ctx.quick else [most * 3, most, 1000, 513, 300, 257, 256, 255, 200, 130, 129, 128, 127, 65, 20]
    for mode in modes:
        ss = []
        wide = {"K01": r_wide, "K02": r_wide, "K10": r_kwide}
        for n, t in [(66000, f) for k, f in wide.items() if k == ctx.prop] + [(n, tail) for n in sizes]:
            f = Full(ctx, mode, ctx.rnd.randrange(1 << 30))
            t(f, n)
            ss.append(f)
        b = ss[0].b
        for f in ss[1:]:
            b.bytes.update(f.b.bytes)
        ctx.scripts("very many records, " + mode, b, [f.s for f in ss], opts)


def t01full(ctx):
    import props
    records(ctx, props.toolopts(ctx))


def t06full(ctx, opts):
    """db-sync of namespaces with very many records"""
    sizes = [2000, 300, 128] if ctx.quick else [10000, 2000, 1000, 513, 257, 256, 255, 129, 128, 127, 20]
    ss = []
    for i, n in enumerate(sizes):
        f = Full(ctx, "user", ctx.rnd.randrange(1 << 30))
        f.b.cfg["mode"] = "user"
        f.s, f.ns = f.s[:1], "default"
        again = lambda times: f.s.append({"k": "sync", "how": "kill", "times": times}) or f.add("!conn 1")
        f.set("v1").new(n).over(n // 10 + 2).delete(3).bits(6)
        again(1 + i % 2)
        f.all().live().new(n // 3 + 1).delete(4).over(n // 10 + 2)
        again(1)
        f.all().live()
        ss.append(f)
    b = ss[0].b
    for f in ss[1:]:
        b.bytes.update(f.b.bytes)
    ctx.scripts("very many records", b, [f.s for f in ss], opts)


def timeouts(ctx):
    """waits of all lengths, begun at any part of a second"""
    out = []
    b = Bounded("", [])
    for i in range(ctx.pick(8, 48)):
        r = random.Random(ctx.rnd.randrange(1 << 30))
        n, s = ctx.pick(24, 40), []
        s += [b.move("!conn %d" % c) for c in range(1, n + 1)]
        cs = list(range(2, n + 1))
        for turn in range(ctx.pick(1, 3)):
            r.shuffle(cs)
            for j, c in enumerate(cs):
                s.append({"k": "nap", "cs": cs[:j], "ms": r.randrange(120)})
                s.append(b.move("%d: WAIT NSNEW %d" % (c, r.choice([100, 101, 150, 250, 400, 600, 900, 999, 1000, 1001, 1300, 1700, 2000, 2500, r.randrange(100, 3000)]))))
                if r.random() < 0.1:
                    s.append(b.move("1: GET a"))
            s.append({"k": "settle", "cs": cs[:]})
        s += [b.move("%d: PING" % c) for c in range(1, n + 1)]
        out.append(s)
    ctx.scripts("timeouts at any time", b, out)


# --------------------------------------------------------------- lengths ---
LENGTHS = [0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049,
           4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 100000, 131072, 262144, 1 << 20]


class Lengths:
    """keys of every length, payloads of many"""

    def __init__(self, ctx, mode, keys, seed):
        self.r = r = random.Random(seed)
        self.mode, self.b, self.s, self.n = mode, Bounded("", [], cfg={"dsz": 256 << 20}), [], 0
        self.b.bytes.update(self.values(r))
        self.vals = [t for t in self.b.bytes if t[0] == "L"] + ["''"]
        self.keys = []
        for l in keys:
            t = "K%d" % l
            q = random.Random(seed // 1000 * 1000 + l)
            self.b.bytes[t] = q.choice([bytes(l), b"\xff" * l, b"k" * l]) if l > 8 and q.random() < 0.3 else q.randbytes(l - 1) + b"\xfe"
            self.keys.append(t)
        if mode == "seq":
            self.keys = ["#%d" % i for i in range(len(keys))]
        self.hot = list(self.keys)
        self.add("!conn 1", "NSNEW x", "NSSET x mode " + mode, "SELECT x")

    @staticmethod
    def values(r):
        base = random.Random(7).randbytes(1 << 20)
        return {"L%d" % n: (bytes([n % 251]) * min(n, 3) + base)[n % 17:][:n - 1] + b"." for n in LENGTHS if n}

    def add(self, *ms):
        for m in ms:
            self.s.append(self.b.move(m))
        return self

    def val(self):
        return self.r.choice(self.vals)

    def fresh(self, each=()):
        for t in self.keys:
            self.add("SET %s %s" % ("''" if self.mode == "seq" else t, self.val()))
            for m in each:
                if self.r.random() < 0.3:
                    self.add(m % t if "%" in m else m)
        return self

    def over(self, n, m="SET %s %s"):
        for _ in range(n):
            self.add(m % (self.r.choice(self.keys), self.val()))
        return self

    def drop(self, n):
        for _ in range(n):
            self.add("DEL " + self.r.choice(self.keys))
        return self

    def some(self, *ms, n=30):
        for _ in range(n):
            self.add(self.r.choice(ms) % self.r.choice(self.keys))
        return self

    def all(self):
        for i in range(0, len(self.keys), 20):
            self.add("MGET " + " ".join(self.keys[i:i + 20]))
        return self.add("NSINFO x")

    def places(self):
        """where the data records are"""
        kl = lambda t: 8 if self.mode == "seq" else len(self.b.bytes[t])
        cur, ids, f, off, out = {}, 0, 0, 28, []

        def rec(k, v):
            nonlocal off
            out.append((f, off))
            off += 18 + kl(k) + v
        for e in self.s:
            a = e.get("a", [""])
            if a[0] == "SET":
                k = "#%d" % ids if a[1] == "" else a[1]
                if a[1] == "" or (k in cur if self.mode == "seq" else True):
                    if cur.get(k) != a[2]:
                        ids += 1
                        cur[k] = a[2]
                        rec(k, len(self.b.bytes[a[2]]))
            elif a[0] == "DEL" and cur.pop(a[1], None) is not None:
                rec(a[1], 0)
            elif a[0] == "NSJUMP":
                f, off = f + 1, 28
        return out

    def live(self):
        self.s.append({"k": "live", "c": 1})
        return self

    def again(self, how=None):
        return self.add("!restart " + (how or self.r.choice(["kill", "term", "stop"])), "!conn 1", "SELECT x")

    walk = Files.walk


def l_values(f):
    f.fresh(("GET %s", "LENGTH %s", "EXISTS %s", "CHECK %s", "KEYTIME %s")).all().over(40).drop(20).all().live()
    f.again().all().live().over(20).drop(5).add("RELOAD x").all().add("NSJUMP").over(30).some("GET %s", "LENGTH %s", "CHECK %s", "SET %s L3").again().all()


def l_scan(f):
    f.fresh().drop(15).over(15).live().walk("SCAN", 8).walk("RSCAN", 8)
    for _ in range(30):
        f.add("KEYCUR " + f.r.choice(f.keys))
        f.s.append({"k": "cmd", "c": 1, "a": [f.r.choice(["SCAN", "RSCAN"]), "@%d" % len(f.s)]})
    f.again().live().walk("SCAN", 4).walk("RSCAN", 4)


def l_history(f):
    f.fresh().over(120)
    for t in f.keys:
        f.walk("HISTORY " + t, 4)
    f.again()
    for t in f.keys[::3]:
        f.walk("HISTORY " + t, 4)


def l_raw(f):
    f.fresh().over(30).drop(12).add("NSJUMP").over(10)
    q = f.places()
    f.some("CHECK %s", "KEYTIME %s", n=15)
    for at in q:
        f.add("DATA RAW %d %d" % at)
    f.again()
    for at in f.r.sample(q, 20):
        f.add("DATA RAW %d %d" % at)


def l_disk(f):
    d = {"k": "disk", "ns": "x"}
    f.fresh().s.append(d)
    f.over(30).drop(15).s.append(d)
    f.add("NSJUMP").over(10).again().s.append(d)


def l_tool(ev):
    def tail(f):
        f.fresh().over(20).drop(15)
        f.s.append(dict(ev))
        f.add("!conn 1", "SELECT x").all().live().over(10).drop(5).add("NSJUMP").over(5)
        f.s.append(dict(ev))
        f.add("!conn 1", "SELECT x").all().live()
    return tail


def l_dump(f):
    d = {"k": "idump", "ns": "x"}
    f.fresh().s.append(d)
    f.over(40).drop(15).s.append(d)
    f.add("NSJUMP").over(10).drop(5).s.append(d)
    f.again().over(3).s.append(d)


def l_check(f):
    f.fresh().over(20).drop(10).add("NSJUMP").over(5)
    f.s += [{"k": "icheck", "ns": "x", "f": i, "cut": -1} for i in (0, 1)]


def l_mirror(f):
    f.add("!conn 2", "2: MIRROR")
    wide = lambda: [f.add("MGET " + " ".join(f.r.choice(f.keys) for _ in range(n - 1))) for n in f.r.sample([3, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1022, 1023], 5)]
    for part in (wide, lambda: f.fresh(("GET %s", "MGET %s K1 K2")), lambda: f.over(20), lambda: f.drop(10), wide):
        k = len(f.s)
        part()
        new, f.s = f.s[k:], f.s[:k]
        for e in new:
            f.s.append(e)
            if f.r.random() < 0.3:
                f.s.append({"k": "fcheck", "c": 2})
    f.s.append({"k": "fcheck", "c": 2})


def l_lib(f):
    f.fresh().all()
    f.s.append({"k": "lib", "how": f.r.choice(["kill", "stop", "term"])})
    f.some("GET %s", "EXISTS %s", "CHECK %s", n=30).over(40).drop(12).some("GET %s", "SET %s L3", n=20)
    f.s.append({"k": "daemon", "how": f.r.choice(["kill", "close", "exit"])})
    f.add("!conn 1", "SELECT x").all().live()


LENGTHY = {"K01": (l_values, ("user",)), "K02": (l_values, ("seq",)), "K03": (l_values, ("user", "seq")), "K11": (l_values, ("user", "seq")),
           "K08": (l_scan, ("user", "seq")), "K09": (l_history, ("user", "seq")), "K06": (l_disk, ("user", "seq")),
           "T02": (l_raw, ("user", "seq")), "K13": (l_raw, ("user", "seq")), "T07": (l_dump, ("user", "seq")), "T04": (l_check, ("user", "seq")),
           "T05": (l_tool({"k": "compact", "ns": "x", "how": "kill"}), ("user", "seq")), "T01": (l_tool({"k": "rebuild", "ns": "x"}), ("user",)),
           "R04": (l_mirror, ("user", "seq")), "L01": (l_lib, ("user", "seq"))}


def lengths(ctx, opts=None):
    tail, modes = LENGTHY[ctx.prop]
    for mode in modes:
        ks = list(range(1, 256))
        seed = ctx.rnd.randrange(1 << 30) // 1000 * 1000
        ctx.rnd.shuffle(ks)
        n = 8
        ss = []
        for turn in range(ctx.pick(1, 6)):
            for i in range(n):
                f = Lengths(ctx, mode, ks[i::n] if mode == "user" else ks[i::n][:16], seed + len(ss))
                tail(f)
                ss.append(f)
        b = Bounded("", [], cfg={"dsz": 256 << 20})
        for i, f in enumerate(ss):          # keys of one name differ from script to script
            b.bytes.update(f.b.bytes)
        ctx.scripts("every length, " + mode, b, [f.s for f in ss], checked(ctx, opts))


# --------------------------------------------------------------- aligned ---
class Aligned(Full):
    """the records after the padding are at given places of the data and the index file"""
    IHEAD, IITEM, DHEAD, DITEM = 29, 34, 28, 18

    def __init__(self, ctx, seed, b):
        super().__init__(ctx, "user", seed)
        self.b = b                  # shared by the scripts: of all tokens, no two have the same bytes
        self.keys, self.file, self.doff, self.ioff = [], 0, self.DHEAD, self.IHEAD
        self.spots = []

    def token(self, n):
        x = self.r.randbytes(n)
        for t, y in self.b.bytes.items():
            if x == y:
                return t
        t = "B%d" % len(self.b.bytes)
        self.b.bytes[t] = x
        return t

    def put(self, key, n):
        """a record whose payload has n bytes"""
        if key not in self.keys:
            self.keys.append(key)
        self.add("SET %s %s" % (key, self.token(n) if n else "''"))
        self.spots.append((self.file, self.doff))
        self.doff += self.DITEM + len(self.b.bytes[key]) + n
        self.ioff += self.IITEM + len(self.b.bytes[key])
        return self

    def pad(self, dto, ito):
        """the next records begin at dto (data) and ito (index)"""
        gap = ito - self.ioff
        n = max(-(-gap // (self.IITEM + 255)), min(gap // (self.IITEM + 8), 40))
        while not n * (self.IITEM + 4) <= gap <= n * (self.IITEM + 255):
            n -= 1
        ls = [4] * n
        left = gap - n * (self.IITEM + 4)
        while left:
            i = self.r.randrange(n)
            x = min(left, self.r.randrange(1, 60), 255 - ls[i])
            ls[i] += x
            left -= x
        left = dto - self.doff - sum(ls) - n * self.DITEM
        assert left >= n, (left, n)
        for i, l in enumerate(ls):
            x = left if i == n - 1 else self.r.randrange(1, max(2, 2 * left // (n - i) - 1))
            x = min(x, left - (n - 1 - i), 8 << 20)
            left -= x
            self.put(self.token(l), x)
        assert not left and (self.doff, self.ioff) == (dto, ito), (self.doff, self.ioff)
        return self

    def jump(self):
        self.add("NSJUMP")
        self.file, self.doff, self.ioff = self.file + 1, self.DHEAD, self.IHEAD
        return self

    def looks(self, *keys):
        for k in keys:
            for m in ("GET", "EXISTS", "LENGTH", "CHECK", "KEYTIME"):
                self.add(m + " " + k)
            self.walk("HISTORY " + k, 5)
            self.add("KEYCUR " + k)
            at = len(self.s)
            for m in ("SCAN", "RSCAN"):
                self.s.append({"k": "cmd", "c": 1, "a": [m, "@%d" % at]})
                self.s.append({"k": "cmd", "c": 1, "a": [m, "@%d" % (len(self.s))]})
        return self


def aligned(ctx, opts=None):
    """records which begin where a number of the offset's bytes are zero, or just beside"""
    places = [(256, 256), (4096, 4096), (1 << 16, 1 << 16), (1 << 16, 512), (1 << 17, 1 << 16), (1 << 20, 1 << 12), (1 << 18, 1 << 17)]
    near = [0] if ctx.quick else [0, 0, -1, 1, -20, -40]
    if not ctx.quick:
        places += [(1 << 24, 1 << 14), (1 << 22, 1 << 15), (1 << 15, 1 << 15), (1 << 21, 1 << 18)]
    ss, d = [], {"k": "disk", "ns": "x"}
    b = Bounded("", [], cfg={"dsz": 256 << 20})
    b.bytes.update(H=b"place", N=b"beside it")
    for dto, ito in places:
        for by in near:
            f = Aligned(ctx, ctx.rnd.randrange(1 << 30), b)
            if ctx.rnd.random() < 0.5:
                f.put("H", 30)
            f.pad(dto + by, ito + by).put("H", 40).put("N", 20).looks("H", "N")
            some = f.r.sample(f.keys, min(4, len(f.keys)))
            if f.r.random() < 0.5:
                f.jump().pad(dto + by, ito + by)
            f.put("H", 41).put("N", 0).put("H", 42).looks("H", "N")
            spots = f.spots[-8:] + f.r.sample(f.spots, min(6, len(f.spots)))
            raw = lambda: f.add(*["DATA RAW %d %d" % at for at in spots])
            raw().s.append(d)
            f.again().looks("H", "N", *some)
            raw().add("RELOAD x").put("H", 43).looks("H").add("DEL N").add("NSINFO x", "DBSIZE")
            f.doff, f.ioff = f.doff + f.DITEM + 9, f.ioff
            f.live().add("DEL H").looks("N", "H").put("N", 7).looks("N").s.append(d)
            f.again().looks("H", "N", *some).live()
            ss.append(f)
    ctx.scripts("records at round places", b, [f.s for f in ss], checked(ctx, opts))
