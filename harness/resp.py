"""Runs in which the bytes of requests are cut, pipelined and interleaved."""
import json, random, select, signal, socket, time
import driver, zdb

from zdb import Client, Disconnected, Err, HarnessError, enc

BUF = 8192
MAXPAY = 8 * 1024 * 1024


def freeport():
    with socket.socket() as s:
        s.bind(("127.0.0.1", 0))
        return s.getsockname()[1]


class PipeTrace:
    """a trace for ZdbPipe"""

    def __init__(self, tr, req, ev):
        self.tr, self.req, self.ev = tr, req, ev

    def dump(self):
        return json.dumps({"cfg": self.tr.cfg, "args": self.tr.args or [driver.argrec("", b"")], "req": self.req, "ev": self.ev})


class PipeRun(driver.Run):
    """clients 1..n; requests are given as lists of bytes"""

    def __init__(self, binary, work, isz, n, tcp=False, **cfg):
        self.port = freeport() if tcp else None
        args = ["--dualnet", "--listen", "127.0.0.1", "--port", str(self.port)] if tcp else []
        super().__init__(binary, work, driver.default_cfg(mode="user", isz=isz, **cfg), {}, args=args)
        self.n = n
        self.reqs = [[] for _ in range(n)]      # (args, end offset in the stream, t0)
        self.streams = [bytearray() for _ in range(n)]
        self.sentb = [0] * n
        self.got = [[] for _ in range(n)]       # replies with the time they came
        self.evs = []
        self.syncs = 0

    def begin(self):
        self.start()
        self.ks = []
        for c in range(1, self.n + 1):
            k = Client(None, self.port) if self.port else Client(self.srv.sock)
            if self.port:
                k.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            self.ks.append(k)
            self.evs.append({"k": "conn", "c": c})
        self.side = Client(self.srv.sock)

    def add(self, c, *args):
        args = [a if isinstance(a, bytes) else str(a).encode("latin-1") for a in args]
        self.streams[c] += enc(args)
        self.reqs[c].append([args, len(self.streams[c]), None])

    def quiet(self):
        """the daemon has read what was sent"""
        self.side.cmd(b"\x01quiet")
        self.side.cmd(b"\x01quiet")

    def send(self, c, n):
        """the next n bytes of c, reading what comes meanwhile"""
        k = self.ks[c].s
        end = min(len(self.streams[c]), self.sentb[c] + n)
        t0 = self.now(0.02)
        for r in self.reqs[c]:
            if r[2] is None and r[1] <= end:
                r[2] = (t0, self.ms())
        k.setblocking(False)
        last = time.time()
        while self.sentb[c] < end:
            try:
                self.sentb[c] += k.send(memoryview(self.streams[c])[self.sentb[c]:end])
                last = time.time()
            except BlockingIOError:
                self.read(c, 0.05)
            except (BrokenPipeError, ConnectionResetError):
                raise Disconnected()
            if time.time() - last > 10:
                raise HarnessError("the daemon reads no more")
        k.settimeout(20)

    def burst(self, c):
        """everything at once: the daemon is stopped while it is sent"""
        self.srv.p.send_signal(signal.SIGSTOP)
        try:
            self.send(c, 1 << 30)
        finally:
            self.srv.p.send_signal(signal.SIGCONT)

    def read(self, c, wait):
        """what arrived for c, unparsed"""
        k = self.ks[c]
        r, _, _ = select.select([k.s], [], [], wait)
        if r:
            try:
                d = k.s.recv(1 << 20)
            except BlockingIOError:
                return False
            except ConnectionResetError:
                d = b""
            if not d:
                raise Disconnected()
            k.buf = k.buf[k.pos:] + d
            k.pos = 0
            return True
        return False

    def complete(self, c):
        return sum(1 for r in self.reqs[c] if r[1] <= self.sentb[c])

    def collect(self, c, n=None, timeout=10):
        """read replies until n of them were received"""
        n = self.complete(c) if n is None else n
        k = self.ks[c]
        k.s.settimeout(timeout)
        try:
            while len(self.got[c]) < n:
                r = k.reply()
                self.got[c].append((r, self.now(), self.ms()))
        except socket.timeout:
            raise HarnessError("reply %d of client %d does not come" % (len(self.got[c]) + 1, c + 1))
        finally:
            k.s.settimeout(20)

    def sync(self):
        self.evs.append({"k": "sync", "sent": [self.complete(c) for c in range(self.n)], "got": [len(g) for g in self.got]})

    def finish(self):
        """nothing more arrives, the daemon is alive"""
        self.quiet()
        for c in range(self.n):
            self.collect(c)
        self.sync()
        for c in range(self.n):
            if self.ks[c].pending(0.0):
                self.evs.append({"k": "bad", "what": "client %d receives more than its replies" % (c + 1)})
        if not self.srv.alive():
            self.evs.append({"k": "dead", "what": "dead"})

    def trace(self):
        req = []
        for c in range(self.n):
            l = []
            for (args, end, t), g in zip(self.reqs[c], self.got[c]):
                ev = self.event(c + 1, args, t[0], t[1], g[0])
                ev.update(t1=g[1], m1=g[2])
                l.append(ev)
            for (args, end, t) in self.reqs[c][len(self.got[c]):]:
                if t:
                    l.append({"k": "cmd", "c": c + 1, "a": [self.arg(a) for a in args], "r": {"t": "none", "s": "", "n": 0, "l": []}, "t0": t[0], "t1": self.now(),
                              "m0": t[1], "m1": self.ms()})
            req.append(l)
        return PipeTrace(self.tr, req, self.evs)


def guarded(run, f):
    try:
        run.begin()
        f(run)
        run.finish()
    except (Disconnected, HarnessError, OSError) as x:
        try:
            run.sync()
        except Exception:
            pass
        run.evs.append({"k": "bad", "what": repr(x)[:200].replace("\\", "/").replace('"', "'")})
    try:
        return run.trace()
    finally:
        for k in getattr(run, "ks", []) + [getattr(run, "side", None)]:
            if k:
                k.close()
        run.end()


# ---------------------------------------------------------------- content
def payload(rnd, n):
    k = rnd.randrange(5)
    if k == 0:
        return (b"*3\r\n$3\r\nSET\r\n$1\r\na\r\n$1\r\nb\r\n" * (n // 20 + 1))[:n]
    if k == 1:
        return b"\r\n" * (n // 2) + b"\n" * (n % 2)
    if k == 2:
        return b"\0" * n
    return rnd.randbytes(n)


SMALL = (0, 1, 2, 3, 5, 13, 40)
LARGE = (100, 1000, 4000, 8100, 8191, 8192, 8193, 8230, 16384, 20000, 70000)


def request(rnd, run, c, keys, sizes):
    k = rnd.choice(keys)
    x = rnd.random()
    if x < 0.4:
        run.add(c, "SET", k, payload(rnd, rnd.choice(sizes)))
    elif x < 0.65:
        run.add(c, "GET", k)
    elif x < 0.73:
        run.add(c, "MGET", *[rnd.choice(keys) for _ in range(rnd.randrange(1, 6))])
    elif x < 0.8:
        run.add(c, "DEL", k)
    elif x < 0.85:
        run.add(c, rnd.choice(("EXISTS", "LENGTH", "CHECK")), k)
    elif x < 0.88:
        run.add(c, "NSINFO", "default")
    elif x < 0.9:
        run.add(c, rnd.choice(("DBSIZE", "PING", "KSCAN")), *rnd.choice(([], [k])))
    elif x < 0.93:
        run.add(c, rnd.choice(("NOSUCH", "get", "sEt", "NSLIST", "TIME", "INFO")), *rnd.choice(([], [k])))
    elif x < 0.96:
        run.add(c, rnd.choice(("SCAN", "RSCAN")))
    else:
        run.add(c, "GET", rnd.randbytes(rnd.choice((1, 254, 255, 256, 300))))


def keyset(rnd):
    return [b"a", b"b", b"\r\n", b"$1\r\n", rnd.randbytes(7), rnd.randbytes(255)]


def cut_job(binary, work, isz, seed, how, tcp=False):
    """one connection, bytes cut in many ways"""
    rnd = random.Random(seed)
    run = PipeRun(binary, work, isz, 1, tcp)
    keys = keyset(rnd)
    for _ in range(how.get("reqs", 12)):
        request(rnd, run, 0, keys, how["sizes"])

    def f(run):
        s = run.streams[0]
        if how["cut"] == "bytes":
            while run.sentb[0] < len(s):
                run.send(0, 1)
                run.quiet()
        elif how["cut"] == "whole":
            run.send(0, len(s))
        elif how["cut"] == "burst":
            run.burst(0)
        elif how["cut"] == "random":
            while run.sentb[0] < len(s):
                run.send(0, rnd.choice((1, 1, 2, 3, 4, 5, 7, 10, 20, 50, 100, 1000, 4096, 8191, 8192, 8193, 10000)))
                if rnd.random() < 0.7:
                    run.quiet()
                if rnd.random() < 0.1:
                    run.collect(0)
                    run.sync()
    return guarded(run, f)


def split_job(binary, work, isz, seed, at, tcp=False):
    """the same few requests, cut once at each of the given places"""
    run = PipeRun(binary, work, isz, 1, tcp)

    def f(run):
        for x in at:
            b = len(run.streams[0])
            run.add(0, "SET", b"k", b"%d" % x)
            run.add(0, "GET", b"k")
            run.add(0, "SET", b"", b"")
            n = len(run.streams[0]) - b
            x = x % n
            if x:
                run.send(0, x)
                run.quiet()
            run.send(0, n - x)
            run.collect(0)
            run.sync()
    return guarded(run, f)


def align_job(binary, work, isz, seed, offs, kind, tcp=False, burst=True):
    """a burst in which a chosen byte of a request sits at the end of the daemon's buffer"""
    rnd = random.Random(seed)
    run = PipeRun(binary, work, isz, 1, tcp)

    def f(run):
        for o in offs:
            head = len(enc([b"SET", b"f", b""])) + 3      # the length takes four digits
            fill = BUF - o - head
            b = len(run.streams[0])
            if kind == "payload":
                run.add(0, "SET", b"f", b"%05d" % o + rnd.randbytes(fill - 5))
            else:               # many small requests instead of a large one
                key = rnd.randbytes(200)
                small = len(enc([b"EXISTS", key]))
                while BUF - o - (len(run.streams[0]) - b) >= small + head + 100:
                    run.add(0, "EXISTS", key)
                left = BUF - o - (len(run.streams[0]) - b)
                n = left - len(enc([b"SET", b"f", b""])) - 2
                run.add(0, "SET", b"f", rnd.randbytes(n if n < 100 or n > 102 else 99))
            run.add(0, "SET", b"g", b"%d" % o)
            run.add(0, "GET", b"g")
            run.add(0, "GET", b"f")
            run.add(0, "SET", b"h", rnd.randbytes(9000))
            run.add(0, "GET", b"h")
            if burst:
                run.burst(0)
            else:
                run.send(0, 1 << 30)
            run.collect(0)
            run.sync()
    return guarded(run, f)


def many_job(binary, work, isz, seed, n, sizes, tcp=False, rounds=10):
    """several connections, packets interleaved; what the order of the commands was is settled after each round"""
    rnd = random.Random(seed)
    run = PipeRun(binary, work, isz, n, tcp)
    made = [b"s"]

    def some(c, j):
        x = rnd.random()
        if x < 0.3:
            k = b"k%d.%d" % (c, len(run.reqs[c]))
            made.append(k)
            run.add(c, "SET", k, payload(rnd, rnd.choice(sizes)))
        elif x < 0.4:
            run.add(c, "SET", b"s", b"%d.%d" % (c, j))
        elif x < 0.7:
            run.add(c, rnd.choice(("GET", "EXISTS", "LENGTH", "CHECK")), rnd.choice(made[-6:] + [b"s"]))
        elif x < 0.8:
            run.add(c, "MGET", *[rnd.choice(made) for _ in range(rnd.randrange(1, 5))])
        elif x < 0.85 and c == 0:
            run.add(c, "DEL", made.pop(rnd.randrange(1, len(made))) if len(made) > 1 else b"s")
        else:
            run.add(c, rnd.choice(("PING", "DBSIZE", "NSLIST", "NOSUCH", "TIME", "SCAN", "KSCAN")))

    def f(run):
        for j in range(rounds):
            for c in range(n):
                for _ in range(rnd.randrange(1, 3 if n > 2 else 4) if n < 4 else 1):
                    some(c, j)
            while any(run.sentb[c] < len(run.streams[c]) for c in range(n)):
                c = rnd.randrange(n)
                run.send(c, rnd.choice((1, 3, 10, 30, 100, 300, 5000)))
                if rnd.random() < 0.3:
                    run.quiet()
            for c in range(n):
                run.collect(c)
            run.sync()
            run.add(0, "SCAN")
            run.add(0, "HISTORY", b"s")
            run.add(0, "NSINFO", b"default")
            run.send(0, 1 << 30)
            run.collect(0)
            run.sync()
    return guarded(run, f)


def big_job(binary, work, isz, seed, size, tcp=False):
    """payloads up to the limit, read slowly while others are served"""
    rnd = random.Random(seed)
    run = PipeRun(binary, work, isz, 2, tcp)
    v = rnd.randbytes(4096) * (size // 4096) + rnd.randbytes(size % 4096)

    def f(run):
        run.add(0, "SET", b"big", v)
        run.send(0, 1 << 30)
        run.collect(0)
        run.add(1, "NSNEW", b"y")
        run.add(1, "SELECT", b"y")
        run.send(1, 1 << 30)
        run.collect(1)
        run.sync()
        for i in range(3):
            run.add(0, "GET", b"big")
            run.add(0, "SET", b"n%d" % i, b"x" * i)
            run.add(0, "MGET", b"big", b"n%d" % i)
            run.add(0, "GET", b"n%d" % i)
        run.send(0, 1 << 30)            # nobody reads yet
        run.quiet()
        for i in range(6):
            run.add(1, "SET", b"o%d" % (i % 2), b"y" * i)
            run.add(1, "GET", b"o%d" % (i % 2))
            run.send(1, 1 << 30)
            run.collect(1)
        for i in range(60):             # slowly
            run.read(0, 0.0)
            if i % 20 == 0:
                run.add(1, "GET", b"o1")
                run.send(1, 1 << 30)
                run.collect(1)
        run.collect(0, timeout=30)
        run.sync()
    return guarded(run, f)


# ---------------------------------------------------------------- behaviours of ZdbResp
STREAMS = [
    [[b"SET", b"k", b"v"], [b"GET", b"k"], [b"PING"]],
    [[b"SET", b"", b"*1\r\n$4\r\nPING\r\n*1\r\n$9"], [b"MGET", b"", b"k"]],
    [[b"PING"], [b"SET", b"\n", b"\r\n$1"], [b"GET", b"\n"], [b"DEL", b"\n"]],
    [[b"SET", b"k", b"x" * 7], [b"SET", b"l", b""], [b"MGET", b"l", b"k", b"m"], [b"DBSIZE"]],
]


def segs(stream):
    o = []
    for r in stream:
        o.append({"k": "A", "n": len(b"*%d\r\n" % len(r)), "last": False})
        for i, a in enumerate(r):
            o.append({"k": "D", "n": len(b"$%d\r\n" % len(a)), "last": False})
            o.append({"k": "P", "n": len(a) + 2, "last": i == len(r) - 1})
    return o


def pieces_job(binary, work, isz, stream, scripts, tcp=False):
    """pieces given by the specification, with the number of replies due after each"""
    run = PipeRun(binary, work, isz, 1, tcp)

    def f(run):
        for cuts in scripts:
            b, d = run.sentb[0], len(run.reqs[0])
            for r in stream:
                run.add(0, *r)
            for end, done in cuts:
                run.send(0, b + end - run.sentb[0])
                run.quiet()
                run.collect(0, d + done)
            run.sync()
    return guarded(run, f)


def specified(ctx, stream, b, cuts, paced, drain=True):
    """model check ZdbResp; the scripts it prints"""
    import os, tlc
    f = os.path.join(ctx.scratch, "resp.json")
    with open(f, "w") as o:
        json.dump({"b": b, "segs": segs(stream), "cuts": cuts, "paced": paced, "drain": drain}, o)
    out = ctx.model("framing: %d requests, buffer of %d%s" % (len(stream), b, ", scripts" if paced else ""), "ZdbResp", "ZdbResp.cfg", env={"ZDB_RESP": f})
    return tlc.printed(out, "CUTS")


def r01(ctx):
    import os, runner
    isz = runner.index_entry_size(ctx.zdb, ctx.scratch)
    seq = iter(range(1 << 30))

    def job(f, *a):
        return (f, ctx.zdb, os.path.join(ctx.scratch, "p%d" % next(seq)), isz) + a
    seed = lambda: ctx.rnd.randrange(1 << 30)
    # the framing, alone and replayed
    pick = ctx.rnd.sample(range(len(STREAMS)), 2) if ctx.quick else range(len(STREAMS))
    jobs = []
    for n in pick:
        for b in ((ctx.rnd.choice((9, 12, 16, 24, 32)),) if ctx.quick else (8, 9, 10, 11, 12, 13, 16, 20, 24, 32)):
            specified(ctx, STREAMS[n], b, 0, False)
            got = specified(ctx, STREAMS[n], b, 2, True)
            tiny = os.path.join(ctx.src(patch=[("zdbd/redis.h", r"(#define\s+REDIS_BUFFER_SIZE)\s+\d+", r"\1 %d" % b)]), "zdbd", "zdb")
            ctx.rnd.shuffle(got)
            got = got[:ctx.pick(700, 4000)]
            for i in range(0, len(got), 50):
                w = os.path.join(ctx.scratch, "p%d" % next(seq))
                jobs.append((pieces_job, tiny, w, isz, STREAMS[n], got[i:i + 50], i // 50 % 2))
    ctx.traced("pieces of the specification", jobs, module="ZdbPipe")
    # the daemon as it is
    k = ctx.pick(1, 12)
    jobs = []
    for _ in range(k):
        jobs += [job(cut_job, seed(), {"cut": c, "sizes": s, "reqs": r}, t) for c, s, r in
                 (("bytes", SMALL, 8), ("whole", LARGE, 12), ("burst", SMALL, 40), ("burst", LARGE, 10), ("random", SMALL, 16), ("random", LARGE, 12)) for t in (False, True)]
    jobs += [job(split_job, 0, range(i, 90, 8), i % 2) for i in range(8)]
    ctx.traced("cut requests", jobs, module="ZdbPipe")
    jobs = [job(align_job, seed(), range(o, o + 2), kind, tcp, burst) for o in range(0, 80, 2) for kind in ("payload", "many") for tcp in (False, True) for burst in (True, False)
            if not ctx.quick or (tcp == burst and (kind == "payload" or o % 8 == 0))]
    ctx.traced("bursts which end at the end of the buffer", jobs, module="ZdbPipe")
    jobs = [job(many_job, seed(), n, s, i % 2) for i in range(ctx.pick(4, 40)) for n, s in ((2, SMALL), (3, SMALL), (3, LARGE), (4, SMALL))]
    ctx.traced("connections interleaved", jobs, module="ZdbPipe")
    jobs = [job(big_job, seed(), n, t) for n, t in [(MAXPAY, False), (MAXPAY - 1, True), (1 << 20, True), (ctx.rnd.randrange(1 << 20, MAXPAY), False)] * ctx.pick(1, 4)]
    ctx.traced("large payloads, slow readers", jobs, procs=4, module="ZdbPipe")
