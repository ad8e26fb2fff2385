"""Runs in which file system calls of the daemon fail, or are its last ones."""
import json, mmap, os, random, struct, subprocess
import driver, tlc, zdb
from zdb import Disconnected, HarnessError

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODES = {"off": 0, "before": 1, "after": 2, "part": 3, "fail": 4, "short": 5, "failing": 6, "shortfailing": 7}
WRITE, CREATE, REMOVE, TRUNC, SYNC, ALLOC, RENAME = 1, 2, 4, 8, 16, 32, 64
CRASHES = ("before", "after", "part")
ENOSPC, EIO = 28, 5


def shim(scratch):
    so = os.path.join(scratch, "shim.so")
    if not os.path.exists(so):
        r = subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", so, os.path.join(HERE, "shim", "shim.c"), "-ldl"],
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise HarnessError("shim: " + r.stdout.decode())
    return so


class FaultRun(driver.Run):
    def __init__(self, binary, work, cfg, names, so, args=(), env=None, power=0):
        super().__init__(binary, work, cfg, names, args=args)
        self.ctlfile = os.path.join(work, "ctl")
        with open(self.ctlfile, "wb") as f:
            f.write(b"\0" * 64)
        f = open(self.ctlfile, "r+b")
        self.ctl = mmap.mmap(f.fileno(), 64)
        f.close()
        self.srv.env = {"LD_PRELOAD": so, "ZSHIM_CTL": self.ctlfile, "ZSHIM_DIR": work}
        self.shadow = None
        if power:               # of the files written since they were forced to the disk, this part is lost
            self.rnd = random.Random(power)
            self.shadow = os.path.join(work, "shadow")
            os.mkdir(self.shadow)
            self.srv.env["ZSHIM_SHADOW"] = self.shadow
        self.where = {}
        self.last = {}          # client -> namespace
        self.fires = 0

    def arm(self, a):
        m = a["mode"]
        self.ctl[:32] = struct.pack("<8I", MODES[m], a.get("at", 1), a.get("part", 500), a.get("err", ENOSPC),
                                    a.get("kinds", WRITE | CREATE), 0, 0, 0)

    def disarm(self):
        v = struct.unpack("<8I", self.ctl[:32])
        self.ctl[:4] = struct.pack("<I", 0)
        return v[6], v[5]

    def cmd(self, c, *args):
        r = super().cmd(c, *args)
        op = self.opname(args[0] if isinstance(args[0], bytes) else args[0].encode())
        if op == "SELECT" and self.tr.ev and self.tr.ev[-1].get("r", {}).get("t") == "ok":
            self.where[c] = args
        return r

    def blackout(self):
        """the machine loses its power: what was not forced to the disk may be lost"""
        for top in (self.srv.data, self.srv.index):
            for d, _, files in os.walk(top):
                for f in files:
                    if f == "zdb.lock" or self.rnd.random() < 0.2:
                        continue
                    p = os.path.join(d, f)
                    try:
                        with open(os.path.join(self.shadow, str(os.stat(p).st_ino)), "rb") as x:
                            kept = x.read()
                    except FileNotFoundError:
                        kept = b""
                    with open(p, "r+b") as x:
                        if x.read() != kept:
                            x.seek(0)
                            x.truncate()
                            x.write(kept)

    def halt(self, how="kill"):
        super().halt("kill" if how == "power" else how)
        if how == "power":
            self.blackout()

    def sizes(self, name):
        l, f = [], 0
        while os.path.exists(os.path.join(self.srv.data, name, "d%d" % f)):
            l.append(os.path.getsize(os.path.join(self.srv.data, name, "d%d" % f)))
            f += 1
        return l

    def nsname(self, c):
        a = self.where.get(c)
        if not a:
            return "default"
        b = a[1] if isinstance(a[1], bytes) else a[1].encode("latin-1")
        return b.decode("latin-1")

    def again(self, arms=()):
        """start after a crash, maybe dying on the way; everybody reconnects"""
        clients = sorted(self.cl)
        for x in self.cl.values():
            x.close()
        self.cl = {}
        self.mirrors = set()
        self.srv.p.wait()
        for a in arms:
            self.arm(a)
            died = not self.srv.start(expect_fail=True)
            fired, _ = self.disarm()
            if fired:
                self.fires += 1
            if died and self.shadow:
                self.srv.p.wait()
                self.blackout()
            if died and not fired:
                raise HarnessError("daemon does not start")
            if not died:
                self.srv.kill()
        self.start()
        return clients

    def reconnect(self, clients):
        for c in clients:
            if c == self.BAR:
                continue
            self.conn(c)
            if self.cfg["admin"]:
                driver.Run.cmd(self, c, b"AUTH", self.tk.t2b[self.cfg["admin"]])
            if c in self.where:
                driver.Run.cmd(self, c, *self.where[c])
                if self.tr.ev[-1]["r"]["t"] != "ok":
                    del self.where[c]

    def armed(self, j, e, evmap):
        c = e["c"]
        args = [self.sym(a, evmap, None) for a in e["a"]]
        op = self.opname(args[0])
        k = self.cl[c]
        name = self.nsname(c)
        before = self.sizes(name)
        t0, m0 = self.now(0.02), self.ms()
        self.arm(e["arm"])
        k.send(*args)
        try:
            r = k.reply()
            closed = False
        except Disconnected:
            closed = True
        if closed:
            try:
                self.srv.p.wait(0.2)
            except subprocess.TimeoutExpired:
                pass
        fired, n = self.disarm()
        if fired:
            self.fires += 1
        base = {"c": c, "a": [self.arg(a) for a in args], "t0": t0, "m0": m0}
        src = ["armed", c, e["arm"]] + [a.hex()[:80] for a in args]
        if closed and not self.srv.alive():
            if not fired or e["arm"]["mode"] not in CRASHES:
                self.rec({"k": "dead", "what": "died of " + json.dumps(e["arm"]).replace('"', "'")}, src)
                return
            if self.shadow:
                self.srv.p.wait()
                self.blackout()
            l = self.sizes(name)
            clients = self.again(e.get("arms", ()))
            self.rec(dict(base, k="crash", l=l, t1=self.now(), m1=self.ms()), src)
            self.reconnect(clients)
            return
        if closed:
            self.rec(dict(base, k="cmd", r={"t": "closed", "s": "", "n": 0, "l": []}, t1=self.now(), m1=self.ms()), src)
            self.cl.pop(c).close()
            return
        if e["arm"]["mode"] in CRASHES:
            self.event(c, args, t0, m0, r)
            evmap[j] = len(self.tr.ev)
            if fired:               # answered, then died
                clients = self.again(e.get("arms", ()))
                self.rec({"k": "restart", "how": "crash"}, src)
                self.reconnect(clients)
            return
        self.event(c, args, t0, m0, r)
        self.tr.ev[-1]["fired"] = fired > 0
        self.tr.ev[-1]["l"] = self.sizes(name)
        if fired:
            self.tr.ev[-1]["k"] = "fault"
        evmap[j] = len(self.tr.ev)

    def step(self, j, e, evmap, rnd=None):
        if e["k"] == "cmd" and "arm" in e and e["c"] in self.cl:
            return self.armed(j, e, evmap)
        if e["k"] == "rebuild":
            clients = sorted(self.cl)
            super().step(j, e, evmap, rnd)
            self.reconnect(clients)
            return
        if e["k"] == "restart":
            clients = sorted(self.cl)
            if e.get("arms"):
                self.srv.kill()
                self.again(e["arms"])
                self.rec({"k": "restart", "how": "kill"}, ["restart"])
            else:
                self.restart(e.get("how", "kill"))
            self.reconnect(clients)
            return
        if e["k"] == "conn" and e["c"] not in self.cl:
            self.where.pop(e["c"], None)
        if e["k"] == "close":
            self.where.pop(e["c"], None)
        return super().step(j, e, evmap, rnd)


def play(binary, work, cfg, names, script, so, args=(), tool=None, power=0, checker=None):
    r = FaultRun(binary, work, cfg, names, so, args=args, power=power)
    r.tool, r.checker = tool, checker
    try:
        return r.play(script)
    finally:
        r.end()
