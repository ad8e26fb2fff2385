"""Runs with a hook program, and with data files taken away."""
import ctypes, os, re, signal, subprocess, time
import driver, runner, zdb
from zdb import Disconnected, HarnessError

HERE = os.path.dirname(os.path.abspath(__file__))
CTL = {"ok": "0", "fail": "7", "sig": "k", "lie": "lie", "orphan": "orphan"}


def build(dest):
    out = os.path.join(dest, "hook")
    r = subprocess.run(["gcc", "-O1", "-static", "-o", out, os.path.join(HERE, "c", "hook.c")],
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise HarnessError("hook program: " + r.stdout.decode(errors="replace")[-500:])
    return out


def adopt():
    ctypes.CDLL(None).prctl(36, 1)      # PR_SET_CHILD_SUBREAPER: what the daemon leaves behind is ours


def reap(limit=10):
    """wait for what was left behind"""
    end = time.time() + limit
    while time.time() < end:
        try:
            pid, _ = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            return
        if pid == 0:
            time.sleep(0.003)


def started(binary, limit=3, not_these=()):
    """until what was left behind is the hook program, no longer a copy of the daemon about to become it"""
    end = time.time() + limit
    while time.time() < end:
        busy = False
        for pid in os.listdir("/proc"):
            if not pid.isdigit() or int(pid) in not_these:
                continue
            try:
                with open("/proc/%s/stat" % pid, "rb") as f:
                    ppid = int(f.read().rsplit(b")", 1)[1].split()[1])
                busy |= ppid == os.getpid() and os.readlink("/proc/%s/exe" % pid) == binary
            except OSError:
                pass
        if not busy:
            return
        time.sleep(0.002)


class HookRun(driver.Run):
    def __init__(self, binary, work, cfg, names, args=(), env=None, prog=None, reaper=False, long=False):
        d = os.path.join(work, "hooks")
        a = list(args) + (["--hook", prog] if cfg["hook"] else [])
        super().__init__(binary, work, cfg, names, args=a, env=dict(env or {}, ZHOOK_DIR=d))
        for x in ("ctl", "stash"):
            os.makedirs(os.path.join(d, x))
        self.dir = d
        self.srv.subreaper = reaper
        if long:
            self.srv.data = os.path.join(work, "L" * 200, "M" * 150, "data")
            self.srv.index = os.path.join(work, "L" * 200, "N" * 150, "index")
            os.makedirs(self.srv.data)
            os.makedirs(self.srv.index)
        self.seen = 0
        self.zdbid = None
        self.since = 0
        self.stash = {}     # namespace -> stashed files
        self.where = {}
        adopt()

    # -- what the hook program was called with
    def path(self, base, p):
        m = re.fullmatch(re.escape(base.encode()) + rb"/([^/]+)/([di])([0-9]+)", p)
        if not m:
            raise ValueError(p)
        return self.tk.tok(m.group(1)), m.group(2), int(m.group(3))

    def hrun(self, h, a):
        """type, arguments after the id -> record"""
        ns, f, g, d = "", 0, 0, []
        D, I = self.srv.data, self.srv.index
        try:
            if h in ("ready", "close", "crash"):
                () = a
            elif h == "namespaces-init":
                if [x.rstrip(b"/") for x in a] != [I.encode(), D.encode()]:
                    raise ValueError(a)
            elif h in ("jump-index", "jump-data"):
                w, b = (b"i", I) if h == "jump-index" else (b"d", D)
                ns, w1, f = self.path(b, a[0])
                n2, w2, g = self.path(b, a[1])
                if h == "jump-index":
                    d = [int(x) for x in a[2].split()]
                if ns != n2 or w1 != w or w2 != w or len(a) != (3 if w == b"i" else 2):
                    raise ValueError(a)
            elif h == "namespace-closing":
                n, i, p, x = a
                ns = self.tk.tok(n)
                n1, w1, f = self.path(I, i)
                n2, w2, g = self.path(D, p)
                d = [int(y) for y in x.split()]
                if (n1, w1, n2, w2) != (ns, b"i", ns, b"d"):
                    raise ValueError(a)
            elif h == "missing-data":
                x, = a
                ns, w, f = self.path(D, x)
                if w != b"d":
                    raise ValueError(a)
            else:
                x, = a
                ns = self.tk.tok(x)
        except (ValueError, IndexError, TypeError):
            return {"h": "bad " + h[:20], "ns": repr(a)[:80].replace("\\", "/").replace('"', "'"), "f": 0, "g": 0, "d": []}
        return {"h": h, "ns": ns, "f": f, "g": g, "d": d}

    def log(self):
        try:
            with open(os.path.join(self.dir, "log"), "rb") as f:
                f.seek(self.seen)
                b = f.read()
        except FileNotFoundError:
            return []
        b = b[:b.rfind(b"\n") + 1]
        self.seen += len(b)
        q = []
        for l in b.split(b"\n")[:-1]:
            w = [bytes.fromhex(x.decode()) for x in l.split(b" ")]
            r = self.hrun(w[0].decode("latin-1"), w[2:])
            i = w[1] if len(w) > 1 else b""
            if not self.known(i):
                r["h"] = "bad id " + r["h"]
            q.append(r)
        return q

    def known(self, i):
        """the id is always the same"""
        if self.zdbid is None:
            self.zdbid = i
        return i and i == self.zdbid

    def look(self, all=False):
        self.rec({"k": "hooks", "q": self.log(), "all": all}, ["hooks"])
        self.since = 0

    def quiet(self):
        """wait until every run is over, as HOOKS tells"""
        if not self.cfg["hook"]:
            return
        end = time.time() + 10
        c = self.srv.client()
        try:
            if self.cfg["admin"]:
                c.cmd(b"AUTH", self.tk.t2b[self.cfg["admin"]])
            while time.time() < end:
                r = c.cmd(b"HOOKS")
                if isinstance(r, list) and all(isinstance(x, list) and len(x) == 6 and x[4] for x in r):
                    break
                time.sleep(0.01)
        finally:
            c.close()
        self.look(True)

    def mapreply(self, op, args, r):
        if op == "HOOKS" and isinstance(r, list):
            try:
                l = []
                now = time.time()
                for h, a, pid, created, fin, st in r:
                    # the id is not shown
                    e = self.hrun(h.decode("latin-1"), a)
                    if pid <= 0 or not now - 3600 < created <= now + 1 or (fin and not created <= fin <= now + 1):
                        e["h"] = "bad times " + e["h"]
                    l.append(dict(e, fin=fin > 0, st=st))
                return {"t": "hooks", "s": "", "n": 0, "l": l}
            except (ValueError, TypeError, AttributeError):
                return {"t": "bad", "s": "HOOKS", "n": 0, "l": []}
        if op == "MGET" and isinstance(r, list):
            m = super().mapreply(op, args, r)
            m["l"] = ["err!" if x == "!err" else x for x in m["l"]]
            return m
        return super().mapreply(op, args, r)

    def cmd(self, c, *args):
        r = super().cmd(c, *args)
        if r == "closed":
            return r
        op = self.opname(args[0] if isinstance(args[0], bytes) else args[0].encode("latin-1"))
        if op == "SELECT" and self.tr.ev[-1]["r"]["t"] == "ok":
            self.where[c] = args[1]
        if op in ("NSDEL", "FLUSH") and self.tr.ev[-1]["r"]["t"] == "ok":
            self.unstash(args[1] if op == "NSDEL" else self.where.get(c, b"default"))
        return r

    def unstash(self, ns):
        for p in self.stash.pop(ns, []):
            try:
                os.unlink(p)
            except FileNotFoundError:
                pass

    # -- life cycle
    def orphans(self):
        """runs the daemon did not wait for"""
        reap()

    def halt(self, how="kill"):
        if how == "segv":
            self.srv.term(signal.SIGSEGV)
            super().halt("kill")
        elif how == "none":
            pass
        else:
            super().halt(how)
        self.orphans()
        self.where = {}

    def restart(self, how="kill"):
        super().restart(how)
        if self.cfg["hook"]:
            self.look()

    def ctl(self, h, v):
        self.rec({"k": "hm", "h": h, "v": v}, ["hm", h, v])
        p = os.path.join(self.dir, "ctl", h)
        with open(p + ".new", "w") as f:
            f.write(CTL[v])
        os.rename(p + ".new", p)

    def denied(self, how, v):
        """the hook program does not want the daemon to serve"""
        self.quiet()
        self.ctl("ready", v)
        self.halt(how)
        self.srv.spawn()
        end = time.time() + 10
        served = False
        while time.time() < end and self.srv.p.poll() is None and not served:
            try:
                c = zdb.Client(self.srv.sock, timeout=0.5)
                try:
                    c.send(b"PING")
                    served = c.pending(0.5)
                finally:
                    c.close()
            except (OSError, Disconnected):
                time.sleep(0.005)
        if served or self.srv.p.poll() is None:
            self.rec({"k": "bad", "what": "serves, or hangs, without the consent of its hook"}, ["noready"])
            self.srv.kill()
            return
        rc = self.srv.p.returncode
        self.orphans()
        self.rec({"k": "noready", "how": how, "rc": rc}, ["noready", how])
        self.look(True)
        self.ctl("ready", "ok")
        self.restart("none")

    def offload(self, ns, f):
        name = self.tk.t2b.get(ns, ns.encode("latin-1"))
        p = os.path.join(self.srv.data.encode(), name, b"d%d" % f)
        to = os.path.join(self.dir.encode(), b"stash", p.hex().encode())
        try:
            if f >= max(int(x[1:]) for x in os.listdir(os.path.dirname(p)) if x.startswith(b"d")):
                return              # the active one
            os.rename(p, to)
        except (FileNotFoundError, ValueError):
            return
        self.stash.setdefault(name, []).append(to)
        self.rec({"k": "offload", "ns": ns, "f": f}, ["offload", ns, f])

    def start(self, **kw):
        super().start(**kw)
        if self.cfg["hook"] and not self.tr.ev:
            self.look()

    def step(self, j, e, evmap, rnd=None):
        k = e["k"]
        if k == "hm":
            self.quiet()
            self.ctl(e["h"], e["v"])
        elif k == "offload":
            self.offload(e["ns"], e["f"])
        elif k == "noready":
            self.denied(e["how"], e["v"])
        elif k == "quiet":
            self.quiet()
        else:
            n = len(self.tr.ev)
            super().step(j, e, evmap, rnd)
            if k == "cmd" and self.cfg["hook"] and len(self.tr.ev) > n and self.serving():
                self.since += 1
                if self.since > 8:
                    self.quiet()
                else:
                    self.rec({"k": "hooks", "q": self.log(), "all": False}, ["hooks"])

    def play(self, script):
        def finish():
            yield from (e for e in script if e["k"] != "end")
            yield {"k": "quiet"}
        return super().play(list(finish()))

    def end(self):
        super().end()
        self.orphans()


class StayRun(driver.Run):
    """the runs of the hook program go on and on while clients come and go, through TCP or the unix socket,
    and while the daemon ends and starts"""
    STAY = ("jump-data", "namespace-created", "namespace-updated", "namespace-deleted", "namespace-reloaded")

    def __init__(self, binary, work, cfg, names, prog):
        import resp
        self.port = resp.freeport()
        d = os.path.join(work, "hooks")
        super().__init__(binary, work, cfg, names, env={"ZHOOK_DIR": d},
                         args=["--hook", prog, "--dualnet", "--listen", "127.0.0.1", "--port", str(self.port)])
        os.makedirs(os.path.join(d, "ctl"))
        for h in self.STAY:
            with open(os.path.join(d, "ctl", h), "w") as f:
                f.write("stay")
        self.prog = prog
        adopt()

    def conn(self, c):
        if c % 2:
            return super().conn(c)
        self.cl[c] = zdb.Client(None, self.port)
        self.rec({"k": "conn", "c": c}, ["conn", c])

    def halt(self, how="kill"):
        super().halt(how)
        started(os.path.realpath(self.srv.binary))

    def step(self, j, e, evmap, rnd=None):
        for k in self.cl.values():
            k.s.settimeout(4)
        super().step(j, e, evmap, rnd)

    def end(self):
        super().end()
        for _ in range(200):
            left = False
            for pid in os.listdir("/proc"):
                try:
                    with open("/proc/%s/stat" % pid, "rb") as f:
                        ppid = int(f.read().rsplit(b")", 1)[1].split()[1])
                    if ppid == os.getpid() and pid.isdigit():       # ours: adopted
                        os.kill(int(pid), signal.SIGKILL)
                        left = True
                except (OSError, ValueError, IndexError):
                    pass
            reap(1)
            if not left:
                break


def play(binary, work, cfg, names, script, opts):
    if opts["hook"] == "stay":
        r = StayRun(opts.get("binary", binary), work, cfg, names, opts["prog"])
        try:
            return r.play(script)
        finally:
            r.end()
    r = HookRun(binary, work, cfg, names, args=opts.get("args", ()), env=opts.get("env"), prog=opts["hook"],
                reaper=opts.get("reaper", False), long=opts.get("long", False))
    runner.detach(r, work, opts)
    try:
        return r.play(script)
    finally:
        r.end()
