"""Instances which want the same directories."""
import hashlib, os, random, shutil, signal, time
import hooks, lib, zdb
from zdb import Disconnected, HarnessError


class LockTrace:
    def __init__(self):
        self.ev = []

    def dump(self):
        import json
        return json.dumps({"ev": self.ev})


class Daemon:
    def __init__(self, binary, work, n, i, d, prog, env, background):
        self.srv = zdb.Server(binary, work, ["--hook", prog] if prog else [], env=env, name=n, data=d, index=i)
        self.srv.background = background
        self.srv.spawn()

    def settle(self, wait=10.0):
        """does it serve?  None: not known yet"""
        if not self.srv.alive():
            return False
        if self.srv.waits:
            return None
        try:
            c = zdb.Client(self.srv.sock, timeout=1)
        except OSError:
            return None
        try:
            c.send(b"PING")
            return True if c.pending(0.5) else None
        except (OSError, Disconnected):
            return None
        finally:
            c.close()

    def cmd(self, *a):
        c = self.srv.client()
        try:
            return c.cmd(*a)
        finally:
            c.close()

    def set(self, v):
        r = self.cmd(b"SET", b"key", v)
        return "ok" if r == b"key" or r is None else "bad"

    def get(self):
        r = self.cmd(b"GET", b"key")
        return "" if r is None else r.decode("latin-1")

    def jump(self):
        return "ok" if self.cmd(b"NSJUMP") == "OK" else "bad"

    def end(self, how):
        if how == "stop":
            self.srv.stop()
        elif how == "kill":
            self.srv.kill()
        else:
            self.srv.term({"term": signal.SIGTERM, "int": signal.SIGINT, "segv": signal.SIGSEGV}[how])


class Library:
    def __init__(self, binary, work, i, d):
        self.p = lib.Program(binary, d, i, {"dsz": 1 << 20, "mode": "mix", "dmax": 0}, cwd=work)
        self.p.start()
        self.ok = self.p.call("open")[0] == "OPEN"

    def set(self, v):
        return "ok" if self.p.call("set", b"default", b"key", v)[0] in ("ZDB_API_BUFFER", "ZDB_API_SUCCESS", "ZDB_API_UP_TO_DATE") else "bad"

    def get(self):
        st, b = self.p.call("get", b"default", b"key")
        return b.decode("latin-1") if st == "ZDB_API_ENTRY" else ("" if st == "ZDB_API_NOT_FOUND" else "bad " + st)

    def end(self, how):
        if how == "close":
            self.p.call("close")        # and it keeps running
        elif how == "exit":
            self.p.end()
        else:
            self.p.kill()


def files(*ds):
    r = {}
    for d in ds:
        for base, _, fs in os.walk(d):
            for f in fs:
                if f != ".lockfile":
                    with open(os.path.join(base, f), "rb") as x:
                        r[os.path.join(base, f)] = hashlib.sha1(x.read()).hexdigest()
    return r


def play(binary, libdrv, work, prog, script, seed):
    """one history"""
    tr = LockTrace()
    hooks.adopt()
    r = random.Random(seed)
    shutil.rmtree(work, ignore_errors=True)
    hd = os.path.join(work, "hooks")
    os.makedirs(os.path.join(hd, "ctl"))
    with open(os.path.join(hd, "ctl", "jump-data"), "w") as f:
        f.write("long")
    env = {"ZHOOK_DIR": hd}
    run, left, ever = {}, [], []
    swap = {}

    def name(d):
        """the directory, under one of its names"""
        p = os.path.join(work, d)
        k = r.randrange(5)
        if k == 0:
            return p + "/"
        if k == 1:
            return os.path.join(work, d, "..", d)
        if k == 2:
            l = os.path.join(work, "link" + d)
            if not os.path.islink(l):
                os.symlink(d, l)
            return l
        if k == 3:
            return d            # relative: everybody works in the same directory
        return p

    for d in "abcd":
        os.makedirs(os.path.join(work, d))
    try:
        for e in script:
            k = e["k"]
            e = dict(e)
            if k == "stop":
                break
            for x in ("n", "m"):
                if x in e:
                    e[x] = swap.get(e[x], e[x])
            n = e.get("n")
            if k in ("open", "race"):
                i, d = (os.path.join(work, x) for x in (e["i"], e["d"]))
                before = files(i, d)
                e["rc"] = 1
                if e["kind"] == "lib":
                    x = Library(libdrv, work, name(e["i"]), name(e["d"]))
                    e["ok"] = x.ok
                    (run.__setitem__(n, x))
                else:
                    xs = [Daemon(binary, work, y, name(e["i"]), name(e["d"]), prog, env, r.randrange(3) == 0) for y in ([n, e["m"]] if k == "race" else [n])]
                    ever += xs
                    end = time.time() + 15
                    st = [None] * len(xs)
                    while time.time() < end and None in st:
                        st = [y.settle() for y in xs]
                        time.sleep(0.002)
                    if None in st:
                        tr.ev.append({"k": "bad", "what": "does neither serve nor exit"})
                        return tr
                    for y, s, z in zip(xs, st, [n, e.get("m")]):
                        if s:
                            run[z] = y
                        else:
                            e["rc"] = y.srv.p.wait()
                    if k == "race":
                        e["ok2"] = st[1]
                        if st[1] and not st[0]:
                            swap = {u: {n: e["m"], e["m"]: n}.get(swap.get(u, u), swap.get(u, u)) for u in ("n1", "n2", "n3")}
                    e["ok"] = st[0]
                if k == "open":
                    e["same"] = e["ok"] or files(i, d) == before
            elif n not in run:
                tr.ev.append({"k": "bad", "what": "nobody is " + n})
                return tr
            elif k == "set":
                e["r"] = run[n].set(e["v"].encode())
            elif k == "get":
                e["r"] = run[n].get()
            elif k == "jump":
                e["r"] = run[n].jump()
            elif k == "end":
                x = run.pop(n)
                left.append(x)
                x.end(e["how"])
                if prog:
                    hooks.started(binary, not_these=[y.srv.p.pid for y in run.values() if isinstance(y, Daemon)])
            tr.ev.append(e)
    except (Disconnected, lib.Gone, HarnessError, OSError) as x:
        tr.ev.append({"k": "bad", "what": type(x).__name__ + " " + str(x)[:200].replace("\\", "/").replace('"', "'")})
    finally:
        for x in list(run.values()) + left + ever:
            (x.p.kill if isinstance(x, Library) else x.srv.kill)()
        hooks.reap(4)                   # the runs of the hook program end by themselves
        shutil.rmtree(work, ignore_errors=True)
    return tr


def i01(ctx):
    import tlc
    ctx.model("every history of three instances and four directories", "ZdbLockMC", "ZdbLockMC.cfg")
    n = ctx.pick(96, 1500)
    scripts = tlc.generate({"depth": 26}, n, ctx.rnd.randrange(1, 1 << 20), ctx.scratch, module="ZdbLockGen")
    drv = lib.compile(ctx.src())
    prog = hooks.build(ctx.scratch)
    jobs = [(play, ctx.zdb, drv, os.path.join(ctx.scratch, "l%d" % j), prog if j % 2 else None, s, ctx.rnd.randrange(1 << 30)) for j, s in enumerate(scripts)]
    ctx.traced("histories of instances", jobs, module="ZdbLockTrace")
