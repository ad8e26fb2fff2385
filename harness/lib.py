"""Programs using the embedded library, and runs in which the library and the daemon take turns."""
import os, subprocess, threading
import driver, hooks, zdb
from driver import argrec
from zdb import HarnessError

HERE = os.path.dirname(os.path.abspath(__file__))


def compile(src, cflags=""):
    """the driver of the library, linked with the library built in src"""
    out = os.path.join(src, "libdrv")
    r = subprocess.run(["gcc", "-std=gnu11", "-g", "-O0", "-w"] + cflags.split() + ["-I", os.path.join(src, "libzdb"), "-o", out,
                        os.path.join(HERE, "c", "libdrv.c"), os.path.join(src, "libzdb", "libzdb.a")],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    if r.returncode:
        raise zdb.BuildError("libdrv: " + r.stdout.decode(errors="replace")[-2000:])
    return out


class Gone(Exception):
    """the program using the library died"""


class Program:
    def __init__(self, binary, data, index, cfg, env=None, cwd=None, more=()):
        self.cmd = [binary, data, index, str(cfg["dsz"]), cfg["mode"], str(cfg["dmax"])] + list(more)
        self.env = dict(os.environ, **(env or {}))
        self.cwd = cwd
        self.p = None

    def start(self):
        r, w = os.pipe()

        def pre():
            zdb._die_with_parent()
            os.dup2(w, 3) if w != 3 else os.set_inheritable(3, True)
        self.p = subprocess.Popen(self.cmd, stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=self.env, cwd=self.cwd,
                                  preexec_fn=pre, close_fds=True, pass_fds=(w, 3))
        os.close(w)
        self.f = os.fdopen(r, "rb")

    def call(self, op, ns=b"", key=b"", val=b"", limit=20):
        t = threading.Timer(limit, self.p.kill)
        t.start()
        try:
            self.p.stdin.write(b"%s %d %d %d\n" % (op.encode(), len(ns), len(key), len(val)) + ns + key + val)
            self.p.stdin.flush()
            l = self.f.readline().split()
            if len(l) != 2:
                raise Gone()
            n = int(l[1])
            b = self.f.read(n)
            if len(b) != n:
                raise Gone()
            return l[0].decode(), b
        except (BrokenPipeError, ConnectionResetError):
            raise Gone()
        finally:
            t.cancel()

    def alive(self):
        return self.p is not None and self.p.poll() is None

    def end(self):
        """no more input: it exits"""
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            rc = self.p.wait(20)
        except subprocess.TimeoutExpired:
            self.p.kill()
            rc = self.p.wait()
        self.f.close()
        return rc

    def kill(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            try:
                self.p.stdin.close()
            except OSError:
                pass
            self.f.close()
            self.p = None


CALLS = {"SET": ("set", 3), "GET": ("get", 2), "EXISTS": ("exists", 2), "CHECK": ("check", 2), "DEL": ("del", 2)}


# of a namespace: function, arguments, of which namespace (None: the one of the caller)
MANAGE = {"NSNEW": ("create", 1), "NSDEL": ("delete", 1), "RELOAD": ("reload", 1), "NSJUMP": ("jump", 0), "FLUSH": ("flush", 0)}


class Turns:
    """commands of the script which the library knows are calls of the library while it has its turn"""

    def embed(self, prog, env, more=()):
        self.prog = Program(prog, self.srv.data, self.srv.index, self.cfg, env, self.work, more)
        self.turn = False
        self.at = {}

    def orphans(self):
        pass

    def look(self, all=False):
        pass

    def end(self):
        self.prog.kill()
        super().end()

    def serving(self):
        return self.turn or self.srv.alive()

    def libopen(self, how):
        if not self.prog.alive():
            self.prog.start()
        st, _ = self.prog.call("open")
        self.rec({"k": "libopen", "st": st, "how": how}, ["libopen", how])
        self.look()

    def step(self, j, e, evmap, rnd=None):
        k, c = e["k"], e.get("c")
        if k == "lib":
            if self.turn:
                return
            self.back = sorted(self.cl)
            self.halt(e["how"])
            self.turn = True
            return self.libopen(e["how"])
        if k in ("libagain", "daemon", "restart"):
            if not self.turn:
                return super().step(j, e, evmap, rnd) if k == "restart" else None
            how = e["how"] if k != "restart" else "close"
            if how == "kill":
                self.prog.kill()
            else:
                if how != "exit":
                    self.prog.call("close")
                    self.rec({"k": "libclose"}, ["libclose"])
                if not (how == "close" and k == "libagain"):
                    rc = self.prog.end()
                    if rc != 0:
                        raise Gone()
            if not self.prog.alive():
                self.orphans()
                self.look(True)
            if k == "libagain":
                return self.libopen("lib")
            self.turn = False
            self.start()
            self.rec({"k": "restart", "how": "lib " + how}, ["restart"])
            for c in self.back:
                self.conn(c)
                if c in self.at:
                    self.cmd(c, b"SELECT", *self.at[c])
            return
        if not self.turn or k in ("hm", "offload"):
            n = len(self.tr.ev)
            super().step(j, e, evmap, rnd)
            new = [x for x in self.tr.ev[n:] if x["k"] == "cmd" and x["c"] == c]
            if k == "cmd" and e["a"][0] == "SELECT" and new and new[0]["r"]["t"] == "ok":
                self.at[c] = [self.sym(a, evmap, rnd) for a in e["a"][1:]]
            if k == "conn" and len(self.tr.ev) > n:
                self.at.pop(c, None)
            return
        if k == "cmd" and e["a"][0] in CALLS and len(e["a"]) == CALLS[e["a"][0]][1] and c in self.back:
            args = [self.sym(a, evmap, rnd) for a in e["a"][1:]]
            ns = self.at.get(c, [b"default"])[0]
            t0 = self.now(0.02)
            st, b = self.prog.call(CALLS[e["a"][0]][0], ns, *args)
            st = st.replace("ZDB_API_", "")
            self.rec({"k": "api", "op": e["a"][0], "ns": self.tk.tok(ns), "a": [self.arg(x) for x in args],
                      "st": st, "r": {"t": "", "s": self.tk.tok(b) if st in ("BUFFER", "ENTRY") else "", "n": 0, "l": []},
                      "t0": t0, "t1": self.now()}, ["api"])
            self.look()
        elif k == "cmd" and e["a"][0] in MANAGE and len(e["a"]) == MANAGE[e["a"][0]][1] + 1 and c in self.back:
            op = e["a"][0]
            args = [self.sym(a, evmap, rnd) for a in e["a"][1:]]
            ns = args[0] if args else self.at.get(c, [b"default"])[0]
            if b"\0" in ns:
                return
            t0 = self.now(0.02)
            st, _ = self.prog.call(MANAGE[op][0], ns)
            self.rec({"k": "manage", "op": op, "ns": self.tk.tok(ns), "a": [self.arg(x) for x in args], "st": st,
                      "r": {"t": "", "s": "", "n": 0, "l": []}, "t0": t0, "t1": self.now()}, ["manage", op])
            if op in ("NSDEL", "FLUSH") and st == "DONE":
                self.unstash(ns)
            self.look()

    def unstash(self, ns):
        pass

    def play(self, script):
        try:
            return super().play(script)
        except Gone:
            self.rec({"k": "dead", "what": "the program using the library died"}, ["dead"])
            return self.tr


class LibRun(Turns, driver.Run):
    def __init__(self, binary, work, cfg, names, prog, env=None, **kw):
        super().__init__(binary, work, cfg, names, env=env, **kw)
        self.embed(prog, env)


class LibHookRun(Turns, hooks.HookRun):
    """with a hook program; programs have an id of their own, or none"""

    def __init__(self, binary, work, cfg, names, prog, hook, noid, env=None, **kw):
        super().__init__(binary, work, cfg, names, env=env, prog=hook, **kw)
        self.embed(prog, dict(env or {}, ZHOOK_DIR=self.dir), [hook] + ["-"] * noid)
        self.ids = ("unknown-id" if noid else "libdrv").encode()

    orphans = hooks.HookRun.orphans
    look = hooks.HookRun.look
    unstash = hooks.HookRun.unstash

    def known(self, i):
        return i == self.ids or super().known(i)

    def quiet(self):
        if not self.turn:
            super().quiet()


def play(binary, work, cfg, names, script, opts):
    a = (opts.get("binary", binary), work, cfg, names, opts["lib"])
    if opts.get("hook"):
        r = LibHookRun(*a, hook=opts["hook"], noid=opts["noid"], env=opts.get("env"), args=opts.get("args", ()))
    else:
        r = LibRun(*a, env=opts.get("env"), args=opts.get("args", ()))
    try:
        return r.play(script)
    finally:
        r.end()
