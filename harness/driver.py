"""Drives the real daemon with symbolic scripts and records traces the specification can read."""
import calendar, hashlib, json, os, re, select, shutil, socket, struct, subprocess, time
import crc, zdb
from zdb import Err, Simple, Disconnected, HarnessError

SEQ_MAX = 1 << 24
I31 = (1 << 31) - 1


def u32shift(v):
    """32 bit unsigned value as TLC integer"""
    return (v & 0xffffffff) - (1 << 31)


def clip(v):
    return max(-I31, min(I31, v))


def seqid(n):
    return struct.pack("<Q", n)


_fill = re.compile(rb"^F[0-9]{7}$")


def filler(n):
    return b"F%07d" % n


_num = re.compile(rb"^[ \t\n\v\f\r]*([+-]?[0-9]+)")


def atoll(b):
    m = _num.match(b)
    if not m:
        return 0
    return max(-(1 << 63), min((1 << 63) - 1, int(m.group(1)[:1000])))


def snapshot(d):
    return {f: open(os.path.join(d, f), "rb").read() for f in os.listdir(d)}


class ScriptError(Exception):
    """the harness misused itself"""


class Tokens:
    """Injective map bytes <-> token."""

    def __init__(self, names=None):
        self.b2t = {}
        self.t2b = {}
        for n, b in (names or {}).items():
            self.bind(n, b)

    def bind(self, t, b):
        if t in self.t2b or b in self.b2t:
            raise ScriptError("token %r bound twice" % t)
        self.t2b[t] = b
        self.b2t[b] = t

    def tok(self, b):
        t = self.b2t.get(b)
        if t is not None:
            return t
        if len(b) == 0:
            return ""
        if len(b) == 8:
            if _fill.match(b):
                t = "F%d" % int(b[1:])
                self.bind(t, b)
                return t
            n = struct.unpack("<Q", b)[0]
            if n < SEQ_MAX:
                t = "#%d" % n
                self.bind(t, b)
                return t
        if len(b) <= 24 and b.isascii():
            s = b.decode()
            if s.isprintable() and s[0] not in "#@~!?" and s != "nil" and s not in self.t2b \
                    and not re.match(r"^[kvbF][0-9]+$", s):
                self.bind(s, b)
                return s
        t = "~%d" % len(self.t2b)
        self.bind(t, b)
        return t


class Trace:
    """One recorded run: configuration, argument table, events."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.args = []
        self.argidx = {}
        self.ev = []
        self.src = []       # concrete form of every event, for replay

    def arg(self, rec):
        k = json.dumps(rec, sort_keys=True)
        i = self.argidx.get(k)
        if i is None:
            self.args.append(rec)
            i = self.argidx[k] = len(self.args)
        return i

    def dump(self):
        return json.dumps({"cfg": dict(self.cfg, dmax=clip(self.cfg["dmax"])), "args": self.args or [argrec("", b"")], "ev": self.ev})


def argrec(tok, b, h="", p=""):
    up = ""
    if len(b) <= 24:
        up = b.decode("latin-1").upper() if b.isascii() and b.decode().isprintable() else "\x01"
        if '"' in up or "\\" in up or "\x01" in up:
            up = "?nonword?"
    else:
        up = "?long?"
    n = atoll(b)
    return {"t": tok, "l": len(b), "up": up, "n": clip(n), "u": u32shift(n), "b": b[:1] == b"1",
            "h": h, "p": p, "sl": (b"/" in b or b"\0" in b or b in (b".", b"..")), "z": b.strip(b"\0") == b""}


def default_cfg(**kw):
    c = {"admin": "", "protect": False, "mode": "mix", "dsz": 256 * 1024 * 1024, "dmax": 0, "isz": 0,
         "hook": False, "hookok": True, "rot": 0, "st": 0, "net": "unix"}
    c.update(kw)
    return c


def size(n):
    """a number of bytes, in some of the ways to write it"""
    forms = [str(n)] + ["%d%s" % (n >> s, c) for s, c in ((10, "k"), (20, "M"), (30, "G")) if n and n % (1 << s) == 0]
    if n % 1024 == 0:
        forms += ["%r%s" % (n / (1 << 20), "M")] * (n / (1 << 20) * 1000 % 1 == 0)
    return forms[n // 1024 % len(forms)]


def cfg_args(cfg, tokens):
    a = []
    if cfg["admin"]:
        a += ["--admin", tokens.t2b[cfg["admin"]].decode("latin-1")]
    if cfg["protect"]:
        a += ["--protect"]
    if cfg["mode"] != "mix":
        a += ["--mode", cfg["mode"]]
    if cfg["dsz"] != 256 * 1024 * 1024:
        a += ["--datasize", size(cfg["dsz"])]
    if cfg["rot"]:
        a += ["--rotate", str(cfg["rot"])]
    if cfg["dmax"]:
        a += ["--maxsize", str(cfg["dmax"])]
    return a


class Run:
    """A daemon under observation."""

    def __init__(self, binary, work, cfg, names, args=(), env=None):
        self.cfg = self.running = cfg
        self.tk = Tokens(names)
        self.work = work
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        self.srv = zdb.Server(binary, work, cfg_args(cfg, self.tk) + list(args), env=env)
        self.tr = Trace(cfg)
        self.cl = {}
        self.out = {}        # event index -> reply bytes usable as @ref
        self.nonce = {}      # nonce bytes -> token
        self.nonces = {}     # event index -> nonce bytes
        self.hash = {}       # bytes -> (nonce token, password token)
        self.base = time.time()
        self.cmds = 0
        self.mirrors = set()
        self.files = {}
        self.altered = {}
        self.reload_args = None
        self.answered = set()   # waiting clients whose answer was read

    # -- life cycle
    def start(self, **kw):
        if self.cfg["rot"] and not self.cfg["st"]:
            self.cfg = self.tr.cfg = {**self.cfg, "st": self.now(0.02)}
        if self.syncer:
            self.reachable(**kw)
        else:
            self.srv.start(**kw)
        self.learn_iid()

    def ms(self):
        return int((time.time() - self.base) * 1000)

    def now(self, slack=0.0):
        return u32shift(int(time.time() - slack))

    def end(self):
        if getattr(self, "hostile", None):
            self.hostile.end()
        for c in self.cl.values():
            c.close()
        self.cl = {}
        self.srv.kill()
        shutil.rmtree(self.work, ignore_errors=True)

    # -- recording
    def rec(self, ev, src):
        self.tr.ev.append(ev)
        self.tr.src.append(src)
        return len(self.tr.ev)

    def conn(self, c):
        self.cl[c] = self.srv.client()
        self.rec({"k": "conn", "c": c}, ["conn", c])

    def close(self, c):
        self.cl.pop(c).close()
        self.mirrors.discard(c)
        self.rec({"k": "close", "c": c}, ["close", c])

    def halt(self, how="kill"):
        if how == "stop":
            self.srv.stop()
        elif how == "term":
            self.srv.term()
        elif how == "int":
            self.srv.term(2)
        else:
            self.srv.kill()
        for x in self.cl.values():
            x.close()
        if getattr(self, "hostile", None):
            self.hostile.end()
        self.cl = {}
        self.mirrors = set()

    def restart(self, how="kill"):
        self.halt(how)
        self.start()
        self.refused = False
        self.rec({"k": "restart", "how": how}, ["restart", how])

    cfgs = ()

    def frozen(self):
        """all files and directories"""
        return {os.path.join(d, f): open(os.path.join(d, f), "rb").read() if f else b""
                for x in (self.srv.data, self.srv.index) for d, _, fs in os.walk(x) for f in fs + [""]}

    def reopt(self, how, n):
        """stop, start with the n-th set of options"""
        self.halt(how)
        self.cfg = {**self.cfgs[n - 1], "isz": self.cfg["isz"]}
        before, self.srv.args = self.frozen(), cfg_args(self.cfg, self.tk)
        self.srv.port, self.srv.net = 0, self.cfg["net"]
        self.srv.host = "127." + ".".join(str(1 + x % 254) for x in os.urandom(3))      # nobody else's, so any port is free
        was, ends = self.running, []
        try:
            ok = self.srv.start(expect_fail=True)
        except HarnessError:
            ok = True                       # it runs but cannot be reached
        died = not ok and not 0 < self.srv.p.returncode < 128
        if ok:
            ends = self.srv.reached()
            self.learn_iid()
            self.running = self.cfg
        self.refused = not ok
        same = ok or not died and self.frozen() == before
        self.rec({"k": "restart", "how": how, "cfg": dict(self.cfg, dmax=clip(self.cfg["dmax"])), "ok": ok, "same": same, "ends": ends}, ["reopt", how, n])
        if not ok:                          # the next start has the options of the last which served
            self.cfg = was
            self.srv.args, self.srv.net = cfg_args(was, self.tk), was["net"]

    BAD = [["--datasize", "524287"], ["--datasize", "511k"], ["--datasize", "4G"], ["--datasize", "4294967295"], ["--datasize", "4096M"], ["--datasize", "1T"],
           ["--datasize", "0"], ["--datasize", "-1M"], ["--datasize", "M"], ["--datasize", "lots"], ["--datasize", "1Q"], ["--datasize", ""],
           ["--mode", "users"], ["--mode", ""], ["--mode", "mix"], ["--mode", "SEQ"], ["--protect"], ["--nosuch"], ["--listen"], ["--datasize"]]

    def badopts(self, n):
        """stop, start with options which are not any"""
        self.halt("kill")
        bad = self.BAD[n % len(self.BAD)]
        args = cfg_args({**self.cfg, "admin": "", "protect": False} if bad == ["--protect"] else self.cfg, self.tk)
        before, was = self.frozen(), self.srv.args
        self.srv.args = args + bad if len(bad) == 1 or n // 20 % 2 else bad + [x for i, x in enumerate(args) if bad[0] not in (args[i], args[i - 1] if i else "")]
        try:
            ok = self.srv.start(expect_fail=True)
        except HarnessError:
            ok = True
        died = not ok and not 0 < self.srv.p.returncode < 128
        self.srv.kill()
        self.refused = True
        self.rec({"k": "badopts", "n": n, "ok": ok, "same": not died and self.frozen() == before}, ["badopts", n])
        self.srv.args = was

    tool = None

    def rebuild(self, ns, how="kill", mode="user"):
        """stop the daemon, remove the index files of ns, make them again with the tool, start"""
        name = self.tk.t2b.get(ns, ns.encode("latin-1")).decode("latin-1")
        self.halt(how)
        d, i = os.path.join(self.srv.data, name), os.path.join(self.srv.index, name)
        for f in os.listdir(i):
            if re.fullmatch("i[0-9]+", f):
                os.unlink(os.path.join(i, f))
        before = snapshot(d)
        try:
            rc = subprocess.run([self.tool, "--data", self.srv.data, "--index", self.srv.index, "--namespace", name, "--mode", mode],
                                stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60, cwd=self.work).returncode
        except subprocess.TimeoutExpired:
            rc = -99
        same = snapshot(d) == before
        self.start()
        self.rec({"k": "rebuild", "ns": ns, "rc": rc, "same": same}, ["rebuild", ns, how, mode])

    def live(self, c):
        """walk over the whole namespace with SCAN"""
        k, out, a = self.cl[c], [], []
        for _ in range(10000):
            r = k.cmd(b"SCAN", *a)
            if isinstance(r, Err):
                break
            a = [r[0]]
            out += [[self.tk.tok(x[0]), x[1]] for x in r[1]]
        self.rec({"k": "live", "c": c, "l": out}, ["live", c])

    def arg(self, b):
        t = self.tk.tok(b)
        h, p = self.hash.get(b, ("", ""))
        return self.tr.arg(argrec(t, b, h, p))

    def answer(self, nonce, pwtok):
        """bytes answering a challenge"""
        pw = self.tk.t2b.get(pwtok, pwtok.encode())
        b = hashlib.sha1(nonce + b":" + pw).hexdigest().encode()
        if nonce in self.nonce:
            self.hash[b] = (self.nonce[nonce], self.tk.tok(pw))
        return b

    def tokval(self, b):
        return self.tk.tok(b)

    def mapreply(self, op, args, r):
        """reply -> record of the specification"""
        def R(t, s="", n=0, l=()):
            return {"t": t, "s": s, "n": n, "l": list(l)}
        if isinstance(r, Err):
            return R("err")
        if r is None:
            return R("nil")
        try:
            if isinstance(r, Simple):
                if op == "AUTH" and r != "OK":
                    b = str(r).encode("latin-1")
                    t = self.nonce.setdefault(b, "!%d" % len(self.nonce))
                    return dict(R("nonce", t), _nonce=b)
                return R("ok", str(r))
            if op in ("SCAN", "SCANX", "RSCAN"):
                if len(r) != 2 or not isinstance(r[0], bytes):
                    return R("bad")
                l = []
                for k, n, ts in r[1]:
                    if not (isinstance(n, int) and isinstance(ts, int) and 0 <= n <= I31
                            and 0 <= ts < 1 << 32):
                        return R("bad")
                    l.append([self.tk.tok(k), n, u32shift(ts)])
                return dict(R("scan", self.tk.tok(r[0]), 0, l), _cur=r[0])
            if op == "KEYCUR":
                return dict(R("cur", self.tk.tok(r)), _cur=r)
            if op == "HISTORY":
                ek, ts, v = r
                ts = int(ts)
                if not 0 <= ts < 1 << 32:
                    return R("bad")
                return dict(R("hist", self.tk.tok(v), u32shift(ts),
                              ["nil" if ek is None else self.tk.tok(ek)]),
                            _cur=(b"\0" * 8 if ek is None else ek))
            if op == "KEYTIME":
                if not (isinstance(r, int) and 0 <= r < 1 << 32):
                    return R("bad")
                return R("ts", "", u32shift(r))
            if op == "KSCAN":
                if r[0] != b"0":
                    return R("bad")
                return R("keys", "", 0, [self.tk.tok(k) for k in r[1]])
            if op == "DATA":
                k, prev, sum_, fl, ts, v = r
                if not all(isinstance(x, int) and 0 <= x < 1 << 32 for x in (prev, fl, ts)) or prev > I31 or fl > I31:
                    return R("bad")
                return R("raw", "nil" if v is None else self.tk.tok(v), u32shift(ts),
                         [self.tk.tok(k), prev, fl, "good" if crcok(self.written(v), sum_) else "bad"])
            if op == "TIME":
                return R("time", "", u32shift(int(r[0])))
            if op == "INFO":
                return R("text")
            if op == "HOOKS":
                return R("hooks", "", len(r))
            if op == "NSINFO":
                return R("info", "", 0, [self.nsinfo(r)])
            if op == "NSLIST":
                return R("list", "", 0, [self.tk.tok(x) for x in r])
            if op == "INDEX":
                if not all(isinstance(x, int) and 0 <= x < I31 for x in r):
                    return R("bad")
                return R("ints", "", 0, r)
            if op == "MGET":
                return R("mget", "", 0, ["nil" if x is None else
                                         ("!err" if isinstance(x, Err) else self.tk.tok(x)) for x in r])
            if isinstance(r, int):
                return R("int", "", clip(r))
            if isinstance(r, bytes):
                return R("bulk", self.tk.tok(r))
        except (ValueError, TypeError, IndexError, AttributeError, KeyError):
            pass
        return R("bad", repr(r)[:40].replace("\\", "/").replace('"', "'"))

    def nsinfo(self, b):
        f = {}
        for l in b.decode("latin-1").split("\n"):
            if ": " in l:
                k, v = l.split(": ", 1)
                f[k] = v
        yn = lambda x: x == "yes"
        mx, sz = int(f["data_limits_bytes"]), int(f["data_size_bytes"])
        mode = {"userkey": "user", "user-key": "user", "sequential": "seq"}.get(f["mode"], f["mode"])
        nid = int(f["next_internal_id"], 16)
        nid = struct.unpack("<Q", struct.pack(">Q", nid))[0]
        av = int(f["space_available"]) if mx > 0 and mx >= sz else -1
        if mx > I31 and av == mx - sz:          # the specification's numbers end at I31
            av = I31 - sz
        return {"name": self.tk.tok(f["name"].encode("latin-1")), "entries": clip(int(f["entries"])),
                "public": yn(f["public"]), "worm": yn(f["worm"]), "locked": yn(f["locked"]),
                "pass": yn(f["password"]), "dsize": clip(sz), "max": clip(mx),
                "isize": clip(int(f["index_size_bytes"])),
                "next": clip(nid) if mode == "seq" else -1, "mode": mode,
                "raw": self.tk.tok(f["password_raw"].encode("latin-1")) if "password_raw" in f else "",
                "avail": clip(av),
                "did": int(f["data_current_id"]) if "data_current_id" in f else -1,
                "doff": clip(int(f["data_current_offset"])) if "data_current_offset" in f else -1}

    COMMANDS = ("* WAIT MIRROR MASTER PING TIME AUTH HOOKS INDEX DATA SET SETX GET MGET DEL EXISTS CHECK "
                "SCAN SCANX RSCAN KSCAN HISTORY KEYCUR LENGTH KEYTIME INFO STOP DBSIZE NSNEW NSDEL NSLIST "
                "NSSET NSINFO NSJUMP SELECT RELOAD FLUSH").split()

    @classmethod
    def opname(cls, word):
        w = word.decode("latin-1").upper()
        for c in cls.COMMANDS:
            if c.startswith(w):
                return c
        return ""

    def matching(self, ev, op, args):
        """the keys known which start with the prefix asked"""
        if op == "KSCAN" and len(args) > 1:
            ev["pm"] = [t for t, b in self.tk.t2b.items() if b.startswith(args[1])]

    def event(self, c, args, t0, m0, r, extra=None):
        op = self.opname(args[0])
        m = self.mapreply(op, args, r)
        cur, non = m.pop("_cur", None), m.pop("_nonce", None)
        ev = {"k": "cmd", "c": c, "a": [self.arg(a) for a in args], "r": m,
              "t0": t0, "t1": self.now(), "m0": m0, "m1": self.ms()}
        self.matching(ev, op, args)
        if op == "MIRROR" and m["t"] == "ok":
            self.mirrors.add(c)
        if extra:
            ev.update(extra)
        self.cmds += 1
        i = self.rec(ev, ["cmd", c] + [a.hex() if len(a) <= 4096 else "len=%d sha1=%s" % (len(a), hashlib.sha1(a).hexdigest()) for a in args])
        if cur is not None:
            self.out[i] = cur
        if non is not None:
            self.nonces[i] = non
        return ev

    def cmd(self, c, *args):
        """one request, one reply"""
        args = [a if isinstance(a, bytes) else str(a).encode("latin-1") for a in args]
        if c not in self.cl:                # closed by the daemon
            raise Disconnected()
        k = self.cl[c]
        t0, m0 = self.now(0.02), self.ms()
        op = self.opname(args[0])
        k.send(*args)
        if op == "WAIT":
            return self.wait_sent(c, args, t0, m0)
        try:
            r = k.reply()
        except Disconnected:
            return self.closed(c, args, t0, m0)
        self.event(c, args, t0, m0, r)
        return r

    def closed(self, c, args, t0, m0):
        m = {"t": "closed", "s": "", "n": 0, "l": []}
        ev = {"k": "cmd", "c": c, "a": [self.arg(a) for a in args], "r": m,
              "t0": t0, "t1": self.now(), "m0": m0, "m1": self.ms()}
        self.matching(ev, self.opname(args[0]), args)
        self.rec(ev, ["cmd", c] + [a.hex() for a in args])
        self.cl.pop(c).close()
        return "closed"

    # -- WAIT and MIRROR
    BAR = 99
    bars = 0

    def barrier(self):
        """a request of somebody else, in a namespace nobody waits in: once it is
        answered everything earlier requests caused was sent"""
        if self.BAR not in self.cl:
            self.conn(self.BAR)
            if self.cfg["admin"]:
                self.cmd(self.BAR, b"AUTH", self.tk.t2b[self.cfg["admin"]])
            self.cmd(self.BAR, b"NSNEW", b"zzbar")
            self.cmd(self.BAR, b"SELECT", b"zzbar")
        self.bars += 1
        self.cmd(self.BAR, b"PING", b"%d" % self.bars)

    def wait_sent(self, c, args, t0, m0):
        """a refused WAIT is answered at once, an accepted one is not"""
        k = self.cl[c]
        r = None
        # the daemon reads connections in turn: ask something else to be sure it is done
        self._sync(c)
        try:
            if k.pending():
                r = k.reply()
                self.event(c, args, t0, m0, r)
                return r
        except Disconnected:
            return self.closed(c, args, t0, m0)
        ev = {"k": "cmd", "c": c, "a": [self.arg(a) for a in args],
              "r": {"t": "none", "s": "", "n": 0, "l": []}, "t0": t0, "t1": self.now(),
              "m0": m0, "m1": self.ms()}
        self.rec(ev, ["cmd", c] + [a.hex() for a in args])
        return None

    def _sync(self, c):
        """let the daemon finish what was sent on connection c (without a recorded request)"""
        x = self.srv.client()
        try:
            x.cmd("\x01sync")   # unknown command: executes nothing
            x.cmd("\x01sync")
        finally:
            x.close()

    def wcheck(self, c):
        """what did the waiting client receive?"""
        if c in self.mirrors:
            return self.fcheck(c)
        self.barrier()
        self.wexpect(c, 0.0)

    def wexpect(self, c, limit=8.0):
        """wait until the client receives something"""
        k = self.cl[c]
        m0 = self.ms()
        try:
            if not k.pending(limit):
                self.rec({"k": "wnone", "c": c, "m0": m0, "m1": self.ms()}, ["wcheck", c])
            else:
                self.heard(c, k.reply(), m0)
        except Disconnected:
            self.gone(c)

    def settle(self, cs, nap=None, limit=12.0):
        """take note of what clients receive as soon as they do, for some time or until all did"""
        cs = {c for c in cs if c in self.cl} - self.answered
        end = time.time() + (limit if nap is None else nap)
        while (cs or nap is not None) and time.time() < end:
            m0 = self.ms()
            got = select.select([self.cl[c].s for c in cs], [], [], max(0, min(0.2, end - time.time())))[0]
            for c in sorted(c for c in cs if self.cl[c].s in got):
                cs.discard(c)
                self.answered.add(c)
                try:
                    self.heard(c, self.cl[c].reply(), m0, True)
                except Disconnected:
                    self.gone(c)
        if nap is None:
            for c in sorted(cs):
                self.wexpect(c, 0.0)
            self.answered = set()

    def gone(self, c):
        """found disconnected"""
        self.rec({"k": "gone", "c": c}, ["gone", c])
        self.cl.pop(c).close()
        self.mirrors.discard(c)

    def heard(self, c, r, m0, soon=False):
        """something arrived which answers no request"""
        if isinstance(r, Err):
            self.rec({"k": "wtime", "c": c, "m0": m0, "m1": self.ms(), "soon": soon}, ["heard", c])
        elif isinstance(r, Simple):
            self.rec({"k": "wgot", "c": c, "r": {"t": "ok", "s": str(r), "n": 0, "l": []},
                      "m0": m0, "m1": self.ms()}, ["heard", c])
        else:
            try:
                ts, ns, own = r[0], r[1], r[2]
                self.rec({"k": "frame", "c": c, "own": -1 if own == self.iid() else clip(own),
                          "r": {"t": "frame", "s": self.tk.tok(ns), "n": u32shift(ts),
                                "l": [self.tk.tok(x) for x in r[3:]]}}, ["heard", c])
            except (TypeError, IndexError, KeyError):
                self.rec({"k": "bad", "what": "frame"}, ["heard", c])

    def fcheck(self, c, wait=4.0):
        """read what a mirror received"""
        k = self.cl[c]
        self.barrier()
        if c not in self.mirrors:
            try:
                if k.pending():
                    self.heard(c, k.reply(), self.ms())
                else:
                    self.rec({"k": "fnone", "c": c}, ["fcheck", c])
            except Disconnected:
                self.gone(c)
            return
        last = [b"PING", b"%d" % self.bars]
        m0 = self.ms()
        try:
            while k.pending(wait):
                r = k.reply()
                self.heard(c, r, m0)
                if isinstance(r, list) and r[3:5] == last:
                    break
            else:
                self.stuck = True       # the mirror did not receive the last command
        except Disconnected:
            self.gone(c)
            return
        self.rec({"k": "fnone", "c": c}, ["fcheck", c])

    stuck = False

    _iid = None

    def iid(self):
        return self._iid

    def learn_iid(self):
        """INFO tells the instance id"""
        c = self.srv.client()
        try:
            for l in c.cmd(b"INFO").decode("latin-1").split("\n"):
                if l.startswith("instance_id: "):
                    self._iid = int(l.split(": ")[1])
        except (Disconnected, OSError, AttributeError, ValueError):
            pass
        finally:
            c.close()

    # -- files
    def paths(self, ns, what, fid):
        base = self.srv.data if what == "d" else self.srv.index
        return os.path.join(base, ns, "%s%d" % (what, fid))

    IDXHDR = 29

    def disk(self, ns):
        """compare the files with what they were"""
        name = self.tk.t2b.get(ns, ns.encode("latin-1")).decode("latin-1")
        sizes, same, mod = [], True, []
        seen = self.files.setdefault(name, {})
        listed = lambda: sorted(os.listdir(os.path.join(self.srv.data, name)) + os.listdir(os.path.join(self.srv.index, name)))
        while True:             # again if the daemon rotated meanwhile (--rotate)
            names, read = listed(), {}
            for what in "di":
                fid = 0
                while os.path.exists(self.paths(name, what, fid)):
                    with open(self.paths(name, what, fid), "rb") as f:
                        read[(what, fid)] = f.read()
                    fid += 1
            if listed() == names:
                break
        for (what, fid), b in sorted(read.items()):
            old = seen.get((what, fid), b"")
            if what == "i":
                if b[self.IDXHDR:len(old)] != old[self.IDXHDR:]:
                    mod.append(fid)
                continue
            # the header holds the time the file was last opened
            if not (b.startswith(old[:4]) and b[28:len(old)] == old[28:]) or len(b) < len(old):
                same = False
            sizes.append(len(b))
        extra = [f for f in os.listdir(os.path.join(self.srv.data, name)) if f.startswith("d")]
        if len(extra) != len(sizes) or any(k[0] == "d" and k not in read for k in seen):
            same = False
        seen.update(read)
        self.rec({"k": "disk", "ns": ns, "l": sizes, "same": same, "mod": mod}, ["disk", ns])

    def fill(self, c, how, n, b, v, seq, key):
        """very many requests at once"""
        k = self.cl[c]
        ids = [None] * n if seq and how == "new" else [seqid(b + j) for j in range(n)] if seq else [filler(b + j + 1) for j in range(n)]
        kb = self.sym(key, {}, None)
        if how == "new" and not seq:
            for x in ids:
                self.tk.tok(x)
        req = {"new": lambda j: (b"SET", ids[j] or b"", filler(v + j + 1)), "over": lambda j: (b"SET", kb, filler(v + j + 1)),
               "del": lambda j: (b"DEL", ids[j]), "all": lambda j: (b"GET", ids[j])}[how]
        t0, got = self.now(0.02), []
        for i in range(0, n, 200):
            w = range(i, min(n, i + 200))
            for j in w:
                k.send(*req(j))
            got += [k.reply() for j in w]
        t1 = self.now()
        e = {"k": "fill", "c": c, "how": how, "n": n, "b": b, "v": v, "t0": t0, "t1": t1, "key": self.tk.tok(kb), "l": [], "ok": False}
        if how == "all":
            e["l"] = ["nil" if x is None or isinstance(x, Err) else self.tk.tok(x) for x in got]
        elif how == "del":
            e["ok"] = all(x == "OK" for x in got)
        elif how == "over":
            e["ok"] = all(x == kb for x in got)
        elif seq:
            e["b"] = struct.unpack("<Q", got[0])[0] if isinstance(got[0], bytes) and len(got[0]) == 8 else -1
            e["b"] = clip(e["b"])
            e["ok"] = e["b"] >= 0 and got == [seqid(e["b"] + j) for j in range(n)]
        else:
            e["ok"] = got == ids
        self.rec(e, ["fill", c, how, n, b, v, seq, key])

    def written(self, v):
        """what was written where v is found"""
        m = re.match("^![0-9]+/-?[0-9]+!(.*)$", self.tk.b2t.get(v, ""), re.S)
        return self.tk.t2b[m.group(1)] if m else v

    def alter(self, ns, f, off, pos, mask):
        """change one byte of a stored payload, or (mask < 0) four bytes at pos, chosen for what becomes of the checksum of what ends there:
        its bit -mask - 1 changes, or it is zero (-33)"""
        with open(self.paths(self.nsdir(ns), "d", f), "r+b") as h:
            h.seek(off)
            head = h.read(18)
            at = off + 18 + head[0] + pos
            size = struct.unpack("<I", head[1:5])[0]
            h.seek(off + 18 + head[0])
            cur = h.read(size)
            if len(head) < 18 or pos >= len(cur):
                raise HarnessError("no such record")

            def change():
                by = bytes([mask]) if mask > 0 else crc.forge(b"", crc.crc(cur[:pos + 4]) if mask == -33 else 1 << (-mask - 1))
                if pos + len(by) > len(cur):
                    raise HarnessError("no such place in the record")
                return cur[:pos] + bytes(x ^ y for x, y in zip(cur[pos:], by)) + cur[pos + len(by):]
            was = self.altered.pop((ns, f, off), None)
            if was and was[2] == cur:           # back to what it was
                pos, mask, _, new = was
                at = off + 18 + head[0] + pos
            else:
                while change() in self.tk.b2t:
                    mask = mask % 255 + 1 if mask > 0 else -(-mask % 32 + 1)
                new = change()
                self.altered[ns, f, off] = pos, mask, new, cur
                self.tk.bind("!%d/%d!%s" % (pos, mask, self.tk.tok(cur)), new)
            h.seek(at)
            h.write(new[pos:pos + 4])
        self.rec({"k": "alter", "ns": ns, "f": f, "off": off, "pos": pos, "mask": mask}, ["alter", ns, f, off, pos, mask])

    def nsdir(self, ns):
        return self.tk.t2b.get(ns, ns.encode("latin-1")).decode("latin-1")

    compacter = None

    def compact(self, ns, how):
        """stop the daemon, compact ns, put what comes out in its place, start"""
        name = self.nsdir(ns)
        self.halt(how)
        dirs = [os.path.join(self.srv.data, name), os.path.join(self.srv.index, name)]
        before = [snapshot(d) for d in dirs]
        out = [os.path.join(self.work, "out-data"), os.path.join(self.work, "out-index")]
        for d in out:
            os.mkdir(d)
        try:
            rc = subprocess.run([self.compacter, "--in-data", self.srv.data, "--in-index", self.srv.index, "--out-data", out[0], "--out-index", out[1],
                                 "--namespace", name], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                timeout=60, cwd=self.work).returncode
        except subprocess.TimeoutExpired:
            rc = -99
        same = [snapshot(d) for d in dirs] == before
        for d, o in zip(dirs, out):
            if os.path.isdir(os.path.join(o, name)):
                shutil.rmtree(d)
                os.rename(os.path.join(o, name), d)
            shutil.rmtree(o)
        self.start()
        self.rec({"k": "compact", "ns": ns, "rc": rc, "same": same}, ["compact", ns, how])

    syncer = None

    def reachable(self, **kw):
        """start the daemon with a port of its own besides its socket"""
        for i in range(8):
            with socket.socket() as p:
                p.bind(("127.0.0.1", 0))
                self.port = p.getsockname()[1]
            a = ["--dualnet", "--listen", "127.0.0.1", "--port", str(self.port)]
            if "--dualnet" in self.srv.args:
                self.srv.args = self.srv.args[:self.srv.args.index("--dualnet")]
            self.srv.args = self.srv.args + a
            try:
                return self.srv.start(**kw)
            except zdb.HarnessError:        # another took the port
                if i == 7:
                    raise

    def sync(self, how, times):
        """copy to a new daemon, and go on with that one"""
        for x in self.cl.values():
            x.close()
        self.cl = {}
        old, port = self.srv, self.port
        self.moved = getattr(self, "moved", 0) + 1
        self.srv = zdb.Server(old.binary, os.path.join(self.work, "t%d" % self.moved), old.args, env=old.env)
        rc, t0 = 0, self.now(0.02)
        try:
            self.start()
            for i in range(times):
                try:
                    rc = subprocess.run([self.syncer, "--source-host", "127.0.0.1", "--source-port", str(port), "--remote-host", "127.0.0.1",
                                         "--remote-port", str(self.port)], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                        timeout=60, cwd=self.work).returncode
                except subprocess.TimeoutExpired:
                    rc = -99
                if rc:
                    break
        finally:
            if how == "term":
                old.term()
            else:
                old.kill()
            shutil.rmtree(old.data, ignore_errors=True)
            shutil.rmtree(old.index, ignore_errors=True)
        self.rec({"k": "sync", "rc": rc, "times": times, "t0": t0, "t1": self.now()}, ["sync", how, times])

    editor = None

    def shown(self, text):
        """settings as the tools print them"""
        f = dict(re.findall(rb"\[\+\] ([a-z ]+?) *: (.*)\n", text))
        p = f.get(b"password", b"?")
        worm = f.get(b"worm mode", f.get(b"mode worm", b"?"))
        m = re.match(rb"([0-9]+) bytes", f.get(b"maximum size", b""))
        return {"pass": "" if p == b"<no password set>" else self.tk.tok(p), "pub": f.get(b"public flag") not in (b"0", None),
                "worm": worm != b"0", "max": clip(int(m.group(1))) if m else -1}

    def edit(self, ns, how, given):
        """stop the daemon, edit the settings of ns, look at them, start"""
        name = self.nsdir(ns)
        self.halt(how)
        want = {"pass": "", "pub": True, "worm": False, "max": 0}
        a = [self.editor[0], "--index", self.srv.index, "--namespace", name]
        for k, v in given.items():
            if k == "pass":
                a += ["--password", self.sym(v, {}, None)]
                want["pass"] = v
            elif k == "max":
                a += ["--maxsize", v]
                want["max"] = clip(int(v))
            else:
                a += ["--public" if k == "pub" else "--worm", v]
                want[k] = v == "yes"
        kw = dict(stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60, cwd=self.work)
        r = subprocess.run(a, **kw)
        d = subprocess.run([self.editor[1], self.srv.index, name], **kw)
        self.start()
        was = r.stdout.split(b"writing new values")[0]
        self.rec({"k": "edit", "ns": ns, "rc": r.returncode, "drc": d.returncode, "was": self.shown(was), "is": self.shown(d.stdout), **want},
                 ["edit", ns, how, given])

    checker = None

    def icheck(self, ns, f, cut):
        """integrity-check on a data file or on what comes first in it"""
        p = self.paths(self.nsdir(ns), "d", f)
        before = open(p, "rb").read()
        if cut >= 0:
            os.makedirs(os.path.join(self.work, "cut"), exist_ok=True)
            p = os.path.join(self.work, "cut", "d%d" % f)
            with open(p, "wb") as h:
                h.write(before[:cut])
            before = before[:cut]
        r = subprocess.run([self.checker, p], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=60, cwd=self.work)
        m = re.search(rb"inconsistency: ([0-9]+) error", r.stderr)
        same = open(p, "rb").read() == before
        self.rec({"k": "icheck", "ns": ns, "f": f, "cut": cut, "rc": r.returncode, "n": int(m.group(1)) if m else 0, "same": same}, ["icheck", ns, f, cut])

    dumper = None

    def idump(self, ns):
        """index-dump beside the running daemon"""
        name = self.nsdir(ns)
        dirs = [os.path.join(self.srv.data, name), os.path.join(self.srv.index, name)]
        before = [snapshot(d) for d in dirs]
        r = subprocess.run([self.dumper, dirs[1]], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60,
                           cwd=self.work, env=dict(os.environ, TZ="UTC"))
        same = [snapshot(d) for d in dirs] == before
        f, l = 0, []
        for t in r.stdout.split(b"index entry: "):
            g = dict(re.findall(rb"\[\+\]   ([a-z ]+?) *: (.*)\n", t))
            if g:
                df, doff, key = int(g[b"data fileid"]), int(g[b"data offset"]), bytes.fromhex(g[b"entry key"].decode()[2:])
                with open(self.paths(name, "d", df), "rb") as h:
                    h.seek(doff)
                    d = h.read(18)
                when = calendar.timegm(time.strptime(g[b"entry date"].decode(), "%Y-%m-%d %H:%M:%S"))
                l.append({"f": f, "off": int(re.search(rb"offset: ([0-9]+)", t).group(1)), "k": self.tk.tok(key), "len": clip(int(g[b"data length"])),
                          "del": int(g[b"entry flags"], 16) & 1 == 1, "df": df, "doff": doff, "t": u32shift(when), "prev": int(g[b"previous"]),
                          "pf": int(g[b"parent id"]), "poff": int(g[b"parent offs"]), "crc": struct.pack("<I", int(g[b"data crc"], 16)) == d[9:13]})
            f += t.count(b"file done")
        self.rec({"k": "idump", "ns": ns, "rc": r.returncode, "same": same, "files": f, "l": l}, ["idump", ns])

    def idle(self):
        """nothing to do for long enough"""
        t0 = self.now(0.02)
        time.sleep(self.cfg["rot"] + 1.8)
        self.rec({"k": "idle", "t0": t0, "t1": self.now()}, ["idle"])

    def forget_files(self, ns):
        self.files.pop(self.tk.t2b.get(ns, ns.encode("latin-1")).decode("latin-1"), None)

    # -- scripts
    def sym(self, a, evmap, rnd):
        """symbolic argument -> bytes"""
        if a.startswith("@"):
            i = evmap.get(int(a[1:]))
            return self.out.get(i, b"\x07" * 17) if i else b"\x07" * 17
        if a.startswith("H@"):
            raise ScriptError("H")
        if a.startswith("=H"):          # =H<event>:<password token>
            ref, pw = a[2:].split(":", 1)
            i = evmap.get(int(ref))
            non = self.nonces.get(i, b"0" * 16)
            return self.answer(non, pw)
        if a in self.tk.t2b:
            return self.tk.t2b[a]
        if a.startswith("#"):
            return seqid(int(a[1:]))
        if re.match("^F[0-9]+$", a):
            return filler(int(a[1:]))
        return a.encode("latin-1")

    def step(self, j, e, evmap, rnd=None):
        """execute event j of a script"""
        k = e["k"]
        c = e.get("c")
        if k == "conn":
            if c not in self.cl:
                self.conn(c)
        elif c is not None and c not in self.cl:
            return
        elif k == "cmd":
            if c in self.mirrors:
                self.fcheck(c)
                if c not in self.cl:
                    return
            args = [self.sym(a, evmap, rnd) for a in e["a"]]
            n = len(self.tr.ev)
            self.cmd(c, *args)
            op = self.opname(args[0])
            evmap[j] = len(self.tr.ev) if op != "WAIT" else n + 1
            if op in ("FLUSH", "NSDEL") and self.files:
                if self.tr.ev[-1]["r"]["t"] == "ok":
                    self.files = {}
                    self.rec({"k": "forget"}, ["forget"])
        elif k == "close":
            self.close(c)
        elif k == "wcheck":
            self.wcheck(c)
        elif k == "settle":
            self.settle(e["cs"])
        elif k == "nap":
            self.settle(e["cs"], nap=e["ms"] / 1000)
        elif k == "wexp":
            self.wexpect(c)
        elif k == "fcheck":
            self.fcheck(c)
        elif k == "restart":
            if "cfg" in e:
                self.reopt(e["how"], e["cfg"])
                if self.refused and e.get("retry"):
                    self.restart()
            else:
                self.restart(e.get("how", "kill"))
        elif k == "badopts":
            self.badopts(e["n"])
        elif k == "idle":
            self.idle()
        elif k == "fill":
            self.fill(c, e["how"], e["n"], e["b"], e["v"], e["seq"], e["key"])
        elif k == "alter":
            self.alter(e["ns"], e["f"], e["off"], e["pos"], e["mask"])
        elif k == "sync":
            self.sync(e["how"], e["times"])
        elif k == "compact":
            self.compact(e["ns"], e["how"])
        elif k == "edit":
            self.edit(e["ns"], e["how"], {x: e[x] for x in ("pass", "max", "pub", "worm") if e[x] or x == "pass" and e["given"]})
        elif k == "idump":
            self.idump(e["ns"])
        elif k == "icheck":
            self.icheck(e["ns"], e["f"], e.get("cut", -1))
        elif k == "rebuild":
            self.rebuild(e["ns"], e.get("how", "kill"), e.get("mode", "user"))
        elif k == "live":
            self.live(c)
        elif k == "disk":
            self.disk(e["ns"])
        elif k == "junk":
            import hostile, random
            if not getattr(self, "hostile", None):
                self.hostile = hostile.Hostile(self)
            what, got, due = self.hostile.act(random.Random(e["seed"]), e["how"])
            self.rec({"k": "junk", "what": what, "got": got, "due": due}, ["junk", e["how"], e["seed"]])
        elif k == "sleep":
            time.sleep(e["s"])
        else:
            raise ScriptError("unknown script event %r" % e)

    refused = False                         # it was not to be started: the next event starts it

    def serving(self):
        return self.srv.alive() or self.refused

    def play(self, script):
        """execute a script; whatever the daemon does, there is a trace of it"""
        try:
            self.start()
            evmap = {}
            for j, e in enumerate(script, 1):
                if e["k"] == "end":
                    break
                if self.stuck or not self.serving():
                    break
                if self.refused and e["k"] not in ("restart", "badopts"):       # not what the generator foresaw
                    self.restart()
                self.step(j, e, evmap)
            if not self.serving():
                self.rec({"k": "dead", "what": "exited with %s" % self.srv.p.returncode}, ["dead"])
        except ScriptError:
            raise
        except Disconnected:
            self.rec({"k": "dead", "what": "disconnected"}, ["dead"])
        except (HarnessError, OSError) as x:      # does not start, does not answer, is not understood
            self.rec({"k": "bad", "what": str(x)[:200].replace("\\", "/").replace('"', "'")}, ["bad"])
        return self.tr


def crcok(v, shown):
    if v is None:
        return shown == b"0x00000000"
    return shown == b"0x%08x" % crc.crc(v)
