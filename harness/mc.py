"""Bounded models: which requests, how deep."""
import json, os, struct
from driver import argrec, default_cfg, seqid, filler


class Bounded:
    """every history of at most `depth` of the given moves, after a prologue"""

    def __init__(self, name, moves, setup=(), cfg=None, depth=5, sizes=None, answers=(), tlccfg="ZdbMC.cfg", cfgs=()):
        self.tlccfg = tlccfg
        self.name = name
        self.cfg = default_cfg(**(cfg or {}))
        self.cfgs = [default_cfg(**c) for c in cfgs] or [self.cfg]
        self.bytes = {}
        self.sizes = sizes or {}
        self.answers = {}        # token -> (nonce, password)
        self.moves = [self.move(m) for m in moves]
        self.setup = [self.move(m) for m in setup]
        self.depth = depth
        for t in ["default", "zzbar", "x", "y", "z"] + [c["admin"] for c in self.cfgs if c["admin"]]:
            self.token(t)

    def token(self, t):
        if t in self.bytes or t in self.answers:
            return t
        if t.startswith("="):           # =c<client>.<n>:password: answer to the n-th challenge
            non, pw = t[1:].split(":", 1)
            self.answers[t] = (non, pw)
            self.token(pw)
            return t
        if t.startswith("#"):
            b = seqid(int(t[1:]))
        elif t[:1] == "F" and t[1:].isdigit():
            b = filler(int(t[1:]))
        elif t in self.sizes:
            n = self.sizes[t]
            b = (t.encode() * (n // len(t) + 1))[:n]
        else:
            b = t.encode("latin-1")
        self.bytes[t] = b
        return t

    def move(self, m):
        if isinstance(m, dict):
            return m
        w = m.split(" ")
        if w[0] in ("!crash", "!fault"):
            return dict(self.move(m[7:]), arm=w[0][1:])
        if w[0] == "!rebuild":
            return {"k": "rebuild", "ns": w[1]}
        if w[0] == "!reopt":
            return {"k": "reopt", "cfg": int(w[1])}
        if w[0] == "!restart":
            return {"k": "restart", "how": w[1] if len(w) > 1 else "kill"}
        if w[0][0] == "!":
            return {"k": w[0][1:], "c": int(w[1])}
        c = 1
        if w[0].endswith(":"):
            c = int(w[0][:-1])
            w = w[1:]
        return {"k": "cmd", "c": c, "a": [self.token("" if a == "''" else a) for a in w]}

    def args(self):
        r = {t: argrec(t, b) for t, b in self.bytes.items()}
        for t, (non, pw) in self.answers.items():
            r[t] = dict(argrec(t, b"0" * 40), h=non, p=pw)
        return r

    def json(self, emit, phase=0):
        return {"cfg": self.cfg, "cfgs": self.cfgs, "args": self.args(), "moves": self.moves, "setup": self.setup,
                "depth": self.depth, "emit": emit, "phase": phase}

    def script(self, hist):
        """a printed history as a script of the driver"""
        ev = list(self.setup)
        clients = [m["c"] for m in self.setup if m["k"] == "conn"]
        for i in hist:
            m = self.moves[i - 1]
            if m["k"] == "reopt":           # if it does not start it is started with the last options
                m = {"k": "restart", "how": "kill", "cfg": m["cfg"], "retry": True}
            ev.append(m)
            if m["k"] in ("restart", "rebuild"):
                ev += [{"k": "conn", "c": c} for c in clients]
        return ev


def check(ctx, b, emit=0, heap="8g"):
    """model check; returns sampled histories"""
    f = os.path.join(ctx.scratch, "mc.json")
    with open(f, "w") as h:
        json.dump(b.json(emit, ctx.rnd.randrange(10007)), h)
    import tlc
    out = ctx.model(b.name, "ZdbMC", b.tlccfg, env={"ZDB_MC": f}, heap=heap)
    return tlc.printed(out, "COVER")


OBSERVE_USER = ["MGET a b", "NSINFO x", "SCAN*", "RSCAN*", "HISTORY* a", "HISTORY* b", "KSCAN a", "INDEX DIRTY", "KEYTIME a"]
OBSERVE_SEQ = ["MGET #0 #1 #2 #3", "NSINFO x", "SCAN*", "RSCAN*", "HISTORY* #0", "HISTORY* #1", "INDEX DIRTY", "KEYTIME #0"]


def observe(b, ev, c, what, steps=6):
    """append observations: walks follow their own cursors"""
    for w in what:
        if w == "!live":
            ev.append({"k": "live", "c": c})
            continue
        walk = "*" in w
        a = [b.token(x) for x in w.replace("*", "").split(" ")]
        ev.append({"k": "cmd", "c": c, "a": a})
        if walk:
            for _ in range(steps - 1):
                ev.append({"k": "cmd", "c": c, "a": a + ["@%d" % len(ev)]})
    return ev


def resolve(b, ev):
    """answers to challenges refer to the request which got the challenge"""
    issued = []
    r = []
    for j, e in enumerate(ev, 1):
        if e["k"] == "cmd":
            a = []
            for x in e["a"]:
                if x in b.answers:
                    non, pw = b.answers[x]
                    n = int(non[1:])
                    x = "=H%d:%s" % (issued[n - 1] if n <= len(issued) else 0, pw)
                a.append(x)
            if a[:3] == ["AUTH", "SECURE", "CHALLENGE"]:
                issued.append(j)
            e = dict(e, a=a)
        r.append(e)
    return r


def cover(ctx, b, n, obs=None, every=None, tail=("!restart",), opts=None, change=None):
    """model check, then execute a sample of n of the explored histories"""
    hists = [list(h) for h in sorted({tuple(h) for h in check(ctx, b, emit=every or 1)})]
    ctx.rnd.shuffle(hists)
    hists.sort(key=len, reverse=True)
    # mostly long ones, some of every length
    pick = hists[:n * 3 // 4]
    rest = hists[n * 3 // 4:]
    ctx.rnd.shuffle(rest)
    pick += rest[:n - len(pick)]
    scripts = []
    for i, h in enumerate(pick):
        ev = b.script(h)
        if obs:
            c = 98
            ns = obs[0]
            tailev = [{"k": "conn", "c": c}]
            if b.cfg["admin"]:
                tailev.append({"k": "cmd", "c": c, "a": ["AUTH", b.token(b.cfg["admin"])]})
            tailev.append({"k": "cmd", "c": c, "a": ["SELECT", b.token(ns)] + ([b.token(obs[2])] if len(obs) > 2 else [])})
            ev = ev + tailev
            observe(b, ev, c, obs[1])
            if tail and (i % 4 == 0 or tail[0] != "!restart"):
                ev = ev + [b.move(tail[0])] + tailev
                observe(b, ev, c, obs[1])
        scripts.append(resolve(b, ev))
    if change:
        scripts = [change(s) for s in scripts]
    ctx.scripts(b.name + ": explored histories", b, scripts, dict(opts or {}, cfgs=b.cfgs))
    return len(hists)
