"""What is done for every property."""
import os, random, struct
import crc, fault, hooks, models
from driver import default_cfg
from profiles import Profile, std_keys, std_vals, words

ASSUMPTIONS = [
    "clients talk to the daemon through its unix socket; the daemon runs one command at a time",
    "the specification judges recorded runs: what no run exercised is not judged",
]

WRITES = {"set": 8, "setlive": 6, "setsame": 2, "setany": 2, "del": 1, "dellive": 4}
READS = {"get": 3, "getlive": 3, "mget": 1, "mgetall": 2, "exists": 2, "length": 1, "lengthlive": 1}


def mix(*ds, **kw):
    r = {}
    for d in ds:
        for k, v in d.items():
            r[k] = r.get(k, 0) + v
    r.update(kw)
    return r


def here(p, mode=None, ns="x", clients=None, admin=None):
    """prologue: clients connect and enter a fresh namespace"""
    s = []
    for c in (clients or p.clients):
        s.append(p.conn(c))
        if admin:
            s.append(p.cmd(c, "AUTH", admin))
    c = (clients or p.clients)[0]
    s.append(p.cmd(c, "NSNEW", ns))
    if mode:
        s.append(p.cmd(c, "NSSET", ns, "mode", mode))
    for c in (clients or p.clients):
        s.append(p.cmd(c, "SELECT", ns))
    return s


def user(ctx, ops, **kw):
    p = Profile(ops, rnd=ctx.rnd, **kw)
    if not p.setup:
        p.setup = here(p)
    return p


def seq(ctx, ops, **kw):
    p = Profile(ops, rnd=ctx.rnd, **kw)
    p.setup = here(p, "seq")
    return p


def fixed(ctx, mode, ops, **kw):
    """daemon started in a fixed mode, default namespace"""
    p = Profile(ops, rnd=ctx.rnd, cfg={"mode": mode, **kw.pop("cfg", {})}, **kw)
    p.setup = [p.conn(c) for c in p.clients]
    return p


def idle(ctx, ops, n, procs=24):
    """namespaces moved to their next file when there is nothing else to do (--rotate)"""
    for mode in ("user", "seq"):
        ctx.walks("rotation by time, " + mode,
                  (user if mode == "user" else seq)(ctx, ops, cfg={"rot": 1, "dsz": DSZ}, clients=(1, 2), depth=70,
                                                    names=["x", "y", "default"],
                                                    props=[("mode", mode), ("password", "secret"), ("public", "0")]),
                  n // 2, procs=procs)


# ---------------------------------------------------------------- K01 ---
def k01(ctx):
    n = ctx.pick(64, 640)
    ops = mix(WRITES, READS, setx=1, bad=2, jump=1, restart=0.3, reloadhere=0.3)
    ctx.walks("user namespace", user(ctx, ops, clients=(1, 2), depth=150), n)
    ctx.walks("daemon in user mode", fixed(ctx, "user", ops, clients=(1,), depth=120), n // 2)


def k02(ctx):
    n = ctx.pick(56, 560)
    ops = mix(WRITES, READS, keytimelive=1, keytime=1, bad=1, jump=1.5, restart=0.4, reloadhere=0.3, nsinfohere=2,
              histlive=0.5)
    ctx.walks("sequential namespace", seq(ctx, ops, clients=(1, 2), depth=150), n)
    ctx.walks("daemon in sequential mode", fixed(ctx, "seq", ops, clients=(1,), depth=120), n // 2)


OBSERVE = {"get": 2, "mgetall": 3, "scan": 2, "scanc": 3, "rscan": 1, "rscanc": 2, "keycur": 1, "histlive": 2,
           "histc": 3, "keytimelive": 2, "checklive": 1, "kscan": 0.6, "nsinfo": 2, "nsinfohere": 2, "dbsize": 1,
           "nslist": 1, "raw": 2, "lengthlive": 1, "exists": 1}

SETTINGS = [("lock", "0"), ("lock", "1"), ("freeze", "1"), ("freeze", "0"), ("worm", "1"), ("worm", "0"),
            ("maxsize", "3000"), ("maxsize", "0"), ("maxsize", "100"), ("mode", "seq"), ("mode", "user"),
            ("password", "secret"), ("password", "*"), ("public", "1"), ("public", "0")]
CALM = [s for s in SETTINGS if s[0] in ("maxsize", "password", "public", "mode")] + \
       [("worm", "0"), ("lock", "0"), ("worm", "1"), ("worm", "0"), ("lock", "1"), ("freeze", "0"), ("freeze", "1"),
        ("lock", "0"), ("freeze", "0")]


def k03(ctx):
    n = ctx.pick(48, 480)
    ops = mix(WRITES, OBSERVE, setlivets=1, restart=4, reload=1.5, reloadhere=1.5, jump=2.5, nsset=0.7, nssethere=0.7,
              nsnew=0.5, nsdel=0.3, selectok=1, dirty=1, disk=1)
    ctx.walks("restarts, user mode", user(ctx, ops, clients=(1, 2), depth=110, props=CALM,
                                          names=["x", "y", "default"]), n)
    ctx.walks("restarts, sequential mode", seq(ctx, ops, clients=(1, 2), depth=110, props=CALM,
                                               names=["x", "y", "default"]), n, {"background": True})
    ctx.walks("restarts, fixed sequential mode", fixed(ctx, "seq", ops, clients=(1, 2), depth=80, props=CALM,
                                                       names=["x", "default"]), n // 3)


def big(rnd, *sizes):
    return {"v%d" % i: rnd.randbytes(s) if s < 5000 else rnd.randbytes(1000) * (s // 1000) + rnd.randbytes(s % 1000)
            for i, s in enumerate(sizes)}


DSZ = 524288


def k06(ctx):
    n = ctx.pick(32, 320)
    ops = mix(WRITES, {"getlive": 4, "disk": 5, "nsinfohere": 4, "raw": 3, "rawend": 2, "jump": 2, "restart": 1,
                       "reloadhere": 0.5, "flush": 0.3, "setts": 1, "mgetall": 1, "checklive": 1})
    vals = big(ctx.rnd, 0, 1, 90, 100000, 180000, 262144, 524288 - 28, 200001, 60000)
    for mode in ("user", "seq"):
        ctx.walks("rotation by size, " + mode, fixed(ctx, mode, ops, cfg={"dsz": DSZ}, clients=(1,), depth=80,
                                                     vals=vals), n // 2)
        ctx.walks("rotation by NSJUMP, " + mode,
                  fixed(ctx, mode, mix(ops, jump=6), clients=(1, 2), depth=120), n)
    idle(ctx, mix(ops, idle=2.2, nsinfo=4, selectok=3, nsnew=0.5, nsdel=0.2), n)


def k07(ctx):
    n = ctx.pick(48, 480)
    ops = mix(WRITES, {"dirty": 9, "dreset": 2, "jump": 5, "restart": 0.7, "reload": 0.7, "disk": 5, "getlive": 1,
                       "nsset": 0.3, "flush": 0.2, "selectok": 0.5})
    ctx.walks("modified index files, user", user(ctx, ops, clients=(1, 2), depth=150, names=["x", "y", "default"],
                                                 props=[("mode", "user"), ("password", "secret"), ("public", "0")]), n)
    ctx.walks("modified index files, seq", seq(ctx, ops, clients=(1,), depth=150, names=["x", "y", "default"],
                                               props=[("password", "secret"), ("public", "0")]), n)
    # the list is handed over to the hook when the active file changes
    prog = hooks.build(ctx.scratch)
    for mode in ("user", "seq"):
        p = (user if mode == "user" else seq)(ctx, mix(ops, hm=3, jump=4), clients=(1,), depth=100, names=["x", "y", "default"],
                                              props=[("password", "secret"), ("public", "0")])
        p.cfg["hook"] = True
        p.hms = [["jump-index", v] for v in ("ok", "ok", "fail", "sig")]
        ctx.walks("handed over to a hook, " + mode, p, n // 4, {"hook": prog})
    idle(ctx, mix(ops, idle=2.4, nsinfo=4), n // 4)


def k08(ctx):
    n = ctx.pick(48, 480)
    ops = mix(WRITES, {"scan": 3, "scanc": 12, "rscan": 3, "rscanc": 8, "keycur": 3, "keycurany": 1, "scanjunk": 2,
                       "scanx": 1, "jump": 5, "restart": 0.5, "reloadhere": 0.4, "setlivets": 1, "getlive": 1})
    ctx.walks("walks, user", user(ctx, ops, clients=(1, 2), depth=180), n)
    ctx.walks("walks, seq", seq(ctx, ops, clients=(1, 2), depth=180), n)


def k09(ctx):
    n = ctx.pick(48, 480)
    ops = mix({"set": 3, "setlive": 14, "setlivets": 2, "dellive": 2, "setsame": 1},
              {"histlive": 5, "histlast": 14, "histc": 8, "histx": 3, "histjunk": 2, "hist": 2, "jump": 3, "restart": 0.5,
               "reloadhere": 0.4})
    ks = {k: v for k, v in list(std_keys(ctx.rnd).items())[:6]}
    ctx.walks("histories, user", user(ctx, ops, clients=(1, 2), depth=200, keys=ks), n)
    ctx.walks("histories, seq", seq(ctx, ops, clients=(1,), depth=200), n)


def k10(ctx):
    n = ctx.pick(48, 480)
    c = crc.colliding_keys(ctx.rnd, 3)
    keys = {"k%d" % i: b for i, b in enumerate(
        [b"a", b"ab", b"abc", b"abd", b"b", b"ba", b"\0", b"\0\0", b"\0a", b"a" * 255, b"a" * 254, c[0], c[1],
         c[0] + b"x", b"user:1", b"user:10"])}
    ops = mix({"set": 10, "dellive": 4, "setlive": 3, "kscan": 12, "restart": 0.4, "reloadhere": 0.4, "jump": 1,
               "selectok": 1.5, "bad": 1})
    p = user(ctx, ops, clients=(1, 2), depth=120, keys=keys, names=["x", "y", "z", "default"],
             prefixes=sorted({b[:k] for b in keys.values() for k in (1, 2, 3, 254, 255)} | {b"zz", b"user:", b""}))
    p.setup = here(p) + [p.cmd(1, "NSNEW", "y"), p.cmd(1, "NSNEW", "z"), p.cmd(1, "NSSET", "z", "mode", "seq")]
    ctx.walks("prefixes", p, n)


def k11(ctx):
    n = ctx.pick(48, 480)
    ops = mix(WRITES, {"nsinfohere": 10, "nsinfo": 2, "dbsize": 5, "jump": 2, "restart": 0.6, "reloadhere": 0.6, "bad": 1,
                       "setlivets": 1, "nsset": 0.5, "flush": 0.3, "selectok": 0.7})
    pr = [("maxsize", "2000"), ("maxsize", "0"), ("maxsize", "500"), ("worm", "0"), ("lock", "0"), ("password", "secret"),
          ("public", "0"), ("public", "1")]
    ctx.walks("statistics, user", user(ctx, ops, clients=(1, 2), depth=150, props=pr), n)
    ctx.walks("statistics, seq", seq(ctx, ops, clients=(1, 2), depth=150, props=pr), n)


def k12(ctx):
    n = ctx.pick(48, 480)
    ops = mix(WRITES, {"set": 12, "setlive": 9, "nsinfohere": 4, "getlive": 2, "nssethere": 2.5, "restart": 0.7,
                       "reloadhere": 0.4, "jump": 1})
    pr = [("maxsize", str(x)) for x in (0, 1, 40, 63, 64, 65, 127, 128, 129, 256, 1000, 1064, 4294967295, 4294967296, 4294967297,
                                        4294967400, 8589934592, 9000000000, 1 << 48)]
    vals = {"v%d" % i: ctx.rnd.randbytes(s) for i, s in enumerate((0, 1, 2, 31, 32, 33, 63, 64, 65, 128, 400))}
    ctx.walks("limits, user", user(ctx, ops, clients=(1, 2), depth=150, props=pr, vals=vals), n)
    ctx.walks("limits, seq", seq(ctx, ops, clients=(1, 2), depth=150, props=pr, vals=vals), n)
    ctx.walks("limit of default", fixed(ctx, "user", ops, clients=(1,), depth=100, props=pr, vals=vals,
                                        cfg={"dmax": 200}), n // 2)
    ctx.walks("large limit of default", fixed(ctx, "user", ops, clients=(1,), depth=60, names=["default"], props=pr, vals=vals,
                                              cfg={"dmax": (1 << 32) + 100}), n // 4)


def k13(ctx):
    n = ctx.pick(48, 480)
    ops = mix(WRITES, {"setts": 6, "setlivets": 6, "delts": 1.5, "keytime": 2, "keytimelive": 8, "scan": 2, "scanc": 3,
                       "rscan": 1, "histlive": 3, "histlast": 4, "raw": 5, "jump": 2, "restart": 0.7, "reloadhere": 0.4})
    for mode, f in (("user", user), ("seq", seq)):
        ctx.walks("timestamps, " + mode, f(ctx, ops, clients=(1, 2), depth=150), n)


def n01(ctx):
    n = ctx.pick(64, 640)
    ops = mix(WRITES, READS, OBSERVE, select=8, selectok=3, jump=2, restart=0.4, reload=1.5, nsset=1, nsnew=1.5, nsdel=1.5,
              flush=0.7, dirty=1)
    p = user(ctx, ops, clients=(1, 2, 3), depth=200, names=["x", "y", "z", "xx", "default"], props=CALM)
    p.setup = here(p) + [p.cmd(2, "NSNEW", "y"), p.cmd(2, "SELECT", "y"), p.cmd(3, "NSNEW", "z"),
                         p.cmd(3, "NSSET", "z", "mode", "seq"), p.cmd(3, "SELECT", "z")]
    ctx.walks("several namespaces", p, n)


NAMES = ["x", "y", "xx", "default", ".hidden", "a b", "x" * 128, "y" * 127, "z" * 129, "a/b", "..", ".", "x.y", "\xe9\xff",
         "zdb-data"]


def n02(ctx):
    n = ctx.pick(64, 640)
    ops = mix({"nsnew": 8, "nsdel": 4, "nslist": 5, "nsinfo": 5, "nsset": 9, "nssethere": 2, "nsinfohere": 2, "select": 4,
               "selectok": 3, "selectpw": 1, "restart": 1.2, "set": 4, "get": 1, "mgetall": 1, "dellive": 0.5, "bad": 2, "reload": 0.7,
               "jump": 0.5, "dbsize": 1, "flush": 0.3})
    pr = SETTINGS + [("maxsize", "1"), ("maxsize", "abc"), ("nosuch", "1"), ("password", "p" * 63),
                     ("password", "p" * 64), ("worm", "yes"), ("public", "true"), ("mode", "mix"), ("mode", "User"),
                     ("lock", "x"), ("password", "q" * 32), ("maxsize", "2147483647"), ("maxsize", "4294967296"), ("maxsize", "9000000000")]
    ctx.walks("life cycles", user(ctx, ops, clients=(1, 2), depth=120, names=NAMES, props=pr,
                                  pws=["secret", "wrong", "q" * 32]), n)


def n03(ctx):
    n = ctx.pick(64, 640)
    ops = mix(WRITES, OBSERVE, flush=7, nssethere=3, nsset=1, selectpw=3, selectok=4, select=2, restart=1, reloadhere=0.7,
              jump=2, dirty=1, disk=1)
    pr = [("lock", "1"), ("lock", "0"), ("lock", "0"), ("freeze", "1"), ("freeze", "0"), ("freeze", "0"), ("worm", "1"), ("worm", "0"),
          ("worm", "0"), ("password", "secret"), ("password", "secret"), ("password", "*"), ("public", "0"), ("public", "0"),
          ("public", "1"), ("maxsize", "3000"), ("maxsize", "0"), ("mode", "seq"), ("mode", "user")]
    for m in ("user", "seq"):
        p = user(ctx, ops, clients=(1, 2), depth=150, names=["x", "y", "default"], props=pr)
        p.setup = here(p, m) + [p.cmd(1, "NSNEW", "y"), p.cmd(1, "NSSET", "x", "password", "secret"),
                                p.cmd(1, "NSSET", "x", "public", "0"), p.cmd(2, "SELECT", "x")]
        ctx.walks("flushes, " + m, p, n // 2)


def n04(ctx):
    n = ctx.pick(32, 320)
    ops = mix(WRITES, READS, OBSERVE, setts=1, delts=1, flush=1, nsset=3, nssethere=6, selectok=2, selectpw=1, restart=0.5, authok=1.5,
              reload=0.5, jump=1)
    lf = [("lock", "1"), ("lock", "0"), ("lock", "0"), ("freeze", "1"), ("freeze", "0"), ("freeze", "0")]
    pw = [("password", "secret"), ("password", "*"), ("public", "0"), ("public", "1")]
    worm = [("worm", "1"), ("worm", "0")]
    for m in ("user", "seq"):
        for name, pr, part in (("worm", worm * 2 + pw[:1], 2), ("lock and freeze", lf, 2), ("all", lf + worm + pw, 1)):
            p = user(ctx, ops, clients=(1, 2, 3), depth=150, names=["x", "y", "default"], props=pr, pws=["secret", "wrong"], cfg={"admin": "adminpw"})
            p.setup = here(p, m, clients=(1,), admin="adminpw") + [p.conn(2), p.conn(3), p.cmd(2, "SELECT", "x"), p.cmd(1, "NSNEW", "y"),
                                                                  p.cmd(3, "AUTH", "adminpw"), p.cmd(3, "SELECT", "y")]
            ctx.walks("%s, %s" % (name, m), p, n // part)


def n05(ctx):
    n = ctx.pick(48, 480)
    ops = mix({"set": 3, "setany": 2, "setlive": 1, "dellive": 2, "get": 2, "mgetall": 1, "scan": 1, "kscan": 0.4, "nsset": 4, "nssethere": 6, "nsinfohere": 3,
               "jump": 0.7, "restart": 1, "reloadhere": 1, "flush": 1.5, "nsnew": 1.5, "nsdel": 1, "selectok": 4, "nsinfo": 1, "keycur": 1, "histlive": 1})
    pr = [("mode", "seq"), ("mode", "seq"), ("mode", "user"), ("mode", "user"), ("mode", "x"), ("password", "secret"), ("public", "0")]
    ctx.walks("modes", user(ctx, ops, clients=(1, 2), depth=100, names=["x", "y", "z", "default"], props=pr), n)
    for m in ("user", "seq"):
        ctx.walks("modes, fixed " + m, fixed(ctx, m, ops, clients=(1,), depth=60, names=["x", "y", "default"], props=pr), n // 4)


def options(ctx, modes, sizes=(DSZ,), limits=(0, 0, 3000), n=10):
    """sets of options of the daemon"""
    r, out = ctx.rnd, []
    for i in range(n):
        adm = r.choice(["", "adminpw", "second"])
        out.append(default_cfg(mode=r.choice(modes), dsz=r.choice(sizes), dmax=r.choice(limits), admin=adm, protect=adm != "" and r.random() < 0.5,
                               net=r.choice(["unix", "tcp", "dual"])))
    return out


def n06(ctx):
    n = ctx.pick(64, 640)
    ops = mix(WRITES, READS, {"reopt": 3, "badopts": 0.7, "restart": 0.3, "authok": 5, "auth": 1, "selectok": 5, "selectpw": 2, "nsnew": 2, "nsset": 2, "nssethere": 2, "nsinfo": 2,
                              "nsinfohere": 2, "jump": 1, "live": 1, "dbsize": 1, "flush": 0.5, "reload": 0.5, "nsdel": 0.5, "dellive": 2, "conn": 1, "nslist": 1, "histlive": 1})
    pr = [x for x in SETTINGS if x[0] not in ("lock", "freeze")] + [("mode", "seq"), ("mode", "user"), ("lock", "1"), ("freeze", "0"), ("lock", "0")]
    p = user(ctx, ops, clients=(1, 2), depth=120, names=["x", "y", "default"], props=pr, pws=["adminpw", "second", "secret", "wrong"])
    p.cfgs = options(ctx, ["mix"] * 5 + ["user", "seq"])
    ctx.walks("other options", p, n, {"cfgs": p.cfgs})
    for mode in ("user", "seq"):
        p = fixed(ctx, mode, ops, clients=(1, 2), depth=120, names=["x", "y", "default"], props=pr, pws=["adminpw", "second", "secret", "wrong"],
                  cfg={"admin": "adminpw", "protect": mode == "seq", "dmax": 0 if mode == "seq" else 2000})
        p.cfgs = options(ctx, [mode] * 5 + ["mix", "mix", "user", "seq"])
        ctx.walks("other options, first %s mode" % mode, p, n // 2, {"cfgs": p.cfgs})
        vals = big(ctx.rnd, 0, 1, 90, 100000, 180000, 262144, 524288 - 28, 600000)
        p = fixed(ctx, mode, mix(ops, setlive=12), clients=(1,), depth=80, vals=vals, names=["default"], cfg={"dsz": DSZ}, pws=["adminpw", "second"])
        p.cfgs = options(ctx, [mode, mode, mode, "mix"], [524288, 524289, 600000, 1 << 20, 1536 << 10, 3 << 20, 256 << 20, 1 << 30], [0, 0, 0, 1500000])
        ctx.walks("other file sizes, first %s mode" % mode, p, n // 3, {"cfgs": p.cfgs})


ADMINOPS = {"nsnew": 2, "nsdel": 2, "nsset": 3, "jump": 2, "reload": 2, "hooks": 1, "dirty": 1, "dreset": 1, "raw": 2,
            "mirror": 0.3, "master": 0.3, "setts": 2, "delts": 2, "nsinfo": 3, "nslist": 1, "set": 3, "get": 1, "mgetall": 1, "dellive": 1}


def a01(ctx):
    n = ctx.pick(64, 640)
    ops = mix(ADMINOPS, {"auth": 3, "authok": 0.7, "chal": 6, "authsec": 4, "authold": 3, "selectok": 2, "conn": 3, "close": 3,
                         "restart": 0.3, "fcheck": 0.3, "nsinfohere": 1})
    for prot in (False, True):
        p = user(ctx, ops, clients=(1, 2, 3, 4), depth=150, names=["x", "y", "default"], props=SETTINGS[4:],
                 pws=["adminpw", "adminpw2", "adminp", "Adminpw", "", "wrong"], cfg={"admin": "adminpw", "protect": prot})
        p.setup = here(p, clients=(1,), admin="adminpw") + [p.conn(2), p.conn(3)]
        ctx.walks("admin rights" + (", protected" if prot else ""), p, n // 2)
    p = user(ctx, ops, clients=(1, 2), depth=80, names=["x", "y", "default"], props=SETTINGS[4:], pws=["adminpw", "", "x"])
    ctx.walks("no admin password", p, n // 8)


def a02(ctx):
    n = ctx.pick(64, 640)
    ops = mix(WRITES, {"select": 5, "selectpw": 5, "selectsec": 5, "selectold": 3, "chal": 6, "authsec": 0.5, "nsset": 4, "mgetall": 2,
                       "conn": 2, "close": 2, "flush": 1, "nsinfo": 1, "nsnew": 0.5, "nsdel": 0.5, "getlive": 1, "restart": 0.4,
                       "scan": 1, "authok": 0.3})
    pr = [("password", "secret"), ("password", "secret"), ("password", "*"), ("password", "other"), ("public", "0"), ("public", "1"),
          ("password", "p" * 63), ("password", "")]
    for prot in (False, True):
        p = user(ctx, ops, clients=(1, 2, 3), depth=150, names=["x", "y", "default"], props=pr,
                 pws=["secret", "other", "secre", "secret2", "Secret", "", "p" * 63, "p" * 62], cfg={"admin": "adminpw", "protect": prot})
        p.setup = here(p, clients=(1,), admin="adminpw") + [
            p.cmd(1, "NSNEW", "y"), p.cmd(1, "NSSET", "y", "password", "secret"), p.cmd(1, "NSSET", "x", "password", "other"),
            p.cmd(1, "NSSET", "y", "public", "0"), p.conn(2), p.conn(3)]
        ctx.walks("namespace passwords" + (", protected" if prot else ""), p, n // 2)


def a03(ctx):
    n = ctx.pick(64, 640)
    ops = mix(WRITES, READS, ADMINOPS, {"nsdel": 8, "nsnew": 6, "selectok": 7, "select": 2, "bad": 2, "ping": 2, "scan": 1, "dbsize": 1, "conn": 4,
                                        "close": 0.5, "chal": 0.5, "auth": 0.5, "wait": 0.7, "wcheck": 1, "nslist": 2, "restart": 0.4, "mirror": 0, "master": 0.2,
                                        "disk": 0.5})
    p = user(ctx, {k: v for k, v in ops.items() if v}, clients=(1, 2, 3, 4, 5), depth=150, names=["x", "y", "z", "default"], props=CALM)
    p.setup = [p.conn(c) for c in p.clients] + [p.cmd(1, "NSNEW", "x"), p.cmd(1, "NSNEW", "y"), p.cmd(2, "SELECT", "x"),
                                                p.cmd(3, "SELECT", "x"), p.cmd(4, "SELECT", "y")]
    ctx.walks("deleted namespaces", p, n)


def r03(ctx):
    n = ctx.pick(48, 480)
    W = ("*", "SET", "GET", "DEL", "PING", "SELECT", "NSNEW", "SCAN", "SETX", "NOSUCH", "GE", "set", "WAIT")
    ops = {"wait": 8, "wcheck": 8, "set": 5, "getlive": 3, "dellive": 2, "setx": 1, "ping": 2, "scan": 1, "selectok": 3, "nsnew": 0.5,
           "nsdel": 0.3, "bad": 4, "close": 0.7, "conn": 3, "mgetall": 1}
    p = user(ctx, ops, clients=(1, 2, 3, 4), depth=120, names=["x", "y", "default"], waits=W, wordlist=words() + ["NOSUCH", "GETX"] * 12)
    p.setup = here(p) + [p.cmd(1, "NSNEW", "y")]
    ctx.walks("wake-ups", p, n)
    T = ("100", "150", "220", "99", "1800001", "-1", "abc", "0", "1000x")
    ops = {"waitshort": 5, "wait": 2, "wcheck": 4, "set": 3, "getlive": 2, "ping": 1, "selectok": 1, "close": 0.5, "conn": 2, "dellive": 1}
    p = user(ctx, ops, clients=(1, 2, 3), depth=60, names=["x", "y", "default"], waits=W[:6], timeouts=T)
    ctx.walks("timeouts", p, n)


def r04(ctx):
    n = ctx.pick(48, 480)
    ops = mix(WRITES, {"get": 1, "mget": 1, "mirror": 2, "master": 0.7, "fcheck": 5, "setts": 2, "delts": 1, "bad": 3, "selectok": 3, "nsnew": 1,
                       "nsdel": 1, "ping": 1, "scan": 1, "conn": 4, "close": 1, "auth": 0.5, "authok": 1, "wait": 0.5, "wcheck": 1, "time": 0.5, "nsinfohere": 1,
                       "mgetall": 1})
    for adm in ("", "adminpw"):
        p = user(ctx, ops, clients=(1, 2, 3, 4), depth=120, names=["x", "y", "default"], cfg={"admin": adm}, pws=["wrong"],
                 wordlist=words() + ["NOSUCH", "GETX"] * 12)
        p.setup = here(p, clients=(1,), admin=adm or None) + [p.conn(2), p.conn(3)] + ([p.cmd(2, "AUTH", adm)] if adm else []) + \
            [p.cmd(2, "MIRROR")]
        ctx.walks("mirrors" + (" with admin password" if adm else ""), p, n // 2)


def t02(ctx):
    n = ctx.pick(48, 480)
    ops = mix(WRITES, {"raw": 14, "rawend": 4, "checklive": 5, "check": 3, "jump": 3, "restart": 0.7, "reloadhere": 0.4, "setts": 1, "delts": 1,
                       "nsinfohere": 1})
    for mode, f in (("user", user), ("seq", seq)):
        ctx.walks("records, " + mode, f(ctx, ops, clients=(1, 2), depth=150), n)
    ops = mix(ops, {"alter": 8, "checklive": 10, "getlive": 3, "setsame": 3, "mgetall": 1, "histlive": 1, "restart": 0.5})
    for mode, f in (("user", user), ("seq", seq)):
        ctx.walks("altered payloads, " + mode, f(ctx, ops, clients=(1, 2), depth=150), n)


def sized(ctx, r):
    """payloads of many sizes"""
    n = [1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 100, 255, 256, 257, 1000, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, 65537,
         100000, 1 << 20, (8 << 20) - 1, 8 << 20]
    return {"s%d" % i: r.randbytes(k) for i, k in enumerate(n)}


def everywhere(n, r, limit):
    """positions in a payload of n bytes"""
    if n <= limit:
        return range(n)
    return sorted({0, 1, 2, 3, 7, 8, n // 2, n - 8, n - 4, n - 3, n - 2, n - 1, *(p + d for p in (4096, 8192, 65536, 1 << 20, 4 << 20) for d in (-1, 0, 1) if p + d < n),
                   *(r.randrange(n) for _ in range(4))})


def t02bytes(ctx):
    """payloads of many sizes altered at many places, one after the other, and put right again"""
    r = random.Random(ctx.rnd.randrange(1 << 30))
    vals = sized(ctx, r)
    for mode in ("user", "seq"):
        p = Profile({"get": 1}, cfg={"mode": mode}, clients=(1,), vals=vals, rnd=ctx.rnd)
        out = []
        for t, b in vals.items():
            places = [(i, r.randrange(1, 256)) for i in everywhere(len(b), r, ctx.pick(33, 257))]
            if len(b) >= 4:             # one bit of the checksum differs, or it is zero
                places += [(len(b) - 4, -1 - k) for k in (range(33) if len(b) < 1000 else (0, 8, 16, 24, 31, 32))]
            for i in range(0, len(places), 40):
                s, key = [p.conn(1)], "a" if mode == "user" else "#1"
                off = 28
                for k, v in (("b", "w"), ("a", t), ("c", "w")):
                    s.append({"k": "cmd", "c": 1, "a": ["SET", k if mode == "user" else "", v]})
                off = 28 + 18 + (1 if mode == "user" else 8) + 1
                if r.random() < 0.5:
                    s.append(p.cmd(1, "NSJUMP"))
                s.append({"k": "cmd", "c": 1, "a": ["CHECK", key]})
                for pos, mask in places[i:i + 40]:
                    e = {"k": "alter", "ns": "default", "f": 0, "off": off, "pos": pos, "mask": mask}
                    s += [e, {"k": "cmd", "c": 1, "a": ["CHECK", key]}, e, {"k": "cmd", "c": 1, "a": ["CHECK", key]}]
                out.append(s)
        ctx.scripts("every place, " + mode, p, out)


def toolopts(ctx):
    """the daemon and the tool"""
    src = ctx.src(what=("zdbd", "tools/index-rebuild"))
    return {"binary": os.path.join(src, "zdbd", "zdb"), "tool": os.path.join(src, "tools", "index-rebuild", "index-rebuild")}


def t01(ctx):
    n = ctx.pick(48, 480)
    ops = mix(WRITES, READS, dellive=4, setlivets=1, checklive=1, mgetall=3, dbsize=1, kscan=0.7, live=2, nsinfohere=1, jump=4, restart=0.3, rebuild=3, selectok=3)
    opts = toolopts(ctx)
    p = user(ctx, ops, clients=(1, 2), depth=120, names=["x", "y", "default"])
    p.setup = here(p) + [p.cmd(2, "NSNEW", "y"), p.cmd(2, "SELECT", "y")]
    ctx.walks("indexes made again", p, n, opts)
    ctx.walks("daemon in user mode", fixed(ctx, "user", ops, clients=(1,), depth=120, names=["default"]), n // 2, opts)
    vals = big(ctx.rnd, 0, 1, 90, 100000, 180000, 262144, 524288 - 28, 600000)
    ctx.walks("files rotated by size", fixed(ctx, "user", mix(ops, setlive=10), cfg={"dsz": DSZ}, clients=(1,), depth=80, vals=vals, names=["default"]), n // 2, opts)
    many.lengths(ctx, opts)
    many.files(ctx, opts)


def t01twice(ctx):
    """a deletion which was interrupted, then done: the data files hold it twice"""
    b = plain()
    out = []
    for before in (["SET a v", "SET b ww"], ["SET a v", "NSJUMP", "SET a ww", "SET b v"], ["SET a v", "SET b v", "NSJUMP"]):
        for after in (["DEL a"], ["DEL a", "SET a www"], ["DEL a", "NSJUMP", "SET a www", "DEL a"], ["NSJUMP", "DEL a", "SET c v"]):
            s = [b.move(m) for m in ["!conn 1", "NSNEW x", "SELECT x"] + before]
            s.append(dict(b.move("DEL a"), arm={"mode": "before", "at": 2, "kinds": fault.WRITE}))
            s += [b.move(m) for m in after + ["!rebuild x", "MGET a b c", "DBSIZE"]] + [{"k": "live", "c": 1}]
            out.append(s)
    ctx.scripts("deletions recorded twice", b, out, dict(toolopts(ctx), shim=fault.shim(ctx.scratch)))


def cutshort(b, last):
    """a command cut short by a crash at some place, others after it, then last"""
    out = []
    for before in (["SET a v", "SET b ww"], ["SET a v", "NSJUMP", "SET b ww"], []):
        for op in ("SET c big", "SET a big", "SET d ''", "DEL a"):
            for part in (20, 400, 700, 995):
                for at in (1, 2):
                    for after in ([], ["SET e vv", "SET a www", "DEL b"], ["NSJUMP", "SET a www"]):
                        s = [b.move(m) for m in ["!conn 1", "NSNEW x", "SELECT x"] + before]
                        s.append(dict(b.move(op), arm={"mode": "part", "at": at, "part": part, "kinds": fault.WRITE}))
                        out.append(s + [b.move(m) for m in after] + last((before + after).count("NSJUMP") + 1))
    return out


def t01cut(ctx):
    b = plain()
    b.bytes["big"] = bytes(ctx.rnd.randrange(256) for _ in range(3000))
    s = cutshort(b, lambda n: [b.move(m) for m in ("MGET a b c d e", "!rebuild x", "MGET a b c d e", "DBSIZE")] + [{"k": "live", "c": 1}])
    ctx.rnd.shuffle(s)
    ctx.scripts("commands cut short before", b, s[:ctx.pick(120, 1000)], dict(toolopts(ctx), shim=fault.shim(ctx.scratch)))


def t04cut(ctx):
    b = plain()
    b.bytes["big"] = bytes(ctx.rnd.randrange(256) for _ in range(3000))
    binary, tools = offline(ctx, "integrity-check")
    s = cutshort(b, lambda n: [{"k": "icheck", "c": 1, "ns": "x", "f": f} for f in range(n)])
    ctx.rnd.shuffle(s)
    ctx.scripts("commands cut short before", b, s[:ctx.pick(80, 1000)], {"binary": binary, "checker": tools[0], "shim": fault.shim(ctx.scratch)})


def offline(ctx, *names, **patch):
    """the daemon and offline tools"""
    src = ctx.src(what=("zdbd",) + tuple("tools/" + n for n in names))
    return os.path.join(src, "zdbd", "zdb"), [os.path.join(src, "tools", n, {"quick-compaction": "quick-compact"}.get(n, n)) for n in names]


def t03(ctx):
    n = ctx.pick(64, 640)
    ops = mix(WRITES, READS, {"edit": 6, "nsnew": 2, "nsdel": 1, "nslist": 2, "nsset": 4, "nssethere": 2, "nsinfo": 4, "nsinfohere": 2, "select": 4, "selectpw": 4,
                              "selectok": 5, "selectsec": 1, "chal": 1, "restart": 0.7, "flush": 0.5, "jump": 1, "live": 1, "dbsize": 1, "authok": 1})
    binary, tools = offline(ctx, "namespace-editor", "namespace-dump")
    o = {"binary": binary, "editor": tools}
    pr = [x for x in SETTINGS if x[0] not in ("lock", "freeze")] + [("mode", "seq"), ("mode", "user")]
    p = user(ctx, ops, clients=(1, 2), depth=120, names=["x", "y", "zed", "default"], props=pr, pws=["secret", "wrong", "q" * 63, "p" * 128, "s p", "-p"])
    p.setup = here(p) + [p.cmd(2, "NSNEW", "y"), p.cmd(2, "NSSET", "y", "mode", "seq"), p.cmd(2, "SELECT", "y")]
    ctx.walks("settings edited", p, n, o)
    p = user(ctx, ops, clients=(1, 2), depth=120, names=NAMES, props=pr, pws=["secret", "wrong", "other"], cfg={"admin": "adminpw"})
    p.setup = here(p, clients=(1,), admin="adminpw") + [p.conn(2)]
    ctx.walks("settings edited, admin password", p, n // 2, o)


def t04(ctx):
    n = ctx.pick(64, 640)
    ops = mix(WRITES, {"icheck": 8, "alter": 5, "checklive": 2, "getlive": 2, "jump": 3, "restart": 0.5, "setts": 1, "delts": 1, "flush": 0.2, "dellive": 3})
    binary, tools = offline(ctx, "integrity-check")
    o = {"binary": binary, "checker": tools[0]}
    for mode, f in (("user", user), ("seq", seq)):
        ctx.walks("data files checked, " + mode, f(ctx, ops, clients=(1, 2), depth=150), n, o)
    # very many altered records
    out, p = [], Profile({"get": 1}, cfg={"mode": "user"}, clients=(1,), rnd=ctx.rnd)
    for k in (1, 2, 127, 128, 255, 256, 257, 512):
        s = [p.conn(1), {"k": "fill", "c": 1, "how": "new", "n": 520, "b": 0, "v": 0, "seq": False, "key": ""}]
        s += [{"k": "alter", "ns": "default", "f": 0, "off": 28 + i * 34, "pos": i % 8, "mask": 1 + i % 255} for i in range(k)]
        out.append(s + [{"k": "icheck", "ns": "default", "f": 0, "cut": c} for c in (-1, 28 + 34 * k, 28)])
    # one bit of the checksum differs, or it is zero
    s = [p.conn(1), {"k": "fill", "c": 1, "how": "new", "n": 3, "b": 0, "v": 0, "seq": False, "key": ""}]
    for k in range(33):
        e = {"k": "alter", "ns": "default", "f": 0, "off": 28 + k % 3 * 34, "pos": 4, "mask": -1 - k}
        s += [e, {"k": "icheck", "ns": "default", "f": 0, "cut": -1}, e, {"k": "icheck", "ns": "default", "f": 0, "cut": -1}]
    out.append(s)
    ctx.scripts("many altered records", p, out, o)
    many.lengths(ctx, o)
    many.files(ctx, o)


def empty(vals):
    """the same payloads, the empty one named so that the specification knows it"""
    return {"" if b == b"" else t: b for t, b in vals.items()}


def t05(ctx):
    n = ctx.pick(48, 480)
    ops = mix(WRITES, READS, dellive=4, setlivets=1, checklive=3, mgetall=3, dbsize=1, kscan=0.7, live=2, nsinfohere=1, jump=4, restart=0.3, compact=3, selectok=3,
              histlive=3, histc=4, keytimelive=2, scan=1, scanc=3, rscan=1, rscanc=3, raw=3, nsset=0.5, setlive=4, dirty=0.5)
    binary, tools = offline(ctx, "quick-compaction")
    o = {"binary": binary, "compacter": tools[0]}
    pr = [x for x in SETTINGS if x[0] not in ("lock", "freeze", "mode")]
    p = user(ctx, ops, clients=(1, 2), depth=120, names=["x", "y", "default"], vals=empty(std_vals(ctx.rnd)), props=pr, pws=["secret", "wrong"])
    p.setup = here(p) + [p.cmd(2, "NSNEW", "y"), p.cmd(2, "NSSET", "y", "mode", "seq"), p.cmd(2, "SELECT", "y")]
    ctx.walks("namespaces compacted", p, n, o)
    for mode in ("user", "seq"):
        ctx.walks("daemon in %s mode" % mode, fixed(ctx, mode, ops, clients=(1,), depth=120, vals=empty(std_vals(ctx.rnd)), names=["default"], props=pr), n // 2, o)
        vals = empty(big(ctx.rnd, 0, 1, 90, 100000, 180000, 262144, 524288 - 28, 600000))
        ctx.walks("files rotated by size, " + mode,
                  fixed(ctx, mode, mix(ops, setlive=10), cfg={"dsz": DSZ}, clients=(1,), depth=80, vals=vals, names=["default"], props=pr), n // 2, o)
    many.lengths(ctx, o)
    many.files(ctx, o)


def t06(ctx):
    n = ctx.pick(48, 480)
    ops = mix(WRITES, READS, dellive=4, checklive=3, mgetall=3, dbsize=1, kscan=0.7, live=2, nsinfohere=1, jump=3, restart=0.3, sync=2.5, setlive=4, selectok=2,
              histlive=2, keytimelive=2, setlivets=1, scan=1, scanc=2, rscan=1, raw=2, nsset=0.5)
    src = ctx.src(what=("zdbd", "utilities/db-sync"))
    o = {"binary": os.path.join(src, "zdbd", "zdb"), "syncer": os.path.join(src, "utilities", "db-sync", "db-sync")}
    pr = [x for x in SETTINGS if x[0] == "worm"]
    ctx.walks("daemon copied", fixed(ctx, "user", ops, clients=(1, 2), depth=140, names=["default"], props=pr), n, o)
    p = user(ctx, mix(ops, nsnew=1, nsdel=0.5, selectok=6), clients=(1, 2), depth=140, names=["x", "y", "default"], props=pr)
    p.setup = [p.conn(c) for c in p.clients]
    ctx.walks("several namespaces", p, n // 2, o)
    vals = empty(big(ctx.rnd, 0, 1, 90, 100000, 180000, 262144, 524288 - 28, 600000))
    ctx.walks("files rotated by size", fixed(ctx, "user", mix(ops, setlive=10), cfg={"dsz": DSZ}, clients=(1,), depth=100, vals=vals, names=["default"], props=pr), n // 2, o)
    many.t06full(ctx, o)


def t07(ctx):
    n = ctx.pick(64, 640)
    ops = mix(WRITES, dellive=4, setlive=6, jump=3, restart=0.7, idump=6, live=1, histlive=2, checklive=1, setlivets=1, setts=1, delts=1, flush=0.3, nsset=0.7, selectok=3)
    binary, tools = offline(ctx, "index-dump")
    o = {"binary": binary, "dumper": tools[0]}
    pr = [x for x in SETTINGS if x[0] not in ("lock", "freeze", "mode")]
    p = user(ctx, ops, clients=(1, 2), depth=150, names=["x", "y", "default"], props=pr, pws=["secret", "wrong"])
    p.setup = here(p) + [p.cmd(2, "NSNEW", "y"), p.cmd(2, "NSSET", "y", "mode", "seq"), p.cmd(2, "SELECT", "y")]
    ctx.walks("index files shown", p, n, o)
    for mode in ("user", "seq"):
        ctx.walks("index files shown, %s mode" % mode, fixed(ctx, mode, ops, clients=(1,), depth=150, names=["default"], props=pr), n // 2, o)
    many.lengths(ctx, o)
    many.files(ctx, o)


def turns(r, before=8):
    """the library and the daemon serve in turns"""
    def change(s):
        out, lib_ = [], r.random() < 0.5
        for i, e in enumerate(s):
            out.append(e)
            if i < before:
                continue
            if not lib_ and r.random() < 0.12:
                out.append({"k": "lib", "how": r.choice(["kill", "stop", "term"])})
                lib_ = True
            elif lib_ and r.random() < 0.05:
                out.append({"k": "daemon", "how": r.choice(["kill", "close", "exit"])})
                lib_ = False
            elif lib_ and r.random() < 0.05:
                out.append({"k": "libagain", "how": r.choice(["kill", "close", "close", "exit"])})
        return renumber(s, out)
    return change


def l01(ctx):
    import lib
    n = ctx.pick(24, 400)
    ops = mix(WRITES, {"get": 4, "getlive": 4, "exists": 3, "check": 1, "checklive": 3, "mgetall": 1, "scan": 0.7, "scanc": 1, "histlive": 1, "keytimelive": 1,
                       "nsinfohere": 1, "dbsize": 0.5, "jump": 1.5, "selectok": 1, "nsset": 0.5, "raw": 1, "live": 1,
                       "nsnew": 0.7, "nsdel": 0.4, "reload": 0.7, "reloadhere": 0.5, "flush": 0.3})
    pr = [("maxsize", "0"), ("maxsize", "3000"), ("maxsize", "1100")]
    r = random.Random(ctx.rnd.randrange(1 << 30))

    change = turns(r)
    for name, cflags, env, part in (("", "", None, 1), (", address sanitizer", ASAN, ASANENV, 2)):
        src = ctx.src(cflags=cflags)
        opts = {"binary": os.path.join(src, "zdbd", "zdb"), "lib": lib.compile(src, cflags), "env": env}
        for mode, f in (("user", user), ("seq", seq)):
            ctx.walks("the library and the daemon in turns, %s%s" % (mode, name),
                      f(ctx, ops, clients=(1, 2), depth=130, names=["x", "y", "default"], props=pr), n // part, opts, change=change)
            vals = big(ctx.rnd, 0, 1, 90, 100000, 262144, 524288 - 28, 600000)
            ctx.walks("one mode, large payloads, %s%s" % (mode, name),
                      fixed(ctx, mode, ops, clients=(1,), depth=60, names=["default"], props=pr, vals=vals, cfg={"dsz": DSZ, "dmax": 2000000}), n // 4 // part, opts, change=change)
    limit = [("maxsize", str(x)) for x in (0, 40, 63, 64, 65, 128, 129, 256, 1000)]
    vals = {"v%d" % i: ctx.rnd.randbytes(s) for i, s in enumerate((0, 1, 31, 32, 33, 63, 64, 65, 128, 400))}
    for mode, f in (("user", user), ("seq", seq)):
        ctx.walks("limits seen by the library, " + mode,
                  f(ctx, mix(WRITES, {"set": 12, "setlive": 9, "nsinfohere": 3, "getlive": 2, "nssethere": 2.5}), clients=(1, 2), depth=120, props=limit, vals=vals), n // 2, opts, change=change)
    many.lengths(ctx, opts)
    many.files(ctx, opts)


# ---------------------------------------------------- crashes and faults ---
MUTATE = {"SET", "SETX", "DEL", "NSNEW", "NSSET", "NSJUMP"}


def crash_arm(rnd):
    m = rnd.choice(["before", "before", "after", "part", "part"])
    return {"mode": m, "at": rnd.choice([1, 1, 2, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9]), "part": rnd.choice([1, 30, 200, 500, 800, 999]),
            "kinds": fault.WRITE if m == "part" else rnd.choice([fault.WRITE, fault.WRITE | fault.CREATE | fault.TRUNC | fault.ALLOC])}


def power_arm(rnd):
    return {"mode": rnd.choice(["before", "before", "after"]), "at": rnd.choice([1, 1, 2, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9]),
            "kinds": rnd.choice([fault.WRITE | fault.SYNC, fault.SYNC, fault.WRITE, fault.WRITE | fault.CREATE | fault.TRUNC | fault.ALLOC | fault.SYNC])}


def fault_arm(rnd):
    m = rnd.choice(["fail", "fail", "failing", "short", "shortfailing"])
    return {"mode": m, "at": rnd.choice([1, 1, 2, 2, 3, 3, 4, 5, 6]), "part": rnd.choice([1, 100, 500, 900, 999]),
            "err": rnd.choice([fault.ENOSPC, fault.EIO]), "kinds": rnd.choice([fault.WRITE, fault.WRITE | fault.CREATE])}


def arming(rnd, arm, p, ops=MUTATE, startup=0.0):
    """some commands of a script are interrupted"""
    def change(script):
        out = []
        for e in script:
            if e["k"] == "cmd" and e["a"][0].upper() in ops and rnd.random() < p:
                e = dict(e, arm=arm(rnd))
                if rnd.random() < startup:
                    e["arms"] = [crash_arm(rnd) for _ in range(rnd.randrange(1, 3))]
            elif e["k"] == "restart" and rnd.random() < startup:
                e = dict(e, arms=[crash_arm(rnd)])
            out.append(e)
        return out
    return change


FAULTOPS = {"set": 8, "setlive": 8, "setany": 1, "dellive": 5, "del": 0.5, "jump": 1.5, "mgetall": 4, "nsinfohere": 3, "scan": 1, "scanc": 3,
            "rscan": 1, "rscanc": 2, "histlive": 2, "histc": 2, "keytimelive": 1, "checklive": 1, "raw": 1, "rawend": 1, "getlive": 2,
            "nsnew": 0.7, "nsset": 1, "nssethere": 1, "nslist": 0.7, "nsinfo": 0.7, "selectok": 0.5, "setlivets": 0.5, "dbsize": 0.5, "keycur": 0.3}
CALMER = [("maxsize", "0"), ("maxsize", "90000000"), ("password", "secret"), ("password", "*"), ("public", "1"), ("public", "0"), ("worm", "0")]


def k04(ctx):
    n = ctx.pick(24, 400)
    so = fault.shim(ctx.scratch)
    ops = mix(FAULTOPS, restart=0.3)
    vals = dict(std_vals(ctx.rnd), v90=ctx.rnd.randbytes(9000))
    bigv = big(ctx.rnd, 3, 90, 200000, 260000, 120000)
    ch = arming(ctx.rnd, crash_arm, 0.3, startup=0.25)
    for mode, f in (("user", user), ("seq", seq)):
        ctx.walks("crashes, " + mode, f(ctx, ops, clients=(1, 2), depth=100, names=["x", "y", "default"], props=CALMER, pws=["secret"], vals=vals), n, {"shim": so}, change=ch)
        ctx.walks("crashes at rotations, " + mode, f(ctx, mix(ops, jump=2), clients=(1,), depth=70, props=CALMER[:1], vals=bigv,
                                                     cfg={"dsz": DSZ}), n // 2, {"shim": so}, change=ch)


def k14(ctx):
    n = ctx.pick(24, 400)
    ops = mix(FAULTOPS, restart=2.5, dbsize=1)
    vals = dict(std_vals(ctx.rnd), v90=ctx.rnd.randbytes(9000))
    bigv = big(ctx.rnd, 3, 90, 200000, 260000, 120000)
    o = {"shim": fault.shim(ctx.scratch), "args": ("--sync",), "power": 1 + ctx.rnd.randrange(1 << 30)}
    ch = arming(ctx.rnd, power_arm, 0.2)
    for mode, f in (("user", user), ("seq", seq)):
        for title, c in (("power lost between commands, ", None), ("power lost, ", ch)):
            p = f(ctx, ops, clients=(1, 2), depth=100, names=["x", "y", "default"], props=CALMER, pws=["secret"], vals=vals)
            p.stops = ["power"]
            ctx.walks(title + mode, p, n, o, change=c)
            p = f(ctx, mix(ops, jump=2), clients=(1,), depth=70, props=CALMER[:1], vals=bigv, cfg={"dsz": DSZ})
            p.stops = ["power"]
            ctx.walks("rotations, " + title + mode, p, n // 2, o, change=c)


def k05(ctx):
    n = ctx.pick(32, 640)
    so = fault.shim(ctx.scratch)
    ops = mix(FAULTOPS, restart=0.7)
    vals = dict(std_vals(ctx.rnd), v90=ctx.rnd.randbytes(9000))
    bigv = big(ctx.rnd, 3, 90, 200000, 260000, 120000)
    ch = arming(ctx.rnd, fault_arm, 0.4)
    for mode, f in (("user", user), ("seq", seq)):
        ctx.walks("refused writes, " + mode, f(ctx, ops, clients=(1, 2), depth=140, names=["x", "y", "default"], props=CALMER, pws=["secret"], vals=vals), n, {"shim": so}, change=ch)
        ctx.walks("refused rotations, " + mode, f(ctx, mix(ops, jump=2), clients=(1,), depth=100, props=CALMER[:1], vals=bigv,
                                                  cfg={"dsz": DSZ}), n // 2, {"shim": so}, change=ch)


def plain(names=("default", "zzbar", "x", "y")):
    from mc import Bounded
    return Bounded("", [])


PRIVATE = ["!conn 1", "NSNEW x", "NSSET x mode %s", "NSSET x password p", "NSSET x public 0", "SELECT x p"]


def removals(b, op, mode, ats):
    """a command which removes the files of a namespace, interrupted at the at-th of its system calls"""
    from mc import observe, OBSERVE_USER, OBSERVE_SEQ
    fill = ["SET a v", "SET b ww", "NSJUMP", "SET c v"] if mode == "user" else ["SET '' v", "SET '' ww", "NSJUMP", "SET '' v"]
    for at in ats:
        s = [b.move(m % mode if "%" in m else m) for m in PRIVATE + fill]
        if op == "NSDEL x":
            s.append(b.move("SELECT default"))
        s.append(dict(b.move(op), arm={"mode": "before", "at": at, "kinds": 127}))
        s += [b.move("NSINFO x"), b.move("SELECT x p")]
        observe(b, s, 1, OBSERVE_USER if mode == "user" else OBSERVE_SEQ, steps=3)
        yield s


# every write of one command, in places where something may go wrong: (what was there before, the command)
SPOTS = {
    "user": [("SET a v", ["SET b ww", "SET a ww", "SET a v", "DEL a", "NSJUMP", "NSNEW y", "NSSET x maxsize 9000", "NSSET x worm 1", "NSSET x password p"]),
             ("SET a v;SET b v;NSJUMP", ["SET c v", "SET a ww", "DEL a", "NSJUMP"]),
             ("SET a v;NSJUMP;SET a ww;NSJUMP;SET b v;DEL b", ["SET a v", "DEL a", "SET b ww"]),
             ("", ["SET a v", "NSJUMP", "NSSET x mode seq"]),
             ("SET a B;SET b B", ["SET c B", "SET a C", "DEL a"])],
    "seq": [("SET '' v", ["SET '' ww", "SET #0 ww", "DEL #0", "NSJUMP"]),
            ("SET '' v;SET '' v;NSJUMP", ["SET '' v", "SET #0 ww", "DEL #1", "NSJUMP"]),
            ("SET '' v;NSJUMP;SET #0 ww;NSJUMP;SET '' v;DEL #2", ["SET #0 v", "DEL #0", "SET '' ww"]),
            ("", ["SET '' v", "NSJUMP"]),
            ("SET '' B;SET '' B", ["SET '' B", "SET #0 C", "DEL #1"])]}


LONG = {"SET": 4, "DEL": 3, "NSJUMP": 8, "NSNEW": 9, "NSSET": 5}


def spots(ctx, arms, again=True):
    from mc import Bounded, observe, OBSERVE_USER, OBSERVE_SEQ
    b = Bounded("", [], sizes={"B": 250000, "C": 250001}, cfg={"dsz": DSZ})
    out = []
    for mode, rows in SPOTS.items():
        o = OBSERVE_USER if mode == "user" else OBSERVE_SEQ
        for before, ops in rows:
            for op in ops:
                for arm in arms:
                    if arm["at"] > LONG.get(op.split(" ")[0] if op not in ("SET c B", "SET a C", "SET '' B", "SET #0 C") else "NSJUMP", 4):
                        continue        # it does not make that many
                    s = [b.move(m) for m in ("!conn 1", "NSNEW x", "NSSET x mode " + mode, "SELECT x")]
                    s += [b.move(m) for m in before.split(";") if m]
                    s.append(dict(b.move(op), arm=arm))
                    observe(b, s, 1, o, steps=4)
                    s += [b.move(m) for m in (["SET a www", "SET b www", "NSJUMP", "SET a v"] if mode == "user" else ["SET '' www", "SET #0 www", "NSJUMP", "SET #0 v"])]
                    s.append(b.move("!restart"))
                    observe(b, s, 1, ["NSLIST", "NSINFO x", "MGET a b c" if mode == "user" else "MGET #0 #1 #2 #3 #4 #5", "SCAN*", "HISTORY* a" if mode == "user" else "HISTORY* #0"], steps=5)
                    out.append(s)
    return b, out


def k04spots(ctx):
    K = fault.WRITE | fault.CREATE | fault.TRUNC | fault.ALLOC | fault.RENAME
    arms = [{"mode": "before", "at": i, "kinds": K} for i in range(1, 9)]
    arms += [{"mode": "part", "at": i, "part": q, "kinds": fault.WRITE} for i in range(1, 5) for q in ctx.pick((500,), (1, 500, 999))]
    b, s = spots(ctx, arms)
    ctx.rnd.shuffle(s)
    ctx.scripts("every write of a command", b, s[:ctx.pick(300, 100000)], {"shim": fault.shim(ctx.scratch)})


def k05spots(ctx):
    arms = [{"mode": m, "at": i, "part": q, "err": fault.ENOSPC, "kinds": fault.WRITE | fault.CREATE}
            for i in range(1, 6) for m, q in ctx.pick((("fail", 0), ("failing", 0), ("short", 400), ("shortfailing", 500)),
                                                   (("fail", 0), ("failing", 0), ("short", 500), ("shortfailing", 1), ("shortfailing", 999)))]
    b, s = spots(ctx, arms)
    ctx.rnd.shuffle(s)
    ctx.scripts("every write of a command", b, s[:ctx.pick(420, 100000)], {"shim": fault.shim(ctx.scratch)})


def k04removed(ctx):
    b = plain()
    lab = []
    for op in ("NSDEL x", "FLUSH"):
        for mode in ("user", "seq"):
            lab += [("%s interrupted between its removals" % op.split(" ")[0], s) for s in removals(b, op, mode, range(1, 12))]
    ctx.findings("removals interrupted", b, lab, {"shim": fault.shim(ctx.scratch)})


def k05flush(ctx):
    b = plain()
    lab = []
    for mode in ("user", "seq"):
        for at in (1, 2, 3):
            s = [b.move(m % mode if "%" in m else m) for m in PRIVATE + ["SET '' v" if mode == "seq" else "SET a v", "SELECT default", "SET d v", "SELECT x p"]]
            s.append(dict(b.move("FLUSH"), arm={"mode": "fail", "at": at, "kinds": fault.WRITE | fault.CREATE}))
            lab.append(("FLUSH whose new files are refused", s + [b.move("SELECT default"), b.move("GET d")]))
    ctx.findings("refused flush", b, lab, {"shim": fault.shim(ctx.scratch)})


R02OPS = mix(WRITES, OBSERVE, nsset=1, nssethere=1, jump=0.7, flush=0.1, reloadhere=0.2, restart=0.3, close=0.5, conn=3, authok=2, selectok=3, selectpw=0.5, bad=1)


ASAN = "-g -O1 -fsanitize=address -fno-omit-frame-pointer"
ASANENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1"}


def r02(ctx):
    """connections without any right send anything while others work; with the address sanitizer"""
    asan = os.path.join(ctx.src(cflags=ASAN), "zdbd", "zdb")
    opts = {"binary": asan, "env": ASANENV}
    n = ctx.pick(32, 320)
    hows = ["broken"] * 4 + ["fuzz"] * 5 + ["churn", "deaf", "leave", "leave"]

    def change(s):
        out, r = [], random.Random(ctx.rnd.randrange(1 << 30))
        for i, e in enumerate(s):
            out.append(e)
            if i > 12 and r.random() < 0.6:
                out.append({"k": "junk", "how": r.choice(hows), "seed": r.randrange(1 << 30)})
        return renumber(s, out)
    for mode in ("user", "seq"):
        p = Profile(R02OPS, rnd=ctx.rnd, cfg={"admin": "secretadmin", "protect": True}, clients=(1, 2, 3), depth=90, wordlist=[w for w in words() if w not in ("MIRROR", "MASTER", "WAIT", "*")], names=["x", "y", "default"], pws=["secretadmin", "secretword"],
                    props=[("maxsize", "9000"), ("maxsize", "0"), ("worm", "1"), ("worm", "0"), ("lock", "1"), ("lock", "0"), ("freeze", "1"), ("freeze", "0"), ("password", "secretword"), ("public", "1")])
        p.setup = [p.conn(c) for c in (1, 2, 3)] + [p.cmd(1, "AUTH", "secretadmin"), p.cmd(2, "AUTH", "secretadmin")]
        for ns, pub in (("x", "1"), ("y", "0")):
            p.setup += [p.cmd(1, "NSNEW", ns), p.cmd(1, "NSSET", ns, "mode", mode), p.cmd(1, "NSSET", ns, "password", "secretword"), p.cmd(1, "NSSET", ns, "public", pub)]
        p.setup += [p.cmd(c, "SELECT", "x", "secretword") for c in (1, 2, 3)]
        ctx.walks("junk between the requests of others, " + mode, p, n, opts, change=change)


def r02args(ctx):
    """every command with every number of arguments, of every length; with the address sanitizer"""
    asan = os.path.join(ctx.src(cflags=ASAN), "zdbd", "zdb")
    opts = {"binary": asan, "env": ASANENV}
    ws = [w for w in words() if w not in ("WAIT", "MIRROR", "MASTER", "AUTH")] + ["AUTH"]
    lens = (0, 1, 2, 7, 8, 9, 16, 17, 18, 31, 32, 33, 40, 41, 64, 127, 128, 129, 255, 256, 257, 300, 8192, 9000)
    p = Profile({}, rnd=ctx.rnd, cfg={"admin": "secretadmin"})
    raw = {}
    for n in lens:
        raw[n] = [p.raw(x) for x in {bytes(n), b"1" * n, b"x" * n, b"\xff" * n, ctx.rnd.randbytes(n)}]
    extra = [p.lit(x) for x in ("x", "y", "default", "mode", "seq", "worm", "lock", "freeze", "maxsize", "password", "public", "0", "1", "28", "RAW", "DIRTY", "RESET",
                                "SECURE", "CHALLENGE", "-1", "99999999999999999999")]
    def wrapped(mode, cases):
        s = [p.conn(1), p.cmd(1, "AUTH", "secretadmin")]
        for ns in "xy":
            s += [p.cmd(1, "NSNEW", ns), p.cmd(1, "NSSET", ns, "mode", mode)]
        s += [p.cmd(1, "SELECT", "x"), p.cmd(1, "SET", "" if mode == "seq" else "a", "www"), p.cmd(1, "SET", "" if mode == "seq" else "b", "wwww")]
        for c in cases:
            s.append({"k": "cmd", "c": 1, "a": c})
            if ctx.rnd.random() < 0.15:
                s += [p.conn(1), p.cmd(1, "AUTH", "secretadmin"), p.cmd(1, "SELECT", "x")]
        return s + [p.conn(2), p.cmd(2, "NSLIST"), p.cmd(2, "NSINFO", "x"), p.cmd(2, "SELECT", "x"), p.cmd(2, "SCAN")]

    scripts, always = [], []
    for mode in ("user", "seq"):
        subs = []
        for w in ws:
            cases = [[t] for n in lens for t in raw[n]] + [[t] for t in extra] + [[]]
            pool = [t for n in lens for t in raw[n]] + extra * 2
            for n in (2, 2, 3, 3, 3, 4, 5, 20, 1000):
                for _ in range(ctx.pick(5, 60) if n < 10 else 2):
                    cases.append([ctx.rnd.choice(pool) for _ in range(n)])
            # sub-commands, with every number of arguments after them
            for sub in {"DATA": ["RAW", "RAW 0", "RAW 0 28"], "INDEX": ["DIRTY", "DIRTY RESET"], "AUTH": ["SECURE", "SECURE CHALLENGE"], "SELECT": ["x", "x SECURE"],
                        "NSSET": ["x"] + ["x " + q for q in ("maxsize", "password", "public", "worm", "mode", "lock", "freeze")], "SET": ["a", "a www"], "DEL": ["a"],
                        "HISTORY": ["a"], "NSINFO": ["x"], "RELOAD": ["x"], "NSDEL": ["y"]}.get(w, []):
                for n in (0, 1, 1, 1, 2, 2):
                    subs.append([p.lit(w)] + [p.lit(x) for x in sub.split(" ")] + [ctx.rnd.choice(pool) for _ in range(n)])
            cases = [[p.lit(w)] + c for c in cases]
            ctx.rnd.shuffle(cases)
            for i in range(0, len(cases), 60):
                scripts.append(wrapped(mode, cases[i:i + 60]))
        ctx.rnd.shuffle(subs)
        always += [wrapped(mode, subs[i:i + 20]) for i in range(0, len(subs), 20)]
    ctx.rnd.shuffle(scripts)
    ctx.scripts("argument counts and lengths", p, always + scripts[:ctx.pick(120, 100000)], opts)


def renumber(s, out):
    """references to earlier events follow the events to their new places"""
    at = {}
    j = 0
    for i, e in enumerate(out, 1):
        if j < len(s) and e is s[j]:
            j += 1
            at[j] = i

    def ref(a):
        if a.startswith("@") and a[1:].isdigit():
            return "@%d" % at[int(a[1:])]
        if a.startswith("=H"):
            n, pw = a[2:].split(":", 1)
            return "=H%d:%s" % (at[int(n)], pw)
        return a
    return [dict(e, a=[ref(a) for a in e["a"]]) if "a" in e else e for e in out]


# ---------------------------------------------------------------- H01 ---
HOOKOPS = {"hooks": 3, "restart": 1.2, "noready": 0.5, "hm": 3, "offload": 4, "jump": 6, "nsnew": 1.5, "nsdel": 0.8, "nsset": 2, "nssethere": 1,
           "reload": 1, "reloadhere": 1, "flush": 0.4, "dirty": 2, "dreset": 0.5, "selectok": 2}
HOOKREADS = {"getlive": 10, "mgetall": 2, "mget": 1, "checklive": 4, "histlive": 2, "histc": 2, "raw": 4, "rawend": 1, "setsame": 3, "dellive": 1,
             "exists": 1, "lengthlive": 1, "scan": 1, "scanc": 1, "rscan": 1, "keytimelive": 1, "get": 1}
HMS = [["missing-data", v] for v in ("ok", "ok", "ok", "ok", "fail", "sig", "lie")] + [["jump-index", v] for v in ("ok", "ok", "fail", "sig", "orphan")] + \
      [["namespaces-init", v] for v in ("ok", "fail", "sig")] + [["close", v] for v in ("ok", "fail", "orphan")] + \
      [[h, v] for h in ("jump-data", "namespace-created", "namespace-updated", "namespace-deleted", "namespace-reloaded", "namespace-closing")
       for v in ("ok", "fail", "sig", "orphan")]


def plainvals(rnd, *sizes):
    """payloads of different checksums"""
    return {"v%d" % i: bytes([65 + i]) + rnd.randbytes(s) for i, s in enumerate(sizes)}


def hooked(p, hook=True):
    p.cfg["hook"] = hook
    p.hms = HMS
    p.stops = ["kill", "stop", "term", "int", "segv"]
    return p


def h01(ctx):
    prog = hooks.build(ctx.scratch)
    n = ctx.pick(24, 240)
    ops = mix(WRITES, HOOKREADS, HOOKOPS)
    kw = dict(depth=90, names=["x", "y", "default"], props=CALM)
    o = {"hook": prog}
    sizes = (0, 1, 20, 300, 4000, 9000)
    ctx.walks("hooks, user", hooked(user(ctx, ops, clients=(1, 2), vals=plainvals(ctx.rnd, *sizes), **kw)), n, o)
    ctx.walks("hooks, seq", hooked(seq(ctx, ops, clients=(1, 2), vals=plainvals(ctx.rnd, *sizes), **kw)), n, dict(o, background=True))
    for mode in ("user", "seq"):
        ctx.walks("hooks, rotation by size, " + mode,
                  hooked(fixed(ctx, mode, mix(ops, jump=0, set=10), cfg={"dsz": DSZ}, clients=(1,), depth=70, vals=plainvals(ctx.rnd, 10, 100000, 250000, 180000, 400000), names=["x", "default"])), n // 3, o)
    ctx.walks("no hook, files away", hooked(user(ctx, mix(WRITES, HOOKREADS, {"offload": 4, "jump": 5, "restart": 0.6, "reloadhere": 0.6, "flush": 0.2, "hooks": 0.3}), clients=(1,), vals=plainvals(ctx.rnd, *sizes), **dict(kw, depth=130)), False), n // 3, o)
    p = user(ctx, ops, clients=(1, 2), vals=plainvals(ctx.rnd, *sizes), **kw)
    p = hooked(p)
    p.hms = [m for m in HMS if m[1] == "orphan" or m[1] == "ok"]
    ctx.walks("the daemon is the reaper of what hooks leave behind", p, n // 3, dict(o, reaper=True))
    p = Profile({}, rnd=ctx.rnd, names=["x" * 100, "y" * 128])
    p.cfg["hook"] = True
    s = [p.conn(1), p.cmd(1, "NSNEW", "x" * 100), p.cmd(1, "SELECT", "x" * 100)]
    for i in range(40):
        s += [p.cmd(1, "SET", "key%d" % i, "v"), p.cmd(1, "NSJUMP")]
    s += [p.cmd(1, "HOOKS"), {"k": "hm", "h": "jump-index", "v": "fail"}]
    for i in range(40):
        s += [p.cmd(1, "DEL", "key%d" % i)] + [p.cmd(1, "NSJUMP"), p.cmd(1, "HOOKS")] * (i % 5 == 0)
    asan = os.path.join(ctx.src(cflags=ASAN), "zdbd", "zdb")
    ctx.scripts("long lists of long arguments", p, [s], dict(o, long=True, binary=asan, env=ASANENV))


def h01stay(ctx):
    """what the daemon does, its end and its start do not wait for hooks which go on"""
    ops = mix(WRITES, {"getlive": 3, "jump": 3, "nsnew": 2, "nsdel": 2, "nsset": 1, "conn": 4, "close": 3, "selectok": 3, "restart": 1, "reloadhere": 0.5,
                       "wait": 0.5, "wcheck": 0.5, "nslist": 1})
    p = user(ctx, ops, clients=(1, 2, 3, 4), depth=70, names=["x", "y", "default"], props=CALM)
    p.stops = ["kill", "stop", "term", "int"]
    ctx.walks("hooks which go on", p, ctx.pick(12, 120), {"hook": "stay", "prog": hooks.build(ctx.scratch)})


def h01lib(ctx):
    """programs with the embedded library and the daemon, in turns, run the hook program"""
    import lib
    ops = mix(WRITES, HOOKREADS, HOOKOPS, noready=0, restart=0, hooks=1, rawend=0)
    r = random.Random(ctx.rnd.randrange(1 << 30))
    src = ctx.src()
    o = {"binary": os.path.join(src, "zdbd", "zdb"), "lib": lib.compile(src), "hook": hooks.build(ctx.scratch)}
    for noid in (True, False):
        p = hooked(user(ctx, ops, clients=(1, 2), vals=plainvals(ctx.rnd, 0, 1, 20, 300, 4000), depth=100, names=["x", "y", "default"],
                        props=[("maxsize", "0"), ("maxsize", "9000")]))
        ctx.walks("the library runs hooks" + ", no id" * noid, p, ctx.pick(8, 160), dict(o, noid=noid), change=turns(r))


MORE = {"h01": [h01stay, h01lib], "t01": [t01twice, t01cut], "t04": [t04cut], "t02": [t02bytes], "k04": [k04spots, k04removed], "k05": [k05spots, k05flush], "r02": [r02args]}

PROPS = {p.__name__.upper(): {"stages": [getattr(models, p.__name__, None)] * hasattr(models, p.__name__) + [p] + MORE.get(p.__name__, [])} for p in
         (k01, k02, k03, k04, k05, k06, k07, k08, k09, k10, k11, k12, k13, k14, l01, h01, n01, n02, n03, n04, n05, n06, a01, a02, a03, r02, r03, r04, t01, t02, t03, t04, t05, t06, t07)}

import lock, many, resp
for k in many.FILES:
    if k not in ("T01", "T04", "T05", "T07", "L01"):        # (these run tools besides)
        PROPS[k]["stages"].append(many.files)
for k in many.RECORDS:
    PROPS[k]["stages"].append(many.t01full if k == "T01" else many.records)
for k in ("N01", "N02", "A03"):
    PROPS[k]["stages"].append(many.namespaces)
for k in ("R02", "A03", "R03"):
    PROPS[k]["stages"].append(many.clients)
PROPS["R03"]["stages"].append(many.timeouts)
for k in many.LENGTHY:
    if k not in ("T01", "T04", "T05", "T07", "L01"):         # those need programs
        PROPS[k]["stages"].append(many.lengths)
for k in ("K01", "K03", "K06", "K08", "K09", "T02"):
    PROPS[k]["stages"].append(many.aligned)
PROPS["R01"] = {"stages": [resp.r01]}
PROPS["I01"] = {"stages": [lock.i01]}

TECHNIQUE = ("TLA+ specification: behaviours generated from it with TLC are executed by the real daemon, and TLC checks that "
             "every recorded run is a behaviour of the specification")
NOTE = ("holds on every recorded run explored; the runs are random walks of the specification, bounded in length and number")
