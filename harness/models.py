"""The bounded models of the properties."""
import fault
from mc import Bounded, cover, OBSERVE_USER, OBSERVE_SEQ

NEW = ["!conn 1", "NSNEW x", "SELECT x"]
SEQNEW = ["!conn 1", "NSNEW x", "NSSET x mode seq", "SELECT x"]


def run(ctx, b, sample, obs=None, every=1, **kw):
    return cover(ctx, b, ctx.pick(sample, sample * 12), obs, every, **kw)


def core(ctx, moves_user, moves_seq, du, ds, sample=120, extra=0):
    """one namespace of either mode"""
    d = ctx.pick(0, 1) + extra
    if moves_user:
        run(ctx, Bounded("bounded histories, user mode", moves_user, NEW, depth=du + d), sample, ("x", OBSERVE_USER), every=ctx.pick(4, 20))
    if moves_seq:
        run(ctx, Bounded("bounded histories, sequential mode", moves_seq, SEQNEW, depth=ds + d), sample, ("x", OBSERVE_SEQ),
            every=ctx.pick(4, 20))


U = ["SET a v", "SET a ww", "SET b v", "DEL a", "DEL b"]
S = ["SET '' v", "SET #0 ww", "SET #0 v", "SET #1 ww", "SET #2 v", "DEL #0", "DEL #1"]


def k01(ctx):
    core(ctx, U + ["SET a ''", "SET '' v", "GET a", "EXISTS b", "LENGTH a", "MGET b a", "NSJUMP", "RELOAD x"], None, 5, 0)


def k02(ctx):
    core(ctx, None, S + ["SET #1 v", "SET a v", "DEL #3", "GET #1", "EXISTS #2", "NSJUMP", "RELOAD x"], 0, 6)


def k03(ctx):
    core(ctx, U + ["NSJUMP", "RELOAD x"], S + ["NSJUMP", "RELOAD x"], 5, 6, sample=70)


def interrupted(ctx, kind, arm):
    so = fault.shim(ctx.scratch)

    def change(script):
        out = []
        for e in script:
            if isinstance(e.get("arm"), str):
                e = dict(e, arm=arm(ctx.rnd))
            out.append(e)
        return out
    u = ["SET a v", "SET a ww", "SET b v", "DEL a", "NSJUMP"]
    q = ["SET '' v", "SET #0 ww", "SET #0 v", "DEL #0", "NSJUMP"]
    more = ["NSNEW y", "NSSET x maxsize 9", "NSSET x worm 1"]
    for mode, m, new, o in (("user", u, NEW, OBSERVE_USER), ("sequential", q, SEQNEW, OBSERVE_SEQ)):
        b = Bounded("bounded histories with a %s, %s mode" % (kind, mode), m + ["!%s %s" % (kind, x) for x in m + more], new,
                    depth=ctx.pick(3, 4), tlccfg="ZdbCrash.cfg")
        run(ctx, b, ctx.pick(80, 160), ("x", o + ["NSLIST", "SET a www", "SET '' www"] + o), every=ctx.pick(1, 3), opts={"shim": so}, change=change)


def k04(ctx):
    import props
    interrupted(ctx, "crash", props.crash_arm)


def k05(ctx):
    import props
    interrupted(ctx, "fault", props.fault_arm)


def k06(ctx):
    n = 100000
    z = {"B": n, "C": 262144, "D": 524260, "E": 524288}
    m = ["SET a B", "SET b C", "SET b D", "SET a E", "DEL a", "SET b v", "NSJUMP"]
    ms = ["SET '' B", "SET '' C", "SET #0 D", "SET #1 E", "DEL #0", "SET #1 v", "NSJUMP"]
    for mode, mm in (("user", m), ("seq", ms)):
        b = Bounded("rotation by size, " + mode, mm, NEW if mode == "user" else SEQNEW, depth=ctx.pick(4, 6), sizes=z, cfg={"dsz": 524288})
        run(ctx, b, 60, ("x", ["NSINFO x"] + ["DATA RAW %d 28" % i for i in range(4)]), every=ctx.pick(4, 20))


def k07(ctx):
    core(ctx, U + ["NSJUMP", "INDEX DIRTY RESET", "INDEX DIRTY"], S[:2] + S[3:4] + S[5:] + ["NSJUMP", "INDEX DIRTY RESET", "INDEX DIRTY"], 6, 6)


def k08(ctx):
    core(ctx, U + ["NSJUMP", "SET c v"], S[:2] + S[3:4] + S[5:] + ["NSJUMP"], 5, 6)


def k09(ctx):
    core(ctx, ["SET a v", "SET a ww", "SET b v", "SET b ww", "DEL a", "NSJUMP"], S[:4] + S[5:] + ["NSJUMP"], 6, 6)


def k11(ctx):
    core(ctx, U + ["SET b ''", "NSJUMP", "DBSIZE"], S[:2] + S[3:4] + S[5:] + ["SET #0 ''", "DBSIZE"], 5, 6)


def k12(ctx):
    q = ["NSSET x maxsize 3", "NSSET x maxsize 2", "NSSET x maxsize 0"]
    core(ctx, ["SET a v", "SET a ww", "SET b v", "SET b ww", "SET c www", "DEL a", "DEL b"] + q,
         ["SET '' v", "SET '' ww", "SET #0 www", "SET #1 v", "SET #0 v", "DEL #0", "DEL #1"] + q, 5, 5)


def n01(ctx):
    b = Bounded("two clients, three namespaces",
                ["SET a v", "DEL a", "2:SET a ww", "2:SET '' v", "2:DEL a", "2:SET #0 ww", "SELECT x", "SELECT y", "2:SELECT x", "2:SELECT y", "2:SELECT default",
                 "NSNEW z", "NSDEL y", "NSDEL z", "RELOAD y", "NSJUMP"],
                ["!conn 1", "!conn 2", "NSNEW x", "NSNEW y", "NSSET y mode seq", "SELECT x", "2:SELECT y"], depth=ctx.pick(4, 5))
    run(ctx, b, 150, ("x", OBSERVE_USER + ["SELECT default", "MGET a b", "NSINFO default", "NSLIST"]), every=ctx.pick(4, 20))


def n02(ctx):
    b = Bounded("life cycle and settings",
                ["NSNEW x", "NSNEW y", "NSDEL x", "NSDEL y", "NSDEL default", "SELECT x", "SELECT default", "SET a v", "NSSET x maxsize 7", "NSSET x password secret",
                 "NSSET x public 0", "NSSET x worm 1", "NSSET default maxsize 9", "NSSET x mode seq", "NSLIST", "RELOAD x"],
                ["!conn 1"], depth=ctx.pick(4, 5))
    run(ctx, b, 150, ("default", ["NSLIST", "NSINFO x", "NSINFO y", "NSINFO default"]), every=ctx.pick(4, 20))


def n03(ctx):
    b = Bounded("flushing",
                ["SET a v", "SET a ww", "DEL a", "FLUSH", "2:FLUSH", "NSSET x password secret", "NSSET x password *", "NSSET x public 0", "NSSET x public 1", "NSSET x lock 1",
                 "NSSET x worm 1", "2:SELECT x", "2:SELECT x secret", "NSJUMP"],
                ["!conn 1", "!conn 2", "NSNEW x", "SELECT x", "NSSET x password secret", "2:SELECT x"], depth=ctx.pick(4, 5))
    run(ctx, b, 150, ("x", OBSERVE_USER, "secret"), every=ctx.pick(4, 20))


def n04(ctx):
    b = Bounded("restrictions",
                ["SET a v", "SET a ww", "DEL a", "2:GET a", "2:SET b v", "2:DEL b", "NSSET x lock 1", "NSSET x lock 0", "NSSET x freeze 1", "NSSET x freeze 0",
                 "NSSET x worm 1", "NSSET x worm 0", "RELOAD x", "NSJUMP"],
                ["!conn 1", "!conn 2", "NSNEW x", "SELECT x", "2:SELECT x"], depth=ctx.pick(4, 5))
    run(ctx, b, 150, ("x", OBSERVE_USER), every=ctx.pick(4, 20))


def n05(ctx):
    b = Bounded("modes",
                ["SET a v", "SET '' v", "SET #0 ww", "DEL a", "DEL #0", "NSSET x mode seq", "NSSET x mode user", "NSJUMP", "RELOAD x", "FLUSH", "GET #0", "!restart"],
                ["!conn 1", "NSNEW x", "NSSET x password p", "NSSET x public 0", "SELECT x p"], depth=ctx.pick(5, 6))
    run(ctx, b, 120, ("x", OBSERVE_USER + OBSERVE_SEQ, "p"), every=ctx.pick(8, 20))


def n06(ctx):
    cfgs = [dict(admin="pw", protect=True), dict(admin="pw"), dict(dmax=6), dict(mode="user"), dict(mode="seq"), dict(admin="qq", protect=True, dmax=3, mode="user"), {}]
    b = Bounded("other options", ["!reopt %d" % i for i in range(1, 8)] + ["SET a ww", "SET '' www", "DEL a", "NSNEW x", "NSSET x mode seq", "NSSET default mode seq",
                "NSSET default lock 1", "SELECT x", "AUTH pw", "SELECT default pw", "RELOAD default", "FLUSH"],
                ["!conn 1"], depth=ctx.pick(4, 5), cfgs=cfgs)
    run(ctx, b, 120, ("default", ["AUTH pw", "AUTH qq", "SELECT default pw", "NSINFO default", "NSINFO x", "MGET a #0", "SET c www", "SCAN*", "NSLIST"]), every=ctx.pick(8, 40))


def a01(ctx):
    b = Bounded("proving the admin password",
                ["AUTH pw", "AUTH bad", "AUTH SECURE CHALLENGE", "2:AUTH SECURE CHALLENGE", "AUTH SECURE =n1:pw", "AUTH SECURE =n1:bad", "2:AUTH SECURE =n1:pw",
                 "2:AUTH SECURE =n2:pw", "AUTH SECURE =n2:pw", "NSNEW x", "2:NSNEW y", "2:SET k v 77", "!close 2", "!conn 2"],
                ["!conn 1", "!conn 2"], cfg={"admin": "pw"}, depth=ctx.pick(4, 6))
    run(ctx, b, 200, ("default", ["NSLIST", "GET k"]), every=ctx.pick(8, 60))


def a02(ctx):
    b = Bounded("entering a namespace",
                ["SELECT x", "SELECT x pw", "SELECT x bad", "AUTH SECURE CHALLENGE", "2:AUTH SECURE CHALLENGE", "SELECT x SECURE =n1:pw", "SELECT x SECURE =n1:bad",
                 "2:SELECT x SECURE =n1:pw", "2:SELECT x SECURE =n2:pw", "SELECT x SECURE =n2:pw", "SET k v", "2:SET k ww", "3:NSSET x public 0", "3:NSSET x password *",
                 "2:SELECT x", "SELECT default"],
                ["!conn 1", "!conn 2", "!conn 3", "3:AUTH adm", "3:NSNEW x", "3:NSSET x password pw"], cfg={"admin": "adm"}, depth=ctx.pick(4, 5))
    run(ctx, b, 200, ("x", ["GET k", "SELECT default", "GET k"], "pw"), every=ctx.pick(8, 60))


def a03(ctx):
    b = Bounded("deleted namespaces",
                ["NSDEL x", "NSNEW x", "2:SET a v", "2:GET a", "2:SELECT x", "2:SELECT default", "2:PING", "3:SELECT x", "3:SET a ww", "3:GET a", "NSDEL y", "SELECT x", "!conn 2", "2:NSDEL x",
                 "2:AUTH SECURE CHALLENGE"],
                ["!conn 1", "!conn 2", "!conn 3", "NSNEW x", "NSNEW y", "2:SELECT x"], depth=ctx.pick(4, 6))
    run(ctx, b, 200, ("default", ["NSLIST", "GET a"]), every=ctx.pick(4, 60))


def r03(ctx):
    b = Bounded("waiting",
                ["2:WAIT SET", "2:WAIT *", "3:WAIT GET", "3:WAIT SET", "SET a v", "GET a", "!wcheck 2", "!wcheck 3", "SELECT x", "SELECT default", "2:SELECT x", "3:SET b v", "3:SELECT x"],
                ["!conn 1", "!conn 2", "!conn 3", "NSNEW x"], depth=ctx.pick(4, 6))
    run(ctx, b, 150, None, every=ctx.pick(4, 60))


def r04(ctx):
    b = Bounded("mirroring",
                ["2:MIRROR", "3:MIRROR", "SET a v", "DEL a", "GET a", "NOSUCH a", "NSDEL x", "SELECT x", "3:SET a ww", "2:SET b v", "!fcheck 2", "!fcheck 3"],
                ["!conn 1", "!conn 2", "!conn 3", "NSNEW x", "3:SELECT x"], depth=ctx.pick(4, 6))
    run(ctx, b, 150, None, every=ctx.pick(4, 60))


def t02(ctx):
    core(ctx, U + ["NSJUMP", "DATA RAW 0 28", "DATA RAW 0 48", "DATA RAW 1 28", "SET b ''"], S[:2] + S[3:4] + S[5:] + ["NSJUMP", "CHECK #0", "DATA RAW 0 55", "DATA RAW 1 28"], 5, 6)


def t01(ctx):
    import props
    b = Bounded("index made again from the data", ["SET a v", "SET a ww", "SET b v", "DEL a", "DEL b", "NSJUMP", "SET a ''", "SELECT x", "!rebuild x"], NEW, depth=ctx.pick(5, 6))
    run(ctx, b, 100, ("x", ["MGET a b", "EXISTS a", "LENGTH b", "CHECK a", "DBSIZE", "!live"]), every=ctx.pick(8, 40), tail=("!rebuild x",), opts=props.toolopts(ctx))
