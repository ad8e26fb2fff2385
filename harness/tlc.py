"""Runs TLC on the modules of /verif/spec."""
import json, os, re, shutil, subprocess, tempfile
from zdb import HarnessError

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
JAR = ":".join(["/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"])


def run(module, cfg, work, env=None, args=(), workers=8, heap="6g", timeout=850, extra_spec=(), jvm=()):
    """run TLC in a scratch copy of the specification; returns its output"""
    d = tempfile.mkdtemp(prefix="tlc.", dir=work)
    for f in os.listdir(SPEC):
        if f.endswith((".tla", ".cfg")):
            shutil.copy(os.path.join(SPEC, f), d)
    for name, text in extra_spec:
        with open(os.path.join(d, name), "w") as f:
            f.write(text)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = ["java", "-XX:+Use%sGC" % ("Parallel" if workers > 1 else "Serial"), *jvm, "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + d, "-cp", JAR, "tlc2.TLC",
           "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE",
           "-workers", str(workers), "-config", cfg] + list(args) + [module]
    p = subprocess.run(cmd, cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout)
    out = p.stdout.decode("utf-8", "replace")
    shutil.rmtree(d, ignore_errors=True)
    return p.returncode, out


_num = re.compile(r"^(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", re.M)


def counts(out):
    m = _num.findall(out)
    if not m:
        return None
    return tuple(int(x.replace(",", "")) for x in m[-1])


def printed(out, tag):
    """JSON values printed with PrintT(tag \\o ToJson(..))"""
    r = []
    for l in out.split("\n"):
        l = l.strip()
        if l.startswith('"' + tag + " "):
            r.append(json.loads(json.loads(l)[len(tag) + 1:]))
    return r


def generate(profile, num, seed, work, procs=8, module="ZdbGen"):
    """scripts: random walks of the specification under a profile"""
    from concurrent.futures import ThreadPoolExecutor
    fd, pf = tempfile.mkstemp(prefix="profile.", dir=work)
    with os.fdopen(fd, "w") as f:
        json.dump(profile, f)

    # the workers of one TLC would all make the same random choices
    def one(i):
        n = num // procs + (1 if i < num % procs else 0)
        if n == 0:
            return []
        rc, out = run(module + ".tla", module + ".cfg", work, env={"ZDB_PROFILE": pf}, workers=1, heap="1500m",
                      args=["-simulate", "num=%d" % n, "-depth", str(profile["depth"] + 60),
                            "-seed", str(seed * 1000 + i + 1)], jvm=("-XX:TieredStopAtLevel=1",))
        s = printed(out, "SCRIPT")
        if len(s) < n or "Error:" in out:
            raise HarnessError("generator failed:\n" + out[-3000:])
        return s
    with ThreadPoolExecutor(procs) as ex:
        r = [s for l in ex.map(one, range(procs)) for s in l]
    os.unlink(pf)
    return r


def validate(lines, work, module="ZdbTrace", workers=8, heap="12g", timeout=850):
    """check recorded traces; returns (rejects, states, transitions).
    lines: one JSON document per trace with its events in ["ev"]"""
    if not lines:
        return [], 0, 0
    fd, tf = tempfile.mkstemp(prefix="traces.", suffix=".ndjson", dir=work)
    with os.fdopen(fd, "w") as f:
        for l in lines:
            f.write(l)
            f.write("\n")
    rc, out = run(module + ".tla", module + ".cfg", work, env={"ZDB_TRACES": tf}, workers=workers,
                  heap=heap, timeout=timeout)
    os.unlink(tf)
    rej = printed(out, "REJECT")
    n = counts(out)
    if n is None or "Error:" in out:
        raise HarnessError("trace validation failed:\n" + out[-6000:])
    # nothing may be left out: every trace is followed to its end or to its rejection
    want = 0
    bad = {r["t"]: r["i"] for r in rej}
    for i, l in enumerate(lines, 1):
        k = len(json.loads(l)["ev"]) if not isinstance(l, Counted) else l.n
        want += (bad[i] - 1 + 2) if i in bad else k + 1
    if n[1] != want:
        raise HarnessError("trace validation visited %d states instead of %d\n%s" % (n[1], want, out[-2000:]))
    return rej, n[1], n[0]


class Counted(str):
    """a serialized trace with its number of events"""
    n = 0
