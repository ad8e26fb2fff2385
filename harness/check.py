#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]     decide a property on the current tree of /repo
   check.py --replay FILE                 run a reported violation again"""
import collections, json, os, random, shutil, signal, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import driver, runner, tlc, zdb
from zdb import HarnessError

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, "evidence")


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.begin = time.time()
        self.scratch = zdb.scratch_root()
        self.rnd = random.Random("%s/%d" % (prop, seed))
        self.states = self.transitions = self.traces = self.events = 0
        self.models, self.stages, self.samples = [], [], []
        self.ops = collections.Counter()
        self.replies = collections.Counter()
        self.shapes = set()
        self.violations = []
        self.extra = {}
        self._src = {}

    # -- the code under test
    def src(self, what=("zdbd",), cflags="", patch=()):
        k = (tuple(what), cflags, tuple(patch))
        if k not in self._src:
            self._src[k] = zdb.build(os.path.join(self.scratch, "build%d" % len(self._src)), what, cflags, patch)
        return self._src[k]

    @property
    def zdb(self):
        return os.path.join(self.src(), "zdbd", "zdb")

    def spent(self):
        return time.time() - self.begin

    def enough(self):
        """violations were found, no need to look for more of them"""
        return len(self.violations) >= 5 or bool(self.violations) and (self.quick and self.spent() > 240)

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    # -- the specification alone
    def model(self, name, module, cfg, env=None, files=None, **kw):
        """model check; a violated invariant is a fault of the specification"""
        t = time.time()
        rc, out = tlc.run(module + ".tla", cfg, self.scratch, env=env, extra_spec=files or (), **kw)
        n = tlc.counts(out)
        if n is None or rc != 0 or "Error:" in out:
            raise HarnessError("model checking of %s (%s) failed:\n%s" % (module, name, out[out.find("Error:") - 500:][:6000]))
        self.states += n[1]
        self.transitions += n[0]
        self.models.append({"model": name, "module": module, "states": n[1], "transitions": n[0],
                            "wall_s": round(time.time() - t, 1)})
        return out

    # -- the specification against the code
    def walks(self, name, prof, num, opts=None, procs=8, change=None):
        """random walks of the specification, executed by the daemon, judged by the specification"""
        if self.enough():
            return
        prof.cfg["isz"] = runner.index_entry_size((opts or {}).get("binary", self.zdb), self.scratch)
        t0 = time.time()
        scripts = tlc.generate(prof.json(), num, self.rnd.randrange(1, 1 << 20), self.scratch)
        if change:
            scripts = [change(s) for s in scripts]
        self.scripts(name, prof, scripts, opts, procs, gen=time.time() - t0)

    def scripts(self, name, prof, scripts, opts=None, procs=8, gen=0.0):
        """given scripts, executed by the daemon, judged by the specification"""
        prof.cfg["isz"] = runner.index_entry_size((opts or {}).get("binary", self.zdb), self.scratch)
        t1 = time.time()
        traces = runner.execute(self.zdb, self.scratch, prof, scripts, opts, procs)
        t2 = time.time()
        rej = self.judge(name, traces)
        for r in rej:
            if self.enough():
                break
            i = r["t"] - 1
            again = self.confirm(prof, scripts[i], opts)
            self.report(name, r, traces[i], again,
                        {"cfg": prof.cfg, "bytes": {k: v.hex() for k, v in prof.bytes.items()},
                         "script": scripts[i], "opts": opts or {}})
        self.stages.append({"stage": name, "scripts": len(scripts), "events": sum(x.n for x in traces),
                            "generate_s": round(gen, 1), "execute_s": round(t2 - t1, 1),
                            "validate_s": round(time.time() - t2, 1), "rejected": len(rej)})

    def findings(self, name, prof, labelled, opts=None):
        """given scripts; a rejection of a script which known_findings.txt lists is told, the others are violations"""
        prof.cfg["isz"] = runner.index_entry_size((opts or {}).get("binary", self.zdb), self.scratch)
        t1 = time.time()
        scripts = [s for _, s in labelled]
        traces = runner.execute(self.zdb, self.scratch, prof, scripts, opts)
        rej = self.judge(name, traces)
        listed, told = known(self.prop), set()
        for r in rej:
            if self.enough():
                break
            i = r["t"] - 1
            b = brief(r)
            label = "%s: %s" % (labelled[i][0], b["a"][0] if b.get("a") else b["k"])
            if label in listed:
                if label not in told:
                    told.add(label)
                    print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, label, listed[label]), flush=True)
                continue
            self.report(name, r, traces[i], self.confirm(prof, scripts[i], opts),
                        {"cfg": prof.cfg, "bytes": {k: v.hex() for k, v in prof.bytes.items()},
                         "script": scripts[i], "opts": opts or {}, "label": label})
        if told:
            self.extra["known_findings"] = sorted(set(self.extra.get("known_findings", [])) | told)
        self.stages.append({"stage": name, "scripts": len(scripts), "events": sum(x.n for x in traces),
                            "execute_and_validate_s": round(time.time() - t1, 1), "rejected": len(rej)})

    def traced(self, name, jobs, procs=8, module="ZdbTrace"):
        """jobs: (function, args): each makes a trace with the real code; judged by the specification.
        A function returns a driver.Trace (or what has dump() and ev)"""
        if self.enough():
            return
        t1 = time.time()
        traces = runner.call(jobs, procs)
        t2 = time.time()
        rej = self.judge(name, traces, module)
        for r in rej:
            if self.enough():
                break
            i = r["t"] - 1
            again = None
            for _ in range(3):
                tr = runner.call([jobs[i]], 1)
                rr, _, _ = tlc.validate(tr, self.scratch, module, workers=2)
                if rr:
                    again = (rr[0], tr[0])
                    break
            self.report(name, r, traces[i], again, {"job": repr(jobs[i][1:])[:2000]})
        self.stages.append({"stage": name, "scripts": len(jobs), "events": sum(x.n for x in traces),
                            "execute_s": round(t2 - t1, 1), "validate_s": round(time.time() - t2, 1),
                            "rejected": len(rej)})

    def judge(self, name, traces, module="ZdbTrace"):
        rej, st, tr = tlc.validate(traces, self.scratch, module)
        self.states += st
        self.transitions += tr
        self.traces += len(traces)
        for x in traces:
            self.measure(x)
        if traces and len(self.samples) < 6:
            d = json.loads(traces[self.rnd.randrange(len(traces))])
            self.samples.append({"stage": name, "trace": [show(d, e) for e in d["ev"][:25]]})
        return rej

    def measure(self, text):
        d = json.loads(text)
        self.events += len(d["ev"])
        for e in d["ev"]:
            if e["k"] == "cmd" and e["a"]:
                op = driver.Run.opname(d["args"][e["a"][0] - 1]["up"].encode("latin-1")) or "unknown"
                self.ops[op] += 1
                self.replies[op + ":" + e["r"]["t"]] += 1
                self.shapes.add((op, len(e["a"]), e["r"]["t"]))
            else:
                self.ops["(%s)" % e["k"]] += 1
                r = e.get("r", "")
                self.shapes.add((e["k"], 0, r.get("t", "") if isinstance(r, dict) else r))

    def confirm(self, prof, script, opts):
        """a rejection counts when the same script is rejected again"""
        for _ in range(3):
            tr = runner.execute(self.zdb, self.scratch, prof, [script], opts, 1)
            rej, _, _ = tlc.validate(tr, self.scratch, workers=2)
            if rej:
                return rej[0], tr[0]
        return None

    def report(self, name, rej, trace, again, replay):
        if again is None:
            self.extra.setdefault("unconfirmed", []).append({"stage": name, "event": brief(rej)})
            return
        if len(self.violations) >= 5:
            return
        rej, trace = again
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        p = os.path.join(EVID, "replay", "%s-%d.json" % (self.prop, len(self.violations)))
        d = json.loads(trace)
        with open(p, "w") as f:
            json.dump({"property": self.prop, "stage": name, "seed": self.seed, "rejected_event": rej["i"],
                       "event": brief(rej), "wanted": rej["want"],
                       "before": [show(d, e) for e in d["ev"][max(0, rej["i"] - 30):rej["i"]]],
                       "replay": replay, "trace": d}, f, indent=1)
        self.violations.append({"stage": name, "event": short(brief(rej), 40), "replay": p})
        print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)

    def violation(self, name, what, detail):
        """a violation which is not a rejected trace"""
        if len(self.violations) >= 5:
            return
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        p = os.path.join(EVID, "replay", "%s-%d.json" % (self.prop, len(self.violations)))
        with open(p, "w") as f:
            json.dump({"property": self.prop, "stage": name, "what": what, "detail": detail}, f, indent=1)
        self.violations.append({"stage": name, "event": what, "replay": p})
        print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)

    def evidence(self):
        os.makedirs(EVID, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples,
               "events_executed": self.events, "distinct_event_shapes": len(self.shapes),
               "commands": dict(sorted(self.ops.items())), "replies": dict(sorted(self.replies.items())),
               "models": self.models, "stages": self.stages}
        cov.update(self.extra)
        import props
        d = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
             "coverage": cov, "wall_s": round(self.spent(), 1),
             "assumptions": props.ASSUMPTIONS + props.PROPS[self.prop].get("assumptions", []),
             "violations": self.violations}
        tmp = os.path.join(EVID, self.prop + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(d, f, indent=1)
        os.replace(tmp, os.path.join(EVID, self.prop + ".json"))


def short(x, n=12):
    """the beginning of long lists (the whole evidence stays far below 1 MB)"""
    if isinstance(x, dict):
        return {k: short(v, n) for k, v in list(x.items())[:40]}
    if isinstance(x, list):
        return [short(v, n) for v in x[:n]] + ["and %d more" % (len(x) - n)] * (len(x) > n)
    return x[:200] if isinstance(x, str) else x


def show(d, e):
    x = {k: v for k, v in e.items() if k not in ("t0", "t1", "m0", "m1", "pm")}
    if "a" in x:
        x["a"] = [d["args"][n - 1]["t"] for n in x["a"]]
    return short(x)


def known(prop):
    """label -> what fails, of the findings of a property which are not repaired"""
    r = {}
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for l in f:
            if l.startswith("finding: property=%s " % prop):
                label, what = l.split(" ", 2)[2].split(" | ", 1)
                r[label.strip()] = what.strip()
    return r


def brief(rej):
    e = dict(rej["e"])
    if "a" in e:
        e["a"] = [x["t"] for x in e["a"]]
    return e


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        import replay
        return replay.main(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import props
    ctx = Ctx(prop, tier, seed)
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    try:
        for stage in props.PROPS[prop]["stages"]:
            try:
                stage(ctx)
            except zdb.BuildError:
                raise
            if ctx.violations and ctx.quick:
                break
        ctx.evidence()
    except Exception:
        if ctx.violations:          # what was found stands
            ctx.evidence()
            traceback.print_exc()
        else:
            traceback.print_exc()
            return 2
    finally:
        if not os.environ.get("ZDB_KEEP"):
            shutil.rmtree(ctx.scratch, ignore_errors=True)
    print("%s %s: %s, %d states, %d traces (%d events) in %.1f s" % (
        prop, tier, "VIOLATED" if ctx.violations else "held", ctx.states, ctx.traces, ctx.events, ctx.spent()))
    return 1 if ctx.violations else 0


if __name__ == "__main__":
    sys.exit(main())
