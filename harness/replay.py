"""check.py --replay FILE: what the code of today does with the script of a reported violation."""
import json, os, re, shutil, sys


def main(path):
    import check, props
    d = json.load(open(path))
    r = d.get("replay")
    if not isinstance(r, dict) or "script" not in r:
        print("no script in it (%s): run the check again with VERIF_SEED=%s" % (d.get("stage"), d.get("seed")))
        return 2
    ctx = check.Ctx(d["property"], "quick", d.get("seed") or 1)
    try:
        prof = type("P", (), {"cfg": r["cfg"], "bytes": {k: bytes.fromhex(v) for k, v in r["bytes"].items()}})()
        flags = props.ASAN if "ASAN_OPTIONS" in (r["opts"].get("env") or {}) else ""
        dirs = {os.path.dirname(x) for x in re.findall(r"/build[0-9]+/src/([^\"']*)", json.dumps(r["opts"]))} - {""}
        src = ctx.src(tuple(sorted(dirs | {"zdbd"})), flags)

        def new(x):
            """the same file, of a build of today"""
            if isinstance(x, (list, tuple)):
                return [new(y) for y in x]
            m = re.search(r"/build[0-9]+/src/(.*)$", x) if isinstance(x, str) else None
            return os.path.join(src, m.group(1)) if m else x

        o = {k: new(v) for k, v in r["opts"].items()}
        if "shim" in o:
            import fault
            o["shim"] = fault.shim(ctx.scratch)
        if "hook" in o:
            import hooks
            o["hook"] = hooks.build(ctx.scratch)
        if "lib" in o:
            import lib
            o["lib"] = lib.compile(src, flags)
        o.setdefault("binary", os.path.join(src, "zdbd", "zdb"))
        again = ctx.confirm(prof, r["script"], o)
        if again is None:
            print("property=%s: not rejected" % d["property"])
            return 0
        rej, trace = again
        t = json.loads(trace)
        for e in t["ev"][max(0, rej["i"] - 6):rej["i"]]:
            print(json.dumps(check.show(t, e))[:400])
        print("property=%s rejected again at event %s, allowed: %s" % (d["property"], rej["i"], json.dumps(rej["want"])[:600]))
        return 1
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)
