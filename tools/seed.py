"""seed.py DEF...: makes seeded/<id>/ from definition files: python files with ID, PROP, NEEDS, BREAKS, EDITS = [(file, old, new)],
DEMO (python text using zd), and confirms it in /repo (built, stable tests passing, demo failing with it and passing without)."""
import json, os, shutil, subprocess, sys
R, V = "/repo", os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build():
    r = sh("bash /opt/vp/build.sh")
    return r.returncode == 0 or print(r.stdout[-1500:])


def tests():
    sh("bash /opt/vp/test.sh /tmp/seed.json")
    t, b = json.load(open("/tmp/seed.json")), json.load(open("/opt/vp/BASELINE.json"))
    st = b["stable"]
    st = st["passed"] if isinstance(st, dict) else st
    return [x for x in st if x not in set(t["passed"])]


for f in sys.argv[1:]:
    d = {}
    exec(open(f).read(), d)
    assert not sh("git -C /repo status --porcelain --untracked-files=no").stdout.strip(), "repo not clean"
    ok = True
    try:
        for path, old, new in d["EDITS"]:
            t = open(R + "/" + path).read()
            assert t.count(old) == 1, (path, old, t.count(old))
            open(R + "/" + path, "w").write(t.replace(old, new))
        out = V + "/seeded/" + d["ID"]
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        open(out + "/demo.sh", "w").write('#!/bin/bash\n# exit 0: the property holds\nexec python3 "$(dirname "$0")/demo.py"\n')
        open(out + "/demo.py", "w").write(d["DEMO"].lstrip("\n"))
        shutil.copy(V + "/tools/zd.py", out + "/zd.py")
        json.dump({"property": d["PROP"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
        if not build():
            ok = print(d["ID"], "does not build")
        bad = tests() if ok else []
        if bad:
            ok = print(d["ID"], "tests fail:", bad[:6])
        r = sh("timeout 200 bash %s/demo.sh" % out, cwd=R)
        print(d["ID"], "demo with the patch:", r.returncode, r.stdout.strip()[-200:])
        if r.returncode == 0:
            ok = False
    finally:
        sh("git -C /repo checkout -- .")
    build()
    for i in range(2):
        r = sh("timeout 200 bash %s/demo.sh" % out, cwd=R)
        if r.returncode:
            print(d["ID"], "demo without the patch:", r.returncode, r.stdout.strip()[-300:])
            ok = False
    print(d["ID"], "OK" if ok else "REJECTED", flush=True)
