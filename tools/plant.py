#!/usr/bin/env python3
"""Plant a bug: make a scratch copy of /repo, edit it, confirm that it builds, passes the stable tests and that the
demonstration tells it from the original, and keep it under seeded/<id>.  Then say which checks notice.
 usage: plant.py FILE.py [check-property ...]     FILE.py defines ID, PROP, EDITS, DEMO, NEEDS, BREAKS
        plant.py --again ID [check-property ...]  only re-run demo and checks of an existing one"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMOLIB = os.path.join(V, "tools", "demolib.py")

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def demo(d, wt):
    t = tempfile.mkdtemp(prefix="demo-")
    for f in os.listdir(d):
        if not f.endswith((".diff", ".json")):
            shutil.copy(os.path.join(d, f), t)
    try:
        r = sh("bash %s/demo.sh" % t, cwd=wt, timeout=300)
        return r.returncode, (r.stdout + r.stderr)[-400:]
    finally:
        shutil.rmtree(t)

def main():
    args = sys.argv[1:]
    again = args[0] == "--again"
    if again:
        ID = args[1]
        d = os.path.join(V, "seeded", ID)
        PROP = json.load(open(d + "/meta.json"))["property"]
        props = args[2:] or [PROP]
    else:
        g = {}
        exec(open(args[0]).read(), g)
        ID, PROP = g["ID"], g["PROP"]
        props = args[1:] or [PROP]
        d = os.path.join(V, "seeded", ID)
    wt = "/tmp/wt-" + ID
    shutil.rmtree(wt, ignore_errors=True)
    shutil.copytree("/repo", wt, symlinks=True)
    sh("git checkout -q -- .", cwd=wt)
    if not again:
        for f, old, new in g["EDITS"]:
            p = os.path.join(wt, f)
            s = open(p).read()
            if s.count(old) != 1:
                print("edit matches", s.count(old), "times:", old)
                return 1
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", cwd=wt).stdout
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
        open(d + "/demo.py", "w").write(open(DEMOLIB).read() + "\n" + g["DEMO"])
        json.dump(dict(property=PROP, needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
    else:
        r = sh("git apply %s/patch.diff" % d, cwd=wt)
        if r.returncode:
            print("does not apply", r.stderr)
            return 1
    ok = True
    env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")
    r = sh("go build -buildvcs=false -o /tmp/wt-%s.bin ." % ID, cwd=wt, env=env)
    if r.returncode:
        print("BUILD FAILS", r.stderr)
        return 1
    sh("rm -f /tmp/wt-%s.bin" % ID)
    r = sh("go test -json -vet=off -count=1 ./...", cwd=wt, env=env)
    base = json.load(open("/opt/vp/BASELINE.json"))
    failed = [json.loads(l) for l in r.stdout.splitlines() if '"Action":"fail"' in l and '"Test"' in l]
    if failed:
        print("TESTS FAIL", [f["Test"] for f in failed])
        ok = False
    a, b = demo(d, "/repo"), demo(d, wt)
    print("demo: unchanged", a[0], "planted", b[0], "" if a[0] == 0 and b[0] != 0 else "BAD %s %s" % (a[1], b[1]))
    if a[0] != 0 or b[0] == 0:
        ok = False
    M = {c["property"]: c["quick_cmd"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
    for p in props:
        if p not in M:
            print(p, "no check")
            continue
        e = dict(os.environ, VV_REPO=wt, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
        r = sh(M[p], cwd=V, env=e)
        lines = [l for l in r.stdout.splitlines() if "--" in l or l.startswith("VIOL")]
        print("check", p, "rc", r.returncode, "CAUGHT" if r.returncode == 1 and "VIOLATION property=" + p in r.stdout else "MISSED",
              (lines[0][:200] if lines else r.stderr[-300:]))
    shutil.rmtree(wt, ignore_errors=True)
    print(ID, "ok" if ok else "NOT VALID")
    return 0 if ok else 1

sys.exit(main())
