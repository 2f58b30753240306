"""Build the program under test from /repo's current working tree into a scratch directory."""
import os, subprocess, sys, tempfile, atexit, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VV_REPO", "/repo")
_scratch = None

def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vv-")
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch

def goenv():
    e = dict(os.environ)
    e.update(HOME=os.environ.get("HOME", "/root"), GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off",
             GOFLAGS="-mod=mod", GOWORK="off", CGO_ENABLED="0")
    cache = os.path.join(VERIF, ".cache", "gocache")
    try:
        os.makedirs(cache, exist_ok=True)
    except OSError:
        cache = os.path.join(scratch(), "gocache")
    e["GOCACHE"] = cache
    return e

_bins = {}
def binary(tags=(), race=False, pkg="."):
    key = (tuple(tags), race, pkg)
    if key in _bins:
        return _bins[key]
    out = os.path.join(scratch(), "vbsp" + "-".join(("",) + tuple(tags)) + ("-race" if race else ""))
    cmd = ["go", "build", "-buildvcs=false", "-o", out]
    if tags:
        cmd += ["-tags", ",".join(tags)]
    env = goenv()
    if race:
        cmd += ["-race"]
        env["CGO_ENABLED"] = "1"
    r = subprocess.run(cmd + [pkg], cwd=REPO, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout + r.stderr)
        raise SystemExit(2)
    _bins[key] = out
    return out
