"""Run TLC on a module of /verif/spec and parse what it reports."""
import json, os, re, shutil, subprocess, sys, tempfile
from . import build

SPEC = os.path.join(build.VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class TlcError(Exception):
    pass

class Tlc:
    """generated/distinct state counts, and the tuples printed by the spec with PrintT(<<"VV...", ...>>)."""
    def __init__(self):
        self.generated = self.distinct = self.depth = 0
        self.printed = []
        self.violated = []
        self.out = ""
        self.actions = {}

def _tla_value(s):
    """parse a printed TLA+ value made of tuples, sets, strings, ints, booleans, records, functions"""
    pos = 0
    def ws():
        nonlocal pos
        while pos < len(s) and s[pos] in " \n\t\r":
            pos += 1
    def val():
        nonlocal pos
        ws()
        if s.startswith("<<", pos):
            pos += 2
            return tuple(items(">>"))
        if s[pos] == "{":
            pos += 1
            return ("set", items("}"))
        if s[pos] == "[":
            pos += 1
            d = {}
            ws()
            while s[pos] != "]":
                ws()
                m = re.compile(r"[A-Za-z_0-9]+").match(s, pos)
                k = m.group(0)
                pos = m.end()
                ws()
                assert s.startswith("|->", pos), s[pos:pos + 20]
                pos += 3
                d[k] = val()
                ws()
                if s[pos] == ",":
                    pos += 1
                ws()
            pos += 1
            return d
        if s[pos] == "(":
            pos += 1
            d = {}
            while True:
                k = val()
                ws()
                assert s.startswith(":>", pos)
                pos += 2
                d[k] = val()
                ws()
                if s.startswith("@@", pos):
                    pos += 2
                    continue
                assert s[pos] == ")"
                pos += 1
                return d
        if s[pos] == '"':
            j = pos + 1
            b = []
            while s[j] != '"':
                if s[j] == "\\":
                    j += 1
                b.append(s[j])
                j += 1
            pos = j + 1
            return "".join(b)
        m = re.compile(r"-?\d+|TRUE|FALSE|[A-Za-z_]\w*").match(s, pos)
        if not m:
            raise ValueError(s[pos:pos + 40])
        pos = m.end()
        t = m.group(0)
        if t == "TRUE": return True
        if t == "FALSE": return False
        try:
            return int(t)
        except ValueError:
            return t
    def items(close):
        nonlocal pos
        out = []
        ws()
        while not s.startswith(close, pos):
            out.append(val())
            ws()
            if s[pos] == ",":
                pos += 1
            ws()
        pos += len(close)
        return out
    v = val()
    return v, pos

parse_value = lambda s: _tla_value(s)[0]

def run(module, cfg, cases=None, env=None, workers=None, timeout=600, extra=(), cont=True, deadlock=False, heap="6g",
        coverage=False, modules_dir=None):
    """cfg: text of the configuration. cases: JSON-able value handed over as the file named by IOEnv.CASES."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=build.scratch())
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    if modules_dir:
        for f in os.listdir(modules_dir):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(modules_dir, f), d)
    with open(os.path.join(d, "run.cfg"), "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update(env)
    if cases is not None:
        p = os.path.join(d, "cases.json")
        with open(p, "w") as f:
            json.dump(cases, f)
        e["CASES"] = p
    workers = workers or min(8, os.cpu_count() or 2)
    cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d, "-cp", JAR, "tlc2.TLC", "-workers", str(workers),
           "-metadir", os.path.join(d, "meta"), "-config", "run.cfg", "-noGenerateSpecTE"]
    if cont:
        cmd.append("-continue")
    if not deadlock:
        cmd.append("-deadlock")
    if coverage:
        cmd += ["-coverage", "1"]
    cmd += list(extra) + [module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        raise TlcError("TLC ran out of time on " + module)
    t = Tlc()
    t.out = r.stdout + r.stderr
    t.rc = r.returncode
    m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", t.out)
    if m:
        t.generated, t.distinct = int(m[-1][0]), int(m[-1][1])
    m = re.findall(r"depth of the complete state graph search is (\d+)", t.out)
    if m:
        t.depth = int(m[-1])
    i = 0
    for m in re.finditer(r'^<<\s*"VV', t.out, re.M):
        v, _ = _tla_value(t.out[m.start():])
        t.printed.append(v)
    t.violated = re.findall(r"Error: Invariant (\w+) is violated", t.out) + \
        re.findall(r"Error: (?:Action|Temporal) propert(?:y|ies) (\w+)? ?(?:is|were) violated", t.out)
    nbad = sum(1 for v in t.printed if v[0] == "VV-BAD")
    if t.violated.count("Conforms") > nbad:
        raise TlcError("%s: %d violations but %d reports" % (module, t.violated.count("Conforms"), nbad))
    # 12 safety violation, 13 liveness violation, 11 deadlock, 0 ok
    if r.returncode not in (0, 10, 11, 12, 13):
        raise TlcError("TLC failed on %s (rc=%d)\n%s" % (module, r.returncode, t.out[-3000:]))
    if not t.generated and "-simulate" not in extra:
        raise TlcError("TLC explored nothing on %s\n%s" % (module, t.out[-3000:]))
    if coverage:
        for m in re.finditer(r"^<(\w+) line (\d+), .*?>: (\d+):(\d+)", t.out, re.M):
            t.actions[m.group(1)] = t.actions.get(m.group(1), 0) + int(m.group(4))
    shutil.rmtree(d, ignore_errors=True)
    return t
