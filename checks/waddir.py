"""P01 P02 P03: directory scanner and container layout.  usage: waddir.py <property>"""
import _path, os, sys, shutil, json
from vv import check, build, tlc, dircases, wad

PROP = sys.argv[1]
CLAUSES = {
    "P01": {"status", "entries", "kind", "content", "name"},
    "P02": {"status", "entries", "name", "content", "notempty", "zeroreject"},
    "P03": None,
}
DESIGN_CFG = """
SPECIFICATION Spec
CONSTANTS
 Order <- MCOrder
 Must <- MCMust
 Create <- MCCreate
 Alphabet <- MCAlphabet
 MarkerNames <- MCMarkers
 MaxLen = %d
 Opts <- MCOpts
INVARIANTS OrderKept NothingLost CopiedOnce Canonical EjectOnlyLevels IdentityWhenNothingSelected
"""
TRACE_CFG = """
SPECIFICATION TSpec
CONSTANTS
 Order <- RealOrder
 Must <- RealMust
 Create <- RealCreate
 Alphabet = {}
 MarkerNames = {}
 MaxLen = 0
 Opts = {}
INVARIANTS Conforms TraceDesign
"""
CONT_CFG = """
SPECIFICATION Spec
INVARIANTS Conforms
"""

def go():
    ck = check.Check(PROP, "model_checking", [
        "the archive reader/writer of the harness (lib/vv/wad.py) is trusted",
        "input archives have in-bounds lumps and distinct level names"])
    # 1. the design, exhaustively
    if PROP in ("P01", "P02"):
        t = tlc.run("WadDirMC", DESIGN_CFG % ck.n(5, 6), cont=False)
        ck.tlc(t)
        if t.violated:
            raise RuntimeError("the design violates its own invariant: %s\n%s" % (t.violated, t.out[-2000:]))
    # 2. the real program
    b = build.binary()
    d = os.path.join(build.scratch(), "w")
    os.makedirs(d)
    rng = ck.rng
    n = ck.n(500, 4000)
    cases, conts, blobs = [], [], {}
    for i in range(n):
        mode = rng.choice([None, None, "reject"]) if PROP != "P03" else rng.choice([None, "reject", "reject"])
        lumps, marks = dircases.archive(rng, mode)
        o, args = dircases.options(rng, marks, mode)
        case, cont, r, data = dircases.observe(b, d, rng, lumps, o, args, str(i))
        cases.append(case)
        blobs[len(cases)] = (data, args, r)
        if cont:
            for e in cont["ents"]:
                e["z"] = False
            if o["reject"] == "zero":
                mark_zero(case, cont)
            conts.append((len(cases), cont))
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
    bad = {}
    if PROP == "P03":
        t = tlc.run("Container", CONT_CFG, cases=[c for _, c in conts])
        ck.tlc(t)
        for p in t.printed:
            bad[conts[p[1] - 1][0]] = p[2][1]
        ck.cov["traces_validated_against_impl"] = len(conts)
        for i, c in enumerate(cases):
            if c["status"] not in ("ok", "refused"):
                bad.setdefault(i + 1, [("status", c["status"])])
        if conts:
            ck.sample(conts[0][1])
    else:
        t = tlc.run("WadDirMCTrace", TRACE_CFG, cases=cases)
        ck.tlc(t)
        for p in t.printed:
            if p[0] == "VV-BAD":
                bad[p[1]] = p[2][1]
        if "TraceDesign" in t.violated:
            raise RuntimeError("design invariant violated on a recorded input\n" + t.out[-2000:])
        ck.cov["traces_validated_against_impl"] = len(cases)
        ck.cov["rebuilt_runs"] = sum(1 for c in cases if c["status"] == "ok")
        ck.cov["runs_with_duplicates"] = sum(1 for c in cases if len(set(c["inp"])) < len(c["inp"]))
        ck.sample(dict(args=cases[0]["args"], inp=cases[0]["inp"], out=[e["n"] for e in cases[0]["out"]]))
    for i in sorted(bad):
        cl = bad[i]
        keep = CLAUSES[PROP]
        mine = [x for x in cl if keep is None or x[0] in keep]
        if not mine:
            continue
        data, args, r = blobs[i]
        ck.fail("%s:%s" % (PROP, mine[0][0]), "args %s: %s rc=%s\n in=%s\nout=%s\n%s" % (
            args, mine[:6], r.rc, cases[i - 1]["inp"], [e["n"] for e in cases[i - 1]["out"]], r.out[-300:] if cases[i-1]["status"] != "ok" else ""),
            {"in.wad": data}, dict(args=args, clauses=cl))
    return ck.finish()

def mark_zero(case, cont):
    """the REJECT of each rebuilt level, as located by the marker being selected and the table being produced"""
    o = case["opt"]
    cur = None
    for e, oe in zip(cont["ents"], case["out"]):
        nm = e["n"]
        if nm not in dircases.ORDER:
            cur = nm if is_marker(nm) else None
            continue
        if nm == "REJECT" and cur and sel(o, cur) and level_complete(case, cur):
            e["z"] = True

import re
def is_marker(n):
    return bool(re.match(r"^(MAP\d\d|E[1-9]M\d\d?)$", n))
def sel(o, n):
    return o["filter"] == "all" or (o["filter"] == "only") == (n in o["maps"])
def level_complete(case, m):
    i = case["inp"].index(m) + 1
    have = set()
    while i < len(case["inp"]) and case["inp"][i] in dircases.ORDER:
        have.add(case["inp"][i])
        i += 1
    return all(x in have for x in dircases.MUST)

check.main(go)
