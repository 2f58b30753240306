"""P05 P06: the BLOCKMAP lump as engines read it.  usage: blockmap.py <property>"""
import _path, os, sys
from vv import check, build, tlc, bmcases

PROP = sys.argv[1]
MINE = {"P05": {"missing", "clear", "twice", "excluded", "nosuchline"},
        "P06": {"emptied", "short", "overlimit", "grid", "loosegrid", "origin", "offset", "unterminated", "header", "header0",
                "headermix", "headerlong", "waste", "uncompressed", "notbest"}}[PROP]
CFG = "SPECIFICATION Spec\nINVARIANTS Conforms\n"

def go():
    ck = check.Check(PROP, "model_checking", [
        "lines near a block border by less than 2 units on a diagonal are left to the rasteriser",
        "the harness's WAD and lump decoders (lib/vv/wad.py) are trusted"])
    b = build.binary()
    d = os.path.join(build.scratch(), "w")
    os.makedirs(d)
    rng = ck.rng
    def crash(info, what):
        ck.fail("%s:%s" % (PROP, what), "args %s: rc=%s\n%s" % (info["args"], info["rc"], info["log"][-500:]),
                {"in.wad": info["data"]}, dict(args=info["args"]))
    cases, infos = [], []
    n = ck.n(420, 3000) if PROP == "P05" else ck.n(260, 2000)
    m = ck.n(0, 6) if PROP == "P05" else ck.n(10, 60)
    for i in range(n + m):
        case, info = (bmcases.mapcase if i < n else bmcases.tinycase)(b, d, rng, str(i))
        if case is None:
            crash(info, "undecodable" if "undecodable" in info else "crash")
            continue
        cases.append(case)
        infos.append(info)
    def judge(module, cs, inf):
        for at in range(0, len(cs), 500):
            part = cs[at:at + 500]
            t = tlc.run(module, CFG, cases=part, timeout=ck.n(600, 3000))
            ck.tlc(t)
            for p in t.printed:
                cl = p[2][1]
                mine = [x for x in cl if x[0] in MINE]
                if mine:
                    q = part[p[1] - 1]
                    ck.fail("%s:%s" % (PROP, mine[0][0]), "args %s: %s" % (q["args"], mine[:8]),
                            {"in.wad": inf[at + p[1] - 1]["data"]}, dict(args=q["args"], clauses=cl))
    judge("Blockmap", cases, infos)
    ck.cov["traces_validated_against_impl"] = len(cases)
    ck.cov["lumps_with_subset_sharing"] = sum(1 for c in cases if c["opt"]["sub"] != "none")
    ck.cov["emptied"] = sum(1 for c in cases if not c["words"])
    for c in cases[:2]:
        ck.sample(dict(args=c["args"], lines=len(c["lines"]), words=len(c["words"]), grid=[c["ox"], c["oy"], c["w"], c["h"]]))
    if PROP == "P06":
        bc, bi = [], []
        for i in range(ck.n(30, 200)):
            case, info = bmcases.bestcase(b, d, rng, "b%d" % i)
            if info is None:
                continue
            if case is None:
                crash(info, "crash")
                continue
            bc.append(case)
            bi.append(info)
        judge("BlockmapBest", bc, bi)
        ck.cov["offset_searches"] = len(bc)
        ck.cov["traces_validated_against_impl"] += len(bc)
    return ck.finish()

check.main(go)
