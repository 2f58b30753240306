"""P10: node formats.  usage: format.py P10"""
import _path, os
from vv import check, build, tlc, mapgen, wad, bspcases as B, fmtcases as F

PROP = "P10"
CFG = "SPECIFICATION Spec\nINVARIANTS Conforms\n"

def go():
    ck = check.Check(PROP, "model_checking", [
        "the tree built for DeeP nodes is the reference for vanilla, the one for extended nodes for compressed; P07-P09 judge the trees themselves",
        "detail level of line intersections is pinned with --detailnodes, its default depends on the format by design"])
    b = build.binary()
    d = os.path.join(build.scratch(), "w")
    os.makedirs(d)
    rng = ck.rng
    cases, infos, sizes = [], [], []

    def one(lv, tag, fmts, opts, timeout=200):
        levels = []
        inp = None
        for f in fmts:
            args = ["-n" + opts["n"] + "c=" + f] + opts["rest"] + ["-b-", "-r-"]
            r, data, od = B.execute(b, d, tag, lv, args, timeout=timeout)
            inp = data
            def fail(what, text):
                ck.fail("%s:%s" % (PROP, what), "args %s: %s" % (args, text), {"in.wad": data}, dict(args=args))
            if r.rc != 0 or od is None:
                fail("hang" if r.timeout else "crash", "rc=%s\n%s" % (r.rc, r.out[-500:]))
                return
            try:
                L = wad.Wad(data=od).level("MAP01")
                wad.nodes_of(L)
            except (wad.DecodeError, wad.WadError) as e:
                fail("undecodable", str(e))
                return
            levels.append((f, L))
        c = F.case(levels)
        if c["views"][c["deep"] - 1]["fmt"] != "DEEP" or c["views"][c["ext"] - 1]["fmt"] != "XNOD":
            ck.fail(PROP + ":reference", "c=d gave %s, c=x gave %s" % (c["views"][c["deep"] - 1]["fmt"], c["views"][c["ext"] - 1]["fmt"]),
                    {"in.wad": inp}, dict(opts=opts))
            return
        c["opts"], c["fmts"] = opts, fmts
        cases.append(c)
        infos.append(inp)
        return c

    def options(small):
        n = ["a=%d" % rng.choice([0, 0, 1, 2, 3, 4] if small else [0])]
        if small and rng.random() < 0.3:
            n.append("p=%d" % rng.randint(0, 2))
        if small and rng.random() < 0.15:
            n.append("i=%d" % rng.randint(0, 2))
        if small and rng.random() < 0.2:
            n.append("m=%d" % rng.choice([1, 3]))
        if rng.random() < 0.4:
            n.append("t=%d" % rng.choice([1, 1, 2]))
        rng.shuffle(n)
        rest = ["-d", "--detailnodes=%d" % (rng.choice([1, 2, 3]) if small else rng.choice([1, 2]))]
        if rng.random() < 0.2: rest.append("--unreversenodes")
        if rng.random() < 0.2 and small: rest.append("--stknode")
        if rng.random() < 0.1 and small: rest.append("--sidecache=%d" % rng.choice([1, 2]))
        return dict(n="".join(n), rest=rest)

    for i in range(ck.n(130, 1500)):
        lv = mapgen.any_level(rng, p_inner=0.2)
        B.extras(rng, lv)
        fm = ["d", "x", "v"] + rng.sample(["V", "D", "X", "Z", "z"], 4) + ["z%d" % rng.randint(1, 9), "Z%d" % rng.randint(1, 9)]
        one(lv, "s", fm, options(True))
    nsmall = len(cases)

    # at the limits: leaves, segs (with a run of segs that may be moved last), vertices
    big = []
    lim = [("rows", 32767), ("rows", 32768), ("segs", 65535), ("segs", 65536), ("segs", 32767), ("segs", 32768), ("verts", 65536), ("verts", 65537)]
    if ck.thorough:
        for _ in range(40):
            k = rng.choice(["rows", "segs", "segs", "verts"])
            lim.append((k, {"rows": 32767, "segs": rng.choice([32767, 65535]), "verts": 65536}[k] + rng.choice([-40, -3, -1, 0, 1, 2, 3, 60, 500])))
    for what, t in lim:
        o = options(False)
        fm = ["d", "x", "v", "D", rng.choice(["X", "X", "Z"])]
        if what == "rows":
            lv = F.rows(t)
        elif what == "segs":
            nrow = rng.choice([20, 30, 50])
            run = rng.choice([1, 2, 7, 40])
            n = (t - 100) // 4 // nrow
            have = 4 * nrow * n - 4 + 2 * 0
            # cells of a row: n tops, n bottoms, 2 ends and 2 segs between neighbours = 4n; all but the longest leaf: 4*nrow*n - 4
            lv = F.strips(nrow, n, run, t - have)
        else:
            slant = rng.choice([40, 80])
            seed = rng.random()
            import random
            base = dict(nx=90, ny=90)
            lv = F.squares(90, 89, random.Random(seed), slant)
            # aim: count the vertices once, then add what is missing
            r, data, od = B.execute(b, d, "p", lv, ["-n" + o["n"] + "c=d"] + o["rest"] + ["-b-", "-r-"])
            try:
                nv = len(wad.nodes_of(wad.Wad(data=od).level("MAP01"))["verts"]) if od else 0
            except (wad.DecodeError, wad.WadError):
                nv = 0
            if nv and 3 <= t - nv <= 1500:
                lv = F.squares(90, 89, random.Random(seed), slant, extra=t - nv)
        c = one(lv, "b", fm, o)
        if c:
            dv = c["views"][c["deep"] - 1]
            sizes.append(dict(what=what, target=t, leaves=len(dv["ss"]), segs=len(dv["segs"]), longest=max(x[1] for x in dv["ss"]), verts=dv["nv"],
                              got={r["f"]: c["views"][r["view"] - 1]["fmt"] for r in c["reqs"]}))
    def judge(part, at):
        t = tlc.run("BspFmt", CFG, cases=part, timeout=ck.n(800, 3000), heap="12g")
        ck.tlc(t)
        for p in t.printed:
            q = part[p[1] - 1]
            cl = p[2][1]
            ck.fail("%s:%s" % (PROP, cl[0][0]), "options %s formats %s: %s" % (q["opts"], q["fmts"], cl[:5]), {"in.wad": infos[at + p[1] - 1]},
                    dict(opts=q["opts"], formats=q["fmts"], clauses=cl))
    step = 400
    for at in range(0, nsmall, step):
        judge(cases[at:min(at + step, nsmall)], at)
    for at in range(nsmall, len(cases), 8):
        judge(cases[at:at + 8], at)
    ck.cov["traces_validated_against_impl"] = sum(len(c["reqs"]) for c in cases)
    ck.cov["limit_maps"] = len(sizes)
    for s in sizes[:8]:
        ck.sample(s, 8)
    return ck.finish()

check.main(go)
