"""P07 P08 P09: the node tree as engines use it.  usage: bsp.py <property>"""
import _path, os, sys
from vv import check, build, tlc, mapgen, wad, bspcases as B

PROP = sys.argv[1]
TREE = {"childrange", "revisited", "runrange"}
MINE = {"P07": TREE | {"unreached", "orphansegs", "sharedsegs", "emptyrun", "outsidebox", "wrongside", "nodirection"},
        "P08": {"novertex", "zerolength", "gap", "overlap", "backward", "offline", "unrendered", "unwanted", "angle", "segoffset",
                "moved", "linechanged", "reattached", "deadvertex", "linecount"},
        "P09": TREE | {"wrongsector", "behind", "mixedsectors", "wrongside"}}[PROP]
CFG = "SPECIFICATION Spec\nINVARIANTS Conforms\n"

def go():
    ck = check.Check(PROP, "model_checking", [
        "coordinates of split points are rounded to the format; the side tests allow the distance that rounding can move a point",
        "the harness's WAD and lump decoders (lib/vv/wad.py) are trusted"])
    b = build.binary()
    d = os.path.join(build.scratch(), "w")
    os.makedirs(d)
    rng = ck.rng
    cases, infos = [], []
    formats = {}
    n = ck.n(700, 6000)
    for i in range(n):
        big = rng.random() < 0.04
        lv = mapgen.any_level(rng, p_inner=0.2, **(dict(W=rng.randint(6, 11), H=rng.randint(6, 11), npts=30, R=1024, p_tri=0.3, nsec=12) if big else {}))
        ok = True
        if PROP != "P09":
            ok = B.extras(rng, lv)
        if rng.random() < 0.15:
            lv.hexen = True
        args, f, m = B.tree_args(rng)
        cull = PROP == "P08" and rng.random() < 0.25
        if cull:
            k = [j for j, a in enumerate(args) if a.startswith("-n")][0]
            args[k] = "-n" + rng.choice(["i=1", "i=2"]) + args[k][2:]
        args += ["-b-", "-r-"]
        pts = B.points(rng, lv, 40 if PROP == "P09" else 3) if ok else []
        r, data, od = B.execute(b, d, str(i), lv, args)
        def fail(what, text):
            ck.fail("%s:%s" % (PROP, what), "args %s: %s" % (args, text), {"in.wad": data}, dict(args=args))
        if r.rc != 0 or od is None:
            fail("hang" if r.timeout else "crash", "rc=%s\n%s" % (r.rc, r.out[-500:]))
            continue
        try:
            c = B.decode(wad.Wad(data=od).level("MAP01"), lv, pts, dict(cull=cull))
        except (wad.DecodeError, wad.WadError) as e:
            fail("undecodable", str(e))
            continue
        if c is None:
            fail("emptied", "no nodes written for a map of %d lines" % len(lv.lines))
            continue
        c["args"] = args
        formats[c["fmt"]] = formats.get(c["fmt"], 0) + 1
        cases.append(c)
        infos.append(data)
    for at in range(0, len(cases), 600):
        part = cases[at:at + 600]
        t = tlc.run("Bsp", CFG, cases=part, timeout=ck.n(700, 3000))
        ck.tlc(t)
        for p in t.printed:
            mine = [x for x in p[2][1] if x[0] in MINE]
            if mine:
                q = part[p[1] - 1]
                ck.fail("%s:%s" % (PROP, mine[0][0]), "args %s (%s): %s" % (q["args"], q["fmt"], mine[:6]),
                        {"in.wad": infos[at + p[1] - 1]}, dict(args=q["args"], clauses=p[2][1]))
    ck.cov["traces_validated_against_impl"] = len(cases)
    ck.cov["formats"] = formats
    ck.cov["nodes"] = sum(len(c["nodes"]) for c in cases)
    ck.cov["segs"] = sum(len(c["segs"]) for c in cases)
    ck.cov["points"] = sum(len(c["points"]) for c in cases)
    for c in cases[:2]:
        ck.sample(dict(args=c["args"], fmt=c["fmt"], nodes=len(c["nodes"]), segs=len(c["segs"]), points=c["points"][:3]))
    return ck.finish()

check.main(go)
