"""P15: special lines.  Scroll.tla decides which lines are kept as copies of scrolling walls; Bsp.tla and Blockmap.tla then
judge the rest of the output knowing which lines those are."""
import _path, os, sys
from vv import check, build, tlc, wad, bspcases as B, bmcases, spcases as S

PROP = "P15"
SEGS = {"novertex", "gap", "overlap", "backward", "offline", "unrendered", "unwanted", "angle", "segoffset", "moved",
        "linechanged", "reattached", "linecount", "childrange", "revisited", "runrange"}
BMAP = {"missing", "excluded", "nosuchline", "twice"}

def go():
    ck = check.Check(PROP, "model_checking", [
        "the rotation of tag 999 lines is taken from the sidedef's X offset (the manual's 'taken from tag' cannot be meant for tag 999)",
        "how the tag of a scrolling wall and a remote scroller on the same wall combine is left open"])
    b = build.binary()
    d = os.path.join(build.scratch(), "w")
    os.makedirs(d)
    rng = ck.rng
    runs = []
    n = ck.n(420, 4000)
    i = 0
    while len(runs) < n:
        lv = S.map_of(rng)
        for gen in range(rng.choice([1, 1, 2, 3])):
            i += 1
            mode = "off" if lv.hexen else rng.choice(["match", "match", "match", "match", "nodes", "blocks"])
            targs, f, m = B.tree_args(rng)
            bargs = [a for a in ["-bz=%d" % rng.choice([0, 1]) + rng.choice(["", "s", "o=1"])]]
            args = (targs if mode != "blocks" else ["-n-"]) + (bargs if mode != "nodes" else ["-b-"]) + ["-r-"]
            r, data, od = B.execute(b, d, str(i), lv, args)
            def fail(what, text):
                ck.fail("%s:%s" % (PROP, what), "args %s (generation %d): %s" % (args, gen, text), {"in.wad": data}, dict(args=args))
            if r.rc != 0 or od is None:
                fail("hang" if r.timeout else "crash", "rc=%s\n%s" % (r.rc, r.out[-500:]))
                break
            try:
                L = wad.Wad(data=od).level("MAP01")
                sc = S.scroll_case(L, lv, {"match": "match", "off": "off"}.get(mode, "keep"))
            except (wad.DecodeError, wad.WadError) as e:
                fail("undecodable", str(e))
                break
            runs.append(dict(lv=lv, mode=mode, args=args, data=data, L=L, sc=sc))
            nx = S.reread(L, lv) if mode in ("match", "off", "nodes") else None
            if nx is None:
                break
            lv = nx
            if not lv.hexen and rng.random() < 0.7:
                S.redress(rng, lv)
    t = tlc.run("Scroll", "SPECIFICATION Spec\n", cases=[r["sc"] for r in runs], timeout=600)
    ck.tlc(t)
    seen = set()
    bsp, bm = [], []
    for p in t.printed:
        k, marks, copies, bad = p[1] - 1, sorted(p[2][1]), set(p[3][1]), p[4][1]
        seen.add(k)
        r = runs[k]
        def fail(what, text):
            ck.fail("%s:%s" % (PROP, what), "args %s: %s" % (r["args"], text), {"in.wad": r["data"]}, dict(args=r["args"]))
        if bad:
            fail(bad[0][0], str(bad[:6]))
            continue
        lv, L = r["lv"], r["L"]
        out = r["sc"]["out"]
        # the line expected at each place of the output
        inl, at = [], 0
        for j, o in enumerate(out):
            if r["mode"] in ("match",):
                while at < len(lv.lines) and at + 1 in copies:
                    at += 1
                if j + 1 in marks:
                    inl.append(dict(v1=o["a"], v2=o["b"], flags=o["fl"], action=o["act"], tag=o["tag"], front=o["fs"], back=o["bs"], args=[]))
                    continue
            l = lv.lines[at]
            inl.append(dict(l, tag=o["tag"]) if at + 1 in copies else l)
            at += 1
        if r["mode"] != "blocks":
            try:
                c = B.decode(L, lv, [], dict(dummies=set(x - 1 for x in marks), inlines=inl))
            except (wad.DecodeError, wad.WadError) as e:
                fail("undecodable", str(e))
                continue
            if c is None:
                # everything may have been taken off the map
                drawn = 0
                for j, l in enumerate(inl):
                    if j + 1 in marks or l["tag"] == 998 or l["action"] == 1086:
                        continue
                    for sd, off in ((l["front"], 1085), (l["back"], 1084)):
                        drawn += sd < len(lv.sides) and l["action"] != off and lv.sides[sd]["lo"] != "BSPNOSEG"
                if drawn > 1:
                    fail("emptied", "no nodes written")
                continue
            c["args"] = r["args"]
            bsp.append((c, k))
        if r["mode"] != "nodes":
            try:
                c = bmcases.decode(L, lv, lv.hexen)
            except (wad.DecodeError, wad.WadError) as e:
                fail("undecodable", str(e))
                continue
            a = [x for x in r["args"] if x.startswith("-bz")][0]
            c["marks"] = marks
            c["opt"] = dict(z=int(a[4]), sub="s" if a.endswith("s") else "none", br=False, hexen=lv.hexen, offx=-1, offy=0)
            c.update(kind="map", mustfit=True, mustempty=False, args=r["args"])
            bm.append((c, k))
    if len(seen) != len(runs):
        raise Exception("Scroll.tla got stuck on %d of %d cases" % (len(runs) - len(seen), len(runs)))
    for module, cs, names in (("Bsp", bsp, SEGS), ("Blockmap", bm, BMAP)):
        for lo in range(0, len(cs), 600):
            part = cs[lo:lo + 600]
            t = tlc.run(module, "SPECIFICATION Spec\nINVARIANTS Conforms\n", cases=[c for c, _ in part], timeout=ck.n(600, 3000))
            ck.tlc(t)
            for p in t.printed:
                mine = [x for x in p[2][1] if x[0] in names]
                if mine:
                    c, k = part[p[1] - 1]
                    ck.fail("%s:%s" % (PROP, mine[0][0]), "args %s: %s" % (c["args"], mine[:6]), {"in.wad": runs[k]["data"]},
                            dict(args=c["args"], clauses=p[2][1]))
    ck.cov["traces_validated_against_impl"] = len(runs)
    ck.cov["node_trees"] = len(bsp)
    ck.cov["blockmaps"] = len(bm)
    ck.cov["scrolling_maps"] = sum(1 for r in runs if any(l["action"] in (48, 1048) for l in r["lv"].lines))
    for r in runs[:2]:
        ck.sample(dict(args=r["args"], lines=[(l["action"], l["tag"]) for l in r["lv"].lines if l["action"] or l["tag"]][:10]))
    return ck.finish()

check.main(go)
