"""P13 P14 P21: effects files (Rmb.tla).  usage: rmb.py <property>"""
import _path, os, shutil, sys
from vv import check, build, tlc, wad, mapgen, run, bspcases as B, rejcases as R, rmbcases as M

PROP = sys.argv[1]
MINE = {"P13": {"crash", "hides", "shows", "notable", "noreport", "unreported", "misreported", "refusesvalid"},
        "P14": {"crash", "wrote", "refusesvalid", "takesinvalid", "notreported", "hides", "shows"},
        "P21": {"crash", "hides", "shows", "notable", "refusesvalid", "noreport"}}[PROP]
MODE = {"P13": "effects", "P14": "broken", "P21": "reuse"}[PROP]
CFG = "SPECIFICATION Spec\nINVARIANTS Conforms\n"

SIGHT = "SPECIFICATION Spec\nINVARIANTS Conforms\n"

def opaque_lines(ck, b, d):
    """LINE on two-sided lines: the sight specification with these lines opaque"""
    rng = ck.rng
    cases, infos = [], []
    rej = None
    for it in range(ck.n(250, 3000)):
        lv = mapgen.grid_level(rng, W=rng.randint(3, 7), H=rng.randint(3, 7), nsec=rng.randint(5, 24), void=rng.choice([0.1, 0.25, 0.4]),
                               unit=rng.choice([16, 32, 48, 64])) if rng.random() < 0.6 \
            else mapgen.tri_level(rng, npts=rng.randint(8, 22), nsec=rng.randint(4, 20), void=rng.choice([.1, .2, .3]))
        two = [i for i, l in enumerate(lv.lines) if l["flags"] & R.TWOSIDED and l["back"] != R.NOSIDE
               and lv.sides[l["front"]]["sector"] != lv.sides[l["back"]]["sector"]]
        scale = R.scale_for(lv)
        if len(two) < 2 or not scale:
            continue
        cut = rng.sample(two, rng.randint(1, max(1, len(two) // 2)))
        text = "".join("%s %d\n" % (rng.choice(["LINE", "line", "LI", "Lin"]), i) for i in cut)
        if rng.random() < 0.5:
            text = "%s\n" % rng.choice(["MAP01", "Map map01"]) + text
        if rng.random() < 0.3:
            text += rng.choice(["MAP02\n", "E1M1\n"]) + "".join("LINE %d\n" % i for i in rng.sample(two, 1))
        args = ["-n-", "-b-", "-rm" + rng.choice(["", "g-", "g", "s=3", "s=1"])] + (["--nosymm"] if rng.random() < 0.3 else [])
        open(os.path.join(d, "L%d.rej" % it), "w").write(text)
        r, data, od = B.execute(b, d, "L%d" % it, lv, args)
        os.remove(os.path.join(d, "L%d.rej" % it))
        files = {"in.wad": data, "in.rej": text.encode()}
        if r.rc != 0 or od is None:
            ck.fail("%s:%s" % (PROP, "hang" if r.timeout else "crash"), "args %s: rc=%s\n%s\n%s" % (args, r.rc, text, r.out[-500:]), files, dict(args=args))
            continue
        try:
            rb = wad.Wad(data=od).level("MAP01").get("REJECT") or b""
        except (wad.DecodeError, wad.WadError) as e:
            ck.fail("%s:undecodable" % PROP, str(e), files, dict(args=args))
            continue
        ns = len(lv.sectors)
        for i in cut:
            lv.lines[i]["flags"] &= ~R.TWOSIDED
        rays, seen, geo = R.rays(rng, lv, scale, 120, 16)
        cases.append(dict(n=ns, lines=[[*g[0], *g[1], g[2], g[3], g[4]] for g in geo], unit=scale, rays=[[*p, *q, *w] for p, q, w in rays],
                          tab=R.table(rb, ns), alt=[], bytes=len(rb), want=(ns * ns + 7) // 8, sly=[], judge=True, graphs="g-" not in args[2],
                          graze=[[[v * scale for v in g[:4]] + g[4:] if g else [] for g in row] for row in R.graze(lv)]))
        infos.append((files, args, text))
    for at in range(0, len(cases), 400):
        t = tlc.run("RejSight", SIGHT, cases=cases[at:at + 400], timeout=ck.n(800, 4000))
        ck.tlc(t)
        for p in t.printed:
            files, args, text = infos[at + p[1] - 1]
            mine = sorted(p[2][1], key=str)
            if {x[0] for x in mine} & {"notaray", "notgrazing", "incoherent"}:
                raise RuntimeError("case %d: the proposals of the harness are wrong: %s" % (at + p[1], mine[:4]))
            ck.fail("%s:line-%s" % (PROP, mine[0][0]), "args %s: %s\n%s" % (args, mine[:6], text), files, dict(args=args, clauses=mine[:20]))
    ck.cov["opaque_line_maps"] = len(cases)
    ck.add("traces_validated_against_impl", len(cases))

def go():
    ck = check.Check(PROP, "model_checking", [
        "group chains, LINE together with other effects and other combinations the manual leaves open are not judged (operator Loose)"])
    b = build.binary()
    d = os.path.join(build.scratch(), "w")
    os.makedirs(d)
    rng = ck.rng
    cases, infos = [], []
    for it in range(ck.n(600, 6000)):
        mode = MODE
        if PROP == "P14" and rng.random() < 0.3:
            mode = "effects"
        c, info = M.case(b, d, rng, it, mode)
        shutil.rmtree(os.path.join(d, "t%d" % it))
        if c is None:
            ck.fail("%s:plainrun" % PROP, "a run without effects failed: %s\n%s" % (info["args"], info["out"][-400:]), {"in.wad": info["data"]})
            continue
        cases.append(c)
        infos.append(info)
    verd = {}
    for at in range(0, len(cases), 300):
        t = tlc.run("Rmb", CFG, cases=cases[at:at + 300], timeout=ck.n(800, 3000))
        ck.tlc(t)
        for p in t.printed:
            i = at + p[1] - 1
            kinds = {x[0] for x in p[2][1]}
            if "incoherent" in kinds:
                raise RuntimeError("case %d: bounds of the specification do not fit together: %r" % (i, infos[i]["text"]))
            mine = sorted((x for x in p[2][1] if x[0] in MINE), key=str)
            if mine:
                ck.fail("%s:%s" % (PROP, mine[0][0]), "args %s (%s): %s\n%s\n%s" % (infos[i]["args"], p[3], mine[:6], infos[i]["text"], infos[i]["out"][-300:]),
                        dict(infos[i]["dir"], **{"in.wad": infos[i]["data"]}), dict(args=infos[i]["args"], clauses=mine[:20]))
    ck.cov["traces_validated_against_impl"] = len(cases)
    ck.cov["refused"] = sum(c["exit"] != 0 for c in cases)
    ck.cov["levels"] = sum(len(c["levels"]) for c in cases)
    ck.cov["lines"] = sum(len(c["lines"]) for c in cases)
    if PROP == "P13":
        opaque_lines(ck, b, d)
    for i in infos[:3]:
        ck.sample(dict(args=i["args"], file=i["text"][:400], levels=i["names"]))
    return ck.finish()

check.main(go)
