"""P11 P12: the reject table against sight (RejSight.tla).  usage: reject.py <property>"""
import _path, os, sys
from vv import check, build, tlc, mapgen, wad, bspcases as B, rejcases as R

PROP = sys.argv[1]
MINE = {"P11": {"size", "hidesvisible", "hidesneighbour", "hidesself", "hidessly", "lopsided", "notempty"},
        "P12": {"size", "variants", "showsapart", "showshidden"}}[PROP]
HARNESS = {"notaray", "notgrazing", "incoherent"}
CFG = "SPECIFICATION Spec\nINVARIANTS Conforms Coherent\n"

def a_map(rng, inner):
    k = rng.random()
    if k < 0.25:
        return mapgen.any_level(rng, p_inner=inner)
    if k < 0.6:
        return mapgen.grid_level(rng, W=rng.randint(3, 8), H=rng.randint(3, 8), nsec=rng.randint(5, 36), p_inner=inner,
                                 void=rng.choice([0.1, 0.25, 0.4]), unit=rng.choice([16, 32, 48, 64]))
    return mapgen.tri_level(rng, npts=rng.randint(8, 26), nsec=rng.randint(4, 28), void=rng.choice([.1, .2, .3]), p_inner=inner)

def nested():
    """rooms 0 and 1 side by side; in room 1 a self-referencing ring 2 around sector 3"""
    lv = mapgen.Level()
    for _ in range(4):
        lv.sectors.append(dict(floor=0, ceil=128, light=160, special=0, tag=0))
    v = [lv.add_vertex(*p) for p in ((0, 0), (0, 512), (512, 512), (1024, 512), (1024, 0), (512, 0))]
    for a, b, f in ((0, 1, 0), (1, 2, 0), (2, 3, 1), (3, 4, 1), (4, 5, 1), (5, 0, 0)):
        lv.add_line(v[a], v[b], lv.add_side(f, mid="STARTAN3"))
    lv.add_line(v[2], v[5], lv.add_side(0), lv.add_side(1))
    for w, f, k in ((160, 2, 2), (80, 3, 2)):
        q = [lv.add_vertex(*p) for p in ((768 - w, 256 - w), (768 - w, 256 + w), (768 + w, 256 + w), (768 + w, 256 - w))]
        for i in range(4):
            lv.add_line(q[i], q[(i + 1) % 4], lv.add_side(f), lv.add_side(k))
    lv.things.append((64, 64, 0, 1, 7))
    return lv

def go():
    ck = check.Check(PROP, "model_checking", [
        "openings narrower than one map unit are not looked through",
        "rays and grazing lines are proposed by lib/vv/rejcases.py; TLC decides each of them exactly"])
    b = build.binary()
    d = os.path.join(build.scratch(), "w")
    os.makedirs(d)
    rng = ck.rng
    cases, infos = [], []
    n = ck.n(1200, 12000) if PROP == "P11" else ck.n(800, 8000)
    for it in range(n + (PROP == "P11")):
        special = it == n
        lv = nested() if special else a_map(rng, rng.choice([0, 0.1, 0.2]) if PROP == "P11" else 0)
        if PROP == "P11" and rng.random() < 0.3 and not special:
            B.extras(rng, lv)
        if rng.random() < 0.1:
            lv.hexen = True
        if PROP == "P11" and rng.random() < 0.1 and not special:      # flags that lie
            for l in lv.lines:
                if rng.random() < 0.08:
                    l["flags"] ^= R.TWOSIDED
        scale = R.scale_for(lv)
        if not scale:
            continue
        base = ["-n-", "-b-"]
        s = rng.choice([None, None, 0, 1, 2, 3]) if PROP == "P11" else rng.choice([None, None, 1, 2, 3])
        zero = PROP == "P11" and rng.random() < 0.03
        opts = ("g" if rng.random() < 0.1 else "g-" if rng.random() < 0.3 else "") + ("" if s is None else "s=%d" % s) + ("z" if zero else "")
        if special:
            s, zero, opts = None, False, ""
        if opts:
            base.append("-r" + opts)
        variants = [base]
        if PROP == "P12":
            variants.append(base + ["--nosymm"])
        elif rng.random() < 0.3:
            variants = [base + ["--nosymm"]]
        ns = len(lv.sectors)
        tabs, sizes, stop = [], [], False
        for args in variants:
            r, data, od = B.execute(b, d, str(it), lv, args)
            if r.rc != 0 or od is None:
                ck.fail("%s:%s" % (PROP, "hang" if r.timeout else "crash"), "args %s: rc=%s\n%s" % (args, r.rc, r.out[-500:]), {"in.wad": data}, dict(args=args))
                stop = True
                break
            try:
                rb = wad.Wad(data=od).level("MAP01").get("REJECT")
            except (wad.DecodeError, wad.WadError) as e:
                ck.fail("%s:undecodable" % PROP, str(e), {"in.wad": data}, dict(args=args))
                stop = True
                break
            if rb is None:
                rb = b""
            tabs.append(R.table(rb, ns))
            sizes.append(len(rb))
        if stop:
            continue
        if s == 3:
            hide = lambda g: g[2] == 1 and g[3] == g[4]
        else:
            hide = lambda g: False
        rays, seen, geo = R.rays(rng, lv, scale, 300 if PROP == "P11" else 80, 40 if PROP == "P11" else 8)
        gl = [g for g in geo if not hide(g)]
        openings = {x for g in gl if g[2] == 1 for x in g[3:5]}
        sly = sorted({g[3] for g in gl if g[2] == 1 and g[3] == g[4]}) if s in (None, 0) else []
        judge = PROP == "P12"
        c = dict(n=ns, lines=[[*g[0], *g[1], g[2], g[3], g[4]] for g in gl], unit=scale, rays=[[*p, *q, *w] for p, q, w in rays], tab=tabs[0], alt=tabs[1:],
                 bytes=max(sizes, key=lambda x: x != (ns * ns + 7) // 8), want=(ns * ns + 7) // 8, sly=sly, judge=judge, graphs="g-" not in opts, graze=[])
        if judge:
            c["graze"] = [[[v * scale for v in g[:4]] + g[4:] if g else [] for g in row] for row in R.graze(lv)]
        if zero and any(x for row in tabs[0] for x in row):
            ck.fail("P11:notempty", "args %s: asked for an empty table" % base, {"in.wad": data}, dict(args=base))
        c["args"] = variants
        c["nested"] = special
        cases.append(c)
        infos.append(data)
    pairs = 0
    for at in range(0, len(cases), 400):
        part = cases[at:at + 400]
        t = tlc.run("RejSight", CFG, cases=part, timeout=ck.n(800, 4000))
        ck.tlc(t)
        for p in t.printed:
            kinds = {x[0] for x in p[2][1]}
            if kinds & HARNESS:
                raise RuntimeError("case %d: the proposals of the harness are wrong: %s" % (at + p[1], sorted(p[2][1], key=str)[:4]))
            mine = sorted((x for x in p[2][1] if x[0] in MINE), key=str)
            if mine:
                q = part[p[1] - 1]
                name = mine[0][0]
                if q["nested"] and {tuple(x[:3]) for x in mine} <= {("hidesvisible", a, b) for a, b in ((0, 3), (3, 0), (1, 3), (3, 1))}:
                    name = "nested"
                ck.fail("%s:%s" % (PROP, name), "args %s: %s" % (q["args"], mine[:6]), {"in.wad": infos[at + p[1] - 1]},
                        dict(args=q["args"], clauses=mine[:20], rays=[q["rays"][x[3] - 1] for x in mine[:20] if x[0] == "hidesvisible"]))
    ck.cov["traces_validated_against_impl"] = len(cases)
    ck.cov["rays"] = sum(len(c["rays"]) for c in cases)
    ck.cov["pairs"] = sum(c["n"] * (c["n"] - 1) // 2 for c in cases)
    ck.cov["hidden_pairs"] = sum(c["tab"][i][j] for c in cases for i in range(c["n"]) for j in range(i))
    ck.cov["pairs_without_grazing_line"] = sum(1 for c in cases if c["judge"] for i in range(c["n"]) for j in range(i) if not c["graze"][i][j])
    for c in cases[:2]:
        ck.sample(dict(args=c["args"], sectors=c["n"], lines=len(c["lines"]), ray=c["rays"][:1]))
    return ck.finish()

check.main(go)
