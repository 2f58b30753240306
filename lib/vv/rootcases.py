"""Multi-tree mode: the tree of each candidate alone, and what is chosen (RootHive.tla)."""
import hashlib, os, subprocess
from . import build, mapgen, wad, spcases, fmtcases

def level(rng):
    lv = mapgen.any_level(rng, "MAP01", **(dict(W=rng.randint(3, 7), H=rng.randint(3, 7), npts=rng.randint(8, 22), R=1024, p_tri=.5, nsec=8) if rng.random() < .45 else {}))
    if rng.random() < .4:
        spcases.dress(rng, lv, scroll=False)
    if rng.random() < .5:
        for _ in range(rng.randint(1, 6)):
            rng.choice(lv.lines)["tag"] = rng.choice([900, 950, 997, 1000])
    return lv

def fit_level(rng):
    """two candidates: one cuts a precious line, the other many lines, which takes the tree over a limit of the format"""
    lv = fmtcases._lv()
    sd = fmtcases.Sides(lv)
    n = rng.choice([16380, 16380, 16380, 32720, 32740])
    n -= rng.randint(0, 15)
    cross = rng.choice([5, 40, 40, 80])
    prec = n // 2 + rng.randint(2, 6)
    for k in range(n):
        y = k - n // 2
        if y == prec:
            y = prec + 100
        lv.add_line(lv.add_vertex(0, y), lv.add_vertex(200 if n // 2 - cross <= k < n // 2 else 8, y), sd(0))
    lv.add_line(lv.add_vertex(250, prec), lv.add_vertex(400, prec), sd(0), tag=rng.choice([950, 950, 950, 0]))
    xs = [100, 300]
    rng.shuffle(xs)
    for x in xs:
        lv.add_line(lv.add_vertex(x, n // 2 + 8), lv.add_vertex(x, n // 2 + 40), sd(0), sd(1))
    return lv

def heights(nodes):
    h = []
    def of(c):
        return 1 if c[0] else h[c[1]] + 1
    for x in nodes:
        h.append(max(of(x["l"]), of(x["r"])))
    return [0 if c[0] else h[c[1]] + 1 for c in (nodes[-1]["l"], nodes[-1]["r"])]

def run(b, d, args, env, timeout=120):
    t = os.path.join(d, "trace")
    if os.path.exists(t):
        os.unlink(t)
    o = os.path.join(d, "out.wad")
    if os.path.exists(o):
        os.unlink(o)
    e = dict(os.environ, VV_TRACE=t)
    e.update(env)
    try:
        p = subprocess.run([b, "in.wad"] + args + ["-o", "out.wad"], cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        rc, text = p.returncode, p.stdout.decode("latin1")
    except subprocess.TimeoutExpired as x:
        rc, text = -999, (x.stdout or b"").decode("latin1")
    ev = open(t).read().splitlines() if os.path.exists(t) else []
    data = open(o, "rb").read() if os.path.exists(o) else None
    return rc, text, ev, data

LUMPS = ("LINEDEFS", "VERTEXES", "SEGS", "SSECTORS", "NODES")
def digest(L):
    h = hashlib.sha1()
    for n in LUMPS:
        h.update(b"%d " % len(L.get(n, b"")) + L.get(n, b""))
    return h.hexdigest()

def tree(L, lines, tagged):
    n = wad.nodes_of(L)
    if not n or not n["nodes"]:
        return None
    per = {}
    for s in n["segs"]:
        if tagged[s["line"]]:
            per[s["line"], s["side"]] = per.get((s["line"], s["side"]), 0) + 1
    r = n["nodes"][-1]
    big = len(n["nodes"]) > 1000
    return dict(leaves=len(n["ssectors"]), nsegs=len(n["segs"]), nverts=len(n["verts"]), longest=max(x[1] for x in n["ssectors"]),
                heights=heights(n["nodes"]), nodes=[] if big else[[list(x["l"]), list(x["r"])] for x in n["nodes"]],
                precious=sorted(set(per.values())), root=[r["x"], r["y"], r["x"] + r["dx"], r["y"] + r["dy"]], digest=digest(L)), n

def case(b, rng, tag):
    """-> (case or None, info, complaint)"""
    d = os.path.join(build.scratch(), "root-" + tag)
    os.makedirs(d)
    try:
        fit = rng.random() < .05
        lv = fit_level(rng) if fit else level(rng)
        data = wad.write_wad(None, lv.lump_list())
        open(os.path.join(d, "in.wad"), "wb").write(data)
        mode = rng.choice([1, 2, 3, 3, 3])
        args = ["-nm=%d" % mode + rng.choice(["", "a=1", "a=2", "a=3", "a=4"]) + rng.choice(["", "", "p=1", "p=2"]), "-b-", "-r-", "-d"]
        if fit:
            args[0] = "-nm=2a=3"
        fmt = rng.choice("vvdxVVDDXXZz" if not fit else "vvvvVDXd")
        args[0] += "c=" + fmt
        args += rng.sample(["--stknode", "--speedtree", "--sidecache=2", "--detailnodes=2", "--ableist", "-ni=1"], rng.choice([0, 0, 0, 1, 2]))
        if fit:
            args = [a for a in args if a != "--stknode"]
        chosen = rng.random() < .15 or fit
        ableist = "--ableist" in args
        if chosen and not fit:
            args.append("--roots=%d" % rng.choice([1, 2, 3, 5, 8]))
        info = (args, data)
        runs, k = [], None
        L = None
        for j in range(2):
            a = args + (["-nt=%d" % rng.choice([1, 2, 3, 8])] if rng.random() < .6 else [])
            rc, text, ev, od = run(b, d, a, dict(VV_JITTER=str(rng.randrange(1, 10**9)), GOMAXPROCS=str(rng.choice([1, 2, 4, 8]))))
            if rc != 0 or od is None:
                return None, info, ("hang" if rc == -999 else "crash", "%s exit %s\n%s" % (a, rc, text[-600:]))
            L = wad.Wad(data=od).level("MAP01")
            roots = [x.split()[1:] for x in ev if x.startswith("roots")]
            if len(roots) != 1:
                return None, info, None          # too few segs for a tree
            if k is not None and roots[0] != k:
                return None, info, ("candidates", "candidates differ from run to run: %s %s" % (k, roots[0]))
            k = roots[0]
            runs.append(dict(arrivals=[int(x.split()[1]) for x in ev if x.startswith("tree ")], written=digest(L)))
        ls = wad.linedefs(L["LINEDEFS"], lv.hexen)
        vx = wad.vertexes(L["VERTEXES"])
        tagged = [not lv.hexen and l["tag"] >= 900 and l["tag"] not in (998, 999) for l in ls]
        trees = []
        for i in range(len(k)):
            rc, text, ev, od = run(b, d, args, dict(VV_ROOT=str(i)))
            if rc != 0 or od is None:
                return None, info, ("crash", "%s with candidate %d: exit %s\n%s" % (args, i, rc, text[-600:]))
            if fmt in "vV" and not wad.Wad(data=od).level("MAP01").get("NODES"):
                # nothing is written of what does not fit, but in another format there is
                rc, text, ev, od = run(b, d, [args[0].replace("c=" + fmt, "c=d")] + args[1:], dict(VV_ROOT=str(i)))
            try:
                t = tree(wad.Wad(data=od).level("MAP01"), ls, tagged)
            except wad.DecodeError as x:
                return None, info, ("undecodable", "candidate %d: %s" % (i, x))
            if t is None:
                return None, info, ("emptied", "candidate %d gives no tree" % i)
            trees.append(t[0])
            sides = {}
            for s in t[1]["segs"]:
                sides.setdefault(s["line"], set()).add(s["side"])
        lines = []
        for i, l in enumerate(ls if not fit else []):
            lines.append([*vx[l["v1"]], *vx[l["v2"]], len(sides.get(i, ()))])
        return dict(fit="" if ableist else dict(v="v", V="u", D="u", X="u", Z="u").get(fmt, ""), mode=mode, chosen=chosen, trees=trees, runs=runs, lines=lines), info, None
    finally:
        subprocess.run(["rm", "-r", d])
