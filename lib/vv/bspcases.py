"""Maps, runs and decoded cases for the node tree properties (Bsp.tla)."""
import math, os, struct
from . import wad, mapgen, run

PLAIN_OPTS = ["-na=0", "-na=1", "-na=2", "-na=3", "-na=4"]

def bam(dx, dy):
    a = math.atan2(dy, dx) * 32768 / math.pi
    if a < 0:
        a += 65536
    return int(a) & 65535

def dist_seg(p, a, b):
    (x, y), (x1, y1), (x2, y2) = p, a, b
    dx, dy = x2 - x1, y2 - y1
    l2 = dx * dx + dy * dy
    if not l2:
        return math.hypot(x - x1, y - y1)
    t = max(0, min(1, ((x - x1) * dx + (y - y1) * dy) / l2))
    return math.hypot(x - x1 - t * dx, y - y1 - t * dy)

def margin(lv, p):
    return min(dist_seg(p, lv.verts[l["v1"]], lv.verts[l["v2"]]) for l in lv.lines)

def points(rng, lv, k=12, keep=4.0):
    """points well inside a cell, with the sector the generator put there"""
    out = []
    cells = list(lv.meta["cells"].items())
    if "grid" in lv.meta:
        W, H, xs, ys, (a, b, c, d), off, scale = lv.meta["grid"]
        for _ in range(k * 3):
            if len(out) >= k:
                break
            (i, j), s = rng.choice(cells)
            u = xs[i] + (xs[i + 1] - xs[i]) * rng.uniform(0.05, 0.95)
            v = ys[j] + (ys[j + 1] - ys[j]) * rng.uniform(0.05, 0.95)
            x, y = u * scale, v * scale
            p = (round(a * x + b * y + off[0]), round(c * x + d * y + off[1]))
            if margin(lv, p) >= keep:
                out.append((p[0], p[1], s))
    else:
        P, tris = lv.meta["points"], lv.meta["tris"]
        for _ in range(k * 3):
            if len(out) >= k:
                break
            t, s = rng.choice(cells)
            q = [P[i] for i in tris[t]]
            w = [rng.uniform(0.05, 1) for _ in q]
            z = sum(w)
            p = (round(sum(w[i] * q[i][0] for i in range(3)) / z), round(sum(w[i] * q[i][1] for i in range(3)) / z))
            # rounding must not leave the triangle
            if margin(lv, p) >= keep and inside(p, q):
                out.append((p[0], p[1], s))
    return out

def inside(p, q):
    for i in range(3):
        a, b = q[i], q[(i + 1) % 3]
        if (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0]) <= 0:
            return False
    return True

def decode(L, lv, pts, o):
    """one level of an output archive -> a case of Bsp.tla.  o: fmt cull special coalesce"""
    t = wad.nodes_of(L)
    lines = wad.linedefs(L["LINEDEFS"], lv.hexen)
    sides = wad.sidedefs(L["SIDEDEFS"])
    vfile = wad.vertexes(L["VERTEXES"])
    if t is None:
        return None
    ext = t["fmt"] in ("XNOD", "ZNOD")
    span = max([1] + [abs(c) for v in vfile for c in v])
    span = max(max(v[0] for v in vfile) - min(v[0] for v in vfile), max(v[1] for v in vfile) - min(v[1] for v in vfile), 1)
    sc = 8 if span * 8 < 20000 and ext else 4 if span * 4 < 22000 else 2 if span * 2 < 22000 else 1
    rd = lambda v: (v * sc + 32768) >> 16
    first = {}
    V = [[rd(x), rd(y), first.setdefault((x, y), i)] for i, (x, y) in enumerate(t["verts"])]
    exact = lv.meta.get("exact", False)
    tol = 1 if ext else (1 if exact else 4 * sc)
    if o.get("tol") is not None:
        tol = o["tol"] * sc
    segs = []
    for s in t["segs"]:
        a, b = s["v1"], s["v2"]
        l = lines[s["line"]] if s["line"] < len(lines) else None
        sd = None if l is None else l["back"] if s["side"] else l["front"]
        d = 0
        if a < len(V) and b < len(V):
            (x1, y1), (x2, y2) = t["verts"][a], t["verts"][b]
            d = bam(x2 - x1, y2 - y1)
        segs.append(dict(a=a, b=b, line=s["line"], side=s["side"], ang=s["angle"] if s["angle"] is not None else -1,
                         off=s["offset"] if s["offset"] is not None else -1, dir=d,
                         sec=sides[sd]["sector"] if sd is not None and sd < len(sides) else -1))
    nodes = [dict(x=n["x"], y=n["y"], dx=n["dx"], dy=n["dy"], br=n["bbR"], bl=n["bbL"], r=list(n["r"]), l=list(n["l"])) for n in t["nodes"]]
    ln = []
    for i, l in enumerate(lines):
        (x1, y1), (x2, y2) = (vfile[l["v1"]], vfile[l["v2"]]) if max(l["v1"], l["v2"]) < len(vfile) else ((0, 0), (0, 0))
        f, bk = l["front"], l["back"]
        fs = sides[f] if f < len(sides) else None
        bs = sides[bk] if bk < len(sides) else None
        noseg = lambda s: s is not None and s["lo"].rstrip(b"\0") == b"BSPNOSEG"
        plain = fs is not None and bs is not None and l["tag"] < 900 and all(
            s[k].rstrip(b"\0") in (b"-", b"") for s in (fs, bs) for k in ("up", "lo", "mid"))
        ln.append(dict(a=l["v1"], b=l["v2"], f=fs["sector"] if fs else -1, bk=bs["sector"] if bs else -1, nf=noseg(fs), nb=noseg(bs),
                       tag=l["tag"], act=l["action"], dir=bam(x2 - x1, y2 - y1), dummy=i in o.get("dummies", ()),
                       plain=plain, xo=fs["xo"] if fs else 0, two=bool(l["flags"] & 4),
                       rest=[l["flags"], l["action"], l["tag"], l["front"], l["back"]] + l["args"]))
    inl = []
    for l in o.get("inlines") or lv.lines:
        (x1, y1), (x2, y2) = lv.verts[l["v1"]], lv.verts[l["v2"]]
        inl.append(dict(a=l["v1"], b=l["v2"], x1=x1 * sc, y1=y1 * sc, x2=x2 * sc, y2=y2 * sc,
                        rest=[l["flags"], l["action"], 0 if lv.hexen else l["tag"], l["front"], l["back"]] + (l["args"] if lv.hexen else [])))
    return dict(sc=sc, verts=V, nfile=len(vfile), segs=segs, ss=[list(x) for x in t["ssectors"]], nodes=nodes, lines=ln, inlines=inl,
                points=[[x * sc, y * sc, s] for x, y, s in pts], tol=tol, strict=exact or ext, coalesce=o.get("coalesce", False),
                special=o.get("special", not lv.hexen), cull=o.get("cull", False), angles=not ext, fmt=t["fmt"])

def execute(b, d, tag, lv, args, timeout=120, extra=None):
    inp, out = os.path.join(d, tag + ".wad"), os.path.join(d, tag + "o.wad")
    wad.write_wad(inp, lv.lump_list() if extra is None else extra)
    r = run.run(b, list(args) + [inp, "-o", out], timeout=timeout)
    data = open(inp, "rb").read()
    od = open(out, "rb").read() if os.path.exists(out) else None
    for f in (inp, out):
        if os.path.exists(f):
            os.unlink(f)
    return r, data, od

def tree_args(rng, fmt=None):
    """-n options: algorithm, priority, tuning; format"""
    o = []
    a = rng.choice([0, 0, 1, 2, 3, 4])
    o.append("a=%d" % a)
    if rng.random() < 0.4:
        o.append("p=%d" % rng.choice([0, 1, 2]))
    if rng.random() < 0.15:
        o.append("f=%d" % rng.choice([0, 1, 8, 17, 40, 100]))
    if rng.random() < 0.15:
        o.append("d=%d" % rng.choice([0, 10, 34, 100]))
    f = fmt or rng.choice(["v", "v", "d", "x", "z", "V", "D", "X", "Z", "z1", "Z9"])
    if f != "v" or rng.random() < 0.2:
        o.append("c=" + f)
    m = 0
    if rng.random() < 0.15:
        m = rng.choice([1, 3, 3])
        o.append("m=%d" % m)
    if rng.random() < 0.2:
        o.append("t=%d" % rng.choice([1, 2, 3]))
    rng.shuffle(o)
    args = ["-n" + "".join(o)]
    if rng.random() < 0.6:
        args.append("-d")
    if rng.random() < 0.15:
        args.append("--stknode")
    if rng.random() < 0.15:
        args.append("--unreversenodes")
    if rng.random() < 0.2:
        args.append("--detailnodes=%d" % rng.choice([0, 1, 2, 3]))
    if rng.random() < 0.2:
        args.append("--sidecache=%d" % rng.choice([0, 1, 2]))
    if m and rng.random() < 0.4:
        args.append("--roots=%d" % rng.choice([1, 2, 3, 10]))
    if m and rng.random() < 0.3:
        args.append("--speedtree=%d" % rng.choice([0, 1]))
    if a == 4 and rng.random() < 0.3:
        args.append("--zenvar:x1=%d,x2=%d" % (rng.choice([20, 24, 10]), rng.choice([10, 13, 20])))
    return args, f, m

def extras(rng, lv):
    """what mappers add on top of a plain subdivision: self-referencing sectors, doubled lines, zero-length lines,
    pieces apart from the rest.  Points are meaningless around some of these; returns True if they still hold."""
    ok = True
    r = rng.random()
    if r < 0.25 and lv.lines:                      # self-referencing square inside some cell
        for _ in range(20):
            pts = points(rng, lv, 1, keep=24)
            if not pts:
                break
            x, y, s = pts[0]
            w = int(min(margin(lv, (x, y)) / 1.5, 60))
            sx = len(lv.sectors)
            lv.sectors.append(dict(floor=0, ceil=128, light=160, special=0, tag=0))
            vs = [lv.add_vertex(*p) for p in ((x - w, y), (x, y + w), (x + w, y), (x, y - w))]
            for i in range(4):
                lv.add_line(vs[i], vs[(i + 1) % 4], lv.add_side(sx), lv.add_side(sx))
            ok = lv.meta["exact"] = False
            break
    if rng.random() < 0.12:                        # a line twice
        l = rng.choice(lv.lines)
        n = dict(l, args=list(l["args"]))
        if rng.random() < 0.5 and l["back"] != mapgen.NOSIDE:
            n.update(v1=l["v2"], v2=l["v1"], front=l["back"], back=l["front"])
        lv.lines.insert(rng.randint(0, len(lv.lines)), n)
        ok = False
    if rng.random() < 0.08:                        # a line of no length
        l = rng.choice(lv.lines)
        v = l["v1"]
        if rng.random() < 0.5:
            v2 = lv.add_vertex(*lv.verts[v])
        else:
            v2 = v
        lv.add_line(v, v2, lv.add_side(lv.sides[l["front"]]["sector"]), flags=1)
    return ok
