"""Random level generator. Levels are planar subdivisions: cells with a sector (or void), shared edges.

All geometry is integer.  Grid levels pass through an integer linear map so that every BSP split along
an edge direction lands on an integer point (exact in the vanilla format as well)."""
import struct, random

NOSIDE = 0xFFFF

class Level:
    def __init__(self, name="MAP01"):
        self.name = name
        self.verts = []
        self.lines = []     # dict v1 v2 flags action tag front back args
        self.sides = []     # dict xo yo up lo mid sector
        self.sectors = []   # dict floor ceil light special tag
        self.things = []
        self.hexen = False
        self.meta = {}

    def add_vertex(self, x, y):
        self.verts.append((x, y))
        return len(self.verts) - 1

    def add_side(self, sector, up="-", lo="-", mid="-", xo=0, yo=0):
        self.sides.append(dict(xo=xo, yo=yo, up=up, lo=lo, mid=mid, sector=sector))
        return len(self.sides) - 1

    def add_line(self, v1, v2, front, back=NOSIDE, flags=None, action=0, tag=0, args=None):
        if flags is None:
            flags = 4 if back != NOSIDE else 1
        self.lines.append(dict(v1=v1, v2=v2, front=front, back=back, flags=flags, action=action, tag=tag,
                               args=args or [0, 0, 0, 0, 0]))
        return len(self.lines) - 1

    # --- serialisation
    def lumps(self, extra=None):
        n8 = lambda s: s.encode("latin1")[:8].ljust(8, b"\0")
        if self.hexen:
            th = b"".join(struct.pack("<HhhhHHHBBBBBB", i + 1, x, y, 0, a, t, f, 0, 0, 0, 0, 0, 0)
                          for i, (x, y, a, t, f) in enumerate(self.things))
            ld = b"".join(struct.pack("<HHHBBBBBBHH", l["v1"], l["v2"], l["flags"], l["action"] & 255, *l["args"][:5],
                                      l["front"], l["back"]) for l in self.lines)
        else:
            th = b"".join(struct.pack("<hhHHH", x, y, a, t, f) for (x, y, a, t, f) in self.things)
            ld = b"".join(struct.pack("<HHHHHHH", l["v1"], l["v2"], l["flags"], l["action"], l["tag"],
                                      l["front"], l["back"]) for l in self.lines)
        sd = b"".join(struct.pack("<hh8s8s8sH", s["xo"], s["yo"], n8(s["up"]), n8(s["lo"]), n8(s["mid"]), s["sector"])
                      for s in self.sides)
        vx = b"".join(struct.pack("<hh", x, y) for x, y in self.verts)
        sc = b"".join(struct.pack("<hh8s8shHH", s["floor"], s["ceil"], b"FLOOR0_1", b"CEIL1_1\0", s["light"],
                                  s["special"], s["tag"]) for s in self.sectors)
        d = {"THINGS": th, "LINEDEFS": ld, "SIDEDEFS": sd, "VERTEXES": vx, "SECTORS": sc}
        if self.hexen:
            d["BEHAVIOR"] = b"ACS\0\x08\0\0\0\0\0\0\0\0\0\0\0"
        return d

    def lump_list(self, names=("THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SECTORS")):
        d = self.lumps()
        out = [(self.name, b"")] + [(n, d[n]) for n in names]
        if self.hexen:
            out.append(("BEHAVIOR", d["BEHAVIOR"]))
        return out

    def sector_of_side(self, s):
        return -1 if s == NOSIDE else self.sides[s]["sector"]

    def line_sectors(self):
        return [(self.sector_of_side(l["front"]), self.sector_of_side(l["back"])) for l in self.lines]

def finish(rng, points, edges, cells, ncell_sectors, opt, name="MAP01"):
    """points: {pid: (x,y)}; edges: list of (pa, pb, cl, cr) directed pa->pb with cell cl on left and cr on right;
    cells: {cell: sector or None}."""
    lv = Level(name)
    # sectors
    for i in range(ncell_sectors):
        fl = rng.choice([0, 0, 8, 24, -16]) if opt.get("heights", True) else 0
        lv.sectors.append(dict(floor=fl, ceil=fl + rng.choice([128, 72, 56, 0]) if opt.get("heights", True) else 128,
                               light=160, special=0, tag=0))
    segs = []
    for pa, pb, cl, cr in edges:
        sl = cells.get(cl)
        sr = cells.get(cr)
        if sl is None and sr is None:
            continue
        if cl == cr:
            continue
        if sl == sr and rng.random() >= opt.get("p_inner", 0.15):
            continue
        segs.append((pa, pb, sl, sr))
    # merge collinear runs
    if opt.get("p_merge", 0.5) > 0:
        segs = merge_runs(rng, points, segs, opt.get("p_merge", 0.5))
    used = []
    for s in segs:
        for p in s[:2]:
            used.append(p)
    order = list(dict.fromkeys(used))
    rng.shuffle(order)
    vid = {}
    allp = list(order)
    if opt.get("p_unused_vert", 0.1) and rng.random() < opt.get("p_unused_vert", 0.1):
        for _ in range(rng.randint(1, 3)):
            allp.insert(rng.randint(0, len(allp)), None)
    for p in allp:
        if p is None:
            lv.add_vertex(rng.randint(-100, 100), rng.randint(-100, 100))
        else:
            vid[p] = lv.add_vertex(*points[p])
    rng.shuffle(segs)
    for pa, pb, sl, sr in segs:
        # front side is on the right of v1->v2
        if sr is None or (sl is not None and rng.random() < 0.5):
            pa, pb, sl, sr = pb, pa, sr, sl
        if sl is None:
            f = lv.add_side(sr, mid="STARTAN3", xo=rng.choice([0, 0, 16]))
            lv.add_line(vid[pa], vid[pb], f)
        else:
            tex = (lambda: rng.choice(["-", "STEP1"])) if opt.get("textures", True) else (lambda: "-")
            f = lv.add_side(sr, up=tex(), lo=tex())
            b = lv.add_side(sl, up=tex(), lo=tex())
            lv.add_line(vid[pa], vid[pb], f, b)
    # compact unused sectors stay; make sure each sector is used by someone -> meta
    lv.things.append((points[order[0]][0] + 8, points[order[0]][1] + 8, 0, 1, 7))
    lv.meta["points"] = points
    return lv

def merge_runs(rng, points, segs, p):
    """randomly merge consecutive collinear pieces with equal sides"""
    changed = True
    segs = list(segs)
    it = 0
    while changed and it < 6:
        it += 1
        changed = False
        byp = {}
        for i, s in enumerate(segs):
            for q in s[:2]:
                byp.setdefault(q, []).append(i)
        dead = set()
        out = []
        touched = set()
        for q, l in byp.items():
            if len(l) != 2 or l[0] in touched or l[1] in touched or l[0] == l[1]:
                continue
            if rng.random() >= p:
                continue
            a, b = segs[l[0]], segs[l[1]]
            # orient a ending at q, b starting at q
            if a[1] != q:
                a = (a[1], a[0], a[3], a[2])
            if b[0] != q:
                b = (b[1], b[0], b[3], b[2])
            if (a[2], a[3]) != (b[2], b[3]):
                continue
            (x0, y0), (x1, y1), (x2, y2) = points[a[0]], points[q], points[b[1]]
            if (x1 - x0) * (y2 - y1) - (y1 - y0) * (x2 - x1) != 0:
                continue
            if (x1 - x0) * (x2 - x1) + (y1 - y0) * (y2 - y1) <= 0:
                continue
            if a[0] == b[1]:
                continue
            touched.update(l)
            dead.update(l)
            out.append((a[0], b[1], a[2], a[3]))
            changed = True
        segs = [s for i, s in enumerate(segs) if i not in dead] + out
    return segs

XFORMS = {
    "id": (1, 0, 0, 1),
    "rot45": (1, -1, 1, 1),
    "shear": (1, 1, 0, 1),
    "shear2": (1, 0, 2, 1),
    "rot26": (2, -1, 1, 2),
    "mirror": (-1, 0, 0, 1),
    "odd": (3, 1, -1, 2),
}

def grid_level(rng, name="MAP01", **opt):
    """random grid level.  opt: W,H,nsec,void,unit,xform,offset ..."""
    W = opt.get("W") or rng.randint(1, 5)
    H = opt.get("H") or rng.randint(1, 5)
    unit = opt.get("unit") or rng.choice([16, 32, 64, 128])
    uniform = opt.get("uniform", rng.random() < 0.5)
    xs = [0]
    for _ in range(W):
        xs.append(xs[-1] + (unit if uniform else unit * rng.randint(1, 4) // 2))
    ys = [0]
    for _ in range(H):
        ys.append(ys[-1] + (unit if uniform else unit * rng.randint(1, 4) // 2))
    xf = opt.get("xform") or rng.choice(["id", "id", "rot45", "shear", "rot26", "mirror", "odd", "shear2"])
    a, b, c, d = XFORMS[xf]
    off = opt.get("offset")
    if off is None:
        off = rng.choice([(0, 0), (0, 0), (-unit, -unit * 2), (8, -24), (-1000, 700), (3, 5)])
    scale = opt.get("scale", 1)
    def P(i, j):
        x, y = xs[i] * scale, ys[j] * scale
        return (a * x + b * y + off[0], c * x + d * y + off[1])
    points = {(i, j): P(i, j) for i in range(W + 1) for j in range(H + 1)}
    # assign cells
    pvoid = opt.get("void", rng.choice([0, 0.15, 0.3]))
    nsec = opt.get("nsec") or rng.randint(1, max(1, min(9, W * H)))
    cells = {}
    allc = [(i, j) for i in range(W) for j in range(H)]
    live = [q for q in allc if rng.random() >= pvoid] or [rng.choice(allc)]
    seeds = [rng.choice(live) for _ in range(nsec)]
    for s, q in enumerate(seeds):
        cells[q] = s
    frontier = list(cells)
    liveset = set(live)
    while frontier:
        k = rng.randrange(len(frontier))
        q = frontier[k]
        nb = [(q[0] + dx, q[1] + dy) for dx, dy in ((1, 0), (-1, 0), (0, 1), (0, -1))]
        nb = [t for t in nb if t in liveset and t not in cells]
        if not nb:
            frontier.pop(k)
            continue
        t = rng.choice(nb)
        cells[t] = cells[q]
        frontier.append(t)
    for q in live:
        if q not in cells:
            cells[q] = rng.randrange(nsec)
    # compact sector ids
    ids = sorted(set(cells.values()))
    rng.shuffle(ids)
    remap = {s: i for i, s in enumerate(ids)}
    cells = {q: remap[s] for q, s in cells.items()}
    nsec = len(ids)
    if opt.get("spare_sectors") and rng.random() < 0.2:
        nsec += 1
    det = a * d - b * c
    edges = []
    for i in range(W):
        for j in range(H + 1):
            # horizontal edge from (i,j) to (i+1,j): left = cell above (i,j), right = cell below (i,j-1)
            L, R = (i, j), (i, j - 1)
            if det < 0:
                L, R = R, L
            edges.append(((i, j), (i + 1, j), L, R))
    for i in range(W + 1):
        for j in range(H):
            # vertical edge up: left = (i-1,j), right = (i,j)
            L, R = (i - 1, j), (i, j)
            if det < 0:
                L, R = R, L
            edges.append(((i, j), (i, j + 1), L, R))
    lv = finish(rng, points, edges, cells, nsec, opt, name)
    lv.meta["cells"] = cells
    lv.meta["xform"] = xf
    lv.meta["grid"] = (W, H, xs, ys, (a, b, c, d), off, scale)
    lv.meta["exact"] = True
    return lv

# ---------------------------------------------------------------- triangulated levels
def delaunay(pts):
    """Bowyer-Watson with integer arithmetic; pts list of distinct (x,y). returns CCW triangles (indices)"""
    M = 1 << 20
    P = list(pts) + [(-M, -M), (M, -M), (0, M)]
    n = len(pts)
    tris = [(n, n + 1, n + 2)]
    def incirc(t, p):
        ax, ay = P[t[0]][0] - p[0], P[t[0]][1] - p[1]
        bx, by = P[t[1]][0] - p[0], P[t[1]][1] - p[1]
        cx, cy = P[t[2]][0] - p[0], P[t[2]][1] - p[1]
        return ((ax * ax + ay * ay) * (bx * cy - cx * by) - (bx * bx + by * by) * (ax * cy - cx * ay)
                + (cx * cx + cy * cy) * (ax * by - bx * ay)) > 0
    for i in range(n):
        bad = [t for t in tris if incirc(t, P[i])]
        cnt = {}
        for t in bad:
            for e in ((t[0], t[1]), (t[1], t[2]), (t[2], t[0])):
                cnt[e] = 1
        bnd = [e for e in cnt if (e[1], e[0]) not in cnt]
        tris = [t for t in tris if t not in bad]
        for e in bnd:
            a, b, c = P[e[0]], P[e[1]], P[i]
            if (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]) <= 0:
                return None
            tris.append((e[0], e[1], i))
    return [t for t in tris if max(t) < n]

def tri_level(rng, name="MAP01", **opt):
    n = opt.get("npts") or rng.randint(4, 12)
    R = opt.get("R") or rng.choice([128, 256, 512])
    step = opt.get("step", 1)
    mind = opt.get("mind", R // 8)
    for _ in range(200):
        pts = []
        for _t in range(400):
            if len(pts) >= n:
                break
            p = (rng.randint(-R // step, R // step) * step, rng.randint(-R // step, R // step) * step)
            if all((p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2 >= mind * mind for q in pts):
                pts.append(p)
        if len(pts) < 3:
            continue
        tris = delaunay(pts)
        if tris and len(tris) >= 1:
            # avoid slivers
            def area2(t):
                a, b, c = (pts[k] for k in t)
                return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
            good = [t for t in tris if area2(t) > mind * mind // 2]
            if good:
                tris = good
                break
    pvoid = opt.get("void", rng.choice([0, 0.1, 0.3]))
    nsec = opt.get("nsec") or rng.randint(1, max(1, min(7, len(tris))))
    cells = {}
    for k, t in enumerate(tris):
        if rng.random() >= pvoid:
            cells[k] = rng.randrange(nsec)
    if not cells:
        cells[0] = 0
    ids = sorted(set(cells.values()))
    rng.shuffle(ids)
    remap = {s: i for i, s in enumerate(ids)}
    cells = {q: remap[s] for q, s in cells.items()}
    em = {}
    for k, t in enumerate(tris):
        for e in ((t[0], t[1]), (t[1], t[2]), (t[2], t[0])):
            em[e] = k   # CCW: cell k on the left of e
    edges = []
    for (a, b), k in em.items():
        o = em.get((b, a))
        if o is not None and a > b:
            continue
        edges.append((a, b, k, o if o is not None else -1))
    lv = finish(rng, {i: p for i, p in enumerate(pts)}, edges, cells, len(ids), dict(opt, p_merge=0.0), name)
    lv.meta["exact"] = False
    lv.meta["cells"] = cells
    lv.meta["tris"] = tris
    return lv

def any_level(rng, name="MAP01", **opt):
    return tri_level(rng, name, **opt) if rng.random() < opt.pop("p_tri", 0.4) else grid_level(rng, name, **opt)
