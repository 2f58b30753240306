"""One map through all node formats; maps at the limits of the vanilla format (BspFmt.tla)."""
import hashlib
from . import wad, mapgen

def view(L, places):
    t = wad.nodes_of(L)
    if t is None:
        return dict(fmt="NONE", nv=0, segs=[], ss=[], nodes=[])
    V = t["verts"]
    pl = lambda i: places.setdefault(V[i], len(places)) if i < len(V) else -1 - i
    m1 = lambda x: -1 if x is None else x
    return dict(fmt=t["fmt"], nv=len(V),
                segs=[[pl(s["v1"]), pl(s["v2"]), s["line"], s["side"], m1(s["angle"]), m1(s["offset"])] for s in t["segs"]],
                ss=[list(x) for x in t["ssectors"]],
                nodes=[dict(g=[n["x"], n["y"], n["dx"], n["dy"]] + n["bbR"] + n["bbL"], r=list(n["r"]), l=list(n["l"])) for n in t["nodes"]])

def case(levels):
    """levels: [(format letter, level lumps)], first 'd' and 'x' among them"""
    places, seen, views, reqs = {}, {}, [], []
    c = dict(deep=0, ext=0)
    for f, L in levels:
        h = hashlib.md5(b"".join(hashlib.md5(L.get(n, b"")).digest() for n in ("NODES", "SEGS", "SSECTORS", "VERTEXES"))).hexdigest()
        if h not in seen:
            views.append(view(L, places))
            seen[h] = len(views)
        reqs.append(dict(f=f[0], view=seen[h]))
        if f == "d" and not c["deep"]: c["deep"] = seen[h]
        if f == "x" and not c["ext"]: c["ext"] = seen[h]
    return dict(c, views=views, reqs=reqs)

# ---- maps near the limits ------------------------------------------------------
def _lv(nsec=2):
    lv = mapgen.Level()
    for _ in range(nsec):
        lv.sectors.append(dict(floor=0, ceil=128, light=160, special=0, tag=0))
    lv.things.append((0, 0, 0, 1, 7))
    return lv

class Sides:
    """sidedefs shared between lines: their number must not be what runs out"""
    def __init__(self, lv):
        self.lv, self.by = lv, {}
    def __call__(self, s):
        if s not in self.by:
            self.by[s] = self.lv.add_side(s)
        return self.by[s]

def rows(n, length=8):
    """n one-sided lines above each other, all facing down: n leaves of one seg"""
    lv = _lv()
    sd = Sides(lv)
    for k in range(n):
        x = (k % 3) * 4
        lv.add_line(lv.add_vertex(x, k - n // 2), lv.add_vertex(x + length, k - n // 2), sd(0))
    return lv

def strips(nrow, n, run, extra):
    """rows of cells whose neighbours differ in sector: 4 segs per cell; the last cell of all has `run` pieces on top;
    `extra` lone lines (1 seg each) above it all.  The longest leaf has run + 3 segs."""
    lv = _lv()
    sd = Sides(lv)
    w, h, gap = 4, 8, 8
    def V(x, y):
        k = (x, y)
        if k not in vid:
            vid[k] = lv.add_vertex(x, y)
        return vid[k]
    vid = {}
    x0, y0 = -(n * w) // 2, -(nrow * (h + gap)) // 2
    for r in range(nrow):
        y = y0 + r * (h + gap)
        x = x0
        for i in range(n):
            last = r == nrow - 1 and i == n - 1
            ww = max(w, run) if last else w
            s = i % 2
            lv.add_line(V(x + ww, y), V(x, y), sd(s))
            if last:
                cut = [x + j for j in range(run)] + [x + ww]
                for a, b in zip(cut, cut[1:]):
                    lv.add_line(V(a, y + h), V(b, y + h), sd(s))
            else:
                lv.add_line(V(x, y + h), V(x + ww, y + h), sd(s))
            if i == 0:
                lv.add_line(V(x, y), V(x, y + h), sd(s))
            if i == n - 1:
                lv.add_line(V(x + ww, y + h), V(x + ww, y), sd(s))
            else:
                lv.add_line(V(x + ww, y + h), V(x + ww, y), sd(s), sd(1 - s))
            x += ww
    top = y0 + nrow * (h + gap) + 16
    for k in range(extra):
        lv.add_line(lv.add_vertex(x0, top + k), lv.add_vertex(x0 + 6, top + k), sd(0))
    return lv

def squares(nx, ny, rng, slanted, extra=0):
    """lone squares with vertices of their own and slanted lines across them: vertices run out first"""
    lv = _lv()
    sd = Sides(lv)
    step, size = 16, 12
    for i in range(nx):
        for j in range(ny):
            x, y = i * step - nx * step // 2, j * step - ny * step // 2
            P = [(x, y), (x, y + size), (x + size, y + size), (x + size, y)]
            for q in range(4):
                lv.add_line(lv.add_vertex(*P[q]), lv.add_vertex(*P[(q + 1) % 4]), sd(0))
    for _ in range(slanted):
        x, y = rng.randint(-nx * 8, nx * 7), rng.randint(-ny * 8, ny * 7)
        lv.add_line(lv.add_vertex(x, y), lv.add_vertex(x + rng.randint(20, 60), y + rng.randint(-40, 60)), sd(0))
    if extra:
        y = ny * 8 + 100
        prev = lv.add_vertex(-800, y)
        for k in range(extra - 1):
            nxt = lv.add_vertex(-800 + 4 * (k + 1), y)
            lv.add_line(prev, nxt, sd(0))
            prev = nxt
    return lv
