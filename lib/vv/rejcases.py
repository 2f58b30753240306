"""Cases for P11/P12: rays proposed for the sight specification, connected components, recorded tables."""
import bisect
from fractions import Fraction
from . import wad, mapgen

NOSIDE = 0xFFFF
TWOSIDED = 4

def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])

def geometry(lv, scale):
    """[(a, b, kind, front, back)] with scaled points; kind 0 solid, 1 sight passes, 2 ignored"""
    out = []
    for l in lv.lines:
        a, b = lv.verts[l["v1"]], lv.verts[l["v2"]]
        a, b = (a[0] * scale, a[1] * scale), (b[0] * scale, b[1] * scale)
        if a == b:
            continue
        f = lv.sides[l["front"]]["sector"] if l["front"] != NOSIDE else -1
        k = lv.sides[l["back"]]["sector"] if l["back"] != NOSIDE else -1
        two = bool(l["flags"] & TWOSIDED) and f >= 0 and k >= 0
        out.append((a, b, 1 if two else 0, f, k))
    return out

def scale_for(lv):
    m = max(max(abs(x), abs(y)) for x, y in lv.verts)
    for s in (8, 4, 2, 1):
        if m * s <= 11000:
            return s
    return 0

def walk(geo, p, q):
    """lines properly crossed by the segment p-q, or None when something is touched or an opaque line is met"""
    hit = []
    for i, (a, b, kind, f, k) in enumerate(geo):
        s1, s2 = cross(p, q, a), cross(p, q, b)
        if (s1 > 0 and s2 > 0) or (s1 < 0 and s2 < 0):
            continue
        t1, t2 = cross(a, b, p), cross(a, b, q)
        if (t1 > 0 and t2 > 0) or (t1 < 0 and t2 < 0):
            continue
        if 0 in (s1, s2, t1, t2) or kind == 0:
            return None
        hit.append(i)
    return hit

def reach(geo, p, d, eps):
    """how far (as a float multiple of d) one can go from p before an opaque line"""
    best = 1e9
    for a, b, kind, f, k in geo:
        if kind:
            continue
        ex, ey = b[0] - a[0], b[1] - a[1]
        den = d[0] * ey - d[1] * ex
        if den == 0:
            continue
        t = ((a[0] - p[0]) * ey - (a[1] - p[1]) * ex) / den
        u = ((a[0] - p[0]) * d[1] - (a[1] - p[1]) * d[0]) / den
        if t > 0 and -1e-9 <= u <= 1 + 1e-9 and t < best:
            best = t
    return best

def beam(geo, V, p, q, unit, rng):
    """the longest clear beam along p-q at least a unit wide; (P, Q, w, lines crossed) with w the displacement of the second ray"""
    dx, dy = q[0] - p[0], q[1] - p[1]
    n = (dx * dx + dy * dy) ** 0.5
    if n == 0:
        return None
    t, u = reach(geo, p, (dx, dy), 1), reach(geo, p, (-dx, -dy), 1)
    if t > 1e8 or u > 1e8:
        return None
    # free space on both sides of the ray
    lo, hi = -4.0 * unit, 4.0 * unit
    for x, y in V:
        a = ((x - p[0]) * dx + (y - p[1]) * dy) / n
        if -u * n <= a <= t * n:
            s = ((y - p[1]) * dx - (x - p[0]) * dy) / n
            if s >= 0:
                hi = min(hi, s)
            if s <= 0:
                lo = max(lo, s)
    need = unit * (abs(dx) + abs(dy)) / n + 2.5
    if hi - lo < need:
        return None
    shift = lo + (hi - lo - need) * rng.uniform(0.1, 0.9) + 0.7
    p = (p[0] - dy / n * shift, p[1] + dx / n * shift)
    p = (round(p[0]), round(p[1]))
    size = unit * (abs(dx) + abs(dy)) / n + 1
    w = (round(-dy / n * size), round(dx / n * size))
    p2 = (p[0] + w[0], p[1] + w[1])
    t = min(reach(geo, p, (dx, dy), 1), reach(geo, p2, (dx, dy), 1))
    u = min(reach(geo, p, (-dx, -dy), 1), reach(geo, p2, (-dx, -dy), 1))
    if t > 1e8 or u > 1e8:
        return None
    for margin in (1.5, 4, 12):
        tt, uu = t - margin / n, u - margin / n
        if tt + uu <= 0:
            return None
        Q = (round(p[0] + dx * tt), round(p[1] + dy * tt))
        P = (round(p[0] - dx * uu), round(p[1] - dy * uu))
        if P == Q:
            return None
        a = walk(geo, P, Q)
        b = walk(geo, (P[0] + w[0], P[1] + w[1]), (Q[0] + w[0], Q[1] + w[1]))
        if a is None or b is None:
            continue
        ex, ey = Q[0] - P[0], Q[1] - P[1]
        area = ex * w[1] - ey * w[0]
        if area < unit * (abs(ex) + abs(ey)):
            continue
        if any(free_of(P, Q, w, g) is False for g in geo):
            continue
        return P, Q, w, [i for i in a if i in b]
    return None

def free_of(P, Q, w, g):
    """no end of an opaque line inside of the beam"""
    if g[2]:
        return True
    ex, ey = Q[0] - P[0], Q[1] - P[1]
    area = ex * w[1] - ey * w[0]
    for x, y in g[:2]:
        a = ex * (y - P[1]) - ey * (x - P[0])
        b = w[0] * (y - P[1]) - w[1] * (x - P[0])
        if 0 <= a <= area and -area <= b <= 0:
            return False
    return True

def along(geo, w):
    s = set()
    for i in w:
        s.add(geo[i][3])
        s.add(geo[i][4])
    return s

def rays(rng, lv, scale, tries, want):
    """clear beams that together show many pairs of sectors; [(P, Q, w)]"""
    geo = geometry(lv, scale)
    V = list({p for g in geo if not g[2] for p in g[:2]})
    A = list({p for g in geo for p in g[:2]})
    xs = [p[0] for p in A]
    ys = [p[1] for p in A]
    seen, out = set(), []
    for i in range(tries):
        if i % 4 == 3 or len(A) < 3:
            p = (rng.randint(min(xs), max(xs)), rng.randint(min(ys), max(ys)))
            q = (rng.randint(min(xs), max(xs)), rng.randint(min(ys), max(ys)))
        else:
            v, w = rng.sample(A, 2)
            p = (v[0] + rng.choice([-1, 0, 1, -2, 2]), v[1] + rng.choice([-1, 0, 1, 2, -2]))
            q = (w[0] + rng.choice([-1, 0, 1, 2, -2]), w[1] + rng.choice([-1, 0, 1, -2, 2]))
        if p == q:
            continue
        r = beam(geo, V, p, q, scale, rng)
        if not r:
            continue
        s = frozenset(along(geo, r[3]))
        if len(s) < 2:
            continue
        new = {(a, b) for a in s for b in s if a < b}
        if new <= seen:
            continue
        seen |= new
        out.append(r[:3])
        if len(out) >= want:
            break
    return out, seen, geo

def table(rb, n):
    """rows of bits; the caller has checked the size"""
    g = lambda k: (rb[k >> 3] >> (k & 7)) & 1 if k >> 3 < len(rb) else 1
    return [[g(i * n + j) for j in range(n)] for i in range(n)]

def graze(lv):
    """weak sight: for every pair of sectors a line through two vertices that joins openings of them and
    crosses no opaque line in between; [[i][j]] -> [px, py, qx, qy, opening, opening] (1-based) or []"""
    geo = geometry(lv, 1)
    V = list({p for g in geo for p in g[:2]})
    n = len(lv.sectors)
    out = [[[] for _ in range(n)] for _ in range(n)]
    openings = [i for i, g in enumerate(geo) if g[2] == 1 and g[3] != g[4]]
    todo = {(x, y) for x in range(n) for y in range(x)}
    for x in range(len(V)):
        for y in range(x):
            (px, py), (qx, qy) = V[x], V[y]
            dx, dy = qx - px, qy - py
            blocks, meets = [], []
            for i, (a, b, k, f, s) in enumerate(geo):
                s1 = dx * (a[1] - py) - dy * (a[0] - px)
                s2 = dx * (b[1] - py) - dy * (b[0] - px)
                if (s1 > 0 and s2 > 0) or (s1 < 0 and s2 < 0):
                    continue
                t1 = dx * (a[0] - px) + dy * (a[1] - py)
                t2 = dx * (b[0] - px) + dy * (b[1] - py)
                if k == 0:
                    if s1 * s2 < 0:
                        blocks.append(Fraction(t1 * s2 - t2 * s1, s2 - s1))
                elif f != s and s1 != s2:
                    meets.append((Fraction(t1 * s2 - t2 * s1, s2 - s1), i))
                elif f != s:
                    meets.append((Fraction(t1), i))
            if len(meets) < 2:
                continue
            blocks.sort()
            groups = {}
            for t, i in meets:
                for g in {bisect.bisect_left(blocks, t), bisect.bisect_right(blocks, t)}:
                    groups.setdefault(g, []).append(i)
            for g in groups.values():
                who = {}
                for i in g:
                    who.setdefault(geo[i][3], i)
                    who.setdefault(geo[i][4], i)
                ks = sorted(who)
                for v, b in enumerate(ks):
                    for a in ks[v + 1:]:
                        if not out[a][b]:
                            out[a][b] = [px, py, qx, qy, who[a] + 1, who[b] + 1]
    return out
