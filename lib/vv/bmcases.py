"""Maps and runs for the blockmap properties."""
import hashlib, os, struct
from . import mapgen, wad, run

def soup(rng, name="MAP01"):
    """arbitrary, possibly crossing lines: only a blockmap can be asked for"""
    lv = mapgen.Level(name)
    lv.sectors.append(dict(floor=0, ceil=128, light=160, special=0, tag=0))
    R = rng.choice([100, 300, 600, 1200])
    cx, cy = rng.choice([(0, 0), (rng.randint(-5000, 5000), rng.randint(-5000, 5000)), (-32768 + R + 10, 32767 - R - 10)])
    snap = rng.choice([1, 1, 8, 32, 128])
    def v():
        x = max(-32768, min(32767, cx + rng.randint(-R, R) // snap * snap))
        y = max(-32768, min(32767, cy + rng.randint(-R, R) // snap * snap))
        return x, y
    for _ in range(rng.randint(1, 24)):
        a = v()
        k = rng.random()
        if k < 0.25:
            s = rng.choice([1, 2, 3, 10, 127, 128, 129])
            d = rng.choice([(s, 0), (0, s), (s, s), (s, -s), (-s, s), (s, 2 * s), (-2 * s, s)])
            b = (a[0] + d[0], a[1] + d[1])
        elif k < 0.4:
            s = rng.randint(-R, R)
            b = rng.choice([(a[0] + s, a[1]), (a[0], a[1] + s), (a[0] + s, a[1] + s), (a[0] + s, a[1] - s)])
        elif k < 0.5 and cx == 0:
            b = (a[0] + rng.choice([2040, 2047, 2048, 2060, 1500]), a[1] + rng.choice([0, 3, 1400, 2048]))
        else:
            b = v()
        b = tuple(max(-32768, min(32767, q)) for q in b)
        if a == b:
            b = (a[0] + (1 if a[0] < 32767 else -1), a[1])
        i, j = lv.add_vertex(*a), lv.add_vertex(*b)
        f = lv.add_side(0, mid="STARTAN3")
        if rng.random() < 0.3:
            g = lv.add_side(0)
            lv.add_line(i, j, f, g)
        else:
            lv.add_line(i, j, f)
    lv.things.append((cx, cy, 0, 1, 7))
    return lv

def spice(rng, lv, br):
    """actions, tags, blocking flags, equal heights - whatever decides membership"""
    for l in lv.lines:
        r = rng.random()
        if r < 0.06:
            l["tag"] = 999
        elif r < 0.12:
            l["action"] = rng.choice([1, 11, 97, 998])
        if l["back"] != mapgen.NOSIDE:
            q = rng.random()
            if q < 0.12:
                l["flags"] |= rng.choice([1, 2, 4096, 8192, 64, 16])
            elif q < 0.16:
                l["flags"] &= ~4
    if rng.random() < 0.15 and lv.lines:
        rng.choice(lv.lines)["action"] = rng.choice([7, 8, 9, 100, 127, 106, 107, 146, 155, 191, 256, 259, 0x3000, 0x33FF, 0x3400, 260])
    if br:
        for s in lv.sectors:
            if rng.random() < 0.8:
                s["floor"], s["ceil"] = 0, 128
            if rng.random() < 0.1:
                s["tag"] = rng.choice([1, 5])
            if rng.random() < 0.1:
                s["special"] = rng.choice([10, 14, 1, 9])
    if rng.random() < 0.4 and lv.lines:   # a self-referencing sector somewhere
        sx = len(lv.sectors)
        lv.sectors.append(dict(floor=0, ceil=128, light=160, special=0, tag=0))
        x, y = lv.verts[rng.randrange(len(lv.verts))]
        x, y = max(-32000, min(32000, x + 13)), max(-32000, min(32000, y + 17))
        w = rng.choice([4, 40, 200])
        vs = [lv.add_vertex(*p) for p in ((x, y), (x, y + w), (x + w, y + w), (x + w, y))]
        for i in range(4):
            lv.add_line(vs[i], vs[(i + 1) % 4], lv.add_side(sx), lv.add_side(sx))

def hexen_of(lv):
    lv.hexen = True
    for l in lv.lines:
        l["action"] = l["action"] if l["action"] < 256 else 0

def mapcase(b, d, rng, tag):
    """one run -> (case, info)"""
    nodes = False
    if rng.random() < 0.45:
        lv = soup(rng)
    else:
        lv = mapgen.any_level(rng, scale=1, p_inner=0.3)
        nodes = rng.random() < 0.3
    br = rng.random() < 0.35
    spice(rng, lv, br)
    if rng.random() < 0.12:
        hexen_of(lv)
    # scrollers: dummy lines appear only together with nodes
    for l in lv.lines:
        if rng.random() < 0.1 and not lv.hexen:
            l["action"] = 48
            l["tag"] = rng.choice([0, 2, 5])
    z = rng.choice([0, 1, 1, 2])
    sub = rng.choice(["none", "none", "s", "s", "a", "s?", "a?"])
    args = []
    g = {"z=%d" % z}
    if z == 1 and rng.random() < 0.5:
        g = set()
    opts = sorted(g)
    offx = offy = 0
    if rng.random() < 0.25:
        offx, offy = rng.choice([(8, 8), (0, 127), (64, 3), (127, 127), (1, 0)])
        opts.append("o=%d,%d" % (offx, offy))
    else:
        o = rng.choice(["0", "1", "2", None, None])
        if o == "0":
            opts.append("o=0")
        elif o == "1":
            opts.append("o=1")
            offx = offy = 8
        else:
            if o:
                opts.append("o=2")
            offx = -1
            if rng.random() < 0.3:
                opts.append("e=%d" % rng.choice([0, 1, 2]))
    if sub != "none":
        opts.append(sub)
    if br:
        opts.append("r")
    if rng.random() < 0.3:
        opts.append("t=%d" % rng.choice([1, 2, 3, 7]))
    rng.shuffle(opts)
    args.append("-b" + "".join(opts))
    if rng.random() < 0.5:
        args.append("-d")
    args += (["-n"] if nodes else ["-n-"]) + ["-r-"]
    rng.shuffle(args)
    # effective offsets after the cut near the coordinate limit
    inp = os.path.join(d, tag + ".wad")
    out = os.path.join(d, tag + "o.wad")
    extra = ("THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SECTORS")
    lumps = lv.lump_list(extra)
    wad.write_wad(inp, lumps)
    r = run.run(b, args + [inp, "-o", out], timeout=60)
    info = dict(args=args, rc=r.rc, log=r.out, data=open(inp, "rb").read())
    case = None
    if r.rc == 0 and os.path.exists(out):
        try:
            L = wad.Wad(out).level("MAP01")
            case = decode(L, lv, lv.hexen)
        except (wad.WadError, wad.DecodeError, struct.error, KeyError, IndexError) as e:
            info["undecodable"] = repr(e)
    if case is not None:
        xs = [v for l in case["lines"] for v in (l["x1"], l["x2"])]
        ys = [v for l in case["lines"] for v in (l["y1"], l["y2"])]
        if offx >= 0 and (min(xs) - 127 < -32768 or min(ys) - 127 < -32768):
            offx = -1
        case["opt"] = dict(z=z, sub=sub[0] if sub != "none" else "none", br=br, hexen=lv.hexen, offx=offx, offy=offy)
        if sub.endswith("?"):
            # the cheaper modes are tried first; a map this small never needs them
            case["opt"]["sub"] = "none"
        case["kind"] = "map"
        case["mustfit"] = True
        case["mustempty"] = False
        case["args"] = args
    for f in (inp, out):
        if os.path.exists(f):
            os.unlink(f)
    return case, info

def decode(L, lv, hexen):
    vx = wad.vertexes(L["VERTEXES"])
    ls = wad.linedefs(L["LINEDEFS"], hexen)
    sd = wad.sidedefs(L["SIDEDEFS"])
    lines = []
    for l in ls:
        (x1, y1), (x2, y2) = vx[l["v1"]], vx[l["v2"]]
        lines.append(dict(x1=x1, y1=y1, x2=x2, y2=y2, fl=l["flags"], act=l["action"], tag=l["tag"],
                          fs=sd[l["front"]]["sector"] if l["front"] < len(sd) else -1,
                          bs=sd[l["back"]]["sector"] if l["back"] < len(sd) else -1))
    bm = L["BLOCKMAP"]
    if len(bm) % 2:
        raise wad.DecodeError("odd blockmap size")
    words = list(struct.unpack("<%dH" % (len(bm) // 2), bm))
    ox = oy = w = h = 0
    if len(bm) >= 8:
        ox, oy, w, h = struct.unpack_from("<hhHH", bm, 0)
    return dict(words=words, lines=lines, marks=list(range(len(lv.lines) + 1, len(lines) + 1)), ox=ox, oy=oy, w=w, h=h,
                secs=[dict(f=s["floor"], c=s["ceil"], tag=s["tag"], sp=s["special"]) for s in lv.sectors])

# ---------------------------------------------------------------- offset limit
def tinymap(rng, z, target, steal_free=True):
    """W*H blocks; m of them hold exactly one distinct tiny line, one holds k: last list starts at `target`"""
    hdr = 1 if z else 0
    W, H = rng.randint(120, 170), rng.randint(120, 160)
    nb = W * H
    # last list start = 4 + nb + (empty list 1+hdr) + sum over single lists (2+hdr)
    per = 2 + hdr
    base = 4 + nb + 1 + hdr
    m, rem = divmod(target - base, per)
    if m < 10 or m > nb - 10:
        return None
    cells = [q for q in range(nb) if q not in (0, nb - 1)]
    pick = rng.sample(cells, m + 1)
    lv = mapgen.Level("MAP01")
    lv.sectors.append(dict(floor=0, ceil=128, light=160, special=0, tag=0))
    side = lv.add_side(0, mid="STARTAN3")
    x0, y0 = -W * 64, -H * 64
    def put(q, dx=0, dy=0):
        x, y = x0 + 128 * (q % W) + 30 + dx, y0 + 128 * (q // W) + 30 + dy
        lv.add_line(lv.add_vertex(x, y), lv.add_vertex(x + 8, y + rng.choice([0, 8])), side)
    # corners fix the grid without adding blocks: they are lines in the first and the last block
    k = 6
    counts = {}
    for q in pick[1:]:
        counts[q] = 1
    # two of the singles take an extra line each to reach the remainder exactly
    it = iter(pick[1:])
    for _ in range(rem):
        counts[next(it)] += 1
    big = pick[0]
    # first block: at the origin corner; last block: the opposite one.  They cost (2+hdr) each; leave two singles out
    drop = list(counts)[-2:]
    for q in drop:
        del counts[q]
    order = []
    for q, n in counts.items():
        order += [q] * n
    order += [big] * k
    rng.shuffle(order)
    lv.add_line(lv.add_vertex(x0, y0), lv.add_vertex(x0 + 8, y0 + 4), side)
    seen = {}
    for q in order:
        i = seen.get(q, 0)
        seen[q] = i + 1
        put(q, i * 10, 0)
    lv.add_line(lv.add_vertex(x0 + 128 * W - 4, y0 + 128 * H - 4), lv.add_vertex(x0 + 128 * W - 1, y0 + 128 * H - 1), side)
    lv.things.append((0, 0, 0, 1, 7))
    return lv

def tinycase(b, d, rng, tag):
    z = rng.choice([0, 1, 2])
    delta = rng.choice([-40, -2, -1, 0, 0, 1, 2, 3, 50, -3])
    sub = rng.choice(["none", "none", "none", "s", "a", "s?", "sa?"])
    lv = None
    while lv is None:
        lv = tinymap(rng, z, 65535 + delta)
    o = ["z=%d" % z, "o=0"]
    if sub != "none":
        o.append({"sa?": "sa?"}.get(sub, sub))
    if sub == "none" and rng.random() < 0.3:
        o.append("e=%d" % rng.choice([1, 2]))
    inp, out = os.path.join(d, tag + ".wad"), os.path.join(d, tag + "o.wad")
    wad.write_wad(inp, lv.lump_list())
    args = ["-b" + "".join(o), "-n-", "-r-"]
    r = run.run(b, args + [inp, "-o", out], timeout=120)
    info = dict(args=args, rc=r.rc, log=r.out, data=open(inp, "rb").read())
    case = None
    if r.rc == 0 and os.path.exists(out):
        try:
            L = wad.Wad(out).level("MAP01")
            case = decode(L, lv, False)
        except (wad.WadError, wad.DecodeError, struct.error, KeyError, IndexError) as e:
            info["undecodable"] = repr(e)
    if case is not None:
        case["lines"] = [{k: l[k] for k in ("x1", "y1", "x2", "y2", "tag", "act", "fl", "fs", "bs")} for l in case["lines"]]
        steal = 1 if z == 1 else 0
        case.update(kind="tiny", opt=dict(z=z, sub=sub[0] if sub != "none" else "none", br=False, hexen=False, offx=-1, offy=0),
                    mustfit=sub == "none" and delta <= 0, mustempty=sub == "none" and delta - steal > 0, args=args, delta=delta)
        if sub == "s?" or sub == "sa?":
            case["mustfit"] = delta <= -steal
            case["opt"]["sub"] = "s"
    for f in (inp, out):
        if os.path.exists(f):
            os.unlink(f)
    return case, info

# ---------------------------------------------------------------- best offset
def summary(words, hdr):
    if not words:
        return dict(size=0, maxoff=0, hdr=0, sum="empty")
    w, h = words[2], words[3]
    offs = words[4:4 + w * h]
    hd = 0
    if hdr and offs:
        hd = words[offs[0]] if offs[0] < len(words) else -1
    return dict(size=len(words), maxoff=max(offs) if offs else 0, hdr=hd,
                sum=hashlib.md5(struct.pack("<%dH" % len(words), *words)).hexdigest())

def bestcase(b, d, rng, tag):
    lv = mapgen.any_level(rng, p_inner=0.3, W=rng.randint(2, 6), H=rng.randint(2, 6)) if rng.random() < 0.6 else soup(rng)
    spice(rng, lv, False)
    xs, ys = [v[0] for v in lv.verts], [v[1] for v in lv.verts]
    if min(xs) < -32600 or min(ys) < -32600:
        return None, None
    z = rng.choice([0, 1, 1, 2])
    sub = rng.choice(["none", "none", "s", "a"])
    det = rng.random() < 0.6
    base = ["z=%d" % z] + ([sub] if sub != "none" else [])
    inp = os.path.join(d, tag + ".wad")
    wad.write_wad(inp, lv.lump_list())
    def go(o, more=()):
        out = os.path.join(d, tag + "o.wad")
        args = ["-b" + "".join(base + [o] + list(more))] + (["-d"] if det else []) + ["-n-", "-r-"]
        r = run.run(b, args + [inp, "-o", out], timeout=60)
        if r.rc != 0 or not os.path.exists(out):
            return None, args, r
        bm = wad.Wad(out).level("MAP01")["BLOCKMAP"]
        os.unlink(out)
        return list(struct.unpack("<%dH" % (len(bm) // 2), bm)), args, r
    cand = []
    full = rng.random() < 0.75
    series = [(x, y) for y in range(0, 41, 8) for x in range(0, 41, 8)]
    if not full:
        series = [(0, 0)] + [(rng.randint(0, 127), rng.randint(0, 127)) for _ in range(14)]
    o = "o=2" if full else rng.choice(["o=3", "o=4"])
    for x, y in series:
        w, a, r = go("o=%d,%d" % (x, y))
        if w is None:
            return None, dict(args=a, rc=r.rc, log=r.out, data=open(inp, "rb").read())
        if o == "o=3" and cand and w and w[2] > grid0[0] and w[3] > grid0[1]:
            continue        # the heuristic is documented to skip these
        if not cand:
            grid0 = w[2:4]
        cand.append(summary(w, z))
    t = rng.choice([[], ["t=1"], ["t=3"], ["t=5"], ["t=40"]])
    w, a, r = go(o, t)
    info = dict(args=a, rc=r.rc, log=r.out, data=open(inp, "rb").read())
    os.unlink(inp)
    if w is None:
        return None, info
    l = lv.lines[0]
    (x1, y1), (x2, y2) = lv.verts[l["v1"]], lv.verts[l["v2"]]
    elig0 = l["tag"] != 999 and (x2 - x1) ** 2 + (y2 - y1) ** 2 < 2048 ** 2
    return dict(cand=cand, best=summary(w, z), det=det and sub == "none", full=full, preferzero=z == 1 and elig0 and sub == "none",
                args=a), info
