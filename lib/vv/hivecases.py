"""Searches for a blockmap offset, recorded (OffsetHive.tla); runs to compare (Determ.tla)."""
import hashlib, os, struct, subprocess
from . import build, mapgen, wad, run, bmcases

SERIES = [(x, y) for y in range(0, 41, 8) for x in range(0, 41, 8)]

def near(rng, lines):
    """a wide map of many short lines"""
    lv = mapgen.Level("MAP01")
    lv.sectors.append(dict(floor=0, ceil=128, light=160, special=0, tag=0))
    side = lv.add_side(0, mid="STARTAN3")
    W, H = 165, 150
    x0, y0 = -W * 64, -H * 64
    cells = rng.sample(range(W + 1, W * (H - 1)), lines)
    lv.add_line(lv.add_vertex(x0, y0), lv.add_vertex(x0 + 8, y0 + 4), side)
    for q in cells:
        x, y = x0 + 128 * (q % W) + rng.randrange(128), y0 + 128 * (q // W) + rng.randrange(128)
        lv.add_line(lv.add_vertex(x, y), lv.add_vertex(x + rng.randint(1, 12), y + rng.randint(0, 12)), side)
    lv.add_line(lv.add_vertex(x0 + 128 * W - 4, y0 + 128 * H - 4), lv.add_vertex(x0 + 128 * W - 1, y0 + 128 * H - 1), side)
    lv.things.append((0, 0, 0, 1, 7))
    return lv

class Runner:
    def __init__(self, d):
        self.d, self.trouble = d, None
    def __call__(self, b, args, env=None, out="o.wad", timeout=60):
        p = os.path.join(self.d, out)
        r = run.run(b, args + [os.path.join(self.d, "i.wad"), "-o", p], timeout=timeout, env=env)
        if r.rc != 0 or not os.path.exists(p):
            self.trouble = (args, r.rc, r.out[-400:])
            return None
        return p

def words(p):
    bm = wad.Wad(p).level("MAP01")["BLOCKMAP"]
    return list(struct.unpack("<%dH" % (len(bm) // 2), bm))

def case(b, plain, rng, tag):
    """-> (case or None, info)"""
    d = os.path.join(build.scratch(), "ph" + tag)
    os.makedirs(d, exist_ok=True)
    go = Runner(d)
    z = rng.choice([0, 1, 1, 2])
    sub = rng.choice(["", "", "", "s", "a"])
    det = rng.random() < .7
    e = rng.choice([0, 1, 1, 2])
    edge = e and rng.random() < .75
    base = "-bz=%d%s" % (z, "" if edge else sub)
    if edge:
        limit = 32767 if e == 1 else 65535
        lines, lv = (rng.choice([1500, 2000]) if e == 1 else 9000), None
        for _ in range(2):
            lv = near(rng, lines)
            wad.write_wad(os.path.join(d, "i.wad"), lv.lump_list())
            p = go(plain, [base + "o=16,16", "-n-", "-r-"])
            if p is None:
                return None, dict(trouble=go.trouble, files={"i.wad": open(os.path.join(d, "i.wad"), "rb").read()})
            s = bmcases.summary(words(p), z)
            have = s["maxoff"] if s["size"] else 70000
            lines += int((limit - have) / (3.15 if z else 2.15) + rng.gauss(0, 4))
            if lines < 10 or lines > 20000:
                return None, None
        lv = near(rng, lines)
    else:
        lv = mapgen.any_level(rng, p_inner=0.3, W=rng.randint(2, 6), H=rng.randint(2, 6)) if rng.random() < 0.6 else bmcases.soup(rng)
        bmcases.spice(rng, lv, False)
        if min(v[0] for v in lv.verts) < -32600 or min(v[1] for v in lv.verts) < -32600:
            return None, None
    data = wad.write_wad(os.path.join(d, "i.wad"), lv.lump_list())
    if data is None:
        data = open(os.path.join(d, "i.wad"), "rb").read()
    files = {"i.wad": data}
    dd = ["-d"] if det else []
    cand = []
    for x, y in SERIES:
        p = go(plain, [base + "o=%d,%d" % (x, y)] + dd + ["-n-", "-r-"])
        if p is None:
            return None, dict(trouble=go.trouble, files=files)
        cand.append(bmcases.summary(words(p), z))
    l = lv.lines[0]
    (x1, y1), (x2, y2) = lv.verts[l["v1"]], lv.verts[l["v2"]]
    elig0 = l["tag"] != 999 and (x2 - x1) ** 2 + (y2 - y1) ** 2 < 2048 ** 2
    prefer = z == 1 and elig0
    val = [dict(cls=2 if s["size"] == 0 else 1 if s["maxoff"] > 32767 else 0, size=s["size"], nz=1 if prefer and s["hdr"] != 0 else 0, skip=False) for s in cand]
    cases, infos = [], []
    for k in range(4):
        t = rng.choice([1, 2, 2, 3, 5, 8])
        args = [base + "o=2t=%d" % t + ("e=%d" % e if e else "")] + dd + ["-n-", "-r-"]
        env = dict(VV_TRACE=os.path.join(d, "trace"), VV_JITTER=str(rng.randint(1, 1 << 30)), GOMAXPROCS=str(rng.choice([1, 2, 4, 8])))
        if k == 3:
            env.pop("VV_JITTER")
        if os.path.exists(env["VV_TRACE"]):
            os.unlink(env["VV_TRACE"])
        p = go(b, args, env)
        if p is None:
            return None, dict(trouble=go.trouble, files=files)
        s = bmcases.summary(words(p), z)
        trace = []
        for line in open(env["VV_TRACE"]).read().splitlines():
            w = line.split()
            if w[0] == "bee":
                trace.append((int(w[2]) // 8) * 6 + int(w[1]) // 8 + 1)
        cases.append(dict(val=val, det=det, e=e, n=t, trace=trace, final=[i + 1 for i in range(36) if cand[i]["sum"] == s["sum"]],
                          edge=bool(edge)))
        infos.append((args, files))
    return cases, infos

# ------------------------------------------------------------ runs to compare
def options(rng):
    """options that decide the result; -> args, goal, search"""
    a, goal, search = [], 0, True
    g = []
    if rng.random() < .9:
        g.append(rng.choice(["s", "s?", "a", "a?", "", ""]))
        if rng.random() < .3:
            g.append("z=%d" % rng.choice([0, 2]))
        k = rng.random()
        if k < .15:
            g.append(rng.choice(["o=0", "o=8,24"]))
            search = False
        elif k < .2:
            g.append("o=4")
        elif k < .25:
            g.append("o=3")
        if search and rng.random() < .5:
            goal = rng.choice([1, 2])
            g.append("e=%d" % goal)
        if rng.random() < .2:
            g.append("r")
    a.append(("-b", "".join(g)))
    g = []
    if rng.random() < .9:
        g.append("a=%d" % rng.choice([0, 0, 1, 2, 3, 4]))
        if rng.random() < .4:
            g.append("m=%d" % rng.choice([1, 1, 2, 3]))
        if rng.random() < .4:
            g.append("c=" + rng.choice("vdxzVXZ"))
        if rng.random() < .3:
            g.append("i=%d" % rng.randint(0, 2))
        if rng.random() < .3:
            g.append("p=%d" % rng.randint(0, 2))
    a.append(("-n", "".join(g)))
    g = []
    if rng.random() < .5:
        g.append("s=%d" % rng.randint(0, 3))
    if rng.random() < .3:
        g.append("g-")
    a.append(("-r", "".join(g)))
    a = [x for x in a if x[1] or rng.random() < .3]
    more = rng.sample(["--nosymm", "--unreversenodes", "--detailnodes=%d" % rng.randint(0, 2), "-o"], rng.choice([0, 0, 1]))
    more = [m for m in more if m != "-o"]
    return a, more, goal, search

def vary(rng, a, more, det, d):
    """the same options in other words"""
    out = []
    for o, g in a:
        if o == "-b" and rng.random() < .7:
            g += "t=%d" % rng.choice([1, 2, 3, 4, 5, 7, 16, 40])
        if o == "-n" and rng.random() < .7:
            g += "t=%d" % rng.choice([1, 2, 3, 5, 16])
        if g or o != "-r" or rng.random() < .8:
            out.append(o + g)
    out += more
    if det:
        out.append("-d")
        for x in ("--stknode", "--speedtree", "--sidecache=%d" % rng.randint(0, 2), "-v", "-vv", "--hashlump",
                  ("--cpuprofile", os.path.join(d, "cpu")), ("--memprofile", os.path.join(d, "mem"))):
            if rng.random() < .15:
                out.append(x)
    rng.shuffle(out)
    return [y for x in out for y in (x if isinstance(x, tuple) else (x,))]

def lumps_of(p):
    w = wad.Wad(p)
    res = []
    for i, e in enumerate(w.entries):
        x = w.lump(i)
        cls = 0
        if e.name == "BLOCKMAP":
            ws = list(struct.unpack("<%dH" % (len(x) // 2), x[:len(x) // 2 * 2]))
            s = bmcases.summary(ws, 0) if len(ws) >= 4 else dict(size=0, maxoff=0)
            cls = 2 if s["size"] == 0 else 1 if s["maxoff"] > 32767 else 0
        res.append(dict(name=e.name, size=len(x), sum=hashlib.md5(x).hexdigest(), cls=cls))
    return res

def group(b, plain, rng, tag, runs):
    d = os.path.join(build.scratch(), "pg" + tag)
    os.makedirs(d, exist_ok=True)
    arc = []
    for n in rng.sample(["MAP01", "MAP02", "E1M1"], rng.choice([1, 1, 2])):
        k = rng.random()
        if k < .25:
            from . import refcases
            lv = refcases.soup(rng, n)
        elif k < .4:
            lv = near(rng, rng.choice([2000, 2350, 2400]))
            lv.name = n
        else:
            lv = mapgen.any_level(rng, n, p_inner=rng.choice([0, .3]))
        arc += lv.lump_list()
    a, more, goal, search = options(rng)
    a = a or [("-r", "")]
    if "o=3" in a[0][1] or "o=4" in a[0][1]:       # many offsets
        a[0] = ("-b", a[0][1].lstrip("sa?"))
        arc = mapgen.any_level(rng, "MAP01", W=2, H=2).lump_list()
    big = sum(len(x[1]) for x in arc) > 20000
    if big:          # never mind the time of a brute search
        a = [(o, g.replace("o=4", "").replace("o=3", "").replace("m=1", "").replace("m=2", "").replace("m=3", "")) for o, g in a]
    files = {}
    data = wad.write_wad(os.path.join(d, "i.wad"), arc)
    files["i.wad"] = open(os.path.join(d, "i.wad"), "rb").read()
    open(os.path.join(d, "other.wad"), "wb").write(files["i.wad"])
    got = []
    for i in range(runs):
        det = i < 2 or rng.random() < .7
        args = vary(rng, a, more, det, d)
        env = dict(GOMAXPROCS=str(rng.choice([1, 1, 2, 4, 8, 16])))
        use = plain
        if i > 0 and rng.random() < .6:
            use = b
            env["VV_JITTER"] = str(rng.randint(1, 1 << 30))
        if rng.random() < .15:
            env["GOGC"] = rng.choice(["1", "5", "off"])
        p = os.path.join(d, rng.choice(["o.wad", "x.wad"]))
        r = run.run(use, args + [rng.choice(["i.wad", "other.wad", os.path.join(d, "i.wad")]), "-o", p], cwd=d, timeout=120, env=env)
        if r.rc != 0 or not os.path.exists(p):
            return None, dict(trouble=(args, r.rc, r.out[-400:]), files=files)
        got.append(dict(det=det, file=hashlib.md5(open(p, "rb").read()).hexdigest(), lumps=lumps_of(p), args=args))
        os.unlink(p)
    for x in os.listdir(d):
        os.unlink(os.path.join(d, x))
    return dict(runs=got, goal=goal, search=search), dict(files=files, args=[g["args"] for g in got])
