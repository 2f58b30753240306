"""Traces of the pipeline (Pipeline.tla): runs with trace points and delays, against runs without."""
import hashlib, os, subprocess
from . import build, mapgen, wad, refcases

EMPTY = ["SEGS", "SSECTORS", "NODES", "REJECT", "BLOCKMAP"]

def level(rng, name):
    """-> (lumps, facts)"""
    k = rng.random()
    few = False
    if k < .15:
        lv = mapgen.Level(name)                       # next to nothing in it
        n = rng.choice([0, 1, 1, 2])
        if rng.random() < .8:
            lv.sectors.append(dict(floor=0, ceil=128, light=160, special=0, tag=0))
        for i in range(n + 1):
            lv.add_vertex(64 * i, 32 * (i % 2))
        for i in range(n):
            lv.add_line(i, i + 1, lv.add_side(0) if lv.sectors else mapgen.NOSIDE)
        few = True
    elif k < .3:
        lv = refcases.soup(rng, name)
        few = True
    else:
        lv = mapgen.any_level(rng, name)
    if rng.random() < .1:
        lv.sectors, lv.sides = [], []
        for l in lv.lines:
            l["front"] = l["back"] = mapgen.NOSIDE
    if rng.random() < .3:
        lv.hexen = True
    d = lv.lumps()
    ns = len(lv.sectors)
    lumps = [(n, d[n]) for n in ("THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SECTORS")]
    rej = bytes(rng.randrange(256) for _ in range((ns * ns + 7) // 8 + rng.choice([0, 0, 0, 1])))
    lumps += [(n, rej if n == "REJECT" else b"") for n in EMPTY]
    if lv.hexen:
        lumps.append(("BEHAVIOR", d["BEHAVIOR"]))
    if rng.random() < .4:
        rng.shuffle(lumps)
    return lumps, dict(hexen=lv.hexen, sides=len(lv.sides), sectors=ns, few=few, rejok=ns > 0 and len(rej) == (ns * ns + 7) // 8, rejwas=hashlib.md5(rej).hexdigest()[:12], rejgot="")

def options(rng):
    a, f = [], dict(det=False, nodes=True, bm=True, adv=False, rnc=False, fallback=False, rej="build", nag="no")
    if rng.random() < .5:
        a.append("-d")
        f["det"] = True
    k = rng.random()
    if k < .12:
        a.append("-n-")
        f["nodes"] = False
    else:
        g = []
        alg = rng.choice([0, 1, 2, 2, 2, 3, 4])
        g.append("a=%d" % alg)
        f["adv"] = alg == 2
        if rng.random() < .6:
            form = rng.choice("vdxzVXZ")
            g.append("c=" + form)
            f["fallback"] = form in "XZ"
        if rng.random() < .3:
            g.append("m=%d" % rng.choice([1, 2]))
        if rng.random() < .5:
            g.append("t=%d" % rng.choice([1, 2, 5]))
        a.append("-n" + "".join(g))
    k = rng.random()
    if k < .12:
        a.append("-b-")
        f["bm"] = False
    else:
        g = []
        if rng.random() < .5:
            g.append(rng.choice(["s", "s?", "a", "a?"]))
        if rng.random() < .4:
            g.append("r")
            f["rnc"] = True
        if rng.random() < .4:
            g.append("e=%d" % rng.choice([1, 2]))
        if rng.random() < .6:
            g.append("o=%s" % rng.choice(["1", "2", "0,0", "8,16"]))
        if rng.random() < .5:
            g.append("t=%d" % rng.choice([1, 2, 5]))
        if g:
            a.append("-b" + "".join(g))
    k = rng.random()
    rmb = None
    if k < .12:
        a.append("-r-")
        f["rej"] = "keep"
    elif k < .24:
        a.append("-rz")
        f["rej"] = "zero"
    else:
        g = []
        if rng.random() < .3:
            g.append("g-")
        if rng.random() < .4:
            g.append("s=%d" % rng.randint(0, 3))
        if rng.random() < .5:
            g.append("m")
            k = rng.random()
            if k < .4:
                rmb = "NOPROCESS\n"
                f["nag"] = "alone"
            elif k < .7:
                rmb = "NOPROCESS\n" + rng.choice(["ASSERT 0 0 0\n", "INCLUDE 0 0\n", "SAFE 0 0\n", "EXCLUDE (0) (0)\n"])
                f["nag"] = "more"
            elif k < .85:
                rmb = "LINE 0\n"
            else:
                rmb = rng.choice(["GROUP 0 0\nDISTANCE 300\n", "BLIND 1 0\n", "REPORT 300\n"])
        if g:
            a.append("-r" + "".join(g))
    if rng.random() < .1:
        a.append("--nosymm")
    return a, f, rmb

def digests(data):
    w = wad.Wad(data=data)
    return [(e.name, hashlib.md5(w.lump(i)).hexdigest()[:12]) for i, e in enumerate(w.entries)]

def execute(b, d, args, env, out, timeout=60):
    try:
        p = subprocess.run([b, "in.wad"] + args + ["-o", out], cwd=d, env=dict(os.environ, **env), stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("latin1")
    except subprocess.TimeoutExpired as x:
        return -999, (x.stdout or b"").decode("latin1")

def archive(rng):
    lumps, steps = [], []
    names = ["MAP01", "E1M2", "MAP07"][:rng.choice([1, 1, 1, 2, 2, 3])]
    for n in names:
        for _ in range(rng.choice([0, 0, 1, 2])):
            data = b"x" * rng.choice([0, 5])
            steps.append(dict(i=0, name="JUNK%d" % len(lumps), raw=bool(data), hexen=False, sides=0, sectors=0, few=False, rejok=False, rejwas="", rejgot="", lumps=[]))
            lumps.append(("JUNK%d" % len(lumps), data))
        ll, f = level(rng, n)
        mark = b"m" * rng.choice([0, 0, 7])
        steps.append(dict(f, i=0, name=n, raw=bool(mark), lumps=[x[0] for x in ll]))
        lumps.append((n, mark))
        lumps += ll
    return lumps, steps

def case(b, plain, rng, tag, linger):
    """-> (case or None, (args, data), trouble or None)"""
    d = os.path.join(build.scratch(), "pp" + tag)
    os.makedirs(d, exist_ok=True)
    lumps, steps = archive(rng)
    args, f, rmb = options(rng)
    data = wad.write_wad(None, lumps)
    open(os.path.join(d, "in.wad"), "wb").write(data)
    if rmb:
        open(os.path.join(d, "in.rej"), "w").write(rmb)
    extra = {"in.wad": data}
    if rmb:
        extra["in.rej"] = rmb.encode()
    info = (args, extra)
    jit, procs = rng.randint(1, 1 << 30), rng.choice([0, 1, 2, 8])
    env = dict(VV_TRACE=os.path.join(d, "trace"), VV_LINGER=str(linger))
    if rng.random() < .85:
        env["VV_JITTER"] = str(jit)
    if procs:
        env["GOMAXPROCS"] = str(procs)
    for x in ("trace", "out.wad", "want.wad"):
        if os.path.exists(os.path.join(d, x)):
            os.unlink(os.path.join(d, x))
    rc, text = execute(b, d, args, env, "out.wad")
    if rc == -999:
        return None, info, ("deadlock", "the run does not end: %s" % text[-300:])
    if rc != 0:
        return None, info, ("deadlock" if "deadlock" in text else "crash", "exit status %d: %s" % (rc, text[-300:]))
    rc2, text2 = execute(plain, d, args, {}, "want.wad")
    if rc2 != 0:
        return None, info, ("deadlock" if rc2 == -999 or "deadlock" in text2 else "crash", "exit status %d: %s" % (rc2, text2[-300:]))
    got, want = [digests(open(os.path.join(d, o), "rb").read()) for o in ("out.wad", "want.wad")]
    # the directory may have been put in the usual order
    names, size = [x[0] for x in got], {x[0]: len(x[1]) for x in lumps}
    if sorted(names) != sorted(x[0] for x in lumps) or [x[0] for x in want] != names:
        return None, info, ("shape", "directory %s" % names)
    for s in steps:
        s["i"] = names.index(s["name"])
        if s["lumps"]:
            s["rejgot"] = got[names.index("REJECT", s["i"])][1]
            s["lumps"] = [dict(n=n, i=names.index(n, s["i"])) for n in s["lumps"]]   # read in the order of the input
    steps.sort(key=lambda s: s["i"])
    same = [dict(got=g[1], want=w[1]) for g, w in zip(got, want) if f["det"] or g[0] != "BLOCKMAP"]
    trace = []
    for l in open(os.path.join(d, "trace")).read().splitlines():
        w = l.split()
        if w[0] in ("bee", "tree", "roots"):
            continue
        if w[0] == "bus":
            w = ["sync"] if w[1] == "3" else ["bus", w[2]]
        trace.append([w[0]] + [int(x) for x in w[1:]])
    return dict(f, dir=steps, trace=trace, lumps=same), info, None
