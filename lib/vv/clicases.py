"""Command lines: random spellings of settings, mutilated arguments, and the recorded effect on every part of the output (Cli.tla)."""
import base64, hashlib, os, re, random, struct, subprocess
from . import build, mapgen, wad

WORDS = "cpuprofile memprofile unreversenodes disableudmf hashlump eject ableist nosymm detailnodes sidecache stknode speedtree roots zenvar".split()
NODEPART = ("LINEDEFS", "VERTEXES", "SEGS", "SSECTORS", "NODES")

def chars(s):
    return list(s)

def h(*parts):
    m = hashlib.sha1()
    for p in parts:
        m.update(struct.pack("<I", len(p)) + p)
    return m.hexdigest()[:12]

def fake(rng, lv):
    """parts that no builder would make, so that it shows whether they were rebuilt"""
    n = len(lv.sectors)
    return [("SEGS", bytes(rng.randrange(256) for _ in range(24))), ("SSECTORS", bytes(rng.randrange(256) for _ in range(8))),
            ("NODES", bytes(rng.randrange(256) for _ in range(28))),
            ("REJECT", bytes(rng.randrange(1, 256) for _ in range((n * n + 7) // 8))),
            ("BLOCKMAP", bytes(rng.randrange(256) for _ in range(30)))]

def lively(rng, lv):
    for l in lv.lines:
        if l["back"] != mapgen.NOSIDE and rng.random() < .25:
            l["action"], l["tag"] = rng.choice([(0, 999), (0, 998), (1, 0), (1086, 0), (97, 3)])
    return lv

def fixed_levels():
    """always the same two, on which the settings of TELL are known to show"""
    rng = random.Random(9)
    a = mapgen.tri_level(rng, npts=rng.choice([20, 40, 60]), nsec=rng.choice([3, 8]), void=.2, p_inner=.3)
    lively(rng, a)
    rng = random.Random(3)
    b = mapgen.grid_level(rng, "MAP02", W=7, H=6, nsec=9, void=.15, unit=96, p_inner=.35)
    return [a, lively(rng, b)]

# settings each of which, alone, changes this part of that map
TELL = [(1, "b", a) for a in ("-bz=0", "-bz=2", "-bs", "-ba", "-br", "-be=1", "-be=2", "-bo=3", "-bo=4")] \
     + [(1, "n", a) for a in ("-na=1", "-na=2", "-na=4", "-na=2p=1", "-na=2p=2", "-na=1p=1", "-nf=1", "-nf=200", "-nd=10", "-nd=500", "-nm=1",
                              "-nm=2", "-nm=3", "--unreversenodes", "--detailnodes=2", "-na=4 --zenvar:x1=90")] \
     + [(2, "n", a) for a in ("-ni=1", "-ni=2")] \
     + [(1, "r", a) for a in ("-rs=1", "-rs=2", "-rs=3", "-rz")]

def origin(lv):
    xs = [lv.verts[v][0] for l in lv.lines for v in (l["v1"], l["v2"])]
    ys = [lv.verts[v][1] for l in lv.lines for v in (l["v1"], l["v2"])]
    return min(xs), min(ys)

class Archive:
    def __init__(self, rng, lvs):
        lumps = [("PRE", b"some text")]
        self.maps = []
        for lv in lvs:
            f = fake(rng, lv)
            ll = lv.lump_list() + f
            if lv.hexen:
                b = [x for x in ll if x[0] == "BEHAVIOR"]
                ll = [x for x in ll if x[0] != "BEHAVIOR"] + b
            lumps += ll
            d = dict(ll)
            x, y = origin(lv)
            self.maps.append(dict(name=chars(lv.name), fb=h(d["BLOCKMAP"]), fn=h(*(d.get(k, b"") for k in NODEPART)), fr=h(d["REJECT"]), x=x, y=y))
        lumps.append(("POST", b"\x00" * 33))
        self.names = [lv.name for lv in lvs]
        p = os.path.join(build.scratch(), "cli-archive")
        self.data = wad.write_wad(p, lumps)
        os.unlink(p)

    def parts(self, od):
        w = wad.Wad(data=od)
        out = []
        for n in self.names:
            l = w.level(n)
            if l is None:
                out.append(dict(there=False, b="", n="", r="", origin=[0, 0], format="", zlevel=0, rzero=False))
                continue
            b, r, nd = l.get("BLOCKMAP", b""), l.get("REJECT", b""), l.get("NODES", b"")
            fmt, lvl = "vanilla", 0
            if nd[:8] == b"xNd4\0\0\0\0":
                fmt = "deep"
            elif nd[:4] in (b"XNOD", b"ZNOD"):
                fmt = nd[:4].decode().lower()
                if fmt == "znod" and len(nd) > 6:
                    lvl = nd[5] >> 6
            out.append(dict(there=True, b=h(b), n=h(*(l.get(k, b"") for k in NODEPART)), r=h(r),
                            origin=list(struct.unpack("<hh", b[:4])) if len(b) > 8 else [99999, 99999],
                            format=fmt, zlevel=lvl, rzero=len(r) > 0 and not any(r)))
        names = [e.name for e in w.entries]
        return out, "PRE" in names and "POST" in names

def wrong_hash(out, od):
    """does a printed hash or size belong to other data than that of the lump?"""
    ls = wad.Wad(data=od).lumps()
    for k, name, size, hh in re.findall(r"Lump #(\d+) \((\w+)\).* has its size set to (\d+) bytes\. \(HASH: (\S+)\)", out):
        if int(k) > len(ls):
            return True
        n, data = ls[int(k) - 1] if ls[int(k) - 1][0] == name else ls[int(k)] if int(k) < len(ls) else ("", b"")
        if n != name or int(size) != len(data) or hh != base64.b64encode(hashlib.sha256(data).digest()).decode():
            return True
    return False

NONE = dict(there=False, b="", n="", r="", origin=[0, 0], format="", zlevel=0, rzero=False)

def execute(b, arc, args, tag, timeout=60):
    d = os.path.join(build.scratch(), "cli-" + tag)
    os.makedirs(d)
    open(os.path.join(d, "in.wad"), "wb").write(arc.data)
    try:
        p = subprocess.run([b] + args, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        rc, out, err = p.returncode, p.stdout.decode("latin1"), p.stderr.decode("latin1")
        crash = rc not in (0, 1) or "goroutine " in err
    except subprocess.TimeoutExpired as ex:
        rc, out, err, crash = -999, (ex.stdout or b"").decode("latin1"), (ex.stderr or b"").decode("latin1"), True
    now = {}
    for n in sorted(os.listdir(d)):
        p = os.path.join(d, n)
        now[n] = open(p, "rb").read() if os.path.isfile(p) else b""
        if os.path.isfile(p):
            os.unlink(p)
        else:
            os.rmdir(p)
    os.rmdir(d)
    made = [n for n in now if n not in ("in.wad", "prof.out")]
    target = "in" if now.get("in.wad") != arc.data else "none"
    res = now.get("in.wad")
    stray = False
    if made:
        stray = target == "in" or made != ["out.wad"]
        if made == ["out.wad"]:
            target, res = "out", now["out.wad"]
    r = dict(args=[chars(a) for a in args], crash=crash, exit=rc, said=bool(err.strip()) or "Usage:" in out, noted=bool(err.strip()),
             target=target, stray=stray, hashes="HASH" in out, wronghash=False, others=True, maps=[NONE] * len(arc.names))
    if target != "none" and not crash and rc == 0:
        try:
            r["maps"], r["others"] = arc.parts(res)
            r["wronghash"] = wrong_hash(out, res)
        except Exception:
            r["crash"] = True
    return r, out, err

def tell():
    return [dict(map=j, part=p, args=[chars(x) for x in a.split()]) for j, p, a in TELL]

# ---- spelling
def on(rng):
    return rng.choice(["", "", "+"])

B = {"s": ["s", "s+", "s-", "s?"], "a": ["a", "a+", "a-", "a?"], "z": ["z=0", "z=1", "z=2", "z", "z+", "z-"], "t": ["t=1", "t=3"],
     "e": ["e=0", "e=1", "e=2", "e", "e-", "e+"], "o": ["o=0", "o=1", "o=2", "o=3", "o=4", "o=5,7", "o=0,0", "o=8,8", "o=0,13", "o", "o-", "o=120,3"],
     "r": ["r", "r+", "r-"]}
N = {"a": ["a=0", "a=1", "a=2", "a=3", "a=4"], "p": ["p=0", "p=1", "p=2"], "i": ["i=0", "i=1", "i=2", "i", "i-", "i+"],
     "c": ["c=v", "c=d", "c=x", "c=z", "c=V", "c=D", "c=X", "c=Z", "c=z9", "c=z1", "c=z6", "c=Z3", "c=z0", "c=z2"],
     "f": ["f=17", "f=1", "f=200"], "d": ["d", "d=0", "d=10", "d=500", "d-", "d=34"], "m": ["m", "m=0", "m=1", "m=2", "m=3", "m-"], "t": ["t=1", "t=2", "t=8"],
     "w": ["w=2", "w=3"], "r": ["r=10", "r=4"]}
R = {"z": ["z", "z+", "z-"], "g": ["g", "g+", "g-"], "s": ["s=0", "s=1", "s=2", "s=3", "s", "s-", "s+"], "m": ["m-", "m", "m+"]}
LONGS = ["--unreversenodes", "--disableudmf", "--hashlump", "--ableist", "--nosymm", "--detailnodes=0", "--detailnodes=1", "--detailnodes=2", "--detailnodes=3",
         "--detailnodes", "--detailnodes-", "--detailnodes+", "--sidecache=0", "--sidecache=1", "--sidecache=2", "--sidecache", "--sidecache-",
         "--stknode=0", "--stknode", "--stknode=1", "--stknode-", "--speedtree", "--speedtree=0", "--speedtree-", "--speedtree=1", "--roots=3", "--roots=0",
         "--zenvar:x1=90", "--zenvar:Y2=5,x4=-3", "--zenvar:x1=20,X1=90"]

def want(rng, pool, k):
    """the few settings of one part that the runs of a case choose from"""
    out = [[]]
    for _ in range(k):
        out.append([rng.choice(pool[x]) for x in rng.sample(sorted(pool), rng.choice([1, 1, 1, 2, 3]))])
    return out

def spell(rng, letter, opts, pool):
    """one part's options, cut into arguments at random, with overridden ones before"""
    opts = list(opts)
    if rng.random() < .3:
        pre = [rng.choice(pool[x[0]]) for x in opts if rng.random() < .6]
        if letter == "b":      # a sets s for good
            pre = [x for x in pre if x[0] != "a" and "?" not in x]
        opts = pre + opts
    else:
        rng.shuffle(opts)
    args, cur = [], "-" + letter + rng.choice(["", "", "+"])
    for o in opts:
        if cur[2:].strip("+") and rng.random() < .35:
            args.append(cur)
            cur = "-" + letter + rng.choice(["", "", "+"])
        cur += o
    if len(cur) > 2 or rng.random() < .4:
        args.append(cur)
    return args

def mutilate(rng, a):
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.random()
        at = rng.randrange(len(a) + 1)
        c = rng.choice("-+=?,:.0123456789abcdemnoprstvwxyzVDXZ!_ \t\"'/\u00e9")
        if k < .35:
            a = a[:at] + c + a[at:]
        elif k < .65 and a:
            a = a[:at] + a[at + 1:]
        elif k < .9 and a:
            a = a[:at] + c + a[at + 1:]
        else:
            a = a[:at]
    return a

ODD = ["", "-", "--", "-x", "-?", "-h", "--help", "-!", "-!b", "-!m", "-!m:", "-!m:map01+map99", "-m", "-m:map1", "-m:map01+", "-m:MAP01+e1m1", "-m:map02", "-!m:map02", "-mMAP01",
       "-v", "-vvvv", "-vx", "-d-", "-d+", "-dx", "-b-s", "-n-a=2", "-r-z", "-oout.wad", "--eject=1", "--hashlump-", "--roots=", "--roots=x", "--stknode=2", "--zenvar", "--zenvar:",
       "--zenvar:q=1", "--zenvar:x1", "--zenvar:x1=1=2", "--detailnodes=4", "--sidecache=3", "--speedtree=2", "-bz=3", "-be=9", "-bo=5", "-bo=70000,1", "-bo=1,", "-bo=,1", "-na=5",
       "-na", "-np=3", "-ni=3", "-nc", "-nc=", "-nc=q", "-nc=z12", "-nf=0", "-nf", "-nm=4", "-nw=1", "-nr=0", "-rs=4", "-rq", "-bq", "-nq", "-B", "-N", "-nA=1", "second.wad", "\u00e9"]

def bad(a):
    """arguments that are left out: hours of work, or a width of the search that the manual warns about"""
    return a.startswith("--roots") and "=" not in a or a.startswith("/") or "\0" in a

def command(rng, wants, arcnames):
    toks = []
    for letter, pool in (("b", B), ("n", N), ("r", R)):
        k = rng.random()
        if k < .08:
            toks.append(["-" + letter + "-"])
        else:
            toks.append(spell(rng, letter, rng.choice(wants[letter]), pool))
    longs = rng.choice(wants["l"])
    toks += [[x] for x in longs]
    if rng.random() < .95:
        toks.append(["-d"])
    if rng.random() < .2:
        toks.append([rng.choice(["-v", "-vv"])])
    eject = rng.random() < .08
    if eject:
        toks.append(["--eject"])
    if rng.random() < (.5 if eject else .12):
        l = rng.sample(arcnames, rng.randint(1, len(arcnames)))
        toks.append([rng.choice(["-m:", "-!m:"]) + "+".join(rng.choice([x, x.lower()]) for x in l)])
    if eject or rng.random() < .5:
        toks.append(["-o", "out.wad"])
    if rng.random() < .02:
        toks.append([rng.choice(["--cpuprofile", "--memprofile"]), "prof.out"])
    toks.append(["in.wad"])
    # keep the order of the arguments of one part
    k = rng.random()
    if k < .8:
        slots = [i for i, t in enumerate(toks) for _ in (t if t and t[0][:2] in ("-b", "-n", "-r") else [0] if t else [])]
        rng.shuffle(slots)
        its = [iter(t if t and t[0][:2] in ("-b", "-n", "-r") else [t]) for t in toks]
        out = []
        for i in slots:
            x = next(its[i])
            out += x if isinstance(x, list) else [x]
    else:
        out = [x for t in toks for x in t]
    return out

def damage(rng, args):
    args = list(args)
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.random()
        if not args:
            break
        if k < .55:
            i = rng.choice([i for i, a in enumerate(args) if i == 0 or args[i - 1] not in ("-o", "--cpuprofile", "--memprofile")])
            if args[i] != "in.wad":
                m = mutilate(rng, args[i])
                if not bad(m) and m.count("t=") == 0:
                    args[i] = m
        elif k < .85:
            args.insert(rng.randint(0, len(args)), rng.choice(ODD))
        elif k < .93:
            args = args[:rng.randint(0, len(args))]
        else:
            args.insert(rng.randint(0, len(args)), rng.choice(args))
    return args
