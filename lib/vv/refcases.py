"""Levels that are damaged, or that nobody would draw (Refs.tla)."""
import hashlib, os, struct, subprocess
from . import build, mapgen, wad

NONE = 0xFFFF
OPT = ["-na=1", "-na=2", "-na=3", "-na=4", "-nm=1", "-nm=2", "-nm=3", "-bs", "-ba", "-bs?", "-ba?", "-bo=3", "-bo=0", "-bo=1", "-bo=5,7",
       "-nc=d", "-nc=x", "-nc=z", "-nc=Z0", "-nc=V", "-nc=D", "-nc=X", "-nc=Z", "-ni=0", "-ni=1", "-ni=2", "-rs=0", "-rs=1", "-rs=2", "-rs=3",
       "--nosymm", "-nd=30", "--stknode", "--unreversenodes", "-be=1", "-be=2", "-be=0", "-np=1", "-np=2", "-np=0", "--detailnodes=2",
       "--detailnodes=1", "-bz=0", "-br", "-rg-", "-rz", "-nf=1", "-nf=100", "-nt=2", "-nt=1", "--speedtree", "--roots=1",
       "--roots=3", "--sidecache=2", "--sidecache=1", "--ableist", "-nw=3", "-nw=8", "-n-", "-b-", "-r-", "-vvv", "--hashlump"]

def soup(rng, name="MAP01"):
    """any lines between any vertices, all references valid"""
    lv = mapgen.Level(name)
    nv = rng.choice([2, 3, 4, 6, 10, 30])
    span = rng.choice([0, 1, 8, 100, 1000, 8000, 30000, 32767])
    for _ in range(nv):
        if rng.random() < .15 and span > 20000:
            lv.add_vertex(rng.choice([-32768, 32767]), rng.choice([-32768, 32767]))
        elif rng.random() < .2 and lv.verts:
            lv.add_vertex(*rng.choice(lv.verts))
        else:
            lv.add_vertex(rng.randint(-span, span), rng.randint(-span, span))
    ns = rng.choice([1, 2, 5, 20])
    for _ in range(ns):
        lv.sectors.append(dict(floor=0, ceil=rng.choice([128, 128, 0, -8]), light=160, special=rng.choice([0, 0, 9, 65535]), tag=rng.choice([0, 0, 1, 905])))
    for _ in range(rng.choice([1, 2, 3, 5, 10, 40])):
        a, b = rng.randrange(nv), rng.randrange(nv)
        if rng.random() < .9:
            while b == a:
                b = rng.randrange(nv)
        f = lv.add_side(rng.randrange(ns), mid=rng.choice("A-")) if rng.random() < .95 else NONE
        k = lv.add_side(rng.randrange(ns)) if rng.random() < .4 else NONE
        if rng.random() < .1 and lv.sides:
            f = rng.randrange(len(lv.sides))          # sides shared by lines
        lv.add_line(a, b, f, k, flags=rng.choice([None, 0, 1, 4, 5, 0xFFFF]),
                    action=rng.choice([0, 0, 0, 0, 0, 48, 1048, 85, 97, 1080, 1083, 1086, rng.randrange(65536)]),
                    tag=rng.choice([0, 0, 0, 1, 1, 999, 998, 901, rng.randrange(65536)]))
    for _ in range(rng.randint(0, 3)):
        lv.things.append((rng.randint(-span, span), rng.randint(-span, span), 0, rng.choice([1, 3000, 3001, 9300, 9301, 9302]), 7))
    lv.hexen = rng.random() < .25
    return lv

def spoil(rng, lv):
    """break references; -> what"""
    k = rng.choice(["vert", "side", "sector", "vert", "side", "sector", "two"])
    for k in ([k] if k != "two" else ["vert", "sector"]):
        far = rng.choice([0, 0, 1, 2, 1000, 30000])
        if k == "vert":
            rng.choice(lv.lines)[rng.choice(["v1", "v2"])] = min(65535, len(lv.verts) + far)
        elif k == "side":
            rng.choice(lv.lines)[rng.choice(["front", "back"])] = min(65534, len(lv.sides) + far)
        elif lv.sides:
            rng.choice(lv.sides)["sector"] = min(65535, len(lv.sectors) + far)
    return k

REC = {"THINGS": 10, "LINEDEFS": 14, "SIDEDEFS": 30, "VERTEXES": 4, "SECTORS": 26}

def make(rng, name):
    """-> lumps of a level, without marker, possibly damaged"""
    how = rng.choice(["soup"] * 9 + ["spoiled"] * 6 + ["cut"] * 3 + ["lumpless", "drawn", "spoiledsoup", "many"])
    lv = mapgen.any_level(rng, name) if how in ("spoiled", "drawn", "cut") and rng.random() < .8 else soup(rng, name)
    if how.startswith("spoiled"):
        how += "-" + spoil(rng, lv)
    lumps = lv.lump_list()[1:]
    if how == "cut":
        for _ in range(rng.choice([1, 1, 2, 5])):
            i = rng.randrange(len(lumps))
            n, d = lumps[i]
            lumps[i] = (n, d[:max(0, len(d) - rng.choice([1, 2, 3, 5, 31, len(d), len(d)]))])
    elif how == "lumpless":
        i = rng.randrange(len(lumps))
        del lumps[i]
    elif how == "many":
        # more lines than there can be, all alike
        for i, (n, d) in enumerate(lumps):
            if n == "LINEDEFS":
                sz = 16 if lv.hexen else 14
                lumps[i] = (n, (d * (70000 // (len(d) // sz) + 1))[:sz * rng.choice([65536, 65537, 66000, 131073])])
    if rng.random() < .4:
        for n in ("SEGS", "SSECTORS", "NODES", "REJECT", "BLOCKMAP"):
            if rng.random() < .8:
                lumps.append((n, rng.randbytes(rng.choice([0, 1, 7, 28, 400]))))
    order = {"THINGS": 0, "LINEDEFS": 1, "SIDEDEFS": 2, "VERTEXES": 3, "SEGS": 4, "SSECTORS": 5, "NODES": 6, "SECTORS": 7, "REJECT": 8, "BLOCKMAP": 9, "BEHAVIOR": 10}
    if rng.random() < .1:
        rng.shuffle(lumps)
        how += "-shuffled"
        lumps.sort(key=lambda x: x[0] == "BEHAVIOR")
    else:
        lumps.sort(key=lambda x: order[x[0]])
    return how, lumps, lv.hexen

def digest(x):
    return hashlib.sha1(x).hexdigest()[:16] if x else "empty"

def describe(lumps, hexen, whole=True):
    """what the model is told of a level read"""
    d = dict(lumps)
    sz = 16 if hexen else 14
    has = [n for n in ("THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SECTORS") if n in d]
    ld = d.get("LINEDEFS", b"")
    nl = len(ld) // sz
    lines = wad.linedefs(ld[:nl * sz], hexen)
    sd = d.get("SIDEDEFS", b"")
    sides = [s["sector"] for s in wad.sidedefs(sd[:len(sd) // 30 * 30])]
    vx = wad.vertexes(d.get("VERTEXES", b"")[:len(d.get("VERTEXES", b"")) // 4 * 4])
    refs = sorted({(l["v1"], l["v2"], l["front"], l["back"]) for l in lines})
    def plain(l):
        return l["front"] != NONE and l["front"] < len(sides) and l["action"] not in range(1078, 1087) and l["tag"] < 900 and \
            l["v1"] < len(vx) and l["v2"] < len(vx) and vx[l["v1"]] != vx[l["v2"]]
    xs, ys = [v[0] for v in vx] or [0], [v[1] for v in vx] or [0]
    return dict(all=whole and len(has) == 5, nv=len(vx), nsec=len(d.get("SECTORS", b"")) // 26, sides=sides, nlines=nl, refs=[list(r) for r in refs],
                scroll=(not hexen and any(l["action"] in (48, 1048) for l in lines)) or nl > 3000, plain=sum(plain(l) for l in lines) > 2,
                blocks=((max(xs) - min(xs)) // 128 + 3) * ((max(ys) - min(ys)) // 128 + 3) + nl,
                kept={n: digest(d.get(n, b"")) for n in ("THINGS", "SIDEDEFS", "SECTORS", "SEGS", "SSECTORS", "NODES", "REJECT", "BLOCKMAP", "LINEDEFS", "VERTEXES")},
                lines=geometry(lines, vx) if nl <= 3000 else [])

def geometry(lines, vx):
    out = []
    for l in lines:
        p = [*(vx[l["v1"]] if l["v1"] < len(vx) else (99999, l["v1"])), *(vx[l["v2"]] if l["v2"] < len(vx) else (99999, l["v2"]))]
        out.append(p + [l["flags"], l["action"], l["tag"], *l["args"], l["front"], l["back"]])
    return out

def result(level, hexen, nsec):
    """what the model is told of a level written"""
    o = dict(undecoded="", kept={n: digest(level.get(n, b"")) for n in ("THINGS", "SIDEDEFS", "SECTORS", "SEGS", "SSECTORS", "NODES", "REJECT", "BLOCKMAP", "LINEDEFS", "VERTEXES")},
             lines=[], nlines=0, sidesof=[], nverts=0, segs=[], leaves=[], nodes=[], reject=len(level.get("REJECT", b"")), bmlines=[], bmempty=not level.get("BLOCKMAP"),
             empty=True, bm="", nd="")
    try:
        ld, vd = level["LINEDEFS"], level["VERTEXES"]      # may be kept with an incomplete record at the end
        ls = wad.linedefs(ld[:len(ld) // (16 if hexen else 14) * (16 if hexen else 14)], hexen)
        vx = wad.vertexes(vd[:len(vd) // 4 * 4])
        o["nlines"] = len(ls)
        o["lines"] = geometry(ls, vx) if len(ls) <= 3000 else []
        o["sidesof"] = [[l["front"], l["back"]] for l in ls] if len(ls) <= 3000 else []
    except (wad.DecodeError, KeyError) as e:
        o["undecoded"] = "lines: %r" % e
    try:
        n = wad.nodes_of(level)
        if n:
            o["empty"] = False
            o["nverts"] = len(n["verts"])
            o["segs"] = sorted({(s["v1"], s["v2"], s["line"], s["side"]) for s in n["segs"]})
            o["segs"] = [list(s) for s in o["segs"]]
            o["nsegs"] = len(n["segs"])
            o["leaves"] = [list(x) for x in n["ssectors"]]
            o["nodes"] = [[x["l"], x["r"]] for x in n["nodes"]]
    except (wad.DecodeError, KeyError, struct.error) as e:
        o["nd"] = repr(e)
    o.setdefault("nsegs", 0)
    try:
        if level.get("BLOCKMAP"):
            b = wad.blockmap(level["BLOCKMAP"])
            o["bmlines"] = sorted({x for l in b["lists"] for x in l})[-50:]
    except wad.DecodeError as e:
        o["bm"] = repr(e)
    return o

def case(b, rng, tag):
    names = rng.sample(["MAP01", "MAP07", "E2M3", "MAP32"], rng.choice([1, 1, 2, 3]))
    levels, arc, hows = [], [], []
    spoiled = rng.randrange(len(names))
    for i, n in enumerate(names):
        if i == spoiled or rng.random() < .2:
            how, lumps, hexen = make(rng, n)
        else:
            lv = mapgen.any_level(rng, n)
            how, lumps, hexen = "drawn", lv.lump_list()[1:], lv.hexen
        hows.append(how)
        levels.append(dict(name=n, chosen=True, hexen=hexen, **describe(lumps, hexen, how[:8] != "lumpless")))
        arc += [(n, b"")] + lumps + [("JUNK%d" % i, rng.randbytes(20))]
    args = rng.sample(OPT, rng.randint(0, 4))
    if any(l["blocks"] > 3000 for l in levels):
        args = [a for a in args if a != "-bo=3"]          # tries 16384 offsets
    if any(h == "many" for h in hows):
        args = [a for a in args if a[:4] not in ("-nm=", "-na=")]
    if any(a.startswith("--roots") for a in args):
        args = [a for a in args if not a.startswith("-nw")]
    args += ["-d"] if rng.random() < .5 else []
    if len(names) > 1 and rng.random() < .4:
        pick = rng.sample(names, rng.randint(1, len(names) - 1))
        if rng.random() < .5:
            args.append("-m:" + "+".join(pick))
        else:
            args.append("-!m:" + "+".join(pick))
            pick = [n for n in names if n not in pick]
        for l in levels:
            l["chosen"] = l["name"] in pick
    d = os.path.join(build.scratch(), "ref-" + tag)
    os.makedirs(d)
    data = wad.write_wad(None, arc)
    open(os.path.join(d, "in.wad"), "wb").write(data)
    out = rng.random() < .6
    if out:
        args += ["-o", "out.wad"]
    rng.shuffle(args) if not out else None
    argv = ["in.wad"] + args
    try:
        pr = subprocess.run(["prlimit", "--as=%d" % (20 << 30), b] + argv, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        rc, text, hang = pr.returncode, pr.stdout.decode("latin1"), False
    except subprocess.TimeoutExpired as e:
        rc, text, hang = -999, (e.stdout or b"").decode("latin1"), True
    left = sorted(os.listdir(d))
    same = os.path.exists(os.path.join(d, "in.wad")) and open(os.path.join(d, "in.wad"), "rb").read() == data
    said = text.split("License v2.")[-1]
    def on(p):
        # the last one of a part's groups says whether the part is built at all
        g = [a for a in args if a[:2] == p]
        return not g or g[-1] != p + "-"
    c = dict(forward="--unreversenodes" in args, nodes=on("-n"), blockmap=on("-b"), reject="-rz" not in args and "-r-" not in args, rejectzero="-rz" in args and "-r-" not in args,
             rejectopen="-r-" in args and sum(a[:2] == "-r" for a in args) > 1, removal="-br" in args,
             crash=hang or rc not in (0, 1) or "goroutine " in text or "rogrammer error" in text, exit=rc,
             inputsame=same, litter=[x for x in left if x not in ("in.wad", "out.wad")],
             hasout="out.wad" in left, wantout=out, decoded=True)
    for l in levels:
        # named in what is said after the level was announced
        l["named"] = any(l["name"] in x and "rocessing level" not in x for x in said.splitlines())
        l["out"] = result({}, l["hexen"], 0)
    if rc == 0:
        try:
            w = wad.Wad(os.path.join(d, "out.wad" if out else "in.wad"))
            for l in levels:
                lv = w.level(l["name"])
                l["out"] = result(lv or {}, l["hexen"], l["nsec"])
        except (wad.WadError, OSError) as e:
            c["decoded"] = False
            text += "\nundecodable: %r" % e
    c["levels"] = levels
    subprocess.run(["rm", "-r", d])
    return c, (hows, argv, data, text)
