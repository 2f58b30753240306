"""Random archives and option sets for the directory checks, and the observation of one run."""
import os, random, struct
from . import wad, mapgen, build
from .run import run

ORDER = ["THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SEGS", "SSECTORS", "NODES", "SECTORS", "REJECT", "BLOCKMAP",
         "BEHAVIOR", "SCRIPTS"]
MUST = ["THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SECTORS"]
CREATE = ["SEGS", "SSECTORS", "NODES", "REJECT", "BLOCKMAP"]
OTHERS = ["PLAYPAL", "DEMO1", "FLAT12_3", "S_START", "S_END", "MAPINFO", "DEHACKED", "ENDOOM", "D_RUNNIN", "MAP1", "E0M1",
          "MAP001", "XMAP01", "E1M", "SEGSX", "GL_VERT", "THING", "A"]

def blob(rng, tag):
    n = rng.choice([0, 0, 1, 3, 7, 16, 40, 100])
    return bytes([tag & 255]) + rng.randbytes(n) + struct.pack("<I", tag)

def marker(rng, used):
    for _ in range(50):
        m = rng.choice(["MAP%02d" % rng.randint(0, 35), "E%dM%d" % (rng.randint(1, 5), rng.randint(0, 9)),
                        "E%dM%d" % (rng.randint(1, 9), rng.randint(10, 99))])
        if m not in used:
            used.add(m)
            return m
    return "MAP99"

def archive(rng, mode=None):
    """-> list of (name, bytes), list of markers"""
    lumps = []
    used = set()
    marks = []
    uid = [0]
    def other(name=None):
        uid[0] += 1
        nm = name or rng.choice(OTHERS)
        lumps.append((nm, b"" if rng.random() < 0.25 else blob(rng, uid[0])))
    def misc(k):
        for _ in range(k):
            if rng.random() < 0.12:
                other(rng.choice(ORDER))        # a level lump name outside of any level
            else:
                other()
    first = rng.random()
    if first < 0.5:
        misc(rng.randint(1, 3))
    nlev = rng.choice([1, 1, 2, 2, 3, 4])
    if mode == "reject":
        nlev = rng.choice([1, 2, 3, 5, 8])
    for _ in range(nlev):
        m = marker(rng, used)
        marks.append(m)
        opt = dict(W=rng.randint(1, 3), H=rng.randint(1, 3))
        if mode == "reject":
            opt = dict(W=rng.randint(1, 6), H=rng.randint(1, 5), nsec=rng.randint(1, 30))
        lv = mapgen.grid_level(rng, m, **opt)
        lv.hexen = rng.random() < 0.3
        d = lv.lumps()
        body = [(n, d[n]) for n in MUST]
        have = rng.random()
        if have < 0.35:
            pre = CREATE
        elif have < 0.6:
            pre = []
        else:
            pre = [n for n in CREATE if rng.random() < 0.5]
        for n in pre:
            uid[0] += 1
            body.append((n, b"" if rng.random() < 0.3 else blob(rng, uid[0])))
        if lv.hexen:
            body.append(("BEHAVIOR", d["BEHAVIOR"] + bytes([uid[0] & 255])))
            if rng.random() < 0.6:
                uid[0] += 1
                body.append(("SCRIPTS", blob(rng, uid[0])))
        elif rng.random() < 0.08:
            uid[0] += 1
            body.append(("SCRIPTS", blob(rng, uid[0])))
        r = rng.random()
        if r < 0.12:
            body = [b for b in body if b[0] != rng.choice(MUST)]
            drop = rng.choice(MUST)
            body = [b for b in body if b[0] != drop]
        # duplicates: an earlier copy that is superseded by the later one
        if rng.random() < 0.3:
            for _ in range(rng.choice([1, 1, 2])):
                n = rng.choice([b[0] for b in body]) if body else None
                if n:
                    uid[0] += 1
                    i = [b[0] for b in body].index(n)
                    body.insert(rng.randint(0, i), (n, blob(rng, uid[0]) if rng.random() < 0.8 else b""))
                    if n == "BEHAVIOR" and not lv.hexen:
                        pass
        elif rng.random() < 0.45:
            rng.shuffle(body)
        else:
            body.sort(key=lambda b: ORDER.index(b[0]))
        lumps.append((m, b"" if rng.random() < 0.85 else blob(rng, 200 + uid[0])))
        lumps += body
        if rng.random() < 0.55:
            other()
            misc(rng.randint(0, 2))
            # a closed level is not reopened by a later level lump
            if rng.random() < 0.15:
                other(rng.choice(ORDER))
    return lumps, marks

def options(rng, marks, mode=None):
    o = dict(blockmap=rng.random() < 0.7, nodes=rng.random() < 0.7, reject=rng.choice(["build", "build", "zero", "keep"]),
             eject=rng.random() < 0.25, filter="all", maps=[])
    if mode == "reject":
        o["reject"] = "zero"
        o["nodes"] = rng.random() < 0.3
        o["blockmap"] = rng.random() < 0.3
        o["eject"] = rng.random() < 0.2
    r = rng.random()
    if r < 0.35:
        o["filter"] = rng.choice(["only", "except"])
        k = rng.randint(1, len(marks))
        o["maps"] = rng.sample(marks, k)
        if rng.random() < 0.2:
            o["maps"].append("MAP77")
    args = []
    args.append("-b" if o["blockmap"] else "-b-")
    args.append("-n" if o["nodes"] else "-n-")
    args.append({"build": "-r", "zero": "-rz", "keep": "-r-"}[o["reject"]])
    if o["eject"]:
        args.append("--eject")
    if o["filter"] != "all":
        ms = "+".join(m.lower() if rng.random() < 0.5 else m for m in o["maps"])
        args.append(("-m:" if o["filter"] == "only" else "-!m:") + ms)
    if rng.random() < 0.4:
        args.append("-d")
    return o, args

def observe(binpath, d, rng, lumps, o, args, tag, inplace=None):
    """run the program on the archive; returns the case record, and the raw result"""
    inp = os.path.join(d, "in%s.wad" % tag)
    outp = os.path.join(d, "out%s.wad" % tag)
    kind = rng.choice([b"PWAD", b"PWAD", b"IWAD"])
    data = wad.write_wad(inp, lumps, kind=kind, layout=rng.choice(["dirlast", "dirfirst"]), gap=rng.choice([0, 0, 5]),
                         pad=rng.choice([0, 0, 4]), dir_gap=rng.choice([0, 16]))
    if inplace is None:
        inplace = not o["eject"] and rng.random() < 0.25
    a = [inp] + list(args) if inplace else [inp] + list(args) + ["-o", outp]
    if inplace:
        outp = inp
    r = run(binpath, a, cwd=d, timeout=120)
    case = dict(inp=[n for n, _ in lumps], sz=[len(b) for _, b in lumps], opt=o, kind=kind.decode(), okind="", out=[],
                status="refused")
    cont = None
    case["args"] = list(args)
    if r.timeout:
        case["status"] = "hang"
    elif "panic:" in r.out or "goroutine " in r.out or r.rc == 2:
        case["status"] = "crash"
    elif r.rc == 0 and os.path.exists(outp):
        case["status"] = "ok"
        try:
            w = wad.Wad(outp)
            case["okind"] = w.kind.decode("latin1")
            src = {}
            for i, (n, b) in enumerate(lumps):
                src.setdefault(b, []).append(i + 1)
            ents = []
            for i, e in enumerate(w.entries):
                ok = e.size == 0 or e.pos + e.size <= len(w.data)
                b = w.data[e.pos:e.pos + e.size]
                z = not b.strip(b"\0") and len(b) == e.size
                case["out"].append(dict(n=e.name, same=src.get(b, []) if len(b) == e.size else [], size=e.size, zero=z))
                ents.append(dict(n=e.name, pos=min(e.pos, 1 << 29), size=min(e.size, 1 << 29), zero=z))
            cont = dict(dir=w.diroff, len=len(w.data), count=w.n, ents=ents)
        except wad.WadError as ex:
            case["status"] = "unreadable: " + str(ex)[:60]
    elif r.rc != 0 and not inplace and os.path.exists(outp):
        case["status"] = "refused-with-output"
    if inplace and case["status"] == "refused" and open(inp, "rb").read() != data:
        case["status"] = "refused-but-modified"
    case["rc"] = r.rc
    return case, cont, r, data
