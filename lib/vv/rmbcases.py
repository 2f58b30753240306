"""Effects files: random ones with all their spellings, and the recorded effect on every level (Rmb.tla)."""
import math, os, re, string
from . import build, mapgen, run, wad, rejcases as R

SYNTAX = dict(ASSERT="LLN", BAND="NNL", BLIND="NL", BLOCK="NN", DISTANCE="N", DOOR="N", EXCLUDE="LL", GROUP="NL", INCLUDE="LL",
              INVERT="", LEFT="N", LENGTH="N", LINE="N", NODOOR="L", NOMAP="", NOPROCESS="", ONE="NN", PERFECT="", PREPROCESS="N",
              PROCESS="L", REPORT="N", RIGHT="N", SAFE="NL", TRACE="L", VORTEX="LL")
NAMES = sorted(SYNTAX)

def short(rng, w):
    """one of the unique abbreviations of an option, in any case"""
    k = rng.random()
    if k < 0.4:
        out = w
    else:
        u = next(i for i in range(1, len(w) + 1) if sum(x.startswith(w[:i]) for x in NAMES) == 1)
        if w.startswith("E") and u == 1:
            u = 2
        out = w[:rng.randint(u, len(w))]
    k = rng.random()
    return out if k < 0.5 else out.lower() if k < 0.75 else "".join(rng.choice([c.lower(), c]) for c in out)

def blank(rng):
    return rng.choice([" ", " ", " ", "  ", "\t", " \t "])

def spell(rng, word, nums, lists, kinds, prefix=()):
    """a line; kinds: sequence of N L in the order of the arguments"""
    out = rng.choice(["", "", "", " ", "\t"])
    out += blank(rng).join(list(prefix) + [word])
    nums, lists = list(nums), list(lists)
    for i, k in enumerate(kinds):
        out += blank(rng)
        if k == "N":
            out += str(nums.pop(0))
            continue
        l = lists.pop(0)
        q = rng.random()
        if len(l) == 1 and q < 0.5 and i < len(kinds) - 1:
            out += str(l[0])
        elif i == len(kinds) - 1 and q < 0.35:
            out += blank(rng).join(map(str, l))
        else:
            sep = (lambda: blank(rng)) if rng.random() < 0.85 else (lambda: rng.choice([",", ", "]))
            t = "" if rng.random() < 0.7 else blank(rng)
            out += "(" + t + "".join((sep() if j else "") + str(v) for j, v in enumerate(l)) + rng.choice(["", "", t]) + ")"
    return out + rng.choice(["", "", "", " ", "\t"]) + (rng.choice(["# x", "#)("]) if rng.random() < 0.03 and out[-1:] else "")

def sec(rng, n):
    k = rng.random()
    return rng.randrange(n) if k < 0.97 else n + rng.choice([0, 1, 7, 250])

def lst(rng, n, top=4):
    return [sec(rng, n) for _ in range(rng.choice([1, 1, 2, 2, 3, top]))]

def command(rng, n, nlines, w, low):
    if w in ("BLIND", "SAFE"):
        k = rng.random()
        pre, inv = [], k < 0.35
        if inv:
            pre.append(short(rng, "INVERT"))
        d = rng.choice([0, 1, 1, 2, 2, 3, 4, 5]) if not low else rng.choice([0, 1])
        return spell(rng, short(rng, w), [d], [lst(rng, n)], "NL", pre)
    if w == "BAND":
        pre = [short(rng, "INVERT")] if rng.random() < 0.4 else []
        a = rng.randint(0, 4)
        b = a + rng.randint(0, 3) if rng.random() < 0.95 else rng.randint(0, 3)
        x = rng.choice(["BLIND", "SAFE"])
        return spell(rng, rng.choice([x, x.lower(), x.capitalize()]), [a, b], [lst(rng, n)], "NNL", pre + [short(rng, "BAND")])
    if w in ("INCLUDE", "EXCLUDE", "VORTEX"):
        return spell(rng, short(rng, w), [], [lst(rng, n), lst(rng, n)], "LL")
    if w == "GROUP":
        return spell(rng, short(rng, w), [sec(rng, n)], [lst(rng, n, 3)], "NL")
    if w == "LENGTH":
        return spell(rng, short(rng, w), [rng.choice([0, 1, 2, 2, 3, 4, 30, 65535, 70000])], [], "N")
    if w == "DISTANCE":
        return spell(rng, short(rng, w), [rng.choice([0, 20, 40, 64, 90, 128, 200, 300, 20000] + [4294967296] * (rng.random() < 0.3))], [], "N")
    if w == "REPORT":
        return spell(rng, short(rng, w), [rng.choice([0, 1, 1, 2, 2, 3, 5])], [], "N")
    if w == "ASSERT":
        return spell(rng, short(rng, w), [rng.choice([0, 0, 1, 1, 1, 2])], [[sec(rng, n)], [sec(rng, n)]], "LLN")
    if w in ("LINE", "LEFT", "RIGHT"):
        return spell(rng, short(rng, w), [nlines + rng.choice([0, 1, 10, 65536 - nlines, 65536])], [], "N")
    if w in ("PERFECT", "NOMAP"):
        return spell(rng, short(rng, w), [], [], "")
    if w in ("NODOOR", "PROCESS", "TRACE"):
        return spell(rng, short(rng, w), [], [lst(rng, n)], "L")
    if w in ("BLOCK", "ONE"):
        return spell(rng, short(rng, w), [rng.randrange(nlines), rng.randrange(nlines)], [], "NN")
    if w in ("DOOR", "PREPROCESS"):
        return spell(rng, short(rng, w), [rng.randint(0, 5)], [], "N")
    raise ValueError(w)

THEMES = [["BLIND", "SAFE", "INCLUDE", "EXCLUDE"], ["BLIND", "SAFE", "BAND"], ["BLIND", "BAND"], ["LENGTH", "REPORT", "BLIND"], ["REPORT", "BLIND"],
          ["DISTANCE"], ["DISTANCE", "GROUP", "INCLUDE"], ["GROUP", "BLIND", "SAFE", "BAND"], ["VORTEX"], ["VORTEX", "BLIND", "EXCLUDE"],
          ["VORTEX", "GROUP"], ["GROUP", "INCLUDE", "EXCLUDE", "SAFE"], ["INCLUDE"], ["EXCLUDE", "INCLUDE"], ["GROUP", "LENGTH", "REPORT"],
          ["LENGTH"], ["REPORT"], ["LINE", "LEFT", "RIGHT", "BLIND"], ["PERFECT", "NOMAP", "BLIND", "DOOR"],
          [w for w in NAMES if w not in ("INVERT", "NOPROCESS")],
          ["NODOOR", "PROCESS", "TRACE", "BLOCK", "ONE", "DOOR", "PREPROCESS", "NOMAP", "INCLUDE"]]
REUSE = [["BLIND", "SAFE", "INCLUDE", "EXCLUDE"], ["INCLUDE", "EXCLUDE"], ["GROUP", "BLIND", "SAFE", "INCLUDE"], ["LENGTH", "BLIND", "BAND", "SAFE"],
         ["ASSERT", "ASSERT", "EXCLUDE"], ["ASSERT"], ["VORTEX"], ["DISTANCE", "REPORT", "INCLUDE"], ["BAND", "BLIND", "SAFE"]]

def noise(rng):
    return rng.choice(["", "", "# comment", "#", "   # (", "\t", "#BLIND 0 (1"])

def section(rng, name):
    if rng.random() < 0.75:
        return rng.choice([name, name.lower(), " " + name + " "])
    return rng.choice(["MAP ", "map\t", "Map  "]) + rng.choice([name, name.lower()])

def spoil(rng, line):
    """a small change that may or may not leave the line valid"""
    k = rng.randrange(11)
    ws = line.split()
    if k == 0 and line:
        i = rng.randrange(len(line))
        return line[:i] + line[i + 1:]
    if k == 1:
        i = rng.randrange(len(line) + 1)
        return line[:i] + rng.choice(["(", ")", ",", "x", "-", "#", "1", " ", "\"", "."]) + line[i:]
    if k == 2 and len(ws) > 1:
        ws.pop()
        return " ".join(ws)
    if k == 3:
        return line + " " + rng.choice(["5", "x", "(1)", "3 4", ")"])
    if k == 4:
        return rng.choice(["FOO 1 (2)", "BL 1 2", "P 1", "PR 3", "L 5", "B 1 2", "IN 1 2", "D 4", "E 1 2", "N", "NO", "R 1", "T", "A 1 2", "MAP", "MAP1", "MAP123", "MAPXX",
                           "E1M1 x", "MAP01 2", "INVERT", "INV", "INV LINE 3", "INVERT INCLUDE 1 2", "BAND", "BAND 1 2 3", "BAND LINE 1 2", "INV BAND SAFE 1 2",
                           "(", ")", "1 2", "BLIND", "BLIND x (1)", "BLIND 1", "BLIND 1 ()", "GROUP (1) 2", "E0M1", "E10M1", "E1M", "MAP E1M1 MAP02", "I 1 2", "BAN SAFE 1 2 3",
                           "INCLUDE (1 2 (3 4)", "INCLUDE (1 2)(3 4)", "EXCLUDE 1", "VORTEX (1", "ASSERT 1 2", "ASSERT 1 2 3 4", "NOMAP 1", "PERFECT x", "BLIND 1.5 2",
                           "INV B 1 2", "INV BA SAFE 1 2 3", "BLIND 1 2)", "SAFE 1 (2) 3", "BLIND 99999999999999999999 1", "BLIND 1 99999999999999999999", "BLIND -1 2"])
    if k == 5 and ws:
        return line.replace(ws[0], ws[0][:1], 1)
    if k == 6:
        return line.replace("(", "", 1)
    if k == 7:
        return line.replace(")", "", 1)
    if k == 8 and ws:
        return line.replace(ws[0], ws[0] + rng.choice(["S", "x", "1"]), 1)
    if k == 9:
        i = rng.randrange(len(line) + 1)
        return line[:i] + rng.choice(string.printable[:94]) + line[i:]
    return "INVERT " + line

def effects(rng, levels, reuse, sources, broken):
    """lines of an effects file"""
    out = []
    places = [None] * rng.choice([1, 1, 1, 0, 2]) + [lv.name for lv in levels if rng.random() < 0.5]
    if rng.random() < 0.3:
        places.append(rng.choice(["MAP77", "E9M9", "MAP01", levels[0].name]))
    if rng.random() < 0.3 and len(places) > 1:
        places.append(rng.choice(places[1:]))
    where = rng.choice(places) if places else None
    for p in places:
        if p is not None:
            out.append(section(rng, p))
        lv = next((x for x in levels if x.name == p), rng.choice(levels))
        n, nl = len(lv.sectors), len(lv.lines)
        theme = rng.choice(REUSE if reuse else THEMES)
        low = rng.random() < 0.35
        use = theme
        lines = []
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 6])):
            lines.append(command(rng, n, nl, rng.choice(use), low))
        if reuse and (p == where or rng.random() < 0.2):
            lines.insert(rng.randint(0, len(lines)), noprocess(rng, sources))
        for l in lines:
            if rng.random() < 0.1:
                out.append(noise(rng))
            out.append(l)
    if broken:
        for _ in range(rng.choice([1, 1, 2, 6])):
            if not out:
                out.append("")
            i = rng.randrange(len(out))
            out[i] = spoil(rng, out[i])
    return [l.replace("\n", " ").replace("\r", " ").replace("\x0b", " ").replace("\x0c", " ") for l in out]

def quote(rng, w):
    return '"%s"' % w if " " in w or rng.random() < 0.3 else w

def noprocess(rng, sources):
    w = short(rng, "NOPROCESS")
    if not sources or rng.random() < 0.25:
        return w
    f, m = rng.choice(sources)
    w += blank(rng) + quote(rng, f)
    if rng.random() < 0.5:
        w += blank(rng) + quote(rng, rng.choice([m, m.lower()]))
    return w + rng.choice(["", "", " "])

def level(rng, name):
    for _ in range(100):
        if rng.random() < 0.6:
            lv = mapgen.grid_level(rng, name, W=rng.randint(2, 6), H=rng.randint(1, 5), nsec=rng.randint(2, 12), p_inner=0,
                                   void=rng.choice([0, 0.1, 0.25]), unit=rng.choice([32, 48, 64]))
        else:
            lv = mapgen.tri_level(rng, name, npts=rng.randint(6, 14), nsec=rng.randint(2, 10), void=rng.choice([0, .1, .2]), p_inner=0)
        if 2 <= len(lv.sectors) <= 13 and any(l["back"] != mapgen.NOSIDE for l in lv.lines):
            return lv
    raise RuntimeError("no level")

# --- distances between the boundaries of sectors
def _pd2(p, a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    t = (p[0] - a[0]) * dx + (p[1] - a[1]) * dy
    l = dx * dx + dy * dy
    if t <= 0 or l == 0:
        return (p[0] - a[0]) ** 2 + (p[1] - a[1]) ** 2
    if t >= l:
        return (p[0] - b[0]) ** 2 + (p[1] - b[1]) ** 2
    return ((p[0] - a[0]) * dy - (p[1] - a[1]) * dx) ** 2 / l

def _sd2(s, t):
    """least distance of two segments that do not cross"""
    return min(_pd2(s[0], *t), _pd2(s[1], *t), _pd2(t[0], *s), _pd2(t[1], *s))

def gaps(lv):
    n = len(lv.sectors)
    border = [[] for _ in range(n)]
    for (f, b), l in zip(lv.line_sectors(), lv.lines):
        if f >= 0 and b >= 0 and f != b:
            s = (lv.verts[l["v1"]], lv.verts[l["v2"]])
            border[f].append(s)
            border[b].append(s)
    lo = [[0] * n for _ in range(n)]
    hi = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            if border[i] and border[j]:
                d = [_sd2(s, t) for s in border[i] for t in border[j]]
                lo[i][j] = lo[j][i] = math.floor(min(d))
                hi[i][j] = hi[j][i] = math.ceil(max(d))
    return lo, hi

def adjacent(lv):
    return sorted({(min(f, b), max(f, b)) for (f, b), l in zip(lv.line_sectors(), lv.lines) if f >= 0 and b >= 0 and f != b and l["flags"] & R.TWOSIDED})

def bits(rb, k):
    return [(rb[i >> 3] >> (i & 7)) & 1 for i in range(k)]

ERR = re.compile(r":(\d+): ERROR")

def tables_of(path, names, ns):
    w = wad.Wad(data=open(path, "rb").read())
    out = []
    for nm, n in zip(names, ns):
        rb = w.level(nm).get("REJECT") or b""
        out.append(R.table(rb, n) if len(rb) == (n * n + 7) // 8 else [])
    return out

def case(b, d, rng, tag, mode):
    """mode: effects | reuse | broken"""
    k = rng.choice([1, 1, 2, 3])
    names = rng.sample(["MAP01", "MAP02", "MAP10", "E1M1", "E2M5", "E1M10"], k)
    levels = [level(rng, nm) for nm in names]
    own = {}
    lumps = []
    for lv in levels:
        ll = lv.lump_list()
        if mode != "effects" or rng.random() < 0.3:
            n = len(lv.sectors)
            size = (n * n + 7) // 8 if rng.random() < 0.85 else rng.choice([0, 1, (n * n + 7) // 8 + 1, max(1, n - 1)])
            p = rng.choice([0.1, 0.3, 0.6])
            rb = bytes(sum((rng.random() < p) << q for q in range(8)) for _ in range(size))
            own[lv.name] = rb
            ll.insert(len(ll) - (1 if lv.hexen else 0), ("REJECT", rb))
        lumps += ll
    base = os.path.join(d, "t%s" % tag)
    os.makedirs(base)
    name = "in.wad"
    src = os.path.join(base, name)
    wad.write_wad(src, lumps)
    tables = []
    for nm, rb in own.items():
        for wn in ("", name):
            tables.append((wn, nm, rb))
    sources = [(name, nm) for nm in names]
    if mode == "reuse":
        for wn in rng.sample(["old.wad", "Other One.wad", "x", "sub dir/third.wad"], rng.randint(1, 2)):
            os.makedirs(os.path.dirname(os.path.join(base, wn)), exist_ok=True)
            ll = []
            for nm in names + ["MAP07"]:
                if rng.random() < 0.2:
                    continue
                n = len(next((x for x in levels if x.name == nm), levels[0]).sectors)
                size = (n * n + 7) // 8 if rng.random() < 0.85 else rng.choice([0, n])
                rb = bytes(rng.getrandbits(8) & rng.getrandbits(8) for _ in range(size))
                ll += [(nm, b"")] + [(x, b"\1" * 30) for x in ("THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SEGS", "SSECTORS", "NODES", "SECTORS")]
                if rng.random() < 0.93:
                    ll.append(("REJECT", rb))
                    tables.append((wn, nm, rb))
                sources.append((wn, nm))
            wad.write_wad(os.path.join(base, wn), ll)
        if rng.random() < 0.15:
            sources += [("missing.wad", names[0])] * 3
        if rng.random() < 0.1:
            open(os.path.join(base, "junk.wad"), "wb").write(rng.choice([b"", b"PWAD", b"garbage here, not an archive at all", b"PWAD\0\0\0\0\x0c\0\0\0", b"PWAD\xff\xff\xff\xff\x0c\0\0\0"]))
            sources += [("junk.wad", names[0])] * 6
    lines = effects(rng, levels, mode == "reuse", sources, mode == "broken")
    eol = "\r\n" if rng.random() < 0.15 else "\n"
    text = eol.join(lines) + (eol if rng.random() < 0.8 else "")
    o = ""
    if rng.random() < 0.4:
        o += "s=%d" % rng.choice([1, 2, 3])
    if rng.random() < 0.2:
        o += "g-"
    rest = ["-n-", "-b-"] + (["--nosymm"] if rng.random() < 0.2 else [])
    if mode == "reuse":
        rest = rest if rng.random() < 0.7 else ["-d"]
    inplace = rng.random() < 0.15
    rej = os.path.join(base, "in.rej")
    out = os.path.join(base, "out.wad")
    rpt = os.path.join(base, "in.rpt")
    ns = [len(lv.sectors) for lv in levels]
    res = dict(lines=[list(l) for l in text.split("\n")], crashed=False, exit=0, wrote=False, errlines=[], tables=[], levels=[])
    info = dict(text=text, names=names, mode=mode)
    # plain tables
    plain = []
    for t in (None, "INCLUDE 0 0\n", "REPORT 60000\n"):
        if t is None:
            args = (["-r" + o] if o else []) + rest + ["-o", "plain.wad", name]
        else:
            open(rej, "w").write(t)
            args = ["-rm" + o] + rest + ["-o", "plain.wad", name]
        p = os.path.join(base, "plain.wad")
        if os.path.exists(p):
            os.remove(p)
        r = run.run(b, args, cwd=base)
        if r.rc != 0 or not os.path.exists(p):
            return None, dict(info, args=args, data=open(src, "rb").read(), out=r.out)
        plain.append(tables_of(p, names, ns))
        if t is None and rng.random() < 0.5:
            continue
    if os.path.exists(rpt):
        os.remove(rpt)
    open(rej, "w", newline="").write(text)
    data = open(src, "rb").read()
    args = ["-rm" + o] + rest + ([] if inplace else ["-o", "out.wad"]) + [name]
    info["args"] = args
    info["data"] = data
    before = sorted(os.listdir(base))
    r = run.run(b, args, cwd=base, timeout=60)
    info["out"] = r.out
    info["dir"] = {}
    for root, _, fs in os.walk(base):
        for f in fs:
            if f not in ("in.wad", "plain.wad", "out.wad", "in.rpt"):
                q = os.path.join(root, f)
                info["dir"][os.path.relpath(q, base).replace("/", "_")] = open(q, "rb").read()
    res["exit"] = r.rc
    # the program's own way to stop at syntax errors is a panic with a message, which is a refusal and no crash
    told = "contains syntax errors" in r.out and "runtime error" not in r.out
    res["crashed"] = r.timeout or r.rc < 0 or "fatal error" in r.out or (("panic:" in r.out or "goroutine " in r.out) and not told)
    now = open(src, "rb").read()
    res["wrote"] = os.path.exists(out) or now != data or (r.rc != 0 and sorted(os.listdir(base)) != before)
    res["errlines"] = sorted({int(x) for x in ERR.findall(r.out)})
    if r.rc == 0 and not res["crashed"]:
        try:
            tabs = tables_of(src if inplace else out, names, ns)
        except (OSError, wad.DecodeError, wad.WadError) as e:
            tabs = [[] for _ in names]
            info["undecodable"] = str(e)
        reports = {nm: [] for nm in names}
        if os.path.exists(rpt):
            cur = None
            for l in open(rpt, newline="").read().replace("\r\n", "\n").split("\n"):
                m = re.match(r"# (\S+) All sectors with LOS distance>(\d+)", l)
                if m:
                    cur = dict(dist=int(m.group(2)), pairs=[])
                    reports.setdefault(m.group(1), []).append(cur)
                elif cur is not None and re.match(r"\d+,\d+$", l):
                    cur["pairs"].append([int(x) for x in l.split(",")])
        for i, lv in enumerate(levels):
            n = ns[i]
            lo, hi = gaps(lv)
            pl = [p[i] for p in plain]
            res["levels"].append(dict(id=lv.name, name=list(lv.name), n=n, lines=len(lv.lines), adj=[list(x) for x in adjacent(lv)],
                                      all=[[int(any(p[x][y] for p in pl)) for y in range(n)] for x in range(n)],
                                      any=[[int(all(p[x][y] for p in pl)) for y in range(n)] for x in range(n)],
                                      gaplo=lo, gaphi=hi, out=tabs[i], reports=reports[lv.name]))
        for wn, nm, rb in tables:
            res["tables"].append(dict(wad=list(wn), map=list(nm), size=len(rb), bits=bits(rb, 8 * len(rb))))
    return res, info
