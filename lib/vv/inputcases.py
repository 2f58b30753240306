"""Input files that are no archives, or damaged ones (Archive.tla)."""
import os, struct, subprocess
from . import build, mapgen, wad

CAP = 10 ** 9

def intact(rng):
    lumps = []
    for i in range(rng.randint(0, 2)):
        lumps.append(("PRE%d" % i, rng.randbytes(rng.choice([0, 5, 300]))))
    for m in rng.sample(["MAP01", "MAP02", "E1M1", "MAP31"], rng.randint(1, 2)):
        lumps += [(m, b"")] + mapgen.any_level(rng).lump_list()[1:]
    for i in range(rng.randint(0, 2)):
        lumps.append(("POST%d" % i, rng.randbytes(rng.choice([1, 33, 5000]))))
    data = wad.write_wad(None, lumps, kind=rng.choice([b"PWAD", b"IWAD"]), layout=rng.choice(["dirlast", "dirfirst"]))
    return bytearray(data)

BIG = [0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFF0, 0x10000000, 0x0FFFFFFF, 1 << 27]

def damaged(rng):
    d = intact(rng)
    n, diroff = struct.unpack_from("<II", d, 4)
    what = rng.choice(["none", "cut", "cut", "magic", "count", "count", "dir", "dir", "pos", "pos", "size", "size", "name", "random", "empty", "short", "nolevels"])
    if what == "cut":
        d = d[:rng.choice([rng.randrange(len(d)), len(d) - 1, max(0, diroff + 16 * n - rng.randint(1, 20)), rng.randint(0, 40)])]
    elif what == "magic":
        d[0:4] = rng.choice([b"ZWAD", b"pwad", b"PWA\0", b"\0\0\0\0", b"PK\3\4", b"WAD2", b"PWAE"])
    elif what == "count":
        struct.pack_into("<I", d, 4, rng.choice([0, n + 1, n + rng.randint(2, 50), n - 1] + BIG) & 0xFFFFFFFF)
    elif what == "dir":
        struct.pack_into("<I", d, 8, rng.choice([0, 4, 12, diroff + 16, diroff + 1, max(0, diroff - 16), len(d), len(d) - 16] + BIG) & 0xFFFFFFFF)
    elif what in ("pos", "size", "name"):
        for _ in range(rng.choice([1, 1, 2])):
            e = diroff + 16 * rng.randrange(n)
            if what == "pos":
                struct.pack_into("<I", d, e, rng.choice([len(d), len(d) - 1, len(d) + 7] + BIG))
            elif what == "size":
                struct.pack_into("<I", d, e + 4, rng.choice([len(d), len(d) + 1, 60000] + BIG))
            else:
                d[e + 8:e + 16] = rng.choice([rng.randbytes(8), b"\0" * 8, b"MAP01\0\0\0", b"\xff" * 8, b"THINGSXX"])
    elif what == "random":
        d = bytearray(rng.randbytes(rng.choice([12, 100, 5000])))
        if rng.random() < .7:
            d[0:4] = b"PWAD"
        if rng.random() < .5:
            struct.pack_into("<II", d, 4, 2, 12)
    elif what == "empty":
        d = bytearray()
    elif what == "short":
        d = d[:rng.randint(1, 12)]
    elif what == "nolevels":
        for i in range(n):
            e = diroff + 16 * i + 8
            nm = bytes(d[e:e + 8]).rstrip(b"\0")
            if nm[:3] == b"MAP" or nm[:1] == b"E" and nm[2:3] == b"M":
                d[e:e + 8] = rng.choice([b"MAP1", b"E1M", b"E0M1", b"MAP001", b"XMAP01", b"MAPAB", b"map0"]).ljust(8, b"\0")
    return what, bytes(d)

def case(b, rng, tag):
    what, data = damaged(rng)
    kind = "file"
    if rng.random() < .04:
        kind = rng.choice(["missing", "directory", "missingdir"])
    d = os.path.join(build.scratch(), "inp-" + tag)
    os.makedirs(d)
    p = os.path.join(d, "in.wad")
    if kind == "file":
        open(p, "wb").write(data)
    elif kind == "directory":
        os.makedirs(p)
    args = [p if kind != "missingdir" else os.path.join(d, "nosuch", "in.wad")]
    prev = None
    if rng.random() < .5:
        args += ["-o", os.path.join(d, "out.wad")]
        if rng.random() < .5:
            prev = b"earlier result"
            open(os.path.join(d, "out.wad"), "wb").write(prev)
    args += [x for x in ("-d", "-vv", "-rz", "--nosymm") if rng.random() < .3]
    before = {n: open(os.path.join(d, n), "rb").read() if os.path.isfile(os.path.join(d, n)) else b"" for n in os.listdir(d)}
    try:
        pr = subprocess.run(["prlimit", "--as=%d" % (20 << 30), b] + args, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        rc, text, hang = pr.returncode, pr.stdout.decode("latin1"), False
    except subprocess.TimeoutExpired as e:
        rc, text, hang = -999, (e.stdout or b"").decode("latin1"), True
    after = {n: open(os.path.join(d, n), "rb").read() if os.path.isfile(os.path.join(d, n)) else b"" for n in os.listdir(d)}
    subprocess.run(["rm", "-r", d])
    a2, b2 = dict(after), dict(before)
    a2.pop("out.wad", None)
    b2.pop("out.wad", None)
    touched = a2 != b2
    n = diroff = 0
    ents = []
    magic = data[:4].decode("latin1")
    if len(data) >= 12:
        n, diroff = struct.unpack_from("<II", data, 4)
        if diroff + 16 * n <= len(data):
            for i in range(n):
                x, y, nm = struct.unpack_from("<II8s", data, diroff + 16 * i)
                ents.append(dict(pos=min(x, CAP), size=min(y, CAP), name=list(nm.split(b"\0")[0].decode("latin1"))))
    return dict(file=kind == "file", len=len(data), magic=magic, n=min(n, CAP), dir=min(diroff, CAP), ents=ents, intact=what == "none", exit=rc,
                outchanged=after.get("out.wad") != before.get("out.wad"), crash=hang or rc not in (0, 1) or "goroutine " in text, touched=touched,
                said=len(text.split("License v2.")[-1].strip()) > 0, huge="out of memory" in text), (what, kind, args, data, text, before, after)
