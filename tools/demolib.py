import atexit, os, shutil, struct, subprocess, sys, tempfile
T = tempfile.mkdtemp(prefix="demo-")
atexit.register(lambda: shutil.rmtree(T, ignore_errors=True))
BIN = os.path.join(T, "vbsp")
e = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off")
e.setdefault("HOME", "/root")
e.setdefault("GOCACHE", os.path.join(T, "gocache"))
if subprocess.run(["go", "build", "-buildvcs=false", "-o", BIN, "."], env=e).returncode:
    sys.exit(2)

def wad(path, lumps, kind=b"PWAD"):
    body, ents = b"", []
    for n, d in lumps:
        ents.append((12 + len(body), len(d), n))
        body += d
    open(path, "wb").write(struct.pack("<4sii", kind, len(lumps), 12 + len(body)) + body +
                           b"".join(struct.pack("<ii8s", p, s, n.encode()) for p, s, n in ents))
    return path

def read(path):
    b = open(path, "rb").read()
    k, n, o = struct.unpack("<4sii", b[:12])
    out = []
    for i in range(n):
        p, s, nm = struct.unpack("<ii8s", b[o + 16 * i:o + 16 * i + 16])
        out.append((nm.rstrip(b"\0").decode(), b[p:p + s]))
    return out

def run(*a):
    p = subprocess.run([BIN] + list(a), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    return p.returncode, p.stdout.decode("latin1")

def level(verts, lines, nsec=1, sides=None, secs=None, things=b"", name="MAP01"):
    """lines: (v1, v2, flags, action, tag, front, back); sides: sector numbers"""
    n8 = lambda s: s.encode().ljust(8, b"\0")
    sides = sides if sides is not None else [0] * (1 + max(max(l[5], l[6] if l[6] != 65535 else 0) for l in lines))
    secs = secs or [(0, 128, 0, 0)] * nsec
    return [(name, b""), ("THINGS", things or struct.pack("<hhHHH", 8, 8, 0, 1, 7)),
            ("LINEDEFS", b"".join(struct.pack("<HHHHHHH", *l) for l in lines)),
            ("SIDEDEFS", b"".join(struct.pack("<hh8s8s8sH", 0, 0, n8("-"), n8("-"), n8("STARTAN3"), s) for s in sides)),
            ("VERTEXES", b"".join(struct.pack("<hh", *v) for v in verts)),
            ("SECTORS", b"".join(struct.pack("<hh8s8shHH", f, c, n8("FLOOR0_1"), n8("CEIL1_1"), 160, sp, t) for f, c, sp, t in secs))]

def box(x0, y0, x1, y1, v0=0, s=0):
    """a one-sided room, interior on the right of each line"""
    return [(x0, y0), (x0, y1), (x1, y1), (x1, y0)], [(v0 + i, v0 + (i + 1) % 4, 1, 0, 0, s, 65535) for i in range(4)]

def get(path, name="MAP01"):
    w, d, on = read(path), {}, False
    for n, b in w:
        if n == name:
            on = True
        elif on and n in ("THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SEGS", "SSECTORS", "NODES", "SECTORS", "REJECT", "BLOCKMAP", "BEHAVIOR", "SCRIPTS"):
            d[n] = b
        elif on:
            break
    return d

def blocks(bm, hdr=True):
    ox, oy, w, h = struct.unpack_from("<hhHH", bm)
    W = struct.unpack("<%dH" % (len(bm) // 2), bm)
    out = []
    for b in range(w * h):
        o = W[4 + b] + (1 if hdr else 0)
        l = []
        while W[o] != 65535:
            l.append(W[o]); o += 1
        out.append(l)
    return ox, oy, w, h, out
def check(ok, what=""):
    if not ok:
        print("BROKEN:", what)
        sys.exit(1)
