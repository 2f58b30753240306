"""WAD container reading/writing and lump decoding (independent of the code under test)."""
import struct, zlib

class WadError(Exception):
    pass

class Entry:
    __slots__ = ("pos", "size", "name", "raw")
    def __init__(self, pos, size, name, raw=None):
        self.pos, self.size, self.name, self.raw = pos, size, name, raw

def name8(n):
    b = n.encode("latin1") if isinstance(n, str) else n
    return b[:8].ljust(8, b"\0")

def write_wad(path, lumps, kind=b"PWAD", layout="dirlast", overlaps=None, pad=0, gap=0, dir_gap=0):
    """lumps: list of (name, bytes). layout: dirlast | dirfirst."""
    n = len(lumps)
    body = bytearray()
    base = 12 if layout == "dirlast" else 12 + 16 * n + dir_gap
    ents = []
    for name, data in lumps:
        if len(data) == 0:
            ents.append((base + len(body), 0, name))
            continue
        ents.append((base + len(body), len(data), name))
        body += data
        if gap:
            body += b"\xEE" * gap
        if pad:
            while (base + len(body)) % pad:
                body += b"\0"
    d = b"".join(struct.pack("<ii8s", p, s, name8(nm)) for p, s, nm in ents)
    if layout == "dirlast":
        out = struct.pack("<4sii", kind, n, base + len(body)) + bytes(body) + d
    else:
        out = struct.pack("<4sii", kind, n, 12) + d + b"\0" * dir_gap + bytes(body)
    if path is not None:
        with open(path, "wb") as f:
            f.write(out)
    return out

class Wad:
    def __init__(self, path=None, data=None):
        self.data = data if data is not None else open(path, "rb").read()
        if len(self.data) < 12:
            raise WadError("short header")
        self.kind, self.n, self.diroff = struct.unpack("<4sII", self.data[:12])
        if self.kind not in (b"PWAD", b"IWAD"):
            raise WadError("bad magic %r" % self.kind)
        end = self.diroff + 16 * self.n
        if self.n > 1000000 or end > len(self.data):
            raise WadError("directory out of bounds: off=%d n=%d len=%d" % (self.diroff, self.n, len(self.data)))
        self.entries = []
        for i in range(self.n):
            p, s, nm = struct.unpack("<II8s", self.data[self.diroff + 16 * i:self.diroff + 16 * i + 16])
            self.entries.append(Entry(p, s, nm.split(b"\0")[0].decode("latin1"), nm))

    def lump(self, i):
        e = self.entries[i]
        if e.size == 0:
            return b""
        if e.pos + e.size > len(self.data):
            raise WadError("lump %d (%s) out of bounds" % (i, e.name))
        return self.data[e.pos:e.pos + e.size]

    def lumps(self):
        return [(self.entries[i].name, self.lump(i)) for i in range(self.n)]

    def level(self, marker):
        """dict of lumps following first marker named `marker` until non-level lump."""
        for i, e in enumerate(self.entries):
            if e.name == marker:
                d = {}
                j = i + 1
                while j < self.n and self.entries[j].name in LEVEL_NAMES:
                    if self.entries[j].name in d:
                        break
                    d[self.entries[j].name] = self.lump(j)
                    j += 1
                return d
        return None

ORDER = ["THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SEGS", "SSECTORS", "NODES", "SECTORS",
         "REJECT", "BLOCKMAP", "BEHAVIOR", "SCRIPTS"]
LEVEL_NAMES = set(ORDER)

class DecodeError(Exception):
    pass

def recs(data, fmt):
    sz = struct.calcsize(fmt)
    if len(data) % sz:
        raise DecodeError("size %d not multiple of %d (%s)" % (len(data), sz, fmt))
    return [struct.unpack_from(fmt, data, o) for o in range(0, len(data), sz)]

def vertexes(data):
    return recs(data, "<hh")

def linedefs(data, hexen=False):
    """-> list of dict(v1,v2,flags,action,tag,front,back,args)"""
    out = []
    if hexen:
        for r in recs(data, "<HHHBBBBBBHH"):
            out.append(dict(v1=r[0], v2=r[1], flags=r[2], action=r[3], args=list(r[4:9]), tag=0,
                            front=r[9], back=r[10]))
    else:
        for r in recs(data, "<HHHHHHH"):
            out.append(dict(v1=r[0], v2=r[1], flags=r[2], action=r[3], args=[], tag=r[4], front=r[5], back=r[6]))
    return out

def sidedefs(data):
    return [dict(xo=r[0], yo=r[1], up=r[2], lo=r[3], mid=r[4], sector=r[5]) for r in recs(data, "<hh8s8s8sH")]

def sectors(data):
    return [dict(floor=r[0], ceil=r[1], ft=r[2], ct=r[3], light=r[4], special=r[5], tag=r[6])
            for r in recs(data, "<hh8s8shHH")]

def blockmap(data):
    """-> dict(ox,oy,w,h,offsets(list),lists(list of list of line numbers, raw incl. header word)) words = all"""
    if len(data) < 8 or len(data) % 2:
        raise DecodeError("blockmap size %d" % len(data))
    ox, oy, w, h = struct.unpack_from("<hhHH", data, 0)
    words = list(struct.unpack("<%dH" % (len(data) // 2), data))
    if 4 + w * h > len(words):
        raise DecodeError("blockmap offsets out of bounds")
    offs = words[4:4 + w * h]
    lists = []
    for o in offs:
        if o >= len(words):
            raise DecodeError("blockmap list offset %d out of bounds" % o)
        l = []
        while True:
            if o >= len(words):
                raise DecodeError("blockmap list unterminated")
            if words[o] == 0xFFFF:
                break
            l.append(words[o])
            o += 1
        lists.append(l)
    return dict(ox=ox, oy=oy, w=w, h=h, offsets=offs, lists=lists, nwords=len(words), words=words)

def nodes_of(level, nverts_hint=None):
    """decode SEGS/SSECTORS/NODES in any of the formats.
    -> dict(fmt, verts=[(x,y)] in 16.16 fixed, segs=[...], ssectors=[(first,count)], nodes=[...]) or None when empty"""
    nd = level.get("NODES", b"")
    sg, ss = level.get("SEGS", b""), level.get("SSECTORS", b"")
    vx = [(x << 16, y << 16) for x, y in vertexes(level["VERTEXES"])]
    raw = nd or ss
    fmt = None
    body = None
    for lump in (nd, ss):
        if lump[:4] in (b"XNOD", b"ZNOD"):
            fmt = lump[:4].decode()
            body = lump[4:]
            if fmt == "ZNOD":
                dob = zlib.decompressobj()
                body = dob.decompress(body) + dob.flush()
                if not dob.eof:
                    raise DecodeError("ZNOD zlib stream truncated")
                if dob.unused_data:
                    raise DecodeError("ZNOD trailing garbage")
            break
    if fmt:
        o = 0
        def u32():
            nonlocal o
            if o + 4 > len(body):
                raise DecodeError("extended nodes truncated")
            v = struct.unpack_from("<I", body, o)[0]
            o += 4
            return v
        org, new = u32(), u32()
        if org > len(vx):
            raise DecodeError("extended nodes: OrgVerts %d > VERTEXES %d" % (org, len(vx)))
        verts = vx[:org]
        for _ in range(new):
            if o + 8 > len(body):
                raise DecodeError("extended nodes truncated")
            x, y = struct.unpack_from("<ii", body, o)
            o += 8
            verts.append((x, y))
        nss = u32()
        ssl = []
        first = 0
        for _ in range(nss):
            c = u32()
            ssl.append((first, c))
            first += c
        nsg = u32()
        segs = []
        for _ in range(nsg):
            if o + 11 > len(body):
                raise DecodeError("extended nodes truncated")
            a, b, l, s = struct.unpack_from("<IIHB", body, o)
            o += 11
            segs.append(dict(v1=a, v2=b, angle=None, line=l, side=s, offset=None))
        nn = u32()
        nodes = []
        for _ in range(nn):
            if o + 32 > len(body):
                raise DecodeError("extended nodes truncated")
            r = struct.unpack_from("<hhhh4h4hII", body, o)
            o += 32
            nodes.append(dict(x=r[0], y=r[1], dx=r[2], dy=r[3], bbR=list(r[4:8]), bbL=list(r[8:12]),
                              r=_child(r[12], 0x80000000), l=_child(r[13], 0x80000000)))
        if o != len(body):
            raise DecodeError("extended nodes: %d trailing bytes" % (len(body) - o))
        if first != nsg:
            raise DecodeError("extended nodes: subsector seg counts sum %d != segs %d" % (first, nsg))
        return dict(fmt=fmt, verts=verts, segs=segs, ssectors=ssl, nodes=nodes, orgverts=org)
    if not nd and not ss and not sg:
        return None
    if nd[:8] == b"xNd4\0\0\0\0":
        segs = [dict(v1=r[0], v2=r[1], angle=r[2], line=r[3], side=r[4], offset=r[5]) for r in recs(sg, "<IIHHHH")]
        ssl = [(r[1], r[0]) for r in recs(ss, "<HI")]
        nodes = []
        for r in recs(nd[8:], "<hhhh4h4hII"):
            nodes.append(dict(x=r[0], y=r[1], dx=r[2], dy=r[3], bbR=list(r[4:8]), bbL=list(r[8:12]),
                              r=_child(r[12], 0x80000000), l=_child(r[13], 0x80000000)))
        return dict(fmt="DEEP", verts=vx, segs=segs, ssectors=ssl, nodes=nodes, orgverts=len(vx))
    segs = [dict(v1=r[0], v2=r[1], angle=r[2], line=r[3], side=r[4], offset=r[5]) for r in recs(sg, "<HHHHHH")]
    ssl = [(r[1], r[0]) for r in recs(ss, "<HH")]
    nodes = []
    for r in recs(nd, "<hhhh4h4hHH"):
        nodes.append(dict(x=r[0], y=r[1], dx=r[2], dy=r[3], bbR=list(r[4:8]), bbL=list(r[8:12]),
                          r=_child(r[12], 0x8000), l=_child(r[13], 0x8000)))
    return dict(fmt="VANILLA", verts=vx, segs=segs, ssectors=ssl, nodes=nodes, orgverts=len(vx))

def _child(v, bit):
    """(is_subsector, index)"""
    return [1 if v & bit else 0, v & ~bit]

def reject_bits(data, n):
    """n*n matrix of 0/1; raises when too short"""
    need = (n * n + 7) // 8
    if len(data) < need:
        raise DecodeError("reject size %d < %d" % (len(data), need))
    m = []
    for i in range(n):
        row = []
        for j in range(n):
            k = i * n + j
            row.append((data[k >> 3] >> (k & 7)) & 1)
        m.append(row)
    return m

def pack_reject(m):
    n = len(m)
    b = bytearray((n * n + 7) // 8)
    for i in range(n):
        for j in range(n):
            if m[i][j]:
                k = i * n + j
                b[k >> 3] |= 1 << (k & 7)
    return bytes(b)
