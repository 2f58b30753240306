"""Special lines (P15): maps with the builder's own actions and tags, runs over several generations."""
import copy, os
from . import wad, mapgen, bspcases, bmcases

def dress(rng, lv, scroll=True):
    """put special actions, tags and textures on some lines"""
    used = set()
    pool = list(range(len(lv.lines)))
    rng.shuffle(pool)
    def take(pred=lambda l: True):
        for k in pool:
            if k not in used and pred(lv.lines[k]):
                used.add(k)
                return lv.lines[k]
        return None
    kinds = rng.sample(["rot", "nosegs", "998", "999", "precious", "bspnoseg", "scroll", "remote", "other"], rng.randint(2, 5))
    for kind in kinds:
        for _ in range(rng.randint(1, 3)):
            l = take()
            if l is None:
                break
            if kind == "rot":
                l["action"] = rng.choice([1080, 1081, 1082, 1083])
                l["tag"] = rng.choice([1, 30, 45, 90, 179, 180, 181, 270, 359, 400, 720, 899, rng.randint(1, 897), rng.randint(1, 897)])
                if l["action"] in (1082, 1083) and rng.random() < 0.7:
                    l["tag"] = rng.choice([16384, 32767, 32768, 40000, 65535])
            elif kind == "nosegs":
                l["action"] = rng.choice([1084, 1085, 1086])
                l["tag"] = rng.choice([0, 7])
            elif kind == "998":
                l["tag"] = 998
            elif kind == "999":
                l["tag"] = 999
                lv.sides[l["front"]]["xo"] = rng.choice([0, 180, 90, -45, 37, 360, 1])
                if l["back"] != mapgen.NOSIDE:
                    lv.sides[l["back"]]["xo"] = rng.choice([0, 180, 33])
            elif kind == "precious":
                l["tag"] = rng.choice([900, 997, 1000, 4000])
            elif kind == "bspnoseg":
                s = rng.choice([x for x in (l["front"], l["back"]) if x != mapgen.NOSIDE])
                lv.sides[s]["lo"] = rng.choice(["BSPNOSEG", "BSPNOSEG", "BSPNOSE"])
            elif kind == "scroll" and scroll:
                l["action"] = 48
                l["tag"] = rng.choice([0, 1, 2, 3, 5])
            elif kind == "remote" and scroll:
                tag = 100 * rng.randint(1, 8) + rng.choice([0, 1, 2, 4]) + 10 * rng.randint(0, 0)
                if any(x["tag"] == tag for x in lv.lines):
                    continue
                t = take(lambda x: x["action"] == 0)
                if t is None:
                    break
                l["action"], l["tag"] = 1048, tag
                t["tag"] = tag
                t["action"] = rng.choice([0, 0, 11, 48 if rng.random() < 0.5 else 1])
                if rng.random() < 0.4:      # a decoy farther away
                    u = take(lambda x: x["action"] == 0)
                    if u is not None:
                        u["tag"] = tag
            elif kind == "other":
                l["action"] = rng.choice([1, 11, 62, 47, 49, 1047, 1049, 1078, 1079, 1087])
                l["tag"] = rng.choice([0, 3, 899])
    untie(lv)

def untie(lv):
    """remote scrollers with two equally near walls: the manual does not say which; take the tag off the others"""
    for k, l in enumerate(lv.lines):
        if l["action"] == 1048:
            d = {}
            for j, m in enumerate(lv.lines):
                if j != k and m["tag"] == l["tag"]:
                    (x1, y1), (x2, y2) = lv.verts[l["v1"]], lv.verts[m["v1"]]
                    d.setdefault((x1 - x2) ** 2 + (y1 - y2) ** 2, []).append(j)
            if d:
                for j in d[min(d)][1:]:
                    lv.lines[j]["tag"] = 0

def premade(rng, lv):
    """copies of scrolling walls as an earlier run (or an editor) may have left them"""
    for l in list(lv.lines):
        if l["action"] == 48 and rng.random() < 0.5:
            for _ in range(rng.randint(1, 3)):
                n = dict(l, tag=rng.choice([0, 0, 3]), flags=rng.choice([0, l["flags"]]), args=list(l["args"]))
                at = lv.lines.index(l) + 1
                lv.lines.insert(rng.choice([at, len(lv.lines), rng.randint(at, len(lv.lines))]), n)

def map_of(rng):
    lv = mapgen.any_level(rng, p_inner=0.2)
    if rng.random() < 0.1:
        lv.hexen = True
        for l in lv.lines:
            l["action"] = rng.choice([0, 48, 1048 & 255, 80])
            l["args"] = [rng.choice([0, 0, 230, 231, 3]), 0, 0, 0, 0]
        return lv
    dress(rng, lv)
    if rng.random() < 0.4:
        premade(rng, lv)
        untie(lv)
    return lv

def reread(L, lv):
    """the level written by one run, as input of the next"""
    n = mapgen.Level(lv.name)
    n.hexen = lv.hexen
    n.verts = [tuple(v) for v in wad.vertexes(L["VERTEXES"])]
    n.lines = [dict(v1=l["v1"], v2=l["v2"], front=l["front"], back=l["back"], flags=l["flags"], action=l["action"],
                    tag=l["tag"], args=l["args"] or [0] * 5) for l in wad.linedefs(L["LINEDEFS"], lv.hexen)]
    n.sides, n.sectors, n.things, n.meta = copy.deepcopy(lv.sides), lv.sectors, lv.things, lv.meta
    return n

def redress(rng, lv):
    """change speeds, as a mapper does between two runs"""
    for l in lv.lines:
        if l["action"] == 48 and rng.random() < 0.6:
            l["tag"] = rng.choice([0, 1, 2, 3, 4])
    untie(lv)

def scroll_case(L, lv, mode):
    """case of Scroll.tla; vertex numbers of the output mapped back to the input by line ends"""
    out = wad.linedefs(L["LINEDEFS"], lv.hexen)
    vo = [tuple(v) for v in wad.vertexes(L["VERTEXES"])]
    # by coordinates: the generator keeps all vertices at distinct places
    byxy = {}
    for k, l in enumerate(lv.lines):
        for v in (l["v1"], l["v2"]):
            byxy[lv.verts[v]] = v
    def rec(l, vs, number):
        p = vs[l["v1"]]
        return dict(a=number(l["v1"]), b=number(l["v2"]), fs=l["front"], bs=l["back"], act=l["action"], tag=l["tag"], fl=l["flags"],
                    sx=p[0], sy=p[1])
    return dict(mode=mode, inp=[rec(l, lv.verts, lambda v: v) for l in lv.lines],
                out=[rec(l, vo, lambda v: byxy.get(vo[v], -1)) for l in out])
