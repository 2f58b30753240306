"""P20: the command line (Cli.tla)"""
import _path, os, random, sys
from concurrent.futures import ThreadPoolExecutor
from vv import check, build, tlc, wad, mapgen, clicases as C, inputcases as I

CFG = "SPECIFICATION Spec\nINVARIANTS Conforms\n"

def one_case(ck, b, rng, k, ex, maxruns):
    lvs = C.fixed_levels()
    if k % 2:
        lvs.append(mapgen.any_level(rng, rng.choice(["E1M1", "E4M12", "MAP33"])))
    arc = C.Archive(rng, lvs)
    wants = dict(b=C.want(rng, C.B, 3), n=C.want(rng, C.N, 3), r=C.want(rng, C.R, 2),
                 l=[[], rng.sample(C.LONGS, 1), rng.sample(C.LONGS, 2)])
    lines = []
    if k % 6 == 0:
        # each of the settings that must show, and the default
        lines += [["in.wad", "-d"]] + [["in.wad", "-d"] + a.split() for _, _, a in rng.sample(C.TELL, min(len(C.TELL), maxruns - 10))]
    while len(lines) < maxruns:
        a = C.command(rng, wants, arc.names)
        if rng.random() < .4:
            a = C.damage(rng, a)
        if any(C.bad(x) for x in a) or ("--roots" in " ".join(a) and "w=" in " ".join(a)):
            continue
        lines.append(a)
    res = list(ex.map(lambda x: C.execute(b, arc, x[1], "%d-%d" % (k, x[0])), enumerate(lines)))
    case = dict(input=C.chars("in.wad"), words={w: C.chars("--" + w) for w in C.WORDS}, tell=C.tell(), maps=arc.maps, runs=[r for r, _, _ in res])
    return case, (arc, lines, res)

def go():
    ck = check.Check("P20", "model_checking", [
        "options that ask for hours of work (exhaustive search of several levels of the tree) are left out",
        "the settings of TELL are known to change the two fixed maps"])
    b = build.binary()
    rng = ck.rng
    cases, infos = [], []
    ex = ThreadPoolExecutor(8)
    for k in range(ck.n(18, 200)):
        c, i = one_case(ck, b, rng, k, ex, 50)
        cases.append(c)
        infos.append(i)
    for at in range(0, len(cases), 60):
        t = tlc.run("Cli", CFG, cases=cases[at:at + 60], timeout=ck.n(600, 3000))
        ck.tlc(t)
        for p in t.printed:
            arc, lines, res = infos[at + p[1] - 1]
            for m in sorted(p[2][1], key=str)[:6]:
                x = m[0]
                if isinstance(x, tuple):
                    kind, who = x[0], [m[1]]
                else:
                    kind, who = x, [v for v in m[1:3] if isinstance(v, int)][:2 if "-" in x else 1]
                text = "; ".join("%s -> exit %s %s" % (lines[i - 1], res[i - 1][0]["exit"], res[i - 1][2].strip()[-300:]) for i in who)
                ck.fail("P20:%s" % kind, "%s: %s" % (m, text), {"in.wad": arc.data}, dict(runs=[lines[i - 1] for i in who]))
    seeds = [rng.random() for _ in range(ck.n(1200, 20000))]
    done = list(ex.map(lambda x: I.case(b, random.Random(x[1]), str(x[0])), enumerate(seeds)))
    for at in range(0, len(done), 4000):
        t = tlc.run("Archive", CFG, cases=[x[0] for x in done[at:at + 4000]], timeout=ck.n(600, 3000))
        ck.tlc(t)
        for p in t.printed:
            c, (what, kind, args, data, text, _, _) = done[at + p[1] - 1]
            ck.fail("P20:archive-%s" % sorted(p[2][1])[0], "%s %s %s: %s (verdict %s), exit %s\n%s" % (what, kind, args, p[2][1], p[3], c["exit"], text[-400:]),
                    {"in.wad": data}, c)
    ck.cov["input_files"] = len(done)
    ck.cov["input_files_refused"] = sum(x[0]["exit"] != 0 for x in done)
    ck.cov["traces_validated_against_impl"] = len(done) + sum(len(c["runs"]) for c in cases)
    ck.cov["runs_refused"] = sum(r["exit"] != 0 for c in cases for r in c["runs"])
    for _, l, r in infos[:2]:
        ck.sample(dict(args=l[-1], exit=r[-1][0]["exit"]))
    return ck.finish()

check.main(go)
