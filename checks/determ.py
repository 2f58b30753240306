"""P16: searches for an offset, with any scheduling (OffsetHive.tla); runs compared (Determ.tla)"""
import _path, random
from concurrent.futures import ThreadPoolExecutor
from vv import check, build, tlc, hivecases as H

MC = "SPECIFICATION Spec\nCONSTANTS\n Cases <- MCCases\n Tracing = FALSE\nINVARIANTS Deterministic AsGood NotTwice Kept SlotThere\n"
TRACE = "SPECIFICATION Spec\nCONSTANTS\n Cases <- TraceCases\n Tracing = TRUE\nINVARIANTS Accepted\n"

def go():
    ck = check.Check("P16", "model_checking", [
        "offsets are followed through a trace point where the hive receives a blockmap (build tag verif), with injected delays",
        "what each offset gives is taken from runs of the program told to use that offset"])
    runs = ck.n([(3, 2, 1), (4, 2, 7), (4, 3, 41), (5, 2, 301), (6, 3, 3001)],
                [(3, 2, 1), (4, 2, 1), (4, 3, 2), (4, 4, 5), (5, 3, 31), (5, 2, 5), (6, 3, 301), (6, 2, 101), (7, 3, 5001)])
    for offsets, bees, every in runs:
        t = tlc.run("OffsetHiveMC", MC, env=dict(OFFSETS=str(offsets), BEES=str(bees), EVERY=str(every), FIRST=str(ck.rng.randrange(every))),
                    deadlock=True, cont=False, timeout=ck.n(300, 6000))
        ck.tlc(t)
        ck.add("model_states", t.distinct)
        if t.violated or t.rc:
            raise RuntimeError("the specification itself: %s %s" % (t.violated, t.out[-3000:]))
    t = tlc.run("OffsetHiveMC", MC.replace("Spec\n", "FairSpec\n", 1) + "PROPERTY Terminates\n",
                env=dict(OFFSETS="3", BEES="2", EVERY=str(ck.n(17, 1)), FIRST="0"), deadlock=True, cont=False, timeout=ck.n(300, 3000))
    if t.violated or t.rc:
        raise RuntimeError("the specification itself: %s %s" % (t.violated, t.out[-3000:]))
    ck.tlc(t)
    b, plain = build.binary(tags=("verif",)), build.binary()
    hung = []
    def guard(f):
        def g(x):
            if len(hung) > 3 or len(ck.bad) > 3:
                return None, None
            r = f(x)
            if r[0] is None and r[1] and r[1]["trouble"][1] == -999:
                hung.append(x)
            return r
        return g
    def troubled(res):
        for a, info in res:
            if a is None and info:
                args, rc, text = info["trouble"]
                ck.fail("P16:" + ("hang" if rc == -999 else "crash"), "%s: exit status %d: %s" % (args, rc, text), info["files"], dict(args=args))
    # searches
    n = ck.n(140, 1500)
    for at in range(0, n, 200):
        seeds = [ck.rng.random() for _ in range(min(200, n - at))]
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(guard(lambda x: H.case(b, plain, random.Random(x[1]), str(x[0]))), enumerate(seeds)))
        troubled(res)
        cs, infos = [], []
        for a, info in res:
            if a:
                cs += a
                infos += info
        if not cs:
            continue
        t = tlc.run("OffsetHiveTrace", TRACE, cases=cs, timeout=ck.n(400, 3000))
        ck.tlc(t)
        ok = {p[1] for p in t.printed if p[0] == "VV-OK"}
        for i, k in enumerate(cs):
            if i + 1 not in ok and len(ck.bad) < 8:
                args, files = infos[i]
                want = "offsets delivered %s, taken one of %s" % (k["trace"], k["final"])
                ck.fail("P16:search", "%s: %s is not what the offsets give, classes %s sizes %s" % (
                    args, want, "".join(str(v["cls"]) for v in k["val"]), [v["size"] for v in k["val"]]), files, dict(args=args, case=k))
        ck.add("traces_validated_against_impl", len(cs))
        ck.add("searches_near_a_limit", sum(1 for k in cs if k["edge"]))
        for k in range(0, min(len(cs), 8), 4):
            ck.sample(dict(args=infos[k][0], delivered=cs[k]["trace"], taken=cs[k]["final"]))
    # runs side by side
    n = ck.n(300, 3000)
    for at in range(0, n, 300):
        seeds = [ck.rng.random() for _ in range(min(300, n - at))]
        with ThreadPoolExecutor(6) as ex:
            res = list(ex.map(guard(lambda x: H.group(b, plain, random.Random(x[1]), str(x[0]), ck.n(6, 8))), enumerate(seeds)))
        troubled(res)
        cs, infos = [r[0] for r in res if r[0]], [r[1] for r in res if r[0]]
        if not cs:
            continue
        t = tlc.run("Determ", "SPECIFICATION Spec\nINVARIANT Conforms\n", cases=cs, timeout=ck.n(300, 3000))
        ck.tlc(t)
        for p in t.printed:
            if p[0] == "VV-BAD" and len(ck.bad) < 8:
                k, info = cs[p[1] - 1], infos[p[1] - 1]
                for what in sorted(p[2], key=str)[:3]:
                    ck.fail("P16:" + ("file" if what[0] == "file" else "lump"), "%s differs: %s against %s" % (
                        what[0], info["args"][what[1] - 1], info["args"][0]), info["files"], dict(args=info["args"]))
        ck.add("groups_of_runs", len(cs))
        ck.add("runs_compared", sum(len(k["runs"]) for k in cs))
        ck.sample(dict(args=infos[0]["args"]))
    return ck.finish()

check.main(go)
