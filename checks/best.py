"""P18: the best of several trees is kept (RootHive.tla)"""
import _path, random
from concurrent.futures import ThreadPoolExecutor
from vv import check, build, tlc, rootcases as R

CFG = "SPECIFICATION Spec\nINVARIANTS Conforms\n"

def go():
    ck = check.Check("P18", "model_checking", [
        "the tree of a candidate alone is obtained with a build that has trace points (tag verif) and is told the only candidate to try",
        "that the trees fit in the format asked for holds for all trees of the maps used"])
    b = build.binary(tags=("verif",))
    seeds = [ck.rng.random() for _ in range(ck.n(600, 8000))]
    at = 0
    while at < len(seeds):
        with ThreadPoolExecutor(8) as ex:
            done = list(ex.map(lambda x: R.case(b, random.Random(x[1]), str(x[0])), enumerate(seeds[at:at + 500])))
        at += 500
        for c, (args, data), w in done:
            if w:
                ck.fail("P18:%s" % w[0], w[1], {"in.wad": data}, dict(args=args))
        done = [x for x in done if x[0]]
        t = tlc.run("RootHive", CFG, cases=[x[0] for x in done], timeout=ck.n(600, 3000))
        ck.tlc(t)
        for p in t.printed:
            c, (args, data), _ = done[p[1] - 1]
            for m in sorted(p[2][1], key=str):
                k = m if isinstance(m, str) else m[0]
                ck.fail("P18:%s" % k, "%s %s of %d candidates" % (args, m, len(c["trees"])), {"in.wad": data}, dict(args=args))
        ck.add("traces_validated_against_impl", 2 * len(done))
        ck.add("trees", sum(len(c["trees"]) for c, _, _ in done))
        ck.add("orders_differing_from_that_of_candidates", sum(r["arrivals"] != sorted(r["arrivals"]) for c, _, _ in done for r in c["runs"]))
        for c, i, _ in done[:2]:
            ck.sample(dict(args=i[0], trees=len(c["trees"]), leaves=[t["leaves"] for t in c["trees"]]))
    return ck.finish()

check.main(go)
