"""P22: levels that are damaged, or that nobody would draw (Refs.tla)"""
import _path, random
from concurrent.futures import ThreadPoolExecutor
from vv import check, build, tlc, refcases as R

CFG = "SPECIFICATION Spec\nINVARIANTS Conforms\n"

def go():
    ck = check.Check("P22", "model_checking", ["a crash is judged from the exit status and the output"])
    b = build.binary()
    seeds = [ck.rng.random() for _ in range(ck.n(1600, 24000))]
    at = 0
    with ThreadPoolExecutor(8) as ex:
        while at < len(seeds):
            done = list(ex.map(lambda x: R.case(b, random.Random(x[1]), str(x[0])), enumerate(seeds[at:at + 1000])))
            at += 1000
            t = tlc.run("Refs", CFG, cases=[x[0] for x in done], timeout=ck.n(600, 3000))
            ck.tlc(t)
            for p in t.printed:
                c, (hows, argv, data, text) = done[p[1] - 1]
                for k in sorted(p[2][1]):
                    ck.fail("P22:%s" % k, "%s %s exit %s\n%s" % (hows, argv, c["exit"], text.split("License v2.")[-1][-700:]), {"in.wad": data}, dict(args=argv))
            ck.add("traces_validated_against_impl", len(done))
            ck.add("refused", sum(c["exit"] != 0 for c, _ in done))
            for c, i in done[:2]:
                ck.sample(dict(levels=i[0], args=i[1], exit=c["exit"]))
    return ck.finish()

check.main(go)
