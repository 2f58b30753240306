"""P17: the pipeline of workers (Pipeline.tla)"""
import _path, random, os
from concurrent.futures import ThreadPoolExecutor
from vv import check, build, tlc, pipecases as P

INV = "INVARIANTS Once AllWritten SolidOnce SolidIfNeeded LevelByLevel InOrder QueuesSuffice"
MC = "SPECIFICATION Spec\nCONSTANTS\n Cases <- MCCases\n Tracing = FALSE\n Reduced = %s\n" + INV + "\n"
TRACE = "SPECIFICATION Spec\nCONSTANTS\n Cases <- TraceCases\n Tracing = TRUE\n Reduced = TRUE\n" + INV + " Same Copied %s\n"

def accepted(cases, ck, timeout):
    t = tlc.run("PipelineTrace", TRACE % "Accepted", cases=cases, timeout=timeout)
    ck.tlc(t)
    return {p[1] for p in t.printed if p[0] == "VV-OK"}, t

def go():
    ck = check.Check("P17", "model_checking", [
        "goroutines are followed through trace points at channel operations (build tag verif); a trace point lies just after the operation it reports",
        "data races are looked for by Go's race detector in the schedules that happened"])
    # every interleaving of the model
    # shape, every n-th choice of options, interleavings reduced
    runs = ck.n([(1, 24, 1), (2, 1, 1), (3, 24, 1), (4, 24, 1), (6, 60, 1)],
                [(1, 1, 0), (2, 1, 0), (3, 1, 1), (4, 1, 1), (6, 4, 1), (5, 16, 1)])
    for shape, every, red in runs:
        t = tlc.run("PipelineMC", MC % ("FALSE", "TRUE")[red], env=dict(SHAPE=str(shape), EVERY=str(every), FIRST=str(ck.rng.randint(1, every))),
                    deadlock=True, cont=False, timeout=ck.n(400, 8000))
        ck.tlc(t)
        ck.add("model_states", t.distinct)
        if t.violated or t.rc:
            raise RuntimeError("the specification itself: %s %s" % (t.violated, t.out[-3000:]))
    t = tlc.run("PipelineMC", MC.replace("Spec\n", "FairSpec\n", 1) % "FALSE" + "PROPERTY Terminates\n", env=dict(SHAPE="2", EVERY=str(ck.n(60, 6)), FIRST=str(ck.rng.randint(1, ck.n(60, 6)))),
                deadlock=True, cont=False, timeout=ck.n(400, 6000))
    if t.violated or t.rc:
        raise RuntimeError("the specification itself: %s %s" % (t.violated, t.out[-3000:]))
    ck.tlc(t)
    # recorded runs
    b, plain, race = build.binary(tags=("verif",)), build.binary(), build.binary(race=True)
    seeds = [ck.rng.random() for _ in range(ck.n(320, 6000))]
    hung = []
    def one(x):
        if len(hung) > 3:      # each costs a minute
            return None, None, None, None
        r = P.case(b, plain, random.Random(x[1]), str(x[0]), 400) + (x[1],)
        if r[2] and r[2][0] == "deadlock":
            hung.append(x)
        return r
    at, chunk = 0, ck.n(160, 400)
    while at < len(seeds) and len(ck.bad) < 4:
        with ThreadPoolExecutor(8) as ex:
            done = [x for x in ex.map(one, enumerate(seeds[at:at + chunk])) if x[1]]
        at += chunk
        for _, (args, files), w, s in done:
            if w:
                ck.fail("P17:" + w[0], "%s %s" % (args, w[1]), files, dict(args=args))
        done = [x for x in done if x[0]]
        ok, t = accepted([x[0] for x in done], ck, ck.n(600, 3000))
        if t.violated:
            ck.add("violated")
        rest = [i for i in range(len(done)) if i + 1 not in ok]
        # a slow machine may have cut the end of a trace: give those more time
        for i in rest:
            if len(ck.bad) >= 4:
                break
            c, info, w, s = P.case(b, plain, random.Random(done[i][3]), "again", 4000) + (done[i][3],)
            if w:
                ck.fail("P17:" + w[0], "%s %s" % (info[0], w[1]), info[1], dict(args=info[0]))
                continue
            again, t = accepted([c], ck, 600)
            if again:
                if done[i][0]["trace"][:len(c["trace"])] == c["trace"]:
                    continue
                first = done[i][0]
                if first["trace"][-1][0] in ("busdone",) or len(first["trace"]) < len(c["trace"]):
                    # only what follows busdone may be missing
                    cut, _ = partial(first, ck)
                    if cut == len(first["trace"]) + 1:
                        continue
                c = first
            reach, t = partial(c, ck)
            tr = c["trace"]
            if "Copied" in t.violated:
                ck.fail("P17:data", "%s: the table of the input was to be taken as it is" % info[0], info[1], dict(args=info[0]))
            elif "Same" in t.violated:
                ck.fail("P17:data", "%s: lumps differ from those of a run without delays" % info[0], info[1], dict(args=info[0]))
            elif reach > len(tr):
                ck.fail("P17:unfinished", "%s: goroutines left behind after %s" % (info[0], tr[-6:]), info[1], dict(args=info[0], trace=tr))
            else:
                ck.fail("P17:event", "%s: event %s cannot follow %s" % (info[0], tr[reach - 1], tr[max(0, reach - 9):reach - 1]), info[1], dict(args=info[0], trace=tr))
        ck.add("traces_validated_against_impl", len(done))
        ck.add("events", sum(len(x[0]["trace"]) for x in done))
        for x in done[:2]:
            ck.sample(dict(args=x[1][0], trace=x[0]["trace"][:60]))
    # goroutines share nothing but what they send to each other
    def raced(x):
        i, s = x
        if len(hung) > 3 or len(ck.bad) >= 4:
            return None, None, 0, ""
        rng = random.Random(s)
        d = os.path.join(build.scratch(), "pr%d" % i)
        os.makedirs(d, exist_ok=True)
        lumps, _ = P.archive(rng)
        args, _, rmb = P.options(rng)
        data = P.wad.write_wad(None, lumps)
        open(os.path.join(d, "in.wad"), "wb").write(data)
        if rmb:
            open(os.path.join(d, "in.rej"), "w").write(rmb)
        rc, text = P.execute(race, d, args, {}, "out.wad", 120)
        if rc == -999:
            hung.append(x)
        return args, data, rc, text
    with ThreadPoolExecutor(6) as ex:
        for args, data, rc, text in ex.map(raced, enumerate(ck.rng.random() for _ in range(ck.n(100, 1500)))):
            ck.add("race_detector_runs")
            if "DATA RACE" in text:
                ck.fail("P17:race", "%s %s" % (args, text[text.index("DATA RACE"):][:500]), {"in.wad": data}, dict(args=args))
            elif rc != 0:
                ck.fail("P17:deadlock" if rc == -999 else "P17:crash", "%s %s" % (args, text[-300:]), {"in.wad": data}, dict(args=args))
    return ck.finish()

def partial(c, ck):
    t = tlc.run("PipelineTrace", TRACE % "Accepted Reached", cases=[c], timeout=600)
    ck.tlc(t)
    return max([p[1] for p in t.printed if p[0] == "VV-AT"] or [1]), t

check.main(go)
