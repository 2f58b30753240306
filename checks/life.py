"""P04: the files of a run under faults and deaths (FileLife.tla)"""
import _path, os, shutil, sys, subprocess
from concurrent.futures import ThreadPoolExecutor
from vv import check, build, tlc, wad, mapgen, run, lifecases as L

MC = "SPECIFICATION Spec\nINVARIANTS TypeOk Never Ending\nPROPERTIES Ends Steps\n"
CFG = "SPECIFICATION Spec\nINVARIANTS Conforms\n"

def same_file(ck, b, rng, cases, infos):
    """an output that is the input under another name"""
    for i, how in enumerate(["same", "dot", "symlink", "hardlink", "dirlink", "absolute", "tolink", "bothlinks"] * ck.n(1, 4)):
        d = os.path.join(build.scratch(), "same%d" % i)
        os.makedirs(d)
        p = os.path.join(d, "in.wad")
        L.archive(rng, p)
        data = open(p, "rb").read()
        inp, out = "in.wad", "in.wad"
        if how == "dot":
            out = "./../same%d/in.wad" % i
        elif how == "symlink":
            os.symlink("in.wad", os.path.join(d, "b.wad")); out = "b.wad"
        elif how == "hardlink":
            os.link(p, os.path.join(d, "b.wad")); out = "b.wad"
        elif how == "dirlink":
            os.symlink(d, os.path.join(d, "sub")); out = "sub/in.wad"
        elif how == "absolute":
            out = p
        elif how == "tolink":
            os.symlink("in.wad", os.path.join(d, "b.wad")); inp = "b.wad"
        elif how == "bothlinks":
            os.symlink("in.wad", os.path.join(d, "b.wad")); inp = "b.wad"
            os.symlink(p, os.path.join(d, "c.wad")); out = "c.wad"
        args = rng.sample([inp, "-n", "-d"], 3)
        args = args + ["-o", out] if rng.random() < 0.6 else ["-o", out] + args
        r = run.run(b, args, cwd=d)
        left = sorted(os.listdir(d))
        known = {"in.wad", "b.wad", "c.wad", "sub"}
        a = dict(inp="old", tmp="none", out="none")
        z = dict(inp="old" if open(p, "rb").read() == data else "cut", tmp="none" if set(left) <= known else "part", out="none")
        cases.append(dict(inplace=False, states=[a] if a == z else [a, z], status="ok" if r.rc == 0 else "fail", claim="successfully written" in r.out,
                          unremovable=False, must=False, never=True))
        infos.append(("same file, %s: %s" % (how, args), {"in.wad": data}, r.out))
        shutil.rmtree(d)

def full_device(ck, b, rng, cases, infos):
    """-o to a device that takes no data, and to places where no file can be made"""
    for i, out in enumerate(["/dev/full", "no/such/dir.wad", "adir"] * ck.n(2, 6)):
        d = os.path.join(build.scratch(), "full%d" % i)
        os.makedirs(os.path.join(d, "adir"))
        p = os.path.join(d, "in.wad")
        L.archive(rng, p)
        data = open(p, "rb").read()
        r = run.run(b, ["in.wad", "-o", out, "-d"], cwd=d)
        a = dict(inp="old", tmp="none", out="none")
        z = dict(inp="old" if open(p, "rb").read() == data else "cut", tmp="none" if set(os.listdir(d)) <= {"in.wad", "adir"} else "part", out="none")
        cases.append(dict(inplace=False, states=[a] if a == z else [a, z], status="ok" if r.rc == 0 else "fail", claim="successfully written" in r.out,
                          unremovable=False, must=False, never=True))
        infos.append(("output %s" % out, {"in.wad": data}, r.out))
        shutil.rmtree(d)

def truncated(ck, b, rng, cases, infos):
    """archives that end before their last lump does: reading fails without any fault in the system"""
    for i in range(ck.n(40, 400)):
        d = os.path.join(build.scratch(), "cut%d" % i)
        os.makedirs(d)
        p = os.path.join(d, "in.wad")
        lumps = []
        lv = mapgen.any_level(rng)
        lumps = [("PRE", b"x" * rng.choice([0, 5, 300]))] + lv.lump_list() + [("POST", b"y" * rng.choice([0, 7, 900]))]
        wad.write_wad(p, lumps)
        data = open(p, "rb").read()
        # the directory moves to the front of the lumps, so that the end of the file can be taken off
        import struct
        n, at = struct.unpack("<II", data[4:12])
        ents = [list(struct.unpack("<II8s", data[at + 16 * k:at + 16 * k + 16])) for k in range(n)]
        for e in ents:
            if e[1]:
                e[0] += 16 * n
        body = data[12:at]
        last = max(e[0] + e[1] for e in ents if e[1])
        first = min(e[0] for e in ents if e[1])
        take = rng.randint(1, min(len(body) - 1, rng.choice([1, 40, 1000, 100000])))
        new = data[:8] + struct.pack("<I", 12) + b"".join(struct.pack("<II8s", *e) for e in ents) + body
        new = new[:last - take]
        open(p, "wb").write(new)
        inplace = rng.random() < 0.6
        r = run.run(b, ["in.wad", "-d"] + rng.choice([[], ["-b-"], ["-n-"], ["-r-"], ["-rz"], ["-n-", "-b-"]]) + ([] if inplace else ["-o", "out.wad"]), cwd=d)
        a = dict(inp="old", tmp="none", out="none")
        z = dict(inp="old" if open(p, "rb").read() == new else "cut", tmp="none" if set(os.listdir(d)) <= {"in.wad", "out.wad"} else "part",
                 out="part" if os.path.exists(os.path.join(d, "out.wad")) else "none")
        cases.append(dict(inplace=inplace, states=[a] if a == z else [a, z], status="ok" if r.rc == 0 else "fail", claim="successfully written" in r.out,
                          unremovable=False, must=False, never=False))
        # a lump of the level that is rebuilt need not be read: then the run may succeed, and nothing is said about it here
        if r.rc == 0 and rebuilt_only(ents, len(new), r):
            cases.pop()
        else:
            infos.append(("truncated by %d" % take, {"in.wad": new}, r.out))
        shutil.rmtree(d)

def rebuilt_only(ents, size, r):
    cut = {e[2].rstrip(b"\0").decode() for e in ents if e[1] and e[0] + e[1] > size}
    return cut <= {"SEGS", "SSECTORS", "NODES", "REJECT", "BLOCKMAP"}

def go():
    ck = check.Check("P04", "model_checking", [
        "the process is stopped between system calls (a death inside of one leaves the state before or after it)",
        "the disk keeps what was written: power failures are not modelled"])
    t = tlc.run("FileLifeMC", MC, cont=False)
    ck.tlc(t)
    if t.violated:
        raise RuntimeError("the design violates its own invariant: %s\n%s" % (t.violated, t.out[-2000:]))
    b = build.binary()
    L.tool()
    rng = ck.rng
    cases, infos = [], []
    same_file(ck, b, rng, cases, infos)
    full_device(ck, b, rng, cases, infos)
    truncated(ck, b, rng, cases, infos)
    jobs = []
    modes = ["inplace", "symlink", "outnew", "outprev", "dots", "inplace"]
    for i in range(ck.n(9, 80)):
        s = L.Setup(rng, b, "s%d" % i, modes[i % len(modes)])
        if s.ref is None:
            ck.fail("P04:plainrun", "a run without faults failed: %s\n%s" % (s.args, s.refout[-600:]), s.files)
            continue
        r = s.go(b, "s%d" % i, 0, "0")
        cases.append(L.case(s, r, "0", True))
        infos.append(("no fault, %s %s" % (s.mode, s.cmd), s.files, r["out"]))
        pts = []
        for no, (op, path, _) in enumerate(r["ops"], 1):
            pts.append((no, "kill"))
            pts += [(no, f) for f in L.FAULTS.get(op, [])]
        lim = ck.n(170, 1500)
        if len(pts) > lim:
            # never drop what happens around the end, where the archive is exchanged
            tail = [x for x in pts if x[0] > len(r["ops"]) - 14]
            pts = tail + rng.sample([x for x in pts if x[0] <= len(r["ops"]) - 14], max(0, lim - len(tail)))
        jobs += [(s, i, no, f) for no, f in pts]
    def one(j):
        s, i, no, f = j
        return s.go(b, "s%d-%d-%s" % (i, no, f), no, f)
    hits = {}
    with ThreadPoolExecutor(8) as ex:
        for (s, i, no, f), r in zip(jobs, ex.map(one, jobs)):
            if r["hang"] or r["rc"] is None:
                ck.fail("P04:hang", "%s, operation %d: %s: does not end\n%s" % (s.cmd, no, f, r["out"][-400:]), s.files)
                continue
            cases.append(L.case(s, r, f, False))
            infos.append(("%s %s, operation %d %s: %s, rc=%s" % (s.mode, s.cmd, no, r["hit"], f, r["rc"]), s.files, r["out"]))
            if r["hit"]:
                hits["%s/%s" % (r["hit"][0], f)] = hits.get("%s/%s" % (r["hit"][0], f), 0) + 1
    for at in range(0, len(cases), 3000):
        t = tlc.run("FileLifeTrace", CFG, cases=cases[at:at + 3000], timeout=ck.n(600, 3000))
        ck.tlc(t)
        for p in t.printed:
            what, files, out = infos[at + p[1] - 1]
            kinds = sorted(p[2][1], key=str)
            ck.fail("P04:%s" % kinds[0][0], "%s: %s\n%s" % (what, kinds[:3], out[-500:]), files, dict(case=cases[at + p[1] - 1]))
    ck.cov["traces_validated_against_impl"] = len(cases)
    ck.cov["fault_points"] = hits
    for i in infos[-3:]:
        ck.sample(i[0])
    return ck.finish()

check.main(go)
