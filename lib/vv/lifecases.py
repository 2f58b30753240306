"""Runs with one file operation failing, cut short, or the last one before death."""
import functools, os, shutil, subprocess
from . import build, mapgen, wad, run

TOOL = None
ERR = dict(EIO=5, EACCES=13, ENOSPC=28, EMFILE=24, EDQUOT=122, EINTR=4, EROFS=30, EPERM=1, EBUSY=16)
FAULTS = {"open": ["EACCES", "EMFILE", "ENOSPC", "EIO"], "read": ["EIO", "short", "EINTR"], "write": ["ENOSPC", "EIO", "EDQUOT", "short", "EINTR"],
          "seek": ["EIO"], "close": ["EIO", "ENOSPC"], "sync": ["EIO"], "truncate": ["EIO"], "unlink": ["EACCES", "EBUSY"], "rename": ["EACCES", "EBUSY"],
          "link": ["EPERM"]}

def tool():
    global TOOL
    if TOOL is None:
        TOOL = os.path.join(build.scratch(), "faults")
        subprocess.run(["gcc", "-O1", "-o", TOOL, os.path.join(build.VERIF, "tools", "faults", "faults.c")], check=True)
    return TOOL

@functools.lru_cache(maxsize=4096)
def fnv(data):
    h = 14695981039346656037
    for b in data:
        h = ((h ^ b) * 1099511628211) & 0xFFFFFFFFFFFFFFFF
    return "%d:%016x" % (len(data), h)

def archive(rng, path, cut=0):
    lumps = []
    for i in range(rng.randint(0, 3)):
        lumps.append(("PRE%d" % i, bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 40, 700, 9000])))))
    for m in rng.sample(["MAP01", "MAP02", "E1M1", "MAP31"], rng.randint(1, 3)):
        lv = mapgen.any_level(rng)
        lumps += [(m, b"")] + lv.lump_list()[1:]
    for i in range(rng.randint(0, 3)):
        lumps.append(("POST%d" % i, bytes(rng.randrange(256) for _ in range(rng.choice([0, 3, 500, 40000])))))
    wad.write_wad(path, lumps)
    return [n for n, _ in lumps if n in ("MAP01", "MAP02", "E1M1", "MAP31")]

class Setup:
    """one archive, one set of options: how to lay out its directory, and what becomes of it"""
    def __init__(self, rng, b, tag, mode):
        self.mode = mode
        self.inplace = mode in ("inplace", "symlink", "dots")
        self.files = {}
        d = os.path.join(build.scratch(), "life-" + tag)
        os.makedirs(d)
        p = os.path.join(d, "in.wad")
        maps = archive(rng, p)
        self.files["in.wad"] = open(p, "rb").read()
        self.args = ["-d"] + rng.sample(["-b", "-n", "-r"], rng.randint(0, 2))
        x = rng.random()
        if x < 0.2:
            self.args.append("-rz")
        elif x < 0.5:
            self.args.append("-rm")
            self.files["in.rej"] = rng.choice([b"REPORT 3\n", b"BLIND 2 0\nREPORT 2\n", b"EXCLUDE 0 1\n"])
        if rng.random() < 0.3:
            self.args.append("-nc=" + rng.choice(["d", "x", "z", "Z", "X"]))
        if rng.random() < 0.2:
            self.args.append("-nm=1")
        if rng.random() < 0.3:
            self.args.append("-m:" + rng.choice(maps))
        if rng.random() < 0.2 and not self.inplace:
            self.args.append("--eject")
        self.input = "in.wad"
        if mode == "symlink":
            self.input = "link.wad"
            if "in.rej" in self.files:
                self.files["link.rej"] = self.files["in.rej"]
        self.cmd = [{"dots": "../%s/in.wad" % "W"}.get(mode, self.input)] + self.args
        if mode == "outnew" or mode == "outprev":
            self.cmd += ["-o", "out.wad"]
            if mode == "outprev":
                self.files["out.wad"] = bytes(rng.randrange(256) for _ in range(rng.choice([0, 10, 100000])))
        # the result, made without any faults
        r = run.run(b, ["in.wad"] + self.args + ["-o", os.path.join(d, "ref.wad")] , cwd=d) if "in.rej" not in self.files else None
        if r is None:
            open(os.path.join(d, "in.rej"), "wb").write(self.files["in.rej"])
            r = run.run(b, ["in.wad"] + self.args + ["-o", os.path.join(d, "ref.wad")], cwd=d)
        self.ref = open(os.path.join(d, "ref.wad"), "rb").read() if r.rc == 0 else None
        self.refout = r.out
        shutil.rmtree(d)
        if self.ref is not None:
            self.h = {fnv(self.files["in.wad"]): "old", fnv(self.ref): "new"}
            self.hprev = fnv(self.files["out.wad"]) if "out.wad" in self.files else None

    def lay(self, d):
        os.makedirs(os.path.join(d, "W"))
        d = os.path.join(d, "W")
        for n, c in self.files.items():
            open(os.path.join(d, n), "wb").write(c)
        if self.mode == "symlink":
            os.symlink("in.wad", os.path.join(d, "link.wad"))
        return d

    def state(self, snap):
        inp, tmp, out = "cut", "none", "none"
        for name, hh in snap.items():
            if name == "in.wad":
                inp = self.h.get(hh, "cut")
                if fnv(self.files["in.wad"]) == fnv(self.ref):
                    inp = "old"
            elif name == "out.wad" and not self.inplace:
                out = "new" if self.h.get(hh) == "new" else "prev" if hh == self.hprev else "part"
            elif name in self.files or name.endswith(".rpt"):
                pass
            else:
                tmp = "new" if self.h.get(hh) == "new" or tmp == "new" else "part"
        return dict(inp=inp, tmp=tmp, out=out)

    def go(self, b, tag, no, action):
        """run with the operation number `no` hit by `action` ("0" for none)"""
        top = os.path.join(build.scratch(), "t-" + tag)
        d = self.lay(top)
        log = os.path.join(top, "log")
        first = self.state({n: fnv(c) for n, c in self.files.items()})
        try:
            p = subprocess.run([tool(), d, log, str(no), str(ERR.get(action, action)), "--", b] + self.cmd, cwd=d, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
            out = p.stdout.decode("latin1")
            hang = False
        except subprocess.TimeoutExpired as e:
            out, hang = (e.stdout or b"").decode("latin1"), True
        s_link = self.input
        states, ops, rc, hit, over, doubt = [first], [], None, None, False, False
        for line in open(log):
            w = line.split()
            if w[0] == "op":
                ops.append((w[2], w[3], int(w[5])))
                if w[2] == "open" and w[3] in ("in.wad", s_link) and int(w[4]) & 3:
                    over = True
                if w[6] != "-":
                    hit = (w[2], w[3])
                    # told that the overwritten archive may not have reached the disk, the program is right to keep the other copy
                    doubt = over and w[3] == "in.wad" and w[2] in ("write", "close", "sync", "truncate")
            elif w[0] == "snap":
                st = self.state(dict((x.split(":", 1)[0], x.split(":", 1)[1]) for x in w[2:]))
                if w[1] != "0" and states[-1] == st:
                    continue
                states.append(st)
            elif w[0] == "exit":
                rc = int(w[1])
        shutil.rmtree(top)
        return dict(rc=rc, out=out, hang=hang, states=states, ops=ops, hit=hit, doubt=doubt)

def case(s, r, action, must):
    status = "dead" if r["rc"] is not None and r["rc"] >= 128 else "ok" if r["rc"] == 0 else "fail"
    return dict(inplace=s.inplace, states=r["states"], status=status, claim="successfully written" in r["out"],
                unremovable=bool(r["doubt"] or (r["hit"] and r["hit"][0] == "unlink" and action not in ("0", "kill"))), must=must, never=False)
