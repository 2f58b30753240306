"""Frame of a check: seed, tier, evidence, known findings, verdict.

A check collects `bad` reports as (fingerprint, text, files).  A report whose fingerprint is listed in
/verif/known-findings.json prints KNOWN-FINDING; any other one makes the check exit 1."""
import json, os, random, shutil, sys, time, traceback
from . import build

class Check:
    def __init__(self, prop, level, assumptions=()):
        self.prop = prop
        self.level = level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        if "--quick" in sys.argv:
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        self.bad = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []} \
            if level == "model_checking" else {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": []}
        self.assumptions = list(assumptions)
        self.replay_root = os.path.join(build.VERIF, "replays", prop)
        shutil.rmtree(self.replay_root, ignore_errors=True)

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def left(self, budget):
        """seconds left of a budget counted from the start of the check"""
        return budget - (time.time() - self.t0)

    def add(self, key, v=1):
        self.cov[key] = self.cov.get(key, 0) + v

    def tlc(self, t):
        self.cov["states"] = self.cov.get("states", 0) + t.distinct
        self.cov["transitions"] = self.cov.get("transitions", 0) + t.generated

    def sample(self, s, limit=4):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s)

    def fail(self, fingerprint, text, files=None, data=None):
        """files: {name: bytes|path}"""
        self.bad.append((fingerprint, text, files or {}, data))

    def known(self):
        p = os.path.join(build.VERIF, "known-findings.json")
        if not os.path.exists(p):
            return {}
        out = {}
        for e in json.load(open(p)).get("findings", []):
            if e.get("property") == self.prop and e.get("status") == "open":
                out[e["fingerprint"]] = e["what"]
        return out

    def finish(self):
        known = self.known()
        new = []
        seen = {}
        for b in self.bad:
            if b[0] in known:
                seen[b[0]] = seen.get(b[0], 0) + 1
            else:
                new.append(b)
        for fp, k in seen.items():
            print("KNOWN-FINDING: property=%s %s [%s, %d occurrence(s)]" % (self.prop, known[fp], fp, k))
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        os.makedirs(os.path.join(build.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(build.VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        brief = {k: v for k, v in self.cov.items() if k not in ("samples", "rule")}
        print("%s %s seed=%d %s wall=%.1fs" % (self.prop, self.tier, self.seed, brief, ev["wall_s"]))
        for i, (fp, text, files, data) in enumerate(new[:10]):
            d = os.path.join(self.replay_root, "%02d" % i)
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, "what.txt"), "w") as f:
                f.write("property %s\nfingerprint %s\n%s\n" % (self.prop, fp, text))
            if data is not None:
                with open(os.path.join(d, "case.json"), "w") as f:
                    json.dump(data, f, indent=1, default=str)
            for name, c in files.items():
                if isinstance(c, bytes):
                    open(os.path.join(d, name), "wb").write(c)
                elif os.path.exists(c):
                    shutil.copy(c, os.path.join(d, name))
            print("  -- [%s] %s" % (fp, text[:600]))
            print("VIOLATION property=%s replay=%s" % (self.prop, d))
        if len(new) > 10:
            print("  ... and %d more" % (len(new) - 10))
        sys.stdout.flush()
        return 1 if new else 0

def main(fn):
    """run a check function; anything unexpected is an error of the check (exit 3), never a verdict"""
    try:
        rc = fn()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(3)
    sys.exit(rc)
