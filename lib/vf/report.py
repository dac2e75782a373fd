"""Verdict bookkeeping shared by all checks: counters of what was observed,
violations matched against known-findings.json, evidence file, exit status."""
import argparse, json, os, random, shutil, sys, tempfile, time, traceback
from .build import VERIF, BuildError


class Inconclusive(Exception):
    pass


class Check:
    def __init__(self, pid, level="exploration", rule="", technique=""):
        ap = argparse.ArgumentParser()
        ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
        ap.add_argument("--only", default=None, help="run only the cases whose key contains this text")
        ap.add_argument("--keep", action="store_true")
        a = ap.parse_args()
        self.pid, self.level, self.rule = pid, level, rule
        self.tier = a.tier if a.tier in ("quick", "thorough") else "quick"
        self.thorough = self.tier == "thorough"
        self.only, self.keep = a.only, a.keep
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random("%s-%d" % (pid, self.seed))
        self.t0 = time.time()
        self.evals, self.distinct, self.samples = 0, set(), []
        self.counters, self.violations, self.known, self.inconclusive = {}, [], {}, []
        self.assumptions = []
        self.scratch = tempfile.mkdtemp(prefix="vf_%s_" % pid, dir=os.environ.get("VERIF_SCRATCH", "/tmp"))
        self.replays = os.path.join(VERIF, "evidence", "replay")
        try:
            self.findings = [f for f in json.load(open(os.path.join(VERIF, "known-findings.json")))["findings"]
                             if f["property"] == pid and f.get("status", "open") == "open"]
        except FileNotFoundError:
            self.findings = []

    # --- observation counters
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def saw(self, key, n=1):
        """One oracle evaluation (n comparisons) of a case class `key`."""
        self.evals += n
        self.distinct.add(key if isinstance(key, str) else repr(key))

    def sample(self, d):
        if len(self.samples) < 12: self.samples.append(d)

    # --- verdicts
    def violation(self, key, message, replay=None):
        """key: stable identification of the failing case; replay: JSON-able dict."""
        for f in self.findings:
            if f["match"] in key:
                if f["match"] not in self.known:
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, f["what"]), flush=True)
                self.known[f["match"]] = self.known.get(f["match"], 0) + 1
                return
        if any(v["key"] == key for v in self.violations): return
        os.makedirs(self.replays, exist_ok=True)
        path = os.path.join(self.replays, "%s_%d.json" % (self.pid, len(self.violations)))
        with open(path, "w") as f:
            json.dump({"property": self.pid, "key": key, "message": message, "seed": self.seed,
                       "tier": self.tier, "replay": replay}, f, indent=1, default=str)
        self.violations.append({"key": key, "message": message, "replay": path})
        if len(self.violations) <= 20:
            print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
            print("  [%s] %s" % (key, " ".join(message.split())[:300]), flush=True)

    def inconcl(self, key, why):
        self.inconclusive.append({"key": key, "why": why})
        print("INCONCLUSIVE [%s] %s" % (key, why), flush=True)

    def finish(self):
        for f in self.findings:   # a listed finding that no longer shows is worth knowing
            if f["match"] not in self.known:
                print("note: listed finding not reproduced in this run: " + f["what"])
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": {"evaluations": self.evals, "distinct_nontrivial": len(self.distinct),
                           "rule": self.rule, "samples": self.samples[:12] or sorted(self.distinct)[:12],
                           "counters": self.counters, "inconclusive": self.inconclusive,
                           "known_findings_seen": self.known},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if not self.keep: shutil.rmtree(self.scratch, ignore_errors=True)
        print("%s %s seed=%d: %d oracle evaluations, %d distinct cases, %d violations, %d inconclusive, %.0f s; %s"
              % (self.pid, self.tier, self.seed, self.evals, len(self.distinct), len(self.violations),
                 len(self.inconclusive), time.time() - self.t0,
                 " ".join("%s=%s" % kv for kv in sorted(self.counters.items()))), flush=True)
        if self.violations: sys.exit(1)
        if self.evals == 0:
            print("no observation was made: the check decided nothing", flush=True); sys.exit(2)
        sys.exit(0)


def main(check, body):
    """Runs body(check); an error of the harness itself exits 2."""
    try:
        body(check)
    except BuildError as e:
        print("BUILD ERROR: %s" % e); shutil.rmtree(check.scratch, ignore_errors=True); sys.exit(3)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        if check.violations:
            check.finish()
        shutil.rmtree(check.scratch, ignore_errors=True)
        sys.exit(2)
    check.finish()
