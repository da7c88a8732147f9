"""What every check shares: scratch space, violations, known findings, evidence."""
import json
import os
import shutil
import sys
import time
import traceback

import tool

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(VERIF, "known_findings.json")


class Check:
    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.work = tool.scratch(prop)
        self.violations = []
        self.known_hit = {}
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        with open(FINDINGS) as f:
            self.known = [k for k in json.load(f)["findings"] if k["property"] == prop]
        self.replays = os.path.join(VERIF, "evidence", "replay", prop)
        shutil.rmtree(self.replays, ignore_errors=True)
        self._build = None
        self._exe = None

    # ---- the tool under test
    def start_build(self):
        if self._build is None and self._exe is None:
            self._build = tool.start_build(self.work)

    @property
    def exe(self):
        if self._exe is None:
            self.start_build()
            self._exe = tool.finish_build(self._build)
        return self._exe

    # ---- results
    def model(self, r):
        self.cov["states"] += r.states
        self.cov["transitions"] += r.transitions

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def validated(self, n=1):
        self.cov["traces_validated_against_impl"] += n

    def sample(self, s, limit=6):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s)

    def violation(self, key, text, files=None):
        """key identifies the failing input or history; files: {name: content} kept for replay"""
        for k in self.known:
            if k["key"] == key:
                self.known_hit.setdefault(key, k["what"])
                return
        if len(self.violations) >= 40:
            self.violations.append((key, text, None))
            return
        d = os.path.join(self.replays, "%02d" % len(self.violations))
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "README"), "w") as f:
            f.write("property %s\ninput/history: %s\n\n%s\n" % (self.prop, key, text))
        for n, c in (files or {}).items():
            with open(os.path.join(d, n), "wb") as f:
                f.write(c if isinstance(c, bytes) else c.encode("utf-8", "surrogateescape"))
        self.violations.append((key, text, d))

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": self.cov, "wall_s": round(time.time() - self.t0, 1),
              "assumptions": self.assumptions, "violations": len(self.violations)}
        ev["coverage"]["known_findings_observed"] = sorted(self.known_hit)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, w in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, w))
        for key, text, d in self.violations[:10]:
            print("  %s: %s" % (key, text[:600].replace("\n", "\n    ")))
        tool.cleanup(self.work)
        if self.violations:
            print("%d violation(s)" % len(self.violations))
            print("VIOLATION property=%s replay=%s" % (self.prop, self.violations[0][2]))
            return 1
        print("property=%s held (%d states, %d traces validated, %.0f s)" % (
            self.prop, self.cov["states"], self.cov["traces_validated_against_impl"], time.time() - self.t0))
        return 0


def main(table):
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else None
    c = Check(prop, tier)
    try:
        table[prop](c)
    except tool.Unbuildable as e:
        print("ERROR: " + str(e))
        tool.cleanup(c.work)
        return 3
    except Exception:
        traceback.print_exc()
        tool.cleanup(c.work)
        return 4
    return c.finish()
