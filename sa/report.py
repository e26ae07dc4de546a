"""Collects obligations, writes the evidence file, prints the verdict."""
import json
import os
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known_findings.txt")


def known_keys(pid):
    """Keys of the recorded (unrepaired) findings of a property."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line[len("finding: property=%s " % pid):]
                if rest.startswith("key="):
                    key, _, text = rest[4:].partition(" :: ")
                    out[key.strip()] = text
    return out


def short(text, n=600):
    text = str(text)
    return text if len(text) <= n else text[:n] + " ..."


class Report(object):
    def __init__(self, pid, prog, rule, assumptions=()):
        self.pid, self.prog, self.rule = pid, prog, rule
        self.assumptions = list(assumptions)
        self.held, self.viol, self.undec = [], [], []
        self.analysed = {}
        self.t0 = time.time()

    def holds(self, rule, construct, detail=""):
        self.held.append({"rule": rule, "construct": construct, "detail": short(detail)})

    def violate(self, rule, construct, message, loc=""):
        self.viol.append({"rule": rule, "construct": construct, "message": short(message), "at": loc})

    def undecided(self, rule, construct, why):
        self.undec.append({"rule": rule, "construct": construct, "why": short(why)})

    def check(self, ok, rule, construct, detail="", message="", loc=""):
        """ok: True holds, False violated, None undecided."""
        if ok is True:
            self.holds(rule, construct, detail)
        elif ok is False:
            self.violate(rule, construct, message or detail, loc)
        else:
            self.undecided(rule, construct, message or detail)

    def count(self, what, n=1):
        self.analysed[what] = self.analysed.get(what, 0) + n

    def finish(self, quiet=False, write=True):
        write = write and not os.environ.get("VERIF_NOWRITE")
        known = known_keys(self.pid)
        seen, fresh, old = set(), [], []
        for v in self.viol:
            key = "%s|%s" % (v["rule"], v["construct"])
            v["key"] = key
            if key in known:
                if key not in seen:
                    old.append(v)
            else:
                fresh.append(v)
            seen.add(key)
        n = len(self.held) + len(self.viol) + len(self.undec)
        ev = {
            "property": self.pid,
            "tier": os.environ.get("VERIF_TIER", "quick") if os.environ.get("VERIF_TIER") in ("quick", "thorough") else "quick",
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": self.rule,
                "obligations": n,
                "discharged": len(self.held),
                "undecided": self.undec,
                "violated": self.viol,
                "decided_examples": self.held[:60],
                "analysed": self.analysed,
                "source_digest": self.prog.digest(),
                "modules": sorted(self.prog.trees),
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(fresh),
        }
        if write:
            d = os.path.join(ROOT, "evidence")
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, self.pid + ".json"), "w") as f:
                json.dump(ev, f, indent=1, default=str)
                f.write("\n")
        if not quiet:
            print("%s: %d obligations, %d hold, %d undecided, %d violated" % (
                self.pid, n, len(self.held), len(self.undec), len(self.viol)))
            for k, c in sorted(self.analysed.items()):
                print("  analysed %s: %d" % (k, c))
            for u in self.undec:
                print("  UNDECIDED %s %s: %s" % (u["rule"], u["construct"], u["why"]))
            for v in old:
                print("KNOWN-FINDING: property=%s %s %s (%s)" % (self.pid, v["key"], v["message"], v["at"]))
            for v in fresh:
                print("  %s: rule %s broken by %s: %s" % (v["at"], v["rule"], v["construct"], v["message"]))
        if fresh:
            path = os.path.join(ROOT, "evidence", self.pid + ".violation.json")
            if write:
                with open(path, "w") as f:
                    json.dump(fresh, f, indent=1, default=str)
            if not quiet:
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        return 0
