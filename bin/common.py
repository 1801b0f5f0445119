"""Evidence, known findings and verdict output shared by all checks."""
import json, os, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
REPLAY = os.path.join(VERIF, "build", "replay")
KNOWN = os.path.join(VERIF, "known_findings.txt")

def known(pid):
    """labels of the recorded, unrepaired findings of one property"""
    out = []
    for l in open(KNOWN):
        l = l.rstrip("\n")
        pre = "finding: property=%s " % pid
        if l.startswith(pre):
            out.append(l[len(pre):])
    return out

class Report:
    def __init__(self, pid, level, tier):
        self.pid, self.level, self.tier = pid, level, tier
        self.t0 = time.time()
        self.known, self.seen_known, self.viol = known(pid), [], []
        self.cov, self.assumptions = {}, []
        os.makedirs(EVID, exist_ok=True); os.makedirs(REPLAY, exist_ok=True)
    def finding(self, what, replay_text):
        """a counterexample that reproduced on the real code"""
        for k in self.known:
            if what == k:
                if k not in self.seen_known:
                    self.seen_known.append(k)
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, what), flush=True)
                return False
        if any(w == what for w, _ in self.viol):
            return True
        path = os.path.join(REPLAY, "%s-%d.txt" % (self.pid, len(self.viol) + 1))
        with open(path, "w") as f:
            f.write(replay_text)
        self.viol.append((what, path))
        print("  %s" % what[:600])
        print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
        return True
    def done(self):
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.cov["known_findings_seen"] = self.seen_known
        ev = dict(property=self.pid, tier=self.tier, seed=seed, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        if self.viol:
            ev["coverage"]["violations_found"] = [w[:400] for w, _ in self.viol]
        p = os.path.join(EVID, self.pid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)
        print("%s %s: %s in %.1f s" % (self.pid, self.tier, "VIOLATED" if self.viol else "held on everything explored", ev["wall_s"]))
        return 1 if self.viol else 0
