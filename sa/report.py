"""Findings, known findings, floors, evidence and exit status of one check."""
import json
import os
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "KNOWN_FINDINGS.txt")
EVID = os.path.join(HERE, "evidence")


class Finding:
    def __init__(self, rule, key, msg, loc, func="", chain=()):
        self.rule, self.key, self.msg, self.loc, self.func, self.chain = rule, key, msg, loc, func, list(chain)

    def as_dict(self):
        return {"rule": self.rule, "key": self.key, "message": self.msg, "location": self.loc,
                "function": self.func, "call_chain": self.chain}


def known_findings():
    """{(property, key): text} of the findings that are recorded and not repaired"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            line = line.strip()
            if not line.startswith("finding: "):
                continue
            head, _, text = line[9:].partition(" :: ")
            prop, _, key = head.partition(" key=")
            out[(prop.replace("property=", "").strip(), key.strip())] = text.strip()
    return out


class Report:
    """collects what one check did; finish() writes the evidence and decides the exit status"""

    def __init__(self, prop, tier, rule, level="other"):
        self.prop, self.tier, self.rule, self.level = prop, tier, rule, level
        self.t0 = time.time()
        self.findings, self.counts, self.samples, self.broken, self.notes = [], {}, [], [], []
        self._keys = set()

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, least):
        """the construct the rule is about must still be found at least `least` times"""
        n = self.counts.get(name, 0)
        if n < least:
            self.broken.append("only %d %s found, at least %d expected: the analysis no longer sees the code" % (n, name, least))

    def sample(self, text, cap=12):
        if len(self.samples) < cap:
            self.samples.append(text)

    def violation(self, rule, key, msg, loc, func="", chain=()):
        if key not in self._keys:
            self._keys.add(key)
            self.findings.append(Finding(rule, key, msg, loc, func, chain))

    def finish(self, assumptions=()):
        known = known_findings()
        new, old = [], []
        for f in self.findings:
            (old if (self.prop, f.key) in known else new).append(f)
        os.makedirs(EVID, exist_ok=True)
        cov = {"explanation": self.rule, "samples": self.samples, "known_findings": len(old),
               "analysis_incomplete": self.broken}
        cov.update(self.counts)
        ev = {"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
              "level": self.level, "coverage": cov, "wall_s": round(time.time() - self.t0, 3),
              "violations": len(new),
              "assumptions": list(assumptions)}
        with open(os.path.join(EVID, self.prop + ".json"), "w", encoding="utf-8") as fh:
            json.dump(ev, fh, indent=1)
        replay = os.path.join(EVID, "%s-violations.json" % self.prop)
        with open(replay, "w", encoding="utf-8") as fh:
            json.dump([f.as_dict() for f in new], fh, indent=1)
        for k, v in sorted(self.counts.items()):
            print("  %s: %d" % (k, v))
        for f in old:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, known[(self.prop, f.key)]))
        for f in new:
            print("%s: %s [%s] %s" % (f.loc, f.msg, f.rule, f.func))
            for c in f.chain[:8]:
                print("      via %s" % c)
            print("      key=%s" % f.key)
        if new:
            print("VIOLATION property=%s replay=%s" % (self.prop, replay))
            return 1
        if self.broken:
            for b in self.broken:
                print("ANALYSIS-BROKEN property=%s %s" % (self.prop, b))
            return 2
        print("OK property=%s (%.1f s)" % (self.prop, time.time() - self.t0))
        return 0
