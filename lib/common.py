"""Reporting shared by all checks: evidence, violations, known findings."""
import json, os, sys, time, hashlib
import xk

class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.viol = []          # dicts: key, where, what
        self.cov = {}
        self.samples = []
        self.assume = []
        self.level = "other"
        self.expl = ""
        self.obl = self.dis = 0
        self.rules = []

    def violation(self, key, where, what):
        """key: stable identification of the construct (no line numbers)."""
        if any(v["key"] == key for v in self.viol):
            return
        self.viol.append({"key": key, "where": where, "what": what})

    def require(self, cond, msg):
        if not cond:
            raise xk.Broken(msg)

    def sample(self, s, n=12):
        if len(self.samples) < n and s not in self.samples:
            self.samples.append(s)

    def finish(self):
        known = json.load(open(os.path.join(xk.VERIF, "known-findings.json")))["findings"]
        known = [k for k in known if k["property"] == self.prop and k.get("status") == "known"]
        new, hit = [], []
        for v in self.viol:
            k = next((k for k in known if v["key"] in k["keys"]), None)
            (hit if k else new).append((v, k))
        lines = []
        for k in known:
            vs = [v for v, kk in hit if kk is k]
            if vs:
                lines.append(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        cov = dict(self.cov)
        cov["obligations"] = self.obl
        cov["discharged"] = self.dis
        cov["explanation"] = self.expl
        cov["rules"] = self.rules
        cov["samples"] = self.samples
        if self.level == "proof":
            cov["checker_cmd"] = f"python3 /verif/check.py {self.prop} {self.tier}"
            cov["trusted_base"] = self.assume
        cov["known_findings_hit"] = len(hit)
        ev = {"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": self.level,
              "coverage": cov, "wall_s": round(time.time() - self.t0, 2), "assumptions": self.assume, "violations": len(new)}
        os.makedirs(os.path.join(xk.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(xk.VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for l in lines:
            print(l)
        for v, _ in new:
            print(f"  {self.prop}: {v['where']}: {v['what']}")
        print(f"{self.prop} [{self.tier}]: {self.obl} obligations, {self.dis} discharged, {len(hit)} known, {len(new)} new violations, {ev['wall_s']} s")
        if new:
            d = os.path.join(xk.BUILD, "violations")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{self.prop}.json")
            with open(path, "w") as f:
                json.dump([v for v, _ in new], f, indent=1)
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        return 0
