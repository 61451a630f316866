"""Evidence, violations and known findings."""
import hashlib, json, os, shutil, sys, time
from .build import BUILD, ROOT


class Check:
    last = None

    def __init__(self, pid, level="model_checking"):
        Check.last = self
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.viol = []          # (key, detail)
        self.rdir = os.path.join(BUILD, "replay", pid)
        shutil.rmtree(self.rdir, ignore_errors=True)
        self.known = {}
        kf = os.path.join(ROOT, "known_findings.json")
        if os.path.exists(kf):
            for e in json.load(open(kf)):
                if e.get("status") == "known" and e["property"] == pid:
                    self.known[e["key"]] = e["what"]

    def add(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def sample(self, x, limit=6):
        if len(self.samples) < limit:
            self.samples.append(x)

    def violation(self, key, detail):
        """key: a stable identifier of the failing input (matched with known_findings.json)."""
        self.viol.append((key, detail))

    def finish(self):
        new = {}
        seen_known = {}
        for key, d in self.viol:
            if key in self.known:
                seen_known.setdefault(key, d)
            else:
                new.setdefault(key, d)
        cov = dict(self.cov)
        cov["samples"] = self.samples
        out = {
            "property": self.pid,
            "tier": "thorough" if self.thorough else "quick",
            "seed": self.seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(out, f, indent=1, default=str)
        for k in sorted(self.known):
            # listed findings are reported whether or not this tier reached them
            state = "" if k in seen_known else " (not reached in this run)"
            print(f"KNOWN-FINDING: property={self.pid} {self.known[k]}{state}")
        small = {k: v for k, v in cov.items() if k != "samples"}
        print(f"{self.pid}: {small} wall={out['wall_s']}s violations={len(new)}")
        n = 0
        for key, d in new.items():
            n += 1
            if n > 10:
                break
            h = hashlib.sha1(key.encode()).hexdigest()[:12]
            os.makedirs(self.rdir, exist_ok=True)
            path = os.path.join(self.rdir, h + ".json")
            with open(path, "w") as f:
                json.dump({"property": self.pid, "key": key, **d}, f, indent=1, default=str)
            print(f"VIOLATION property={self.pid} replay={path}")
            if n <= 3:
                txt = json.dumps(d, default=str)
                print("  key:", key[:300])
                print("  detail:", txt[:300])
        if len(new) > 10:
            with open(os.path.join(self.rdir, "all_keys.txt"), "w") as f:
                f.write("\n".join(new))
        sys.stdout.flush()
        sys.exit(1 if new else 0)
