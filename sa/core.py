"""runner shared by all rules: findings, evidence, known-findings file, parallel entry analysis"""
import ast
import importlib
import json
import multiprocessing as mp
import os
import re
import sys
import time
import traceback

from .project import Project, ClassInfo, FuncInfo, AnalysisBroken
from .lib import Lib
from . import entry as E

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known_findings.txt")
LAYERS = ("datafold.pcfold", "datafold.dynfold", "datafold.appfold")
SYSTEMS = ("datafold.utils._systems", "datafold.utils.general")  # example systems and helpers, for all rules but those with SYSTEMS = False


class Finding:
    def __init__(self, key, msg, where="", rule="", path=None):
        self.key, self.msg, self.where, self.rule = key, msg, where, rule
        self.path = path or []

    def as_dict(self):
        return dict(key=self.key, rule=self.rule, where=self.where, message=self.msg, path=self.path)

    def __repr__(self):
        return f"[{self.rule}] {self.where}: {self.msg} (key={self.key})"


class Result:
    def __init__(self):
        self.findings = {}
        self.cov = {}
        self.samples = []
        self.selftests = {}

    def add(self, f):
        self.findings.setdefault(f.key, f)

    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def merge(self, o):
        for f in o.findings.values():
            self.add(f)
        for k, v in o.cov.items():
            if isinstance(v, set):
                self.cov.setdefault(k, set()).update(v)
            else:
                self.cov[k] = self.cov.get(k, 0) + v
        for s in o.samples:
            self.sample(s)


class Ctx:
    def __init__(self, repo=None, tier="quick", seed=1):
        self.p = Project(repo)
        self.lib = Lib(self.p)
        self.tier, self.seed = tier, seed
        self.layers = LAYERS + SYSTEMS
        self.jobs = int(os.environ.get("SA_JOBS", "8"))

    # -------------------------------------------------------------- parallel map
    def pmap(self, fn, items, chunk=1):
        """fn(ctx, item) -> Result ; results merged"""
        global _CTX, _FN
        _CTX, _FN = self, fn
        res = Result()
        items = list(items)
        if self.jobs <= 1 or len(items) < 3:
            for i in items:
                res.merge(_call(i))
            return res
        with mp.get_context("fork").Pool(self.jobs) as pool:
            for r in pool.imap_unordered(_call, items, chunksize=chunk):
                res.merge(r)
        return res

    # -------------------------------------------------------------- entry sets
    def public_classes(self, exclude=()):
        out = []
        for c in self.p.all_classes():
            m = c.module.name
            if c.name.startswith("_") or c.name in exclude:
                continue
            if any(m == l or m.startswith(l + ".") for l in self.layers):
                out.append(c)
        return out

    def public_functions(self):
        out = []
        for m in self.p.modules.values():
            if any(m.name == l or m.name.startswith(l + ".") for l in self.layers):
                out += [f for f in m.functions.values() if not f.name.startswith("_")]
        return out

    def cls(self, name):
        return self.p.cls(name)


_CTX = _FN = None


def _call(i):
    sys.setrecursionlimit(20000)
    try:
        return _FN(_CTX, i)
    except AnalysisBroken:
        raise
    except RecursionError:
        raise AnalysisBroken(f"recursion limit on {i}")


def load_known():
    known, fixed = {}, []
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            m = re.match(r"known: property=(\S+) key=(\S+)\s*(.*)$", ln)
            if m:
                known.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
            elif ln.startswith("fixed:"):
                fixed.append(ln)
    return known, fixed


def run_property(pid, tier="quick", seed=1, repo=None, quiet=False):
    t0 = time.time()
    mod = importlib.import_module(f"sa.rules.{pid.lower()}")
    ctx = Ctx(repo, tier, seed)
    if not getattr(mod, "SYSTEMS", True):
        ctx.layers = LAYERS
    res = mod.run(ctx)
    for k, mn in getattr(mod, "MINIMUM", {}).items():
        v = res.cov.get(k, 0)
        v = len(v) if isinstance(v, (set, list)) else v
        if v < mn:
            raise AnalysisBroken(f"{pid}: only {v} instances of '{k}' analysed, expected at least {mn}")
    st = mod.selftest(ctx) if hasattr(mod, "selftest") else {}
    for k, ok in st.items():
        if not ok:
            raise AnalysisBroken(f"{pid}: self test '{k}' failed")
    known, _ = load_known()
    known = known.get(pid, {})
    new, old = [], []
    for k in sorted(res.findings):
        (old if k in known else new).append(res.findings[k])
    cov = {k: (len(v) if isinstance(v, (set, list)) else v) for k, v in res.cov.items()}
    cov["explanation"] = getattr(mod, "EXPLANATION", mod.__doc__ or "").strip()
    cov["rule"] = getattr(mod, "RULE", "")
    cov["samples"] = res.samples[:12]
    cov["self_tests"] = st
    cov["source_digest"] = ctx.p.digest
    cov["modules"] = len(ctx.p.modules)
    cov["known_findings_matched"] = [f.key for f in old]
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "other"), coverage=cov,
              wall_s=round(time.time() - t0, 2), violations=len(new),
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])))
    return ev, new, old, known


def main(argv=None):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default=None)
    a = ap.parse_args(argv)
    sys.setrecursionlimit(20000)
    pid = a.property
    seed = int(os.environ.get("VERIF_SEED", "1"))
    evd = os.environ.get("SA_EVIDENCE", os.path.join(ROOT, "evidence"))
    os.makedirs(evd, exist_ok=True)
    try:
        ev, new, old, known = run_property(pid, a.tier, seed, a.repo)
    except AnalysisBroken as e:
        print(f"ANALYSIS-BROKEN property={pid}: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    with open(os.path.join(evd, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for f in old:
        print(f"KNOWN-FINDING: property={pid} {f.where}: {f.msg}")
    rp = os.path.join(evd, f"{pid}.violations.json")
    if os.path.exists(rp):
        os.remove(rp)
    cov = ev["coverage"]
    print(f"{pid}: " + ", ".join(f"{k}={v}" for k, v in cov.items() if isinstance(v, int)) + f", wall={ev['wall_s']}s")
    if new:
        with open(rp, "w") as f:
            json.dump([x.as_dict() for x in new], f, indent=1)
        for x in new[:20]:
            print(f"  {x!r}")
            if x.path:
                print("      via " + " -> ".join(str(s) for s in x.path))
        if len(new) > 20:
            print(f"  ... {len(new) - 20} more in {rp}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    print(f"{pid}: held on everything analysed")
    return 0
