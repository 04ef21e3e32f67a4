"""Obligations, violations, evidence and known findings of one check run."""

import json
import os
import time
import traceback

from .interp import AnalysisError, Interp
from .project import Project

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    def __init__(self, pid, tier="quick", seed=1):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.obs = []  # (rule, construct, ok, where, msg)
        self._seen = {}
        self.paths = 0
        self.cut = 0
        self.truncated = 0
        self.entries = []
        self.covered = set()
        self.cov_unit = "statements"
        self._project = None
        self.rules = {}
        self.notes = []
        self.undecided = []

    @property
    def deep(self):
        return self.tier == "thorough"

    @property
    def project(self):
        if self._project is None:
            self._project = Project()
        return self._project

    @property
    def repo(self):
        return self.project.repo

    def rule(self, name, text):
        self.rules[name] = text

    def ob(self, ok, rule, construct, where="", msg=""):
        """One obligation: `construct` must satisfy `rule`."""
        k = (rule, construct)
        i = self._seen.get(k)
        if i is None:
            self._seen[k] = len(self.obs)
            self.obs.append([rule, construct, bool(ok), where, "" if ok else msg])
        elif not ok and self.obs[i][2]:
            self.obs[i] = [rule, construct, False, where, msg]
        return ok

    def bad(self, rule, construct, where="", msg=""):
        return self.ob(False, rule, construct, where, msg)

    def floor(self, rule, n):
        """Say so when the rule matched less than what was confirmed by reading."""
        c = sum(1 for o in self.obs if o[0] == rule)
        if c < n:
            self.undecided.append(f"rule {rule} matched {c} constructs, fewer than the {n} confirmed by reading")

    def group(self, fn, *args, **kw):
        """Run one rule; a rule that cannot read the code leaves the others standing."""
        try:
            return fn(self, *args, **kw)
        except AnalysisError as e:
            self.undecided.append(f"{fn.__name__}{args if args else ''}: {e}")
        except Exception as e:  # an unforeseen shape of the code
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.undecided.append(f"{fn.__name__}{args if args else ''}: {type(e).__name__}: {e} at {tb.filename}:{tb.lineno}")

    def explore(self, entry, thunk, **cfg):
        """Explore all paths of an entry; accounts for coverage."""
        cfg.setdefault("deadline", self.t0 + 700)
        it = Interp(self.project, **cfg)
        if time.time() > self.t0 + 700:
            raise AnalysisError("out of time")
        ps = it.explore(thunk)
        if os.environ.get("VERIF_STEPS"):
            print("steps", entry, it.total, len(ps))
        self.entries.append(entry)
        self.paths += len(ps)
        self.cut += sum(1 for p in ps if p.outcome == "cut")
        self.truncated += bool(it.truncated)
        self.covered |= it.covered
        return ps

    def violations(self):
        return [o for o in self.obs if not o[2]]


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def finish(ctx, level_note=""):
    known = {(k["rule"], k["construct"]): k for k in load_known() if k["property"] == ctx.pid and k.get("status") == "known"}
    bad = ctx.violations()
    new, old = [], []
    for o in bad:
        (old if (o[0], o[1]) in known else new).append(o)
    evd = os.path.join(HERE, "evidence")
    os.makedirs(evd, exist_ok=True)
    byrule = {}
    for o in ctx.obs:
        r = byrule.setdefault(o[0], [0, 0])
        r[0] += 1
        r[1] += o[2]
    files = {}
    for m, f, l in ctx.covered:
        files.setdefault(f"{m}::{f}", set()).add(l)
    coverage = {
        "explanation": "Static decision from the sources of /repo's working tree; nothing of /repo is executed. "
        "An obligation is one construct (table entry, call site, path class, declaration) a rule was evaluated on.",
        "obligations": len(ctx.obs),
        "discharged": sum(1 for o in ctx.obs if o[2]),
        "rules": {r: {"text": ctx.rules.get(r, ""), "instances": a, "satisfied": b} for r, (a, b) in sorted(byrule.items())},
        "entries_analysed": ctx.entries,
        "abstract_paths": ctx.paths,
        "paths_cut_at_bound": ctx.cut,
        "entries_truncated": ctx.truncated,
        "functions_covered": len(files),
        "statements_covered": sum(len(v) for v in files.values()),
        "functions": sorted(files)[:200],
        "samples": [
            {"rule": o[0], "construct": o[1], "where": o[3], "ok": o[2]} for o in ctx.obs[:: max(1, len(ctx.obs) // 12)]
        ],
        "notes": ctx.notes,
        "undecided": ctx.undecided,
    }
    ev = {
        "property": ctx.pid,
        "tier": ctx.tier,
        "seed": ctx.seed,
        "level": "other",
        "coverage": coverage,
        "wall_s": round(time.time() - ctx.t0, 3),
        "violations": len(new),
    }
    with open(os.path.join(evd, ctx.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for o in old:
        k = known[(o[0], o[1])]
        print(f"KNOWN-FINDING: property={ctx.pid} {k['what']}")
    rp = os.path.join(evd, ctx.pid + ".violation.json")
    if new:
        with open(rp, "w") as f:
            json.dump(
                [{"property": ctx.pid, "rule": o[0], "rule_text": ctx.rules.get(o[0], ""), "construct": o[1], "where": o[3], "message": o[4]} for o in new],
                f, indent=1,
            )
        for o in new[:20]:
            print(f"  [{o[0]}] {o[1]}\n      at {o[3]}\n      {o[4]}")
        print(f"VIOLATION property={ctx.pid} replay={rp}")
        return 1
    if os.path.exists(rp):
        os.unlink(rp)
    for u in ctx.undecided:
        print(f"  undecided: {u}")
    if not ctx.obs:
        print(f"ANALYSIS-BROKEN property={ctx.pid}: nothing was decided")
        return 0
    print(
        f"{ctx.pid}: held on {len(ctx.obs)} obligations, {ctx.paths} abstract paths, "
        f"{len(files)} functions ({round(time.time() - ctx.t0, 1)} s)"
    )
    return 0
