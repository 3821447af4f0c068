#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property on /repo's current tree.

Exit 0: the property holds on everything analysed.  Exit 1, with a VIOLATION line: it does not, or
the analysis could not establish it."""
import argparse, importlib, json, os, re, sys, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "engine"))
sys.path.insert(0, os.path.join(VERIF, "checks"))
sys.setrecursionlimit(20000)
import build


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.viol = []          # (key, where, message, details)
        self.obl = []           # (rule, instance) which were decided
        self.counts = {}
        self.notes = []
        self.assumptions = []
        self.F = None

    def ok(self, rule, inst):
        self.obl.append((rule, inst))

    def fail(self, key, where, msg, details=()):
        """`key` identifies the finding without line numbers."""
        self.viol.append((key, where, msg, list(details)))

    def expect(self, cond, rule, inst, where, msg, details=(), key=None):
        self.obl.append((rule, inst))
        if not cond:
            key = key or "%s:%s" % (rule, inst)
            if not any(v[0] == key and v[1] == where for v in self.viol):
                self.fail(key, where, msg, details)
        return cond

    def floor(self, what, n, least):
        """Fewer instances than were confirmed by hand: the rule would pass vacuously."""
        self.counts[what] = n
        if n < least:
            self.fail("floor:" + what, what, "only %d %s found, at least %d are expected: the rule does not see the code any more" % (n, what, least))


def known():
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)$", ln.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--setup", action="store_true", help="build the driver")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    if a.setup:
        build.driver()
        return 0
    t0 = time.time()
    ctx = Ctx(a.id, a.tier)
    mod = importlib.import_module(a.id.lower())
    try:
        ctx.F = build.facts()
        mod.run(ctx)
        if not ctx.obl:
            ctx.fail("vacuous", "-", "no obligation was generated")
    except build.BuildError as e:
        ctx.fail("build", "/repo", "facts could not be extracted: " + str(e)[-1500:])
    except Exception as e:
        ctx.fail("analysis", traceback.extract_tb(e.__traceback__)[-1].name, "the analysis did not reach a verdict: %s: %s" % (type(e).__name__, e),
                 traceback.format_exc().splitlines())
    kn = known()
    new, seen = [], []
    for v in ctx.viol:
        k = (a.id, v[0].replace(" ", "_"))
        (seen if k in kn else new).append(v)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    replay = os.path.join(VERIF, "evidence", a.id + ".replay.txt")
    nobl = len(ctx.obl)
    cov = {"obligations": nobl, "discharged": max(0, nobl - len(ctx.viol)), "rule": mod.RULE,
           "checker_cmd": "python3 /verif/check.py %s --tier %s" % (a.id, a.tier),
           "trusted_base": ["rustc's MIR (nightly) for the workspace", "the models of library functions in engine/models.py",
                            "the rules in checks/%s.py" % a.id.lower()],
           "instances": {}}
    for r, i in ctx.obl:
        cov["instances"][r] = cov["instances"].get(r, 0) + 1
    cov["counts"] = ctx.counts
    cov["samples"] = ["%s: %s" % x for x in ctx.obl[:: max(1, nobl // 40)]][:60]
    ev = {"property": a.id, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": getattr(mod, "LEVEL", "proof"), "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "assumptions": getattr(mod, "ASSUMPTIONS", []) + ctx.assumptions,
          "violations": len(new)}
    cov["findings"] = [{"key": v[0], "where": v[1], "message": v[2], "known": v in seen} for v in ctx.viol]
    with open(os.path.join(VERIF, "evidence", a.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for k in sorted({v[0].replace(" ", "_") for v in seen}):
        print("KNOWN-FINDING: property=%s %s" % (a.id, kn[(a.id, k)]))
    if new:
        with open(replay, "w") as f:
            for v in new:
                f.write("rule instance: %s\nwhere: %s\nwhat: %s\n" % v[:3])
                for d in v[3]:
                    f.write("    %s\n" % (d,))
                f.write("\n")
        for v in new[:12]:
            print("  %s: %s  [%s]" % (v[1], v[2], v[0]))
        if len(new) > 12:
            print("  ... and %d more" % (len(new) - 12))
        print("VIOLATION property=%s replay=%s" % (a.id, replay))
        return 1
    if os.path.exists(replay):
        os.unlink(replay)
    print("%s: %d obligations, all discharged (%.1f s)" % (a.id, nobl, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
