"""Shared by the checks which use the exploration of everything that writes markup."""
import build, emitrun


def results(ctx, *parts, only=None, tag="", least=30):
    """Results of exploring the writers on the current facts, with tuples restored.
    parts: "xml" (text of every kind of node), "order" (children and warnings), "text" (the wrapper and the fallback)"""
    def tup(x):
        return tuple(tup(y) for y in x) if isinstance(x, (list, tuple)) else x
    rows = []
    for part in parts:
        rows += build.cached(ctx.F, "emit-" + part + tag, lambda: emitrun.run_all(ctx.F, (part,), only))
    for r in rows:
        for k in ("viol", "obl", "kids", "warns", "values", "ends", "result_warnings", "emitted", "laid"):
            r[k] = [tup(x) for x in r.get(k, [])]
        if r.get("error"):
            ctx.fail("budget:" + r["name"], r["name"], "the exploration of this writer did not finish: " + r["error"])
    for part in parts:
        if part != "text":
            ctx.floor("node kinds explored (%s)" % part, len([r for r in rows if r.get("mode") == part]), least)
    ctx.counts["abstract steps"] = sum(r.get("steps", 0) for r in rows)
    ctx.counts["functions interpreted"] = len({f for r in rows for f in r.get("fns", [])})
    ctx.counts["library calls without a model"] = {k: v for r in rows for k, v in (r.get("unknown") or {}).items()}
    return rows


def report(ctx, rows, kinds, rule, modes=("xml", None)):
    for r in rows:
        if r.get("mode") not in modes:
            continue
        for i in range(r.get("obligations", 0)):
            ctx.ok(rule, "%s event %d" % (r["name"], i))
        if not r.get("obligations"):
            ctx.ok(rule, r["name"])
        for k, (where, msg, trail) in r["viol"]:
            if k[0] in kinds:
                ctx.fail("%s:%s:%s:%s" % (k[0], r["name"], k[1], k[2]), "%s (line %s)" % (where[0], where[1]),
                         "writing %s: %s" % (r["name"], msg), ["path to it:"] + list(trail))
