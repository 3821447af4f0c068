"""Pretty printing changes nothing but white space between elements."""
import re
import emitcommon, emitrun, reach, taint

RULE = ("Information flow: the values of the types which say how to lay out the output (whether to pretty print, the unit of "
        "indentation) are followed through data and control dependence (postdominators) of every function which a conversion can "
        "reach. What depends on them may be white space which is appended to a text, and nothing else: no other character, no "
        "removal, no state, no result, no error, and nothing may look at a text which such white space was written to. "
        "Then every place where such white space is written is met on every path of the writers with the XML monitor running: "
        "it must be between tags, and not inside an element which contains text. Exploring the writers with the indentation 0 "
        "shows that then no such white space is written and the children are written with 0, and the paths of the wrapper show for "
        "which configuration the indentation is 0.")
def run(ctx):
    F = ctx.F
    T = taint.of_layout(F)
    fns = T.fns
    for f in fns.values():
        ctx.ok("independent", f["name"])
    for k, (where, msg) in T.bad.items():
        ctx.fail("flow:" + ":".join(k), "%s (line %s)" % where, msg)
    # state and results
    for (kind, n), where in [((k, n), w) for k in "TB" for n, w in T.sets[k].items()]:
        if n[0] == "F":
            ty = [x["ty"] for v in F.adts[n[1]]["variants"] for x in v["fields"] if x["name"] == n[2]][0]
            owner = n[1].split("::")[-1]
            if kind == "B" and ty.split("::")[-1] == "String":
                continue
            ctx.expect(kind == "T" and taint.source(ty), "state", "%s.%s" % (owner, n[2]), "%s (line %s)" % where,
                       "the field %s of %s depends on the layout" % (n[2], owner))
        elif n[0] == "L" and n[2] == 0 and kind == "T" and F.fns[n[1]]["crate"] == "math_core" and n[1] in reach.entries(F):
            ctx.expect(taint.source(fns[n[1]]["locals"][0]["ty"]), "result", fns[n[1]]["name"], "%s (line %s)" % where, "the result depends on the layout")
    sites = {}
    for k, bi in T.effects:
        sites[(k, F.fns[k]["blocks"][bi]["at"][1])] = F.fns[k]["name"]
        ctx.ok("white space only", "%s %s" % (F.fns[k]["name"], len(sites)))
    ctx.counts["places where white space is written for the layout"] = len(sites)
    ctx.floor("places where white space is written for the layout", len(sites), 1)
    rows = emitcommon.results(ctx, "xml", "flat", "text")
    emitcommon.report(ctx, rows, ("layout",), "position")
    emitcommon.report(ctx, rows, ("flat",), "none without indentation", ("flat",))
    met = {tuple(x) for r in rows for x in r.get("laid", ())}
    for s in sites:
        ctx.expect(s in met, "met", "%s:%d" % (sites[s], sorted(x for x in sites if x[0] == s[0]).index(s)), sites[s],
                   "white space is written for the layout where the exploration of the writers does not come")
    wrapper(ctx, [r for r in rows if r["name"] == "emit"][0])


def wrapper(ctx, r):
    F = ctx.F
    names = lambda t: {i: v["name"] for a in F.adts for i, v in enumerate(F.adts[a]["variants"]) if a.split("::")[-1] == t and a.startswith("math_core::")}
    pp, disp = names("PrettyPrint"), names("MathDisplay")
    n = 0
    for (feats, con), trail in r.get("ends", []):
        mode, display = set(pp.values()), set(disp.values())
        for c in con:
            m = re.fullmatch(r"variant\((.*)\)(=|!)(.*)", c)
            e = re.fullmatch(r"Eq\(variant\((.*)\), (\d+)\)=([01])", c)
            if m:
                vals = set(eval(m.group(3))) if m.group(2) == "!" else {int(m.group(3))}
                which, keep = m.group(1), m.group(2) == "="
            elif e:
                which, vals, keep = e.group(1), {int(e.group(2))}, e.group(3) == "1"
            else:
                continue
            if which.endswith("pretty_print"):
                mode = {x for i, x in pp.items() if x in mode and (i in vals) == keep}
            elif which == "display":
                display = {x for i, x in disp.items() if x in display and (i in vals) == keep}
        for m in sorted(mode):
            for d in sorted(display):
                want = m == "Always" or m == "Auto" and d == "Block"
                ind = {x for x in feats if x.startswith("indent:")}
                ctx.expect(("layout" in feats) == want, "when", "%s/%s" % (m, d), "math_core::emit",
                           "white space is %s with pretty printing %s and %s formulas" % ("missing" if want else "added", m, d), trail)
                ctx.expect(not ind or ("indent:0" in ind) != want and len(ind) == 1 and "indent:?" not in ind, "indentation", "%s/%s" % (m, d), "math_core::emit",
                           "the formula is written with %s with pretty printing %s and %s formulas" % (sorted(ind), m, d), trail)
                n += 1
    ctx.floor("combinations of pretty printing and display met", n, 6)
