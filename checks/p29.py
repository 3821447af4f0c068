"""No error is lost on its way out."""
import errflow

RULE = ("Dataflow over the MIR of every function of the library: from every call which can give a LatexError, only the branches on "
        "which it does are followed (the discriminants of Result, Option and ControlFlow decide), with the set of places which hold "
        "the error. When the function returns, its result must hold the error, or another one which was made on the way; handing it "
        "to something which gives no error back, overwriting it or returning without it is a violation.")
SKIP = ("Debug", "serde", "Clone", "PartialEq", "Hash", "Default")


def mark(ty):
    return "error::LatexErr" in ty


def run(ctx):
    E = errflow.ErrFlow(ctx.F, mark)
    fns = [f for f in ctx.F.local("math_core") if not any(x in str(f.get("impl_trait")) for x in SKIP)]
    for f in fns:
        n = E.sources
        E.function(f)
        for i in range(E.sources - n):
            ctx.ok("error returned", "%s call %d" % (f["name"], i))
    for (fn, callee, *rest), (line, why, lines) in E.lost.items():
        ctx.fail("lost:%s:%s" % (fn, callee), "%s (line %s)" % (fn, line), "an error of %s is lost: %s" % (callee, why), ["lines of the path: %s" % (list(lines),)])
    for fn, callee in E.stored:
        ctx.fail("stored:%s:%s" % (fn, callee), fn, "an error of %s is put away instead of being returned" % callee)
    ctx.counts["functions"] = len(fns)
    ctx.counts["calls which can give an error"] = E.sources
    ctx.counts["errors which are made"] = E.made
    ctx.counts["steps"] = E.steps
    ctx.floor("calls which can give an error", E.sources, 300)
