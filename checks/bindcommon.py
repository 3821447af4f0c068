"""Traces of the Python and JavaScript bindings."""
from apirun import Trace
from facts import norm

CORE = ("math_core", "math_core_renderer_internal")


def boundary(c, names, body):
    n = names[1] or names[0]
    if n.endswith("RwLock::write") or n.endswith("RwLock::read") or n.endswith("RwLock::try_write") or n.endswith("RwLock::try_read"):
        return "lock:" + n.split("::")[-1]
    if body is None or body["kind"] == "Closure":
        return None
    s = norm(body.get("self_ty") or "").split("<")[0].split("::")[-1]
    last = body["name"].split("::")[-1]
    if body["crate"] in CORE and s in ("LatexToMathML", "LatexError"):
        return "%s.%s" % (s, last)
    if body["crate"] == "math_core_wasm" and s in ("MathCoreOptions", "MathSnippet") and not body.get("trait"):
        return "get." + last
    return None


def go(ctx, crate, method, names=None, setup=None):
    fs = [f for f in ctx.F.find("LatexToMathML::" + method) if f["crate"] == crate]
    ctx.expect(len(fs) == 1, "api", crate + method, crate, "the method %s of the binding %s was not found" % (method, crate))
    if len(fs) != 1:
        return None, None, []
    T = Trace(ctx.F, boundary, budget=2_000_000)
    if setup:
        setup(T, fs[0])
    return fs[0], T, T.go(fs[0], names)
