"""Traces of the public methods of the converter."""
from apirun import Trace
from facts import norm

LIBS = ("math_core", "math_core_renderer_internal")
STATE = "math_core::global_state::GlobalState"


def boundary(c, names, body):
    if body is None or body["crate"] not in LIBS or body["kind"] == "Closure":
        return None
    s = norm(body.get("self_ty") or "").split("<")[0].split("::")[-1]
    if s in ("Parser", "Lexer", "Emitter"):
        return s + "::" + body["name"].split("::")[-1]
    if body["name"].endswith("parser::node_vec_to_node"):
        return "node_vec_to_node"
    return None


def method(ctx, name, crate="math_core"):
    fs = [f for f in ctx.F.find("LatexToMathML::" + name) if f["crate"] == crate]
    ctx.expect(len(fs) == 1, "api", name, name, "the method %s of the converter was not found" % name)
    return fs[0] if len(fs) == 1 else None


def trace(ctx, fn, boundary=boundary, **k):
    T = Trace(ctx.F, boundary, **k)
    return T, T.go(fn)


def pick(ev, ty):
    """[(event, index)] of the arguments whose type is `ty` (up to lifetimes)."""
    return [(e, i) for e in ev for i, a in enumerate(e[3]) if ty(norm(a))]
