"""Traces of the command line tool, from its main function."""
from apirun import Trace
from absint import SYM, EX
from facts import norm

CORE = ("math_core", "math_core_renderer_internal")
CRATE = "mathcore"
IO = ("std::fs::", "fs::", "std::io::", "io::", "std::process::", "process::", "std::env::", "env::", "std::os::", "std::net::", "net::")


def boundary(c, names, body):
    n = names[1] or names[0] or ""
    if body is None:
        if names[0] and names[0].endswith("clap::Parser::parse"):
            return "Args.parse"
        for x in names:
            if x and ("io::Write" in x or "io::Read" in x):
                return "io::" + x.split("::")[-1]
        if n.startswith(IO) and not n.startswith(("io::error::", "std::io::error::", "std::io::Error::", "io::Error::")):
            return n.replace("std::", "", 1) if n.startswith("std::") else n
        return None
    if body["kind"] == "Closure" or not body["crate"].startswith("math"):
        return None
    s = norm(body.get("self_ty") or "").split("<")[0].split("::")[-1]
    last = body["name"].split("::")[-1]
    if body["crate"] in CORE and s in ("LatexToMathML", "LatexError"):
        return "%s.%s" % (s, last)
    if body["crate"] == CRATE and s == "Replacer":
        return "Replacer." + last
    return None


def main(ctx):
    fs = [f for f in ctx.F.fns.values() if f["crate"] == CRATE and f["name"].split("::")[-1] == "main" and f["kind"] != "Closure"]
    ctx.expect(len(fs) == 1, "api", "main", CRATE, "the main function of the command line tool was not found")
    return fs[0] if len(fs) == 1 else None


def truth(con, k):
    c = con.get(k)
    return c[1] if isinstance(c, tuple) and c[0] == "=" else c if isinstance(c, int) else None


def arg(name):
    return SYM("Args.parse#0." + name)


def variant(con, v):
    """Which variant of an Option or Result a value is known to be."""
    if v[0] == "agg":
        return v[2]
    for k, c in con.items():
        if k[0] == "ex" and k[1] == "discr" and k[2] == v:
            return truth(con, k)
    return None
