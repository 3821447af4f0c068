"""A converter which is shared is not changed by converting with it."""
import re
from facts import norm
from reach import Graph, entries

LIBS = ("math_core", "math_core_renderer_internal")
RULE = ("Type rule: no type which a converter owns (all fields, transitively, through library containers) contains UnsafeCell, a raw "
        "pointer of the workspace or a trait object, so that nothing can be changed through &self. Effect rule: no function which a conversion reaches uses a static "
        "which is mutable or interior mutable, or thread-local storage, or makes a pointer which may be written from a shared reference. The two "
        "conversions which are documented to keep no state take &self.")
SHARED = ("convert_with_local_state", "convert_all")
RAWWRITE = re.compile(r"^(ptr::(write|copy|swap|replace|drop_in_place|mut_ptr|const_ptr::cast_mut)|mem::transmute|intrinsics::transmute|cell::|sync::atomic|"
                      r"ptr::(non_null::)?NonNull::(as_mut|write|as_ptr)|slice::from_raw_parts_mut|.*UnsafeCell)")


def run(ctx):
    F = ctx.F
    G = Graph(F, LIBS)
    roots = [k for k in F.adts if k == "math_core::LatexToMathML"]
    if not ctx.expect(len(roots) == 1, "type", "converter", "math_core", "the type LatexToMathML was not found"):
        return
    # types
    seen, work = {}, [(roots[0], ("LatexToMathML",))]
    while work:
        t, path = work.pop()
        if t in seen:
            continue
        seen[t] = path
        a = F.adts.get(t)
        where = " -> ".join(path)
        if t in ("&", "*raw"):
            continue
        if a is None:
            ctx.expect("dyn" not in t, "type", t, where, "what is behind %s is not known" % t)
            continue
        ctx.expect(not t.endswith("cell::UnsafeCell"), "type", t, where, "a converter contains a cell which can be changed through a shared reference: " + where)
        if t.endswith("UnsafeCell"):
            continue
        for v in a["variants"]:
            for f in v["fields"]:
                if a["crate"] in LIBS:
                    ctx.expect("dyn " not in f["ty"] and "*mut" not in f["ty"] and "*const" not in f["ty"] and "fn(" not in f["ty"], "field", "%s.%s" % (t, f["name"]), where,
                               "the field %s of %s has a type which can hide shared mutable state: %s" % (f["name"], t, f["ty"]))
                for x in f["tys"]:
                    work.append((x, path + ("%s: %s" % (f["name"], x.split("::")[-1]),) if a["crate"] in LIBS else path))
    ctx.floor("types a converter consists of", len(seen), 30)
    # receivers
    for m in SHARED:
        fs = [f for f in F.find("LatexToMathML::" + m) if f["crate"] == "math_core"]
        ok = len(fs) == 1 and fs[0]["locals"][1]["ty"].startswith("&") and not fs[0]["locals"][1]["ty"].startswith("&mut")
        ctx.expect(ok, "receiver", m, m, "%s does not take &self" % m)
    # statics
    st = [s for s in F.statics.values() if s.get("kind") == "static" and s["crate"] in LIBS]
    ctx.floor("statics of the library", len(st), 20)
    for s in st:
        ctx.expect(not s.get("mutable") and s.get("freeze"), "static", s["id"], s["id"], "the static %s can be changed" % s["id"])
    # effects
    R = G.closure(entries(F))
    ctx.floor("functions which a conversion reaches", len(R), 300)
    for k in R:
        f = F.fns[k]
        if f["crate"] not in LIBS:
            continue
        bad = None
        for b in f["blocks"]:
            for s in b["st"]:
                if s["s"] == "=":
                    if s["rv"].get("r") == "tls":
                        bad = "uses thread-local storage"
                    if s["rv"].get("r") == "cast" and s["rv"]["ty"].startswith("*mut") and (s["rv"]["from"].startswith("*const") or
                                                                                      s["rv"]["from"].startswith("&") and not s["rv"]["from"].startswith("&mut")):
                        bad = "makes a pointer which may be written from one which may not"
        for g, c, kind, bi in G.out(k):
            n = norm((c or {}).get("rname") or (c or {}).get("name") or "")
            if RAWWRITE.match(n) or "LocalKey" in n:
                bad = "calls " + n
        ctx.expect(bad is None, "effect", f["name"], f["name"], "%s, which a conversion reaches, %s" % (f["name"], bad), G.path(R, k))
