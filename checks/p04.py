"""Every child is written, once, and in the order MathML gives a meaning to."""
import emitcommon
from emitrun import adt_named, field_of

RULE = ("Same exploration as P01, tracking which fields of the node are passed to the recursive emit call, in which "
        "order, on every path; plus, for sequences of nodes, that the element taken from the iterator is written "
        "before the next one is taken. An obligation is one (kind of node, path outcome).")

# kind of node -> names of the fields, in the order in which MathML expects the children
ORDER = {"Sub": ["target", "symbol"], "Sup": ["target", "symbol"], "SubSup": ["target", "sub", "sup"],
         "Over": ["target", "symbol"], "Under": ["target", "symbol"], "UnderOver": ["target", "under", "over"],
         "Frac": ["num", "denom"]}


def run(ctx):
    rows = emitcommon.results(ctx, "order", "text")
    emitcommon.report(ctx, rows, ("order",), "order", ("order", None))
    r = [x for x in rows if x["name"] == "emit"][0]
    for (feats, con), trail in r.get("ends", []):
        ctx.expect("all of the formula" in feats, "all", "formula", "math_core::emit", "not all parts of the formula are written", trail)
    F = ctx.F
    NODE = adt_named(F, "ast::Node")
    seen = 0
    for v in F.adts[NODE]["variants"]:
        own = [f["name"] for f in v["fields"] if NODE in f["tys"]]
        r = [x for x in rows if x.get("mode") == "order" and x["name"] == v["name"]]
        if not r or not own:
            continue
        r = r[0]
        seqs = [f["name"] for f in v["fields"] if "[" in f["ty"] and NODE in f["tys"]]
        for kids, trail in r["kids"]:
            names = [k.lstrip(".").split(".")[0].replace("[]", "") for k in kids]
            seen += 1
            for f in own:
                ctx.expect(f in names or f in seqs, "all", "%s.%s" % (v["name"], f), "Emitter::emit",
                           "the child %s of %s is not written on some path" % (f, v["name"]), trail)
            want = ORDER.get(v["name"])
            if want and set(want) <= set(own):
                ctx.expect(names == want, "order", v["name"], "Emitter::emit",
                           "the children of %s are written as %s, MathML's order is %s" % (v["name"], names, want), trail)
            if v["name"] == "Root" and len(own) == 2:
                # mroot: the base comes before the index; the parser builds Root(index, base)
                ctx.expect(names == ["1", "0"], "order", "Root", "Emitter::emit", "the children of Root are written as %s" % names, trail)
            if v["name"] == "Multiscripts":
                flat = [k.lstrip(".").replace("[]", "") for k in kids]
                want = [x for x in ["base", "post.sub", "post.sup", "pre.sub", "pre.sup"] if x in flat]
                ctx.expect(flat == want, "order", "Multiscripts", "Emitter::emit", "the children of Multiscripts are written as %s" % flat, trail)
    ctx.floor("node kinds with children", seen, 20)
