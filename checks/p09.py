"""References and the ids they point to agree."""
import emitcommon, re

RULE = ("From the exploration of all writers: every value of an id or href attribute, as the sequence of literal text and "
        "encoded fields on each path. The href of a reference must be '#' followed by exactly what the id of an equation "
        "with that label is made of: the same prefix and the same encoding of the label.")


def shape(v):
    return re.sub(r"\{[^|{}]*\.(\w+)(@Some\.0)?\|", "{LABEL|", re.sub(r"\{self\.(\w+)\}", r"{\1}", re.sub(r"~\d+", "", v)))


def run(ctx):
    F = ctx.F

    def linked(v):
        """The kinds of node which carry a label or a reference."""
        return "Ref" in v["name"] or any("Label" in t for f in v["fields"] for t in f["tys"])
    rows = emitcommon.results(ctx, "xml", only=linked, tag="-links", least=3)
    ids, refs = {}, {}
    for r in rows:
        if r.get("mode") != "xml":
            continue
        for (attr, v), fn in r["values"]:
            if attr == "id":
                ids.setdefault(shape(v), (r["name"], v, fn))
            elif attr == "href" and r["name"] == "EqRef":
                refs.setdefault(shape(v), (r["name"], v, fn))
                ctx.expect("EqRef" in v, "href", "label", fn, "the href %s of a reference does not contain its label" % v)
    ctx.floor("shapes of ids", len(ids), 1)
    ctx.floor("shapes of references", len(refs), 1)
    for h, (n, v, fn) in refs.items():
        for i, (n2, v2, fn2) in ids.items():
            ctx.expect(h == "#" + i, "agree", "%s/%s" % (n, n2), fn, "a reference is written as href=\"%s\", but the equation has id=\"%s\"" % (v, v2))
    for i, (n2, v2, fn2) in ids.items():
        ctx.expect("link_target" in v2 or "label" in v2.lower(), "id", n2, fn2, "the id %s of an equation is not made from its label" % v2)
        ctx.expect("percent-encoded" in v2, "id", n2 + " encoded", fn2, "the label in the id %s is not encoded" % v2)
