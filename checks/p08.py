"""Warnings are reported exactly when the output contains what they are about."""
import emitcommon, emitrun, re

RULE = ("For every kind of node and every path, the change which writing it makes to the emitter's warnings (as a mask, "
        "from abstract interpretation), compared with the mask which each public query of Warnings tests. Also: the "
        "emitter starts with no warning, nothing but the warnings of the emitter which wrote the output reaches the result.")
FLAGS = {"EqRef": "has_undefined_references", "UnknownCommand": "has_unknown_commands"}


def run(ctx):
    rows = emitcommon.results(ctx, "order", "text")
    F = ctx.F
    emitrun._F = F
    masks = emitrun.getter_masks(F)
    bits = {}
    for g in FLAGS.values():
        ms = masks.get(g, [])
        m = re.fullmatch(r"\('ex', 'Eq', \('ex', 'BitAnd', \('sym', '[\w.]+'\), \('c', (\d+)\)\), \('c', (\d+)\)\)\|\[\]", ms[0]) if len(ms) == 1 else None
        m2 = re.fullmatch(r"\('ex', 'Not', \('ex', 'Eq', \('ex', 'BitAnd', \('sym', '[\w.]+'\), \('c', (\d+)\)\), \('c', (0)\)\)\)\|\[\]", ms[0]) if len(ms) == 1 else None
        if m and m.group(1) == m.group(2):
            bits[g] = int(m.group(1))
        elif m2:
            bits[g] = int(m2.group(1))
        ctx.expect(g in bits, "query", g, "Warnings::" + g, "%s does not test one fixed set of flags: %s" % (g, ms))
    ctx.expect(len(set(bits.values())) == len(bits) and all(bits.values()), "query", "distinct", "Warnings",
               "two warnings use the same flag: %s" % bits)
    if "has_any" in masks:
        a = masks["has_any"]
        ctx.expect(len(a) == 1 and re.fullmatch(r"\('ex', 'Not', \('ex', 'Eq', \('sym', '[\w.]+'\), \('c', 0\)\)\)\|\[\]", a[0]) is not None,
                   "query", "has_any", "Warnings::has_any", "has_any does not test for any flag at all: %s" % a)
    for r in rows:
        if r.get("mode") != "order":
            continue
        g = FLAGS.get(r["name"])
        want = bits.get(g)
        for (mask, lookups), trail in r["warns"]:
            if r["name"] == "EqRef":
                hit = [x for x in lookups if "label_map" in x]
                ctx.expect(len(hit) == 1 and re.search(r"label_map\[.*EqRef\.\w+\]=[01]$", hit[0]) is not None, "lookup", "EqRef", "Emitter::emit",
                           "a reference is not resolved by exactly one lookup of its label: %s" % (lookups,), trail)
                exp = want if hit and hit[0].endswith("=0") else 0
                what = "an undefined reference" if exp else "a reference which is defined"
            elif r["name"] == "UnknownCommand":
                exp, what = want, "an unknown command"
            else:
                exp, what = 0, "a node of kind " + r["name"]
            ctx.expect(mask == exp, "flag", "%s %s" % (r["name"], "/".join(x[-2:] for x in lookups)), "Emitter::emit",
                       "writing %s sets the warning flags %s instead of %s" % (what, mask, exp), trail)
    ctx.floor("kinds which warn", sum(1 for r in rows if r.get("mode") == "order" and r["name"] in FLAGS), 2)
    emitter_start(ctx, rows)


def emitter_start(ctx, rows):
    """Emitter::new sets no flag; Warnings of the result come from Emitter::warnings."""
    F = ctx.F
    from absint import SYM, State
    new = [f for f in F.find("Emitter::new") if f["crate"] == "math_core_renderer_internal"]
    if not ctx.expect(len(new) == 1, "start", "Emitter::new", "Emitter::new", "not found"):
        return
    I = emitrun.setup(F)
    EM = emitrun.adt_named(F, "ast::Emitter")
    wi = [i for i, f in enumerate(F.adts[EM]["variants"][0]["fields"]) if f["ty"].endswith("Warnings")]
    for rv, s in I.run(new[0], [SYM("a%d" % i) for i in range(new[0]["argc"])], State()):
        v = I.deref_all(s, rv)
        w = repr(I.deref_all(s, v[3][wi[0]])) if v[0] == "agg" and wi else "?"
        ctx.expect(re.findall(r"\('c', (\d+)\)", w) == ["0"], "start", "no flag at first", "Emitter::new", "a new emitter starts with the warnings %s" % w)
    # the result of emit
    em = [f for f in F.find("emit") if f["crate"] == "math_core" and f["name"].endswith("math_core::emit")]
    if ctx.expect(len(em) == 1, "result", "emit", "math_core::emit", "not found"):
        n = 0
        for r in [x for x in rows if x["name"] == "emit"]:
            for (w, uses), trail in r.get("result_warnings", []):
                n += 1
                ctx.expect(w == "emitter", "result", "warnings of the emitter", "math_core::emit",
                           "the warnings of the result are %s, not those of the emitter which wrote the output" % w, trail)
        ctx.floor("results with warnings", n, 1)

