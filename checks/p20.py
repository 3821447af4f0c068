"""Changes of the font and of the style end with their group."""
import re
import restore

RULE = ("The values of the fields of the parser's state are propagated symbolically along all paths (on which no error occurs) of every function which gets the parser mutably; functions which give no nodes back are "
        "inlined, styles are tabulated as functions of the style outside. Obligations: a function which gives nodes back has restored font, style and flags when it returns; behind a separator of cells, font and "
        "style are those of the start of the sequence when the next token is parsed; the font is changed by nothing but the switch (to its own font) and, for its argument, by the command with an argument; scripts, "
        "numerators and denominators are parsed in the style that TeX gives them.")
ASSUMPTIONS = ["an error ends the conversion (P29)"]
SCRIPT = {"Display": "Script", "Text": "Script", "Script": "ScriptScript", "ScriptScript": "ScriptScript"}
FRAC = {"Display": "Text", "Text": "Script", "Script": "ScriptScript", "ScriptScript": "ScriptScript"}
# constructs which put (a part of) their content into another style
STYLED = {"Frac", "Binom", "Style", "Overset", "Underset", "XArrow", "Begin", "Genfrac"}


def mark(ty):
    return "error::LatexErr" in ty


def show(v):
    if v is None:
        return "an unknown value"
    if v[0] == "i":
        return "that of before"
    if v[0] == "map":
        return ", ".join("%s -> %s" % x for x in v[1])
    if v[0] == "some":
        return "the font %s" % (v[1][1] if v[1] else "?")
    return str(v[1])


def run(ctx):
    F = ctx.F
    R = restore.Restore(F, mark)
    font = [p for p, ty in R.leaves.items() if "MathVariant" in ty]
    style = [p for p, ty in R.leaves.items() if ty.endswith("attribute::Style")]
    if not ctx.expect(len(font) == 1 and len(style) == 1, "state", "fields", "ParserState", "the fields for the font and the style are not found: %s" % sorted(R.leaves)):
        return
    font, style = font[0], style[0]
    init = {p: ("i", p) for p in R.leaves}
    fs = [f for f in F.local("math_core") if R.takes(f)]
    ctx.counts["functions which get the parser"] = len(fs)
    switches = infix = 0
    nodes = 0
    for f in fs:
        clos = "{closure" in f["name"]
        if not R.nodey(f) and not clos and not R.touches(f):
            ctx.ok("does not touch the state", f["name"])
            continue
        rs = R.run(f, [None] * f["argc"], init)
        if R.nodey(f) or clos:
            nodes += 1
            for p in R.leaves:
                if not R.kept(p):
                    continue
                bad = [(l.get(p), tok, line) for _, l, tok, con, sep, line in rs if l.get(p) != ("i", p)]
                ctx.expect(not bad, "restored", "%s %s" % (f["name"], ".".join(p)), f["name"],
                           "returns with %s of the state set to %s" % (".".join(p), "/".join(sorted({"%s (for %s)" % (show(v), t) if t else show(v) for v, t, _ in bad}))))
        elif any("token::Tok" in f["locals"][i]["ty"] for i in range(1, f["argc"] + 1)):
            for _, l, tok, con, sep, line in rs:
                v, w = l.get(font), l.get(style)
                if tok == "TransformSwitch":
                    switches += 1
                    ctx.expect(v == ("some", ("sym", "TransformSwitch.0")), "switch", "font", f["name"], "a switch of the font sets it to %s instead of its own font" % show(v))
                else:
                    ctx.expect(v == ("i", font), "switch", "font for %s" % tok, f["name"], "the font is set to %s by %s, which is no switch" % (show(v), tok or "any token"))
                if tok == "InfixGenFrac" and w != ("i", style):
                    infix += 1
                    ctx.expect(w == ("map", tuple(sorted(FRAC.items()))), "switch", "style of a denominator", f["name"], "the style of the denominator of an infix fraction is: %s" % show(w))
                else:
                    ctx.expect(w == ("i", style), "switch", "style for %s" % tok, f["name"], "the style is set to %s by %s" % (show(w), tok or "any token"))
    for f in fs:
        if "{closure" not in f["name"] and not R.nodey(f) and R.touches(f) and not any("token::Tok" in f["locals"][i]["ty"] for i in range(1, f["argc"] + 1)):
            ctx.ok("inlined", f["name"])
    ctx.floor("functions which give nodes back", nodes, 6)
    ctx.floor("paths of a switch of the font", switches, 1)
    ctx.floor("paths of an infix fraction", infix, 1)
    # ---- what holds while a part is parsed
    script = scripts(R)
    seps = frac = 0
    loops = {e["fn"] for e in R.events if e["lv"].get(font) == ("some", ("sym", "TransformSwitch.0"))}
    for e in R.events:
        v, w = e["lv"].get(font), e["lv"].get(style)
        where = "%s (line %s)" % (e["fn"], e["line"])
        fn, tok = e["fn"].split("::")[-1], e["tok"]
        inst = "%s -> %s for %s" % (e["fn"], e["callee"].split("::")[-1], tok)
        if e["sep"]:
            seps += 1
            ctx.expect(v == ("i", font) and w == ("i", style), "cell", inst, where,
                       "behind a separator of cells, the font is %s and the style is %s, not those of the start of the environment" % (show(v), show(w)), key="cell:%s" % e["fn"])
        if tok == "Transform":
            ctx.expect(v == ("some", ("sym", "Transform.0")), "font", inst, where, "the argument of a command for a font is parsed in %s" % show(v), key="font:%s:Transform" % e["fn"])
        else:
            ok = v == ("i", font) or e["fn"] in loops and v == ("some", ("sym", "TransformSwitch.0"))
            ctx.expect(ok, "font", inst, where, "something in %s is parsed in %s, although nothing there changes the font" % (tok or fn, show(v)), key="font:%s:%s" % (e["fn"], tok))
        if e["fn"] in loops:
            continue
        if e["fn"] in script and e["callee"] not in script:
            frac += 1
            ctx.expect(w == ("map", tuple(sorted(SCRIPT.items()))), "style", inst, where, "a script is parsed in the style: %s" % show(w), key="script:%s" % e["fn"])
        elif tok in ("Frac", "Binom"):
            a = e["con"].get(("%s.0" % tok,))
            b = e["con"].get(("%s.0:Some.0" % tok,))
            want = ("map", tuple(sorted(FRAC.items()))) if a == "None" else ("enum", "Script") if b == "DisplayStyleFalse" else ("enum", "Text")
            frac += 1
            ctx.expect(w == want, "style", inst + " %s" % b, where, "a part of a fraction (%s) is parsed in the style: %s" % (b or "of the current style", show(w)), key="fraction:%s:%s" % (tok, b))
        elif tok == "Genfrac":
            ctx.expect(w is not None and w != ("i", style), "style", inst, where, "a part of \\genfrac is parsed in the style: %s" % show(w), key="fraction:Genfrac:%s" % ("unchanged" if w == ("i", style) else show(w)))
        elif tok == "Style":
            frac += 1
            ctx.expect(w == ("sym", "Style.0"), "style", inst, where, "what follows a switch of the style is parsed in the style: %s" % show(w), key="style:Style")
        elif tok not in STYLED:
            ctx.expect(w == ("i", style), "style", inst, where, "something in %s is parsed in the style %s" % (tok or fn, show(w)), key="style:%s:%s" % (e["fn"], tok))
    ctx.floor("calls behind a separator", seps, 1)
    ctx.floor("scripts and parts of fractions", frac, 10)
    ctx.floor("calls which parse a part", len(R.events), 80)
    start(ctx, R, font)
    ctx.counts["states"] = R.steps


def scripts(R):
    """The functions which read scripts: those with bounds as their result and what they call with a node as its result, up to tokens in general."""
    def kind(n):
        f = next((f for f in R.F.local("math_core") if f["name"] == n), None)
        return f["locals"][0]["ty"] if f else ""
    out = {e["fn"] for e in R.events if re.search(r"Result<(\w+::)*Bounds", kind(e["fn"]))}
    more = True
    out = {n for n in out if not re.search(r"\(", kind(n))}
    while more:
        more = False
        for e in R.events:
            ty = kind(e["callee"])
            if e["fn"] in out and e["callee"] not in out and re.search(r"Result<&[^,(]*Node<", ty) and not e["callee"].endswith("parse_next"):
                if any(x["fn"] == e["callee"] for x in R.events):
                    out.add(e["callee"])
                    more = True
    return out


def start(ctx, R, font):
    """A formula starts without a font, in display style exactly if it is a block."""
    F = ctx.F
    n = 0
    for f in F.local("math_core"):
        for b in f["blocks"]:
            for s in b["st"]:
                if s["s"] == "=" and s["rv"].get("r") == "agg" and s["rv"].get("adt") == R.PS and not R.takes(f):
                    n += 1
                    st = {"loc": {}, "lv": {}, "tok": None, "con": {}, "sep": False}
                    for b2 in f["blocks"]:
                        for s2 in b2["st"]:
                            if s2["s"] == "=" and s2 is not s and not s2["p"][1] and s2["rv"].get("r") in ("agg", "use"):
                                R.stmt(f, st, s2)
                    i = [x["name"] for x in R.fields(R.PS)].index(font[0])
                    v = R.operand(st, s["rv"]["fs"][i])
                    ctx.expect(v == ("enum", "None"), "start", "no font", f["name"], "a formula starts in the font %s" % show(v))
    ctx.floor("places which start the parser", n, 1)
    R.watch = lambda ty: ty.lstrip("&").endswith("attribute::Style")
    m = 0
    for f in F.local("math_core"):
        ds = [i for i in range(1, f["argc"] + 1) if f["locals"][i]["ty"].lstrip("&").endswith("MathDisplay")]
        if len(ds) != 1 or R.takes(f):
            continue
        R.watched = []
        R.run(f, [("sym", "display") if i == ds[0] else None for i in range(1, f["argc"] + 1)], {})
        for fn, callee, vals, con, line in R.watched:
            m += 1
            d = con.get(("display",))
            want = {"Block": ("enum", "Display"), "Inline": ("enum", "Text")}.get(d)
            ctx.expect(d is not None and vals == (want,), "start", "style for %s" % d, "%s (line %s)" % (fn, line), "a formula in %s display starts in the style %s" % (d, ", ".join(map(show, vals))), key="start:%s" % d)
    ctx.floor("ways to start a formula", m, 2)
