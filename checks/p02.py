"""Text of the formula is never taken for markup."""
import build, emitcommon
from flow import Flow
from facts import norm

RULE = ("From the exploration of all writers: wherever text of unknown content is written, the characters which mean something at that place "
        "('<' and '&' in text, '&' and '\"' in an attribute value) must have been replaced, excluded by a test on the path, or be impossible in the "
        "field the text comes from. The last is decided by an interprocedural dataflow over parser, lexer, command tables and custom commands: "
        "which of the characters < & \" can get into that field, from any public function of the converter.")
TRUSTED = ["CssClassNames.unknown_command", "Emitter.id_prefix", "LatexError::to_html.css_class"]
ASSUMPTIONS = ["class names and the prefix of ids are chosen by the one who configures the converter, not by the formula: " + ", ".join(TRUSTED)]


def public(f):
    return f["crate"] == "math_core" and norm(f.get("self_ty") or "").split("<")[0].endswith("LatexToMathML") and f.get("vis") == "Public"


def solve(F):
    fl = Flow(F, ("math_core", "math_core_renderer_internal"), public).solve()
    return {"D": {repr(n): sorted(d) for n, d in fl.D.items() if n[0] == "F"}, "steps": fl.steps, "functions": len(fl.fns),
            "trails": {repr((n, c)): fl.trail(n, c) for n in fl.D if n[0] == "F" for c in fl.D[n] if c != "o"}}


def run(ctx):
    F = ctx.F
    rows = emitcommon.results(ctx, "xml", "text")
    emitcommon.report(ctx, rows, ("escape",), "written escaped")
    sol = build.cached(F, "flow", lambda: solve(F))
    ctx.counts["functions in the dataflow"] = sol["functions"]
    ctx.counts["fields reached by the formula"] = len([1 for d in sol["D"].values() if d])
    ctx.floor("functions in the dataflow", sol["functions"], 300)
    # the dataflow sees the formula at all: the text of a \text can hold any character
    free = [n for n, d in sol["D"].items() if set(d) >= set('<&o')]
    ctx.floor("fields which can hold any text", len(free), 1)
    n = 0
    for r in rows:
        for o in r["obl"]:
            if o[0][0] != "text":
                continue
            (kind, key, chars) = o[0]
            n += 1
            label = ".".join(x for x in (key[0].split("::")[-1] if key[0] != "parameter" else None, key[1], key[2]) if x)
            if label in TRUSTED:
                ctx.ok("trusted setting", label)
                continue
            if key[0] == "parameter":
                ctx.fail("text:" + label, key[1], "the parameter %s of %s is written without replacing %s" % (key[2], key[1], " ".join(chars)))
                continue
            node = ("F", key[0], key[1], key[2])
            have = [c for c in sol["D"].get(repr(node), []) if c in chars]
            ctx.expect(not have and repr(node) in sol["D"], "impossible in the field", label, r["name"],
                       "the text of %s is written without replacing %s, and the field can hold %s" % (label, " ".join(chars), " ".join(have) or "unknown text"),
                       [t for c in have for t in sol["trails"].get(repr((node, c)), [])])
    ctx.floor("fields written as they are", n, 3)
