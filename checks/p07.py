"""The wrapper: annotation is the source, attributes and annotation appear exactly when configured."""
import emitcommon, re

RULE = ("Path-sensitive abstract interpretation of the function which writes the <math> element, and of the HTML fallback for "
        "errors, with symbolic configuration. An automaton follows the LaTeX source through the loop which escapes it: what is "
        "written inside <annotation> (or <code>) must be, piece by piece and with nothing left over, the source. For every path, "
        "the attributes and elements written are compared with the values which the path assumes of the configuration.")
# feature -> the configuration which demands it
DEMAND = {"xmlns@math=http://www.w3.org/1998/Math/MathML": ("xml_namespace", 1),
          "annotation": ("annotation", 1),
          "display@math=block": ("display", "Block")}


def run(ctx):
    rows = emitcommon.results(ctx, "text")
    F = ctx.F
    emitcommon.report(ctx, rows, ("source",), "source", (None,))
    r = [x for x in rows if x["name"] == "emit"][0]
    disp = [a for a in F.adts if a.endswith("::MathDisplay")]
    block = [i for i, v in enumerate(F.adts[disp[0]]["variants"]) if v["name"] == "Block"][0]
    seen = set()
    for (feats, con), trail in r.get("ends", []):
        known = {}
        for c in con:
            m = re.fullmatch(r"(?:variant\((\w+)\)|\w+\.(\w+))(=|!)(.*)", c)
            if not m:
                m = re.fullmatch(r"Eq\(variant\((\w+)\), (\d+)\)()=([01])", c)
                if m and m.group(1) == "display":
                    known["display"] = (m.group(2) == str(block)) == (m.group(4) == "1")
                continue
            n = m.group(1) or m.group(2)
            if n == "display":
                if m.group(3) == "=":
                    known[n] = int(m.group(4)) == block
                elif block in eval(m.group(4)):
                    known[n] = False
                elif len(eval(m.group(4))) == len(F.adts[disp[0]]["variants"]) - 1:
                    known[n] = True
            elif m.group(3) == "=":
                known[n] = m.group(4) != "0"
            elif eval(m.group(4)) == [0]:
                known[n] = True
        for feat, (opt, val) in DEMAND.items():
            what = "yes" if feat in feats else "no"
            ctx.expect(known.get(opt) is (feat in feats), "config", "%s:%s" % (opt, what), "math_core::emit",
                       "%s is %s although %s is %s" % (feat, "written" if feat in feats else "missing", opt, known.get(opt, "not examined")), trail)
            seen.add((opt, what))
        for x in feats:
            if "@" in x and x.split("=")[0] in ("xmlns@math", "display@math"):
                ctx.expect(x in DEMAND, "value", x.split("=")[0], "math_core::emit", "the attribute is written as %s" % x, trail)
        ctx.expect(("annotation" in feats) == ("source" in feats), "source", "inside annotation", "math_core::emit",
                   "<annotation> without the source", trail)
        if "annotation" in feats:
            ctx.expect("encoding@annotation=application/x-tex" in feats, "value", "encoding@annotation", "math_core::emit",
                       "<annotation> does not say that it is TeX: %s" % (feats,), trail)
            ctx.expect("node" in feats, "semantics", "formula", "math_core::emit", "<semantics> without the formula", trail)
    ctx.floor("features seen present and absent", len(seen), 6)
    h = [x for x in rows if x["name"].endswith("to_html")][0]
    ctx.expect(all("source" in f for (f, c), t in h.get("ends", [])) and h.get("ends"), "source", "to_html", "LatexError::to_html",
               "the fallback for errors does not contain the source on every path")
