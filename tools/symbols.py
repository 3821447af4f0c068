"""Writes checks/symbols.json, the reference table of the commands which HTML does not name (reviewed by hand; not run by the checks)."""
import sys, json, html.entities
sys.path[:0] = ["/verif/engine", "/verif/checks"]
import build, p22
class X: pass
ctx = X(); ctx.F = build.facts()
own, other, kinds, shapes = {}, {}, {}, {}
for k, v in p22.entries(ctx, "COMMANDS"):
    n, cs = k["str"], "".join(p22.chars(v))
    kind = p22.KIND.get(v["v"])
    h = html.entities.html5.get(n + ";")
    if kind: kinds[n] = kind
    if v["v"] in p22.OTHER and n not in ("cdots", "ldots", "dots"): shapes[n] = p22.shape(v)
    if not cs or v["v"] == "CustomCmd": continue
    if h and v["v"] != "TextMode":
        if p22.plain(h) != p22.plain(cs): own[n] = cs
    elif kind or v["v"] in ("TextMode", "MathOrTextMode", "XArrow"):
        other[n] = [kind, cs]
json.dump({"unlike HTML": dict(sorted(own.items())), "commands": dict(sorted(other.items())), "kinds": dict(sorted(kinds.items())), "other": dict(sorted(shapes.items())), "functions": sorted({x for q, k in p22.F_sets(ctx) for x in q})}, open("/verif/checks/symbols.json", "w"), ensure_ascii=False, indent=0)
