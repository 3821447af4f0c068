"""Letters, fonts and named symbols are the Unicode characters which their names stand for."""
import html.entities
import json
import os
import re
import unicodedata as U
from ranges import Ranges, C, K, Unknown, LOW
from absint import Budget

RULE = ("The functions which choose characters are evaluated for all characters at once (intervals, exact), and the tables of commands and of symbols are taken from the compiler's constant evaluation; oracles are the Unicode character "
        "database (compatibility decompositions, canonical compositions, names) and the named characters of HTML. Obligations: a font maps each character to what the database has as this character in this font, and every other character to itself; "
        "the overlay of a slash gives the composed character if there is one; the parts of a stored character are given back as they were put in; a constant which is named like a character is this character; a command with a name of HTML gives "
        "this character, but for the names which mean something else in LaTeX; the other commands give the characters of the reference table.")
ASSUMPTIONS = ["checks/symbols.json says what the commands of LaTeX mean which HTML does not know"]
FONTS = {"Bold": "BOLD", "BoldFraktur": "BOLD FRAKTUR", "BoldItalic": "BOLD ITALIC", "BoldSansSerif": "SANS-SERIF BOLD", "BoldScript": "BOLD SCRIPT", "DoubleStruck": "DOUBLE-STRUCK",
         "Fraktur": "FRAKTUR", "Italic": "ITALIC", "Monospace": "MONOSPACE", "SansSerif": "SANS-SERIF", "SansSerifBoldItalic": "SANS-SERIF BOLD ITALIC", "SansSerifItalic": "SANS-SERIF ITALIC",
         "ScriptChancery": "SCRIPT", "ScriptRoundhand": "SCRIPT"}
SELECTOR = {"ScriptChancery": 1, "ScriptRoundhand": 2}
LETTER = re.compile(r"^(.*?) ?(?:(?:CAPITAL|SMALL|DIGIT|DOTLESS|FINAL|NABLA|PARTIAL DIFFERENTIAL|N-ARY SUMMATION)\b.*|\w+ SYMBOL)$")
SOLIDUS, VLINE = 0x08000000, 0x04000000
# TeX's letters in these fonts which it leaves alone because its fonts do not have them
HERE = os.path.dirname(os.path.abspath(__file__))


def fonts():
    """style words -> {base character: character in this font}"""
    r = {}
    for cp in list(range(0x2100, 0x2150)) + list(range(0x1D400, 0x1D800)):
        d = U.decomposition(chr(cp)).split()
        if len(d) != 2 or d[0] != "<font>":
            continue
        n = U.name(chr(cp))
        if n == "PLANCK CONSTANT":
            n = "MATHEMATICAL ITALIC SMALL H"
        n = n.replace("BLACK-LETTER", "FRAKTUR").removeprefix("MATHEMATICAL ")
        m = LETTER.match(n)
        if m and m.group(1):
            r.setdefault(m.group(1), {})[int(d[1], 16)] = cp
    return r


def show(v):
    if v is None:
        return "something unknown"
    if v == ("panic",):
        return "a panic"
    return "U+%04X%s" % (v & LOW, " with mark %X" % (v >> 21) if v >> 21 else "")


def number(v):
    """The number which is stored for a character."""
    while v is not None and v[0] == "agg" and len(v[3]) == 1:
        v = v[3][0]
    return v if v is not None and v[0] in ("k", "lin") else None


def value(v, c):
    n = number(v)
    return None if n is None else n[1] + (c if n[0] == "lin" else 0)


def points(t):
    """The characters of a table which are not mapped to themselves, and the values there."""
    for lo, hi, v in t:
        n = number(v) if v is not None and v[0] != "panic" else None
        if n == ("lin", 0):
            continue
        if hi - lo > 5000:
            yield lo, None, v
            yield hi, None, v
            continue
        for c in range(lo, hi + 1):
            yield c, value(v, c), v


def run(ctx):
    F = ctx.F
    R = Ranges(F)
    rend = [f for f in F.local("math_core_renderer_internal")]
    try:
        font(ctx, R, rend)
        overlay(ctx, R, rend)
        stored(ctx, R, rend)
    except (Unknown, Budget) as e:
        ctx.fail("evaluate", "Ranges", "cannot be evaluated: %s" % e, {})
    names(ctx)
    commands(ctx)
    operators(ctx)
    ctx.counts["steps"] = R.steps
    ctx.counts["functions"] = len(R.functions)


def font(ctx, R, rend):
    F = ctx.F
    tt = [k for k in F.adts if k.endswith("attribute::TextTransform")]
    fs = [f for f in rend if f["argc"] == 3 and f["locals"][0]["ty"].endswith("SuperChar") and f["locals"][1]["ty"].endswith("TextTransform") and f["locals"][2]["ty"] in ("char",) and "{closure" not in f["name"]]
    if not ctx.expect(len(tt) == 1 and len(fs) == 1, "font", "function", "TextTransform", "the function which puts a character into a font is not found: %s" % [f["name"] for f in fs]):
        return
    f, tt = fs[0], tt[0]
    exp = fonts()
    n = 0
    for i, v in enumerate(F.adts[tt]["variants"]):
        for up in (0, 1):
            name = v["name"]
            font = "Bold" if up and name == "BoldItalic" else name
            if not ctx.expect(font in FONTS, "font", name, f["name"], "the font %s is not known to the check" % name):
                continue
            want = dict(exp[FONTS[font]])
            vs = SELECTOR.get(font, 0) << 28
            t = R.table(f, [("agg", tt, i, ()), C, K(up)])
            got = {}
            wide = False
            for c, x, raw in points(t):
                if x is None and raw is not None and raw[0] != "panic":
                    wide = True
                got[c] = ("panic",) if raw == ("panic",) else x
            ctx.expect(not wide, "font", "%s %d wide" % (name, up), f["name"], "the font %s changes a wide range of characters" % name)
            for c in sorted(set(got) | set(want)):
                if U.category(chr(c)) == "Cn":
                    continue
                g = got.get(c, c)
                w = want[c] | vs if c in want else c
                n += 1
                ctx.expect(g == w, "font", "%s %d U+%04X" % (name, up, c), f["name"],
                           "%s (U+%04X) in the font %s%s is %s instead of %s (%s)" % (chr(c), c, name, ", upright," if up else "", show(g) if g != ("panic",) else "a panic", show(w), U.name(chr(w & LOW), "?")),
                           key="font:%s:U+%04X" % (name, c))
    ctx.floor("letters in fonts", n, 1400)
    # a character which has marks is not changed, any other is what the function above gives
    ts = [g for g in rend if g["argc"] == 3 and g["locals"][0]["ty"].endswith("SuperChar") and g["locals"][1]["ty"].endswith("TextTransform") and g["locals"][2]["ty"].endswith("SuperChar")]
    m = 0
    for g in ts:
        for i, v in enumerate(F.adts[tt]["variants"]):
            for up in (0, 1):
                a = [(lo, hi, number(x) if x and x[0] != "panic" else x) for lo, hi, x in R.table(g, [("agg", tt, i, ()), sc(F, C), K(up)])]
                b = [(lo, hi, number(x) if x and x[0] != "panic" else x) for lo, hi, x in R.table(f, [("agg", tt, i, ()), C, K(up)])]
                ctx.expect(merged(a) == merged(b), "font", "%s %s %d" % (g["name"], v["name"], up), g["name"], "a stored character is put into the font %s differently" % v["name"], key="font:%s" % g["name"])
                for bits in (1 << 28, 2 << 28, SOLIDUS, VLINE):
                    a = [(number(x) if x and x[0] != "panic" else x) for lo, hi, x in R.table(g, [("agg", tt, i, ()), sc(F, ("lin", bits)), K(up)])]
                    m += 1
                    ctx.expect(set(a) == {("lin", bits)}, "font", "%s %s %d %x" % (g["name"], v["name"], up, bits), g["name"], "a character with marks is changed by the font %s" % v["name"], key="font:%s" % g["name"])
    ctx.floor("characters with marks in fonts", m, 50)


def merged(t):
    """A table of intervals in a normal form: which characters are mapped to what."""
    r = []
    for lo, hi, v in t:
        if v is not None and v[0] == "k" and lo == hi:
            v = ("lin", v[1] - lo)
        if r and r[-1][1] + 1 == lo and r[-1][2] == v:
            r[-1] = (r[-1][0], hi, v)
        else:
            r.append((lo, hi, v))
    return r


def sc(F, v):
    a = [k for k in F.adts if k.endswith("super_char::SuperChar")][0]
    return ("agg", a, 0, (v,))


def overlay(ctx, R, rend):
    F = ctx.F
    oc = [k for k in F.adts if k.endswith("super_char::OverlayChar")]
    fs = [f for f in rend if f["argc"] == 2 and f["locals"][0]["ty"].endswith("SuperChar") and f["locals"][1]["ty"].endswith("SuperChar") and f["locals"][2]["ty"].endswith("OverlayChar")]
    if not ctx.expect(len(oc) == 1 and fs, "overlay", "function", "SuperChar", "no function overlays a character with a slash"):
        return
    n = 0
    want = {}
    for c in list(range(0, 0xD800)) + list(range(0xE000, 0x20000)):
        s = U.normalize("NFC", chr(c) + "\u0338")
        if len(s) == 1:
            want[c] = ord(s)
        d = U.decomposition(chr(c))
        if d.endswith(" 0338") and not d.startswith("<") and U.normalize("NFC", chr(c)) == chr(c):
            want[c] = c         # has the slash already
    for f in fs:
        for i, v in enumerate(F.adts[oc[0]]["variants"]):
            for bits in (0, 1 << 28, 2 << 28, VLINE, SOLIDUS):
                t = R.table(f, [sc(F, ("lin", bits)), ("agg", oc[0], i, ())])
                for lo, hi, x in t:
                    x = number(x) if x and x[0] != "panic" else None
                    n += 1
                    inst = "%s %s %x U+%04X" % (f["name"], v["name"], bits, lo)
                    if v["name"] == "VerticalLine":
                        ctx.expect(x == ("lin", bits | VLINE), "overlay", inst, f["name"], "a character is not stored with its line: %s" % (x,), key="overlay:%s" % v["name"])
                        continue
                    if v["name"] != "Solidus":
                        continue
                    if lo == hi or bits >> 28 == 0 and any(lo <= c <= hi for c in want):
                        for c in (range(lo, hi + 1) if hi - lo < 5000 else [c for c in want if lo <= c <= hi]):
                            w = (want[c] | bits) if c in want and not bits >> 28 else c | bits | SOLIDUS
                            g = x[1] + (c if x[0] == "lin" else 0) if x else None
                            ctx.expect(g == w, "overlay", inst + " U+%04X" % c, f["name"], "U+%04X with a slash is %s instead of %s" % (c, show(g), show(w)), key="overlay:U+%04X" % c)
                    else:
                        ctx.expect(x == ("lin", bits | SOLIDUS), "overlay", inst, f["name"], "the characters from U+%04X to U+%04X are not stored with their slash" % (lo, hi), key="overlay:range")
                if v["name"] == "Solidus" and not bits:
                    have = {c for lo, hi, x in t if lo == hi for c in (lo,)}
                    missing = [c for c in want if c not in have and not any(lo <= c <= hi and number(x) and number(x)[0] == "lin" and number(x)[1] == 0 for lo, hi, x in t)]
                    ctx.expect(not missing, "overlay", "complete", f["name"], "not composed with the slash: %s" % ", ".join("U+%04X" % c for c in missing[:5]))
    ctx.floor("intervals with an overlay", n, 300)


def stored(ctx, R, rend):
    """What is put into a stored character is what comes out of it, and constants are given on as they are."""
    F = ctx.F
    vs = [k for k in F.adts if k.endswith("super_char::VariationSelector")]
    n = 0
    for f in rend:
        tys = [f["locals"][i]["ty"] for i in range(f["argc"] + 1)]
        if "{closure" in f["name"] or not re.search(r"(symbol|super_char)::", f["name"]):
            continue
        if tys == ["super_char::SuperChar", "char"]:
            n += same(ctx, R, f, [C], C)
        elif tys == ["char", "super_char::SuperChar"]:
            for bits in (0, 1 << 28, 15 << 28, SOLIDUS, VLINE, SOLIDUS | VLINE | 2 << 28):
                n += same(ctx, R, f, [sc(F, ("lin", bits))], C)
        elif tys == ["super_char::SuperChar", "char", "super_char::VariationSelector"] and vs:
            for i, v in enumerate(F.adts[vs[0]]["variants"]):
                n += same(ctx, R, f, [C, ("agg", vs[0], i, ())], ("lin", int(v["name"][2:]) << 28))
        elif len(tys) == 2 and tys[0] == "char" and tys[1].endswith("super_char::VariationSelector") and vs:
            for i, v in enumerate(F.adts[vs[0]]["variants"]):
                n += same(ctx, R, f, [("agg", vs[0], i, ())], K(0xFDFF + int(v["name"][2:])))
        elif len(tys) == 2 and tys[0].endswith("MathMLOperator") and tys[1].lstrip("&").startswith("symbol::"):
            a = "math_core_renderer_internal::" + tys[1].lstrip("&")
            fields = F.adts[a]["variants"][0]["fields"] if a in F.adts else []
            for flag in ((0, 1) if any(x["ty"] == "bool" for x in fields) else (0,)):
                x = ("agg", a, 0, tuple(K(flag) if y["ty"] == "bool" else bmp(F, y["ty"]) for y in fields))
                n += same(ctx, R, f, [("val", x) if tys[1].startswith("&") else x], ("lin", flag << 28), bmp_only=any("BMP" in y["ty"] for y in fields))
    ctx.floor("conversions of characters", n, 30)
    # the characters which a stored character consists of, in order
    its = [f for f in rend if f["name"].endswith("::next") and "SuperChar" in f["locals"][1]["ty"]]
    m = 0
    for f in its:
        it = f["locals"][1]["ty"].replace("&mut ", "math_core_renderer_internal::")
        for sel in (0, 1, 2, 15):
            for sol in (0, 1):
                for vl in (0, 1):
                    bits = sel << 28 | sol * SOLIDUS | vl * VLINE
                    want = [C] + ([K(0xFDFF + sel)] if sel else []) + ([K(0x338)] if sol else []) + ([K(0x20D2)] if vl else [])
                    for lo, hi in ((0, 0xD7FF), (0xE000, 0x10FFFF)):
                        for got in chain(R, f, it, ("lin", bits), lo, hi, 6):
                            m += 1
                            ctx.expect(got == want, "parts", "%s %x %x" % (f["name"], bits, lo), f["name"], "a stored character with the marks %X consists of %s instead of %s" % (bits >> 21, got, want), key="parts:%s" % f["name"])
    ctx.floor("stored characters taken apart", m, 16)


def bmp(F, ty):
    if ty in ("char", "u16", "u32"):
        return C
    a = "math_core_renderer_internal::" + ty
    if a in F.adts and len(F.adts[a]["variants"]) == 1 and len(F.adts[a]["variants"][0]["fields"]) == 1:
        return ("agg", a, 0, (bmp(F, F.adts[a]["variants"][0]["fields"][0]["ty"]),))
    return None


def chain(R, f, it, v, lo, hi, left):
    """The sequences of items which an iterator gives."""
    if left == 0:
        return [["without end"]]
    cell = {"it": ("agg", it, 0, (v,))}
    out = []
    for l, h, r, st in R.call(f, [("cell", "it")], lo, hi, cell, 0):
        if r is None or r[0] != "agg":
            out.append(["something unknown"])
        elif not r[3]:
            out.append([])
        else:
            x = number(r[3][0])
            nxt = number(st["it"])
            if nxt is None:
                out.append([x, "something unknown"])
            else:
                out += [[x] + rest for rest in chain(R, f, it, nxt, l, h, left - 1)]
    return out


def same(ctx, R, f, args, want, bmp_only=False):
    t = R.table(f, args)
    n = 0
    for lo, hi, v in t:
        if bmp_only and lo > 0xFFFF:
            continue
        n += 1
        got = number(v) if v and v[0] != "panic" else v
        ctx.expect(got == want, "conversion", "%s %s U+%04X" % (f["name"], args, lo), f["name"], "a character (U+%04X) is not given on as it is: %s instead of %s" % (lo, got, want), key="conversion:%s" % f["name"])
    return n


# ---------------------------------------------------------------- tables
def chars(v):
    """The stored characters within a constant, as strings."""
    out = []

    def walk(v):
        if isinstance(v, list):
            for x in v:
                walk(x)
        elif isinstance(v, dict):
            if "c" in v:
                out.append(v["c"])
            elif str(v.get("adt", "")).endswith(("::BMPChar", "::SuperChar")):
                out.append(v["fs"][0].get("i", v["fs"][0].get("c")))
            else:
                for k in ("ref", "fs", "seq", "tup"):
                    if k in v:
                        walk(v[k])
    walk(v)
    return [text(x) for x in out]


def text(n):
    return chr(n & LOW) + (chr(0xFDFF + (n >> 28)) if n >> 28 else "") + ("\u0338" if n & SOLIDUS else "") + ("\u20d2" if n & VLINE else "")


def flat(s):
    return re.sub(r"[- ]", "_", s).upper()


def names(ctx):
    """Constants named like a character."""
    F = ctx.F
    byname = {}
    for cp in range(0x110000):
        n = U.name(chr(cp), None)
        if n and not n.startswith(("CJK", "HANGUL")):
            byname[flat(n)] = chr(cp)
    byname["GREEK_CAPITAL_LETTER_LAMBDA"], byname["GREEK_SMALL_LETTER_LAMBDA"] = "\u039b", "\u03bb"
    n = 0
    for k, s in F.statics.items():
        if not re.search(r"::symbol::[A-Z0-9_]+$", k) or s["kind"] not in ("const", "static"):
            continue
        cs = chars(s.get("val"))
        name = k.split("::")[-1]
        if name in byname:
            n += 1
            ctx.expect(len(cs) == 1 and cs[0][0] == byname[name], "name", name, k, "the constant %s is %s" % (name, ", ".join("%s (%s)" % (x, U.name(x[0], "?")) for x in cs)), key="name:%s" % name)
    ctx.floor("constants named like a character", n, 900)


KIND = {"Relation": "relation", "ForceRelation": "relation", "BinaryOp": "operator", "ForceBinaryOp": "operator", "Op": "large operator", "ForceLargeOp": "large operator", "Open": "opening", "ForceOpen": "opening",
        "Close": "closing", "ForceClose": "closing", "Letter": "letter", "UprightLetter": "letter", "Ord": "letter", "Punctuation": "punctuation", "ForcePunctuation": "punctuation", "Inner": "inner", "Accent": "accent"}


def entries(ctx, name):
    F = ctx.F
    for k, s in F.statics.items():
        if k.split("::")[-1] == name and s["crate"] == "math_core":
            v = s.get("val") or {}
            for n, x in zip(v.get("fn", ()), v.get("fs", ())):
                if n == "entries":
                    while isinstance(x, dict) and "seq" not in x and x.get("ref"):
                        x = x["ref"]
                    return [(e["tup"][0], e["tup"][1]) for e in x.get("seq", ())]
    return []


def shape(v):
    """A constant as a short text, to be compared with the reference."""
    if isinstance(v, dict):
        if "adt" in v:
            fs = [shape(x) for x in v.get("fs", ())]
            return str(v.get("v")) + ("(%s)" % ", ".join(fs) if fs else "")
        for k in ("ref", "seq", "tup"):
            if k in v:
                return shape(v[k]) if k == "ref" else "[%s]" % ", ".join(map(shape, v[k]))
        for k in ("f", "i", "b", "str", "c"):
            if k in v:
                return str(v[k])
    return "?"


OTHER = ("Space", "PseudoOperatorLimits", "PseudoOperator", "Transform", "TransformSwitch", "Style", "Text", "TextMode", "Frac", "Binom", "Big", "MathClass", "Phantom", "OperatorName", "Overlay", "Limits", "InfixGenFrac", "MathOrTextMode")


def commands(ctx):
    with open(os.path.join(HERE, "symbols.json")) as fh:
        ref = json.load(fh)
    own, other = ref["unlike HTML"], ref["commands"]
    es = {k["str"]: v for k, v in entries(ctx, "COMMANDS")}
    n = m = 0
    for name, v in sorted(es.items()):
        cs = chars(v)
        h = html.entities.html5.get(name + ";")
        if name in other:
            continue
        want = own.get(name) or h
        if want is None or not cs or v.get("v") in ("CustomCmd", "TextMode"):
            continue
        n += 1
        got = "".join(cs)
        ctx.expect(plain(got) == plain(want), "command", name, "COMMANDS", "\\%s gives %s (%s) instead of %s (%s)" % (name, got, uname(got), want, uname(want)), key="command:%s" % name)
    for name, (kind, want) in sorted(other.items()):
        m += 1
        v = es.get(name)
        if not ctx.expect(v is not None, "command", name, "COMMANDS", "\\%s is not known any more" % name, key="command:%s" % name):
            continue
        got = "".join(chars(v))
        ctx.expect(plain(got) == plain(want), "command", name, "COMMANDS", "\\%s gives %s (%s) instead of %s (%s)" % (name, got, uname(got), want, uname(want)), key="command:%s" % name)
    for name, kind in sorted(ref["kinds"].items()):
        v = es.get(name)
        if v is not None and v.get("v") in KIND:
            ctx.expect(KIND[v["v"]] == kind, "kind", name, "COMMANDS", "\\%s is %s instead of %s" % (name, KIND[v["v"]], kind), key="kind:%s" % name)
    k = 0
    for name, want in sorted(ref["other"].items()):
        v = es.get(name)
        k += 1
        if ctx.expect(v is not None, "meaning", name, "COMMANDS", "\\%s is not known any more" % name, key="command:%s" % name):
            got = shape(v)
            ctx.expect(got == want, "meaning", name, "COMMANDS", "\\%s means %s instead of %s" % (name, got, want), key="meaning:%s" % name)
    fs = set()
    for q, s in F_sets(ctx):
        fs |= set(q)
    for name in ref["functions"]:
        ctx.expect(name in fs or name in es, "meaning", name, "FUNCTIONS", "\\%s is not known any more" % name, key="function:%s" % name)
    ctx.floor("commands with another meaning", k, 150)
    ctx.floor("commands with a name of HTML", n, 400)
    ctx.floor("other commands", m, 150)


def F_sets(ctx):
    """The strings in the sets of names."""
    for k, s in ctx.F.statics.items():
        if s["crate"] == "math_core" and "phf::Set<&" in s["ty"]:
            out = []

            def walk(v):
                if isinstance(v, list):
                    for x in v:
                        walk(x)
                elif isinstance(v, dict):
                    if "str" in v:
                        out.append(v["str"])
                    for x in v.values():
                        if isinstance(x, (list, dict)):
                            walk(x)
            walk(s.get("val"))
            yield out, k


def operators(ctx):
    """A character which is typed gives this character."""
    n = 0
    for k, v in entries(ctx, "UNICODE_OPERATORS"):
        c = chr(k["c"]) if "c" in k else chr(k.get("i", 0))
        cs = chars(v)
        if v.get("v") == "Prime" or not cs:
            continue
        n += 1
        ctx.expect(len(cs) == 1 and cs[0][0] == c, "typed", c, "UNICODE_OPERATORS", "the character %s gives %s" % (c, " ".join(cs)), key="typed:U+%04X" % ord(c))
        cat = U.category(c)
        kind = KIND.get(v.get("v"))
        if cat in ("Ps", "Pe") and kind in ("opening", "closing"):
            ctx.expect(kind == {"Ps": "opening", "Pe": "closing"}[cat], "typed", c + " kind", "UNICODE_OPERATORS", "the bracket %s is %s" % (c, kind), key="typed kind:U+%04X" % ord(c))
    ctx.floor("characters which can be typed", n, 800)


def plain(s):
    return U.normalize("NFC", s.replace("\ufe00", "").replace("\ufe01", ""))


def uname(s):
    return " + ".join(U.name(c, "?") for c in s)
