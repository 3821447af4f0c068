"""Every option arrives where it is used."""
import re
from absint import EX, SYM, NONE, C, mentions
from apirun import Trace, is_default
from bindcommon import go
from facts import norm

RULE = ("On every path through the constructors (of the library, of the Python and of the JavaScript binding), each part of the configuration which is handed on has, as symbolic value, exactly the "
        "option of the same name (or its default when the option is left out); for options given as strings, the variant has the name of the string it was compared with.")
CFG = "math_core::MathCoreConfig"


def snake(n):
    return re.sub(r"([A-Z])", lambda m: "_" + m.group(1).lower(), n)


def bare(v):
    """Without wrappers of one field and conversions of the same value."""
    while True:
        if v[0] == "agg" and len(v[3]) == 1 and v[1].startswith("math_core") and v[3][0][0] in ("sym", "ex"):
            v = v[3][0]
        elif v[0] == "ex" and len(v) == 3 and v[1].startswith("call:") and (v[1].split("::")[-1][:1].isupper() or v[1].split("::")[-1] in ("from", "to_string", "to_owned", "into", "clone")):
            v = v[2]
        elif v[0] == "ex" and len(v) == 4 and v[1].startswith("call:") and v[1].endswith("::eq") and C(1) in v[2:]:      # x == true
            v = v[2] if v[3] == C(1) else v[3]
        else:
            return v


def isdef(v, d):
    return v == d or v[0] == "agg" and v[1].startswith("default:") or v[0] == "agg" and v[1] == "vecof" and not v[3] and (is_default(d) or d[0] != "c")


def truth(con, k):
    c = con.get(k)
    return c[1] if isinstance(c, tuple) and c[0] == "=" else None


def run(ctx):
    F = ctx.F
    fields = F.adts[CFG]["variants"][0]["fields"]
    names = [f["name"] for f in fields]
    ctx.floor("options", len(names), 12)
    ds = [f for f in F.fns.values() if f["crate"] == "math_core" and f["name"].endswith("default") and f["locals"][0]["ty"].endswith("MathCoreConfig")]
    defaults = {}
    if ctx.expect(len(ds) == 1, "default", "config", "MathCoreConfig", "MathCoreConfig has no default"):
        T = Trace(F, lambda *a: None)
        r = T.go(ds[0])
        if r and r[0][0][0] == "agg":
            defaults = dict(zip(names, r[0][0][3]))
    core(ctx, F, names)
    for crate in ("math_core_python", "math_core_wasm"):
        binding(ctx, F, crate, fields, defaults)


def core(ctx, F, names):
    fn = [f for f in F.find("LatexToMathML::new") if f["crate"] == "math_core"]
    if not ctx.expect(len(fn) == 1, "api", "new", "math_core", "LatexToMathML::new was not found"):
        return
    fn = fn[0]
    p = fn["locals"][1]["name"]

    def bd(c, n, body):
        return "macros" if body is not None and body["crate"] == "math_core" and "CustomCmds" in body["locals"][0]["ty"] and "Result<" in body["locals"][0]["ty"] and body["kind"] != "Closure" else None
    T = Trace(F, bd)
    ok = 0
    for rv, ev, pairs, con, st in T.go(fn):
        if not (rv[0] == "agg" and rv[2] == 0 and rv[1].endswith("Result")):
            continue
        ok += 1
        used = {}

        def walk(v, adt):
            a = F.adts.get(adt)
            for f, x in zip(a["variants"][0]["fields"], v[3]):
                if x[0] == "agg" and x[1] in F.adts and x[1].endswith("Config"):
                    walk(x, x[1])
                    continue
                if f["name"] in names:
                    ctx.expect(bare(x) == SYM("%s.%s" % (p, f["name"])), "core", f["name"], "LatexToMathML::new", "the option %s of the converter is set to %s" % (f["name"], T.show(x)[:100]))
                    used[f["name"]] = 1
                elif x[0] == "sym" and x[1].startswith(p + "."):
                    used[x[1][len(p) + 1:]] = 1
                if "CustomCmds" in f["ty"]:
                    ctx.expect(x[0] == "sym" and x[1].startswith("macros#") and x[1].endswith("@Ok.0"), "core", "macros", "LatexToMathML::new", "the commands of the converter are not the macros of the configuration")
                    used["macros"] = 1
        v = rv[3][0]
        if not ctx.expect(v[0] == "agg", "core", "value", "LatexToMathML::new", "the converter is not built from its parts"):
            continue
        walk(v, v[1])
        for n in names:
            ctx.expect(n in used, "core", n + ":used", "LatexToMathML::new", "the option %s is not kept by the converter" % n)
        for e in ev:
            for a, ty in zip(e[1], e[3]):
                ty = norm(ty)
                for f in F.adts[CFG]["variants"][0]["fields"]:
                    if norm(f["ty"]) == ty and ty != "bool" or ty == "bool" and "allow" in f["name"]:
                        ctx.expect(bare(a) == SYM("%s.%s" % (p, f["name"])), "core", "macros:" + f["name"], "LatexToMathML::new",
                                   "the macros are read with %s instead of the option %s" % (T.show(a)[:80], f["name"]))
    ctx.floor("converters made", ok, 1)


def binding(ctx, F, crate, fields, defaults):
    made = []
    seen = {}

    def setup(T, fn):
        params = {snake(l["name"]): SYM(l["name"]) for l in fn["locals"][1:fn["argc"] + 1] if l.get("name")}
        opts = {}

        def source(st, f):
            if f in params:
                return params[f], False
            for o, s in opts.items():
                if snake(o) == f:
                    return s, True
            return None, False

        def check(st, f, x):
            s, opt = source(st, f["name"])
            d = defaults.get(f["name"])
            where = crate + "::LatexToMathML::new"

            def bad():
                ctx.fail("%s:%s" % (crate, f["name"]), where, "the option %s is set to %s" % (f["name"], T.show(x)[:120]))
            if s is None:
                ctx.expect(not mentions(x, lambda n: True), crate, f["name"], where, "the option %s, which cannot be given, is set to %s" % (f["name"], T.show(x)[:120]))
                return
            inner = SYM(s[1] + "@Some.0")
            given = 1 if not opt and truth(st.con, EX("discr", s, "core::option::Option")) is None else truth(st.con, EX("discr", s, "core::option::Option"))
            b = bare(x)
            enum = F.adts.get((f["tys"] or [""])[0], {}).get("kind") == "Enum" or len(F.adts.get((f["tys"] or [""])[0], {}).get("variants", [])) > 1
            if enum and x[0] == "agg" and x[1] in F.adts:
                lits = []
                for k, v in st.con.items():
                    if k[0] == "ex" and k[1].startswith("call:") and "eq" in k[1] and v == ("=", 1) and len(k) == 4:
                        for a, c in ((k[2], k[3]), (k[3], k[2])):
                            if mentions(a, lambda n: n == s[1] or n.startswith(s[1] + "@")) and c[0] == "s":
                                lits.append("".join(q[1] for q in c[1]))
                want = F.adts[x[1]]["variants"][x[2]]["name"].lower()
                if lits:
                    seen.setdefault((f["name"], lits[0]), x[2])
                    (ctx.ok("variant", "%s %s" % (f["name"], lits[0])) if lits == [want] else bad())
                else:
                    (ctx.ok("variant", f["name"]) if given == 0 and isdef(x, d) else bad())
                return
            if f["name"] == "macros":
                ok = not mentions(x, lambda n: not (n == s[1] or n.startswith(s[1] + "@") or n.startswith("?")))
                (ctx.ok("macros", crate) if ok else bad())
                return
            if isdef(x, d) and given == 0:
                ctx.ok("default", f["name"])
            elif b in (s, inner) or b == EX("unwrap_or_default", s) and (d is None or is_default(d)) or b[0] == "ex" and b[1] == "unwrap_or" and b[2] == s and b[3] == d:
                ctx.ok("handed on", f["name"])
            else:
                bad()

        def on_event(st, name, vals, raw):
            if name.startswith("get."):
                opts[name[4:]] = SYM(name + "#%d" % T.sites_of(name))
            if name == "LatexToMathML.new":
                v = vals[0]
                if ctx.expect(v[0] == "agg" and v[1] == CFG, crate, "config", crate, "the configuration is not built from its parts: %s" % T.show(v)[:80]):
                    made.append(1)
                    for f, x in zip(fields, v[3]):
                        check(st, f, x)
        T.on_event = on_event
    fn, T, paths = go(ctx, crate, "new", setup=setup)
    if fn is None:
        return
    ctx.floor("configurations made by " + crate, len(made), 4)
    own = [f for f in F.adts[crate + "::LatexToMathML"]["variants"][0]["fields"]]
    ok = 0
    for rv, ev, pairs, con, st in paths:
        if rv[0] == "agg" and rv[1].endswith("Result") and rv[2] == 0:
            v = rv[3][0]
            ok += 1
            if not ctx.expect(v[0] == "agg", crate, "value", crate, "the converter is not built from its parts"):
                continue
            for f, x in zip(own, v[3]):
                if "math_core::LatexToMathML" in f["ty"] or "RwLock" in f["ty"]:
                    ctx.expect(mentions(x, lambda n: n.startswith("LatexToMathML.new#") and "@Ok.0" in n), crate, "inner", crate, "the binding does not keep the converter it made")
                else:
                    src = [SYM(l["name"]) for l in fn["locals"][1:fn["argc"] + 1] if l.get("name") == f["name"]]
                    src += [EX("unwrap_or", SYM("get.%s#0" % e[0][4:]), C(1)) for e in ev if e[0].startswith("get.") and snake(e[0][4:]) == f["name"]]
                    src += [SYM("get.%s#0@Some.0" % e[0][4:]) for e in ev if e[0].startswith("get.") and snake(e[0][4:]) == f["name"]]
                    nodef = [1 for e in ev if e[0].startswith("get.") and snake(e[0][4:]) == f["name"] and truth(con, EX("discr", SYM("get.%s#0" % e[0][4:]), "core::option::Option")) == 0]
                    ctx.expect(x in src or nodef and x == C(1), crate, f["name"], crate, "the option %s of the binding is set to %s" % (f["name"], T.show(x)[:100]))
    ctx.floor("converters made by " + crate, ok, 1)
    for (n, l), v in seen.items():
        ctx.ok("string", "%s=%s" % (n, l))
    ctx.floor("strings understood by " + crate, len(seen), 5)
