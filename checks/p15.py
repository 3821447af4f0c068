"""The command line tool converts what it is asked to."""
import clicommon
from clicommon import arg, truth, variant, main, boundary
from apirun import Trace
from absint import SYM, EX, mentions
from facts import norm

RULE = ("All paths through the command line tool from main, with arguments and files symbolic, and through the function which it hands to the replacement of formulas in a file: which values reach the library and the "
        "replacer. The formula is the argument or else the standard input, its display mode is that of the options; the delimiters are the pair of opening and closing delimiter if one is given and otherwise the single "
        "delimiter, inline first; every formula of a file is converted once, as it is handed over, and gives its MathML, or - only if errors are to be passed over - the HTML of its error.")
METHOD = "LatexToMathML.convert_with_global_state"


def run(ctx):
    F = ctx.F
    m = main(ctx)
    if not m:
        return
    T = Trace(F, boundary, budget=2_000_000)
    n = {"formula": 0, "replacer": 0, "file": 0, "config": 0}
    vs = [v["name"] for v in F.adts["math_core::MathDisplay"]["variants"]]
    block = vs.index("Block")
    closures = set()

    def bad(key, msg, st=None):
        ctx.fail(key, "main", msg, ["on the path with: " + ", ".join("%s = %s" % (T.show(k)[:70], truth(st.con, k)) for k in st.con)] if st is not None else ())

    def stdin(v):
        return v[0] == "sym" and (v[1].startswith("after:io::read_to_string#") or v[1].startswith("io::read_to_string#") or v[1].startswith("?havoc:") and "read_to_string" in v[1])

    def delim(con, kind):
        o = variant(con, arg(kind + "_open"))
        if o == 1:
            return (SYM(arg(kind + "_open")[1] + "@Some.0"), SYM(arg(kind + "_close")[1] + "@Some.0"))
        if o == 0:
            return (arg(kind + "_del"), arg(kind + "_del"))
        return None

    def on_event(st, name, vals, raw):
        con = st.con
        if name.startswith("LatexToMathML.convert"):
            n["formula"] += 1
            if name != METHOD:
                return bad("method", "formulas are converted by %s" % name, st)
            f = variant(con, arg("formula"))
            if variant(con, arg("file")) != 0:
                bad("formula:file", "a formula is converted as such although a file was given", st)
            elif not (f == 1 and vals[1] == SYM(arg("formula")[1] + "@Some.0") or f == 0 and stdin(vals[1])):
                bad("formula:source", "what is converted is not the formula which was given, or else the standard input: %s" % T.show(vals[1])[:100], st)
            else:
                ctx.ok("formula", "main")
            want = truth(con, arg("block"))
            if want is None and truth(con, arg("inline")) is not None:
                want = 1 - truth(con, arg("inline"))
            d = vals[2]
            ctx.expect(want is not None and d[0] == "agg" and d[2] == (block if want else 1 - block), "display", "main", "main", "the display mode of the formula is not the one of the options")
        if name == "Replacer.new":
            n["replacer"] += 1
            ds = []
            for v in vals[:2]:
                ds.append(tuple(v[3]) if v[0] == "agg" and v[1] == "tuple" else None)
            for v, kind in zip(ds, ("inline", "block")):
                w = delim(con, kind)
                if w is None or v is None or v != w:
                    bad("delimiters:" + kind, "the %s delimiters are not those of the options: %s" % (kind, T.show(vals[0 if kind == "inline" else 1])[:100]), st)
                else:
                    ctx.ok("delimiters", kind)
            ctx.expect(vals[2] == arg("ignore_escaped_delim"), "escaped", "main", "main", "whether escaped delimiters count is not as asked")
        if name == "Replacer.replace":
            n["file"] += 1
            v = vals[1]
            fromstdin = [truth(con, k) for k in con if k[0] == "ex" and k[1].startswith("call:") and mentions(k, lambda s: s == arg("file")[1] + "@Some.0") and any(x == ("f", "-") or x == ("s", (("t", "-"),)) or "'-'" in repr(x) for x in k)]
            dash = fromstdin[0] if fromstdin else None
            if dash == 1 or dash is None and stdin(v):
                ctx.expect(stdin(v), "file:source", "stdin", "main", "what is converted for the file '-' is not the standard input")
            else:
                r = [e for e in st.mon[0] if e[0].startswith("fs::read") and e[1] and v[0] == "sym"]
                src = [T.show(e[1][0]) for e in r if e[1][0] == SYM(arg("file")[1] + "@Some.0") or e[1][0][0] == "sym" and "DirEntry" in e[1][0][1]]
                ok = v[0] == "sym" and v[1].startswith("fs::read_to_string#") and v[1].endswith("@Ok.0") and src
                (ctx.ok("file:source", "main") if ok else bad("file:source", "what is converted is not the content of the file: %s" % T.show(v)[:100], st))
            ctx.expect(vals[2] == SYM("LatexToMathML.new#0@Ok.0") or mentions(vals[2], lambda s: "LatexToMathML.new#" in s or "after:Replacer.replace" in s), "converter", "main", "main", "the converter is not the one which was configured")
            clo = vals[3]
            if clo[0] == "agg" and clo[1].startswith("closure:"):
                closures.add((clo[1].split("closure:")[1].split("<")[0], clo[3]))
            else:
                bad("closure", "the function which converts a formula of a file was not found", st)
        if name == "LatexToMathML.new":
            n["config"] += 1
            v = vals[0]
            cfg = variant(con, arg("config_file"))
            default = v[0] == "agg" or v[0] == "ex" and "default" in v[1].lower() or v[0] == "sym" and "default" in v[1].lower()
            if mentions(v, lambda s: s.startswith("fs::read_to_string#")):
                path = [e[1][0] for e in st.mon[0] if e[0] == "fs::read_to_string"]
                ok = path and (path[0] == SYM(arg("config_file")[1] + "@Some.0") if cfg == 1 else "mathcore.toml" in T.show(path[0]))
                (ctx.ok("configuration", "main") if ok else bad("config:path", "the configuration is read from another file: %s" % (T.show(path[0]) if path else ""), st))
            elif default:
                (ctx.ok("configuration", "main") if cfg == 0 else bad("config:default", "the configuration which was named is replaced by the default", st))
            else:
                bad("config", "the configuration comes from neither the file nor the default: %s" % T.show(v)[:100], st)
    T.on_event = on_event
    T.go(m)
    for k, least in (("formula", 2), ("replacer", 1), ("file", 2), ("config", 2)):
        ctx.floor("calls: " + k, n[k], least)
    for key, captured in sorted(closures, key=repr):
        formula(ctx, F, key, captured)
    ctx.floor("functions which convert a formula of a file", len(closures), 1)


def formula(ctx, F, key, captured):
    """The function which is called for every formula of a file."""
    fs = [F.fns[k] for k in F.byid.get(key, ())]
    where = key
    if not ctx.expect(len(fs) == 1, "closure", key, where, "the function which converts a formula of a file was not found"):
        return
    fn = fs[0]
    T = Trace(F, boundary, budget=400_000)
    state, buf, latex, display = (SYM("state"), SYM("buf"), SYM("latex"), SYM("display"))
    out = T.go(fn, {2: "state", 3: "buf", 4: "latex", 5: "display"})
    go_on = [i for i, v in enumerate(captured) if v == arg("continue_on_error")]
    if not ctx.expect(len(go_on) == 1, "continue", key, where, "whether to go on after an error is not handed on as asked"):
        return
    flag = SYM("a0.%d" % go_on[0])
    r = SYM(METHOD + "#0")
    n = [0, 0, 0]
    for rv, ev, pairs, con, st in out:
        conv = [e for e in ev if e[0].startswith("LatexToMathML.")]
        ctx.expect(len(conv) == 1 and conv[0][0] == METHOD and conv[0][1][1:] == (latex, display), "once", key, where, "a formula is not converted once as it is in the file")
        k = variant(con, r)
        on = truth(con, flag)
        text = [v for o, v in st.mem.items() if o == ("S", "buf")]
        parts = [p[1] for p in text[0][1]] if text and text[0][0] == "s" else [buf] if not text or text[0] == buf else None
        if parts is None or parts[:1] != [buf]:
            ctx.fail("buffer", where, "what a formula gives is not added to the end of the output: %r" % (text,))
            continue
        added = parts[1:]
        isres = rv[0] == "agg" and rv[1].endswith("Result")
        if k == 0:
            n[0] += 1
            ctx.expect(isres and rv[2] == 0 and added == [SYM(r[1] + "@Ok.0.mathml")], "value", key, where, "a converted formula does not give exactly its MathML")
        elif k == 1 and on == 1:
            n[1] += 1
            h = [e for e in ev if e[0] == "LatexError.to_html"]
            ok = isres and rv[2] == 0 and len(h) == 1 and len(added) == 1 and added[0][0] == "sym" and added[0][1].startswith("LatexError.to_html#")
            ok = ok and h[0][1][0][0] == "sym" and h[0][1][0][1].startswith(r[1] + "@Err.0") and h[0][1][1:3] == (latex, display)
            ctx.expect(ok, "fallback", key, where, "a rejected formula does not give exactly the HTML of its error although errors are passed over")
        elif k == 1:
            n[2] += 1
            ok = on == 0 and isres and rv[2] == 1 and not added and rv[3][0][0] == "sym" and rv[3][0][1].startswith(r[1] + "@Err.0")
            ctx.expect(ok, "error", key, where, "the error of a formula is not given back although errors are not passed over")
        else:
            ctx.fail("undecided", where, "the result of the conversion of a formula is not looked at")
    ctx.floor("ways to convert a formula", min(n), 1)
