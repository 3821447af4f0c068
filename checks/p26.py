"""The bindings give back exactly what the library gives."""
from absint import EX, SYM, C, NONE, mentions
from bindcommon import go
from facts import norm

RULE = ("On every path through the conversions of the Python and the JavaScript binding: exactly one call of the library's conversion of the same name, on the formula which was given and with the display "
        "mode which corresponds to `displaystyle`; the value returned is the MathML of that result; for an error it is the HTML of that error for the same formula and display mode if the "
        "binding is configured to go on, and an exception otherwise; one value per snippet in order; conversions without state take only the shared lock.")
ITEM = SYM("display mode of the snippet")
METHODS = ("convert_with_global_state", "convert_with_local_state", "convert_all")
CRATES = ("math_core_python", "math_core_wasm")


def truth(con, k):
    c = con.get(k)
    return c[1] if isinstance(c, tuple) and c[0] == "=" else c if isinstance(c, int) else None


def bare(v):
    """The string inside a Python or JavaScript string."""
    while v[0] == "ex" and v[1].startswith("call:") and v[1].split("::")[-1] in ("new", "from_str", "from") and ("PyString" in v[1] or "JsValue" in v[1]):
        v = v[-1]
    return v


def goes_on(con):
    """1: the binding returns HTML for an error; 0: it raises; None: not decided on this path."""
    a = truth(con, SYM("self.continue_on_error"))
    b = truth(con, SYM("self.throw_on_error"))
    return a if a is not None else None if b is None else 1 - b


def blocks(F):
    vs = [v["name"] for v in F.adts["math_core::MathDisplay"]["variants"]]
    return vs.index("Block") if "Block" in vs else -1


def run(ctx):
    F = ctx.F
    block = blocks(F)
    for crate in CRATES:
        for m in METHODS:
            one(ctx, F, crate, m, block)
        reset(ctx, crate)


def one(ctx, F, crate, m, block):
    call = "LatexToMathML." + m
    where = "%s::%s" % (crate, m)
    batch = m == "convert_all"
    res = SYM(call + "#0" + ("[]" if batch else ""))
    err = SYM(res[1] + "@Err.0")
    good = SYM(res[1] + "@Ok.0.mathml")
    kind = EX("discr", res, "core::result::Result")
    n = {"call": 0, "html": 0, "raise": 0, "ok": 0, "item": 0}
    P = []
    inputs = {}

    def iserr(v):
        """The error of the result, in its box or not."""
        return v[0] == "sym" and v[1].startswith(err[1]) and set(v[1][len(err[1]):]) <= {".", "0"}

    def bad(k, msg, *trail):
        ctx.fail("%s:%s:%s" % (crate, m, k), where, msg, list(trail))

    def latex_ok(v):
        if not batch:
            return v == P[0]
        if item_latex(v):
            return True
        return v[0] == "ex" and v[1] == "field" and v[3] == 0 and at_ok(v[2])

    def at_ok(v):
        return v[0] == "ex" and v[1] == "at" and v[2] in inputs.get("v", ()) and v[3] == EX("idx", SYM(call + "#0"))

    def item_latex(v):
        return v[0] == "sym" and (v[1] == P[0][1] + "[].0" or v[1].startswith("get.latex#"))

    def keys(con):
        """What `displaystyle` of a snippet is called."""
        return [k for k in con if k[0] == "sym" and (k[1] == P[0][1] + "[].1" or k[1].startswith("get.displayStyle#"))
                or k == EX("field", EX("at", P[0], EX("idx", SYM(call + "#0"))), 1)]

    def display_ok(con, v):
        if batch and v[0] == "ex" and v[1] == "field" and v[3] == 1 and at_ok(v[2]):
            return True
        if not (v[0] == "agg" and v[1].endswith("MathDisplay")):
            return False
        if batch:
            ks = keys(con)
        else:
            ks = [P[1]]
        ts = {truth(con, k) for k in ks} - {None}
        return ts == {1 if v[2] == block else 0}

    def setup(T, fn):
        T.track = True
        P.extend(SYM(l["name"]) for l in fn["locals"][2:fn["argc"] + 1] if l.get("name"))

        def on_event(st, name, vals, raw):
            if name.startswith("LatexToMathML.") and name != "LatexToMathML.new":
                n["call"] += 1
                if name != call:
                    return bad("call", "%s calls %s" % (m, name))
                if batch:
                    v = vals[1]
                    inputs.setdefault("v", set()).add(v)
                    ok = v[0] == "agg" and v[1] == "vecof" and all(x[0] == "agg" and x[1] == "tuple" and item_latex(x[3][0]) and x[3][1] == ITEM for x in v[3])
                    (ctx.ok("formulas", where) if ok else bad("latex", "the snippets which are converted are not those which were given: %s" % T.show(v)[:150]))
                else:
                    (ctx.ok("formula", where) if latex_ok(vals[1]) else bad("latex", "what is converted is not the formula which was given: %s" % T.show(vals[1])[:150]))
                    (ctx.ok("display", where) if display_ok(st.con, vals[2]) else bad("display", "the formula is converted with a display mode which is not the one asked for"))
            if name == "LatexError.to_html":
                n["html"] += 1
                if not (iserr(vals[0]) and latex_ok(vals[1])):
                    bad("html", "the HTML for an error is not that of the error and formula of the call: %s" % T.show(vals[1])[:120])
                elif not known_display(vals[2], st.con):
                    bad("html:display", "the HTML for an error is made with another display mode: %s" % T.show(vals[2])[:120])
                elif goes_on(st.con) != 1:
                    bad("html:when", "HTML is made for an error although errors are to be raised")
                else:
                    ctx.ok("html", where)
            if name in ("LatexError.to_message", "LatexError.error_message", "LatexError.to_report", "LatexError.label"):
                (ctx.ok("message", where) if iserr(vals[0]) else bad("message", "an error is described which is not that of the call"))
                for v in vals[1:]:
                    if mentions(v, lambda s: s == P[0][1] or s.startswith(P[0][1] + "[") or s.startswith("get.latex#")) and name == "LatexError.to_message":
                        (ctx.ok("message:source", where) if latex_ok(v) else bad("message:source", "an error is described with another formula: %s" % T.show(v)[:120]))

        def known_display(v, con):
            if batch and v == ITEM:
                return True
            return display_ok(con, v)

        def on_give(st, x):
            if not batch:
                return
            x0 = x[3][0] if x[0] == "agg" and x[1].endswith("Result") else x
            if x[0] == "agg" and x[1] == "tuple" and any(y[0] == "agg" and y[1].endswith("MathDisplay") for y in x[3]):
                n["item"] += 1
                if not (item_latex(x[3][0]) and disp_item(st.con, x[3][1])):
                    return bad("item", "a snippet is converted with a display mode which is not the one asked for")
                ctx.ok("item", where)
                return ("agg", "tuple", 0, (x[3][0], ITEM))         # from here on this is the display mode of the snippet
            elif mentions(x0, lambda s: s.startswith(("LatexToMathML.", "LatexError."))):
                given(st.con, x)

        def disp_item(con, v):
            ks = keys(con)
            ts = {truth(con, k) for k in ks} - {None}
            return v[0] == "agg" and ts == {1 if v[2] == block else 0}
        T.on_event, T.on_give = on_event, on_give

    def given(con, x):
        """One value which is returned."""
        raised = x[0] == "agg" and x[1].endswith("Result") and x[2] == 1
        v = bare(x[3][0] if x[0] == "agg" and x[1].endswith("Result") else x)
        k = truth(con, kind)
        if raised:
            n["raise"] += 1
            (ctx.ok("raised", where) if k == 1 and goes_on(con) == 0 else bad("raise", "an exception is raised although the conversion succeeded or the binding is to go on"))
        elif k == 0:
            n["ok"] += 1
            (ctx.ok("value", where) if v == good else bad("value", "what is returned is not what the library returned: %s" % repr(v)[:150]))
        elif k == 1:
            (ctx.ok("value", where) if v[0] == "sym" and v[1].startswith("LatexError.to_html#") and goes_on(con) == 1 else
             bad("fallback", "what is returned for an error is not its HTML: %s" % repr(v)[:150]))
        else:
            bad("undecided", "a value is returned without looking at the result of the library: %s" % repr(v)[:150])

    fn, T, paths = go(ctx, crate, m, setup=setup)
    if fn is None:
        return
    for rv, ev, pairs, con, st in paths:
        calls = [e for e in ev if e[0].startswith("LatexToMathML.")]
        locked = [e for e in ev if e[0].startswith("lock:")]
        if m != "convert_with_global_state":
            ctx.expect(not any(e[0].endswith("write") for e in locked), "lock", m, where, "%s takes the exclusive lock although it changes nothing" % m)
        isres = rv[0] == "agg" and rv[1].endswith("Result")
        failed = isres and rv[2] == 1
        lockfail = any(k[0] == "ex" and k[1] == "discr" and k[2][0] == "sym" and k[2][1].startswith("lock:") and truth(con, k) == 1 for k in con)
        if not calls:
            ctx.expect(failed and lockfail, "called", m, where, "%s can return without converting anything" % m)
            continue
        ctx.expect(len(calls) == 1, "once", m, where, "%s converts more than once" % m)
        if not batch:
            given(con, rv if isres else ("agg", "Result", 0, (rv,)))
            continue
        if failed:
            n["raise"] += 1
            ctx.expect(truth(con, kind) == 1 and goes_on(con) == 0, "raise", m, where, "an exception is raised although no conversion failed, or the binding is to go on")
            idx = EX("idx", SYM(call + "#0"))
            ctx.expect(has(rv, idx) or any(has(a, idx) for e in ev for a in e[1]), "index", m, where, "the exception does not tell which snippet failed")
            continue
        for p, msg in (("#skip", "a snippet can be left without a value"), ("#open", "the values can end before the last snippet"), ("#extra", "a snippet can give more than one value")):
            # the snippets, the results of the library
            hit = [x for x in pairs if x[0] == p and (p == "#extra" or x[1][1] in (P[0][1], "vecof", call + "#0"))]
            ctx.expect(not hit, "one" + p, m, where, msg)
        v = rv[3][0] if isres else rv
        while v[0] == "ex" and v[1].startswith("call:") and (v[1].endswith("PyList::new") or v[1].split("::")[-1] in ("from", "into")):
            v = v[-1]
        if ctx.expect(v[0] == "agg" and v[1] == "vecof", "list", m, where, "what is returned is not the list of the values: %s" % repr(v)[:120]):
            for x in v[3]:
                x = bare(x)
                ctx.expect(x == good or x[0] == "sym" and x[1].startswith("LatexError.to_html#"), "values", m, where, "a value is neither that of the library nor the HTML of an error")
    ctx.floor("calls of the library in " + where, n["call"], 1)
    ctx.floor("values of errors in " + where, n["html"], 1)
    ctx.floor("exceptions in " + where, n["raise"], 1)
    ctx.floor("values of results in " + where, n["ok"], 1)
    if batch:
        ctx.floor("snippets handed on in " + where, n["item"], 2)


def has(v, x):
    if v == x:
        return True
    return isinstance(v, tuple) and any(has(y, x) for y in v)


def reset(ctx, crate):
    fn, T, paths = go(ctx, crate, "reset_global_state")
    n = 0
    for rv, ev, pairs, con, st in paths:
        calls = [e for e in ev if e[0].startswith("LatexToMathML.")]
        if rv[0] == "agg" and rv[1].endswith("Result") and rv[2] == 1:
            continue
        n += 1
        ctx.expect([e[0] for e in calls] == ["LatexToMathML.reset_global_state"], "reset", crate, crate, "reset_global_state of the binding does not reset the state of the converter")
    ctx.floor("resets of " + crate, n, 1)
