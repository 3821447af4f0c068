"""A table is divided into cells and rows by what stands directly in its environment, and by nothing else."""
import re
import restore

RULE = ("The fields of the parser's state which permit separators are propagated symbolically along all paths (on which no error occurs) of every function which gives nodes back, together with what is known about the parameters "
        "that tell how a token is to be parsed and what ends a sequence. Obligations: a separator of cells (rows) is made only for the token & (\\\\), with the flag of the environment set, and for a token which stands in a sequence, "
        "not for an argument; & gives a result only then; tokens are parsed as members of a sequence only by the function which reads sequences, and with the flags off unless what ends the sequence is known to be the end of an "
        "environment or whatever ends the sequence outside; the flags are set by \\begin only, for its own content, which ends at \\end, and are put back; a sequence without an end of its own stops at a separator.")
ASSUMPTIONS = ["an error ends the conversion (P29)"]
FLAGS = {"NewColumn": "allow_columns", "NewLine": "meaningful_newlines"}
MADE = {"ColumnSeparator": "NewColumn", "RowSeparator": "NewLine"}

NO_COLUMNS = ("Equation", "EquationStar", "Gather", "GatherStar", "Gathered", "MultLine", "MultLineStar")
NO_ROWS = ("Equation", "EquationStar")


def run(ctx):
    F = ctx.F
    R = restore.Restore(F, lambda t: "error::LatexErr" in t)
    flag = {}
    for tok, n in FLAGS.items():
        ls = [p for p, ty in R.leaves.items() if p[-1] == n and ty == "bool"]
        if not ctx.expect(len(ls) == 1, "state", n, "EnvState", "the flag %s is not found: %s" % (n, sorted(R.leaves))):
            return
        flag[tok] = ls[0]
    init = {p: ("i", p) for p in R.leaves}
    nodes = columns = 0
    for f in F.local("math_core"):
        if not R.takes(f) or not (R.nodey(f) or "{closure" in f["name"]):
            continue
        args = []
        for i in range(1, f["argc"] + 1):
            ty = f["locals"][i]["ty"]
            args.append(("sym", "parse_as") if ty.endswith("::ParseAs") or ty == "ParseAs" else ("sym", "end") if ty.endswith("::SequenceEnd") or ty == "SequenceEnd" else None)
        rs = R.run(f, args, init)
        nodes += 1
        for tok, p in flag.items():
            bad = sorted({str(t) for _, l, t, con, sep, line in rs if l.get(p) != ("i", p)})
            ctx.expect(not bad, "restored", "%s %s" % (f["name"], p[-1]), f["name"], "returns with another value of %s (for %s)" % (p[-1], "/".join(bad)), key="restored:%s:%s" % (f["name"], p[-1]))
        for rv, l, tok, con, sep, line in rs:
            if tok == "NewColumn" and any(a == ("sym", "parse_as") for a in args):
                columns += 1
                ctx.expect(allowed(con, flag[tok]), "ampersand", str(sorted(con.items(), key=str)), "%s (line %s)" % (f["name"], line),
                           "& is accepted with %s and parsed as %s" % (said(con, flag[tok]), con.get(("parse_as",)) or "anything"), key="ampersand:%s" % f["name"])
    ctx.floor("functions which give nodes back", nodes, 6)
    ctx.floor("paths on which & gives a result", columns, 1)
    made = {}
    for fn, kind, tok, con, lv, line in R.built:
        where = "%s (line %s)" % (fn, line)
        made[kind] = made.get(kind, 0) + 1
        want = MADE[kind]
        key = "made:%s:%s" % (kind, fn)
        if not ctx.expect(tok == want, "made", "%s for %s" % (kind, tok), where, "a %s is made for %s" % (kind, tok or "any token"), key=key):
            continue
        ctx.expect(allowed(con, flag[want]) and lv.get(flag[want]) == ("i", flag[want]), "made", "%s %s" % (kind, sorted(con.items(), key=str)), where,
                   "a %s is made with %s, and parsed as %s" % (kind, said(con, flag[want]), con.get(("parse_as",)) or "anything"), key=key)
    for kind in MADE:
        ctx.floor("paths which make a " + kind, made.get(kind, 0), 1)
    # ---- what is parsed as a member of a sequence
    seq = {}
    for e in R.events:
        for a in e["args"] or ():
            if a == ("enum", "Sequence"):
                seq.setdefault(e["fn"], []).append(e)
    readers = set()
    for fn, es in sorted(seq.items()):
        body = next(f for f in F.local("math_core") if f["name"] == fn)
        ends = any(body["locals"][i]["ty"].endswith("SequenceEnd") for i in range(1, body["argc"] + 1))
        if ctx.expect(ends, "member", fn, fn, "a token is parsed as a member of a sequence (by %s) by a function which does not read sequences" % es[0]["callee"], key="member:%s" % fn):
            readers.add(fn)
        for e in es:
            con = e["con"]
            own = con.get(("end",)) == "AnyEndToken" or con.get(("end",)) == "EndToken" and con.get(("end:EndToken.0",)) == "End"
            for tok, p in flag.items():
                v = e["lv"].get(p)
                ctx.expect(v == ("b", False) or own and v == ("i", p), "group", "%s %s" % (p[-1], sorted((str(k), str(x)) for k, x in con.items())), "%s (line %s)" % (fn, e["line"]),
                           "%s is %s while the content of %s is parsed, which is not the environment itself" % (p[-1], "unchanged" if v == ("i", p) else str(v), con.get(("end:EndToken.0",)) or con.get(("end",)) or "a sequence with any end"),
                           key="group:%s:%s" % (fn, p[-1]))
            if e["sep"]:
                ctx.expect(con.get(("end",)) not in (None, "AnyEndToken") or con.get(("end",)) is None and e["lv"].get(flag["NewColumn"]) == ("b", False), "stops", "%s %s" % (fn, con.get(("end",))), "%s (line %s)" % (fn, e["line"]),
                           "the sequence goes on behind a separator, although it has no end of its own", key="stops:%s" % fn)
    ctx.floor("functions which read sequences", len(readers), 1)
    ctx.floor("calls for members of a sequence", sum(map(len, seq.values())), 8)
    # ---- the flags of an environment
    begins = own = 0
    for e in R.events:
        where = "%s (line %s)" % (e["fn"], e["line"])
        inst = "%s -> %s for %s" % (e["fn"], e["callee"].split("::")[-1], e["tok"])
        if e["fn"] in readers:
            continue
        for tok, p in flag.items():
            v = e["lv"].get(p)
            if e["tok"] == "Begin":
                begins += 1
                ctx.expect(v is not None and (v[0] == "fresh" or v == ("b", False)), "environment", inst + p[-1], where, "the content of an environment is parsed with %s %s" % (p[-1], "of the environment outside" if v == ("i", p) else "which is not its own"), key="environment:%s" % p[-1])
            else:
                ctx.expect(v in (("i", p), ("b", False)), "outside", inst + p[-1], where, "%s is changed to %s while something in %s is parsed" % (p[-1], "another value" if v is None else v[1], e["tok"]), key="outside:%s:%s" % (e["fn"], e["tok"]))
        ends = [a for a in e["args"] or () if a in (("enum", "AnyEndToken"), ("enum", "EndToken"))]
        if ("enum", "AnyEndToken") in ends:
            own += 1
            # the end of what is outside: only for something which stands in a sequence itself, not for an argument
            ctx.expect(("sym", "parse_as") in (e["args"] or ()) or member(e["con"]), "open end", inst, where, "a sequence which ends where the one outside ends is parsed without regard to what the token is parsed as", key="open end:%s:%s" % (e["fn"], e["tok"]))
        if ("sym", "end") in (e["args"] or ()):
            ctx.expect(member(e["con"]), "open end", "%s %s" % (inst, e["con"].get(("parse_as",))), where, "a sequence whose end is left to the caller is parsed for %s" % (e["con"].get(("parse_as",)) or "anything, an argument too"), key="open end:%s" % e["fn"])
    ctx.floor("calls for the content of an environment", begins, 4)
    ctx.floor("sequences which end with the one outside", own, 1)
    environments(ctx, R)
    ctx.counts["states"] = R.steps
    ctx.counts["calls which parse a part"] = len(R.events)


def allowed(con, p):
    return con.get(("i",) + p) is True and con.get(("parse_as",)) == "Sequence"


def member(con):
    return con.get(("parse_as",)) in ("Sequence", "ContinueSequence")


def said(con, p):
    v = con.get(("i",) + p)
    return "%s %s" % (p[-1], "not tested" if v is None else "set" if v else "not set")


def environments(ctx, R):
    """Which environments are divided at all: known from LaTeX."""
    from absint import Interp, State, AGG
    F = ctx.F
    env = [k for k in F.adts if k.endswith("::Env") and k.startswith("math_core::")]
    makers = [f for f in F.local("math_core") if f["argc"] == 1 and f["locals"][1]["ty"].endswith("Env") and re.search(r"\bEnvState<", f["locals"][0]["ty"]) and not f["locals"][0]["ty"].startswith("&")]
    if not ctx.expect(len(env) == 1 and makers, "environments", "maker", "Env", "no function makes the state of an environment"):
        return
    names = [x["name"] for x in F.adts[R.ES]["variants"][0]["fields"]]
    n = 0
    for f in makers:
        for i, v in enumerate(F.adts[env[0]]["variants"]):
            I = Interp(F)
            rs = [I.deref_all(s, rv) for rv, s in I.run(f, [AGG(env[0], i, ())], State())]
            for tok, p in FLAGS.items():
                want = v["name"].rstrip("*") not in (NO_COLUMNS if tok == "NewColumn" else NO_ROWS)
                got = {r[3][names.index(p)] for r in rs}
                n += 1
                ctx.expect(got == {("c", int(want))}, "environments", "%s %s" % (v["name"], p), f["name"], "%s of the environment %s is %s" % (p, v["name"], got), key="environments:%s:%s" % (v["name"], p))
    ctx.floor("flags of environments", n, 40)
