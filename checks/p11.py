"""Where the state of a conversion comes from and goes to."""
from apirun import is_default
from apicommon import method, trace, STATE, norm
from absint import SYM

RULE = ("For every path through the conversions without state, the state which the parser is given is a freshly default-constructed one, and the labels which the writer is given "
        "are those of the same object; for the one with state, both are the converter's own; after a reset every part of the converter's state is as when it was made.")


def isstate(t):
    return t.replace("&mut ", "").replace("&", "").split("<")[0].split("::")[-1] == "GlobalState" and t.startswith("&mut")


def islabels(t):
    return t.startswith("&") and "HashMap<kstring" in t.replace(" ", "") or t.startswith("&") and "HashMap<" in t and "KString" in t


def run(ctx):
    F = ctx.F
    own = ["self." + f["name"] for f in F.adts["math_core::LatexToMathML"]["variants"][0]["fields"] if f["ty"].split("<")[0].endswith("GlobalState")]
    ctx.expect(len(own) == 1, "own", "state", "LatexToMathML", "the converter does not have one field with its state")
    fields = [f["name"] for f in F.adts[STATE]["variants"][0]["fields"]]
    ctx.floor("parts of the state", len(fields), 3)
    npar = 0
    for m in ("convert_with_local_state", "convert_all", "convert_with_global_state"):
        fn = method(ctx, m)
        if not fn:
            continue
        T, paths = trace(ctx, fn)
        ctx.floor("paths of " + m, len(paths), 3)
        ctx.expect(any(e[0].startswith("Parser::") for p in paths for e in p[1]), "parses", m, m, "%s never parses" % m)
        ctx.expect(any(e[0].startswith("Emitter::") for p in paths for e in p[1]), "writes", m, m, "%s never writes" % m)
        for rv, ev, pairs, con, st in paths:
            states, labels = [], []
            for e in ev:
                for i, a in enumerate(e[3]):
                    a = norm(a)
                    if isstate(a):
                        states.append((e, e[1][i], e[2][i]))
                    if islabels(a):
                        labels.append((e, e[1][i], e[2][i]))
            npar += len(states)
            objs = set()
            for e, v, ref in states:
                if m == "convert_with_global_state":
                    ctx.expect(v == SYM(own[0]), "state", m, m, "%s parses with a state which is not that of the converter" % m, [T.show_event(e)])
                    continue
                again = v[0] == "sym" and v[1].startswith("after:") and m == "convert_all"
                ctx.expect(is_default(v) or again, "state", m, m, "%s parses with a state which is not fresh: %s" % (m, repr(v)[:120]), [T.show_event(e)])
                ctx.expect(ref is not None and ref[1][0] != "S", "state", m + ":own", m, "%s parses with a state which outlives the call" % m, [T.show_event(e)])
                objs.add(ref)
            ctx.expect(len(objs) <= 1, "state", m + ":one", m, "%s parses with more than one state" % m)
            for e, v, ref in labels:
                if m == "convert_with_global_state":
                    ok = v[0] == "sym" and (v[1].startswith(own[0] + ".") or v[1].startswith("after:"))
                else:
                    ok = ref is not None and any(o and ref[1] == o[1] and ref[2][:len(o[2])] == o[2] for o in objs)
                ctx.expect(ok, "labels", m, m, "%s writes with labels which are not those of the state it parsed with: %s" % (m, repr(v)[:120]), [T.show_event(e)])
    ctx.floor("states given to a parser", npar, 6)
    fn = method(ctx, "reset_global_state")
    if fn:
        T, paths = trace(ctx, fn)
        ctx.floor("paths of reset_global_state", len(paths), 1)
        for rv, ev, pairs, con, st in paths:
            for i, f in enumerate(fields):
                v = T.deep(st, T.load(st, ("S", "self"), (("f", [x["name"] for x in F.adts["math_core::LatexToMathML"]["variants"][0]["fields"]].index(own[0][5:]), own[0][5:],
                                                             "math_core::LatexToMathML"), ("f", i, f, STATE))))
                ctx.expect(reset(F, v, head(F.adts[STATE]["variants"][0]["fields"][i])), "reset", f, "reset_global_state", "reset_global_state leaves %s as it is: %s" % (f, repr(v)[:150]))


def reset(F, v, ty):
    """An unknown struct of which every field has been overwritten with its default counts too."""
    if v[0] == "upd":
        fs = F.adts[ty]["variants"][0]["fields"] if ty in F.adts else []
        d = dict(v[2])
        return len(fs) > 0 and all(i in d and reset(F, d[i], head(f)) for i, f in enumerate(fs))
    return is_default(v)


def head(f):
    return f["tys"][0] if f["tys"] else f["ty"]
