"""Nesting is limited and no recursion is unbounded."""
import sct
import reach
from absint import SYM, C, EX, Budget
from apirun import Trace
from facts import norm
from clicommon import truth, variant

CRATES = ("math_core", "math_core_renderer_internal")
RULE = ("All cycles of the call graph of the library (calls, closures, function values) are computed. A cycle is in order if the size-change principle shows that each round works on a proper part of the finite data "
        "of the round before (a dataflow analysis of which part of which parameter is passed on), or if each round passes a function which has taken one from a counter of remaining levels, having found it not to be zero, "
        "and which leaves the counter as it was when it succeeds (path-sensitive abstract interpretation of that function). Nothing else may write the counter, which must start at 255 or less.")
ASSUMPTIONS = ["the stack suffices for 255 nested constructs"]
LIMIT = 255


def cycles(F):
    G = reach.Graph(F)
    nodes = [f["key"] for f in F.fns.values() if f["crate"] in CRATES]
    out = {k: {g["key"] for g, c, kind, bi in G.out(k) if g is not None and kind not in ("via", "impl")} for k in nodes}
    index, low, on, st, res, n = {}, {}, set(), [], [], [0]

    for root in nodes:
        if root in index:
            continue
        work = [(root, None)]
        while work:
            v, it = work.pop()
            if it is None:
                index[v] = low[v] = n[0]
                n[0] += 1
                st.append(v)
                on.add(v)
                it = iter(sorted(out.get(v, ())))
            done = True
            for w in it:
                if w not in index:
                    work.append((v, it))
                    work.append((w, None))
                    done = False
                    break
                if w in on:
                    low[v] = min(low[v], low[w])
            if not done:
                continue
            for w in out.get(v, ()):
                if w in on:
                    low[v] = min(low[v], low[w])
            if low[v] == index[v]:
                c = set()
                while True:
                    w = st.pop()
                    on.discard(w)
                    c.add(w)
                    if w == v:
                        break
                if len(c) > 1 or v in out.get(v, ()):
                    res.append(c)
    return res, out, len(nodes)


def proj_field(p):
    """The last field of a place: (type, field)."""
    fs = [e for e in p[1] if e[0] == "f"]
    if p[1] and p[1][-1][0] == "f" and len(fs[-1]) > 3:
        return (str(fs[-1][3]), fs[-1][2])
    return None


def writes(fn):
    """(type, field) which a function assigns or borrows mutably."""
    out = set()
    for b in fn["blocks"]:
        for s in b["st"]:
            if s["s"] == "=":
                out.add(proj_field(s["p"]))
                rv = s["rv"]
                if rv["r"] in ("ref", "rawptr") and rv.get("mut"):
                    out.add(proj_field(rv["p"]))
        t = b["term"]
        if t["t"] == "call":
            out.add(proj_field(t["dest"]))
    return out - {None}


def counts_down(fn, field):
    """Is something subtracted from the field?"""
    ls = set()
    for b in fn["blocks"]:
        for s in b["st"]:
            if s["s"] == "=" and s["rv"]["r"] == "use" and s["rv"]["o"]["k"] in ("copy", "move") and proj_field(s["rv"]["o"]["p"]) == field:
                ls.add(s["p"][0])
    for b in fn["blocks"]:
        for s in b["st"]:
            if s["s"] == "=" and s["rv"]["r"] == "bin" and s["rv"]["op"].startswith("Sub"):
                a = s["rv"]["a"]
                if a["k"] in ("copy", "move") and (a["p"][0] in ls or proj_field(a["p"]) == field):
                    return True
        t = b["term"]
        if t["t"] == "call" and "sub" in str(t.get("c", {}).get("name", "")).split("::")[-1]:
            for a in t["args"]:
                if a["k"] in ("copy", "move") and (a["p"][0] in ls or proj_field(a["p"]) == field):
                    return True
    return False


def builds(fn):
    return {str(s["rv"].get("adt")) for b in fn["blocks"] for s in b["st"] if s["s"] == "=" and s["rv"]["r"] == "agg" and s["rv"].get("ak") == "adt"}


def run(ctx):
    F = ctx.F
    sccs, out, n = cycles(F)
    ctx.counts["functions in the call graph"] = n
    ctx.floor("functions in the call graph", n, 300)
    kinds = {"structural": 0, "counted": 0}
    for c in sorted(sccs, key=lambda c: sorted(c)):
        if all(":constant#" in k or "{constant" in k or "eytzingerise" in F.fns[k]["name"] for k in c):
            continue            # only ever evaluated by the compiler
        names = sorted(F.fns[k]["name"] for k in c)
        es = sct.edges(F, c)
        bad = sct.terminates(es)
        have = {(a, b) for a, b, x, w in es}
        if bad is None and all((a, b) in have for a in c for b in out[a] & c):
            kinds["structural"] += 1
            for a, b, x, w in es:
                ctx.ok("recursion on a part", "%s -> %s" % (F.fns[a]["name"], F.fns[b]["name"]))
            continue
        kinds["counted"] += 1
        counted(ctx, c, out, names)
    for k, v in kinds.items():
        ctx.floor("cycles: " + k, v, 1)


def intfields(F, c):
    """Integer fields of the types of the workspace."""
    out = set()
    for a, d in F.adts.items():
        if d.get("crate", a.split("::")[0]) in CRATES or a.split("::")[0] in CRATES:
            for v in d["variants"]:
                for f in v["fields"]:
                    if f["ty"] in ("u8", "u16", "u32", "u64", "usize"):
                        out.add((a, f["name"]))
    return out


def holder(F, ty, field, depth=3):
    """The path of fields to (type, field) from a value of type ty."""
    a = ty.lstrip("&").replace("mut ", "").strip().split("<")[0]
    a = [k for k in F.adts if k == a or k.endswith("::" + a)]
    for k in a:
        if k.split("::")[0] not in CRATES or len(F.adts[k]["variants"]) != 1:
            continue
        fs = F.adts[k]["variants"][0]["fields"]
        for i, f in enumerate(fs):
            if k.endswith(field[0]) or field[0].endswith(k):
                if f["name"] == field[1]:
                    return (("f", i, f["name"]),)
        if depth:
            for i, f in enumerate(fs):
                r = holder(F, f["ty"], field, depth - 1)
                if r:
                    return (("f", i, f["name"]),) + r
    return None


def counted(ctx, c, out, names):
    F = ctx.F
    where = min((F.fns[k] for k in c), key=lambda f: f["name"])["name"]
    # functions outside of the cycle which it can call
    helpers, work = set(), [g for k in c for g in out[k] if g not in c]
    while work:
        k = work.pop()
        if k not in helpers:
            helpers.add(k)
            work += [g for g in out.get(k, ()) if g not in c]
    ints = intfields(F, c)
    cands = {}
    for k in c | helpers:
        for w in writes(F.fns[k]):
            if w in ints:
                cands.setdefault(w, set()).add(k)
    best = None
    for field, ws in sorted(cands.items(), key=lambda x: (len(x[1]), x[0])):
        if best is not None and not best[1][1]:
            break
        if not any(counts_down(F.fns[k], field) for k in c | helpers):
            continue
        r = guards(ctx, c, out, field, ws, helpers)
        if r and r[0] and (best is None or (len(r[1]), -len(r[0])) < (len(best[1][1]), -len(best[1][0]))):
            best = (field, r)
    if best is None:
        return ctx.fail("unbounded:" + where, where, "calls itself without an end: neither does each round work on a part of the data of the round before nor does a counter bound the number of rounds", names)
    field, (gs, problems) = best
    for key, w, msg, d in problems:
        ctx.fail("%s:%s" % (key, w), w, msg, d)
    # without the guarded calls there is no cycle left
    left = {k: {g for g in out[k] if g in c} if k not in gs else set() for k in c}
    state = {}

    def visit(k, path):
        state[k] = 1
        for g in sorted(left[k]):
            if state.get(g) == 1:
                i = path.index(g) if g in path else 0
                ctx.fail("unguarded:" + F.fns[g]["name"], F.fns[g]["name"], "calls itself without passing the limit of the nesting depth",
                         ["the cycle: " + " -> ".join(F.fns[x]["name"] for x in path[i:] + [g])])
            elif g not in state:
                visit(g, path + [g])
        state[k] = 2
    for k in sorted(c):
        if k not in state:
            visit(k, [k])
    for k in sorted(gs):
        ctx.ok("guarded", F.fns[k]["name"])
    for k in sorted(c - gs):
        ctx.ok("passes a guard", F.fns[k]["name"])
    start(ctx, field)


def start(ctx, field):
    """What the counter starts with."""
    F = ctx.F
    n = 0
    for f in F.fns.values():
        if f["crate"] not in CRATES:
            continue
        for b in f["blocks"]:
            for s in b["st"]:
                if s["s"] == "=" and s["rv"]["r"] == "agg" and s["rv"].get("ak") == "adt" and (str(s["rv"]["adt"]).endswith(field[0]) or field[0].endswith(str(s["rv"]["adt"]))):
                    i = s["rv"]["fn"].index(field[1])
                    o = s["rv"]["fs"][i]
                    v = o.get("val", {}).get("i") if o["k"] == "const" else None
                    if v is None and o["k"] in ("copy", "move") and not o["p"][1]:
                        vs = [x["rv"]["o"].get("val", {}).get("i") for y in f["blocks"] for x in y["st"] if x["s"] == "=" and x["p"] == [o["p"][0], []] and x["rv"]["r"] == "use" and x["rv"]["o"]["k"] == "const"]
                        v = vs[0] if len(vs) == 1 else None
                    n += 1
                    ctx.expect(v is not None and int(v) <= LIMIT, "limit", f["name"], f["name"], "the nesting depth is not limited to %d levels (%s)" % (LIMIT, v))
    ctx.floor("places where the limit is set", n, 1)


def guards(ctx, c, out, field, ws, helpers):
    """(functions which count, problems) or None if the field is no such counter at all."""
    F = ctx.F
    writers = set(ws)
    ch = True
    reachw = set(ws)
    while ch:
        ch = False
        for k in c | helpers:
            if k not in reachw and any(g in reachw and g not in c for g in out.get(k, ())):
                reachw.add(k)
                ch = True
    gs, problems = set(), []
    good = False
    for k in sorted(reachw & c):
        fn = F.fns[k]
        path = holder(F, fn["locals"][1]["ty"], field) if fn["argc"] else None
        if path is None:
            problems.append(("counter", fn["name"], "changes the counter in a way which is not understood", ()))
            continue
        ok, why = guard(ctx, c, fn, path, field, reachw)
        if ok:
            gs.add(k)
            good = True
        if why:
            problems.append(("counter", fn["name"], why[0], why[1:]))
            good = good or ok is not None
    for k in sorted((reachw & helpers) - ws):
        pass
    return (gs, problems) if good else None


def guard(ctx, c, fn, path, field, reachw):
    """Does this function take one from the counter before it calls a function of the cycle, and restore it?"""
    F = ctx.F
    if len(fn["blocks"]) > 600:
        return None, ("changes the counter of levels, but is too large to see how",)

    def boundary(callee, names, body):
        return "rec:" + body["name"].split("::")[-1] if body is not None and body["key"] in c else None
    T = Trace(F, boundary, budget=150_000)
    sym = SYM("self." + ".".join(str(e[2]) for e in path))
    last = "." + ".".join(str(e[2]) for e in path)
    state = {"dec": 0, "bad": None, "calls": 0}

    def value(st):
        v = T.load(st, ("S", "self"), path)
        return T.deep(st, v)

    def same(st, v):
        """The value which the counter had at the last call of the cycle."""
        if v[0] == "sym" and v[1].endswith(last) and v[1].startswith("after:rec:"):
            return True
        if v[0] == "sym" and v[1].endswith(last) and v[1].startswith("?havoc:"):
            n = v[1][7:].split("@")[0]
            return not any(F.fns[k]["name"].split("::")[-1] == n.split(":")[-1].split("::")[-1] for k in reachw)
        return False

    def less(st, v):
        """Is it one less than at the beginning, which was not zero?"""
        con = st.con
        if v[0] == "sym" and v[1].endswith("@Some.0"):
            return False
        sub = EX("call:num::checked_sub", sym, C(1))
        if v == EX("field", sub, "Some.0") or (v[0] == "ex" and v[1] == "field" and v[2] == sub):
            return variant(con, sub) == 1
        if v[0] == "ex" and v[1] in ("Sub", "sub") and v[2:4] == (sym, C(1)):
            for k in con:
                t = truth(con, k)
                if k == sym and (t not in (None, 0) or con[k][0] == "!" and 0 in con[k][1]):
                    return True
                if k[0] == "ex" and len(k) == 4 and {k[2], k[3]} == {sym, C(0)}:
                    if (k[1] == "Eq" and t == 0) or (k[1] == "Ne" and t == 1) or (k[1] == "Gt" and k[2] == sym and t == 1) or (k[1] == "Lt" and k[3] == sym and t == 1) or (k[1] == "Le" and k[2] == sym and t == 0):
                        return True
            if con.get(sym) and con[sym][0] == "!" and 0 in con[sym][1]:
                return True
        return False

    def on_event(st, name, vals, raw):
        state["calls"] += 1
        v = value(st)
        if less(st, v):
            state["dec"] += 1
        elif v == sym:
            state["bad"] = state["bad"] or ("calls %s without having taken one from the counter of levels" % name[4:], "the counter: " + T.show(v))
        elif not same(st, v):
            state["bad"] = state["bad"] or ("calls %s with a counter of levels which is not one less" % name[4:], "the counter: " + T.show(v))
    T.on_event = on_event
    try:
        paths = T.go(fn)
    except Budget:
        return None, ("changes the counter of levels, but has too many paths to see how",)
    for rv, ev, pairs, con, st in paths:
        if rv[0] == "agg" and rv[1].endswith("Result") and rv[2] == 1:
            continue                     # the whole formula is rejected
        v = value(st)
        if v[0] == "ex" and v[1] == "Add" and v[3] == C(1) and (less(st, v[2]) or same(st, v[2])):
            continue
        if v != sym and not (v[0] == "sym" and state["calls"] and same(st, v) and not state["dec"]):
            state["bad"] = state["bad"] or ("leaves the counter of levels changed", "the counter: " + T.show(v))
    ctx.counts["paths through " + fn["name"].split("::")[-1]] = state["calls"]
    if not state["dec"]:
        return None, state["bad"] and ("changes the counter of levels without counting: " + state["bad"][0],) + state["bad"][1:]
    return state["bad"] is None, state["bad"]
