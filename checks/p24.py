"""Everything outside of formulas is copied as it is."""
from absint import SYM, AGG, C, EX, mentions
from seqcopy import Copy, slice_of, same, diff, add, subst, tolin
from facts import norm
from clicommon import truth, variant

RULE = ("The function which replaces the formulas of a file is interpreted with symbolic text and positions (linear expressions). Wherever it looks for the next formula, and where it returns, the pieces which were "
        "written since the last time must be exactly: the text up to the opening delimiter, what the converter gave for the text between the delimiters (entities decoded) and its display mode; "
        "the search must go on directly after the closing delimiter. By induction over the formulas the output is the text with each formula replaced. "
        "Likewise for the decoding of entities: each piece between entities is copied, each entity gives its character or itself.")
POS, COPIED = SYM("position"), SYM("copied")
CRATE = "mathcore"


def finder(body):
    return "MathDisplay, usize" in body["locals"][0]["ty"] and body["argc"] == 3


def boundary(c, names, body):
    n = names[0] or ""
    if body is None:
        if n.endswith(("Fn::call", "FnMut::call_mut", "FnOnce::call_once")):
            return "convert"
        return None
    if body["crate"] != CRATE or body["kind"] == "Closure":
        return None
    if finder(body):
        return "find"
    if body["locals"][0]["ty"].startswith("&") and body["argc"] == 2 and "String" in body["locals"][1]["ty"] and "str" in body["locals"][2]["ty"] and "entit" in body["name"]:
        return "decode"
    return None


def run(ctx):
    F = ctx.F
    fs = [f for f in F.fns.values() if f["crate"] == CRATE and norm(f.get("self_ty") or "").split("<")[0].endswith("Replacer") and f["kind"] != "Closure"
          and "String" in f["locals"][0]["ty"] and "Result" in f["locals"][0]["ty"]]
    fs.sort(key=lambda f: "closure@" in f["locals"][f["argc"]]["ty"])
    if ctx.expect(len({f["name"] for f in fs}) == 1, "api", "replace", CRATE, "the function which replaces the formulas of a file was not found"):
        lens = lengths(ctx)
        if lens:
            replace(ctx, fs[0], lens)
    ds = {}
    for f in F.fns.values():
        for b in f["blocks"]:
            t = b["term"]
            if t["t"] == "call" and "c" in t:
                g = F.callee_body(t["c"])
                if g is not None and boundary(t["c"], (norm(t["c"].get("name")), ""), g) == "decode":
                    ds[g["key"]] = g
    if ctx.expect(len(ds) == 1, "api", "decode", CRATE, "the function which decodes entities was not found"):
        decode(ctx, list(ds.values())[0])


def lengths(ctx):
    """{(opening?, display): symbols} of the lengths of the delimiters, from the constructor."""
    fs = [f for f in ctx.F.fns.values() if f["crate"] == CRATE and norm(f.get("self_ty") or "").split("<")[0].endswith("Replacer") and f["locals"][0]["ty"].split("<")[0].endswith("Replacer")]
    if not ctx.expect(len(fs) == 1, "api", "new", CRATE, "the constructor of the replacer was not found"):
        return None
    fn = fs[0]
    T = Copy(ctx.F, lambda c, n, b: None, budget=50_000)
    out = {}
    pairs = [fn["locals"][i].get("name") for i in range(1, 3)]
    ctx.counts["constructor"] = fn["name"]
    for rv, ev, ps, con, st in T.go(fn):
        fields = {}
        if rv[0] == "agg":
            names = [f["name"] for f in ctx.F.adts[rv[1]]["variants"][0]["fields"]]
            fields = dict(zip(names, rv[3]))
        for name, v in fields.items():
            for sub, x in ([(".%d" % i, y) for i, y in enumerate(v[3])] if v[0] == "agg" and v[1] == "tuple" else [("", v)]):
                if x[0] == "ex" and x[1] == "len":
                    for d, p in enumerate(pairs):
                        for o in (0, 1):
                            if x[2] == SYM("%s.%d" % (p, o)):
                                out.setdefault((o == 0, d), set()).add(SYM("self.%s%s" % (name, sub)))
    ctx.expect(len(out) == 4, "lengths", "new", fn["name"], "the lengths of the delimiters are not kept: %s" % sorted(out))
    return out if len(out) == 4 else None


def replace(ctx, fn, lens):
    where = fn["name"]
    vs = [v["name"] for v in ctx.F.adts["math_core::MathDisplay"]["variants"]]
    kinds = {vs.index("Inline"): 0, vs.index("Block"): 1}
    text = [i for i in range(1, fn["argc"] + 1) if fn["locals"][i]["ty"].startswith("&") and fn["locals"][i]["ty"].endswith("str")]
    if not ctx.expect(len(text) == 1, "api", "text", where, "the text of the file was not found"):
        return
    inp = SYM("input")
    T = Copy(ctx.F, boundary, budget=400_000)
    T.int_cap = 0
    n = {"head": 0, "formula": 0, "end": 0, "error": 0}

    def bad(key, msg, st=None):
        ctx.fail("replace:" + key, where, msg, ["on the path with: " + ", ".join("%s = %s" % (T.show(k)[:70], c) for k, c in st.con.items())] if st is not None else ())

    def out(st):
        bs = [(o, v) for o, v in st.mem.items() if isinstance(v, tuple) and v and v[0] == "s" and isinstance(o[0], int)]
        return bs[0] if len(bs) == 1 else (None, None)

    def parts(v):
        return [p[1] if p[0] == "hole" else ("lit", p[1]) for p in v[1]]

    def display(con, name):
        """The kind of delimiter which a search found."""
        v = SYM(name + "@Some.0.0")
        for k in con:
            if k[0] == "ex" and k[1] == "discr" and k[2] == v:
                return kinds.get(truth(con, k))
        return None

    def sought(st, name):
        return st.mem.get(("X", name))

    def cover(st, ps, cur):
        """Up to which position these pieces are the replaced text, starting from `cur`."""
        for p in ps:
            if cur is None:
                return "a piece is written after the end of the text"
            if p[0] == "lit":
                return "%r is added to the text" % (p[1],)
            if p[0] == "ex" and p[1] == "formula":
                content, kind, opener, closer = p[2], p[3], p[4][1], p[5][1]
                t, a, b = slice_of(content)
                if t != inp or b is None:
                    return "a formula is not a piece of the text"
                ko = p[6][1]
                kc = p[7][1]
                if ko is None or not any(same(a, add(cur, x)) for x in lens[(True, ko)]):
                    return "the content of a formula does not begin directly after its opening delimiter, or the text before it is not written"
                if kc is None:
                    return "the kind of a closing delimiter is not looked at"
                cur = [add(b, x) for x in sorted(lens[(False, kc)])][0]
                cand = lens[(False, kc)]
                continue
            t, a, b = slice_of(p)
            if t != inp:
                return "%s is written, which is not a piece of the text" % T.show(p)[:80]
            if not same(a, cur):
                return "what is written next does not begin where the last piece or formula ended (%s, not %s)" % (T.show(a), T.show(cur))
            cur = b
        return ("upto", cur)

    def start(ps):
        return (ps[1:], POS) if ps and ps[0] == COPIED else (ps, C(0))

    def on_event(st, name, vals, raw):
        con = st.con
        me = T.current
        if name == "find":
            t, a, b = slice_of(vals[1])
            st.mem.pop(("X", me), None)
            opening = truth({0: ("=", vals[2][1])} if vals[2][0] == "c" else {}, 0)
            if opening == 1 and t == inp and b is None:
                head(st, a)
                if a[0] != "c":
                    vals = [vals[0], EX("piece", inp, POS, None), vals[2]]
            st.mem[("X", me)] = AGG("search", 0, (vals[1], vals[2]))
        if name == "decode":
            st.mem[("X", me)] = AGG("decoded", 0, (vals[1],))
        if name == "convert":
            formula(st, vals, raw)

    def head(st, p):
        """Before the search for the next formula."""
        n["head"] += 1
        o, v = out(st)
        if v is None:
            return bad("output", "the output was not found", st)
        ps, cur = start(parts(v))
        r = cover(st, ps, cur)
        if isinstance(r, str):
            bad("copy", r, st)
        elif r[1] is None or not same(r[1], p):
            bad("resume", "the search for the next formula does not go on where the last piece or formula ended", st)
        else:
            ctx.ok("text before a formula and formula", where)
        # from here on `p` is called "position", and everything older is forgotten
        dead = SYM("?dead")
        for k, x in list(st.mem.items()):
            if k[0] == "X":
                del st.mem[k]
                continue
            x = subst(x, p, POS) if p[0] != "c" else x
            if k[0] != "S":
                x = kill(x, dead)
            st.mem[k] = x
        for k in [k for k in st.con if mentions(k, lambda s: s.startswith(("find#", "decode#", "convert#", "position", "?dead")))]:
            del st.con[k]
        if p[0] != "c":
            st.mem[o] = ("s", (("hole", COPIED, frozenset(), ""),))

    def kill(x, dead):
        if not isinstance(x, tuple) or not x:
            return x
        if x[0] == "sym" and x[1].startswith(("find#", "decode#", "convert#")):
            return dead
        if x[0] == "ex" and x[1] in ("lin", "piece") and mentions(x, lambda s: s.startswith(("find#", "decode#", "convert#"))):
            return dead
        return tuple(kill(y, dead) if isinstance(y, tuple) else y for y in x)

    def formula(st, vals, raw):
        n["formula"] += 1
        con = st.con
        tup = raw[1] if raw[1][0] == "agg" else None
        if tup is None:
            return bad("call", "the converter is called in an unknown way", st)
        v = vals[1][3]
        bufs = [x for x in tup[3] if x[0] == "ref" and T.deref_all(st, x)[0] == "s"]
        content = [sought(st, x[1])[3][0] for x in v if x[0] == "sym" and sought(st, x[1]) and sought(st, x[1])[1] == "decoded"]
        if not content:
            content = [x for x in v if x[0] == "ex" and x[1] == "piece"]
            if content:
                return bad("decode", "a formula is converted without decoding its entities", st)
        if len(content) != 1 or len(bufs) != 1:
            return bad("content", "what is converted is not a piece of the text", st)
        content = content[0]
        t, a, b = slice_of(content)
        searches = {k[1]: x[3] for k, x in st.mem.items() if k[0] == "X" and x[1] == "search"}
        opener = [s for s, (w, o) in searches.items() if o == C(1) and any(k in tolin(a) for k in (SYM(s + "@Some.0.1"),))]
        closer = [s for s, (w, o) in searches.items() if o == C(0) and b is not None and SYM(s + "@Some.0.1") in tolin(b)]
        if t != inp or len(opener) != 1 or len(closer) != 1:
            return bad("content", "the formula does not reach from an opening to a closing delimiter", st)
        o, c = opener[0], closer[0]
        ko, kc = display(con, o), display(con, c)
        if variant(con, SYM(o)) != 1 or variant(con, SYM(c)) != 1:
            bad("found", "a formula is converted although its delimiters were not found", st)
        w = slice_of(searches[c][0])
        if not (w[0] == inp and same(w[1], a) and w[2] is None):
            bad("closing", "the closing delimiter is not searched from the beginning of the formula on", st)
        if not same(b, add(a, SYM(c + "@Some.0.1"))):
            bad("end", "the formula does not end at its closing delimiter", st)
        inner = [s for s, (w, f) in searches.items() if f == C(1) and w == content and variant(con, SYM(s)) == 0]
        if not inner:
            bad("nested", "a formula is converted although it may contain another opening delimiter", st)
        shared = [k for k in con if k[0] == "sym" and k[1].startswith("self.") and truth(con, k) == 1]
        if kc is None and shared:
            kc = None
        def both(k):
            return k[0] == "ex" and mentions(k, lambda s: s == o + "@Some.0.0") and mentions(k, lambda s: s == c + "@Some.0.0")
        equal = [k for k in con if both(k) and truth(con, k) == (0 if k[1].endswith(("::ne", "Ne")) else 1 if k[1].endswith(("::eq", "Eq")) else None)]
        if not (shared or ko is not None and ko == kc or equal):
            bad("mismatch", "a formula is converted although its delimiters may be of different kinds", st)
        disp = [x for x in v if x[0] == "agg" and x[1].endswith("MathDisplay") or x == SYM(o + "@Some.0.0")]
        ok = len(disp) == 1 and (disp[0] == SYM(o + "@Some.0.0") or ko is not None and kinds.get(disp[0][2]) == ko)
        (ctx.ok("display mode", where) if ok else bad("display", "a formula is converted with a display mode which is not that of its opening delimiter", st))
        ctx.ok("formula", where)
        ref = bufs[0]
        s = T.deref_all(st, ref)
        hole = EX("formula", content, C(0), ("n", o), ("n", c), ("n", ko), ("n", kc))
        T.store(st, ref[1], ref[2], ("s", s[1] + (("hole", hole, frozenset(), ""),)), fn, 0)

    T.on_event = on_event
    names = {text[0]: "input"}
    for rv, ev, pairs, con, st in T.go(fn, names):
        if rv[0] == "agg" and rv[1].endswith("Result") and rv[2] == 1:
            n["error"] += 1
            why = [k for k in con if k[0] == "ex" and k[1] == "discr" and k[2][0] == "sym" and (
                k[2][1].startswith("convert#") and truth(con, k) == 1 or k[2][1].startswith("find#") and "@" not in k[2][1] and truth(con, k) == (1 if (sought(st, k[2][1]) or AGG("", 0, (0, C(0))))[3][1] == C(1) and slice_of(sought(st, k[2][1])[3][0])[2] is not None else 0))]
            unequal = [k for k in con if k[0] == "ex" and len(k) == 4 and all(mentions(x, lambda s: s.startswith("find#")) for x in k[2:]) and
                       truth(con, k) == (1 if k[1].endswith(("::ne", "Ne")) else 0 if k[1].endswith(("::eq", "Eq")) else None)]
            ds = [display(con, "find#%d" % i) for i in range(3)]
            if not why and not unequal and len({d for d in ds if d is not None}) < 2:
                bad("error", "a text is rejected without a reason", st)
            else:
                ctx.ok("rejected for a reason", where)
            continue
        n["end"] += 1
        v = rv[3][0] if rv[0] == "agg" and rv[3] else None
        if v is None or v[0] != "s":
            bad("result", "what is returned is not the output: %s" % T.show(rv)[:80], st)
            continue
        ps, cur = start(parts(v))
        r = cover(st, ps, cur)
        if isinstance(r, str):
            bad("copy", r, st)
        elif r[1] is not None:
            # the end of the text was reached
            done = [k for k in con if k[0] == "ex" and k[1] in ("Lt", "Le", "Gt", "Ge", "Eq") and EX("len", inp) in k]
            ok = r[1] == C(0) and truth(con, EX("len", inp)) == 0 or any(k[1] == "Lt" and same(k[2], r[1]) and truth(con, k) == 0 or k[1] == "Ge" and same(k[2], r[1]) and truth(con, k) == 1 or
                     k[1] == "Le" and same(k[3], r[1]) and truth(con, k) == 1 or k[1] == "Gt" and same(k[3], r[1]) and truth(con, k) == 0 or
                     k[1] == "Eq" and (same(k[2], r[1]) or same(k[3], r[1])) and truth(con, k) == 1 for k in done)
            (ctx.ok("end of the text", where) if ok else bad("rest", "the end of the text is not written", st))
        else:
            ctx.ok("end of the text", where)
    for k, least in (("head", 2), ("formula", 1), ("end", 2), ("error", 3)):
        ctx.floor("states: " + k, n[k], least)


def seeks(c, names, body):
    n = names[1] or names[0] or ""
    if body is None:
        if n.endswith("memchr::memchr") or n.endswith("str::find") or n.endswith("Iterator::position") or (names[0] or "").endswith("Iterator::position"):
            return "seek"
        if n.endswith("Map::get") and "phf" in n:
            return "lookup"
    return None


def decode(ctx, fn):
    where = fn["name"]
    T = Copy(ctx.F, seeks, budget=400_000)
    T.int_cap = 0
    inp = SYM("input")
    n = {"head": 0, "entity": 0, "end": 0}
    maps = set()

    def bad(key, msg, st=None):
        ctx.fail("decode:" + key, where, msg, ["on the path with: " + ", ".join("%s = %s" % (T.show(k)[:70], c) for k, c in st.con.items())] if st is not None else ())

    def char(v, st):
        """The character which is sought."""
        if v[0] == "c":
            return v[1]
        if v[0] == "agg" and v[1].startswith("closure:"):
            for k in ctx.F.byid.get(v[1].split("closure:")[1].split("<")[0], ()):
                g = ctx.F.fns[k]
                t2 = Copy(ctx.F, lambda *a: None, budget=20_000)
                rs = {r[0] for r in t2.go(g, {2: "byte"})}
                if len(rs) == 1:
                    r = rs.pop()
                    if r[0] == "ex" and r[1] == "Eq":
                        cs = [x[1] for x in r[2:] if x[0] == "c"]
                        if len(cs) == 1 and any(x[0] == "sym" and x[1].startswith("byte") for x in r[2:]):
                            return cs[0]
        return None

    def text(v):
        while v[0] == "agg" and v[1] == "iter":
            v = v[3][0]
        return v

    def parts(st):
        v = st.mem.get(("S", "buffer"))
        return [p[1] if p[0] == "hole" else ("lit", p[1]) for p in v[1]] if v and v[0] == "s" else None

    def cover(st, ps, cur):
        for p in ps:
            if cur is None:
                return "a piece is written after the end of the text"
            if p[0] == "lit":
                return "%r is added to the text" % (p[1],)
            look = [k[1] for k, x in st.mem.items() if k[0] == "X" and x[1] == "lookup" and mentions(p, lambda s: s.startswith(k[1] + "@Some.0"))]
            if look:
                # the character of an entity
                t, a, b = slice_of(st.mem[("X", look[0])][3][0])
                if t != inp or b is None or not same(a, add(cur, C(1))):
                    return "the name of an entity does not begin directly after the ampersand"
                if not any(k[0] == "X" and x[1] == "seek" and x[3][0] == C(59) and variant(st.con, SYM(k[1])) == 1 and same(b, add(slice_of(x[3][1])[1], SYM(k[1] + "@Some.0"))) and same(slice_of(x[3][1])[1], a)
                           for k, x in st.mem.items()):
                    return "the name of an entity does not end at the next semicolon"
                n["entity"] += 1
                cur = add(b, C(1))
                continue
            t, a, b = slice_of(p)
            if t != inp:
                return "%s is written, which is not a piece of the text" % T.show(p)[:80]
            if not same(a, cur):
                return "what is written next does not begin where the last piece ended (%s, not %s)" % (T.show(a), T.show(cur))
            cur = b
        return ("upto", cur)

    def on_event(st, name, vals, raw):
        me = T.current
        if name == "seek":
            a0, a1 = (vals[0], vals[1]) if vals[0][0] in ("c",) else (vals[1], text(vals[0]))
            ch = char(a0, st)
            t, a, b = slice_of(a1)
            if ch == 38 and t == inp and b is None:
                n["head"] += 1
                ps = parts(st)
                if ps is None or ps[:1] == [SYM("buffer")]:
                    if not (a == C(0)):
                        bad("start", "the text before the first ampersand is not looked at", st)
                    ctx.ok("the first search", where)
                else:
                    cur = POS if ps[:1] == [COPIED] else C(0)
                    r = cover(st, ps[1:] if cur == POS else ps, cur)
                    if isinstance(r, str):
                        bad("copy", r, st)
                    elif r[1] is None or not same(r[1], a):
                        bad("resume", "the search for the next entity does not go on where the last piece or entity ended", st)
                    else:
                        ctx.ok("text before an entity and entity", where)
                    for k, x in list(st.mem.items()):
                        if k[0] == "X":
                            del st.mem[k]
                        elif k != ("S", "buffer"):
                            x = subst(x, a, POS) if a[0] != "c" else x
                            st.mem[k] = x
                    if a[0] != "c":
                        st.mem[("S", "buffer")] = ("s", (("hole", COPIED, frozenset(), ""),))
                        a1 = EX("piece", inp, POS, None)
                    for k in [k for k in st.con if mentions(k, lambda s: s.startswith(("seek#", "lookup#", "position")))]:
                        del st.con[k]
            st.mem[("X", me)] = AGG("seek", 0, (C(ch) if ch is not None else SYM("?"), a1))
        if name == "lookup":
            m = vals[0]
            maps.add(repr(m)[:200])
            st.mem[("X", me)] = AGG("lookup", 0, (vals[1],))
    T.on_event = on_event
    names = {i: ("buffer" if "String" in fn["locals"][i]["ty"] else "input") for i in range(1, 3)}
    for rv, ev, pairs, con, st in T.go(fn, names):
        n["end"] += 1
        if rv == inp:
            ctx.expect(any(e[0] == "seek" for e in ev) and any(k[0] == "X" and x[1] == "seek" and x[3] == (C(38), inp) and variant(con, SYM(k[1])) == 0 for k, x in st.mem.items()),
                       "decode:unchanged", "input", where, "the text is returned as it is although it may contain an entity")
            continue
        v = rv if rv[0] == "s" else None
        if rv[0] == "ex" and rv[1] == "piece" or v is None:
            bad("result", "what is returned is not the decoded text: %s" % T.show(rv)[:80], st)
            continue
        ps = [p[1] if p[0] == "hole" else ("lit", p[1]) for p in v[1]]
        cur = POS if ps[:1] == [COPIED] else C(0)
        r = cover(st, ps[1:] if cur == POS else ps, cur)
        if isinstance(r, str):
            bad("copy", r, st)
        elif r[1] is not None:
            bad("rest", "the end of the text is not written", st)
        else:
            ctx.ok("end of the text", where)
    for k, least in (("head", 2), ("entity", 1), ("end", 2)):
        ctx.floor("decoding: " + k, n[k], least)
    table(ctx, where)


def table(ctx, where):
    """The table of entities."""
    import html
    found = {}
    for k, s in ctx.F.statics.items():
        if s["crate"] == CRATE and "phf" in s["ty"] and "Map" in s["ty"]:
            v = dict(zip(s["val"].get("fn", ()), s["val"].get("fs", ())))
            for e in (v.get("entries") or {}).get("seq", ()):
                key, val = e["tup"]
                key = bytes(key["bytes"]).decode() if "bytes" in key else key.get("str", "")
                c = val.get("i", val.get("c", -1))
                found[key] = (k, int(c))
    for key, (k, c) in sorted(found.items()):
        ctx.expect(html.unescape("&%s;" % key) == chr(c), "entity", key, k, "the entity &%s; is taken for %r" % (key, chr(c)))
    for key in ("lt", "gt", "amp", "quot", "apos"):
        ctx.expect(key in found, "entities", key, where, "the entity &%s; is not decoded" % key)
