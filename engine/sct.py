"""Size-change analysis of recursive functions: every round of the recursion gets a part of what the last one got.

For every local of a function: of which parameters (or captured values) its value is a part, and whether it is
a proper part (a field of a type of the workspace, or an element, was taken). Everything is flow-insensitive; a value
that is put together from others is no part of anything."""
from facts import norm

SCALAR = ("usize", "u8", "u16", "u32", "u64", "isize", "i8", "i16", "i32", "i64", "bool", "char", "()", "!", "&str", "f32", "f64")


class Parts:
    def __init__(self, F, fn):
        self.F, self.fn = F, fn
        self.closures = {}
        self.solve()

    def local_place(self, p):
        """(local or pseudo parameter, proper part?)"""
        base, proj = p[0], p[1]
        if self.fn["kind"] == "Closure" and base == 1:
            for i, e in enumerate(proj):
                if e[0] == "f":
                    return ("up", e[1]), self.proper(proj[i + 1:])
        return base, self.proper(proj)

    def proper(self, proj):
        for e in proj:
            if e[0] == "f" and len(e) > 3 and str(e[3]).split("::")[0] in ("math_core", "math_core_renderer_internal", "mathcore"):
                return True
            if e[0] in ("i", "ci", "idx", "index", "cidx", "constindex"):
                return True
        return False

    def of(self, d, p):
        base, pr = self.local_place(p)
        if isinstance(base, tuple):
            return frozenset({(base, pr)})
        v = d.get(base)
        return None if v is None else frozenset((x, s or pr) for x, s in v)

    def operand(self, d, o):
        if o["k"] in ("copy", "move"):
            return self.of(d, o["p"])
        return frozenset({("static", False)}) if not any(True for _ in self.fnval(o)) and str(o.get("ty", "")).startswith("&") else frozenset()

    def fnval(self, o):
        v = o.get("val")
        if isinstance(v, dict) and isinstance(v.get("fn"), dict):
            yield v["fn"]
        if isinstance(o.get("fn"), dict):
            yield o["fn"]

    def scalar(self, ty):
        return ty in SCALAR

    def meet(self, a, b):
        """Parts of both; None is "not known yet"."""
        if a is None:
            return b
        if b is None:
            return a
        da, db = dict(a), dict(b)
        return frozenset((x, da[x] and db[x]) for x in da if x in db)

    def tyof(self, o):
        if o["k"] in ("copy", "move"):
            return self.fn["locals"][o["p"][0]]["ty"] if not o["p"][1] else "?"
        return o.get("ty", "?")

    def solve(self):
        fn = self.fn
        d = {}
        start = 1 if fn["kind"] != "Closure" else 2
        for i in range(start, fn["argc"] + 1):
            d[i] = frozenset({(i, False)})
        for _ in range(40):
            new = {i: v for i, v in d.items() if start <= i <= fn["argc"]}
            for i in range(start, fn["argc"] + 1):
                new[i] = frozenset({(i, False)})

            def put(p, v):
                if v is None:
                    return
                if not p[1]:
                    new[p[0]] = self.meet(new.get(p[0]), v)
                elif not any(e[0] == "*" for e in p[1]):
                    # a part of a local is overwritten
                    new[p[0]] = self.meet(new.get(p[0]), v)
            for b in fn["blocks"]:
                for s in b["st"]:
                    if s["s"] != "=":
                        continue
                    rv = s["rv"]
                    k = rv["r"]
                    if k in ("ref", "rawptr"):
                        put(s["p"], self.of(d, rv["p"]))
                    elif k in ("use", "cast"):
                        put(s["p"], self.operand(d, rv["o"]))
                    elif k == "agg":
                        v = None
                        if rv.get("ak") == "closure":
                            self.closures.setdefault(s["p"][0], {})
                            continue
                        for o in rv["fs"]:
                            if self.scalar(self.tyof(o)):
                                continue
                            x = self.operand(d, o)
                            v = self.meet(v, x) if x is not None else v
                        ad = str(rv.get("adt") or rv.get("id") or "")
                        if ad.split("::")[0] in ("math_core", "math_core_renderer_internal", "mathcore"):
                            v = frozenset()
                        put(s["p"], v if rv["fs"] else frozenset())
                    else:
                        put(s["p"], frozenset())
                t = b["term"]
                if t["t"] == "call":
                    v = None
                    body = self.F.callee_body(t["c"]) if "c" in t else None
                    if body is not None and body["crate"].startswith("math") and body["kind"] != "Closure":
                        s = summary(self.F, body)
                        v = frozenset()
                        for x, pr in s:
                            a = self.operand(d, t["args"][x - 1]) if isinstance(x, int) and x - 1 < len(t["args"]) else frozenset()
                            v = v | frozenset((y, q or pr) for y, q in (a or ()))
                    else:
                        some = False
                        for o, ty in zip(t["args"], t.get("aty", [])):
                            if self.scalar(ty) or "{closure" in ty or "fn(" in ty:
                                continue
                            x = self.operand(d, o)
                            some = True
                            v = self.meet(v, x)
                        if not some:
                            v = frozenset()
                    put(t["dest"], v)
            if new == d:
                break
            d = new
        self.d = d

    def arg(self, o):
        return self.operand(self.d, o) or frozenset()


_summary = {}


def summary(F, body):
    """Of which parameters the result is a part."""
    k = body["key"]
    if k not in _summary:
        _summary[k] = frozenset()
        _summary[k] = Parts(F, body).d.get(0) or frozenset()
    return _summary[k]


def edges(F, scc):
    """Calls between the functions of a cycle: (from, to, {(from parameter, to parameter): proper part}, where)."""
    out = []
    for k in scc:
        fn = F.fns[k]
        P = Parts(F, fn)
        clos = {}            # local -> (closure key, operands)
        for b in fn["blocks"]:
            for s in b["st"]:
                if s["s"] == "=" and s["rv"]["r"] == "agg" and s["rv"].get("ak") == "closure":
                    for g in F.byid.get(str(s["rv"].get("id", "")), []):
                        clos[s["p"][0]] = (g, s["rv"]["fs"])
        refs = {}
        for _ in range(3):
            for b in fn["blocks"]:
                for s in b["st"]:
                    if s["s"] == "=" and not s["p"][1]:
                        rv = s["rv"]
                        src = rv["p"][0] if rv["r"] == "ref" else rv["o"]["p"][0] if rv["r"] in ("use", "cast") and rv["o"]["k"] in ("copy", "move") else None
                        if src in clos:
                            clos[s["p"][0]] = clos[src]
        for b in fn["blocks"]:
            t = b["term"]
            if t["t"] != "call":
                continue
            g = F.callee_body(t["c"]) if "c" in t else None
            if g is not None and g["key"] in scc and g["kind"] != "Closure":
                arcs = {}
                for j, o in enumerate(t["args"], 1):
                    for x, pr in P.arg(o):
                        arcs[(x, j)] = arcs.get((x, j), False) or pr
                out.append((k, g["key"], arcs, fn["name"]))
            # functions and closures which are handed to another function get parts of its other arguments
            others = {}
            first = True
            for o, ty in zip(t["args"], t.get("aty", [])):
                if "{closure" in ty or "fn(" in ty or P.scalar(ty) or any(True for _ in P.fnval(o)):
                    continue
                v = dict(P.arg(o))
                others = v if first else {x: s and v[x] for x, s in others.items() if x in v}
                first = False
            for o in t["args"]:
                for f in P.fnval(o):
                    g2 = F.callee_body(f)
                    if g2 is not None and g2["key"] in scc:
                        out.append((k, g2["key"], {(x, j): s for x, s in others.items() for j in range(1, g2["argc"] + 1)}, fn["name"]))
                if o["k"] in ("copy", "move") and o["p"][0] in clos and clos[o["p"][0]][0] in scc:
                    g2, fs = clos[o["p"][0]]
                    arcs = {(x, j): s for x, s in others.items() for j in range(2, F.fns[g2]["argc"] + 1)}
                    for n, u in enumerate(fs):
                        for x, s in P.arg(u):
                            arcs[(x, ("up", n))] = s
                    out.append((k, g2, arcs, fn["name"]))
        # closures which are not handed to anything directly
        for l, (g2, fs) in clos.items():
            if g2 in scc and not any(e[0] == k and e[1] == g2 for e in out):
                arcs = {(x, ("up", n)): s for n, u in enumerate(fs) for x, s in P.arg(u)}
                out.append((k, g2, arcs, fn["name"]))
    return out


def terminates(es):
    """The size-change principle. Gives None, or a function whose recursion does not get smaller."""
    gs = {(a, b, frozenset(arcs.items())) for a, b, arcs, w in es}
    work = list(gs)
    while work:
        a, b, x = work.pop()
        for c, d, y in list(gs):
            for (p, q, u), (r, s, v) in (((a, b, x), (c, d, y)), ((c, d, y), (a, b, x))):
                if q != r:
                    continue
                arcs = {}
                for (i, j), s1 in u:
                    for (j2, m), s2 in v:
                        if j == j2:
                            arcs[(i, m)] = arcs.get((i, m), False) or s1 or s2
                n = (p, s, frozenset(arcs.items()))
                if n not in gs:
                    gs.add(n)
                    work.append(n)
                    if len(gs) > 5000:
                        return a
    for a, b, x in sorted(gs, key=repr):
        if a == b:
            comp = {}
            for (i, j), s1 in x:
                for (j2, m), s2 in x:
                    if j == j2:
                        comp[(i, m)] = comp.get((i, m), False) or s1 or s2
            if frozenset(comp.items()) == x and not any(i == j and s for (i, j), s in x):
                return a
    return None
