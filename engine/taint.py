"""What depends on some values of the program: data and control dependence through all functions.

Flow-insensitive within a function, field-based for the types of the program; control dependence by
postdominators.  Kinds:  T depends on the source;  B a text which was written to under T (its length
and contents depend on the source, which is harmless until somebody looks at them);  N can contain
something which is not white space."""
import re
from facts import norm

TEXT = ("&str", "&mut str", "str", "char", "&char", "std::string::String", "&std::string::String", "&mut std::string::String", "&&str")


def ws(v):
    """Does a constant consist of white space only?  (numbers and the like: yes)"""
    if not isinstance(v, dict):
        return False
    if "c" in v:
        return chr(v["c"]) in " \t\r\n"
    if "str" in v:
        return all(c in " \t\r\n" for c in v["str"])
    if "bytes" in v:
        return all(b in b" \t\r\n" for b in v["bytes"])
    if "i" in v or v.get("tup") == []:
        return True
    if "ref" in v:
        return ws(v["ref"])
    for k in ("seq", "tup", "fs"):
        if k in v:
            return all(ws(x) for x in v[k])
    return "fn" in v or "zst" in v or "ty" in v and len(v) == 1


def textual(ty):
    return any(x in ty for x in ("str", "char", "String", "Arguments", "Cow"))


class Taint:
    def __init__(self, F, fns, source, roots=()):
        self.F, self.source, self.roots = F, source, set(roots)
        self.fns = fns
        self.sets = {"T": {}, "B": {}, "N": {}}           # kind -> node -> (function, line) where it came from
        self.ctx = {}                                       # functions which run or not depending on the source
        self.changed = True
        self.sinks = {}
        self.bad = {}
        self.tyof = {}
        self.branches = set()
        self.pd = {}
        self.effects = set()
        self.writes = {}        # function -> {block: only white space is appended here}
        self.given = {}         # function -> functions of the program it calls with something mutable

    def node(self, f, p):
        own, hit = None, None
        for e in p[1]:
            if e[0] == "f":
                o = e[3] if len(e) > 3 else ""
                if "closure" in o and o not in self.F.adts:
                    hit = ("U", o, e[1])
                elif o in self.F.adts and self.F.adts[o]["crate"].startswith("math"):
                    hit = ("F", o, e[2])
        return hit or ("L", f["key"], p[0])

    def has(self, kind, n):
        if kind == "T" and n in self.tyof:
            return True
        return n in self.sets[kind]

    def add(self, kind, n, at):
        if n not in self.sets[kind] and not (n[0] == "L" and self.quiet(self.fns[n[1]]["locals"][n[2]]["ty"])):
            self.sets[kind][n] = at
            self.changed = True

    def typed(self, f):
        """Everything whose type is a source."""
        for l, x in enumerate(f["locals"]):
            if self.source(x["ty"]):
                self.tyof[("L", f["key"], l)] = x["ty"]

    def solve(self):
        for a in self.F.adts.values():
            for v in a["variants"]:
                for x in v["fields"]:
                    if self.source(x["ty"]):
                        self.tyof[("F", a["id"], x["name"])] = x["ty"]
        for f in self.fns.values():
            self.typed(f)
        called = {self.F.callee_body(b["term"]["c"])["key"] for f in self.fns.values() for b in f["blocks"]
                  if b["term"]["t"] == "call" and b["term"].get("c", {}).get("name") and self.F.callee_body(b["term"]["c"]) is not None}
        for f in self.fns.values():
            for i in range(1, f["argc"] + 1):
                if f["key"] not in called or f["key"] in self.roots or "closure" in f["key"]:
                    self.add("N", ("L", f["key"], i), (f["name"], f["span"][1]))
        for a in self.F.adts.values():
            if a["crate"].startswith("math"):
                for v in a["variants"]:
                    for x in v["fields"]:
                        if textual(x["ty"]):
                            self.add("N", ("F", a["id"], x["name"]), ("?", 0))
        rounds = 0
        while self.changed:
            self.changed = False
            rounds += 1
            if rounds > 200:
                raise RuntimeError("no fixed point")
            for f in self.fns.values():
                self.function(f)
        return self

    # ------------------------------------------------------------ control dependence
    def deps(self, f):
        """block -> the branching blocks on which it is control dependent (not counting panics)."""
        if f["key"] in self.pd:
            return self.pd[f["key"]]
        bl = f["blocks"]
        succ = {}
        for i, b in enumerate(bl):
            t = b["term"]
            s = [x[1] for x in t["arms"]] + [t["else"]] if t["t"] == "switch" else [t["to"]] if t.get("to") is not None else []
            succ[i] = [x for x in s if x is not None and not bl[x].get("cleanup")]
        live = {i for i, b in enumerate(bl) if b["term"]["t"] == "return"}
        pred = {}
        for i, s in succ.items():
            for x in s:
                pred.setdefault(x, []).append(i)
        w = list(live)
        while w:
            for p in pred.get(w.pop(), ()):
                if p not in live:
                    live.add(p)
                    w.append(p)
        succ = {i: [x for x in s if x in live] for i, s in succ.items() if i in live}
        pdom = {i: set(live) for i in live}
        ch = True
        for i in live:
            if not succ[i]:
                pdom[i] = {i}
        order = sorted(live, reverse=True)
        while ch:
            ch = False
            for i in order:
                if succ[i]:
                    n = set.intersection(*[pdom[s] for s in succ[i]]) | {i}
                    if n != pdom[i]:
                        pdom[i] = n
                        ch = True
        out = {}
        for a in live:
            if len(succ[a]) > 1:
                for b in live:
                    if any(b in pdom[s] for s in succ[a]) and (b == a or b not in pdom[a]):
                        out.setdefault(b, set()).add(a)
        # transitively
        ch = True
        while ch:
            ch = False
            for b, s in out.items():
                n = set(s)
                for a in s:
                    n |= out.get(a, set())
                if n != s:
                    out[b] = n
                    ch = True
        self.pd[f["key"]] = out
        return out

    # ------------------------------------------------------------ a function
    def operand(self, f, o):
        """(node or None, T, B, N)"""
        if o["k"] in ("copy", "move"):
            n = self.node(f, o["p"])
            t = self.has("T", n)
            return n, t, self.has("B", n), self.has("N", n)
        return None, False, False, not ws(o.get("val"))

    def link(self, a, b, at):
        for k in ("T", "B", "N"):
            if self.has(k, a):
                self.add(k, b, at)
            if self.has(k, b):
                self.add(k, a, at)

    def isref(self, ty):
        return ty.startswith(("&", "*"))

    def flow(self, f, dst, ops, at, ctl, text=False):
        """dst gets a value made of the operands."""
        for o in ops:
            n, t, b, nw = self.operand(f, o)
            if t:
                self.add("T", dst, at)
            if b:
                self.add("B", dst, at)
            if nw:
                self.add("N", dst, at)

    def function(self, f):
        deps = self.deps(f)
        bl = f["blocks"]
        tb = set()
        for i, b in enumerate(bl):
            t = b["term"]
            if t["t"] == "switch":
                n, T, B, N = self.operand(f, t["o"])
                if T or B:
                    tb.add(i)
                    self.branches.add((f["name"], b["at"][1] if b.get("at") else 0))
        for i, b in enumerate(bl):
            if b.get("cleanup"):
                continue
            ctl = f["key"] in self.ctx or any(d in tb for d in deps.get(i, ()))
            for s in b["st"]:
                if s["s"] == "=":
                    self.assign(f, s["p"], s["rv"], (f["name"], s["at"][1] if s.get("at") else 0), ctl)
                elif s["s"] in ("setdiscr", "set_discr") and ctl:
                    self.add("T", self.node(f, s["p"]), (f["name"], 0))
            t = b["term"]
            if t["t"] == "call":
                self.call(f, i, t, (f["name"], b["at"][1] if b.get("at") else 0), ctl)

    @staticmethod
    def quiet(ty):
        """Values which say nothing: whether something was written is the same for every text."""
        return ty in ("()", "!") or "fmt::Error" in ty and ("Result<()" in ty or "ControlFlow" in ty or "Infallible" in ty)

    fmtresult = quiet

    def assign(self, f, p, rv, at, ctl):
        dst = self.node(f, p)
        r = rv["r"]
        if r in ("ref", "rawptr"):
            src = self.node(f, rv["p"])
            if src != dst:
                self.link(dst, src, at)
            return
        ty = f["locals"][p[0]]["ty"]
        if r == "agg" and rv.get("ak") == "closure":
            for j, o in enumerate(rv["fs"]):
                u = ("U", rv.get("adt") or rv.get("id") or "", j)
                n = self.operand(f, o)[0]
                if n is not None:
                    self.link(u, n, at)
            return
        if r == "agg" and rv.get("adt") in self.F.adts and self.F.adts[rv["adt"]]["crate"].startswith("math"):
            for name, o in zip(rv.get("fn", ()), rv["fs"]):
                d = ("F", rv["adt"], name)
                n = self.operand(f, o)[0]
                if n is not None and o["k"] in ("copy", "move") and self.isref(f["locals"][o["p"][0]]["ty"]):
                    self.link(d, n, at)
                self.flow(f, d, [o], at, ctl)
                if self.operand(f, o)[3]:
                    self.add("N", dst, at)
                if ctl:
                    self.control(f, d, at)
            if ctl:
                self.control(f, dst, at)
            return
        ops = [rv[k] for k in ("o", "a", "b") if isinstance(rv.get(k), dict)] + list(rv.get("fs", ()))
        if r in ("discr", "len") and rv.get("p"):
            n = self.node(f, rv["p"])
            # (the result of writing is no information about the source)
            if (self.has("T", n) or self.has("B", n)) :
                self.add("T", dst, at)
        if r in ("use", "cast") and rv["o"]["k"] in ("copy", "move"):
            q = rv["o"]["p"]
            if not q[1] and self.isref(f["locals"][q[0]]["ty"]) or q[1] and self.isref(ty) and not p[1]:
                self.link(dst, self.node(f, q), at)
        self.flow(f, dst, ops, at, ctl)
        if r == "cast" and "char" in ty:
            self.add("N", dst, at)
        if ctl:
            if r == "agg" and rv.get("v") == "Err" and self.fmtresult(ty):
                self.bad[("err", f["name"])] = (at, "whether an error is returned depends on the layout")
            self.control(f, dst, at)

    def control(self, f, dst, at):
        if dst[0] == "L":
            ty = f["locals"][dst[2]]["ty"]
            if self.fmtresult(ty) or "ControlFlow" in ty and "fmt::Error" in ty or ty in ("()", "!"):
                return
            if ty.startswith("&mut "):
                return          # which object it refers to is decided by where it comes from
        self.add("T", dst, at)

    def call(self, f, bi, t, at, ctl):
        c = t["c"]
        body = self.F.callee_body(c) if c.get("name") else None
        args = [self.operand(f, a) for a in t["args"]]
        dst = self.node(f, t["dest"])
        dty = t.get("dty", "")
        if body is not None and body["key"] in self.fns:
            k = body["key"]
            if any(x.startswith("&mut ") for x in t.get("aty", [])):
                self.given.setdefault(f["key"], set()).add(k)
            if ctl and k not in self.ctx:
                self.ctx[k] = at
                self.changed = True
            spread = body.get("kind") == "Closure" or "closure" in k
            for j, (a, o) in enumerate(zip(args, t["args"])):
                pn = ("L", k, j + 1)
                if j + 1 > body["argc"]:
                    continue
                if a[0] is not None and self.isref(t["aty"][j]):
                    self.link(pn, a[0], at)
                self.flow2(pn, a, at)
            rn = ("L", k, 0)
            for kind in ("T", "B", "N"):
                if self.has(kind, rn):
                    self.add(kind, dst, at)
            if ctl:
                self.control(f, dst, at)
            return
        n = norm(c.get("name") or "")
        last = n.split("::")[-1]
        anyT = ctl or any(a[1] for a in args)
        anyN = False
        for a, ty in zip(args, t.get("aty", [])):
            if a[3] and textual(ty) or a[3] and a[0] is not None or a[1] and last.startswith("new_") and "Argument" in n and not textual(ty):
                anyN = True
        # what a mutable argument receives
        for j, ty in enumerate(t.get("aty", [])):
            if not ty.startswith("&mut ") or args[j][0] is None:
                continue
            n0 = args[j][0]
            other = [a for i, a in enumerate(args) if i != j]
            text = ty in ("&mut std::string::String", "&mut dyn std::fmt::Write")
            T = ctl or any(a[1] for a in other)
            N = any((a[3] and (a[0] is not None or textual(t["aty"][i]))) for i, a in enumerate(args) if i != j) \
                or any(a[1] and not textual(t["aty"][i]) and "char" not in t["aty"][i] for i, a in enumerate(args) if i != j and last not in ("extend", "reserve", "with_capacity", "resize"))
            removes = last in ("pop", "truncate", "clear", "insert", "insert_str", "drain", "remove", "retain", "replace_range", "split_off")
            if text and last in ("reserve", "reserve_exact", "shrink_to_fit"):
                continue
            if text and last not in ("reborrow",):
                self.writes.setdefault(f["key"], {})[bi] = not N and last in ("push", "push_str", "write_char", "write_str", "write_fmt", "extend", "add_assign")
            elif not text and not re.search(r"iter|Range|Take|Repeat|Chars", ty):
                self.writes.setdefault(f["key"], {})[bi] = False
            if T:
                if text:
                    self.effects.add((f["key"], bi))
                    self.add("B", n0, at)
                    if N or removes:
                        self.bad[("text", f["name"], last)] = (at, "whether or what is written by %s depends on the layout, and it is not white space" % last)
                elif "fmt::Formatter" in ty:
                    self.bad[("text", f["name"], last)] = (at, "what is formatted depends on the layout")
                else:
                    self.add("T", n0, at)
            for a in other:
                if a[2] and text:
                    self.add("B", n0, at)
            if N:
                self.add("N", n0, at)
        # the result
        looks = any(a[2] for a in args)
        if looks and not textual(dty) and not self.fmtresult(dty) and dty not in ("()", "!") and "ControlFlow" not in dty and "mathml" not in dty:
            mut = any(a[2] and ty.startswith("&mut ") for a, ty in zip(args, t["aty"]))
            if not mut:
                self.add("T", dst, at)
        elif looks:
            self.add("B", dst, at)
        if anyT and not self.fmtresult(dty) and not ("ControlFlow" in dty and "fmt::Error" in dty) and dty not in ("()", "!"):
            if any(a[1] for a in args) or not dty.startswith("&mut "):
                self.add("T", dst, at)
        if anyN or textual(dty) and last not in ("new", "with_capacity", "default") and not any(textual(x) for x in t.get("aty", [])):
            self.add("N", dst, at)
        if dty.startswith("&") or "<&" in dty:
            for a, ty in zip(args, t["aty"]):
                if a[0] is not None and ty.startswith("&mut ") and dty.startswith("&mut "):
                    self.link(dst, a[0], at)

    def flow2(self, pn, a, at):
        if a[1]:
            self.add("T", pn, at)
        if a[2]:
            self.add("B", pn, at)
        if a[3]:
            self.add("N", pn, at)

    def blank(self):
        """Functions which do nothing but append white space to a text they are given."""
        def own(f):
            if not self.quiet(f["locals"][0]["ty"]) or not any("&mut " in f["locals"][i]["ty"] for i in range(1, f["argc"] + 1)):
                return False
            if not all(self.writes.get(f["key"], {}).values()) or f.get("kind") == "Closure":
                return False
            for b in f["blocks"]:
                if b.get("cleanup"):
                    continue
                if any(s["s"] == "=" and any(e[0] == "*" for e in s["p"][1]) for s in b["st"]):
                    return False
                t = b["term"]
                if t["t"] == "call" and "name" not in t.get("c", {}):
                    return False
            return True
        ok = {k for k, f in self.fns.items() if own(f)}
        while True:
            bad = {k for k in ok if not self.given.get(k, set()) <= ok}
            if not bad:
                break
            ok -= bad
        some = {k for k in ok if self.writes.get(k)}
        while True:
            more = {k for k in ok - some if self.given.get(k, set()) & some}
            if not more:
                return some
            some |= more


TYPES = ("PrettyPrint", "Indentation", "IndentKeyword")


def of_layout(F):
    """What depends on the layout of the output, in everything which a conversion can reach."""
    import reach
    crates = ("math_core", "math_core_renderer_internal")
    seen = reach.Graph(F, crates).closure(reach.entries(F))
    skip = re.compile(r"\b(Debug|Clone|Default)\b|serde")
    fns = {k: F.fns[k] for k in seen if k in F.fns and F.fns[k]["crate"] in crates and not skip.search(str(F.fns[k].get("impl_trait")))}
    return Taint(F, fns, source, reach.entries(F)).solve()


def source(ty):
    return ty.replace("&", "").replace("mut ", "").strip().split("::")[-1] in TYPES


def sites(T):
    return {(k, T.F.fns[k]["blocks"][bi]["at"][1]) for k, bi in T.effects}


def blanks(T):
    """function which only writes white space -> the sites of the layout it reaches"""
    s = sites(T)
    out = {}
    for k in T.blank():
        seen, work = set(), [k]
        while work:
            x = work.pop()
            if x not in seen:
                seen.add(x)
                work += T.given.get(x, ())
        out[k] = sorted(y for y in s if y[0] in seen)
    return out
