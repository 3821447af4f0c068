"""What the functions of the parser do with its state: path-sensitive propagation of symbolic values of
chosen fields ("leaves") through the MIR.  A function which gives nodes back must leave every leaf as it
found it whenever it succeeds (checked for each of them, assumed at calls); all others which get the parser
are inlined.  Paths on which an error has been found are not followed (P29: they end in an error)."""
import re
from facts import norm
from absint import Interp, State, AGG, Budget

NODEY = re.compile(r"\bNode<|\bParsed<|\bBounds|\bNode\b")
STATES = 400_000
PARAMS = ("parse_as", "end")
SEPARATORS = ("ColumnSeparator", "RowSeparator")


class Restore:
    def __init__(self, F, mark):
        self.F, self.mark = F, mark
        self.PS = self.adt("::ParserState")
        self.ES = self.adt("::EnvState")
        self.PA = self.adt("::Parser")
        self.leaves = {}                 # path of field names -> type
        self.walk((), self.PS)
        self.live = {}
        self.events = []
        self.returns = {}                # function -> [(leaves, tok, con, sep, line)]
        self.steps = 0
        self.styles = {}
        self.nsyms = 0
        self.calls = set()
        self._touch = {}
        self.watch, self.watched = None, []
        self.built = []                  # separators which are made

    def adt(self, end):
        r = [a for a in self.F.adts if a.endswith(end) and a.startswith("math_core::")]
        return r[0] if len(r) == 1 else None

    def fields(self, a):
        return self.F.adts[a]["variants"][0]["fields"]

    def walk(self, p, a):
        for f in self.fields(a):
            t = f["ty"]
            if self.ES and t.split("<")[0] == self.ES.split("::", 1)[1]:
                self.walk(p + (f["name"],), self.ES)
            else:
                self.leaves[p + (f["name"],)] = t

    # ---------------------------------------------------------------- which functions
    def takes(self, f):
        """Does a function get the parser, or its state, mutably?"""
        return any(re.match(r"&mut (\w+::)*(Parser|ParserState|EnvState)<", f["locals"][i]["ty"]) for i in range(1, f["argc"] + 1)) or self.captures(f)

    def captures(self, f):
        if "{closure" not in f["name"]:
            return False
        for b in f["blocks"]:
            for s in b["st"]:
                if s["s"] == "=":
                    for p in [s["p"]] + ([s["rv"]["p"]] if "p" in s["rv"] else []):
                        if p[0] == 1 and any(e[0] == "f" and len(e) > 3 and e[3] in (self.PA, self.PS) for e in p[1]):
                            return True
        return False

    def nodey(self, f):
        return NODEY.search(f["locals"][0]["ty"]) is not None

    def touches(self, f, seen=()):
        """May a function which is not assumed to keep the state change it?"""
        k = f["key"]
        if k in self._touch:
            return self._touch[k]
        if k in seen:
            return False
        r = False
        for b in f["blocks"]:
            for s in b["st"]:
                if s["s"] != "=":
                    continue
                ps = [s["p"]]
                if s["rv"]["r"] in ("ref", "rawptr") and s["rv"].get("mut"):
                    ps.append(s["rv"]["p"])
                for p in ps:
                    pl = self.place({}, p)
                    if pl is not None and pl[0] == "leaf" and any(self.kept(x) for x in self.under(pl[1])):
                        r = True
            t = b["term"]
            if t["t"] == "call" and not r:
                pl = self.place({}, t["dest"])
                if pl is not None and pl[0] == "leaf":
                    r = True
                g = self.F.callee_body(t["c"]) if "c" in t else None
                gets = any(re.match(r"&mut (\w+::)*(Parser|ParserState|EnvState)<", ty) for ty in t.get("aty", []))
                if g is None and gets:
                    r = True
                elif g is not None and gets and not self.nodey(g):
                    r = r or self.touches(g, seen + (k,))
        if not seen or r:
            self._touch[k] = r
        return r

    # ---------------------------------------------------------------- liveness
    def livein(self, f):
        L = self.live.get(f["key"])
        if L is not None:
            return L
        bl = f["blocks"]
        use, dfn, succ = [], [], []
        refd = set()
        for b in bl:
            u, d = set(), set()

            def rd(p):
                if p[0] not in d:
                    u.add(p[0])
                for e in p[1]:
                    if e[0] == "i" and len(e) > 1 and isinstance(e[1], int) and e[1] not in d:
                        u.add(e[1])

            def ops(x):
                if isinstance(x, dict):
                    if x.get("k") in ("copy", "move"):
                        rd(x["p"])
                    else:
                        for y in x.values():
                            ops(y)
                elif isinstance(x, list):
                    for y in x:
                        ops(y)
            for s in b["st"]:
                if s["s"] != "=":
                    continue
                rv = s["rv"]
                for k, v in rv.items():
                    if k == "p":
                        rd(v)
                        if rv["r"] in ("ref", "rawptr") and not any(e[0] == "*" for e in v[1]):
                            refd.add(v[0])
                    else:
                        ops(v)
                if s["p"][1]:
                    rd(s["p"])
                else:
                    d.add(s["p"][0])
            t = b["term"]
            for k, v in t.items():
                if k in ("args", "o", "cond", "f"):
                    ops(v)
            sc = []
            if t["t"] == "switch":
                sc = [x[1] for x in t["arms"]] + ([t["else"]] if t.get("else") is not None else [])
            elif t.get("to") is not None:
                sc = [t["to"]]
            if t["t"] == "call":
                if t["dest"][1]:
                    rd(t["dest"])
                else:
                    d.add(t["dest"][0])
            if t["t"] == "return":
                u.add(0)
            use.append(u)
            dfn.append(d)
            succ.append(sc)
        L = [set(u) for u in use]
        change = True
        while change:
            change = False
            for i in range(len(bl) - 1, -1, -1):
                n = set(use[i])
                for s in succ[i]:
                    n |= L[s] - dfn[i]
                if n != L[i]:
                    L[i] = n
                    change = True
        L = [x | refd for x in L]
        self.live[f["key"]] = L
        return L

    # ---------------------------------------------------------------- places
    def place(self, loc, p):
        """("leaf", path) for (part of) the state, ("local", l, rest), or None."""
        l, proj = p
        v = loc.get(l)
        if proj and proj[0][0] == "*" and isinstance(v, tuple) and v[0] == "ref":
            base, rest = v[1], proj[1:]
        else:
            base, rest = None, proj
            for i, e in enumerate(proj):
                if e[0] == "f" and len(e) > 3 and e[3] in (self.PS, self.ES, self.PA) and any(x[0] == "*" for x in proj[:i]):
                    if e[3] == self.PA:
                        if "ParserState" in self.fieldty(self.PA, e[2]):
                            return ("leaf", *self.cut((), proj[i + 1:]))
                        return None
                    b = () if e[3] == self.PS else self.envpath()
                    return ("leaf", *self.cut(b, proj[i:]))
            return ("local", l, tuple(map(tuple, proj)))
        if base is None:
            return None
        return ("leaf", *self.cut(base, rest))

    def fieldty(self, a, n):
        return next(f["ty"] for f in self.fields(a) if f["name"] == n)

    def envpath(self):
        ps = {p[:-1] for p in self.leaves if len(p) > 1}
        return next(iter(ps)) if ps else ()

    def cut(self, base, proj):
        rest = list(proj)
        while rest and rest[0][0] == "f" and base not in self.leaves:
            base = base + (rest[0][2],)
            rest = rest[1:]
        return base, tuple(map(tuple, rest))

    def under(self, base):
        return [p for p in self.leaves if p[:len(base)] == base]

    def getleaf(self, lv, base):
        if base in self.leaves:
            return lv.get(base)
        return ("st", base, tuple(sorted((p[len(base):], lv[p]) for p in self.under(base) if p in lv)))

    def setleaf(self, lv, base, v):
        if base in self.leaves:
            lv.pop(base, None)
            if v is not None:
                lv[base] = v
            return
        d = dict(v[2]) if isinstance(v, tuple) and v[0] == "st" else {}
        for p in self.under(base):
            lv.pop(p, None)
            if d.get(p[len(base):]) is not None:
                lv[p] = d[p[len(base):]]

    def read(self, st, p):
        loc, lv = st["loc"], st["lv"]
        r = self.place(loc, p)
        if r is None:
            return None
        if r[0] == "leaf":
            _, base, rest = r
            if not rest:
                return self.getleaf(lv, base)
            return self.sub(lv.get(base), rest)
        v = loc.get(r[1])
        return self.sub(v, r[2])

    def sub(self, v, rest):
        for e in rest:
            if v is None:
                return None
            if v[0] == "st" and e[0] == "f":
                d = dict(v[2])
                m = e[2] if len(e) > 2 and e[2] else str(e[1])
                if (m,) in d:
                    v = d[(m,)]
                else:
                    n = tuple((k[1:], x) for k, x in v[2] if k[:1] == (m,))
                    v = ("st", v[1] + (m,), n) if n else None
            elif v[0] == "some" and e[0] == "v":
                continue
            elif v[0] == "some" and e[0] == "f":
                v = v[1]
            elif v[0] == "ref" and e[0] == "*":
                return None
            elif v[0] == "sym":
                v = ("sym", v[1] + self.step(e))
            else:
                return None
        return v

    def step(self, e):
        return {"*": "", "v": ":" + str(e[2]) if len(e) > 2 else "", "f": "." + str(e[1]) if len(e) > 1 else ""}.get(e[0], "?")

    def write(self, st, p, v):
        loc, lv = st["loc"], st["lv"]
        r = self.place(loc, p)
        if r is None:
            return
        if r[0] == "leaf":
            _, base, rest = r
            if rest:
                lv.pop(base, None)
            else:
                self.setleaf(lv, base, v)
        elif not r[2]:
            if v is None:
                loc.pop(r[1], None)
            else:
                loc[r[1]] = v
        else:
            old = loc.get(r[1])
            loc.pop(r[1], None)
            if old is not None and old[0] == "st":
                path = tuple(e[2] if len(e) > 2 and e[2] else str(e[1]) for e in r[2] if e[0] == "f")
                d = {k: x for k, x in old[2] if k[:len(path)] != path}
                if v is not None and v[0] == "st":
                    d.update({path + k: x for k, x in v[2]})
                elif v is not None:
                    d[path] = v
                loc[r[1]] = ("st", old[1], tuple(sorted(d.items())))

    def operand(self, st, o):
        if o.get("k") in ("copy", "move"):
            return self.read(st, o["p"])
        if o.get("k") == "const":
            v = o.get("val") or {}
            if "b" in v:
                return ("b", v["b"])
            if isinstance(v, dict) and ("v" in v or "vi" in v or "agg" in v or "adt" in v):
                n = self.constvariant(v)
                if n:
                    return n
        return None

    def constvariant(self, v):
        n = v.get("v") if isinstance(v.get("v"), str) else None
        if n is None and "vi" in v and v.get("adt") in self.F.adts:
            n = self.F.adts[v["adt"]]["variants"][v["vi"]]["name"]
        return ("enum", n) if n and not v.get("fs") else None

    # ---------------------------------------------------------------- running
    def run(self, f, args, lv, tok=None, stack=(), con=()):
        """[(return value, leaves, tok, con, sep, line)] of the successful paths"""
        top = not stack
        key = None
        live = self.livein(f)
        start = {"loc": {i + 1: a for i, a in enumerate(args) if a is not None}, "lv": dict(lv), "tok": tok, "con": dict(con), "sep": False}
        out, seen = [], set()
        work = [(0, start)]
        n = 0
        while work:
            bi, st = work.pop()
            L = live[bi]
            st["loc"] = {k: v for k, v in st["loc"].items() if k in L}
            key = (bi, self.freeze(st))
            if key in seen:
                continue
            seen.add(key)
            n += 1
            self.steps += 1
            if n > STATES:
                raise Budget("%s has too many paths" % f["name"])
            b = f["blocks"][bi]
            alive = True
            for s in b["st"]:
                if s["s"] != "=":
                    continue
                if not self.stmt(f, st, s):
                    alive = False
                    break
            if not alive:
                continue
            t = b["term"]
            k = t["t"]
            if k == "return":
                out.append((st["loc"].get(0), st["lv"], st["tok"], st["con"], st["sep"], (b.get("at") or [0, 0])[1]))
            elif k == "switch":
                work.extend(self.switch(f, st, t))
            elif k == "call":
                work.extend(self.call(f, st, t, b, stack))
            elif t.get("to") is not None:
                work.append((t["to"], st))
        return out

    def freeze(self, st):
        return (tuple(sorted(st["loc"].items())), tuple(sorted(st["lv"].items())), st["tok"], tuple(sorted(st["con"].items())), st["sep"])

    def copy(self, st):
        return {"loc": dict(st["loc"]), "lv": dict(st["lv"]), "tok": st["tok"], "con": dict(st["con"]), "sep": st["sep"]}

    def variant(self, a, i):
        """The variant with this discriminant."""
        for j, v in enumerate(self.F.adts[a]["variants"] if a in self.F.adts else ()):
            if str(v["discr"] if v.get("discr") is not None else j) == str(i):
                return v["name"]
        return None

    def lty(self, f, p):
        return f["locals"][p[0]]["ty"] if not [e for e in p[1] if e[0] != "*"] else ""

    def stmt(self, f, st, s):
        p, rv = s["p"], s["rv"]
        r = rv["r"]
        v = None
        if r == "use":
            v = self.operand(st, rv["o"])
            q = rv["o"].get("p") if rv["o"].get("k") in ("copy", "move") else None
            if v is None and q is not None:
                v = self.tokenfield(st, q)
        elif r in ("ref", "rawptr"):
            pl = self.place(st["loc"], rv["p"])
            if pl is not None and pl[0] == "leaf" and not pl[2]:
                v = ("ref", pl[1])
            elif pl is not None and pl[0] == "local" and pl[2] == (("*",),):
                v = st["loc"].get(pl[1])
        elif r == "discr":
            v = self.discr(f, st, rv)
        elif r == "agg":
            if rv.get("v") == "Err" and self.marked(f, p):
                return False
            a = rv.get("adt")
            if rv.get("v") in SEPARATORS and str(a).endswith("::ast::Node"):
                self.built.append((f["name"], rv["v"], st["tok"], dict(st["con"]), dict(st["lv"]), (s.get("at") or [0, 0])[1]))
            if a in (self.PS, self.ES):
                d = {}
                base = () if a == self.PS else self.envpath()
                names = rv.get("fn") or [x["name"] for x in self.fields(a)]
                for n, o in zip(names, rv["fs"]):
                    x = self.operand(st, o)
                    if x is not None and x[0] == "st":
                        d.update({(n,) + k: y for k, y in x[2]})
                    elif x is not None:
                        d[(n,)] = x
                v = ("st", base, tuple(sorted(d.items())))
            elif rv.get("v") == "Some":
                x = self.operand(st, rv["fs"][0]) or (self.tokenfield(st, rv["fs"][0]["p"]) if rv["fs"][0].get("k") in ("copy", "move") else None)
                v = ("some", x)
            elif rv.get("ak") == "tuple" or rv.get("ak") == "adt" and rv.get("fs") and len(self.F.adts.get(a, {"variants": ()})["variants"]) == 1:
                names = rv.get("fn") or [str(i) for i in range(len(rv["fs"]))]
                d = {}
                for n, o in zip(names, rv["fs"]):
                    x = self.operand(st, o)
                    if x is not None and x[0] == "st":
                        d.update({(n,) + k: y for k, y in x[2]})
                    elif x is not None and x[0] in ("i", "map", "enum", "some"):
                        d[(n,)] = x
                if d:
                    v = ("st", (), tuple(sorted(d.items())))
            elif rv.get("v") is not None and not rv.get("fs") and not str(a).startswith("math_core::token::Token"):
                v = ("enum", rv["v"])
        elif r == "un" and rv.get("op") == "Not":
            x = self.operand(st, rv.get("o") or rv.get("a"))
            if x is not None and x[0] == "b":
                v = ("b", not x[1])
        self.write(st, p, v)
        return True

    def marked(self, f, p):
        return not p[1] and self.mark(f["locals"][p[0]]["ty"]) or bool(p[1])

    def tokenfield(self, st, p):
        """A field of a variant of a token (whichever token it is): (variant, index)."""
        for i, e in enumerate(p[1]):
            if e[0] == "v" and i + 1 < len(p[1]) and p[1][i + 1][0] == "f" and len(p[1][i + 1]) > 3 and str(p[1][i + 1][3]).endswith("token::Token"):
                v = ("sym", "%s.%s" % (e[2], p[1][i + 1][1]))
                return self.sub(v, tuple(map(tuple, p[1][i + 2:])))
        return None

    def discr(self, f, st, rv):
        a, p = rv.get("adt"), rv["p"]
        if str(a).endswith("::token::Token"):
            return ("dtok", a)
        if str(a).endswith("::ast::Node"):
            return ("dnode", a)
        if str(a).split("::")[-1] in ("Result", "ControlFlow"):
            ty = self.lty(f, p)
            if self.mark(ty.lstrip("&").replace("mut ", "")) and not re.match(r"[&\w:]*(Result|ControlFlow)<Result", ty):
                return ("derr",)
            return None
        pl = self.place(st["loc"], p)
        if pl is not None and pl[0] == "leaf" and not pl[2] and pl[1] in self.leaves:
            return ("dleaf", a, pl[1])
        v = self.read(st, p) or self.tokenfield(st, p)
        if v is not None and v[0] in ("enum", "some", "sym"):
            return ("dval", a, v)
        return None

    def switch(self, f, st, t):
        o = t["o"]
        v = st["loc"].get(o["p"][0]) if o.get("k") in ("copy", "move") and not o["p"][1] else self.operand(st, o)
        arms = [(x[0], x[1]) for x in t["arms"]]
        els = t.get("else")
        res = []

        def go(to, s=None):
            if to is not None:
                res.append((to, s or self.copy(st)))
        if v is None:
            pl = self.place(st["loc"], o["p"]) if o.get("k") in ("copy", "move") else None
            for n, to in arms:
                s = self.copy(st)
                if pl is not None and pl[0] == "leaf" and not pl[2] and t["ty"] == "bool":
                    s["lv"][pl[1]] = ("b", n != "0")
                go(to, s)
            go(els)
            return res
        if v[0] == "b":
            hit = [to for n, to in arms if (n == "1") == v[1] and n in "01"]
            go(hit[0] if hit else els)
            return res
        if v[0] == "i" and t["ty"] == "bool":
            for n, to in arms + [("e", els)]:
                s = self.copy(st)
                val = (n == "1") if n != "e" else (arms[0][0] == "0")
                old = s["con"].get(("i",) + v[1])
                if old is not None and old != val:
                    continue
                s["con"][("i",) + v[1]] = val
                go(to, s)
            return res
        if v[0] == "derr":
            for n, to in arms:
                if n == "0":
                    go(to)
            if not any(n == "0" for n, _ in arms):
                go(els)
            return res
        if v[0] == "dtok":
            for n, to in arms:
                s = self.copy(st)
                if s["tok"] is None:
                    s["tok"] = self.variant(v[1], n)
                go(to, s)
            go(els)
            return res
        if v[0] == "dnode":
            for n, to in arms:
                s = self.copy(st)
                if self.variant(v[1], n) in SEPARATORS:
                    s["sep"] = True
                go(to, s)
            go(els)
            return res
        if v[0] == "dleaf":
            a, leaf = v[1], v[2]
            val = st["lv"].get(leaf)
            return self.enumarms(st, a, arms, els, val, leaf)
        if v[0] == "dval":
            return self.enumarms(st, v[1], arms, els, v[2], None)
        for n, to in arms:
            go(to)
        go(els)
        return res

    def enumarms(self, st, a, arms, els, val, leaf):
        known = "Some" if val is not None and val[0] == "some" else val[1] if val is not None and val[0] == "enum" else None
        name = val[1] if val is not None and val[0] == "sym" else "/".join(val[1]) if val is not None and val[0] == "i" else None
        if name is not None and known is None:
            known = st["con"].get((name,))
        names = [(self.variant(a, n) if a in self.F.adts else ("None", "Some")[int(n)] if str(a).endswith("Option") else n, to) for n, to in arms]
        res = []
        rest = [x["name"] for x in self.F.adts[a]["variants"]] if a in self.F.adts else ["None", "Some"] if str(a).endswith("Option") else []
        rest = [x for x in rest if x not in [n for n, _ in names]]
        if els is not None:
            names = names + [(rest[0] if len(rest) == 1 else None, els)]
        for n, to in names:
            if to is None or known is not None and n is not None and n != known:
                continue
            if known is not None and n is None and known in [m for m, _ in names]:
                continue
            s = self.copy(st)
            if name is not None and n is not None:
                s["con"][(name,)] = n
            if leaf is not None and val is None and n is not None:
                s["lv"][leaf] = ("enum", n) if n != "Some" else ("some", None)
            if leaf is not None and n == "Some" and "Node" in self.leaves[leaf]:
                s["sep"] = True
            res.append((to, s))
        return res

    # ---------------------------------------------------------------- calls
    def call(self, f, st, t, b, stack):
        if t.get("to") is None:
            return []
        c = t.get("c", {})
        name = norm(c.get("name", "?"))
        last = name.split("::")[-1]
        args = [self.operand(st, a) or (self.tokenfield(st, a["p"]) if a.get("k") in ("copy", "move") else None) for a in t["args"]]
        aty = t.get("aty", [""] * len(args))
        line = (b.get("at") or [0, 0])[1]
        if last == "from_residual":
            return []
        body = self.F.callee_body(c) if c else None
        # a new value through a reference to a leaf
        if body is None or body["crate"] not in ("math_core", "math_core_renderer_internal"):
            if name.endswith("mem::replace") and args[0] is not None and args[0][0] == "ref":
                old = self.getleaf(st["lv"], args[0][1])
                self.setleaf(st["lv"], args[0][1], args[1])
                self.write(st, t["dest"], old)
                return [(t["to"], st)]
            if name.endswith("mem::swap") and args[0] is not None and args[0][0] == "ref":
                old = self.getleaf(st["lv"], args[0][1])
                other = t["args"][1]
                self.setleaf(st["lv"], args[0][1], None)
                if other.get("k") in ("copy", "move"):
                    q = self.pointee(f, other["p"])
                    if q is not None:
                        self.setleaf(st["lv"], args[0][1], st["loc"].get(q))
                        st["loc"].pop(q, None)
                        if old is not None:
                            st["loc"][q] = old
                self.write(st, t["dest"], None)
                return [(t["to"], st)]
            if name.endswith("option::Option::replace") and args[0] is not None and args[0][0] == "ref":
                old = self.getleaf(st["lv"], args[0][1])
                self.setleaf(st["lv"], args[0][1], ("some", args[1]))
                self.write(st, t["dest"], old)
                return [(t["to"], st)]
            if (name.endswith("option::Option::take") or name.endswith("mem::take")) and args[0] is not None and args[0][0] == "ref":
                old = self.getleaf(st["lv"], args[0][1])
                self.setleaf(st["lv"], args[0][1], ("enum", "None") if self.leaves.get(args[0][1], "").startswith("std::option") else None)
                self.write(st, t["dest"], old)
                return [(t["to"], st)]
            if last in ("is_some", "is_none") and args and args[0] is not None and args[0][0] == "ref":
                v = st["lv"].get(args[0][1])
                r = None if v is None else True if v[0] == "some" else False if v == ("enum", "None") else None
                res = []
                for val in ([r] if r is not None else [True, False]):
                    s = self.copy(st)
                    if r is None:
                        s["lv"][args[0][1]] = ("some", None) if val else ("enum", "None")
                        if v is not None:       # keep what is known about the value it had
                            s["lv"][args[0][1]] = v
                    self.write(s, t["dest"], ("b", val == (last == "is_some")))
                    if val and "Node" in self.leaves.get(args[0][1], ""):
                        s["sep"] = True
                    res.append((t["to"], s))
                return res
            if last in ("branch", "into", "from", "clone", "deref") and args and args[0] is not None and args[0][0] != "ref":
                self.write(st, t["dest"], args[0] if last != "branch" else None)
                return [(t["to"], st)]
        if self.watch is not None and any(self.watch(ty) for ty in aty):
            self.watched.append((f["name"], name, tuple(a for a, ty in zip(args, aty) if self.watch(ty)), dict(st["con"]), line))
        gets = [i for i, ty in enumerate(aty) if re.match(r"&mut (\w+::)*(Parser|ParserState|EnvState)<", ty)]
        if body is not None and gets and self.takes(body):
            self.calls.add((f["name"], body["name"], line))
            if self.nodey(body):
                self.events.append({"fn": f["name"], "callee": body["name"], "tok": st["tok"], "con": dict(st["con"]), "lv": dict(st["lv"]), "sep": st["sep"],
                                    "line": line, "args": tuple(args)})
                st["sep"] = False
                for leaf, ty in self.leaves.items():
                    if not self.kept(leaf):
                        st["lv"].pop(leaf, None)
                self.write(st, t["dest"], None)
                return [(t["to"], st)]
            if not self.touches(body):
                self.write(st, t["dest"], None)
                return [(t["to"], st)]
            if body["key"] in stack or len(stack) > 12:
                st["lv"] = {}
                self.write(st, t["dest"], None)
                return [(t["to"], st)]
            res = []
            seen = set()
            for rv, lv, tok, con, sep, _ in self.run(body, args, st["lv"], st["tok"], stack + (f["key"],), tuple(st["con"].items())):
                s = self.copy(st)
                s["lv"], s["con"] = lv, {k: v for k, v in con.items() if k in st["con"] or k[0] in PARAMS or str(k[0]).startswith("end:")}
                self.write(s, t["dest"], rv)
                k = self.freeze(s)
                if k not in seen:
                    seen.add(k)
                    res.append((t["to"], s))
            return res
        # somebody else may change what is handed over
        if gets and body is None:
            st["lv"] = {}
        for a, ty in zip(args, aty):
            if a is not None and a[0] == "ref" and ty.startswith("&mut") and body is None:
                for p in self.under(a[1]):
                    st["lv"].pop(p, None)
            elif a is not None and a[0] == "ref" and ty.startswith("&mut"):
                for p in self.under(a[1]):
                    st["lv"].pop(p, None)
        v = None
        r = self.equal(f, st, t, last, args) or self.pure(body, st, args, aty, stack, f)
        if r is not None:
            res = []
            for val, con in r:
                s = self.copy(st)
                s["con"].update(con)
                self.write(s, t["dest"], val)
                res.append((t["to"], s))
            return res
        if body is not None and len(args) == 1 and body["argc"] == 1 and str(body["locals"][0]["ty"]).endswith("attribute::Style"):
            x = args[0]
            if x is not None and x[0] == "ref":
                x = self.getleaf(st["lv"], x[1])
            v = self.style(body, x)
        ret = str(body["locals"][0]["ty"]) if body is not None else ""
        if body is not None and aty and all(re.match(r"&?(\w+::)*Env$", ty) for ty in aty):
            if self.ES and ret.split("<")[0] == self.ES.split("::", 1)[1]:
                base = self.envpath()
                v = ("st", base, tuple(sorted((p[len(base):], ("fresh", p[-1])) for p in self.under(base))))
            elif ret == "bool":
                v = ("fresh", last)
        self.write(st, t["dest"], v)
        return [(t["to"], st)]

    def target(self, f, st, o, d=0):
        """What an argument which is a reference refers to."""
        if o.get("k") == "const":
            v = o.get("val") or {}
            for _ in range(3):
                if isinstance(v, dict) and isinstance(v.get("ref"), dict):
                    v = v["ref"]
            return self.constvariant(v) if isinstance(v, dict) else None
        if o["p"][1]:
            return None
        for b in f["blocks"]:
            for s in b["st"]:
                if s["s"] == "=" and s["p"] == [o["p"][0], []]:
                    rv = s["rv"]
                    if rv["r"] == "ref" and [e[0] for e in rv["p"][1]] == ["*"] and d < 4:
                        return self.target(f, st, {"k": "copy", "p": [rv["p"][0], []]}, d + 1)
                    if rv["r"] == "ref":
                        return self.read(st, rv["p"])
                    if rv["r"] == "use" and d < 4:
                        return self.target(f, st, rv["o"], d + 1)
        return None

    def equal(self, f, st, t, last, args):
        """A comparison of a parameter of the function which is analysed with a variant."""
        if last not in ("eq", "ne") or len(t["args"]) != 2:
            return None
        x, y = [self.target(f, st, o) for o in t["args"]]
        if x is not None and x[0] == "enum":
            x, y = y, x
        if x is None or y is None or y[0] != "enum" or x[0] not in ("sym", "enum"):
            return None
        known = x[1] if x[0] == "enum" else st["con"].get((x[1],))
        if known is not None:
            return [(("b", (known == y[1]) == (last == "eq")), {})]
        return [(("b", last == "eq"), {(x[1],): y[1]}), (("b", last != "eq"), {})]

    def pure(self, body, st, args, aty, stack, f):
        """A small function of values which are known, or which are parameters of the function which is analysed."""
        if body is None or body["crate"] != "math_core" or body["argc"] != len(args) or not args or len(body["blocks"]) > 40 or body["key"] in stack or len(stack) > 12:
            return None
        if body["locals"][0]["ty"] != "bool":
            return None
        own = [re.match(r"&(\w+::)*(Parser|ParserState|EnvState)<", ty) is not None for ty in aty]
        if not any(own) and not any(a is not None and a[0] == "sym" for a in args):
            return None
        if any((a is None or a[0] not in ("sym", "enum", "b", "i")) and not o for a, o in zip(args, own)):
            return None
        res = []
        for rv, lv, tok, con, sep, _ in self.run(body, args, st["lv"] if any(own) else {}, st["tok"], stack + (f["key"],), tuple(st["con"].items())):
            x = (rv, tuple(sorted(con.items(), key=str)))
            if x not in res:
                res.append(x)
        return [(rv, dict(con)) for rv, con in res]

    def pointee(self, f, p, d=0):
        for b in f["blocks"]:
            for s in b["st"]:
                if s["s"] == "=" and s["p"] == [p[0], []] and s["rv"]["r"] == "ref":
                    q = s["rv"]["p"]
                    if not q[1]:
                        return q[0]
                    if [e[0] for e in q[1]] == ["*"] and d < 4:
                        return self.pointee(f, q, d + 1)
        return None

    def kept(self, leaf):
        """Fields which a construct leaves as it found them."""
        ty = self.leaves[leaf]
        return ty == "bool" or ty.endswith("::Style") or "MathVariant" in ty

    # ---------------------------------------------------------------- styles as functions
    def style(self, body, x):
        if x is None:
            return None
        if x[0] == "enum":
            m = self.table(body)
            return ("enum", m[x[1]]) if m else None
        m = self.table(body)
        if m is None:
            return None
        if x[0] == "i":
            return ("map", tuple(sorted(m.items())))
        if x[0] == "map":
            return ("map", tuple((k, m[v]) for k, v in x[1]))
        return None

    def table(self, body):
        if body["key"] in self.styles:
            return self.styles[body["key"]]
        self.styles[body["key"]] = None
        a = [k for k in self.F.adts if k.endswith("attribute::Style")][0]
        m = {}
        for i, v in enumerate(self.F.adts[a]["variants"]):
            I = Interp(self.F)
            for arg in (AGG(a, i, ()),):
                try:
                    rs = {repr(I.deref_all(s, rv)): I.deref_all(s, rv) for rv, s in I.run(body, [arg], State())}
                except Exception:
                    return None
                if len(rs) != 1:
                    return None
                r = next(iter(rs.values()))
                if r[0] != "agg":
                    return None
                m[v["name"]] = self.F.adts[a]["variants"][r[2]]["name"]
        self.styles[body["key"]] = m
        return m
