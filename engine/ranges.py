"""What a function makes of a character: the MIR is evaluated for whole intervals of characters at once.
Numbers are constants or the character plus a constant; a comparison splits the interval.  The result is a
table of intervals with the value which the function gives for each of them (exact, for every character)."""
from facts import norm
from absint import Budget

CHARS = ((0, 0xD7FF), (0xE000, 0x10FFFF))
LOW = (1 << 21) - 1
STEPS = 400_000
BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "char": 32, "bool": 1}


class Unknown(Exception):
    pass


def K(n):
    return ("k", int(n))


def const(v):
    """The value of an evaluated constant."""
    if "c" in v:
        return K(v["c"])
    if "i" in v:
        return K(v["i"])
    if "b" in v:
        return K(v["b"])
    if "adt" in v:
        return ("agg", v["adt"], v.get("vi", 0), tuple(const(x) for x in v.get("fs", ())))
    if "seq" in v:
        return ("agg", "seq", 0, tuple(const(x) for x in v["seq"]))
    if "tup" in v:
        return ("agg", "tup", 0, tuple(const(x) for x in v["tup"]))
    if "ref" in v:
        return ("val", const(v["ref"]))
    if "str" in v:
        return ("str", v["str"])
    return None


class Ranges:
    def __init__(self, F):
        self.F = F
        self.steps = 0
        self.functions = set()

    def table(self, f, args):
        """[(lo, hi, value or ("panic",))] for all characters; an argument C is the character."""
        out = []
        for lo, hi in CHARS:
            out += [(l, h, v) for l, h, v, _ in self.call(f, args, lo, hi, {}, 0)]
        out.sort()
        return out

    # a state: lo, hi, frame (local -> value), store (cells behind references)
    def call(self, f, args, lo, hi, store, depth):
        if depth > 20:
            raise Unknown("recursion in %s" % f["name"])
        self.functions.add(f["name"])
        out = []
        work = [(0, lo, hi, {i + 1: a for i, a in enumerate(args)}, dict(store))]
        while work:
            bi, lo, hi, fr, stc = work.pop()
            while True:
                self.steps += 1
                if self.steps > STEPS:
                    raise Budget("%s: too many steps" % f["name"])
                b = f["blocks"][bi]
                states = [(lo, hi, fr, stc)]
                for s in b["st"]:
                    if s["s"] != "=":
                        continue
                    nxt = []
                    for lo, hi, fr, stc in states:
                        for l, h, v in self.rvalue(f, s["rv"], lo, hi, fr, stc):
                            fr2, st2 = (dict(fr), dict(stc)) if True else (fr, stc)
                            self.write(fr2, st2, s["p"], v)
                            nxt.append((l, h, fr2, st2))
                    states = nxt
                succ = []
                for lo, hi, fr, stc in states:
                    succ += self.term(f, b["term"], lo, hi, fr, stc, depth, out)
                if not succ:
                    break
                work += succ[1:]
                bi, lo, hi, fr, stc = succ[0]
        return out

    def term(self, f, t, lo, hi, fr, stc, depth, out):
        k = t["t"]
        if k == "return":
            out.append((lo, hi, fr.get(0), stc))
            return []
        if k == "switch":
            v = self.operand(t["o"], fr, stc)
            arms = [(int(x[0]), x[1]) for x in t["arms"]]
            els = t.get("else")
            if v is not None and v[0] == "k":
                to = next((x for n, x in arms if n == v[1]), els)
                return [(to, lo, hi, fr, stc)] if to is not None else []
            if v is not None and v[0] == "lin":
                res, cut = [], []
                for n, to in arms:
                    c = n - v[1]
                    if lo <= c <= hi:
                        res.append((to, c, c, fr, stc))
                        cut.append(c)
                a = lo
                for c in sorted(cut) + [hi + 1]:
                    if a <= c - 1 and els is not None:
                        res.append((els, a, c - 1, fr, stc))
                    a = c + 1
                return res
            raise Unknown("%s: a switch on something unknown" % f["name"])
        if k == "assert":
            v = self.operand(t["o"], fr, stc) if "o" in t else None
            if v is not None and v[0] == "k" and bool(v[1]) != bool(t.get("exp", t.get("expected", True))):
                out.append((lo, hi, ("panic",), stc))
                return []
            return [(t["to"], lo, hi, fr, stc)]
        if k == "call":
            res = []
            for l, h, v, s2 in self.callee(f, t, lo, hi, fr, stc, depth):
                if v == ("panic",) or t.get("to") is None:
                    out.append((l, h, ("panic",), s2))
                    continue
                fr2, s2 = dict(fr), dict(s2)
                self.write(fr2, s2, t["dest"], v)
                res.append((t["to"], l, h, fr2, s2))
            return res
        if k == "unreachable":
            return []
        if t.get("to") is not None:
            return [(t["to"], lo, hi, fr, stc)]
        raise Unknown("%s: %s" % (f["name"], k))

    # ------------------------------------------------------------ memory
    def read(self, fr, stc, p):
        v = fr.get(p[0])
        return self.project(v, p[1], fr, stc)

    def project(self, v, proj, fr, stc):
        for e in proj:
            if v is None:
                return None
            if e[0] == "*":
                if v[0] == "val":
                    v = v[1]
                elif v[0] == "cell":
                    v = stc.get(v[1])
                elif v[0] == "loc":
                    v = self.project(fr.get(v[1]), v[2], fr, stc)
                else:
                    return None
            elif e[0] == "v":
                continue
            elif e[0] == "f":
                if v[0] != "agg" or e[1] >= len(v[3]):
                    return None
                v = v[3][e[1]]
            elif e[0] in ("i", "ci"):
                i = fr.get(e[1]) if e[0] == "i" else K(e[1])
                if i is None or i[0] != "k" or v[0] != "agg" or i[1] >= len(v[3]):
                    return None
                v = v[3][i[1]]
            else:
                return None
        return v

    def write(self, fr, stc, p, v):
        l, proj = p
        if not proj:
            fr[l] = v
            return
        if proj[0][0] == "*":
            r = fr.get(l)
            if r is not None and r[0] == "cell":
                stc[r[1]] = self.put(stc.get(r[1]), proj[1:], v)
                return
            if r is not None and r[0] == "loc":
                fr[r[1]] = self.put(fr.get(r[1]), list(r[2]) + list(proj[1:]), v)
                return
            raise Unknown("a write through an unknown reference")
        fr[l] = self.put(fr.get(l), proj, v)

    def put(self, old, proj, v):
        proj = [e for e in proj if e[0] != "v"]
        if not proj:
            return v
        e = proj[0]
        if e[0] == "f" and old is not None and old[0] == "agg" and e[1] < len(old[3]):
            fs = list(old[3])
            fs[e[1]] = self.put(fs[e[1]], proj[1:], v)
            return ("agg", old[1], old[2], tuple(fs))
        return None

    def operand(self, o, fr, stc):
        if o.get("k") in ("copy", "move"):
            return self.read(fr, stc, o["p"])
        if o.get("k") == "const":
            return const(o.get("val") or {})
        return None

    # ------------------------------------------------------------ values
    def rvalue(self, f, rv, lo, hi, fr, stc):
        r = rv["r"]
        one = lambda v: [(lo, hi, v)]
        if r == "use":
            return one(self.operand(rv["o"], fr, stc))
        if r in ("ref", "rawptr"):
            p = rv["p"]
            if p[1] and p[1][0][0] == "*":
                base = fr.get(p[0])
                if len(p[1]) == 1:
                    return one(base)
                v = self.read(fr, stc, p)
                return one(("val", v) if v is not None else None)
            if rv.get("mut"):
                return one(("loc", p[0], tuple(map(tuple, p[1]))))
            v = self.read(fr, stc, p)
            return one(("val", v) if v is not None else None)
        if r == "discr":
            v = self.read(fr, stc, rv["p"])
            if v is None or v[0] != "agg":
                return one(None)
            a = self.F.adts.get(v[1])
            d = a["variants"][v[2]].get("discr") if a and v[2] < len(a["variants"]) else None
            return one(K(d if d is not None else v[2]))
        if r == "agg":
            fs = tuple(self.operand(o, fr, stc) for o in rv.get("fs", ()))
            a = rv.get("adt") or rv.get("ak")
            vi = rv.get("vi")
            if vi is None:
                vi = {"None": 0, "Some": 1, "Ok": 0, "Err": 1}.get(rv.get("v"), 0)
            return one(("agg", a, vi, fs))
        if r == "cast":
            v = self.operand(rv["o"], fr, stc)
            return one(self.cast(v, rv.get("ty"), lo, hi))
        if r == "bin":
            x, y = self.operand(rv.get("a") or rv["l"], fr, stc), self.operand(rv.get("b") or rv["rr"], fr, stc)
            return self.binop(rv["op"], x, y, lo, hi)
        if r == "un":
            v = self.operand(rv.get("o") or rv.get("a"), fr, stc)
            if v is not None and v[0] == "k":
                if rv["op"] == "Not":
                    ty = self.opty(f, rv.get("o") or rv.get("a"))
                    return one(K(v[1] ^ 1) if ty == "bool" else K(~v[1] & ((1 << BITS.get(ty, 32)) - 1)))
                if rv["op"] == "Neg":
                    return one(K(-v[1]))
            if v is not None and v[0] in ("agg", "val") and "PtrMetadata" in str(rv.get("op")):
                x = v[1] if v[0] == "val" else v
                return one(K(len(x[3])))
            return one(None)
        if r == "len":
            v = self.read(fr, stc, rv["p"])
            return one(K(len(v[3])) if v is not None and v[0] == "agg" else None)
        return one(None)

    def opty(self, f, o):
        if o.get("k") == "const":
            return o.get("ty", "u32")
        return f["locals"][o["p"][0]]["ty"] if not o["p"][1] else "u32"

    def cast(self, v, ty, lo, hi):
        if v is None or v[0] not in ("k", "lin"):
            if v is not None and v[0] == "agg" and ty in BITS:      # an enum without fields
                a = self.F.adts.get(v[1])
                d = a["variants"][v[2]].get("discr") if a else None
                return K(int(d) if d is not None else v[2])
            return v
        n = BITS.get(ty)
        if n is None:
            return v
        if v[0] == "k":
            return K(v[1] & ((1 << n) - 1)) if not str(ty).startswith("i") else v
        if lo + v[1] >= 0 and hi + v[1] < (1 << n):
            return v
        a, b = (lo + v[1]) >> n, (hi + v[1]) >> n
        if a == b:
            return ("lin", v[1] - (a << n))
        return None

    def binop(self, op, x, y, lo, hi):
        base = op.replace("Unchecked", "").replace("WithOverflow", "")
        if x is None or y is None or x[0] not in ("k", "lin") or y[0] not in ("k", "lin"):
            if x is not None and y is not None and base in ("Eq", "Ne") and x == y:
                return [(lo, hi, K(base == "Eq"))]
            return [(lo, hi, None)]
        if base in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if x[0] == y[0]:
                a, b = x[1], y[1]
                return [(lo, hi, K({"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[base]))]
            if x[0] == "k":
                return self.binop({"Eq": "Eq", "Ne": "Ne", "Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}[base], y, x, lo, hi)
            n = y[1] - x[1]             # c op n
            parts = {"Eq": [(lo, n - 1, 0), (n, n, 1), (n + 1, hi, 0)], "Ne": [(lo, n - 1, 1), (n, n, 0), (n + 1, hi, 1)], "Lt": [(lo, n - 1, 1), (n, hi, 0)],
                     "Le": [(lo, n, 1), (n + 1, hi, 0)], "Gt": [(lo, n, 0), (n + 1, hi, 1)], "Ge": [(lo, n - 1, 0), (n, hi, 1)]}[base]
            return [(max(a, lo), min(b, hi), K(v)) for a, b, v in parts if max(a, lo) <= min(b, hi)]
        checked = op.endswith("WithOverflow")

        def res(v):
            return [(lo, hi, ("agg", "tup", 0, (v, K(0))) if checked and v is not None else v)]
        if x[0] == "k" and y[0] == "k":
            a, b = x[1], y[1]
            m = (1 << 64) - 1
            v = {"Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b, "BitAnd": lambda: a & b, "BitOr": lambda: a | b, "BitXor": lambda: a ^ b,
                 "Shl": lambda: (a << (b & 63)) & m, "Shr": lambda: a >> (b & 63), "Div": lambda: a // b if b else 0, "Rem": lambda: a % b if b else 0}.get(base)
            return res(K(v()) if v else None)
        if base == "Add":
            if x[0] != y[0]:
                return res(("lin", x[1] + y[1]))
        if base == "Sub" and x[0] == "lin":
            return res(("lin", x[1] - y[1]) if y[0] == "k" else K(x[1] - y[1]))
        if base in ("BitAnd", "BitOr") and x[0] != y[0]:
            l, m = (x[1], y[1]) if x[0] == "lin" else (y[1], x[1])
            h = (lo + l) >> 21
            if h == (hi + l) >> 21 and h >= 0:
                ml, mh = m & LOW, m >> 21
                if base == "BitAnd" and ml in (0, LOW):
                    return res(("lin", l - (h << 21) + ((h & mh) << 21)) if ml else K((h & mh) << 21))
                if base == "BitOr" and ml == 0:
                    return res(("lin", l - (h << 21) + ((h | mh) << 21)))
                if base == "BitOr" and ml == LOW:
                    return res(K(((h | mh) << 21) | LOW))
        if base == "BitOr" and x[0] == y[0] == "lin":
            for l, o in ((x[1], y[1]), (y[1], x[1])):
                pass
        if base == "Shr" and x[0] == "lin" and y[0] == "k" and (lo + x[1]) >> y[1] == (hi + x[1]) >> y[1]:
            return res(K((lo + x[1]) >> y[1]))
        return [(lo, hi, None)]

    # ------------------------------------------------------------ calls
    def callee(self, f, t, lo, hi, fr, stc, depth):
        c = t.get("c", {})
        name = norm(c.get("name", "?"))
        last = name.split("::")[-1]
        args = [self.operand(a, fr, stc) for a in t["args"]]
        one = lambda v: [(lo, hi, v, stc)]
        if "panicking" in name or last in ("panic", "panic_fmt", "unreachable_unchecked"):
            return one(("panic",))
        body = self.F.callee_body(c) if c else None
        if body is not None and body["crate"] in ("math_core_renderer_internal", "math_core"):
            cells = dict(stc)
            a2, back = [], []
            for a in args:
                if a is not None and a[0] == "loc":
                    k = ("l", depth, a[1], a[2])
                    cells[k] = self.project(fr.get(a[1]), a[2], fr, stc)
                    back.append((k, a))
                    a = ("cell", k)
                a2.append(a)
            res = []
            for l, h, v, s2 in self.call(body, a2, lo, hi, cells, depth + 1):
                if back:
                    raise Unknown("%s: a reference to a local is handed over" % f["name"])
                res.append((l, h, v, s2))
            return res
        v0 = args[0] if args else None
        if last == "from_u32" and "char" in name or last == "try_from" and "char" in str(c.get("targs")):
            if v0 is None or v0[0] not in ("k", "lin"):
                return one(None)
            some, none = (1, 0) if last == "from_u32" else (0, 1)
            if v0[0] == "k":
                ok = 0 <= v0[1] <= 0xD7FF or 0xE000 <= v0[1] <= 0x10FFFF
                return one(("agg", "Option", some if ok else none, (v0,) if ok else ()))
            res = []
            for a, b, ok in ((-10**9, -1, 0), (0, 0xD7FF, 1), (0xD800, 0xDFFF, 0), (0xE000, 0x10FFFF, 1), (0x110000, 10**9, 0)):
                l, h = max(lo, a - v0[1]), min(hi, b - v0[1])
                if l <= h:
                    res.append((l, h, ("agg", "Option", some if ok else none, (v0,) if ok else ()), stc))
            return res
        if last in ("into", "from") and v0 is not None and v0[0] == "agg":
            fs = [g for g in self.F.local(v0[1].split("::")[0]) if g["argc"] == 1 and g["name"].endswith("::from") and v0[1].endswith("::" + g["locals"][1]["ty"]) or False] if "::" in str(v0[1]) else []
            ret = f["locals"][t["dest"][0]]["ty"] if not t["dest"][1] else None
            fs = [g for g in fs if ret is None or g["locals"][0]["ty"] == ret]
            if len(fs) == 1:
                return [(l, h, v, s2) for l, h, v, s2 in self.call(fs[0], args, lo, hi, dict(stc), depth + 1)]
        if last in ("from_u32_unchecked", "into", "from", "clone", "as_u32", "identity", "unchecked_add_check"):
            return one(v0[1] if last == "clone" and v0 is not None and v0[0] == "val" else v0)
        if last in ("unwrap", "expect", "unwrap_unchecked"):
            if v0 is not None and v0[0] == "agg":
                return one(v0[3][0] if v0[3] else ("panic",))
            return one(None)
        if last in ("is_some", "is_none", "is_ok"):
            x = v0[1] if v0 is not None and v0[0] == "val" else None
            return one(K((x[2] == 1) == (last == "is_some")) if x is not None and x[0] == "agg" else None)
        if last == "len" and v0 is not None and v0[0] == "val" and v0[1] is not None and v0[1][0] == "agg":
            return one(K(len(v0[1][3])))
        if last in ("is_ascii_lowercase", "is_ascii_uppercase", "is_ascii_digit", "is_ascii_alphabetic"):
            x = v0[1] if v0 is not None and v0[0] == "val" else v0
            rs = {"is_ascii_lowercase": [(97, 122)], "is_ascii_uppercase": [(65, 90)], "is_ascii_digit": [(48, 57)], "is_ascii_alphabetic": [(65, 90), (97, 122)]}[last]
            if x is not None and x[0] == "lin":
                res, at = [], lo
                for a, b in rs:
                    a, b = a - x[1], b - x[1]
                    if max(at, lo) <= min(a - 1, hi):
                        res.append((max(at, lo), min(a - 1, hi), K(0), stc))
                    if max(a, lo) <= min(b, hi):
                        res.append((max(a, lo), min(b, hi), K(1), stc))
                    at = max(at, b + 1)
                if at <= hi:
                    res.append((max(at, lo), hi, K(0), stc))
                return res
        return one(None)


C = ("lin", 0)
