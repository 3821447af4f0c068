"""Path-sensitive abstract interpreter over the dumped MIR.

It is a finite-state dataflow analysis ("property simulation"): values are constants, strings made
of literal pieces and holes, aggregates, references, and symbols which stand for *every* value of
an input.  A branch on a symbol explores both sides and remembers the outcome for that symbol, so
correlated branches stay correlated; nothing is handed to a solver and no code is run.  Loops are
explored until no new abstract state appears.
"""
import re
from facts import norm

# ------------------------------------------------------------------ values
UNIT = ("agg", "tuple", 0, ())


def C(v):
    return ("c", int(v))


def S(*pieces):
    return ("s", tuple(pieces))


def lit(x):
    return ("s", (("lit", x),) if x else ())


def SYM(n):
    return ("sym", n)


def AGG(kind, vi, fields):
    return ("agg", kind, vi, tuple(fields))


OPTION = "core::option::Option"
RESULT = "core::result::Result"


def SOME(v):
    return AGG(OPTION, 1, (v,))


NONE = AGG(OPTION, 0, ())


def OK(v):
    return AGG(RESULT, 0, (v,))


def ERR(v):
    return AGG(RESULT, 1, (v,))


def EX(op, *a):
    return ("ex", op) + a


def depth(v):
    if not isinstance(v, tuple):
        return 0
    m = 0
    for x in v:
        if isinstance(x, tuple):
            d = depth(x)
            if d > m:
                m = d
    return m + 1


def arith(v):
    """Number of additive operations in an expression."""
    if not isinstance(v, tuple):
        return 0
    n = 1 if len(v) > 1 and v[0] == "ex" and v[1] in ("Add", "Sub", "Mul") else 0
    for x in v:
        if isinstance(x, tuple):
            n += arith(x)
    return n


def mentions(v, pred):
    """Does the value mention a symbol for which pred(name) holds?"""
    if not isinstance(v, tuple) or not v:
        return False
    if v[0] == "sym":
        return pred(v[1])
    for x in v:
        if isinstance(x, tuple) and mentions(x, pred):
            return True
    return False


class State:
    __slots__ = ("mem", "con", "mon", "path")

    def __init__(self, mem=None, con=None, mon=None, path=None):
        self.mem = mem if mem is not None else {}
        self.con = con if con is not None else {}
        self.mon = mon
        self.path = path

    def copy(self):
        return State(dict(self.mem), dict(self.con), self.mon, self.path)

    def key(self):
        return (frozenset(self.mem.items()), frozenset(self.con.items()), self.mon)

    def trail(self, n=12):
        out = []
        p = self.path
        while p is not None and len(out) < n:
            out.append(p[0])
            p = p[1]
        return list(reversed(out))


class Budget(Exception):
    pass


def related_down(a, b):
    """b is a or a part of a."""
    return b.startswith(a) and (len(b) == len(a) or b[len(a)] in ".@[")


def related(a, b):
    return related_down(a, b) or related_down(b, a)


class Interp:
    def __init__(self, facts, budget=3_000_000):
        self.F = facts
        self.handlers = {}
        self.budget = budget
        self.steps = 0
        self.stack = []
        self.covered = set()          # functions whose bodies were interpreted
        self.unknown_calls = {}
        self.on_call = None           # hook(interp, st, fn, term, callee, args, site) -> None | [(ret, st)]
        self.on_return = None
        self.on_drop = None
        self.on_write = None          # hook(st, obj, path, value, fn, at)
        self.split_hook = None
        self.max_depth = 60
        self._syms = {}
        self._refs = {}
        self.memo = True
        self.int_cap = 64
        self.freshened = set()
        self.prof = None
        self.cache = {}
        self.rec_keys = set()
        self.roots = set()
        self.opaque = None            # predicate(body): do not look inside
        self.live_cache = {}
        self.fninfo = {}
        self.discr_names = {}
        from models import install
        install(self)

    # -------------------------------------------------------------- helpers
    def handler(self, *names):
        def deco(f):
            for n in names:
                self.handlers[n] = f
            return f
        return deco

    def adt(self, a):
        return self.F.adts.get(a)

    def discr_of(self, adt, vi):
        a = self.adt(adt)
        if a and a["kind"] == "enum":
            d = a["variants"][vi]["discr"]
            try:
                return int(d)
            except (TypeError, ValueError):
                m = re.match(r"(-?\d+)", d or "")
                return int(m.group(1)) if m else vi
        return vi

    # -------------------------------------------------------------- constants
    def const(self, o):
        v = self.decode(o["val"])
        return v

    def decode(self, v):
        if "b" in v:
            return C(1 if v["b"] else 0)
        if "c" in v:
            return C(v["c"])
        if "i" in v:
            return C(v["i"])
        if "f" in v and isinstance(v["f"], str):
            return ("f", v["f"])
        if "str" in v:
            return lit(v["str"])
        if "ref" in v:
            return self.decode(v["ref"])
        if "adt" in v:
            return AGG(v["adt"], v["vi"], [self.decode(x) for x in v["fs"]])
        if "tup" in v:
            return AGG("tuple", 0, [self.decode(x) for x in v["tup"]])
        if "seq" in v:
            return AGG("array", 0, [self.decode(x) for x in v["seq"]])
        if "bytes" in v:
            return ("bytes", bytes(v["bytes"]))
        if "fn" in v and isinstance(v["fn"], dict):
            return ("fn", self.intern_callee(v["fn"]))
        if "fnptr" in v:
            return ("fn", self.intern_callee({"inst": v["fnptr"], "id": v["fnptr"].split("<")[0].split("@")[0], "name": v["fnptr"]}))
        if "static" in v:
            s = self.F.statics.get(v["static"])
            if s and "val" in s and self.small(s["val"]):
                return self.decode(s["val"])
            return ("sym", "static:" + v["static"])
        if "zst" in v:
            t = v["zst"]
            m = re.match(r"^[\w:]+$", t)
            if m:
                for k, a in self.F.adts.items():
                    if a["path"] == t or k == t:
                        if a["kind"] == "struct" and not a["variants"][0]["fields"]:
                            return AGG(k, 0, ())
            return AGG("zst:" + t, 0, ())
        if "uneval" in v:
            return ("sym", "const:" + v["uneval"][:80])
        return ("sym", "const:" + str(v)[:80])

    def small(self, v):
        return len(str(v)) < 400

    def intern_callee(self, c):
        k = (c.get("inst") or "", c.get("name") or "", c.get("args") or "")
        self._callees = getattr(self, "_callees", {})
        self._callees[k] = c
        return k

    # -------------------------------------------------------------- projection of values
    def project(self, v, e, st):
        """e: one projection element of the dump."""
        k = e[0]
        t = v[0]
        if k == "*" or k == "*raw":
            return v
        if k == "v":
            if t == "sym":
                return ("sym", v[1] + "@" + (e[2] or str(e[1])))
            if t == "upd":
                return v
            return v
        if k == "f":
            if t == "agg":
                if e[1] < len(v[3]):
                    return v[3][e[1]]
                return ("sym", "?badfield")
            if t == "sym":
                return ("sym", v[1] + "." + (e[2] or str(e[1])))
            if t == "upd":
                for fk, fv in v[2]:
                    if fk == e[1]:
                        return fv
                return self.project(v[1], e, st)
            if t == "ex":
                return self.exproj(v, e)
            if t == "s" or t == "c" or t == "bytes" or t == "f":
                return v
            return ("sym", "?proj")
        if k in ("i", "ci", "sub"):
            if t == "agg" and k == "ci" and not e[3] and e[1] < len(v[3]):
                return v[3][e[1]]
            if t == "sym":
                if k == "ci" and not e[3]:
                    return ("sym", v[1] + "[%d]" % e[1])
                return ("sym", v[1] + "[]")
            return EX("index", v) if depth(v) < 5 else ("sym", "?index")
        return ("sym", "?proj")

    def exproj(self, v, e):
        if v[1] == "pair":
            return v[2 + e[1]]
        return EX("field", v, e[1]) if depth(v) < 6 else ("sym", "?exproj")

    def setproj(self, v, path, new):
        if not path:
            return new
        e = path[0]
        k = e[0]
        if k in ("*", "*raw"):
            return self.setproj(v, path[1:], new)
        if k == "v":
            if v[0] == "agg":
                return self.setproj(v, path[1:], new)
            return self.setproj(v, path[1:], new)
        if k == "f":
            if v[0] == "agg":
                fs = list(v[3])
                while len(fs) <= e[1]:
                    fs.append(("sym", "?uninit"))
                fs[e[1]] = self.setproj(fs[e[1]], path[1:], new)
                return ("agg", v[1], v[2], tuple(fs))
            if v[0] == "upd":
                cur = self.project(v, e, None)
                d = dict(v[2])
                d[e[1]] = self.setproj(cur, path[1:], new)
                return ("upd", v[1], tuple(sorted(d.items())))
            if v[0] == "undef":
                d = {e[1]: self.setproj(("undef",), path[1:], new)}
                return ("upd", ("sym", "?undef"), tuple(d.items()))
            cur = self.project(v, e, None)
            return ("upd", v, ((e[1], self.setproj(cur, path[1:], new)),))
        # index write: weak update
        return ("sym", "?array")

    # -------------------------------------------------------------- places
    def load(self, st, obj, path=()):
        v = st.mem.get(obj)
        if v is None:
            if obj[0] == "S":
                v = ("sym", obj[1])
            else:
                v = ("undef",)
        for e in path:
            v = self.step_deref(st, v, e)
        return v

    def step_deref(self, st, v, e):
        if v[0] == "ref":
            if e[0] in ("*", "*raw"):
                return self.load(st, v[1], v[2])
            # transparent reference
            return self.step_deref(st, self.load(st, v[1], v[2]), e)
        if v[0] == "sym" and ("S", v[1]) in st.mem:
            v = st.mem[("S", v[1])]
            if v[0] == "ref":
                return self.step_deref(st, v, e)
        return self.project(v, e, st)

    def resolve(self, st, frame, p):
        """Place -> ('loc', obj, path) or ('val', v)."""
        obj = (frame, p[0])
        path = ()
        cur = ("loc", obj, path)
        for e in p[1]:
            e = tuple(e)
            if e[0] in ("*", "*raw"):
                if cur[0] == "loc":
                    v = self.load(st, cur[1], cur[2])
                else:
                    v = cur[1]
                if v[0] == "ref":
                    cur = ("loc", v[1], v[2])
                elif v[0] == "sym":
                    cur = ("loc", ("S", v[1]), ())
                elif v[0] == "agg" and v[1].startswith("alloc::boxed::Box"):
                    cur = ("val", v)
                elif cur[0] == "loc" and v[0] in ("agg", "upd", "undef"):
                    # transparent (e.g. a Box): stay at the same location
                    pass
                else:
                    cur = ("val", v)
            else:
                if cur[0] == "loc":
                    # a transparent reference in the middle
                    v = self.load(st, cur[1], cur[2])
                    if v[0] == "ref" and e[0] == "f":
                        cur = ("loc", v[1], v[2] + (e,))
                    elif e[0] == "i":
                        iv = self.deref_all(st, self.load(st, (frame, e[1])))
                        e = ("ci", iv[1], 0, False) if iv[0] == "c" else ("i", 0)
                        cur = ("loc", cur[1], cur[2] + (e,))
                    else:
                        cur = ("loc", cur[1], cur[2] + (e,))
                else:
                    cur = ("val", self.project(cur[1], e, st))
        return cur

    def read(self, st, frame, p):
        r = self.resolve(st, frame, p)
        if r[0] == "loc":
            return self.load(st, r[1], r[2])
        return r[1]

    def write(self, st, frame, p, v, fn=None, at=None):
        r = self.resolve(st, frame, p)
        if r[0] != "loc":
            return
        self.store(st, r[1], r[2], v, fn, at)

    def store(self, st, obj, path, v, fn=None, at=None):
        if self.on_write:
            self.on_write(st, obj, path, v, fn, at)
        if not path:
            st.mem[obj] = v
        else:
            base = st.mem.get(obj)
            if base is None:
                base = ("sym", obj[1]) if obj[0] == "S" else ("undef",)
            st.mem[obj] = self.setproj(base, path, v)

    def mkref(self, st, frame, p):
        pr = p[1]
        # &*x is x
        r = self.resolve(st, frame, p)
        if r[0] == "val":
            return r[1]
        obj, path = r[1], r[2]
        if obj[0] == "S":
            # a reference into an (unmodified) symbolic object is the symbol itself
            if obj not in st.mem:
                v = ("sym", obj[1])
                for e in path:
                    v = self.project(v, e, st)
                return v
        return ("ref", obj, path)

    def operand(self, st, frame, o):
        if o["k"] == "const":
            c = o.get("_dec")
            if c is None:
                c = o["_dec"] = self.const(o)
            return c
        return self.read(st, frame, o["p"])

    def deref_all(self, st, v):
        n = 0
        while v[0] == "ref" and n < 10:
            v = self.load(st, v[1], v[2])
            n += 1
        if v[0] == "sym" and ("S", v[1]) in st.mem:
            return self.deref_all(st, st.mem[("S", v[1])])
        return v

    # -------------------------------------------------------------- predicates
    def cmpfold(self, op, a, b):
        if a[0] == "c" and b[0] == "c":
            x, y = a[1], b[1]
            return C({"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op])
        if a[0] == "f" and b[0] == "f":
            x, y = float(a[1]), float(b[1])
            return C({"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op])
        return None

    def binop(self, op, a, b, ty, site):
        wo = op.endswith("WithOverflow")
        base = op[:-12] if wo else op.replace("Unchecked", "")
        r = None
        if base in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            r = self.cmpfold(base, a, b)
            if r is not None:
                return r
            if base == "Ne":
                return EX("Not", EX("Eq", a, b))
            if base == "Eq" and a[0] == "c" and b[0] != "c":
                a, b = b, a
            if base == "Eq" and a == b and a[0] not in ("f", "undef") and not ty.startswith("f"):
                return C(1)
            if base == "Gt":
                return EX("Lt", b, a)
            if base == "Ge":
                return EX("Not", EX("Lt", a, b)) if not ty.startswith("f") else EX("Ge", a, b)
            if base == "Le":
                return EX("Not", EX("Lt", b, a)) if not ty.startswith("f") else EX("Le", a, b)
            if base == "Lt" and a == b:
                return C(0)
            return EX(base, a, b)
        if a[0] == "c" and b[0] == "c":
            x, y = a[1], b[1]
            try:
                r = {
                    "Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y,
                    "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y,
                    "Shl": lambda: x << (y & 127), "Shr": lambda: x >> (y & 127),
                    "Div": lambda: x // y if x >= 0 and y > 0 else int(x / y), "Rem": lambda: x % y if x >= 0 and y > 0 else None,
                }[base]()
            except (KeyError, ZeroDivisionError, TypeError):
                r = None
            if r is not None:
                m = re.match(r"^([ui])(8|16|32|64|128|size)$", ty)
                over = 0
                if m:
                    w = 64 if m.group(2) == "size" else int(m.group(2))
                    lo, hi = (0, 2 ** w - 1) if m.group(1) == "u" else (-(2 ** (w - 1)), 2 ** (w - 1) - 1)
                    if not lo <= r <= hi:
                        over = 1
                        r &= 2 ** w - 1
                        if m.group(1) == "i" and r > hi:
                            r -= 2 ** w
                cap = self.int_cap
                if abs(r) > cap and base in ("Add", "Sub", "Mul") and not (abs(x) > 64 or abs(y) > 64):
                    return self.wrapover(wo, ("sym", "?big:%s" % (site,)), C(0))
                return self.wrapover(wo, C(r), C(over))
        if base == "BitAnd":
            for x, y in ((a, b), (b, a)):
                if x[0] == "c" and x[1] == 0:
                    return C(0)
            if a[0] == "c":
                a, b = b, a
            if b[0] == "c" and a[0] == "ex" and a[1] == "BitAnd" and a[3][0] == "c":
                return self.binop("BitAnd", a[2], C(a[3][1] & b[1]), ty, site)
            if a == b:
                return a
        if base == "BitOr":
            if a[0] == "c" and a[1] == 0:
                return b
            if b[0] == "c" and b[1] == 0:
                return a
            if a == b:
                return a
        v = EX(base, a, b)
        if base == "Shr" and b[0] == "c" and re.match(r"^u(8|16|32|64)$", ty):
            v = EX("BitAnd", v, C(2 ** (int(ty[1:]) - b[1]) - 1)) if b[1] < int(ty[1:]) else v
        if depth(v) > 8 or base in ("Add", "Sub", "Mul") and (arith(v) > 2 or mentions(v, lambda n: n[:5] in ("?big:", "?op:("))):
            v = ("sym", "?big:%s" % (site,))
        return self.wrapover(wo, v, EX("overflow", base, a, b) if depth(v) < 5 else ("sym", "?ov"))

    def wrapover(self, wo, v, o):
        return AGG("tuple", 0, (v, o)) if wo else v

    # -------------------------------------------------------------- constraints
    def known(self, st, v):
        """Known integer value of a scalar, or None."""
        if v[0] == "c":
            return v[1]
        if v[0] == "ex" and v[1] == "Not":
            k = self.known(st, v[2])
            return None if k is None else 1 - k
        if v[0] == "ex" and v[1] == "discr":
            pass
        c = st.con.get(v)
        if c is not None and c[0] == "=":
            return c[1]
        if v[0] == "ex" and v[1] == "Eq":
            a, b = v[2], v[3]
            if b[0] == "c":
                # bit tests
                if a[0] == "ex" and a[1] == "BitAnd" and a[3][0] == "c":
                    mask = a[3][1]
                    kb = st.con.get(("bits", a[2]))
                    if kb:
                        km, kv = kb
                        if km & mask == mask:
                            return 1 if (kv & mask) == b[1] else 0
                        if (kv & mask & km) != (b[1] & mask & km):
                            return 0
                c = st.con.get(a)
                if c is not None:
                    if c[0] == "=":
                        return 1 if c[1] == b[1] else 0
                    if c[0] == "!" and b[1] in c[1]:
                        return 0
            ka, kb2 = self.known(st, a), self.known(st, b)
            if ka is not None and kb2 is not None:
                return 1 if ka == kb2 else 0
        if v[0] == "ex" and v[1] == "BitAnd" and v[3][0] == "c":
            kb = st.con.get(("bits", v[2]))
            if kb and kb[0] & v[3][1] == v[3][1]:
                return kb[1] & v[3][1]
        if v[0] == "ex" and v[1] == "Lt":
            a, b = v[2], v[3]
            # unsigned: x < 0 is false; 0 < x decided by x == 0
            if b == ("c", 0) and not (a[0] == "sym" and a[1].startswith("i:")):
                return 0
            if a == ("c", 0):
                c = st.con.get(b)
                if c and c[0] == "!" and 0 in c[1]:
                    return 1
                if c and c[0] == "=":
                    return 1 if c[1] > 0 else 0
        return None

    def interval(self, st, v, n=0):
        """Bounds (lo, hi) of a scalar from its structure and from the comparisons on this path;
        None where there is none."""
        lo = hi = None
        if v[0] == "c":
            return v[1], v[1]
        if v[0] == "ex" and n < 6:
            if v[1] == "BitAnd" and v[3][0] == "c":
                lo, hi = 0, v[3][1]
            elif v[1] in ("Add", "Sub") and v[3][0] == "c":
                a, b = self.interval(st, v[2], n + 1)
                d = v[3][1] if v[1] == "Add" else -v[3][1]
                lo, hi = None if a is None else a + d, None if b is None else b + d
                if lo is not None and lo < 0 or hi is None or hi > 255:
                    lo = hi = None        # it may have wrapped
            elif v[1] == "cast":
                lo, hi = self.interval(st, v[2], n + 1)
        for k, c in st.con.items():
            if k == v and c[0] == "=":
                return c[1], c[1]
            if k[0] == "ex" and k[1] == "Lt" and c[0] == "=":
                if k[3] == v and k[2][0] == "c":
                    b = k[2][1]
                    if c[1] == 1:
                        lo = b + 1 if lo is None else max(lo, b + 1)
                    else:
                        hi = b if hi is None else min(hi, b)
                elif k[2] == v and k[3][0] == "c":
                    b = k[3][1]
                    if c[1] == 1:
                        hi = b - 1 if hi is None else min(hi, b - 1)
                    else:
                        lo = b if lo is None else max(lo, b)
        return lo, hi

    def assume(self, st, v, val):
        """Refine `st` (in place) with v == val. False if that is impossible."""
        k = self.known(st, v)
        if k is not None:
            return k == val
        if v[0] == "ex" and v[1] == "Not":
            return self.assume(st, v[2], 1 - val)
        if v[0] == "ex" and v[1] == "Eq" and v[3][0] == "c":
            a, b = v[2], v[3][1]
            if a[0] == "ex" and a[1] == "BitAnd" and a[3][0] == "c":
                mask = a[3][1]
                km, kv = st.con.get(("bits", a[2]), (0, 0))
                if val == 1:
                    if b & ~mask:
                        return False
                    st.con[("bits", a[2])] = (km | mask, (kv & ~mask) | (b & mask))
                    return True
                rest = mask & ~km
                if (kv & mask & km) == (b & mask & km) and bin(rest).count("1") == 1:
                    st.con[("bits", a[2])] = (km | rest, (kv & ~rest) | ((b & rest) ^ rest))
                    return True
                st.con[v] = ("=", 0)
                return True
            if val == 1:
                return self.assume_int(st, a, b)
            return self.exclude(st, a, b)
        if v[0] == "ex" and v[1] == "Lt" and v[2] == ("c", 0):
            # 0 < x
            if val == 0:
                return self.assume_int(st, v[3], 0)
            return self.exclude(st, v[3], 0)
        if v[0] == "ex" and v[1] == "BitAnd" and v[3][0] == "c":
            mask = v[3][1]
            km, kv = st.con.get(("bits", v[2]), (0, 0))
            st.con[("bits", v[2])] = (km | mask, (kv & ~mask) | (val & mask))
            return True
        return self.put_eq(st, v, val)

    def assume_int(self, st, a, val):
        if a[0] == "c":
            return a[1] == val
        if a[0] == "ex" and a[1] in ("Eq", "Lt", "Not") and val in (0, 1) and (a[1] != "Eq" or a[3][0] == "c"):
            return self.assume(st, a, val)
        return self.put_eq(st, a, val)

    def put_eq(self, st, a, val):
        c = st.con.get(a)
        if c is not None:
            if c[0] == "=":
                return c[1] == val
            if val in c[1]:
                return False
        st.con[a] = ("=", val)
        return True

    def exclude(self, st, a, val):
        if a[0] == "c":
            return a[1] != val
        c = st.con.get(a)
        if c is not None:
            if c[0] == "=":
                return c[1] != val
            st.con[a] = ("!", c[1] | frozenset([val]))
        else:
            st.con[a] = ("!", frozenset([val]))
        # if the domain of a discriminant is exhausted but for one value, fix it
        if a[0] == "ex" and a[1] == "discr":
            dom = self.domain(a[2], a[3])
            if dom:
                left = dom - st.con[a][1]
                if not left:
                    return False
                if len(left) == 1:
                    st.con[a] = ("=", next(iter(left)))
        return True

    def domain(self, v, adt):
        a = self.adt(adt)
        if not a:
            return None
        return frozenset(self.discr_of(adt, i) for i in range(len(a["variants"])))

    def forget(self, st, pred):
        """Drop every constraint which mentions a symbol for which pred holds."""
        for k in [k for k in st.con if mentions(k, pred)]:
            del st.con[k]

    # -------------------------------------------------------------- discriminants
    def discr(self, st, v, adt):
        v = self.deref_all(st, v)
        if v[0] == "agg":
            a = v[1] if self.adt(v[1]) else adt
            return C(self.discr_of(a, v[2]))
        if v[0] == "upd":
            return self.discr(st, v[1], adt)
        return EX("discr", v, adt)

    # -------------------------------------------------------------- statements
    def rvalue(self, st, frame, rv, fn, at):
        k = rv["r"]
        if k == "use":
            return self.operand(st, frame, rv["o"])
        if k in ("ref", "rawptr"):
            return self.mkref(st, frame, rv["p"])
        if k == "cast":
            v = self.operand(st, frame, rv["o"])
            if rv["kind"].startswith("IntToInt") or rv["kind"] == "Transmute":
                if v[0] == "c":
                    m = re.match(r"^([ui])(8|16|32|64|128|size)$", rv["ty"])
                    if m:
                        w = 64 if m.group(2) == "size" else int(m.group(2))
                        x = v[1] & (2 ** w - 1)
                        if m.group(1) == "i" and x >= 2 ** (w - 1):
                            x -= 2 ** w
                        return C(x)
                return v
            return v
        if k == "bin":
            a = self.operand(st, frame, rv["a"])
            b = self.operand(st, frame, rv["b"])
            a = self.deref_all(st, a) if a[0] == "ref" else a
            b = self.deref_all(st, b) if b[0] == "ref" else b
            r = self.binop(rv["op"], a, b, rv["ty"], (fn["name"].split("::")[-1], at))
            for n in self.syms(r):
                if n.startswith("?big:"):
                    if r[0] == "ex":
                        continue
                    n2 = self.fresh_name(st, n)
                    if n2 != n:
                        r = self.rename(r, n, n2)
            return r
        if k == "un":
            v = self.operand(st, frame, rv["o"])
            if rv["op"] == "Not":
                if v[0] == "c" and v[1] in (0, 1):
                    return C(1 - v[1])
                if v[0] == "ex" and v[1] == "Not":
                    return v[2]
                return EX("Not", v)
            if rv["op"] == "PtrMetadata":
                v = self.deref_all(st, v)
                if v[0] == "agg" and v[1] == "array":
                    return C(len(v[3]))
                return EX("len", v)
            return EX(rv["op"], v)
        if k == "discr":
            return self.discr(st, self.read(st, frame, rv["p"]), rv.get("adt"))
        if k == "agg":
            fs = [self.operand(st, frame, x) for x in rv["fs"]]
            ak = rv["ak"]
            if ak == "adt":
                if "active" in rv:
                    return AGG(rv["adt"], 0, fs)
                return AGG(rv["adt"], rv["vi"], fs)
            if ak == "closure":
                return AGG("closure:" + (rv.get("inst") or rv["id"]), 0, fs)
            return AGG(ak if ak in ("tuple", "array") else "other", 0, fs)
        if k == "repeat":
            n = rv["n"]
            v = self.operand(st, frame, rv["o"])
            if n is not None and n <= 16:
                return AGG("array", 0, [v] * n)
            return ("sym", "?repeat")
        return ("sym", "?rv:%s" % k)

    # -------------------------------------------------------------- liveness
    def live_in(self, fn):
        r = self.live_cache.get(fn["key"])
        if r is not None:
            return r
        n = len(fn["blocks"])
        use = [set() for _ in range(n)]
        deff = [set() for _ in range(n)]
        succ = [[] for _ in range(n)]
        addr = set()

        def pl(p, u, d, write=False):
            if write and not p[1]:
                d.add(p[0])
            elif p[0] not in d:
                u.add(p[0])
            for e in p[1]:
                if e[0] == "i" and e[1] not in d:
                    u.add(e[1])

        def op(o, u, d):
            if o["k"] != "const":
                pl(o["p"], u, d)
        for i, b in enumerate(fn["blocks"]):
            u, d = use[i], deff[i]
            for s in b["st"]:
                if s["s"] == "=":
                    rv = s["rv"]
                    for key in ("o", "a", "b"):
                        if key in rv and isinstance(rv[key], dict):
                            op(rv[key], u, d)
                    for o in rv.get("fs", []):
                        op(o, u, d)
                    if "p" in rv:
                        pl(rv["p"], u, d)
                        if rv["r"] in ("ref", "rawptr") and not any(e[0] in ("*", "*raw") for e in rv["p"][1]):
                            addr.add(rv["p"][0])
                    pl(s["p"], u, d, True)
                elif s["s"] == "setdiscr":
                    pl(s["p"], u, d)
            t = b["term"]
            k = t["t"]
            if k == "goto":
                succ[i] = [t["to"]]
            elif k == "switch":
                op(t["o"], u, d)
                succ[i] = [x[1] for x in t["arms"]] + [t["else"]]
            elif k == "call":
                for o in t["args"]:
                    op(o, u, d)
                if "fo" in t:
                    op(t["fo"], u, d)
                pl(t["dest"], u, d, True)
                succ[i] = [t["to"]] if t["to"] is not None else []
            elif k == "drop":
                pl(t["p"], u, d)
                succ[i] = [t["to"]]
            elif k == "assert":
                op(t["cond"], u, d)
                succ[i] = [t["to"]]
            elif k == "return":
                u.add(0)
        live = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for i in range(n - 1, -1, -1):
                o = set()
                for x in succ[i]:
                    o |= live[x]
                new = use[i] | (o - deff[i])
                if new != live[i]:
                    live[i] = new
                    changed = True
        preds = [0] * n
        for i in range(n):
            for x in succ[i]:
                preds[x] += 1
        preds[0] += 1
        r = ([frozenset(x) for x in live], preds, succ, addr)
        self.live_cache[fn["key"]] = r
        return r

    # -------------------------------------------------------------- running a function
    def reach(self, st, args):
        """Objects and symbol names reachable from the arguments."""
        objs, names = set(), set()
        work = list(args)
        smem = [o for o in st.mem if o[0] == "S"]
        while work:
            v = work.pop()
            for o in self.refs(v):
                if o not in objs and o in st.mem:
                    objs.add(o)
                    work.append(st.mem[o])
            new = self.syms(v) - names
            if new:
                names |= new
                for o in smem:
                    if o not in objs and any(related(o[1], n) for n in new):
                        objs.add(o)
                        work.append(st.mem[o])
        return objs, names

    def unclash(self, rv, ns, clash, taken):
        """Rename what a callee produced under a name which the caller still uses for an older
        value."""
        mem, con = dict(ns.mem), dict(ns.con)
        for f in clash:
            i = 1
            while any(related_down("%s~%d" % (f, i), x) for x in taken):
                i += 1
            g = "%s~%d" % (f, i)
            rv = self.renamep(rv, f, g)
            mem = {(o[0], self.ren1(o[1], f, g)) if o[0] == "S" else o: self.renamep(v, f, g) for o, v in mem.items()}
            con = {self.renamep(k, f, g): c for k, c in con.items()}
        return rv, State(mem, con, ns.mon, ns.path)

    def ren1(self, n, a, b):
        return b + n[len(a):] if related_down(a, n) else n

    def renamep(self, v, a, b):
        if not isinstance(v, tuple) or not v:
            return v
        if v[0] == "sym":
            return ("sym", self.ren1(v[1], a, b))
        if v[0] == "ref" and v[1][0] == "S":
            return ("ref", ("S", self.ren1(v[1][1], a, b)), v[2])
        return tuple(self.renamep(x, a, b) if isinstance(x, tuple) else x for x in v)

    def refs(self, v):
        r = self._refs.get(v)
        if r is None:
            if not isinstance(v, tuple) or not v:
                return frozenset()
            if v[0] == "ref":
                r = frozenset([v[1]])
            else:
                r = frozenset()
                for x in v:
                    if isinstance(x, tuple) and x:
                        r = r | self.refs(x)
            self._refs[v] = r
        return r

    def run(self, fn, args, st, frame=0):
        """All (return value, state) outcomes of a call; memoised on the part of the state which
        the callee can reach."""
        if not self.memo or frame == 0:
            return self._run(fn, args, st, frame)
        objs, names = self.reach(st, args)
        rest = {}
        sub = {}
        for o, v in st.mem.items():
            if o in objs or o[0] == "H" and False:
                sub[o] = v
            else:
                rest[o] = v
        con = {}
        for k, c in st.con.items():
            sy = self.syms(k)
            if any(related(a, b) for a in sy for b in names):
                con[k] = c
        live = set(self.roots)
        for v in rest.values():
            live |= self.syms(v)
        roots = frozenset(n for n in live if any(related(n, b) for b in names))
        key = (fn["key"], tuple(args), frame, frozenset(sub.items()), frozenset(con.items()), st.mon, roots, tuple(self.stack[-1:]) if False else 0,
               frozenset(k for k in self.stack if k in self.rec_keys))
        hit = self.cache.get(key)
        if hit is None:
            saved, savedf = self.roots, self.freshened
            self.roots = set(roots)
            self.freshened = set()
            try:
                outs = self._run(fn, args, State(sub, con, st.mon, None), frame)
            finally:
                self.roots = saved
                fr = self.freshened
                self.freshened = savedf
            self.cache[key] = (outs, fr)
        else:
            outs, fr = hit
        self.freshened |= fr
        clash = set()
        if fr:
            taken = set()
            for v in rest.values():
                taken |= self.syms(v)
            clash = {f for f in fr if any(related_down(f, x) for x in taken)}
        res = []
        for rv, ns in outs:
            if clash:
                rv, ns = self.unclash(rv, ns, clash, taken)
            mem = dict(rest)
            mem.update(ns.mem)
            nc = dict(ns.con)
            for k, c in st.con.items():
                if k not in nc:
                    if k in con and fr and any(related_down(f, n) for f in fr for n in self.syms(k)) and not \
                            any(related_down(f, n) for f in clash for n in self.syms(k)):
                        continue
                    nc[k] = c
            path = st.path
            if ns.path is not None:
                tr = ns.trail(8)
                for x in tr:
                    path = (x, path)
            res.append((rv, State(mem, nc, ns.mon, path)))
        return res

    def _run(self, fn, args, st, frame=0):
        """All (return value, state) outcomes of a call."""
        if frame > self.max_depth:
            raise Budget("call depth in " + fn["name"])
        self.covered.add(fn["key"])
        live, preds, succ, pinned = self.live_in(fn)
        st = st.copy()
        for i, a in enumerate(args):
            st.mem[(frame, i + 1)] = a
        self.stack.append(fn["key"])
        results = {}
        work = [(0, st)]
        seen = {}
        try:
            while work:
                bb, st = work.pop()
                while True:
                    self.steps += 1
                    if self.steps > self.budget:
                        raise Budget("step budget in " + fn["name"])
                    if preds[bb] > 1:
                        lv = live[bb]
                        self.prune(st, frame, lv, None, ())
                        self.gc(st)
                        ss = seen.setdefault(bb, {} if self.merge else set())
                        if self.merge:
                            st = self.merge(ss, st, None)
                            if st is None:
                                break
                        else:
                            k = st.key()
                            if k in ss:
                                break
                            ss.add(k)
                        if self.prof is not None:
                            self.prof.setdefault((fn["key"], bb), []).append(st.key())
                    if self.block_hook:
                        self.block_hook(st, fn, bb, frame)
                    b = fn["blocks"][bb]
                    for s in b["st"]:
                        if s["s"] == "=":
                            v = self.rvalue(st, frame, s["rv"], fn, s["at"][1])
                            self.write(st, frame, s["p"], v, fn, s["at"])
                        elif s["s"] == "setdiscr":
                            pass
                    t = b["term"]
                    k = t["t"]
                    if k == "goto":
                        bb = t["to"]
                        continue
                    if k == "return":
                        rv = st.mem.get((frame, 0), UNIT)
                        if rv[0] == "undef":
                            rv = UNIT
                        out = self.leave(st, frame, rv)
                        if self.merge:
                            self.merge(results, out[1], out[0])
                            break
                        kk = (out[0], out[1].key())
                        if kk not in results:
                            results[kk] = out
                        break
                    if k in ("unreachable", "resume", "terminate", "other"):
                        break
                    if k == "drop":
                        if self.on_drop:
                            self.on_drop(self, st, fn, t, frame, b["at"])
                        bb = t["to"]
                        continue
                    if k == "assert":
                        bb = t["to"]
                        continue
                    if k == "switch":
                        v = self.operand(st, frame, t["o"])
                        v = self.deref_all(st, v)
                        outs = self.switch(st, v, t, fn, b["at"], frame, bb)
                        if not outs:
                            break
                        for nb, ns in outs[1:]:
                            work.append((nb, ns))
                        bb, st = outs[0]
                        continue
                    if k == "call":
                        cargs = [self.operand(st, frame, a) for a in t["args"]]
                        if t["to"] is not None:
                            lv = live[t["to"]]
                            self.prune(st, frame, lv, t["dest"][0], cargs)
                        outs = self.call(st, fn, t, cargs, frame, b["at"])
                        if t["to"] is None or not outs:
                            break
                        nxt = []
                        for rv, ns in outs:
                            self.write(ns, frame, t["dest"], rv, fn, b["at"])
                            nxt.append((t["to"], ns))
                        for x in nxt[1:]:
                            work.append(x)
                        bb, st = nxt[0]
                        continue
                    raise Budget("unknown terminator " + k)
        finally:
            self.stack.pop()
        return list(results.values())

    merge = None            # joins a state with those seen at the same point: (seen, state, return value) -> state or None
    block_hook = None

    def prune(self, st, frame, live, dest, extra):
        """Forget the locals which are dead and which no live reference reaches."""
        dead = {o for o in st.mem if o[0] == frame and o[1] not in live and o[1] != dest}
        if not dead:
            return
        work = [v for o, v in st.mem.items() if o not in dead]
        work.extend(extra)
        while work and dead:
            for o in self.refs(work.pop()):
                if o in dead:
                    dead.discard(o)
                    work.append(st.mem[o])
        for o in dead:
            del st.mem[o]

    def syms(self, v):
        """Names of the symbols a value mentions (memoised)."""
        c = self._syms
        r = c.get(v)
        if r is None:
            if not isinstance(v, tuple) or not v:
                return frozenset()
            if v[0] == "sym":
                r = frozenset([v[1]])
            elif v[0] == "ref":
                r = frozenset([v[1][1]]) if v[1][0] == "S" else frozenset()
            else:
                r = frozenset()
                for x in v:
                    if isinstance(x, tuple) and x:
                        r = r | self.syms(x)
            c[v] = r
        return r

    def gc(self, st):
        """Drop the constraints on values which nothing live can reach."""
        if not st.con:
            return
        live = set()
        for o, v in st.mem.items():
            live |= self.syms(v)
            if o[0] == "S":
                live.add(o[1])
        live |= self.roots
        for k in list(st.con):
            ok = False
            for n in self.syms(k):
                if n in live:
                    ok = True
                    break
                i = len(n) - 1
                while i > 0:
                    if n[i] == "[" and (n[i + 1] == "]" or n[i + 1] == "g"):
                        break         # an element of a sequence is named afresh when it is read again
                    if n[i] in ".@[~" and n[:i] in live:
                        ok = True
                        break
                    i -= 1
                if ok:
                    break
            if not ok:
                del st.con[k]

    def leave(self, st, frame, rv):
        # A returned reference into this frame cannot exist in safe code, but a value may be
        # reached through a reference-typed local which is transparent.
        for o in [o for o in st.mem if isinstance(o[0], int) and o[0] >= frame]:
            del st.mem[o]
        return (rv, st)

    def switch(self, st, v, t, fn, at, frame, bb):
        k = self.known(st, v)
        ty = t["ty"]
        arms = [(self.armval(a[0], ty), a[1]) for a in t["arms"]]
        if k is not None:
            for val, to in arms:
                if val == k:
                    return [(to, st)]
            return [(t["else"], st)]
        outs = []
        split = self.on_split(st, v, fn, at, bb, frame) if self.on_split else None
        for val, to in arms:
            ns = st.copy()
            if self.assume(ns, v, val):
                ns.path = ("%s:%s %s = %s" % (fn["name"].split("::")[-1], at[1], self.show(v), val), st.path)
                outs.append((to, ns))
        ns = st.copy()
        ok = True
        if ty == "bool":
            ok = self.assume(ns, v, 1) if all(a[0] == 0 for a in arms) else self.assume(ns, v, 0)
        else:
            for val, _ in arms:
                if v[0] == "ex" and v[1] in ("Eq", "Lt", "Not"):
                    continue
                if not self.exclude(ns, v, val):
                    ok = False
                    break
        if ok and fn["blocks"][t["else"]]["term"]["t"] == "unreachable" and not fn["blocks"][t["else"]]["st"]:
            ok = False
        if ok:
            ns.path = ("%s:%s %s = other" % (fn["name"].split("::")[-1], at[1], self.show(v)), st.path)
            outs.append((t["else"], ns))
        return outs

    on_split = None

    def armval(self, a, ty):
        x = int(a)
        m = re.match(r"^i(8|16|32|64|128|size)$", ty)
        if m:
            w = 64 if m.group(1) == "size" else int(m.group(1))
            if x >= 2 ** (w - 1):
                x -= 2 ** w
        return x

    def show(self, v):
        if v[0] == "sym":
            return v[1]
        if v[0] == "c":
            return str(v[1])
        if v[0] == "ex":
            if v[1] == "discr":
                return "variant(%s)" % self.show(v[2])
            return "%s(%s)" % (v[1], ", ".join(self.show(x) if isinstance(x, tuple) else str(x) for x in v[2:]))
        if v[0] == "s":
            return "".join(p[1] if p[0] == "lit" else "{%s}" % (p[1],) for p in v[1])
        return v[0]

    # -------------------------------------------------------------- calls
    def call(self, st, fn, t, args, frame, at):
        c = t["c"]
        if "ptr" in c:
            fv = self.deref_all(st, self.operand(st, frame, t["fo"]))
            return self.call_value(st, fv, args, frame, fn, t, at, spread=False)
        if self.on_call:
            r = self.on_call(self, st, fn, t, c, args, frame, at)
            if r is not None:
                return r
        names = (norm(c.get("name")), norm(c.get("rname")))
        for nm in names:
            h = self.handlers.get(nm)
            if h:
                r = h(self, st, fn, t, c, args, frame, at)
                if r is not None:
                    return r
        # closures and function values called through the Fn traits
        if (c.get("trait") or "").split("::")[-1] in ("FnOnce", "FnMut", "Fn"):
            fv = self.deref_all(st, args[0])
            if fv[0] in ("agg", "fn") and (fv[0] == "fn" or fv[1].startswith("closure:") or fv[1].startswith("zst:")):
                return self.call_value(st, fv, [args[0]] + list(args[1:]), frame, fn, t, at, spread=True)
        body = self.F.callee_body(c)
        if body is not None and not (self.opaque and self.opaque(body)):
            return self.enter(body, args, st, frame, fn, t, at)
        if body is not None and body["name"].endswith("::next") and args and args[0][0] == "ref":
            return self.advance(self, st, args[0], fn, at, frame)
        return self.unknown(st, fn, t, c, args, frame, at)

    def enter(self, body, args, st, frame, fn, t, at):
        if self.stack.count(body["key"]) >= 2 or (body["key"] in self.stack and not self.allow_recursion(body)):
            return self.on_recursion(st, body, args, frame, fn, t, at)
        if body["argc"] != len(args):
            if body["kind"] == "Closure" and len(args) == 2:
                tup = self.deref_all(st, args[1])
                if tup[0] == "agg":
                    args = [args[0]] + list(tup[3])
            if body["argc"] != len(args):
                return self.unknown(st, fn, t, t["c"], args, frame, at)
        return self.run(body, args, st, frame + 1)

    def allow_recursion(self, body):
        return body["crate"] not in ("math_core", "math_core_renderer_internal", "mathcore")

    def on_recursion(self, st, body, args, frame, fn, t, at):
        return self.unknown(st, fn, t, t["c"], args, frame, at)

    def call_value(self, st, fv, args, frame, fn, t, at, spread):
        if fv[0] == "fn":
            c = self._callees[fv[1]]
            rest = args
            if spread:
                tup = self.deref_all(st, args[1]) if len(args) > 1 else UNIT
                rest = list(tup[3]) if tup[0] == "agg" else [tup]
            t2 = dict(t)
            t2["c"] = c
            return self.call(st, fn, t2, rest, frame, at)
        if fv[0] == "agg" and (fv[1].startswith("closure:") or fv[1].startswith("zst:")):
            inst = fv[1].split(":", 1)[1]
            body = self.F.fns.get(inst) or self.F.fns.get(inst.split("<")[0])
            if body is None:
                for k in self.F.byid.get(inst, []):
                    body = self.F.fns[k]
            if body is not None:
                tup = self.deref_all(st, args[1]) if len(args) > 1 else UNIT
                rest = list(tup[3]) if tup[0] == "agg" and tup[1] == "tuple" else list(args[1:])
                selfv = args[0]
                if body["locals"][1]["ty"].startswith("&"):
                    if selfv[0] != "ref":
                        obj = ("H", "clo", frame, inst)
                        st.mem[obj] = fv
                        selfv = ("ref", obj, ())
                else:
                    selfv = fv
                if body["argc"] == 1 + len(rest):
                    if body["key"] in self.stack:
                        return self.on_recursion(st, body, [selfv] + rest, frame, fn, t, at)
                    return self.run(body, [selfv] + rest, st, frame + 1)
        return self.unknown(st, fn, t, t["c"], args, frame, at)

    def unknown(self, st, fn, t, c, args, frame, at):
        """An external call without a model: its result is an uninterpreted function of the
        arguments, and whatever it can reach through &mut is unknown afterwards."""
        nm = norm(c.get("rname") or c.get("name") or "?")
        self.unknown_calls[nm] = self.unknown_calls.get(nm, 0) + 1
        st = st.copy()
        mut = False
        for a, ty in zip(args, t.get("aty", [])):
            if ty.startswith("&mut ") and a[0] == "ref":
                mut = True
                self.havoc(st, a, "%s@%s" % (nm, at[1]), nm, fn, at)
        dargs = tuple(self.deref_all(st, a) for a in args)
        if mut:
            v = ("sym", "?%s:%s@%s" % (nm, fn["name"].split("::")[-1], at[1]))
            self.forget(st, lambda n, w=v[1]: n.startswith(w))
        else:
            v = EX("call:" + nm, *dargs)
            if depth(v) > 7:
                v = ("sym", "?%s:%s@%s" % (nm, fn["name"].split("::")[-1], at[1]))
        return [(v, st)]

    def rename(self, v, a, b):
        if not isinstance(v, tuple) or not v:
            return v
        if v == ("sym", a):
            return ("sym", b)
        return tuple(self.rename(x, a, b) if isinstance(x, tuple) else x for x in v)

    def fresh_name(self, st, base):
        """A name for a new unknown value which no live value uses; forgets its old meaning."""
        live = set()
        for o, v in st.mem.items():
            live |= self.syms(v)
        n = base
        i = 0
        while any(related_down(n, x) for x in live):
            i += 1
            n = "%s~%d" % (base, i)
        self.fresh(st, n)
        return n

    def fresh(self, st, nm):
        """`nm` now stands for another value: forget everything about the old one."""
        pre = (nm,)
        def hit(n):
            return n.startswith(nm) and (len(n) == len(nm) or n[len(nm)] in ".@[")
        self.freshened.add(nm)
        self.forget(st, hit)
        for o in [o for o in st.mem if o[0] == "S" and hit(o[1])]:
            del st.mem[o]

    def havoc(self, st, ref, tag, nm, fn, at):
        n = ("sym", "?havoc:" + tag)
        self.forget(st, lambda x, w=n[1]: x.startswith(w))
        self.store(st, ref[1], ref[2], n, fn, at)
