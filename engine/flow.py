"""Which markup characters can occur in which field: an interprocedural, flow-sensitive (within a
function), field-based dataflow analysis.

The domain of every value which can carry text is a set over {'<', '&', '"', 'o'} ('o': any other
character).  Within a function comparisons and character classes restrict a character on the edges
of the control flow; across functions, parameters, results and the fields of the program's own
types are joined over all sites.  Values of library functions have the union of their arguments;
a mutable reference which is passed to one can receive the union of the other arguments."""
import heapq
from facts import norm

ALL = frozenset('<&"o')
NONE = frozenset()
OTHER = frozenset("o")
# types of one field, and types whose contents are only reached through their methods, are as their contents
OPAQUE = ("StringBuilder", "Buffer", "Arena", "SuperChar", "Pool")
NOTEXT = ("bool", "usize", "isize", "u64", "i64", "u128", "f32", "f64", "()", "!", "i32", "i8", "i16")
CLASS = {"is_ascii_digit": OTHER, "is_ascii_alphabetic": OTHER, "is_ascii_alphanumeric": OTHER, "is_alphabetic": OTHER, "is_alphanumeric": OTHER, "is_numeric": OTHER,
         "is_ascii_lowercase": OTHER, "is_ascii_uppercase": OTHER, "is_lowercase": OTHER, "is_uppercase": OTHER, "is_ascii_hexdigit": OTHER, "is_digit": OTHER,
         "is_whitespace": OTHER, "is_ascii_whitespace": OTHER, "is_control": OTHER, "is_ascii_control": OTHER}
NOTCLASS = {"is_ascii_punctuation": OTHER, "is_ascii_graphic": OTHER, "is_ascii": OTHER}      # if false


def cls(cp):
    c = chr(cp) if 0 <= cp < 0x110000 else "o"
    return frozenset(c) if c in '<&"' else OTHER


class Flow:
    def __init__(self, F, crates, roots=lambda f: False):
        self.F = F
        self.fns = {k: f for k, f in F.fns.items() if f["crate"] in crates}
        self.crates = crates
        self.roots = roots
        self.D = {}                     # node -> set
        self.why = {}                   # (node, char) -> (function, line)
        self.users = {}                 # node -> functions which read it
        self.reads = None
        self.work = []
        self.inwork = set()
        self.closures = {}
        self.pre = {}
        self.mutes = {}
        self.preds = {}

    # ------------------------------------------------------------ nodes
    def get(self, n):
        self.users.setdefault(n, set()).add(self.cur)
        return self.D.get(n, NONE)

    def put(self, n, d, at):
        old = self.D.get(n, NONE)
        new = d - old
        if not new:
            return
        self.D[n] = old | d
        for c in new:
            self.why[(n, c)] = (self.fname, at)
        for u in self.users.get(n, ()):
            self.queue(u)

    def queue(self, k):
        if k not in self.inwork:
            self.inwork.add(k)
            self.work.append(k)

    def tracked(self, adt):
        """A type of the program whose fields are looked at one by one."""
        a = self.F.adts.get(adt)
        if not a or not a["crate"].startswith("math"):
            return False
        if adt.split("::")[-1] in OPAQUE:
            return False
        return not (a["kind"].lower() == "struct" and len(a["variants"][0]["fields"]) == 1)

    def opaque_fn(self, body):
        s = norm(body.get("self_ty") or "").split("<")[0].split("::")[-1]
        return s in OPAQUE

    # ------------------------------------------------------------ constants
    def value(self, v, at, depth=0):
        """The characters of a constant; fields of the program's types are entered on the way."""
        if not isinstance(v, dict) or depth > 40:
            return NONE
        if "c" in v:
            return cls(v["c"])
        if "str" in v:
            return frozenset().union(*[cls(ord(c)) for c in v["str"]]) if v["str"] else NONE
        if "i" in v:
            try:
                i = int(v["i"])
            except ValueError:
                return NONE
            return cls(i)
        if "bytes" in v:
            return frozenset().union(*[cls(b) for b in v["bytes"]]) if v["bytes"] else NONE
        if "ref" in v:
            return self.value(v["ref"], at, depth + 1)
        if "static" in v:
            return self.get(("S", v["static"]))
        r = NONE
        for k in ("seq", "tup"):
            for x in v.get(k, ()):
                r |= self.value(x, at, depth + 1)
        if "adt" in v:
            t = self.tracked(v["adt"])
            for name, x in zip(v.get("fn", ()), v.get("fs", ())):
                d = self.value(x, at, depth + 1)
                if t:
                    self.put(("F", v["adt"], v["v"] if self.isenum(v["adt"]) else None, name), d, at)
                else:
                    r |= d
        return r

    def isenum(self, adt):
        return self.F.adts[adt]["kind"].lower() == "enum"

    # ------------------------------------------------------------ whole program
    def solve(self):
        self.cur, self.fname = "statics", "statics"
        for k, s in self.F.statics.items():
            if s["crate"] in self.crates:
                self.fname = k
                self.put(("S", k), self.value(s["val"], s["span"][1]), s["span"][1])
        for k, f in self.fns.items():
            if self.roots(f):
                self.fname = f["name"] + " (called from outside)"
                for i in range(1, f["argc"] + 1):
                    self.put(("P", k, i), ALL, f["span"][1])
            self.queue(k)
        self.steps = 0
        while self.work:
            k = self.work.pop()
            self.inwork.discard(k)
            if k in self.fns:
                self.steps += 1
                self.function(k, self.fns[k])
        return self

    # ------------------------------------------------------------ one function
    def prepare(self, k, f):
        """Aliases of references, what temporaries are copies of, what boolean temporaries decide."""
        alias, copyof, pred, writes = {}, {}, {}, {}
        for b in f["blocks"]:
            for s in b["st"]:
                if s["s"] == "=" and not s["p"][1]:
                    writes[s["p"][0]] = writes.get(s["p"][0], 0) + 1
            t = b["term"]
            if t["t"] == "call" and not t["dest"][1]:
                writes[t["dest"][0]] = writes.get(t["dest"][0], 0) + 1
        for b in f["blocks"]:
            for s in b["st"]:
                if s["s"] != "=" or s["p"][1]:
                    continue
                l, rv = s["p"][0], s["rv"]
                if rv["r"] in ("ref", "rawptr"):
                    alias.setdefault(l, set()).add(self.pk(rv["p"]))
                elif rv["r"] in ("use", "cast") and rv["o"]["k"] in ("copy", "move"):
                    alias.setdefault(l, set()).add(("=", self.pk(rv["o"]["p"])))
        return alias, copyof, writes

    @staticmethod
    def pk(p):
        return (p[0], tuple(tuple(e[:3]) if e[0] in ("f", "v") else (e[0],) for e in p[1]))

    def root(self, p, copyof):
        """The place whose value `p` has."""
        for _ in range(20):
            l, pr = p
            if l in copyof:
                q = copyof[l]
                while pr and pr[0] == ("*",) and True:
                    pr = pr[1:]
                    break
                p = (q[0], q[1] + pr)
            else:
                break
        return (p[0], tuple(e for e in p[1] if e != ("*",)))

    def function(self, k, f):
        self.cur, self.fname = k, f["name"]
        if k not in self.pre:
            self.pre[k] = self.prepare(k, f)
        self.alias, self.copyof, self.writes = self.pre[k]
        self.f = f
        init = {}
        for i in range(1, f["argc"] + 1):
            init[i] = self.get(("P", k, i))
        self.analyse(f, init)

    def analyse(self, f, init, collect=None):
        blocks = f["blocks"]
        # two-phase: env = (dict local -> set, dict place -> restriction)
        # (states in which a boolean is known to be different are kept apart, within limits)
        start = (init, {}, {}, {})
        ins = {(0, ()): start}
        parts = {}
        rank = f.get("rank") or self.ranks(f)
        work = [(0, 0, ())]
        n = 0
        while work:
            at = heapq.heappop(work)[1:]
            bi = at[0]
            n += 1
            if n > 400 * len(blocks) + 20000:
                raise RuntimeError("no fixed point in " + f["name"])
            env, res, bools, self.copyof = ({**x} for x in ins[at])
            b = blocks[bi]
            for s in b["st"]:
                if s["s"] == "=":
                    self.assign(env, res, bools, s["p"], s["rv"], s["at"][1] if s.get("at") else 0)
            for to, e2 in self.term(f, b, env, res, bools, collect):
                if to is None or blocks[to].get("cleanup"):
                    continue
                key = tuple(sorted((l, min(x[1])) for l, x in e2[2].items() if x[0] == "const" and len(x[1]) == 1))
                if key:
                    ks = parts.setdefault(to, set())
                    if key not in ks and len(ks) >= 8:
                        key = ()
                    else:
                        ks.add(key)
                m = self.join(ins.get((to, key)), e2)
                if m is not None:
                    ins[(to, key)] = m
                    w = (rank[to], to, key)
                    if w not in work:
                        heapq.heappush(work, w)

    @staticmethod
    def ranks(f):
        """Blocks in reverse postorder."""
        blocks, seen, post = f["blocks"], {0}, []

        def succ(b):
            t = blocks[b]["term"]
            out = [x[1] for x in t["arms"]] + [t["else"]] if t["t"] == "switch" else [t["to"]] if t.get("to") is not None else []
            return iter([x for x in out if x is not None])
        stack = [(0, succ(0))]
        while stack:
            b, it = stack[-1]
            for x in it:
                if x not in seen:
                    seen.add(x)
                    stack.append((x, succ(x)))
                    break
            else:
                post.append(b)
                stack.pop()
        f["rank"] = {b: i for i, b in enumerate(reversed(post))}
        return f["rank"]

    @staticmethod
    def join(a, b):
        if a is None:
            return b
        changed = False
        env = a[0]
        for l, d in b[0].items():
            old = env.get(l)
            if old is d:
                continue
            if old is None or not d <= old:
                if not changed:
                    env = dict(env)
                    changed = True
                env[l] = d if old is None else old | d
        res = {}
        for p, d in a[1].items():
            if p in b[1]:
                res[p] = d | b[1][p]
                if res[p] != d:
                    changed = True
            else:
                changed = True
        bools = {}
        for l, x in a[2].items():
            y = b[2].get(l)
            if y == x:
                bools[l] = x
            elif y is not None and x[0] == "const" and y[0] == "const":
                bools[l] = ("const", x[1] | y[1])
                changed = True
            else:
                changed = True
        cp = {}
        for l, x in a[3].items():
            if b[3].get(l) == x:
                cp[l] = x
            else:
                changed = True
        return (env, res, bools, cp) if changed else None

    # ------------------------------------------------------------ reading and writing
    def fieldnode(self, proj):
        """The last field of a type of the program which the projection goes through, with what follows."""
        variant = None
        hit = None
        for i, e in enumerate(proj):
            if e[0] == "v":
                variant = e[2]
            elif e[0] == "f":
                own = e[3] if len(e) > 3 else ""
                if own in self.closures or own and own not in self.F.adts and "closure" in own:
                    hit = ("U", own, e[1])
                elif own and self.tracked(own):
                    hit = ("F", own, variant if self.isenum(own) else None, e[2])
                variant = None
        return hit

    def notext(self, ty):
        t = ty.replace("&mut ", "").replace("&", "").strip()
        return t in NOTEXT

    def read(self, env, res, p):
        if p[1]:
            n = self.fieldnode(p[1])
            if n is not None:
                d = self.get(n)
                if n[0] == "F" and self.mutefield(n):
                    d = NONE
            else:
                d = self.local(env, p[0])
        else:
            d = self.local(env, p[0])
        if res:
            r = res.get(self.root(self.pk(p), self.copyof))
            if r is not None:
                d = d & r
        return d

    def fieldtype(self, n):
        for v in self.F.adts[n[1]]["variants"]:
            if n[2] is None or v["name"] == n[2]:
                for x in v["fields"]:
                    if x["name"] == n[3]:
                        return x["ty"]
        return ""

    def local(self, env, l):
        if self.mute(l):
            return NONE
        d = env.get(l, NONE)
        for q in self.targets(l):
            n = self.fieldnode_pk(q)
            if n is not None:
                d = d | self.get(n)
            elif q[0] != l:
                d = d | env.get(q[0], NONE)
        return d

    def mute(self, l):
        """Values of this type carry no text themselves (the fields of the program's own types do)."""
        x = self.f["locals"][l]
        r = x.get("mute")
        if r is None:
            r = x["mute"] = self.notext(x["ty"]) or x.get("adt") is not None and self.tracked(x["adt"])
        return r

    def mutefield(self, n):
        if n not in self.mutes:
            r = False
            for v in self.F.adts[n[1]]["variants"]:
                if n[2] is None or v["name"] == n[2]:
                    for x in v["fields"]:
                        if x["name"] == n[3]:
                            tys = [t for t in x["tys"] if t != "&"]
                            r = self.notext(x["ty"]) or bool(tys) and self.tracked(tys[0])
            self.mutes[n] = r
        return self.mutes[n]

    def targets(self, l, seen=None):
        """The places a reference can point to."""
        seen = seen if seen is not None else set()
        if l in seen:
            return
        seen.add(l)
        for a in self.alias.get(l, ()):
            if a[0] == "=":
                q = a[1]
                if self.f["locals"][l]["ty"].startswith(("&", "*")):
                    yield from self.targets(q[0], seen)
            else:
                yield a
                if not any(e[0] == "f" for e in a[1]):
                    yield from self.targets(a[0], seen)

    def fieldnode_pk(self, q):
        variant, hit = None, None
        ty = None
        l = q[0]
        own = self.f["locals"][l].get("adt")
        # the owners are found again from the type of the local
        cur = own
        for e in q[1]:
            if e[0] == "v":
                variant = e[2]
            elif e[0] == "f":
                if cur and cur in self.F.adts:
                    if self.tracked(cur):
                        hit = ("F", cur, variant if self.isenum(cur) else None, e[2])
                    nxt = None
                    for v in self.F.adts[cur]["variants"]:
                        if variant is None or v["name"] == variant:
                            for x in v["fields"]:
                                if x["name"] == e[2]:
                                    tys = [t for t in x["tys"] if t in self.F.adts]
                                    nxt = tys[0] if tys else None
                    cur = nxt
                elif cur and "closure" in cur:
                    hit = ("U", cur, e[1])
                    cur = None
                else:
                    cur = None
                variant = None
        return hit

    def write(self, env, res, bools, p, d, at, weak=False):
        l = p[0]
        if p[1]:
            n = self.fieldnode(p[1])
            if n is not None:
                if not (n[0] == "F" and self.mutefield(n)):
                    self.put(n, d, at)
                return
            env[l] = env.get(l, NONE) | d
            if p[1][0][0] == "*":
                self.through(env, l, d, at)
        else:
            env[l] = (env.get(l, NONE) | d) if weak else d
            for q in [q for q in res if q[0] == l]:
                del res[q]
            for q in [q for q, x in self.copyof.items() if q == l or x[0] == l]:
                del self.copyof[q]
            bools.pop(l, None)
        if l == 0:
            self.put(("R", self.cur), d, at)

    def through(self, env, l, d, at):
        """Something is written through the reference l."""
        if not d:
            return
        for q in self.targets(l):
            n = self.fieldnode_pk(q)
            if n is not None:
                if n[0] != "F" or not self.mutefield(n):
                    self.put(n, d, at)
            else:
                env[q[0]] = env.get(q[0], NONE) | d
        if 1 <= l <= self.f["argc"]:
            self.put(("O", self.cur, l), d, at)
        for a in self.alias.get(l, ()):
            q = a[1] if a[0] == "=" else a
            if isinstance(q, tuple) and 1 <= q[0] <= self.f["argc"]:
                self.put(("O", self.cur, q[0]), d, at)

    def operand(self, env, res, o, at):
        if o["k"] == "const":
            v = o["val"]
            if self.notext(o.get("ty", "")):
                return NONE
            if isinstance(v, dict) and "fn" in v and isinstance(v["fn"], dict):
                return NONE
            if isinstance(v, dict) and "uneval" in v:
                return NONE
            return self.value(v, at)
        return self.read(env, res, o["p"])

    def assign(self, env, res, bools, p, rv, at):
        k = rv["r"]
        newbool = None
        if k in ("use", "cast", "repeat"):
            d = self.operand(env, res, rv["o"], at)
            if k == "cast" and self.notext(rv.get("ty", "")):
                d = NONE
            if not p[1] and k == "use" and rv["o"]["k"] == "const" and "b" in (rv["o"].get("val") or {}):
                newbool = ("const", frozenset([bool(rv["o"]["val"]["b"])]))
            elif not p[1] and k == "use" and rv["o"]["k"] != "const" and not rv["o"]["p"][1]:
                newbool = bools.get(rv["o"]["p"][0])
        elif k in ("ref", "rawptr"):
            d = self.read(env, res, rv["p"])
        elif k == "bin":
            a, b = self.operand(env, res, rv["a"], at), self.operand(env, res, rv["b"], at)
            d = a | b
            if rv["op"] in ("Eq", "Ne"):
                d = NONE
                for x, y in ((rv["a"], rv["b"]), (rv["b"], rv["a"])):
                    if x["k"] != "const" and y["k"] == "const" and isinstance(y["val"], dict) and ("c" in y["val"] or "i" in y["val"]):
                        cp = y["val"].get("c", y["val"].get("i"))
                        m = cls(int(cp))
                        other = ALL if m == OTHER else ALL - m
                        pl = self.root(self.pk(x["p"]), self.copyof)
                        newbool = ("pred", pl, m, other) if rv["op"] == "Eq" else ("pred", pl, other, m)
            elif rv["op"] in ("Lt", "Le", "Gt", "Ge"):
                d = NONE
                for x, y, op in ((rv["a"], rv["b"], rv["op"]), (rv["b"], rv["a"], {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}[rv["op"]])):
                    if x["k"] != "const" and y["k"] == "const" and isinstance(y["val"], dict) and ("c" in y["val"] or "i" in y["val"]):
                        cp = int(y["val"].get("c", y["val"].get("i")))
                        t = {"Lt": lambda c: c < cp, "Le": lambda c: c <= cp, "Gt": lambda c: c > cp, "Ge": lambda c: c >= cp}[op]
                        yes = frozenset(c for c in '<&"' if t(ord(c))) | OTHER
                        no = frozenset(c for c in '<&"' if not t(ord(c))) | OTHER
                        newbool = ("pred", self.root(self.pk(x["p"]), self.copyof), yes, no)
        elif k == "un":
            d = NONE
            o = rv["o"]
            if rv["op"] == "Not" and o["k"] != "const" and not o["p"][1]:
                q = bools.get(o["p"][0])
                if q and q[0] == "pred":
                    newbool = ("pred", q[1], q[3], q[2])
                elif q:
                    newbool = ("const", frozenset(not x for x in q[1]))
        elif k == "agg":
            d = NONE
            if rv["ak"] == "adt" and self.tracked(rv["adt"]):
                for nm, x in zip(rv["fn"], rv["fs"]):
                    n = ("F", rv["adt"], rv["v"] if self.isenum(rv["adt"]) else None, nm)
                    if not self.mutefield(n):
                        self.put(n, self.operand(env, res, x, at), at)
            elif rv["ak"] == "closure":
                self.closures[rv["id"]] = 1
                for i, x in enumerate(rv["fs"]):
                    self.put(("U", rv["id"], i), self.operand(env, res, x, at), at)
            else:
                for x in rv["fs"]:
                    d = d | self.operand(env, res, x, at)
        else:
            d = NONE
        if not p[1] and self.mute(p[0]):
            d = NONE
        src = rv["p"] if k in ("ref", "rawptr") else rv["o"]["p"] if k in ("use", "cast") and rv["o"]["k"] != "const" else None
        if src is not None:
            src = self.root(self.pk(src), self.copyof)
        self.write(env, res, bools, p, d, at)
        if src is not None and not p[1] and src[0] != p[0]:
            self.copyof[p[0]] = src
        if newbool is not None and not p[1]:
            bools[p[0]] = newbool

    # ------------------------------------------------------------ control flow
    def term(self, f, b, env, res, bools, collect):
        t = b["term"]
        k = t["t"]
        at = b["at"][1] if b.get("at") else 0
        if k in ("goto", "drop", "assert"):
            return [(t["to"], (env, res, bools, self.copyof))]
        if k == "return":
            if collect is not None:
                collect.append(bools.get(0))
            return []
        if k == "switch":
            return self.switch(f, t, env, res, bools)
        if k == "call":
            self.call(env, res, bools, t, at)
            return [(t["to"], (env, res, bools, self.copyof))] if t.get("to") is not None else []
        return []

    def switch(self, f, t, env, res, bools):
        out = []
        o = t["o"]
        if o["k"] == "const":
            return [(to, (env, res, bools, self.copyof)) for to in [x[1] for x in t["arms"]] + [t["else"]]]
        ty = t["ty"]
        p = self.pk(o["p"])
        if ty == "bool":
            q = bools.get(p[0]) if not p[1] else None
            if q and o["k"] == "move":
                bools = {l: x for l, x in bools.items() if l != p[0]}
            arms = dict((int(v), to) for v, to in t["arms"])
            for val in (0, 1):
                to = arms.get(val, t["else"])
                r2 = res
                if q and q[0] == "pred":
                    m = q[2] if val else q[3]
                    r2 = self.restrict(env, res, q[1], m)
                    if r2 is None:
                        continue
                elif q and q[0] == "const" and bool(val) not in q[1]:
                    continue
                out.append((to, (env, r2, bools, self.copyof)))
            return out
        if ty in ("char", "u8", "u16", "u32"):
            root = self.root(p, self.copyof)
            seen = set()
            for v, to in t["arms"]:
                m = cls(int(v))
                seen.add(int(v))
                r2 = self.restrict(env, res, root, m)
                if r2 is not None:
                    out.append((to, (env, r2, bools, self.copyof)))
            m = ALL - frozenset(c for c in '<&"' if ord(c) in seen)
            r2 = self.restrict(env, res, root, m)
            if r2 is not None:
                out.append((t["else"], (env, r2, bools, self.copyof)))
            return out
        return [(to, (env, res, bools, self.copyof)) for to in [x[1] for x in t["arms"]] + [t["else"]]]

    def restrict(self, env, res, place, m):
        cur = res.get(place, ALL)
        if not place[1]:
            d = env.get(place[0], ALL) if not self.alias.get(place[0]) else ALL
            if self.exact and place[0] in self.exact:
                if not (d & cur & m):
                    return None
        if m >= cur:
            return res
        r = dict(res)
        r[place] = cur & m
        return r

    exact = ()

    # ------------------------------------------------------------ calls
    def call(self, env, res, bools, t, at):
        c = t["c"]
        name = norm(c.get("rname") or c.get("name") or "")
        last = name.split("::")[-1]
        ds = [self.operand(env, res, a, at) for a in t["args"]]
        dest = t["dest"]
        body = self.F.callee_body(c)
        newbool = None
        if last in CLASS or last in NOTCLASS:
            a = t["args"][0]
            if a["k"] != "const":
                pl = self.root(self.pk(a["p"]), self.copyof)
                newbool = ("pred", pl, CLASS[last], ALL) if last in CLASS else ("pred", pl, ALL, NOTCLASS[last])
        if last in ("eq", "ne") and len(t["args"]) == 2 and newbool is None:
            pass
        if body is not None and body["key"] in self.fns and not self.opaque_fn(body):
            k = body["key"]
            args = list(enumerate(ds, 1))
            for i, d in args:
                self.put(("P", k, i), d, at)
            d = self.get(("R", k))
            for i, a in enumerate(t["args"], 1):
                o = self.get(("O", k, i))
                if o and a["k"] != "const":
                    env[a["p"][0]] = env.get(a["p"][0], NONE) | o
                    self.through(env, a["p"][0], o, at)
            if t["dty"] == "bool" and newbool is None:
                newbool = self.predicate(body, t["args"])
            # a closure which is handed on is called with what the callee has
        else:
            d = NONE
            for x in ds:
                d |= x
            into = d
            for a, ty in zip(t["args"], t["aty"]):
                d |= self.callable(a, ty, ds, at)
            if c.get("name", "").split("::")[-1] in ("call", "call_mut", "call_once") or "ptr" in c:
                d |= self.callable(t["args"][0] if t["args"] else None, t["aty"][0] if t["aty"] else "", ds, at)
            if not ("len" == last or last.startswith("is_")):
                for a, ty in zip(t["args"], t["aty"]):
                    if a["k"] != "const" and ty.startswith("&mut"):
                        env[a["p"][0]] = env.get(a["p"][0], NONE) | into
                        self.through(env, a["p"][0], into, at)
        if self.notext(t["dty"]) or not dest[1] and self.mute(dest[0]):
            d = NONE
        self.write(env, res, bools, dest, d, at)
        if newbool is not None and not dest[1]:
            bools[dest[0]] = newbool

    def callable(self, a, ty, ds, at):
        """What a closure or function which a library function is given can return."""
        if a is None:
            return NONE
        into = NONE
        for x in ds:
            into |= x
        if a["k"] == "const":
            v = a["val"]
            if isinstance(v, dict) and isinstance(v.get("fn"), dict):
                body = self.F.callee_body(v["fn"])
                if body is not None and body["key"] in self.fns and not self.opaque_fn(body):
                    for i in range(1, body["argc"] + 1):
                        self.put(("P", body["key"], i), into, at)
                    return self.get(("R", body["key"]))
                nm = v["fn"].get("id", "")
                owner, var = nm.rsplit("::", 1)[0], nm.split("::")[-1]
                if owner in self.F.adts and self.tracked(owner):
                    for vv in self.F.adts[owner]["variants"]:
                        if vv["name"] == var:
                            for x in vv["fields"]:
                                n = ("F", owner, var, x["name"])
                                if not self.mutefield(n):
                                    self.put(n, into, at)
            return NONE
        adt = self.f["locals"][a["p"][0]].get("adt") or ""
        out = NONE
        for k in self.F.byid.get(adt, ()):
            body = self.F.fns[k]
            if body["kind"] == "Closure" and k in self.fns:
                for i in range(2, body["argc"] + 1):
                    self.put(("P", k, i), into, at)
                out |= self.get(("R", k))
        return out

    def predicate(self, body, args):
        """For a function from a character to bool: with which characters it can be true and false."""
        cs = [i for i, l in enumerate(body["locals"][1:body["argc"] + 1], 1) if l["ty"].replace("&", "").strip() in ("char", "u8")]
        if len(cs) != 1 or args[cs[0] - 1]["k"] == "const":
            return None
        key = body["key"]
        if key not in self.preds:
            self.preds[key] = (ALL, ALL)
            save = (self.cur, self.fname, self.alias, self.copyof, self.writes, self.f, self.exact)
            if key not in self.pre:
                self.f = body
                self.pre[key] = self.prepare(key, body)
            self.alias, self.copyof, self.writes = self.pre[key]
            self.f = body
            self.exact = tuple(cs)
            yes, no = set(), set()
            for ch in ALL:
                got = []
                init = {i: self.D.get(("P", key, i), NONE) for i in range(1, body["argc"] + 1)}
                init[cs[0]] = frozenset([ch])
                self.analyse(body, init, got)
                for g in got:
                    if g is None:
                        yes.add(ch), no.add(ch)
                    elif g[0] == "const":
                        if True in g[1]:
                            yes.add(ch)
                        if False in g[1]:
                            no.add(ch)
                    else:
                        if g[1][0] != cs[0] or ch in g[2]:
                            yes.add(ch)
                        if g[1][0] != cs[0] or ch in g[3]:
                            no.add(ch)
            self.cur, self.fname, self.alias, self.copyof, self.writes, self.f, self.exact = save
            self.preds[key] = (frozenset(yes), frozenset(no))
        y, n = self.preds[key]
        return ("pred", self.root(self.pk(args[cs[0] - 1]["p"]), self.copyof), y, n)

    # ------------------------------------------------------------ explanations
    def trail(self, node, ch, depth=8):
        out = []
        seen = set()
        while (node, ch) in self.why and depth and node not in seen:
            seen.add(node)
            fn, at = self.why[(node, ch)]
            out.append("%s can get %r in %s (line %s)" % (self.show(node), ch, fn, at))
            depth -= 1
            break
        return out

    @staticmethod
    def show(n):
        if n[0] == "F":
            return "%s%s.%s" % (n[1].split("::")[-1], "::" + n[2] if n[2] else "", n[3])
        return {"P": "parameter %s of %s", "R": "the result of %s", "O": "what parameter %s of %s refers to", "U": "the variable %s of %s", "S": "%s"}[n[0]] % (
            (n[2], n[1]) if n[0] in "POU" else (n[1],))
