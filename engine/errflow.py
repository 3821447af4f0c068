"""Are errors lost?  For every call which can give an error, the paths on which it does are followed
through the function: the error (moved, wrapped, converted), or another one which is made on the way,
must be in what the function returns."""
import re
from facts import norm

DROPS = {"or_else", "or", "unwrap_or", "unwrap_or_else", "unwrap_or_default", "ok", "is_some_and", "map_or", "map_or_else", "and_then_or"}
LIMIT = 40000


class ErrFlow:
    def __init__(self, F, mark):
        self.F, self.mark = F, mark             # mark: does a type carry an error?
        self.lost = {}
        self.sources = 0
        self.made = 0
        self.steps = 0
        self.stored = set()

    # ---- facts about single locals
    def prepare(self, f):
        disc, refs, isv, n = {}, {}, {}, {}
        for b in f["blocks"]:
            for s in b["st"]:
                if s["s"] != "=" or s["p"][1]:
                    continue
                l, rv = s["p"][0], s["rv"]
                n[l] = n.get(l, 0) + 1
                if rv["r"] == "discr":
                    disc.setdefault(l, rv["p"])
                elif rv["r"] in ("ref", "rawptr"):
                    refs.setdefault(l, rv["p"])
                elif rv["r"] == "use" and rv["o"]["k"] in ("copy", "move") and not rv["o"]["p"][1] and f["locals"][l]["ty"].startswith("&"):
                    refs.setdefault(l, rv["o"]["p"])
            t = b["term"]
            if t["t"] == "call" and not t["dest"][1] and t.get("c", {}).get("name"):
                last = norm(t["c"]["name"]).split("::")[-1]
                if last in ("is_err", "is_ok", "is_none", "is_some") and t["args"][0]["k"] in ("copy", "move"):
                    isv[t["dest"][0]] = (last, t["args"][0]["p"][0])
        return disc, refs, isv, n

    def root(self, l, refs):
        for _ in range(10):
            if l in refs:
                l = refs[l][0]
            else:
                break
        return l

    def payload(self, f, p, h):
        """Does reading this place give the error (True), something else (False) of a holder?"""
        for e in p[1]:
            if e[0] == "v" and e[2] in ("Ok", "Continue", "None"):
                return False
        return True

    def errarm(self, ty):
        t = ty.lstrip("&").replace("mut ", "")
        if re.match(r"(std::result::|core::result::)?Result<|(std|core)::ops::ControlFlow<|(std::option::|core::option::)?Option<", t):
            return "1"
        return None

    def function(self, f):
        pre = None
        for bi, b in enumerate(f["blocks"]):
            t = b["term"]
            for si, s in enumerate(b["st"]):
                if b.get("cleanup") or s["s"] != "=" or s["rv"].get("v") != "Err" or s["p"][1] or not self.mark(f["locals"][s["p"][0]]["ty"]) \
                        or self.mark(f["locals"][s["p"][0]]["ty"].split("<", 1)[1].split(",")[0]):
                    continue
                pre = pre or self.prepare(f)
                self.sources += 1
                self.made += 1
                self.follow(f, bi, None, pre, si)
            if b.get("cleanup") or t["t"] != "call" or t.get("to") is None or not self.mark(t.get("dty", "")):
                continue
            if t["dest"][1] and any(e[0] == "*" for e in t["dest"][1]):
                continue
            if t["dty"].startswith("&") or not re.match(r"[\w:]*(Result|Option|ControlFlow)<", t["dty"]):
                continue                 # an error which is made but not reported yet
            pre = pre or self.prepare(f)
            self.sources += 1
            self.follow(f, bi, t, pre)

    def where(self, f, bi):
        at = f["blocks"][bi].get("at")
        return at[1] if at else 0

    def follow(self, f, b0, t0, pre, si=None):
        """from a call (its error arms), or from the statement si which makes an error"""
        disc, refs, isv, n = pre
        seen = set()
        if t0 is None:
            start = frozenset([f["blocks"][b0]["st"][si]["p"][0]])
            name = "Err made here"
            work = [(b0, start, ((b0,),))]
        else:
            start = frozenset([t0["dest"][0]])
            name = norm(t0.get("c", {}).get("name", "?"))
            work = [(t0["to"], start, ((b0,),))]
        skip = si
        while work:
            bi, H, trail = work.pop()
            if (bi, H) in seen:
                continue
            seen.add((bi, H))
            if len(seen) > LIMIT:
                self.lost[("limit", f["name"], name)] = (self.where(f, b0), "the paths of the error are too many", ())
                return
            self.steps += 1
            b = f["blocks"][bi]
            dead = None
            first, skip = (skip, None) if skip is not None else (-1, None)
            for j, s in enumerate(b["st"]):
                if s["s"] != "=" or j <= first:
                    continue
                H2 = self.stmt(f, H, s, refs)
                if not H2 and H:
                    dead = (s.get("at") or [0, 0])[1]
                    break
                H = H2
            if dead is not None:
                self.report(f, name, b0, bi, "it is overwritten", trail)
                continue
            t = b["term"]
            k = t["t"]
            if k == "return":
                if 0 not in H and "mem" not in H:
                    self.report(f, name, b0, bi, "the function returns without it", trail)
                elif "mem" in H:
                    self.stored.add((f["name"], name))
                continue
            if k == "switch":
                for to in self.arms(f, t, H, disc, refs, isv):
                    work.append((to, H, trail + ((bi,),) if len(trail) < 60 else trail))
                continue
            if k == "call":
                H2, why = self.call(f, t, H, refs)
                if why:
                    self.report(f, name, b0, bi, why, trail)
                    continue
                if t.get("to") is not None:
                    work.append((t["to"], H2, trail))
                continue
            if t.get("to") is not None:
                work.append((t["to"], H, trail))

    def stmt(self, f, H, s, refs):
        p, rv = s["p"], s["rv"]
        if rv.get("r") == "agg" and rv.get("adt") and self.mark(rv["adt"]):
            return H | {p[0]}           # the error is replaced by another one
        ops = [rv[k] for k in ("o", "a", "b") if isinstance(rv.get(k), dict)] + list(rv.get("fs", ()))
        got = False
        gone = set()
        for o in ops:
            if o.get("k") in ("copy", "move") and o["p"][0] in H and self.payload(f, o["p"], H):
                ty = self.optype(f, o)
                if ty is not None and not self.mark(ty) and not any(e[0] == "v" for e in o["p"][1]):
                    continue
                got = True
                if o["k"] == "move":
                    gone.add(o["p"][0])
        if rv.get("r") == "discr" or not got:
            if not p[1] and p[0] in H and rv.get("r") not in ("ref", "discr"):
                return H - {p[0]}
            return H
        H = H - gone
        if any(e[0] == "*" for e in p[1]):
            r = self.root(p[0], refs)
            return H | ({r} if r > f["argc"] or r == 0 else {"mem"})
        return H | {p[0]}

    def optype(self, f, o):
        return f["locals"][o["p"][0]]["ty"] if not o["p"][1] else None

    def arms(self, f, t, H, disc, refs, isv):
        allarms = [x[1] for x in t["arms"]] + ([t["else"]] if t.get("else") is not None else [])
        o = t["o"]
        if o.get("k") not in ("copy", "move") or o["p"][1]:
            return allarms
        l = o["p"][0]
        want = None
        if l in disc:
            q = disc[l]
            r = self.root(q[0], refs)
            if r in H or q[0] in H:
                if not [e for e in q[1] if e[0] != "*"]:
                    want = self.errarm(f["locals"][q[0]]["ty"])
        elif l in isv:
            kind, a = isv[l]
            if self.root(a, refs) in H or a in H:
                want = {"is_err": "1", "is_ok": "0"}.get(kind)
        if want is None:
            return allarms
        for v, to in t["arms"]:
            if v == want:
                return [to]
        return [t["else"]] if t.get("else") is not None else []

    def call(self, f, t, H, refs):
        name = norm(t.get("c", {}).get("name", "?"))
        last = name.split("::")[-1]
        moved = {a["p"][0] for a in t["args"] if a.get("k") == "move" and a["p"][0] in H and self.payload(f, a["p"], H)}
        looked = {a["p"][0] for a in t["args"] if a.get("k") in ("copy", "move") and self.root(a["p"][0], refs) in H} - moved
        d, dty = t["dest"], t.get("dty", "")
        H2 = H - moved
        if moved:
            if self.mark(dty) and last not in DROPS:
                H2 = H2 | {d[0]}
            else:
                sink = [a["p"][0] for a, ty in zip(t["args"], t.get("aty", [])) if ty.startswith("&mut ") and a.get("k") in ("copy", "move")]
                if sink and last not in DROPS:
                    for x in sink:
                        r = self.root(x, refs)
                        H2 = H2 | ({r} if r > f["argc"] else {"mem"})
                elif not H2:
                    return H2, "it is handed to %s, which gives no error back" % last
        elif d[0] in H2 and not d[1]:
            H2 = H2 - {d[0]}
            if not H2:
                return H2, "it is overwritten by the result of %s" % last
        if looked and self.mark(dty) and not moved:
            H2 = H2 | {d[0]}          # a view of it
        return H2, None

    def report(self, f, name, b0, bi, why, trail):
        k = (f["name"], name)
        if k not in self.lost:
            lines = [self.where(f, x[0]) for x in trail] + [self.where(f, bi)]
            self.lost[k] = (self.where(f, b0), why, lines)
