"""Call graph over the dumped bodies: what can be reached from given functions."""
from facts import norm


def entries(F):
    """The public methods of the converter and of errors, and everything they need."""
    return [f["key"] for f in F.local("math_core") if f.get("vis") == "Public" and f["kind"] != "Closure" and
            norm(f.get("self_ty") or "").split("<")[0].split("::")[-1] in ("LatexToMathML", "LatexError")]


def succs(F, f):
    """(callee body or None, callee record, kind) of every call, closure and function value in f."""
    out = []
    for bi, b in enumerate(f["blocks"]):
        for s in b["st"]:
            if s["s"] == "=":
                rv = s["rv"]
                if rv.get("r") == "agg" and rv.get("ak") == "closure":
                    for k in F.byid.get(rv["id"], []):
                        out.append((F.fns[k], None, "closure", bi))
                for o in fnvals(rv):
                    g = F.callee_body(o)
                    out.append((g, o, "value", bi))
        t = b["term"]
        if t["t"] == "call":
            c = t.get("c", {})
            if "name" in c:
                out.append((F.callee_body(c), c, "call", bi))
            else:
                out.append((None, c, "pointer", bi))
            for a in t["args"]:
                for o in fnvals(a):
                    out.append((F.callee_body(o), o, "value", bi))
        elif t["t"] == "drop" and t.get("c"):
            out.append((F.callee_body(t["c"]), t["c"], "drop", bi))
    return out


def fnvals(x):
    """Function items mentioned in a constant."""
    if isinstance(x, dict):
        if isinstance(x.get("fn"), dict) and "name" in x["fn"]:
            yield x["fn"]
        for k, v in x.items():
            if k != "fn" or not isinstance(v, dict):
                yield from fnvals(v)
    elif isinstance(x, list):
        for v in x:
            yield from fnvals(v)


class Graph:
    def __init__(self, F, crates=None):
        self.F = F
        self.crates = crates
        self.cache = {}
        self.implcache = {}

    def out(self, key):
        r = self.cache.get(key)
        if r is None:
            r = self.cache[key] = succs(self.F, self.F.fns[key])
            f = self.F.fns[key]
            extra = []
            for g, c, kind, bi in r:
                if g is None and c and c.get("trait"):
                    # a trait method whose implementation is not fixed here (virtual, or inside a generic library function)
                    for h in self.impls_of(c):
                        extra.append((h, c, "impl", bi))
                if g is None and c and kind == "call":
                    # a library function which is handed a workspace type calls its trait methods (Display::fmt, Clone::clone ...)
                    for h in self.methods_for(c):
                        extra.append((h, c, "via", bi))
            self.cache[key] = r = r + extra
        return r

    def impls_of(self, c):
        k = (c["trait"], c["name"].split("::")[-1])
        if k not in self.implcache:
            self.implcache[k] = [f for f in self.F.local() if (self.crates is None or f["crate"] in self.crates) and (f.get("impl_trait") or "").split("<")[0].split("::")[-1] == k[0].split("<")[0].split("::")[-1]
                                 and f["name"].split("::")[-1] == k[1]]
        return self.implcache[k]

    def methods_for(self, c):
        import re
        out = []
        for a in c.get("targs") or []:
            for w in re.findall(r"[\w:]+", a):
                w = w.split("::")[-1]
                if len(w) > 2 and w[0].isupper():
                    out += self.trait_methods().get(w, [])
        return out

    def trait_methods(self):
        if not hasattr(self, "_tm"):
            self._tm = {}
            for f in self.F.local():
                if f.get("impl_trait") and f.get("self_ty") and (self.crates is None or f["crate"] in self.crates):
                    tr = f["impl_trait"].split("<")[0].split("::")[-1]
                    if tr in ("Display", "Debug", "Clone", "Drop", "Iterator", "PartialEq", "Hash", "Default", "From", "Write", "AsRef", "Deref", "DerefMut"):
                        n = norm(f["self_ty"]).split("<")[0].split("::")[-1].lstrip("&")
                        self._tm.setdefault(n, []).append(f)
        return self._tm

    def closure(self, roots):
        seen, work = {}, [(r, None) for r in roots]
        while work:
            k, parent = work.pop()
            if k in seen:
                continue
            seen[k] = parent
            for g, c, kind, bi in self.out(k):
                if g is not None and g["key"] not in seen:
                    work.append((g["key"], k))
        return seen

    def path(self, seen, k, n=8):
        out = []
        while k is not None and len(out) < n:
            out.append(self.F.fns[k]["name"])
            k = seen[k]
        return list(reversed(out))
