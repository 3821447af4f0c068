"""Loading and pretty-printing of the facts dumped by the driver."""
import json, os, re, functools

CRATES = ["math_core_renderer_internal", "math_core", "mathcore", "math_core_python", "math_core_wasm"]


@functools.lru_cache(maxsize=None)
def norm(name):
    """Normalise a pretty path: drop the std/core/alloc prefix and generic arguments."""
    if name is None:
        return ""
    n = re.sub(r"\bwasm_bindgen::__rt::(?=(?:std|core|alloc)::|(?:str|slice|vec|string|option|result|iter|boxed|borrow|fmt|ops|cmp|convert|char|mem|ptr|clone|default)::)", "", name)
    n = re.sub(r"\b(?:std|core|alloc)::", "", n)
    # remove generics (balanced)
    out = []
    d = 0
    i = 0
    while i < len(n):
        ch = n[i]
        if n.startswith("::<", i) and d == 0:
            d = 1
            i += 3
            # skip balanced
            while i < len(n) and d:
                if n[i] == "<":
                    d += 1
                elif n[i] == ">" and n[i - 1] != "-":
                    d -= 1
                i += 1
            continue
        out.append(ch)
        i += 1
    return "".join(out)


class Facts:
    def __init__(self, d):
        self.dir = d
        self.fns = {}
        self.adts = {}
        self.statics = {}
        self.impls = []
        self.byid = {}
        for c in CRATES:
            with open(os.path.join(d, c + ".json")) as f:
                j = json.load(f)
            for k, v in j["fns"].items():
                v["key"] = k
                if k not in self.fns or v["crate"] == c:
                    self.fns[k] = v
            for k, v in j["adts"].items():
                if v and (k not in self.adts or v["crate"] == c):
                    self.adts[k] = v
            for s in j["statics"]:
                s["crate"] = c
                self.statics[s["id"]] = s
            for i in j["impls"]:
                i["crate"] = c
                self.impls.append(i)
        for k, v in self.fns.items():
            self.byid.setdefault(v["id"], []).append(k)
        for k, a in self.adts.items():
            a["id"] = k
        self._resolve_cache = {}

    # ---- lookup
    def find(self, suffix, crate=None, unique=True):
        """All functions whose pretty name ends with `suffix` (path-component aligned)."""
        r = []
        for k, v in self.fns.items():
            n = norm(v["name"])
            if (n == suffix or n.endswith("::" + suffix)) and (crate is None or v["crate"] == crate):
                r.append(v)
        return r

    def find_methods(self, ty, crate=None):
        """All functions in inherent impls of the type."""
        r = []
        for v in self.local(crate):
            n = norm(v.get("self_ty") or "").split("<")[0]
            if n and (n == ty or n.endswith("::" + ty) or ty.endswith("::" + n)) and not v.get("impl_trait"):
                r.append(v)
        return r

    def local(self, crate=None):
        for k, v in self.fns.items():
            if v["crate"] in CRATES and (crate is None or v["crate"] == crate):
                yield v

    def callee_body(self, c):
        """The dumped body for a callee record, or None."""
        i = c.get("inst")
        if i and i in self.fns:
            return self.fns[i]
        if c.get("virtual") or not i:
            return None
        # non-generic workspace function dumped by its own crate
        ids = self.byid.get(c.get("id")) if c.get("inst", "").startswith(c.get("id", "\0")) else None
        if ids:
            return self.fns[ids[0]]
        base = i.split("<")[0] if i else None
        if base in self.fns:
            return self.fns[base]
        return None


def pstr(f, p):
    l, pr = p
    loc = f["locals"][l]
    s = loc.get("name") or "_%d" % l
    if loc.get("name"):
        s = "%s_%d" % (s, l)
    for e in pr:
        k = e[0]
        if k == "*":
            s = "(*%s)" % s
        elif k == "*raw":
            s = "(*raw %s)" % s
        elif k == "f":
            s = "%s.%s" % (s, e[2] or e[1])
        elif k == "i":
            s = "%s[_%d]" % (s, e[1])
        elif k == "ci":
            s = "%s[c%d%s]" % (s, e[1], "end" if e[3] else "")
        elif k == "sub":
            s = "%s[%d..%d%s]" % (s, e[1], e[2], "end" if e[3] else "")
        elif k == "v":
            s = "(%s as %s)" % (s, e[2])
        else:
            s += "?"
    return s


def cstr(v):
    if "fn" in v and isinstance(v["fn"], dict):
        return "fn " + v["fn"].get("name", "?") + v["fn"].get("args", "")
    return json.dumps(v, ensure_ascii=False)[:160]


def ostr(f, o):
    if o["k"] == "const":
        return "const " + cstr(o["val"]) + (" from " + o["from"] if "from" in o else "")
    return ("" if o["k"] == "copy" else "move ") + pstr(f, o["p"])


def rstr(f, r):
    k = r["r"]
    if k == "use":
        return ostr(f, r["o"])
    if k in ("ref", "rawptr"):
        return "&%s%s%s" % ("raw " if k == "rawptr" else "", "mut " if r["mut"] else "", pstr(f, r["p"]))
    if k == "cast":
        return "%s as %s (%s)" % (ostr(f, r["o"]), r["ty"], r["kind"])
    if k == "bin":
        return "%s(%s, %s)" % (r["op"], ostr(f, r["a"]), ostr(f, r["b"]))
    if k == "un":
        return "%s(%s)" % (r["op"], ostr(f, r["o"]))
    if k == "discr":
        return "discr(%s)" % pstr(f, r["p"])
    if k == "agg":
        return "%s %s{%s}" % (r["ak"], r.get("v", r.get("id", "")), ", ".join(ostr(f, x) for x in r["fs"]))
    return json.dumps(r)


def dump(f):
    out = ["fn %s  [%s] %s argc=%d" % (f["name"], f["key"], f["span"], f["argc"])]
    for i, l in enumerate(f["locals"]):
        out.append("  let _%d: %s %s" % (i, l["ty"], l.get("name", "")))
    if f.get("upvars"):
        out.append("  upvars " + json.dumps(f["upvars"]))
    for i, b in enumerate(f["blocks"]):
        if b.get("cleanup"):
            continue
        out.append(" bb%d:" % i)
        for s in b["st"]:
            if s["s"] == "=":
                out.append("    %s = %s" % (pstr(f, s["p"]), rstr(f, s["rv"])))
            elif s["s"] != "dead":
                out.append("    " + json.dumps(s))
        t = b["term"]
        k = t["t"]
        if k == "call":
            c = t["c"]
            nm = c.get("rname") or c.get("name") or ("ptr " + ostr(f, t["fo"]) if "fo" in t else "?")
            out.append("    %s = CALL %s%s [%s](%s) -> %s  @%s" % (pstr(f, t["dest"]), nm, c.get("args", ""), c.get("inst", "-"),
                       ", ".join(ostr(f, a) for a in t["args"]), t["to"], b["at"][1]))
        elif k == "switch":
            out.append("    switch %s %s else %s @%s" % (ostr(f, t["o"]), t["arms"], t["else"], b["at"][1]))
        elif k == "goto":
            out.append("    goto %d" % t["to"])
        elif k == "drop":
            out.append("    drop %s -> %d" % (pstr(f, t["p"]), t["to"]))
        elif k == "assert":
            out.append("    assert %s==%s %s -> %d @%s" % (ostr(f, t["cond"]), t["exp"], t["msg"], t["to"], b["at"][1]))
        else:
            out.append("    " + k)
    return "\n".join(out)


if __name__ == "__main__":
    import sys
    F = Facts(sys.argv[1])
    if len(sys.argv) > 2:
        for f in F.find(sys.argv[2]):
            print(dump(f))
    else:
        for k, v in F.fns.items():
            print(v["crate"], k, v["name"], len(v["blocks"]), v["span"])
