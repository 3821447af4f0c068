"""Analysis of everything which writes markup: `Emitter::emit` for every kind of node, the `<math>`
wrapper around it, and the HTML fallback for errors.

Every feasible path of the writer is explored with the values of the node unknown, and the text it
writes is fed to a pushdown monitor for XML.  A complaint which depends on the contents of a field
of the node (text which is written unescaped, two contradicting flags) becomes an obligation on
that field, which the analysis of the producers has to discharge."""
import signal
import multiprocessing, os, re, time
from facts import norm
from absint import (AGG, Budget, C, EX, Interp, OK, State, SYM, UNIT)
import taint
import xmlmon

BUDGET = int(os.environ.get("VERIF_EMIT_BUDGET", "16000000"))
_F = None
LAYOUT = frozenset()        # (function, line) of the white space whose amount depends on the layout


BLANK = {}                  # functions which only append white space -> the sites in them


def blank(I, st, b, args, types):
    """Is this a call of a function which only appends white space (which may be none)?
    With an argument 0 it is looked into, since it must write nothing then."""
    if b is None or b["key"] not in BLANK:
        return None
    if any(I.deref_all(st, a) == C(0) for a, ty in zip(args, types) if ty == "usize"):
        return None
    return BLANK[b["key"]]


def layout(fn, at):
    return bool(LAYOUT) and fn is not None and (fn["key"], at[1] if at else 0) in LAYOUT


def adt_named(F, suffix, crate=None):
    for k, a in F.adts.items():
        if k.endswith("::" + suffix) and (crate is None or a["crate"] == crate) and a["crate"].startswith("math"):
            return k
    return None


def field_of(F, roots, name):
    """(owner ADT, variant, field) which a symbol name denotes, with the ADTs of its type."""
    parts = re.findall(r"[.@\[~][^.@\[~]*", name)
    m = re.match(r"^[^.@\[~]*", name)
    cur = roots.get(m.group(0))
    if cur is None:
        return None, []
    cur = [cur]
    variant = None
    last = None
    for p in parts:
        if p[0] == "@":
            variant = p[1:]
            continue
        if p[0] == ".":
            f = p[1:]
            hit = None
            for t in cur:
                a = F.adts.get(t)
                if not a:
                    continue
                for v in a["variants"]:
                    if variant is not None and v["name"] != variant and a["kind"] == "enum":
                        continue
                    for fl in v["fields"]:
                        if fl["name"] == f:
                            hit = (t, v["name"] if a["kind"] == "enum" else None, f, fl)
                            break
                    if hit:
                        break
                if hit:
                    break
            if hit and not (hit[0].startswith("core::option") and last):
                last = hit[:3]
                cur = [x for x in hit[3]["tys"] if x != "&"]
            elif hit:
                cur = [x for x in cur if not x.startswith("core::option")]
            variant = None
    return last, cur


def setup(F):
    I = Interp(F, budget=BUDGET)
    I.int_cap = 0
    I.opaque = lambda b: "SuperChar" in (b.get("self_ty") or "") and not b["name"].endswith("::fmt")
    return I


class Rec:
    def __init__(self, F, I, roots, label):
        self.F, self.I, self.roots, self.label = F, I, roots, label
        self.viol = {}
        self.params = {}
        self.obl = {}

    def err(self, st, fn, at):
        def e(kind, msg, p=None):
            where = (fn["name"] if fn else "?", at[1] if at else 0)
            trail = st.trail(40)
            if kind == "escape" and p is not None and p[1][0] == "sym":
                last, tys = field_of(self.F, self.roots, p[1][1])
                base = re.match(r"^[^.@\[~]*", p[1][1]).group(0)
                if self.params.get(base, "").startswith(("std::option::Option<&str>", "core::option::Option<&str>")):
                    last = ("parameter", self.label, base)     # the class which the caller asks for
                if last:
                    chars = "".join(re.findall(r"[<&\"]", msg.split(" is written")[0]))
                    k = ("text", last, chars)
                    self.obl.setdefault(k, (where, msg, trail))
                    return
            if kind == "escape" and p is not None:
                syms = self.I.syms(p[1])
                msg = msg + " (%s)" % self.I.show(p[1])[:120]
            if kind == "escape" and p is not None and self.label == "IdentifierChar":
                chars = "".join(re.findall(r"[<&\"]", msg.split(" is written")[0]))
                self.obl.setdefault(("text", (adt_named(self.F, "ast::Node"), "IdentifierChar", "0"), chars), (where, msg, trail))
                return
            if kind == "dupattr":
                bits = [(k[1], v) for k, v in st.con.items() if k[0] == "bits"]
                for b, (m, v) in bits:
                    if b[0] == "sym" and v:
                        last, tys = field_of(self.F, self.roots, b[1])
                        own = [last[0]] if last and "OpAttrs" in last[0] else []
                        if own and bin(v).count("1") >= 2:
                            # minimal pairs: the two bits whose text collides are the last ones tested
                            k = ("bits", own[0], m, v)
                            self.obl.setdefault(k, (where, msg, trail))
                            return
            k = (kind, where[0], msg)
            if k not in self.viol:
                if kind in ("xml", "arity") and not any(x[0] in ("xml", "arity") for x in self.viol):
                    signal.alarm(30)          # broken markup can go on for ever
                self.viol[k] = (where, msg, trail)
        return e


def finite_hook(I):
    """Lengths which reach the output are finite; Length::none is the only other value and is
    tested for where it can occur."""
    def assume(st, v, val, old=I.assume):
        return old(st, v, val)
    return assume


WATCH = ("id", "href")


def piece_name(I, p):
    """A stable description of a piece of output text."""
    if p[0] == "lit":
        return p[1]
    v = p[1]
    base = v[1] if v[0] == "sym" else I.show(v)
    return "{%s%s}" % (base, ("|" + p[3] + ":" + "".join(sorted(c for c in '<&"' if c in p[2]))) if p[3] == "percent-encoded" else "")


class Mon:
    """The monitor of one emit function: the XML monitor plus the order of the children which were
    written, the element of a sequence which is due, and the attribute value being written.

    state: (xml, children, due, value)"""

    def __init__(self, X, R, I):
        self.X, self.R, self.I = X, R, I
        self.F = I.F
        self.NODE = adt_named(I.F, "ast::Node")
        self.names = {I.discr_of(self.NODE, i): v["name"] for i, v in enumerate(I.F.adts[self.NODE]["variants"])}
        self.values = {}
        self.texts = {}
        self.laid = set()

    def start(self):
        return (self.X.start(), (), None, None)

    def feed(self, st, pieces, fn, at):
        err = self.R.err(st, fn, at)
        x, ch, due, val = st.mon
        if layout(fn, at):
            self.laid.add((fn["key"], at[1]))
            self.X.obligations += 1
            top = x[2][-1][0]
            if x[0] != "T" or top in xmlmon.LEAF or top in xmlmon.INLINE:
                err("layout", "the white space for pretty printing is written %s" % ("inside <%s>" % top if x[0] == "T" else "inside a tag"))
        for p in pieces:
            if p[0] == "lit" and val is None and '"' not in p[1]:
                x = self.X.feed(x, [p], err)
                continue
            for q in ([("lit", c) for c in p[1]] if p[0] == "lit" else [p]):
                was = x
                x = self.X.feed(x, [q], err)
                if was[0] == "V" and x[0] == "Q" and x[1][2] in WATCH:
                    val = ""
                elif val is not None and was[0] in ("Q", "E") and x[0] == "S":
                    self.values.setdefault((was[1][2], val), (fn["name"] if fn else "?"))
                    val = None
                elif val is not None:
                    nm = piece_name(self.I, q)
                    if not val.endswith("*"):       # the rest of a text which is escaped piece by piece
                        val += "*" if re.search(r"\[\](~\d+)?[|}]", nm) or nm == "&" or len(val) > 160 else nm
        ns = st.copy()
        ns.mon = (x, ch, due, val)
        return ns

    def white(self, st, ws, fn, at, mode):
        """White space (or none) is appended here."""
        self.X.obligations += 1
        err = self.R.err(st, fn, at)
        if mode == "order":
            return st
        if mode == "flat":
            if any(tuple(w) in LAYOUT for w in ws):
                err("flat", "white space for pretty printing is written although there is no indentation")
            return st
        x, ch, due, val = st.mon
        top = x[2][-1][0]
        if any(tuple(w) in LAYOUT for w in ws):
            self.laid |= {tuple(w) for w in ws}
            if x[0] != "T" or top in xmlmon.LEAF or top in xmlmon.INLINE:
                err("layout", "the white space for pretty printing is written %s" % ("inside <%s>" % top if x[0] == "T" else "inside a tag"))
        if x[0] == "T":
            return st
        ns = st.copy()
        ns.mon = (self.X.feed(x, [("lit", " ")], err), ch, due, val)
        return ns

    def child(self, st, sym, fn, at, mode):
        err = self.R.err(st, fn, at)
        x, ch, due, val = st.mon
        if mode == "xml":
            ns = st.copy()
            ns.mon = (self.X.child(x, "?", err), ch, due, val)
            return ns
        nm = sym[1] if sym[0] == "sym" else self.I.show(sym)
        nm = re.sub(r"~\d+", "", re.sub(r"\bnode@\w+", "", nm))
        if due is not None and sym in due:
            due = due - {sym} or None
        elem = "[]" in nm or nm.startswith("?")
        if not elem and nm in ch:
            err("order", "the child %s is written twice" % nm)
        if nm not in ch:
            ch = ch + (nm,)
        ns = st.copy()
        ns.mon = (self.X.child(x, "?", err), ch, due, val)
        return ns


    def step(self, I, st, src, fn, at):
        """The next element of a sequence is asked for: the one before must be written by now."""
        x, ch, due, val = st.mon
        left = sorted(d[1] for d in due or () if src[0] == "sym" and d[1].startswith(src[1] + "[]"))
        if not left:
            return st
        self.R.err(st, fn, at)("order", "an element of %s is not written" % re.sub(r"~\d+", "", left[0]))
        ns = st.copy()
        ns.mon = (x, ch, None, val)
        return ns

    def elem(self, I, st, src, item, fn, at):
        x, ch, due, val = st.mon
        last, tys = field_of(self.F, self.R.roots, src[1] + "[]") if src[0] == "sym" else (None, [])
        if self.NODE in tys:
            due = frozenset([item])
        else:
            due = frozenset(("sym", "%s.%s" % (item[1], f["name"])) for t in tys if t in self.F.adts and self.F.adts[t]["kind"] == "struct"
                            for f in self.F.adts[t]["variants"][0]["fields"] if self.NODE in f["tys"]) or None
        if due is None:
            return st
        ns = st.copy()
        ns.mon = (x, ch, due, val)
        return ns

    def end(self, I, st, src, fn, at):
        """A sequence has been gone through (or is known to be empty)."""
        if src[0] != "sym" or not isinstance(st.mon, tuple) or "end:" + src[1] in st.mon[1] or src[1] not in self.seqs:
            return st
        ns = st.copy()
        ns.mon = (st.mon[0], st.mon[1] + ("end:" + src[1],)) + st.mon[2:]
        return ns


def run_variant(args):
    vi, mode = args         # mode: "xml" (the text which is written), "order" (the children), "flat" (without indentation)
    F = _F
    I = setup(F)
    reach = reaches(F, "Emitter::emit") if mode == "order" else None
    NODE = adt_named(F, "ast::Node")
    EM = adt_named(F, "ast::Emitter")
    var = F.adts[NODE]["variants"][vi]
    emit = [f for f in F.find("Emitter::emit") if f["crate"] == "math_core_renderer_internal"]
    if len(emit) != 1:
        return dict(name=var["name"], error="Emitter::emit not found")
    emit = emit[0]
    X = xmlmon.Xml(None)
    roots = {"node": NODE, "self": EM}
    R = Rec(F, I, roots, var["name"])
    M = Mon(X, R, I)
    M.seqs = {"node@%s.%s" % (var["name"], f["name"]): f["name"] for f in var["fields"]
              if "[" in f["ty"] and (NODE in f["tys"] or any(NODE in g["tys"] for t in f["tys"] if t in F.adts for v in F.adts[t]["variants"] for g in v["fields"]))}
    if mode == "xml":
        I.on_out = lambda st, name, pieces, fn, at: [M.feed(st, pieces, fn, at)]
    elif mode == "flat":
        def on_out(st, name, pieces, fn, at):
            X.obligations += 1
            if layout(fn, at):
                R.err(st, fn, at)("flat", "white space for pretty printing is written although there is no indentation")
            return [st]
        I.on_out = on_out
    else:
        I.on_elem = M.elem
        I.on_end = M.end
        plain = I.assume

        def assume(st, v, val):
            ok = plain(st, v, val)
            if ok and val == 1 and v[0] == "ex" and v[1] == "isempty":
                st.mon = M.end(I, st, v[2], None, None).mon
            if ok and v[0] == "ex" and v[1] == "discr" and isinstance(st.mon, tuple) and st.mon[2] is not None and v[2] in st.mon[2] \
                    and M.names.get(val, "").endswith("Separator"):
                st.mon = st.mon[:2] + (None,) + st.mon[3:]        # separators are written by the table itself
            return ok
        I.assume = assume

        def lookup(st, m, k, hit):
            st.mon = st.mon[:1] + (st.mon[1] + ("lookup:%s[%s]=%d" % (I.show(m), I.show(k), hit),),) + st.mon[2:]
            return st
        I.on_lookup = lookup
        I.on_step = M.step

    def on_call(I, st, fn, t, c, args, frame, at):
        b = F.callee_body(c)
        ws = blank(I, st, b, args, t.get("aty", []))
        if ws is not None:
            return [(OK(UNIT) if t.get("dty") != "()" else UNIT, M.white(st, ws, fn, at, mode))]
        if b is emit and mode == "flat":
            X.obligations += 1
            if I.deref_all(st, args[2]) != C(0):
                R.err(st, fn, at)("flat", "a child is written with the indentation %s although there is none" % I.show(I.deref_all(st, args[2])))
            return [(OK(UNIT), st)]
        if b is emit:
            return [(OK(UNIT), M.child(st, I.deref_all(st, args[1]), fn, at, mode))]
        n = norm(c.get("name", ""))
        if mode == "order" and (b is None or b["key"] not in reach):
            if "fmt::Error" in t.get("dty", "") and "ControlFlow" not in t["dty"] and n.split("::")[-1] not in ("branch", "from_residual"):
                return [(OK(UNIT), st)]
            if b is not None and any(ty.startswith("&mut ") and ty.endswith("ColumnGenerator") for ty in t.get("aty", [])):
                return [(UNIT, st)]
        if n in ("panicking::panic_fmt", "panicking::panic"):
            return []
        if n.endswith("::is_finite") and args and I.deref_all(st, args[0])[0] == "sym":
            nm = I.deref_all(st, args[0])[1]
            if re.search(r"\.(rem|em|ex)\.0$", nm):
                return [(C(1), st)]
        return None
    I.on_call = on_call
    wi = None
    flds = []
    for i, f in enumerate(F.adts[EM]["variants"][0]["fields"]):
        flds.append(("out", "E") if f["ty"].endswith("String") else SYM("self." + f["name"]))
        if f["ty"].split("::")[-1] == "Warnings":
            wi = i
    st = State(mon=M.start())
    st.mem[("S", "self")] = AGG(EM, 0, flds)
    I.assume(st, EX("discr", SYM("node"), NODE), I.discr_of(NODE, vi))
    t0 = time.time()
    res = dict(name=var["name"], mode=mode, error=None)
    kids, warns = {}, {}
    try:
        outs = I.run(emit, [("ref", ("S", "self"), ()), SYM("node"), C(0) if mode == "flat" else SYM("base_indent")], st)
        sep = var["name"] in ("ColumnSeparator", "RowSeparator")
        for rv, s in outs:
            if mode == "xml" and not sep:
                X.finished(s.mon[0], R.err(s, emit, ("", 0)), 1)
            if mode == "order":
                for q, f in M.seqs.items():
                    if "end:" + q not in s.mon[1]:
                        R.err(s, emit, ("", 0))("order", "the sequence %s is not written completely" % f)
            kids.setdefault(tuple(k for k in s.mon[1] if not k.startswith(("lookup:", "end:"))), s.trail(30))
            w = s.mem[("S", "self")][3][wi] if wi is not None else None
            warns.setdefault((flag_of(I, s, w), tuple(k for k in s.mon[1] if k.startswith("lookup:"))), s.trail(30))
        res["outcomes"] = len(outs)
    except Budget as e:
        res["error"] = str(e)
    bits = [k for k in R.obl if k[0] == "bits"]
    for k in bits:
        # flags which contradict each other: only the smallest sets matter
        if any(o != k and o[1] == k[1] and o[3] & k[3] == o[3] and (o[3] != k[3] or bits.index(o) < bits.index(k)) for o in bits):
            del R.obl[k]
    res.update(viol=list(R.viol.items()), obl=list(R.obl.items()), steps=I.steps, obligations=X.obligations,
               unknown=I.unknown_calls, tags=sorted(X.tags), attrs=sorted(X.attrs), secs=time.time() - t0,
               fns=sorted(I.covered), laid=sorted(M.laid), kids=list(kids.items()), warns=list(warns.items()), values=list(M.values.items()))
    return res


def flag_of(I, s, w):
    """Which warnings are set, relative to the ones on entry: the mask which is or-ed to them."""
    v = I.deref_all(s, w) if w else ("?",)
    if v[0] == "sym" and v[1].startswith("self.") and "@" not in v[1]:
        return 0
    m = re.findall(r"\('ex', 'BitOr', \('sym', 'self\.\w+(?:\.\w+)*'\), \('c', (\d+)\)\)", repr(v))
    if len(m) == 1 and repr(v).count("'ex'") == 1:
        return int(m[0])
    return repr(v)


def getter_masks(F):
    """The flags which each query of Warnings looks at."""
    out = {}
    for f in F.find_methods("ast::Warnings"):
        if f["argc"] == 1 and f["locals"][0]["ty"] == "bool" and f.get("vis") == "Public":
            I = setup(F)
            rs = I.run(f, [SYM("w")], State())
            out[f["name"].split("::")[-1]] = sorted({repr(I.deref_all(s, r)) + "|" + repr(sorted(s.con.items(), key=repr)) for r, s in rs})
    return out


def returned_locals(f):
    """Locals whose value is moved into the result of the function."""
    s = {0}
    while True:
        n = len(s)
        for b in f["blocks"]:
            for x in b["st"]:
                if x["s"] != "=" or x["p"][0] not in s:
                    continue
                rv = x["rv"]
                for o in ([rv["o"]] if rv["r"] == "use" else rv["fs"] if rv["r"] == "agg" else []):
                    if o.get("k") == "move" and not o["p"][1]:
                        s.add(o["p"][0])
        if len(s) == n:
            return s


class Source:
    """Follows a text which is written piece by piece inside one element: what of it is left.

    left: a value (this text is left), ("pair", first, rest), ("elem", text, item), ("elems", text), or
    None when all of it is written."""

    def __init__(self, I, R, tag, text):
        self.I, self.R, self.tag, self.text = I, R, tag, text

    def begin(self):
        return self.text

    def lit(self, st, left, s, err):
        ent = {"&lt;": "<", "&gt;": ">", "&amp;": "&", "&quot;": '"', "&#39;": "'", "&apos;": "'"}
        ch = ent.get(s)
        if isinstance(left, tuple) and left and left[0] in ("pair", "elem"):
            e = left[1] if left[0] == "pair" else left[2]
            k = e[1] if e[0] == "c" else self.I.known(st, e)
            if ch is not None and k == ord(ch) or ch is None and len(s) == 1 and k == ord(s):
                return left[2] if left[0] == "pair" else ("elems", left[1])
        err("source", "%r is written inside <%s>, which does not stand for the next character of the source" % (s, self.tag))
        return left

    def hole(self, st, left, p, err):
        v = p[1]
        if left is None or not isinstance(left, tuple):
            err("source", "text is written inside <%s> after the source" % self.tag)
            return left
        if left[0] == "pair":
            if v == left[1]:
                return left[2]
        elif left[0] == "elem":
            if v == left[2]:
                return ("elems", left[1])
        elif left[0] != "elems":
            if v == left:
                return None
            if v[0] == "ex" and v[1] == "before" and v[2] == left:
                return EX("after", v[2], v[3])
        err("source", "the text %s written inside <%s> is not the next part of the source" % (self.I.show(v)[:80], self.tag))
        return left

    def split(self, st, left, h, first, rest):
        return ("pair", first, rest) if left == h else left


def run_text_root(args):
    """A function which builds its markup in a local String: `spec` = (crate, name suffix, kind)."""
    crate, suffix, kind = args
    F = _F
    I = setup(F)
    fs = [f for f in F.find(suffix) if f["crate"] == crate]
    if len(fs) != 1:
        return dict(name=suffix, error="%d functions named %s in %s" % (len(fs), suffix, crate))
    f = fs[0]
    emit = [g for g in F.find("Emitter::emit") if g["crate"] == "math_core_renderer_internal"]
    X = xmlmon.Xml(None, html=kind == "html")
    R = Rec(F, I, {}, suffix)
    EM = adt_named(F, "ast::Emitter")
    wi = [i for i, x in enumerate(F.adts[EM]["variants"][0]["fields"]) if x["ty"].endswith("Warnings")][0]
    names = [f["locals"][i + 1].get("name") or "_%d" % (i + 1) for i in range(f["argc"])]
    R.params = {names[i]: f["locals"][i + 1]["ty"] for i in range(f["argc"])}
    texts = [n for n in names if R.params[n] in ("&str", "&'_ str", "&'a str")]
    srctag = "annotation" if kind == "math" else "code"
    src = Source(I, R, srctag, SYM(texts[0]) if len(texts) == 1 else None)
    NONEYET = "not begun"

    # state of the monitor: (xml, what is left of the source, features, pending entity)
    def inside(x):
        return x[2][-1][0] == srctag

    laid = set()

    def on_out(st, name, pieces, fn, at):
        err = R.err(st, fn, at)
        x, left, feats, ent, val, due = st.mon
        if layout(fn, at):
            laid.add((fn["key"], at[1]))
            X.obligations += 1
            feats = feats | {"layout"}
            top = x[2][-1][0]
            if x[0] != "T" or top in xmlmon.LEAF or top in xmlmon.INLINE or top == "#root":
                err("layout", "the white space for pretty printing is written %s" % ("inside <%s>" % top if x[0] == "T" else "inside a tag"))
        for p in pieces:
            for q in ([("lit", c) for c in p[1]] if p[0] == "lit" else [p]):
                was = x
                x = X.feed(x, [q], err)
                if not inside(was) and inside(x):
                    left = src.begin() if left == NONEYET else ("again",)
                    feats = feats | {"source"}
                elif inside(was) and was[0] == "T" and q[0] == "hole":
                    left = src.hole(st, left, q, err)
                elif inside(was) and was[0] == "T" and q[1] not in "<&":
                    left = src.lit(st, left, q[1], err)
                elif inside(was) and (was[0] == "T" and q[1] == "&" or was[0] == "E"):
                    ent += q[1]
                    if x[0] != "E":
                        left = src.lit(st, left, ent, err)
                        ent = ""
                elif inside(was) and not inside(x):
                    if left is not None and not (isinstance(left, tuple) and left[0] == "elems-done"):
                        err("source", "a part of the source is not written inside <%s>" % srctag)
                if was[0] == "V" and x[0] == "Q":
                    val = ""
                elif was[0] == "Q" and x[0] == "S":
                    feats = feats | {"%s@%s=%s" % (was[1][2], was[1][0], val)}
                elif was[0] == "Q":
                    val = "..." if q[0] != "lit" or val == "..." or len(val) > 99 else val + q[1]
                if x[0] == "T" and was[0] == "S" and was[1][0] not in ("math",):
                    feats = feats | {was[1][0]}
        ns = st.copy()
        ns.mon = (x, left, feats, ent, val, due)
        return [ns]
    I.on_out = on_out

    def upd(st, left):
        if left == st.mon[1]:
            return st
        ns = st.copy()
        ns.mon = (st.mon[0], left) + st.mon[2:]
        return ns

    def watched(st):
        return inside(st.mon[0])
    I.on_text_split = lambda st, h, a, b: upd(st, src.split(st, st.mon[1], h, a, b)) if watched(st) else st

    NODE = adt_named(F, "ast::Node")
    lst = [n for n in names if kind == "math" and "ast::Node" in R.params[n]]
    lst = lst[0] if len(lst) == 1 else None

    def has(v, x):
        """Does the value contain x (None: any part of the formula)?"""
        if v == x or x is None and v[:1] == ("sym",) and isinstance(v[1], str) and v[1].split("[")[0] == lst:
            return True
        return any(isinstance(y, tuple) and has(y, x) for y in v)

    def late(st, s, fn, at):
        if s == SYM(lst) and st.mon[5] is not None:
            R.err(st, fn, at)("order", "a part of the formula is not written")

    def on_elem(I, st, s, item, fn, at):
        if lst and s == SYM(lst):
            ns = st.copy()
            ns.mon = st.mon[:5] + (item,)
            return ns
        return upd(st, ("elem", s, item)) if watched(st) and st.mon[1] in (s, ("elems", s)) else st

    def on_end(I, st, s, fn, at):
        if lst and s == SYM(lst):
            late(st, s, fn, at)
            ns = st.copy()
            ns.mon = st.mon[:2] + (st.mon[2] | {"all of the formula"},) + st.mon[3:5] + (None,)
            return ns
        return upd(st, None) if watched(st) and st.mon[1] in (s, ("elems", s)) else st

    def on_step(I, st, s, fn, at):
        if lst:
            late(st, s, fn, at)
        if watched(st) and isinstance(st.mon[1], tuple) and st.mon[1][0] == "elem":
            R.err(st, fn, at)("source", "a character of the source is not written inside <%s>" % srctag)
        return st
    I.on_step = on_step
    I.on_elem, I.on_end = on_elem, on_end
    emitted = {}

    def on_call(I, st, fn, t, c, args, frame, at):
        b = F.callee_body(c)
        ws = blank(I, st, b, args, t.get("aty", []))
        if ws is not None and any(I.deref_all(st, a) == ("out", "S") for a in args):
            m = st.mon
            feats = m[2]
            X.obligations += 1
            if any(tuple(w) in LAYOUT for w in ws):
                laid.update(tuple(w) for w in ws)
                feats = feats | {"layout"}
                top = m[0][2][-1][0]
                if m[0][0] != "T" or top in xmlmon.LEAF or top in xmlmon.INLINE or top == "#root":
                    R.err(st, fn, at)("layout", "the white space for pretty printing is written %s" % ("inside <%s>" % top if m[0][0] == "T" else "inside a tag"))
            ns = st.copy()
            ns.mon = (m[0] if m[0][0] == "T" else X.feed(m[0], [("lit", " ")], R.err(st, fn, at)), m[1], feats) + m[3:]
            return [(OK(UNIT) if t.get("dty") != "()" else UNIT, ns)]
        if emit and b is emit[0]:
            ns = st.copy()
            m = st.mon
            node = I.deref_all(st, args[1]) if len(args) > 1 else SYM("?")
            feats, due = m[2] | {"node"}, m[5]
            if LAYOUT:
                ind = I.deref_all(st, args[2])
                feats = feats | {"indent:" + (str(ind[1]) if ind[0] == "c" else "?")}
            n = I.known(st, EX("len", SYM(lst))) if lst else None
            if lst is None or has(node, SYM(lst)) or n == 1 and node == SYM(lst + "[0]"):
                feats = feats | {"all of the formula"}
            elif due is not None and node == due:
                due = None
            elif (n == 0 or I.known(st, EX("isempty", SYM(lst))) == 1) and not has(node, None):
                feats = feats | {"all of the formula"}
            else:
                R.err(st, fn, at)("order", "%s is written, which is not the next part of the formula" % I.show(node)[:60])
            ns.mon = (X.child(m[0], "?", R.err(st, fn, at)), m[1], feats) + m[3:5] + (due,)
            if args[0][0] == "ref":
                v = I.deref_all(ns, args[0])
                if v[0] == "agg" and v[1] == EM:
                    I.store(ns, args[0][1], args[0][2], AGG(EM, 0, v[3][:wi] + (SYM("emitted-warnings"),) + v[3][wi + 1:]), fn, at)
            emitted.setdefault(I.show(node)[:300], 1)
            return [(OK(UNIT), ns)]
        n = norm(c.get("name", ""))
        if n in ("panicking::panic_fmt", "panicking::panic"):
            return []
        if n in ("string::String::new", "string::String::with_capacity") and fn is f and (
                kind == "math" or t["dest"][0] in result_locals):
            return [(("out", "S"), st)]
        if kind == "html" and b is not None and args:
            # a callee which only fills another buffer (the error message): the text is unknown
            muts = [I.deref_all(st, a) for a, ty in zip(args, t.get("aty", [])) if ty.startswith("&mut ")]
            if muts and not any(m[0] == "out" for m in muts):
                return I.unknown(st, fn, t, c, args, frame, at)
        return None
    I.on_call = on_call
    result_locals = returned_locals(f)
    st = State(mon=(X.start(), NONEYET, frozenset(), "", "", None))
    I.roots = {n for n in names if n not in texts and "Vec" not in R.params[n] and "Map" not in R.params[n] and "Arena" not in R.params[n]} if kind == "math" else set()
    t0 = time.time()
    res = dict(name=suffix, error=None)
    ends, rw = {}, {}
    try:
        outs = I.run(f, [SYM(n) for n in names], st)
        for rv, s in outs:
            X.finished(s.mon[0], R.err(s, f, ("", 0)), 1)
            con = tuple(sorted("%s%s%s" % (I.show(k), c[0], c[1] if c[0] == "=" else sorted(c[1])) for k, c in s.con.items() if c[0] in ("=", "!") and I.syms(k) and all(n.split(".")[0] in I.roots for n in I.syms(k))))
            ends.setdefault((tuple(sorted(s.mon[2])), con), s.trail(30))
            if kind == "math":
                v = I.deref_all(s, rv)
                w = [x for x in v[3]] if v[0] == "agg" else []
                ws = [I.deref_all(s, x) for x in w]
                got = [x for x in ws if x == SYM("emitted-warnings")]
                rw.setdefault(("emitter" if got else "not those of the emitter" if "node" in s.mon[2] else "emitter",
                               "node" in s.mon[2]), s.trail(30))
        res["outcomes"] = len(outs)
    except Budget as e:
        res["error"] = str(e)
    res.update(viol=list(R.viol.items()), obl=list(R.obl.items()), steps=I.steps, obligations=X.obligations, emitted=list(emitted),
               unknown=I.unknown_calls, tags=sorted(X.tags), attrs=sorted(X.attrs), secs=time.time() - t0, fns=sorted(I.covered), laid=sorted(laid),
               ends=list(ends.items()), result_warnings=list(rw.items()), source=texts)
    return res


def reaches(F, suffix):
    """Functions from which a call of `suffix` can be reached."""
    tgt = {f["key"] for f in F.find(suffix)}
    callers = {}
    for f in F.local():
        for b in f["blocks"]:
            if b["term"]["t"] == "call":
                g = F.callee_body(b["term"]["c"]) if "c" in b["term"] else None
                if g is not None:
                    callers.setdefault(g["key"], set()).add(f["key"])
    work = list(tgt)
    while work:
        for x in callers.get(work.pop(), ()):
            if x not in tgt:
                tgt.add(x)
                work.append(x)
    return tgt


def job(a):
    def late(*_):
        raise Budget("no end after 5 minutes")
    signal.signal(signal.SIGALRM, late)
    signal.alarm(300)
    try:
        return run_variant(a[1]) if a[0] == "v" else run_text_root(a[1])
    finally:
        signal.alarm(0)


def run_all(F, parts=("xml", "order", "text"), only=None):
    """Explores every writer; `only`: predicate on the variants of Node."""
    global _F, LAYOUT, BLANK
    T = taint.of_layout(F)
    _F, LAYOUT, BLANK = F, frozenset(taint.sites(T)), taint.blanks(T)
    NODE = adt_named(F, "ast::Node")
    variants = F.adts[NODE]["variants"]
    names = [v["name"] for v in variants]
    vs = [i for i, v in enumerate(variants) if only is None or only(v)]
    vs.sort(key=lambda i: (names[i] != "Array", names[i] not in ("Operator", "MultLine", "EquationArray", "Table", "Padded")))
    jobs = [("v", (i, m)) for m in ("xml", "order", "flat") if m in parts for i in vs]
    if "text" in parts:
        jobs += [("t", ("math_core", "emit", "math")), ("t", ("math_core", "LatexError::to_html", "html"))]
    import concurrent.futures as cf
    with cf.ProcessPoolExecutor(min(8, os.cpu_count() or 2), mp_context=multiprocessing.get_context("fork")) as p:
        return list(p.map(job, jobs, chunksize=1))


if __name__ == "__main__":
    import sys
    from facts import Facts
    F = Facts(sys.argv[1])
    for r in run_all(F, only=(lambda v: v['name'] in sys.argv[2:]) if sys.argv[2:] else None):
        print(r["name"], r.get("error"), r.get("outcomes"), r.get("steps"), "%.1fs" % r.get("secs", 0), r.get("unknown"))
        for k, v in r.get("viol", []):
            print("    VIOL", k, v[0], v[2][-6:])
        for k, v in r.get("obl", []):
            print("    OBL", k, v[0])
