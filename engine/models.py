"""Models of the library calls which the workspace uses, for the abstract interpreter.

Every model over-approximates the documented behaviour of the library function: where the result
depends on data the analysis does not know, all outcomes are returned.
"""
import re
from absint import (AGG, C, ERR, EX, NONE, OK, OPTION, RESULT, S, SOME, SYM, UNIT, depth, lit, mentions)
from facts import norm

DANGEROUS = frozenset("<>&\"'= \t\n\r/;`")
DIGITSAFE = DANGEROUS
STR_CAP = 24


def hole(v, safe=frozenset(), note=""):
    """A piece of text which is not known; `safe` are the dangerous characters which cannot occur."""
    return ("hole", v, frozenset(safe), note)


def merge(pieces):
    out = []
    for p in pieces:
        if p[0] == "lit":
            if not p[1]:
                continue
            if out and out[-1][0] == "lit":
                out[-1] = ("lit", out[-1][1] + p[1])
                continue
        out.append(p)
    return tuple(out)


def parse_template(b):
    """The byte template of core::fmt::Arguments -> [('lit', text) | ('arg', index, spec)]."""
    out = []
    i = 0
    nxt = 0
    while i < len(b):
        x = b[i]
        i += 1
        if x == 0:
            break
        if x < 0x80:
            out.append(("lit", b[i:i + x].decode("utf8")))
            i += x
        elif x == 0x80:
            n = b[i] | b[i + 1] << 8
            i += 2
            out.append(("lit", b[i:i + n].decode("utf8")))
            i += n
        else:
            spec = {}
            if x & 1:
                spec["flags"] = int.from_bytes(b[i:i + 4], "little")
                i += 4
            if x & 2:
                spec["width"] = b[i] | b[i + 1] << 8
                i += 2
            if x & 4:
                spec["prec"] = b[i] | b[i + 1] << 8
                i += 2
            idx = nxt
            if x & 8:
                idx = b[i] | b[i + 1] << 8
                i += 2
            nxt = idx + 1
            out.append(("arg", idx, tuple(sorted(spec.items()))))
    return out


def strpieces(I, st, v):
    """Pieces of a value used as text."""
    v = I.deref_all(st, v)
    if v[0] == "s":
        return list(v[1])
    if v[0] == "bytes":
        try:
            return [("lit", v[1].decode("utf8"))]
        except UnicodeDecodeError:
            return [hole(v)]
    if v[0] == "agg" and v[1].endswith("borrow::Cow"):
        return strpieces(I, st, v[3][0])
    if v[0] == "agg" and v[1] == "penc":
        return [hole(v[3][0], v[3][1][1], "percent-encoded")]
    if v[0] == "out":
        return [hole(v)]
    if v[0] == "agg" and v[1] == "array":
        out = []
        for x in v[3]:
            out += charpieces(I, st, x)
        return out
    return [hole(v, I.hole_safe(st, v) | text_safe(st, v))]


def text_safe(st, v):
    """Characters which a search on this path has shown not to occur in the text."""
    if v[0] == "ex" and v[1] == "before":
        return frozenset(chr(x[1]) for x in v[3][1:])
    out = frozenset()
    for k, c in st.con.items():
        if k[0] == "ex" and k[1] == "nomatch" and k[2] == v and c == ("=", 1):
            out |= frozenset(chr(x[1]) for x in k[3][1:])
    return out


def charpieces(I, st, v):
    v = I.deref_all(st, v)
    if v[0] == "c":
        return [("lit", chr(v[1]))]
    c = st.con.get(v)
    lo, hi = I.interval(st, v)
    if lo is not None or hi is not None:
        ex = c[1] if c is not None and c[0] == "!" else ()
        safe = frozenset(ch for ch in DANGEROUS if (lo is not None and ord(ch) < lo) or (hi is not None and ord(ch) > hi) or ord(ch) in ex)
        return [hole(v, safe | I.hole_safe(st, v), "char")]
    if c is not None:
        if c[0] == "=":
            return [("lit", chr(c[1]))]
        return [hole(v, frozenset(ch for ch in DANGEROUS if ord(ch) in c[1]) | I.hole_safe(st, v), "char")]
    return [hole(v, I.hole_safe(st, v), "char")]


def write_to(I, st, target, pieces, fn, at):
    """Append pieces to whatever `target` (a reference to a String, Formatter, ...) denotes.
    Returns the list of resulting states."""
    pieces = merge(pieces)
    if not pieces:
        return [st]
    n = 0
    ref = target
    v = None
    while n < 12:
        if ref[0] == "ref":
            v = I.load(st, ref[1], ref[2])
        else:
            v = ref
        if v[0] == "ref":
            ref = v
        elif v[0] == "agg" and v[1] == "fmtr":
            ref = v[3][0]
        elif v[0] == "sym" and ref[0] != "ref":
            ref = ("ref", ("S", v[1]), ())
            if ref[1] not in st.mem:
                break
        else:
            break
        n += 1
    if v[0] == "agg" and len(v[3]) == 1 and ref[0] == "ref" and "Builder" in v[1]:
        ref = ("ref", ref[1], ref[2] + (("f", 0, "0"),))
        v = v[3][0]
    if v[0] == "out":
        return I.on_out(st, v[1], pieces, fn, at)
    if ref[0] != "ref":
        return [st]
    if v[0] == "s":
        cur = merge(v[1] + pieces)
        if len(cur) > STR_CAP or sum(len(p[1]) for p in cur if p[0] == "lit") > 4000:
            I.store(st, ref[1], ref[2], ("s", (hole(("sym", "?longstr")),)), fn, at)
        else:
            # a loop which appends: widen
            I.store(st, ref[1], ref[2], ("s", widen(cur)), fn, at)
    elif v[0] == "sym":
        I.store(st, ref[1], ref[2], ("s", widen(merge((hole(v, I.hole_safe(st, v)),) + pieces))), fn, at)
    else:
        I.store(st, ref[1], ref[2], ("s", (hole(("sym", "?str")),)), fn, at)
    return [st]


def widen(pieces):
    """Keep repeated appends finite: a text of more than 12 pieces is a single hole whose safe set
    is what all of its pieces share."""
    if len(pieces) <= 12:
        return pieces
    safe = DANGEROUS
    for p in pieces:
        if p[0] == "lit":
            safe = safe - frozenset(p[1])
        else:
            safe = safe & p[2]
    return (hole(("sym", "?text"), safe),)


def display(I, st, target, v, ty, fn, at, spec=()):
    """fmt::Display of `v` into target: list of states."""
    ty = ty.strip()
    while ty.startswith("&"):
        ty = re.sub(r"^&('\w+ )?(mut )?", "", ty).strip()
    dv = I.deref_all(st, v)
    base = norm(ty)
    if dv[0] == "agg" and dv[1] == "fmt::Arguments":
        return fmt_args(I, st, target, dv, fn, at)
    if base in ("str", "string::String") or base.startswith("borrow::Cow") or base.startswith("kstring") or base.startswith("boxed::Box<str") or base.startswith("percent_encoding"):
        return write_to(I, st, target, strpieces(I, st, dv), fn, at)
    if base == "char":
        return write_to(I, st, target, charpieces(I, st, dv), fn, at)
    if re.match(r"^([ui](8|16|32|64|128|size)|f32|f64|num::NonZero<?.*|NonZero.*)$", base):
        if dv[0] == "c" and not spec:
            return write_to(I, st, target, [("lit", str(dv[1]))], fn, at)
        return write_to(I, st, target, [hole(dv, DIGITSAFE, "number")], fn, at)
    for f in I.F.fns.values():
        if (f.get("impl_trait") or "").endswith("fmt::Display") and f["name"].endswith("::fmt"):
            if same_ty(f["self_ty"], ty):
                I.tmp += 1
                fo = ("H", "fmtr", target)
                st = st.copy()
                st.mem[fo] = AGG("fmtr", 0, (target,))
                outs = []
                if f["key"] in I.stack:
                    return write_to(I, st, target, [hole(dv, I.hole_safe(st, dv), "recursive " + ty)], fn, at)
                for rv, ns in I.run(f, [v, ("ref", fo, ())], st, I.depth_of(st) + 1):
                    ns.mem.pop(fo, None)
                    outs.append(ns)
                return dedup(outs)
    return write_to(I, st, target, [hole(dv, I.hole_safe(st, dv), "Display of " + ty)], fn, at)


def dedup(states):
    seen = {}
    for s in states:
        seen.setdefault(s.key(), s)
    return list(seen.values())


def same_ty(a, b):
    def n(x):
        x = re.sub(r"<[^<>]*>", "", x)
        return x.split("::")[-1]
    return n(a) == n(b)


def fmt_args(I, st, target, v, fn, at):
    tmpl, args = v[3]
    if tmpl[0] == "s":
        return write_to(I, st, target, tmpl[1], fn, at)
    if tmpl[0] != "bytes":
        return write_to(I, st, target, [hole(tmpl)], fn, at)
    states = [st]
    for p in parse_template(tmpl[1]):
        nxt = []
        for s in states:
            if p[0] == "lit":
                nxt += write_to(I, s, target, [p], fn, at)
            else:
                av = args[3][p[1]] if args[0] == "agg" and p[1] < len(args[3]) else SYM("?fmtarg")
                av = I.deref_all(s, av)
                if av[0] == "agg" and av[1] == "fmt::Argument":
                    how = av[3][0][1]
                    ty = av[3][2][1]
                    if how == "display":
                        nxt += display(I, s, target, av[3][1], ty, fn, at, p[2])
                    elif how in ("lower_hex", "upper_hex", "binary", "octal", "lower_exp"):
                        nxt += write_to(I, s, target, [hole(av[3][1], DIGITSAFE, "number")], fn, at)
                    else:
                        nxt += write_to(I, s, target, [hole(I.deref_all(s, av[3][1]), (), how)], fn, at)
                else:
                    nxt += write_to(I, s, target, [hole(av)], fn, at)
        states = dedup(nxt) if len(nxt) > 1 else nxt
    return states


def split_enum(I, st, v, adt):
    """[(variant index, first payload, state)] for an Option/Result-like value."""
    v = I.deref_all(st, v)
    if v[0] == "agg" and v[1] == adt:
        return [(v[2], v[3][0] if v[3] else UNIT, st)]
    out = []
    names = [x["name"] for x in I.adt(adt)["variants"]] if I.adt(adt) else (["None", "Some"] if adt == OPTION else ["Ok", "Err"])
    d = EX("discr", v, adt)
    for i, n in enumerate(names):
        ns = st.copy()
        if I.assume(ns, d, i):
            pv = I.project(I.project(v, ("v", i, n), ns), ("f", 0, "0"), ns)
            out.append((i, pv, ns))
    return out


def install(I):
    I.tmp = 0
    H = I.handler
    if not hasattr(I, "hole_safe"):
        I.hole_safe = lambda st, v: frozenset()
    if not hasattr(I, "on_text_split"):
        I.on_text_split = lambda st, h, first, rest: st
        I.on_end = lambda I, st, src, fn, at: st
    if not hasattr(I, "on_lookup"):
        I.on_lookup = lambda st, m, k, hit: st
    if not hasattr(I, "on_elem"):
        I.on_step = lambda I, st, src, fn, at: st            # called before every step of an iteration
        I.on_elem = lambda I, st, src, item, fn, at: st      # called with the element it gives
    if not hasattr(I, "on_out"):
        I.on_out = lambda st, name, pieces, fn, at: [st]
    I.depth_of = lambda st: 1 + max([o[0] for o in st.mem if isinstance(o[0], int)] or [0])

    def oks(states, v=None):
        return [(OK(UNIT) if v is None else v, s) for s in states]

    # ------------------------------------------------------------ formatting
    def arg(how):
        def h(I, st, fn, t, c, args, frame, at):
            ty = (c.get("targs") or ["?"])[0]
            return [(AGG("fmt::Argument", 0, (("f", how), args[0], ("f", ty))), st)]
        return h
    for how in ("display", "debug", "lower_hex", "upper_hex", "binary", "octal", "lower_exp", "pointer"):
        I.handlers["fmt::rt::Argument::new_" + how] = arg(how)

    @H("fmt::Arguments::new", "fmt::rt::Arguments::new", "fmt::Arguments::new_v1")
    def _(I, st, fn, t, c, args, frame, at):
        tm = I.deref_all(st, args[0])
        if tm[0] == "s":
            x = "".join(p[1] for p in tm[1])
            tm = ("bytes", x.encode())
        av = I.deref_all(st, args[1])
        if av[0] == "agg":
            av = AGG("array", 0, [I.deref_all(st, x) for x in av[3]])
        if tm[0] == "agg" and all(x[0] == "c" for x in tm[3]):
            tm = ("bytes", bytes(x[1] for x in tm[3]))
        return [(AGG("fmt::Arguments", 0, (tm, av)), st)]

    @H("fmt::Arguments::from_str", "fmt::Arguments::from_str_nonconst", "fmt::Arguments::new_const")
    def _(I, st, fn, t, c, args, frame, at):
        return [(AGG("fmt::Arguments", 0, (I.deref_all(st, args[0]), UNIT)), st)]

    @H("fmt::Write::write_fmt", "fmt::Formatter::write_fmt", "io::Write::write_fmt")
    def _(I, st, fn, t, c, args, frame, at):
        a = I.deref_all(st, args[1])
        if a[0] == "agg" and a[1] == "fmt::Arguments":
            return oks(fmt_args(I, st, args[0], a, fn, at))
        return oks(write_to(I, st, args[0], [hole(a)], fn, at))

    def push_str(I, st, fn, t, c, args, frame, at):
        st = st.copy()
        ret = UNIT if any(w in norm(c.get("name")) for w in ("push", "extend", "add_assign")) else OK(UNIT)
        return oks(write_to(I, st, args[0], strpieces(I, st, args[1]), fn, at), ret)
    for n in ("string::String::push_str", "fmt::Write::write_str", "<string::String as fmt::Write>::write_str", "fmt::Formatter::write_str",
              "<fmt::Formatter<'_> as fmt::Write>::write_str", "<fmt::Formatter as fmt::Write>::write_str",
              "vec::Vec::extend_from_slice", "<string::String as ops::AddAssign<&str>>::add_assign", "<string::String as ops::AddAssign>::add_assign"):
        I.handlers[n] = push_str

    @H("ops::AddAssign::add_assign")
    def _(I, st, fn, t, c, args, frame, at):
        v = I.deref_all(st, args[0])
        return push_str(I, st, fn, t, c, args, frame, at) if v[0] == "s" else None

    def push_char(I, st, fn, t, c, args, frame, at):
        st = st.copy()
        ret = UNIT if "push" in norm(c.get("name")) else OK(UNIT)
        return oks(write_to(I, st, args[0], charpieces(I, st, args[1]), fn, at), ret)
    @H("vec::Vec::push", "vec::Vec::insert")
    def _(I, st, fn, t, c, args, frame, at):
        v = I.deref_all(st, args[0])
        ty = (c.get("targs") or ["?"])[0]
        if v[0] in ("out", "s") and ty == "u8" and norm(c["name"]).endswith("push"):
            st = st.copy()
            return oks(write_to(I, st, args[0], charpieces(I, st, args[1]), fn, at), UNIT)
        return I.unknown(st, fn, t, c, args, frame, at)

    # ------------------------------------------------------------ searching in text
    @H("memchr::memchr", "memchr::memchr2", "memchr::memchr3")
    def _(I, st, fn, t, c, args, frame, at):
        chars = [I.deref_all(st, a) for a in args[:-1]]
        h = I.deref_all(st, args[-1])
        if not all(x[0] == "c" for x in chars):
            return I.unknown(st, fn, t, c, args, frame, at)
        key = ("f",) + tuple(chars)
        a, b = st.copy(), st.copy()
        I.assume(a, EX("nomatch", h, key), 1)
        I.assume(b, EX("nomatch", h, key), 0)
        return [(NONE, a), (SOME(EX("memidx", h, key)), b)]

    def parts(h, idx):
        """before and after the position `idx` which a search in `h` has returned"""
        if idx[0] == "ex" and idx[1] == "memidx" and idx[2] == h:
            return EX("before", h, idx[3]), EX("after", h, idx[3])
        return None

    @H("slice::split_at_checked", "slice::split_at", "str::split_at", "str::split_at_checked")
    def _(I, st, fn, t, c, args, frame, at):
        h = I.deref_all(st, args[0])
        p = parts(h, I.deref_all(st, args[1]))
        if not p:
            return I.unknown(st, fn, t, c, args, frame, at)
        r = AGG("tuple", 0, p)
        return [(SOME(r) if norm(c["name"]).endswith("checked") else r, st)]

    @H("slice::split_first")
    def _(I, st, fn, t, c, args, frame, at):
        h = I.deref_all(st, args[0])
        if h[0] == "ex" and h[1] == "after":
            out = []
            for ch in h[3][1:]:          # the search stopped at one of these
                ns = st.copy()
                rest = SYM(I.fresh_name(ns, "?rest"))
                obj = ("H", "first", fn["name"], at[1])
                ns.mem[obj] = ch
                out.append((SOME(AGG("tuple", 0, (("ref", obj, ()), rest))), I.on_text_split(ns, h, ch, rest)))
            return out
        return I.unknown(st, fn, t, c, args, frame, at)

    @H("slice::index", "str::traits::index", "ops::Index::index", "<str as ops::Index>::index", "<[T] as ops::Index>::index", "slice::get", "str::get")
    def _(I, st, fn, t, c, args, frame, at):
        h = I.deref_all(st, args[0])
        r = I.deref_all(st, args[1])
        wrap = SOME if norm(c["name"]).endswith("get") else (lambda x: x)
        if r[0] == "agg" and r[1].endswith("RangeTo"):
            p = parts(h, r[3][0])
            if p:
                return [(wrap(p[0]), st)]
        if r[0] == "agg" and r[1].endswith("RangeFrom"):
            i = r[3][0]
            p = parts(h, i)
            if p:
                return [(wrap(p[1]), st)]
            if i[0] == "ex" and i[1] in ("Add", "AddUnchecked") and parts(h, i[2]):
                st = st.copy()
                return [(wrap(SYM(I.fresh_name(st, "?rest"))), st)]
        return I.unknown(st, fn, t, c, args, frame, at)

    for n in ("string::String::push", "fmt::Write::write_char", "<fmt::Formatter<'_> as fmt::Write>::write_char", "<fmt::Formatter as fmt::Write>::write_char"):
        I.handlers[n] = push_char

    @H("fmt::Formatter::pad", "<str as fmt::Display>::fmt")
    def _(I, st, fn, t, c, args, frame, at):
        st = st.copy()
        if norm(c.get("name")).endswith("pad"):
            return oks(write_to(I, st, args[0], strpieces(I, st, args[1]), fn, at))
        return oks(write_to(I, st, args[1], strpieces(I, st, args[0]), fn, at))

    @H("fmt::Display::fmt")
    def _(I, st, fn, t, c, args, frame, at):
        ty = (c.get("targs") or ["?"])[0]
        return oks(display(I, st.copy(), args[1], args[0], ty, fn, at))

    @H("fmt::format", "fmt::format::format_inner")
    def _(I, st, fn, t, c, args, frame, at):
        a = I.deref_all(st, args[0])
        st = st.copy()
        o = ("H", "fmtbuf", frame)
        st.mem[o] = ("s", ())
        outs = []
        for ns in (fmt_args(I, st, ("ref", o, ()), a, fn, at) if a[0] == "agg" else [st]):
            outs.append((ns.mem.pop(o), ns))
        return outs

    @H("string::ToString::to_string", "string::SpecToString::spec_to_string")
    def _(I, st, fn, t, c, args, frame, at):
        ty = (c.get("targs") or ["?"])[0]
        st = st.copy()
        o = ("H", "tsbuf", frame)
        st.mem[o] = ("s", ())
        outs = []
        for ns in display(I, st, ("ref", o, ()), args[0], ty, fn, at):
            outs.append((ns.mem.pop(o), ns))
        return outs

    # ------------------------------------------------------------ strings
    def ident(I, st, fn, t, c, args, frame, at):
        return [(I.deref_all(st, args[0]), st)]

    def identref(I, st, fn, t, c, args, frame, at):
        return [(args[0], st)]
    for n in ("string::String::as_str", "str::as_bytes", "string::String::as_bytes", "str::from_utf8_unchecked", "borrow::ToOwned::to_owned",
              "str::to_owned", "string::String::from", "string::String::into_boxed_str", "str::as_str",
              "str::into_string", "kstring::KStringBase::as_str", "kstring::KStringBase::from_ref", "kstring::KStringBase::from_string",
              "clone::Clone::clone", "num::NonZero::get", "char::methods::from_u32_unchecked", "char::from_u32_unchecked",
              "string::String::into_bytes", "string::String::from_utf8_unchecked", "option::Option::copied", "option::Option::cloned",
              "convert::identity", "boxed::Box::new", "hint::black_box", "iter::Iterator::copied", "iter::Iterator::cloned",
              "iter::Iterator::by_ref", "slice::iter", "slice::into_iter", "slice::iter::into_iter", "vec::Vec::as_slice",
              "<kstring::KStringBase<B> as ops::Deref>::deref", "<string::String as ops::Deref>::deref", "<vec::Vec<T, A> as ops::Deref>::deref",
              "<borrow::Cow<'_, B> as ops::Deref>::deref", "<boxed::Box<T, A> as ops::Deref>::deref", "ops::Deref::deref",
              "<borrow::Cow<'_, str> as clone::Clone>::clone",
              "convert::AsRef::as_ref", "borrow::Borrow::borrow"):
        I.handlers[n] = ident
    for n in ("string::String::as_mut_vec", "string::String::as_mut_str", "ops::DerefMut::deref_mut", "convert::AsMut::as_mut", "borrow::BorrowMut::borrow_mut",
              "<vec::Vec<T, A> as ops::DerefMut>::deref_mut", "<string::String as ops::DerefMut>::deref_mut", "fmt::Formatter::by_ref"):
        I.handlers[n] = identref

    @H("convert::Into::into", "convert::From::from", "<T as convert::Into<U>>::into")
    def _(I, st, fn, t, c, args, frame, at):
        body = I.F.callee_body(c)
        if body is not None and body["crate"] in ("math_core", "math_core_renderer_internal", "mathcore", "math_core_python", "math_core_wasm"):
            return None
        # From/Into between string-like or identical types
        tys = " ".join(c.get("targs") or [])
        if re.search(r"str|String|Cow|Box<str>|KString", tys) or len(set(c.get("targs") or [])) == 1:
            return [(I.deref_all(st, args[0]), st)]
        if body is not None:
            return None
        return [(I.deref_all(st, args[0]), st)]

    @H("string::String::new", "string::String::with_capacity")
    def _(I, st, fn, t, c, args, frame, at):
        return [(("s", ()), st)]

    @H("string::String::clear")
    def _(I, st, fn, t, c, args, frame, at):
        st = st.copy()
        if args[0][0] == "ref":
            I.store(st, args[0][1], args[0][2], ("s", ()), fn, at)
        return [(UNIT, st)]

    @H("string::String::reserve", "vec::Vec::reserve", "intrinsics::cold_path", "hint::cold_path", "hint::assert_unchecked", "hint::must_use")
    def _(I, st, fn, t, c, args, frame, at):
        if norm(c.get("name")).endswith("must_use"):
            return [(args[0], st)]
        return [(UNIT, st)]

    @H("str::is_empty", "string::String::is_empty", "slice::is_empty", "vec::Vec::is_empty")
    def _(I, st, fn, t, c, args, frame, at):
        v = I.deref_all(st, args[0])
        if v[0] == "s":
            if any(p[0] == "lit" and p[1] for p in v[1]):
                return [(C(0), st)]
            if not v[1]:
                return [(C(1), st)]
        if v[0] == "agg" and v[1] == "array":
            return [(C(0 if v[3] else 1), st)]
        if v[0] == "out":
            return [(SYM("?outempty"), st)]
        return [(EX("isempty", v), st)]

    @H("str::len", "string::String::len", "slice::len", "vec::Vec::len")
    def _(I, st, fn, t, c, args, frame, at):
        v = I.deref_all(st, args[0])
        if v[0] == "s" and all(p[0] == "lit" for p in v[1]):
            return [(C(sum(len(p[1].encode()) for p in v[1])), st)]
        if v[0] == "agg" and v[1] == "array":
            return [(C(len(v[3])), st)]
        if v[0] == "out":
            return [(SYM("?outlen"), st)]
        return [(EX("len", v), st)]

    @H("percent_encoding::percent_encode", "percent_encoding::utf8_percent_encode")
    def _(I, st, fn, t, c, args, frame, at):
        mask = I.deref_all(st, args[1])
        safe = frozenset()
        ws = maskwords(mask)
        if ws:
            safe = frozenset(ch for ch in DANGEROUS if ws[ord(ch) // 32] >> (ord(ch) % 32) & 1)
        return [(AGG("penc", 0, (I.deref_all(st, args[0]), ("f", safe))), st)]

    def maskwords(m):
        if m[0] == "agg":
            if len(m[3]) == 4 and all(x[0] == "c" for x in m[3]):
                return [x[1] & 0xFFFFFFFF for x in m[3]]
            if len(m[3]) == 1:
                return maskwords(m[3][0])
        return None

    @H("str::strip_suffix", "str::strip_prefix")
    def _(I, st, fn, t, c, args, frame, at):
        v = I.deref_all(st, args[0])
        suf = I.deref_all(st, args[1])
        op = norm(c["name"]).split("::")[-1]
        if v[0] == "s" and suf[0] == "s" and all(p[0] == "lit" for p in v[1] + suf[1]):
            a, b = "".join(p[1] for p in v[1]), "".join(p[1] for p in suf[1])
            if op == "strip_suffix":
                return [(SOME(lit(a[:len(a) - len(b)])) if a.endswith(b) else NONE, st)]
            return [(SOME(lit(a[len(b):])) if a.startswith(b) else NONE, st)]
        if v[0] == "s" and any(p[0] == "hole" for p in v[1]):
            safe = DANGEROUS
            for p in v[1]:
                safe = safe & (p[2] if p[0] == "hole" else DANGEROUS - frozenset(p[1]))
            r = ("s", (hole(SYM("?stripped"), safe),))
        else:
            r = EX(op, v, suf)
        return [(NONE, st), (SOME(r), st.copy())]

    @H("dtoa::Buffer::new")
    def _(I, st, fn, t, c, args, frame, at):
        return [(AGG("dtoa", 0, ()), st)]

    @H("dtoa::Buffer::format", "dtoa::Buffer::format_finite", "itoa::Buffer::format", "ryu::Buffer::format", "ryu::Buffer::format_finite")
    def _(I, st, fn, t, c, args, frame, at):
        return [(("s", (hole(I.deref_all(st, args[1]), DIGITSAFE, "number"),)), st)]

    @H("f32::is_finite", "f64::is_finite")
    def _(I, st, fn, t, c, args, frame, at):
        if "finite" in getattr(I, "assume_true", ()):
            return [(C(1), st)]
        return [(EX("isfinite", I.deref_all(st, args[0])), st)]

    @H("num::saturating_mul", "num::checked_mul")
    def _(I, st, fn, t, c, args, frame, at):
        a, b = I.deref_all(st, args[0]), I.deref_all(st, args[1])
        wrap = SOME if "checked" in norm(c["name"]) else lambda x: x
        if C(0) in (a, b):
            return [(wrap(C(0)), st)]
        if a[0] == "c" and b[0] == "c" and a[1] * b[1] < 4096:
            return [(wrap(C(a[1] * b[1])), st)]
        return I.unknown(st, fn, t, c, args, frame, at)

    # text which is repeated: white space is the same once or often
    def repeated(I, st, pieces, n):
        """[(pieces, state)] or None"""
        n = I.deref_all(st, n)
        blank = all(p[0] == "lit" and not p[1].strip(" \t\r\n") for p in pieces)
        if n == C(0) or not pieces:
            return [((), st)]
        if n[0] == "c" and n[1] <= 64 and not blank:
            return [(tuple(pieces) * n[1], st)]
        if not blank:
            return None
        if n[0] == "c":
            return [(tuple(pieces), st)]
        a, b = st.copy(), st.copy()
        out = []
        if I.assume(a, EX("Eq", n, C(0)), 1):
            out.append(((), a))
        if I.assume(b, EX("Eq", n, C(0)), 0):
            out.append((tuple(pieces), b))
        return out

    @H("iter::repeat_n")
    def _(I, st, fn, t, c, args, frame, at):
        return [(EX("repeatn", I.deref_all(st, args[0]), I.deref_all(st, args[1])), st)]

    @H("str::repeat")
    def _(I, st, fn, t, c, args, frame, at):
        r = repeated(I, st, strpieces(I, st, args[0]), args[1])
        if r is None:
            return I.unknown(st, fn, t, c, args, frame, at)
        return [(("s", ps), s) for ps, s in r]

    @H("<string::String as iter::Extend<char>>::extend", "<string::String as iter::Extend<&str>>::extend")
    def _(I, st, fn, t, c, args, frame, at):
        v = I.deref_all(st, args[1])
        if v[0] == "ex" and v[1] == "repeatn":
            r = repeated(I, st, charpieces(I, st, v[2]) if "char" in norm(c["name"]) else strpieces(I, st, v[2]), v[3])
            if r is not None:
                out = []
                for ps, s in r:
                    out += oks(write_to(I, s.copy(), args[0], list(ps), fn, at), UNIT)
                return out
        return I.unknown(st, fn, t, c, args, frame, at)

    @H("num::saturating_add", "num::saturating_sub", "num::wrapping_add", "num::wrapping_sub", "num::wrapping_mul")
    def _(I, st, fn, t, c, args, frame, at):
        a, b = I.deref_all(st, args[0]), I.deref_all(st, args[1])
        op = norm(c["name"]).split("::")[-1]
        if a[0] == "c" and b[0] == "c":
            r = a[1] + b[1] if "add" in op else a[1] - b[1] if "sub" in op else a[1] * b[1]
            if op == "saturating_sub":
                r = max(r, 0)
            if 0 <= r <= 64:
                return [(C(r), st)]
            v = SYM("?big")
            return [(v, st)]
        if op == "saturating_add" and b[0] == "c" and b[1] > 0 and I.known(st, EX("Lt", C(0), a)) == 1:
            # positive stays positive
            r = EX(op, a, b)
            if depth(r) > 5:
                r = SYM("?pos")
                st = st.copy()
            st = st.copy()
            I.exclude(st, r, 0)
            return [(r, st)]
        r = EX(op, a, b)
        return [(r if depth(r) <= 5 else SYM("?sat"), st)]

    # ------------------------------------------------------------ Option / Result
    def isvar(adt, want):
        def h(I, st, fn, t, c, args, frame, at):
            d = I.discr(st, args[0], adt)
            if d[0] == "c":
                return [(C(1 if d[1] == want else 0), st)]
            return [(EX("Eq", d, C(want)), st)]
        return h
    I.handlers["option::Option::is_none"] = isvar(OPTION, 0)
    I.handlers["option::Option::is_some"] = isvar(OPTION, 1)
    I.handlers["result::Result::is_ok"] = isvar(RESULT, 0)
    I.handlers["result::Result::is_err"] = isvar(RESULT, 1)

    @H("option::Option::unwrap_or", "result::Result::unwrap_or")
    def _(I, st, fn, t, c, args, frame, at):
        adt, good = (OPTION, 1) if "option" in norm(c["name"]) else (RESULT, 0)
        return [(pv if vi == good else args[1], ns) for vi, pv, ns in split_enum(I, st, args[0], adt)]

    @H("option::Option::unwrap_or_default", "result::Result::unwrap_or_default")
    def _(I, st, fn, t, c, args, frame, at):
        adt, good = (OPTION, 1) if "option" in norm(c["name"]) else (RESULT, 0)
        ty = (c.get("targs") or ["?"])[0]
        dv = default_of(ty)
        return [(pv if vi == good else dv, ns) for vi, pv, ns in split_enum(I, st, args[0], adt)]

    @H("option::Option::unwrap", "option::Option::expect", "result::Result::unwrap", "result::Result::expect", "option::Option::unwrap_unchecked")
    def _(I, st, fn, t, c, args, frame, at):
        adt, good = (OPTION, 1) if "option" in norm(c["name"]) else (RESULT, 0)
        return [(pv, ns) for vi, pv, ns in split_enum(I, st, args[0], adt) if vi == good]

    @H("option::Option::as_ref", "option::Option::as_deref", "option::Option::as_mut", "option::Option::as_deref_mut", "result::Result::as_ref")
    def _(I, st, fn, t, c, args, frame, at):
        if args[0][0] != "ref":
            return [(args[0], st)]
        if norm(c["name"]).endswith("::as_mut"):
            # a reference to what is in the option, through which it can be changed
            return [(NONE if vi == 0 else SOME(("ref", args[0][1], tuple(args[0][2]) + (("v", 1, "Some"), ("f", 0, "0")))), ns) for vi, pv, ns in split_enum(I, st, args[0], OPTION)]
        return [(args[0] if norm(c["name"]).endswith("mut") else I.deref_all(st, args[0]), st)]

    CF = "core::ops::control_flow::ControlFlow"

    @H("ops::Try::branch", "<result::Result<T, E> as ops::Try>::branch", "<option::Option<T> as ops::Try>::branch")
    def _(I, st, fn, t, c, args, frame, at):
        ty = norm((c.get("targs") or [""])[0]) or norm((t.get("aty") or [""])[0])
        adt, good = (RESULT, 0) if ty.startswith("result::Result") else (OPTION, 1) if ty.startswith("option::Option") else (None, 0)
        v = I.deref_all(st, args[0])
        if adt is None and v[0] == "agg":
            adt, good = (v[1], 0 if v[1] == RESULT else 1)
        if adt not in (RESULT, OPTION):
            return None
        out = []
        for vi, pv, ns in split_enum(I, st, v, adt):
            if vi == good:
                out.append((AGG(CF, 0, (pv,)), ns))
            else:
                out.append((AGG(CF, 1, (ERR(pv) if adt == RESULT else NONE,)), ns))
        return out

    @H("ops::FromResidual::from_residual", "<result::Result<T, F> as ops::FromResidual<result::Result<convert::Infallible, E>>>::from_residual",
       "<option::Option<T> as ops::FromResidual<option::Option<convert::Infallible>>>::from_residual")
    def _(I, st, fn, t, c, args, frame, at):
        v = I.deref_all(st, args[0])
        if v == NONE:
            return [(NONE, st)]
        tg = c.get("targs") or []
        if v[0] == "agg" and v[1] == RESULT and v[2] == 1:
            body = I.F.callee_body(c)
            if len(tg) >= 2 and same_err(tg[0], tg[1]):
                return [(v, st)]
            conv = [g for g in I.F.fns.values() if len(tg) >= 2 and g["argc"] == 1 and "convert::From<" in g["name"] and g["name"].endswith("::from")
                    and g["locals"][0]["ty"] == err_of(tg[0]) and g["locals"][1]["ty"] == err_of(tg[1]) and g["crate"] == fn["crate"]]
            if len(conv) == 1 and not (I.opaque and I.opaque(conv[0])):
                return [((ERR(r[0]),) + tuple(r[1:])) for r in I.enter(conv[0], [v[3][0]], st, frame, fn, t, at)]
            if len(tg) >= 2 and norm(tg[0]).startswith("result::Result"):
                return [(ERR(EX("call:convert::From::from", v[3][0])), st)]
        return None

    def err_of(x):
        x = x.strip()
        if x.endswith(">"):
            x = x[:-1]
        d = 0
        for i in range(len(x) - 1, -1, -1):
            if x[i] == ">":
                d += 1
            elif x[i] == "<":
                d -= 1
            elif x[i] == "," and d == 0:
                return x[i + 1:].strip()
        return x

    def same_err(a, b):
        return err_of(a) == err_of(b)

    @H("option::Option::ok_or")
    def _(I, st, fn, t, c, args, frame, at):
        return [(OK(pv) if vi == 1 else ERR(args[1]), ns) for vi, pv, ns in split_enum(I, st, args[0], OPTION)]

    @H("result::Result::ok")
    def _(I, st, fn, t, c, args, frame, at):
        return [(SOME(pv) if vi == 0 else NONE, ns) for vi, pv, ns in split_enum(I, st, args[0], RESULT)]

    @H("result::Result::err")
    def _(I, st, fn, t, c, args, frame, at):
        return [(SOME(pv) if vi == 1 else NONE, ns) for vi, pv, ns in split_enum(I, st, args[0], RESULT)]

    @H("option::Option::or")
    def _(I, st, fn, t, c, args, frame, at):
        return [(SOME(pv) if vi == 1 else args[1], ns) for vi, pv, ns in split_enum(I, st, args[0], OPTION)]

    def default_of(ty):
        b = norm(ty)
        if re.match(r"^[ui](8|16|32|64|128|size)$", b) or b == "bool":
            return C(0)
        if b in ("&str", "string::String", "&'static str"):
            return ("s", ())
        if b.startswith("option::Option"):
            return NONE
        return AGG("default:" + b, 0, ())
    I.default_of = default_of

    @H("default::Default::default")
    def _(I, st, fn, t, c, args, frame, at):
        body = I.F.callee_body(c)
        if body is not None:
            return None
        return [(default_of((c.get("targs") or ["?"])[0]), st)]

    @H("mem::take")
    def _(I, st, fn, t, c, args, frame, at):
        if args[0][0] == "ref":
            v = I.load(st, args[0][1], args[0][2])
            st = st.copy()
            I.store(st, args[0][1], args[0][2], default_of((c.get("targs") or ["?"])[0]), fn, at)
            return [(v, st)]
        return None

    @H("mem::replace", "option::Option::replace")
    def _(I, st, fn, t, c, args, frame, at):
        if args[0][0] == "ref":
            v = I.load(st, args[0][1], args[0][2])
            st = st.copy()
            I.store(st, args[0][1], args[0][2], args[1] if norm(c["name"]) == "mem::replace" else SOME(args[1]), fn, at)
            return [(v, st)]
        return None

    @H("mem::swap")
    def _(I, st, fn, t, c, args, frame, at):
        if args[0][0] == "ref" and args[1][0] == "ref":
            a = I.load(st, args[0][1], args[0][2])
            b = I.load(st, args[1][1], args[1][2])
            st = st.copy()
            I.store(st, args[0][1], args[0][2], b, fn, at)
            I.store(st, args[1][1], args[1][2], a, fn, at)
            return [(UNIT, st)]
        return None

    @H("option::Option::take")
    def _(I, st, fn, t, c, args, frame, at):
        if args[0][0] == "ref":
            v = I.load(st, args[0][1], args[0][2])
            st = st.copy()
            I.store(st, args[0][1], args[0][2], NONE, fn, at)
            return [(v, st)]
        return None

    @H("mem::drop", "mem::forget")
    def _(I, st, fn, t, c, args, frame, at):
        return [(UNIT, st)]

    # ------------------------------------------------------------ iterators
    @H("iter::IntoIterator::into_iter", "<I as iter::IntoIterator>::into_iter", "vec::into_iter", "<vec::Vec<T, A> as iter::IntoIterator>::into_iter",
       "str::chars", "str::bytes", "str::char_indices", "slice::iter_mut", "iter::Iterator::peekable", "iter::Iterator::fuse")
    def _(I, st, fn, t, c, args, frame, at):
        ty = (c.get("targs") or [""])[0]
        if I.F.callee_body(c) is not None and not norm(c["name"]).startswith("str::"):
            v = I.deref_all(st, args[0])
            if not (v[0] == "agg" and v[1] in ("iter", "array")):
                return None
        v = I.deref_all(st, args[0])
        if v[0] == "agg" and v[1] == "iter":
            return [(v, st)]
        if v[0] == "agg" and v[1] == "ops::range::Range":
            return [(v, st)]
        if v[0] == "agg" and v[1].endswith("range::Range"):
            return [(v, st)]
        kind = norm(c["name"]).split("::")[-1]
        return [(AGG("iter", 0, (v, C(0), ("f", kind))), st)]

    I.handlers["slice::iter"] = I.handlers["slice::into_iter"] = I.handlers["slice::iter::into_iter"] = I.handlers["iter::IntoIterator::into_iter"]

    @H("iter::Iterator::enumerate")
    def _(I, st, fn, t, c, args, frame, at):
        return [(AGG("iter", 0, (I.deref_all(st, args[0]), C(0), ("f", "enumerate"))), st)]

    @H("iter::Iterator::rev")
    def _(I, st, fn, t, c, args, frame, at):
        return [(AGG("iter", 0, (I.deref_all(st, args[0]), C(0), ("f", "rev"))), st)]

    @H("iter::Iterator::skip", "iter::Iterator::take")
    def _(I, st, fn, t, c, args, frame, at):
        return [(AGG("iter", 0, (I.deref_all(st, args[0]), args[1], ("f", norm(c["name"]).split("::")[-1]))), st)]

    def iter_next(I, st, it, path_obj, fn, at, frame):
        """Advance the iterator value stored at reference `it`; [(item or None, state)]."""
        v = I.deref_all(st, it) if it[0] == "ref" else it
        return v

    def advance(I, st, ref, fn, at, frame, nextc=None):
        """[(Some(item)|NONE, state)]; `ref` denotes the place of the iterator."""
        v = I.load(st, ref[1], ref[2])
        if v[0] == "ref":
            return advance(I, st, v, fn, at, frame)
        if v[0] == "agg" and v[1] == "iter":
            kind = v[3][2][1]
            inner = v[3][0]
            sub = ("ref", ref[1], ref[2] + (("f", 0, "inner"),))
            if kind == "enumerate":
                out = []
                for r, ns in advance(I, st, sub, fn, at, frame):
                    if r == NONE:
                        out.append((r, ns))
                    else:
                        out.append((SOME(AGG("tuple", 0, (SYM("?enum"), r[3][0]))), ns))
                        I.forget(ns, lambda n: n == "?enum")
                return out
            if kind == "skip":
                n = v[3][1]
                if n == C(0):
                    return advance(I, st, sub, fn, at, frame)
                if n[0] == "c":
                    st = st.copy()
                    I.store(st, ref[1], ref[2], AGG("iter", 0, (inner, C(n[1] - 1), v[3][2])), fn, at)
                    out = []
                    for r, ns in advance(I, st, sub, fn, at, frame):
                        if r == NONE:
                            out.append((r, ns))
                        else:
                            out += advance(I, ns, ref, fn, at, frame)
                    return out
                kind = "opaque"
            if kind in ("rev", "take", "opaque"):
                if inner[0] == "agg" and inner[1] == "iter":
                    inner = inner[3][0]
                if inner[0] == "agg":
                    inner = SYM("?seq")
                inner = EX(kind, inner)           # not (all) the elements in their order
            src = inner
            if src[0] == "agg" and src[1] == "array" and kind not in ("rev", "take", "opaque"):
                i = v[3][1][1]
                st = st.copy()
                if i >= len(src[3]):
                    return [(NONE, st)]
                I.store(st, ref[1], ref[2], AGG("iter", 0, (src, C(i + 1), v[3][2])), fn, at)
                return [(SOME(src[3][i]), st)]
            if src[0] == "s" and kind in ("chars",) and all(p[0] == "lit" for p in src[1]):
                tx = "".join(p[1] for p in src[1])
                i = v[3][1][1]
                st = st.copy()
                if i >= len(tx):
                    return [(NONE, st)]
                if i < 24:
                    I.store(st, ref[1], ref[2], AGG("iter", 0, (src, C(i + 1), v[3][2])), fn, at)
                    return [(SOME(C(ord(tx[i]))), st)]
            # symbolic
            st = I.on_step(I, st, src, fn, at)
            en, es = st.copy(), st.copy()
            out = []
            first = v[3][1] == C(0)
            e = EX("isempty", src)
            if not first or I.assume(en, e, 1):
                out.append((NONE, I.on_end(I, en, src, fn, at)))
            if not first or I.assume(es, e, 0):
                if src[0] == "sym":
                    nm = src[1] + "[]"
                else:
                    nm = "?elem:%s@%s" % (fn["name"].split("::")[-1], at[1])
                nm = I.fresh_name(es, nm)
                item = SYM(nm)
                if src[0] == "s":
                    safe = DANGEROUS
                    for p in src[1]:
                        safe = safe & (p[2] if p[0] == "hole" else DANGEROUS - frozenset(p[1]))
                    for ch in safe:
                        I.exclude(es, item, ord(ch))
                if kind == "char_indices":
                    item = AGG("tuple", 0, (SYM("?idx"), item))
                I.store(es, ref[1], ref[2], AGG("iter", 0, (v[3][0], C(1), v[3][2])), fn, at)
                out.append((SOME(item), I.on_elem(I, es, src, item, fn, at)))
            return out
        if v[0] == "agg" and v[1].endswith("range::Range"):
            lo, hi = v[3]
            if lo[0] == "c" and hi[0] == "c" and hi[1] - lo[1] <= 64:
                st = st.copy()
                if lo[1] >= hi[1]:
                    return [(NONE, st)]
                I.store(st, ref[1], ref[2], AGG(v[1], 0, (C(lo[1] + 1), hi)), fn, at)
                return [(SOME(lo), st)]
            a, b = st.copy(), st.copy()
            b_item = SYM(I.fresh_name(b, "?range:%s@%s" % (fn["name"].split("::")[-1], at[1])))
            I.store(b, ref[1], ref[2], AGG(v[1], 0, (SYM("?rlo"), hi)), fn, at)
            outs = []
            if lo == C(0):
                e = EX("Eq", hi, C(0))
                if I.assume(a, e, 1):
                    outs.append((NONE, a))
                if I.assume(b, e, 0):
                    outs.append((SOME(b_item), b))
                return outs
            return [(NONE, a), (SOME(b_item), b)]
        # a workspace iterator
        if v[0] == "agg":
            for f in I.F.fns.values():
                if f["name"].endswith("::next") and f.get("impl_trait", "") and f["impl_trait"].endswith("Iterator"):
                    sid = f["locals"][1].get("adt") or ""
                    if sid and sid == v[1] or (v[1] in (f["locals"][1].get("ty") or "")):
                        return I.run(f, [ref], st, frame + 1)
                    if I.iter_self(f) == v[1]:
                        return I.run(f, [ref], st, frame + 1)
        a, b = st.copy(), st.copy()
        nm = "?item:%s@%s" % (fn["name"].split("::")[-1], at[1])
        nm = I.fresh_name(b, nm)
        return [(NONE, a), (SOME(SYM(nm)), b)]
    I.advance = advance

    def iter_self(f):
        k = f["id"].rsplit("::", 1)[0]
        ty = norm(f.get("self_ty") or "")
        last = ty.split("::")[-1].split("<")[0]
        for a in I.F.adts:
            if a.split("::")[-1] == last:
                return a
        return None
    I.iter_self = iter_self

    @H("iter::Iterator::next", "<slice::Iter<'a, T> as iter::Iterator>::next", "<slice::IterMut<'a, T> as iter::Iterator>::next", "iter::range::next",
       "<str::Chars<'a> as iter::Iterator>::next", "<str::Bytes<'_> as iter::Iterator>::next", "<vec::IntoIter<T, A> as iter::Iterator>::next",
       "<str::CharIndices<'a> as iter::Iterator>::next", "<ops::Range<A> as iter::Iterator>::next")
    def _(I, st, fn, t, c, args, frame, at):
        if args[0][0] != "ref":
            if args[0][0] == "sym":
                ref = ("ref", ("S", args[0][1]), ())
            else:
                return None
        else:
            ref = args[0]
        v = I.deref_all(st, args[0])
        body = I.F.callee_body(c)
        if body is not None and not (v[0] == "agg" and v[1] == "iter"):
            if not (v[0] == "agg" and v[1].endswith("range::Range")):
                return None
        return advance(I, st, ref, fn, at, frame)

    def via_advance(*names):
        for n in names:
            I.handlers[n] = I.handlers["iter::Iterator::next"]
    via_advance("<iter::Skip<I> as iter::Iterator>::next", "<iter::Enumerate<I> as iter::Iterator>::next", "<iter::Rev<I> as iter::Iterator>::next",
                "<iter::Take<I> as iter::Iterator>::next", "<iter::Copied<I> as iter::Iterator>::next", "<iter::Cloned<I> as iter::Iterator>::next",
                "iter::adapters::skip::next", "iter::adapters::enumerate::next", "<iter::Peekable<I> as iter::Iterator>::next")

    @H("slice::get")
    def _(I, st, fn, t, c, args, frame, at):
        v = I.deref_all(st, args[0])
        i = I.deref_all(st, args[1])
        if v[0] == "agg" and v[1] == "array" and i[0] == "c":
            return [(SOME(v[3][i[1]]) if i[1] < len(v[3]) else NONE, st)]
        a, b = st.copy(), st.copy()
        nm = (v[1] if v[0] == "sym" else "?slice") + "[get]"
        nm = I.fresh_name(b, nm)
        return [(NONE, a), (SOME(SYM(nm)), b)]

    @H("hashbrown::HashMap::get", "collections::HashMap::get", "collections::hash::map::HashMap::get", "phf::Map::get", "phf::map::Map::get")
    def _(I, st, fn, t, c, args, frame, at):
        v = I.deref_all(st, args[0])
        k = I.deref_all(st, args[1])
        a, b = st.copy(), st.copy()
        nm = (v[1] if v[0] == "sym" else "?map") + "[get]"
        nm = I.fresh_name(b, nm)
        return [(NONE, I.on_lookup(a, v, k, False)), (SOME(SYM(nm)), I.on_lookup(b, v, k, True))]

    @H("panicking::unreachable_default_msg")
    def _(I, st, fn, t, c, args, frame, at):
        return [(AGG("fmt::Arguments", 0, (lit("unreachable"), UNIT)), st)]
