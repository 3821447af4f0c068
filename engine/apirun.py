"""Abstract interpretation of functions which only pass things on: the calls of chosen ("boundary")
functions are recorded as events with the symbolic values of their arguments, and give a symbol back.

st.mon = (events, pairs): events = tuple of (name, argument values, argument references, path constraints),
without repetitions; pairs = set of (a, b): an event named a happened before one named b."""
import re
from absint import Interp, State, SYM, AGG, C, EX, UNIT, SOME, NONE, OK, ERR, OPTION, RESULT, Budget, S, lit
from facts import norm
from models import split_enum

ORDERED = re.compile(r"(^|::)(iter|iter_mut|into_iter|map|collect|enumerate|zip|push|with_capacity|new|next|extend|for_each|cloned|copied|len|as_slice|"
                     r"index|get|reserve|try_fold|fold|is_empty|as_ref|deref|clone|drop|default|from_iter|inspect|by_ref|unzip|capacity|extend_from_slice|"
                     r"as_mut_slice|deref_mut|into_boxed_slice|into_vec|from|into|branch|from_residual|unwrap_or_default|with_capacity_in|to_vec|new_in)$")


class Trace(Interp):
    def __init__(self, F, boundary, budget=400_000, after=None, inline=None):
        super().__init__(F, budget=budget)
        self.int_cap = 0
        self.boundary = boundary      # (callee record, norm names, body) -> short name or None
        self.after = after or {}
        self.on_call = self._on_call
        self.inline = inline
        self.opaque = self._opaque
        self.merge = self._merge
        self._op = {}
        self.results = {}
        self.registry = {}
        self.order = {}
        self.sites = {}
        self._install2()

    def gc(self, st):
        pass

    def mkref(self, st, frame, p):
        r = self.resolve(st, frame, p)
        return r[1] if r[0] == "val" else ("ref", r[1], r[2])

    def _opaque(self, b):
        """Bodies which cannot reach an event and loop are not looked into."""
        r = self._op.get(b["key"])
        if r is None:
            if self.inline is not None and self.inline(b):
                r = False
            else:
                r = self.loops(b) and not self.reaches(b, set())
            self._op[b["key"]] = r
        return r

    def loops(self, b):
        succ = [[t["to"]] if t["t"] in ("goto", "drop", "assert", "call") else [x[1] for x in t.get("arms", [])] + [t.get("else")] if t["t"] == "switch" else []
                for t in (x["term"] for x in b["blocks"])]
        seen, done = set(), set()
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        while stack:
            n, it = stack[-1]
            for x in it:
                if x is None or x in done:
                    continue
                if x in seen:
                    return True
                seen.add(x)
                stack.append((x, iter(succ[x])))
                break
            else:
                stack.pop()
                seen.discard(n)
                done.add(n)
        return False

    def reaches(self, b, seen):
        if b["key"] in seen:
            return False
        seen.add(b["key"])
        for x in b["blocks"]:
            t = x["term"]
            if t["t"] == "call" and "c" in t:
                c = t["c"]
                g = self.F.callee_body(c)
                if self.boundary(c, (norm(c.get("name")), norm(c.get("rname"))), g):
                    return True
                if g is not None and self.reaches(g, seen):
                    return True
            for s in x["st"]:
                if s["s"] == "=" and s["rv"].get("r") == "agg" and s["rv"].get("ak") == "closure":
                    for k in self.F.byid.get(str(s["rv"].get("id", "")), []):
                        if self.reaches(self.F.fns[k], seen):
                            return True
        return False

    def fresh_name(self, st, base):
        if base.endswith("[]"):
            self.forget(st, lambda n: n.startswith(base))
            return base               # "some element": all elements are interchangeable
        return super().fresh_name(st, base)

    # ---------------------------------------------------------------- events
    def deep(self, st, v, d=0):
        if d > 8 or not isinstance(v, tuple) or not v:
            return v
        v = self.deref_all(st, v)
        if v[0] == "agg":
            return ("agg", v[1], v[2], tuple(self.deep(st, x, d + 1) for x in v[3]))
        if v[0] == "ex":
            return tuple(self.deep(st, x, d + 1) if isinstance(x, tuple) else x for x in v)
        if v[0] == "upd":
            return ("upd", self.deep(st, v[1], d + 1), tuple((k, self.deep(st, x, d + 1)) for k, x in v[2]))
        return v

    def sites_of(self, name):
        return max([k for (n, _), k in self.sites.items() if n == name], default=0)

    def joinmon(self, a, b):
        if a is None or a == b:
            return b
        new = tuple(e for e in b[0] if e not in a[0])
        ev = tuple(sorted(a[0] + new, key=self.evkey)) if new else a[0]
        return (ev, a[1] | b[1], a[2] & b[2])

    def mask(self, v):
        """A value with the elements of sequences left out."""
        if isinstance(v, tuple) and v:
            if v[0] == "agg" and v[1] == "vecof":
                return ("agg", "vecof", 0, bool(v[3]))
            if any(isinstance(x, tuple) for x in v):
                return tuple(self.mask(x) for x in v)
        return v

    def joinv(self, a, b):
        if a == b or not isinstance(a, tuple):
            return a
        if a[0] == "agg" and a[1] == "vecof":
            return AGG("vecof", 0, sorted(set(a[3]) | set(b[3]), key=repr))
        return tuple(self.joinv(x, y) for x, y in zip(a, b))

    def _merge(self, seen, st, rv):
        k = (self.mask(rv), frozenset((o, self.mask(v)) for o, v in st.mem.items()), frozenset(st.con.items()))
        old = seen.get(k)
        if old is None:
            seen[k] = (rv, st.copy())
            return st
        orv, os = old
        nrv = self.joinv(orv, rv) if rv is not None else None
        mem = {o: self.joinv(os.mem[o], v) for o, v in st.mem.items()}
        mon = self.joinmon(os.mon, st.mon)
        if nrv == orv and mem == os.mem and mon == os.mon:
            return None
        ns = State(mem, dict(os.con), mon, st.path)
        seen[k] = (nrv, ns)
        return ns.copy()

    def canon(self, v):
        """A value with the numbers of "state after an event" left out, so that loops converge."""
        if isinstance(v, tuple):
            if len(v) == 2 and v[0] == "sym" and v[1].startswith("after:"):
                return ("sym", re.sub(r"#\d+", "", v[1]))
            return tuple(self.canon(x) for x in v)
        return v

    def event(self, st, name, args, aty=(), site=None):
        ev, pairs, must = st.mon
        vals = tuple(self.deep(st, a) for a in args)
        refs = tuple(a if a[0] == "ref" else None for a in args)
        key = (name, self.canon(vals), refs)
        if key not in self.registry:
            self.registry[key] = (0, (name, vals, refs, tuple(aty)))
        e = self.registry[key][1]
        site = (name, site)
        if site not in self.sites:
            self.sites[site] = sum(1 for x in self.sites if x[0] == name)
        k = self.sites[site]
        pairs = pairs | {(x[0], name) for x in ev}
        if e not in ev:
            ev = tuple(sorted(ev + (e,), key=self.evkey))
        st.mon = (ev, pairs, must | {name})
        return k

    def _on_call(self, I, st, fn, t, c, args, frame, at):
        body = self.F.callee_body(c)
        nm = self.boundary(c, (norm(c.get("name")), norm(c.get("rname"))), body)
        if not nm:
            return None
        st = st.copy()
        k = self.event(st, nm, args, t.get("aty", ()), (fn["key"], repr(at), frame))
        name = self.current = "%s#%d" % (nm, k)
        if self.on_event:
            self.on_event(st, nm, [self.deep(st, a) for a in args], args)
        self.fresh(st, name)
        for i, (a, ty) in enumerate(zip(args, t.get("aty", []))):
            if ty.startswith("&mut ") and a[0] == "ref":
                self.store(st, a[1], a[2], SYM("after:%s:%d" % (name, i)), fn, at)
        self.results[name] = (body and body["key"], t.get("dty"))
        if t["to"] is None:
            self.ended.append((name, st))
            return []
        return [(SYM(name), st)]

    ended = ()

    def go(self, fn, names=None):
        """[(return value (deep), events, pairs, constraints, state)] of every path."""
        self.ended = []
        args, st = [], State()
        for i in range(1, fn["argc"] + 1):
            n = (names or {}).get(i) or fn["locals"][i].get("name") or "a%d" % (i - 1)
            ty = fn["locals"][i]["ty"]
            if ty.startswith("&"):
                args.append(("ref", ("S", n), ()))
            else:
                args.append(SYM(n))
        st.mon = ((), frozenset(), frozenset())
        self.memo = False
        out = []
        for rv, s in self.run(fn, args, st):
            out.append((self.deep(s, rv), s.mon[0], s.mon[1], dict(s.con), s))
        for name, s in self.ended:
            out.append((("never", name), s.mon[0], s.mon[1], dict(s.con), s))
        return out

    # one result per element: an element which was taken from a sequence must have given a result before the next is taken
    track = False
    on_event = None        # (state, name, values, raw arguments) when a boundary function is called
    on_give = None         # (state, item) when an item is added to a sequence; may give another value for it

    def took(self, st, src, end=False):
        if self.track:
            ev, pairs, must = st.mon
            src = ("src", self.show(src) if src[0] == "sym" else src[1])
            if ("#open", src) in pairs:
                pairs = pairs | {("#skip", src)}
            st.mon = (ev, pairs - {("#open", src)} if end else pairs | {("#open", src)}, must)
        return st

    def gave(self, st, src=None):
        if self.track:
            ev, pairs, must = st.mon
            opened = {p for p in pairs if p[0] == "#open" and (src is None or p[1] == ("src", self.show(src) if src[0] == "sym" else src[1]))}
            if not opened:
                pairs = pairs | {("#extra", "")}
            st.mon = (ev, pairs - opened, must)
        return st

    # ---------------------------------------------------------------- sequences
    def _install2(self):
        I = self
        H = self.handler
        old_adv = I.advance

        def adv(I, st, ref, fn, at, frame, nextc=None):
            v = I.load(st, ref[1], ref[2])
            if v[0] == "ref":
                return adv(I, st, v, fn, at, frame)
            if v[0] == "agg" and v[1] == "iter":
                kind = v[3][2][1]
                sub = ("ref", ref[1], ref[2] + (("f", 0, "inner"),))
                if kind == "map":
                    out = []
                    for r, ns in adv(I, st, sub, fn, at, frame):
                        if r == NONE:
                            out.append((r, ns))
                            continue
                        for x, n2 in apply(I, ns, v[3][1], [r[3][0]], fn, at, frame):
                            out.append((SOME(x), n2))
                    return out
                if kind == "zip":
                    # taken to be of equal length
                    out = []
                    for r, ns in adv(I, st, sub, fn, at, frame):
                        if r == NONE:
                            out.append((r, ns))
                            continue
                        tr, I.track = I.track, False
                        o = ("H", "zip", frame, repr(at))
                        ns.mem[o] = AGG("iter", 0, v[3][1][3][:1] + (C(0),) + v[3][1][3][2:]) if v[3][1][3][2][1] not in ("map", "zip") else v[3][1]
                        for r2, n2 in adv(I, ns, ("ref", o, ()), fn, at, frame):
                            n2.mem.pop(o, None)
                            if r2 != NONE:
                                out.append((SOME(AGG("tuple", 0, (r[3][0], r2[3][0]))), n2))
                        I.track = tr
                    return out
                if kind == "enumerate":
                    src = v[3][0]
                    while src[0] == "agg" and src[1] == "iter":
                        src = src[3][0]
                    out = []
                    for r, ns in adv(I, st, sub, fn, at, frame):
                        out.append((r, ns) if r == NONE else (SOME(AGG("tuple", 0, (EX("idx", self.seqname(src)), r[3][0]))), ns))
                    return out
                src = v[3][0]
                if src[0] == "agg" and src[1] in ("vecof", "mapped"):
                    items = src[3] if src[1] == "vecof" else (src[3][1],)
                    first = v[3][1] == C(0)
                    out = [] if first and src[1] == "vecof" and items else [(NONE, I.took(st.copy(), src, True))]
                    for it in items:
                        ns = st.copy()
                        I.store(ns, ref[1], ref[2], AGG("iter", 0, (v[3][0], C(1), v[3][2])), fn, at)
                        out.append((SOME(it), I.took(ns, src)))
                    return out
                out = old_adv(I, st, ref, fn, at, frame)
                if I.track and src[0] == "sym":
                    for r, ns in out:
                        I.took(ns, src, r == NONE)
                return out
            return old_adv(I, st, ref, fn, at, frame)
        I.advance = adv
        base_next = I.handlers["iter::Iterator::next"]

        def nxt(I, st, fn, t, c, args, frame, at):
            if args[0][0] == "ref":
                v = I.deref_all(st, args[0])
                if v[0] == "agg" and v[1] == "iter":
                    return adv(I, st, args[0], fn, at, frame)
            return base_next(I, st, fn, t, c, args, frame, at)
        for k in [k for k, h in I.handlers.items() if h is base_next]:
            I.handlers[k] = nxt

        def apply(I, st, clo, args, fn, at, frame):
            t = {"t": "call", "c": {"name": "closure", "trait": "FnMut"}, "aty": ["?"] * (1 + len(args)), "args": [], "to": 0}
            return I.call_value(st, I.deref_all(st, clo), [clo, AGG("tuple", 0, args)], frame, fn, t, at, True)
        self.apply = apply

        @H("iter::Iterator::map")
        def _(I, st, fn, t, c, args, frame, at):
            st = st.copy()
            obj = ("H", "map", frame, at[1] if isinstance(at, (tuple, list)) else at)
            st.mem[obj] = args[1]
            src = I.deref_all(st, args[0])
            if not (src[0] == "agg" and src[1] == "iter"):
                src = AGG("iter", 0, (src, C(0), ("f", "into_iter")))
            return [(AGG("iter", 0, (src, args[1] if args[1][0] != "ref" else ("ref", obj, ()), ("f", "map"))), st)]

        @H("iter::Iterator::zip", "iter::zip")
        def _(I, st, fn, t, c, args, frame, at):
            two = []
            for a in args:
                a = I.deref_all(st, a)
                two.append(a if a[0] == "agg" and a[1] == "iter" else AGG("iter", 0, (a, C(0), ("f", "into_iter"))))
            return [(AGG("iter", 0, (two[0], two[1], ("f", "zip"))), st)]

        def drive(I, st, it, fn, at, frame, each):
            """Runs an iterator to its end; `each(item, state)` -> states. [(items, state)]"""
            o = ("H", "drive", frame, repr(at))
            st = st.copy()
            st.mem[o] = it
            # States which differ only in what has happened are joined, and so are the items.
            allitems, seen, ends, stops = set(), {}, {}, []
            work = [st]

            n = 0
            while work:
                s = work.pop()
                I.forget(s, lambda x: "#" in x or "[]" in x)      # what an iteration learned about its own element
                k = (frozenset(s.mem.items()), frozenset(s.con.items()))
                m = I.joinmon(seen.get(k), s.mon)
                if k in seen and m == seen[k]:
                    continue
                seen[k] = s.mon = m
                n += 1
                if n > 400:
                    raise Budget("iteration in " + fn["name"])
                for r, ns in adv(I, s, ("ref", o, ()), fn, at, frame):
                    if r == NONE:
                        ns = ns.copy()
                        ns.mem.pop(o, None)
                        k = (frozenset(ns.mem.items()), frozenset(ns.con.items()))
                        if k in ends:
                            ends[k].mon = I.joinmon(ends[k].mon, ns.mon)
                        else:
                            ends[k] = ns
                    else:
                        x = I.deep(ns, r[3][0])
                        for s2, stop, *y in each(x, ns):
                            s2 = s2.copy()
                            if stop is not None:
                                s2.mem.pop(o, None)
                                stops.append((stop, s2))
                            else:
                                allitems.add(y[0] if y else x)
                                work.append(s2)
            out = []
            for k, ns in ends.items():
                empty = any(v == 1 or v == ("=", 1) for c, v in ns.con.items() if c[0] == "ex" and c[1] == "isempty" and c[2] == I.itersrc(it))
                out.append((frozenset() if empty else frozenset(allitems), ns))
            return out + stops
        self.drive = drive

        @H("iter::Iterator::collect", "iter::Iterator::for_each", "<vec::Vec<T> as iter::FromIterator<T>>::from_iter", "iter::FromIterator::from_iter")
        def _(I, st, fn, t, c, args, frame, at):
            it = I.deref_all(st, args[0])
            if not (it[0] == "agg" and it[1] == "iter"):
                it = AGG("iter", 0, (it, C(0), ("f", "into_iter")))
            name = norm(c["name"])
            ty = t.get("dty") or ""
            short = norm(ty)
            if name.endswith("for_each"):
                def each(x, ns):
                    return [(n2, None) for _, n2 in apply(I, ns, args[1], [x], fn, at, frame)]
                return [(UNIT, s) for _, s in drive(I, st, it, fn, at, frame, each)]
            fallible = short.startswith("result::Result")

            def each(x, ns):
                ns = I.gave(ns.copy(), I.itersrc(it))
                if I.on_give:
                    x = I.on_give(ns, x) or x
                if not fallible:
                    return [(ns, None, x)]
                out = []
                for vi, pv, n2 in split_enum(I, ns, x, RESULT):
                    out.append((n2, None, x) if vi == 0 else (n2, ("err", pv)))
                return out
            src = it
            while src[0] == "agg" and src[1] == "iter":
                src = src[3][0]
            res = []
            for items, s in drive(I, st, it, fn, at, frame, each):
                if isinstance(items, tuple) and items[:1] == ("err",):
                    res.append((ERR(items[1]), s))
                    continue
                if fallible:
                    items = {x[3][0] if x[0] == "agg" and x[1] == RESULT else EX("okof", x) for x in items}
                v = AGG("vecof", 0, sorted(items, key=repr))
                res.append((OK(v) if fallible else v, s))
            seen, out = set(), []
            for r, s in res:
                k = (r, s.key())
                if k not in seen:
                    seen.add(k)
                    out.append((r, s))
            return out

        @H("vec::Vec::new", "vec::Vec::with_capacity")
        def _(I, st, fn, t, c, args, frame, at):
            return [(AGG("vecof", 0, ()), st)]

        old_push = I.handlers.get("vec::Vec::push")

        @H("vec::Vec::push")
        def _(I, st, fn, t, c, args, frame, at):
            v = I.deref_all(st, args[0])
            if args[0][0] == "ref" and v[0] == "agg" and v[1] == "vecof":
                st = I.gave(st.copy())
                x = I.deep(st, args[1])
                if I.on_give:
                    x = I.on_give(st, x) or x
                r = args[0]
                while True:
                    w = I.load(st, r[1], r[2])
                    if w[0] != "ref":
                        break
                    r = w
                I.store(st, r[1], r[2], AGG("vecof", 0, sorted(set(v[3]) | {x}, key=repr)), fn, at)
                return [(UNIT, st)]
            return old_push(I, st, fn, t, c, args, frame, at)

        old_index = I.handlers["slice::index"]

        @H("slice::index", "ops::Index::index", "<vec::Vec<T, A> as ops::Index<I>>::index", "vec::Vec::index", "<vec::Vec<T, A> as ops::Index>::index")
        def _(I, st, fn, t, c, args, frame, at):
            v = I.deref_all(st, args[0])
            i = I.deref_all(st, args[1])
            if v[0] == "agg" and v[1] == "vecof" and i[0] == "ex" and i[1] == "idx" and v[3]:
                return [(x, st.copy()) for x in v[3]]
            if i[0] in ("ex", "sym", "c") and v[0] != "s":
                return [(EX("at", v, i), st)]
            return old_index(I, st, fn, t, c, args, frame, at)

        @H("hashbrown::HashMap::clear", "collections::HashMap::clear", "hashbrown::map::HashMap::clear", "vec::Vec::clear", "collections::HashSet::clear",
           "collections::BTreeMap::clear", "hashbrown::HashSet::clear")
        def _(I, st, fn, t, c, args, frame, at):
            st = st.copy()
            if args[0][0] == "ref":
                I.store(st, args[0][1], args[0][2], AGG("default:cleared", 0, ()), fn, at)
            return [(UNIT, st)]

        def keepwhole(k):
            old = I.handlers[k]

            def h(I, st, fn, t, c, args, frame, at):
                v = I.deref_all(st, args[0])
                if v[0] == "agg" or I.known(st, EX("discr", v, OPTION)) is not None or I.known(st, EX("discr", v, RESULT)) is not None:
                    return old(I, st, fn, t, c, args, frame, at)
                return [(EX(k.split("::")[-1], v, *[I.deref_all(st, a) for a in args[1:]]), st)]
            I.handlers[k] = h
        for k in ("option::Option::unwrap_or", "option::Option::unwrap_or_default"):
            keepwhole(k)

        def apply_variant(good, wrap_good, wrap_bad):
            def h(I, st, fn, t, c, args, frame, at):
                adt = OPTION if norm(c["name"]).startswith("option::") else RESULT
                out = []
                for vi, pv, ns in split_enum(I, st, args[0], adt):
                    isgood = vi == (1 if adt == OPTION else 0)
                    out += (wrap_good if isgood else wrap_bad)(adt, pv, ns, I, args, fn, at, frame)
                return out
            return h

        def keep(adt, pv, ns, I, args, fn, at, frame):
            return [(SOME(pv) if adt == OPTION else OK(pv), ns)]

        def keepbad(adt, pv, ns, I, args, fn, at, frame):
            return [(NONE if adt == OPTION else ERR(pv), ns)]

        def fgood(adt, pv, ns, I, args, fn, at, frame):
            return [((SOME if adt == OPTION else OK)(x), n2) for x, n2 in apply(I, ns, args[-1], [pv], fn, at, frame)]
        H("option::Option::map", "result::Result::map")(apply_variant(1, fgood, keepbad))
        H("result::Result::map_err")(apply_variant(1, keep, lambda adt, pv, ns, I, args, fn, at, frame: [
            (ERR(x), n2) for x, n2 in apply(I, ns, args[-1], [pv], fn, at, frame)]))
        bare = lambda adt, pv, ns, I, args, fn, at, frame: [(pv, ns)]
        callbad = lambda adt, pv, ns, I, args, fn, at, frame: apply(I, ns, args[-1], [] if adt == OPTION else [pv], fn, at, frame)
        H("option::Option::unwrap_or_else", "result::Result::unwrap_or_else")(apply_variant(1, bare, callbad))
        H("option::Option::map_or_else", "result::Result::map_or_else")(apply_variant(
            1, lambda adt, pv, ns, I, args, fn, at, frame: apply(I, ns, args[2], [pv], fn, at, frame),
            lambda adt, pv, ns, I, args, fn, at, frame: apply(I, ns, args[1], [] if adt == OPTION else [pv], fn, at, frame)))
        H("option::Option::map_or", "result::Result::map_or")(apply_variant(
            1, lambda adt, pv, ns, I, args, fn, at, frame: apply(I, ns, args[2], [pv], fn, at, frame),
            lambda adt, pv, ns, I, args, fn, at, frame: [(args[1], ns)]))
        H("option::Option::and_then", "result::Result::and_then")(apply_variant(
            1, lambda adt, pv, ns, I, args, fn, at, frame: apply(I, ns, args[-1], [pv], fn, at, frame), keepbad))
        H("option::Option::ok_or_else")(apply_variant(
            1, lambda adt, pv, ns, I, args, fn, at, frame: [(OK(pv), ns)],
            lambda adt, pv, ns, I, args, fn, at, frame: [(ERR(x), n2) for x, n2 in apply(I, ns, args[-1], [], fn, at, frame)]))
        H("option::Option::or_else", "result::Result::or_else")(apply_variant(1, keep, callbad))
        yes = lambda adt, pv, ns, I, args, fn, at, frame: apply(I, ns, args[-1], [pv], fn, at, frame)
        const = lambda k: lambda adt, pv, ns, I, args, fn, at, frame: [(C(k), ns)]
        H("option::Option::is_some_and", "result::Result::is_ok_and")(apply_variant(1, yes, const(0)))
        H("option::Option::is_none_or")(apply_variant(1, yes, const(1)))
        H("result::Result::is_err_and")(apply_variant(1, const(0), yes))
        looked = lambda adt, pv, ns, I, args, fn, at, frame: [((SOME if adt == OPTION else OK)(pv), n2) for _, n2 in apply(I, ns, args[-1], [pv], fn, at, frame)]
        H("option::Option::inspect", "result::Result::inspect")(apply_variant(1, looked, keepbad))
        H("result::Result::inspect_err")(apply_variant(1, keep, lambda adt, pv, ns, I, args, fn, at, frame: [
            (ERR(pv), n2) for _, n2 in apply(I, ns, args[-1], [pv], fn, at, frame)]))
        H("option::Option::filter")(lambda I, st, fn, t, c, args, frame, at: None)

    @staticmethod
    def itersrc(it):
        while it[0] == "agg" and it[1] == "iter":
            it = it[3][0]
        return it

    def evkey(self, x):
        return (self.order.setdefault(x[0], len(self.order)), repr(x))

    def seqname(self, src):
        return src

    # ---------------------------------------------------------------- helpers for rules
    @staticmethod
    def show_event(e):
        return "%s(%s)" % (e[0], ", ".join(repr(a)[:80] for a in e[1]))


def is_default(v):
    """Is this (deep) value what a default-constructed state consists of?"""
    if v[0] == "c":
        return v[1] == 0
    if v[0] == "s":
        return not any(p[0] != "lit" or p[1] for p in v[1])
    if v[0] == "agg":
        if v[1].startswith("default:") or v[1].startswith("zst:"):
            return True
        if v == NONE:
            return True
        if v[1] == "vecof":
            return not v[3]
        return v[1] != "iter" and v[2] == 0 and all(is_default(x) for x in v[3])
    if v[0] == "upd":
        return False
    return False
