"""Traces of functions which copy pieces of a text into another: positions are linear expressions over symbols,
pieces are slices of the text with such bounds."""
from apirun import Trace
from absint import SYM, AGG, C, EX, SOME, NONE, lit

INDEX = ("slice::index", "str::traits::index", "ops::Index::index", "<str as ops::Index>::index", "<[T] as ops::Index>::index",
         "<string::String as ops::Index<I>>::index", "<string::String as ops::Index>::index", "string::String::index")


def tolin(v):
    """{atom: factor} with the constant under None."""
    if v[0] == "c":
        return {None: v[1]}
    if v[0] == "ex" and v[1] == "lin":
        d = {None: v[2]}
        d.update(dict(v[3]))
        return d
    if v[0] == "ex" and v[1] in ("Add", "Sub") and len(v) == 4:
        return plus(tolin(v[2]), tolin(v[3]), 1 if v[1] == "Add" else -1)
    return {None: 0, v: 1}


def plus(a, b, k=1):
    d = dict(a)
    for x, n in b.items():
        d[x] = d.get(x, 0) + k * n
    return {x: n for x, n in d.items() if n or x is None}


def fromlin(d):
    at = sorted(((x, n) for x, n in d.items() if x is not None), key=repr)
    if not at:
        return C(d.get(None, 0))
    if len(at) == 1 and at[0][1] == 1 and not d.get(None, 0):
        return at[0][0]
    return EX("lin", d.get(None, 0), tuple(at))


def same(a, b):
    return plus(tolin(a), tolin(b), -1) == {None: 0}


def diff(a, b):
    return fromlin(plus(tolin(a), tolin(b), -1))


def add(a, b):
    return fromlin(plus(tolin(a), tolin(b)))


def slice_of(v):
    """(text, start, end or None) of a piece of a text."""
    if v[0] == "ex" and v[1] == "piece":
        return v[2], v[3], v[4]
    return v, C(0), None


def piece(base, a, b):
    t, s, e = slice_of(base)
    a = add(s, a)
    b = e if b is None else add(s, b)
    if b is None and a == C(0):
        return t
    return EX("piece", t, a, b)


def subst(v, p, pos):
    """v with the position p replaced by the symbol pos."""
    if not isinstance(v, tuple) or not v:
        return v
    if v == p:
        return pos
    if v[0] == "ex" and v[1] == "lin":
        d, q = tolin(v), tolin(p)
        ats = [x for x in q if x is not None]
        if ats and all(d.get(x) == q[x] for x in ats):
            return fromlin(plus(plus(d, q, -1), {None: 0, pos: 1}))
        return v
    return tuple(subst(x, p, pos) if isinstance(x, tuple) else x for x in v)


class Copy(Trace):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self._install3()

    def binop(self, op, a, b, ty, site):
        base = op[:-12] if op.endswith("WithOverflow") else op.replace("Unchecked", "")
        if base in ("Add", "Sub"):
            v = fromlin(plus(tolin(a), tolin(b), 1 if base == "Add" else -1))
            if len(tolin(v)) < 14:
                return self.wrapover(op.endswith("WithOverflow"), v, C(0))
        return super().binop(op, a, b, ty, site)

    def _install3(self):
        def ends(I, st, v):
            v = I.deref_all(st, v)
            k = v[1].split("::")[-1] if v[0] == "agg" else None
            if k == "Range":
                return v[3][0], v[3][1]
            if k == "RangeTo":
                return C(0), v[3][0]
            if k == "RangeFrom":
                return v[3][0], None
            if k == "RangeFull":
                return C(0), None
            if k == "RangeInclusive":
                return v[3][0], add(v[3][1], C(1))
            if v[0] == "ex" and v[1].startswith("call:") and v[1].endswith("RangeInclusive::new"):
                return v[2], add(v[3], C(1))
            return None

        for n in INDEX:
            old = self.handlers.get(n)

            def index(I, st, fn, t, c, args, frame, at, old=old):
                h = I.deref_all(st, args[0])
                r = ends(I, st, args[1])
                if r is not None and h[0] in ("sym", "ex"):
                    return [(piece(h, *r), st)]
                if r == (C(0), None):
                    return [(h, st)]
                if old is None:
                    return [(EX("index", h, args[1]), st)]
                return old(I, st, fn, t, c, args, frame, at)
            self.handlers[n] = index

        def split(wrap):
            def go(I, st, fn, t, c, args, frame, at):
                h, i = I.deref_all(st, args[0]), args[1]
                v = AGG("tuple", 0, (piece(h, C(0), i), piece(h, i, None)))
                return [(SOME(v) if wrap else v, st)]
            return go
        for n in ("str::split_at", "slice::split_at"):
            self.handlers[n] = split(False)
        for n in ("str::split_at_checked", "slice::split_at_checked"):
            self.handlers[n] = split(True)

        def asbytes(I, st, fn, t, c, args, frame, at):
            return [(I.deref_all(st, args[0]), st)]
        for n in ("str::as_bytes", "string::String::as_bytes"):
            self.handlers[n] = asbytes

    def show(self, v):
        if v[0] == "ex" and v[1] == "lin":
            return " + ".join([self.show(x) if n == 1 else "%d*%s" % (n, self.show(x)) for x, n in v[3]] + ([str(v[2])] if v[2] else []))
        if v[0] == "ex" and v[1] == "piece":
            return "%s[%s..%s]" % (self.show(v[2]), self.show(v[3]), self.show(v[4]) if v[4] else "")
        return super().show(v)
