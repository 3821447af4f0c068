"""Equation numbers, tags and labels."""
import itertools
import re
from apirun import Trace
from facts import norm

RULE = ("The functions which touch the state of numbered rows, the counter or the table of labels are found by their types; each is evaluated symbolically on all its paths, with the helpers which touch them too inlined. For every path which "
        "divides rows or ends an environment the given number, the label and the new state are compared with a table over the mode of the environment, the tag, the suppression and the label of the row (all 48 combinations); the commands "
        "which set tag, suppression and label change just that; each environment starts with its own mode, and nothing else writes the counter, the labels or the mode.")
ASSUMPTIONS = ["an error ends the conversion (P29)"]
LIBS = ("math_core", "math_core_renderer_internal")
MODES = {"Align": "AllByDefault", "Equation": "AllByDefault", "Gather": "AllByDefault", "MultLine": "OnlyLast", "AlignStar": "NoneByDefault", "EquationStar": "NoneByDefault", "GatherStar": "NoneByDefault"}
NES, GS = "environments::NumberedEnvState", "global_state::GlobalState"
DERIVED = ("::fmt", "::default", "::clone", "::eq", "::hash", "::ne", "::cmp", "::drop")


def plain(v):
    """Names without the variants through which they go."""
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == "sym":
            return ("sym", re.sub(r"@\w+(?=\.|$)", "", v[1]))
        if len(v) == 3 and v[0] == "ref" and v[1][0] == "S" and not v[2]:
            return ("sym", re.sub(r"@\w+(?=\.|$)", "", v[1][1]))
        return tuple(plain(x) if isinstance(x, tuple) else x for x in v)
    return v


def syms(v, out):
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == "sym":
            out.add(v[1])
        else:
            for x in v:
                syms(x, out)
    return out


def some(v):
    return v[3][0] if isinstance(v, tuple) and v[0] == "agg" and v[1].endswith("option::Option") and v[2] == 1 else None


def none(v):
    return isinstance(v, tuple) and v[0] == "agg" and v[1].endswith("option::Option") and v[2] == 0


class Rows:
    def __init__(self, ctx):
        self.ctx, self.F = ctx, ctx.F
        F = self.F
        self.fields = {}
        for k, a in F.adts.items():
            if k.endswith(NES):
                self.nes = k
                for x in a["variants"][0]["fields"]:
                    t = x["ty"]
                    kind = "mode" if "NumberingMode" in t else "off" if t == "bool" else "tag" if "EquationTag" in t else "label" if "str" in t else "rows" if "NonZero" in t else None
                    self.fields.setdefault(kind, []).append(x["name"])
            if k.endswith("environments::NumberingMode"):
                self.modes = {i: v["name"] for i, v in enumerate(a["variants"])}
            if k.endswith("environments::Env"):
                self.envs = {i: v["name"] for i, v in enumerate(a["variants"])}
            if k.endswith("token::Token"):
                self.tokens = {i: v["name"] for i, v in enumerate(a["variants"])}
            if k.endswith(GS):
                self.gs = k
                self.count = [x["name"] for x in a["variants"][0]["fields"] if x["ty"] == "usize"]
                self.map = [x["name"] for x in a["variants"][0]["fields"] if "KString" in x["ty"] and x["ty"].count("KString") >= 2]
            if k.endswith("ast::Node"):
                self.sep = [i for i, v in enumerate(a["variants"]) if any("RowLabelInfo" in x["ty"] for x in v["fields"]) and any("LineType" in x["ty"] for x in v["fields"])]
            if k.endswith("table::EquationTag"):
                self.etag = [x["name"] for x in a["variants"][0]["fields"]]
        self.touch = {}
        self.rec = {}

    def found(self):
        f = self.fields
        return all(len(f.get(k, ())) == 1 for k in ("mode", "off", "tag", "label", "rows")) and None not in f and len(self.count) == 1 and len(self.map) == 1 and len(self.sep) == 1 \
            and set(self.modes.values()) == {"NoneByDefault", "AllByDefault", "OnlyLast"} and self.etag == ["text", "parenthesized"]

    # ------------------------------------------------------------ which functions
    def mention(self, b):
        s = str(b)
        return NES in s or "'%s'" % self.count[0] in s or "'%s'" % self.map[0] in s or "RowSeparator" in s or "RowLabelInfo" in s and "'agg'" in s

    def calls(self, f):
        for i, b in enumerate(f["blocks"]):
            if b["term"]["t"] == "call" and not b.get("cleanup"):
                g = self.F.callee_body(b["term"].get("c", {}))
                if g is not None and g["crate"] == "math_core":
                    yield i, g

    def touching(self, f):
        """Does it touch the state, itself or through functions which do not get back to it?"""
        k = f["key"]
        if k not in self.touch:
            self.touch[k] = False
            self.touch[k] = not f["name"].endswith(DERIVED) and any(self.mention(b) for b in f["blocks"] if not b.get("cleanup"))
            if not self.touch[k]:
                self.touch[k] = any(not self.root(g) and self.touching(g) for _, g in self.calls(f))
        return self.touch[k]

    def recursive(self, f):
        k = f["key"]
        if k not in self.rec:
            seen, w = set(), [f]
            self.rec[k] = False
            while w:
                for _, g in self.calls(w.pop()):
                    if g["key"] == k:
                        self.rec[k] = True
                        w = []
                        break
                    if g["key"] not in seen:
                        seen.add(g["key"])
                        w.append(g)
        return self.rec[k]

    def parser(self, f):
        return any("parser::Parser<" in f["locals"][i]["ty"] for i in range(1, f["argc"] + 1))

    def root(self, f):
        return self.parser(f) and (self.recursive(f) or any("token::Tok" in f["locals"][i]["ty"] for i in range(1, f["argc"] + 1)))

    def prune(self, f):
        """The function with only the paths which touch the state."""
        bl = f["blocks"]
        hot = [i for i, b in enumerate(bl) if self.mention(b) and not b.get("cleanup")]
        hot += [i for i, g in self.calls(f) if not self.root(g) and self.touching(g)]
        S = [[] if b.get("cleanup") else [t[k] for k in ("to", "else") if t.get(k) is not None] + [x[1] for x in t.get("arms", ())] for b in bl for t in (b["term"],)]
        P = [[] for _ in bl]
        for i, s in enumerate(S):
            for x in s:
                P[x].append(i)
        keep = set()
        for E in (S, P):
            seen, w = set(hot), list(hot)
            while w:
                for y in E[w.pop()]:
                    if y not in seen:
                        seen.add(y)
                        w.append(y)
            keep |= seen
        g = dict(f)
        g["blocks"] = [b if i in keep else {"st": [], "term": {"t": "unreachable"}, "at": b.get("at")} for i, b in enumerate(bl)]
        g["key"] = f["key"] + "#rows"
        return g

    def boundary(self, c, names, body):
        if body is None:
            if any(n and "HashMap" in n and n.endswith(("::insert", "::remove", "::clear", "::entry", "::retain", "::drain", "::extend", "::get_mut")) for n in names):
                return "labels." + [n for n in names if n][-1].split("::")[-1]
            return None
        if body["crate"] not in LIBS or body["kind"] == "Closure":
            return None
        if body["name"].endswith(("::default", "::eq", "::ne", "::clone", "::take")):
            return None
        if self.root(body) or not self.touching(body):
            return body["name"].split("::")[-1]
        return None

    # ------------------------------------------------------------ one path
    def path(self, T, rv, ev, con, st):
        p = Path()
        p.con = {}
        for k, (op, x) in con.items():
            k = plain(k)
            if k[0] == "ex" and k[1] == "isempty" and "number" in str(k) and (op, x) == ("=", 1):
                return None
            p.con.setdefault(k, []).append((op, x))
        p.rv = plain(rv)
        p.ev = [(e[0], plain(tuple(T.deep(st, a) for a in e[1])), e[3]) for e in ev]
        p.raw = ev
        p.ok = rv[0] == "agg" and rv[1].endswith("result::Result") and rv[2] == 0
        p.mem = {o: plain(v) for o, v in st.mem.items()}
        return p


class Path:
    def domain(self, key, dom):
        d = set(dom)
        for op, x in self.con.get(key, ()):
            d = {v for v in d if (v == x if op == "=" else v not in x)}
        return d

    def opt(self, name):
        return {bool(i) for k in self.con for i in ()} or {True, False} & {bool(x) for x in self.domain(("ex", "discr", ("sym", name), "core::option::Option"), (0, 1))}

    def allocated(self, v):
        """The value which was put into the arena."""
        if v is not None and v[0] == "sym":
            m = re.match(r"^(\w+)#\d+$", v[1])
            if m:
                es = [e for e in self.ev if e[0] == m.group(1)]
                if len(es) == 1 and len(es[0][1]) >= 1:
                    return es[0][1][-1]
        if v is not None and v[0] == "ex" and str(v[1]).startswith("call:") and "alloc" in v[1]:
            return v[-1]
        return v


def number(v, count):
    """Is this the text of the number after `count`?"""
    if v is None or v[0] != "s":
        return False
    ps = [p for p in v[1] if p != ("lit", "")]
    return len(ps) == 1 and ps[0][0] == "hole" and following(ps[0][1], count)


def following(v, count):
    if v[0] == "ex" and v[1] == "field" and v[3] == 0:
        return following(v[2], count)
    if v[0] == "ex" and (str(v[1]).startswith("call:") and v[1].endswith("_add") or v[1] in ("Add", "AddWithOverflow", "AddUnchecked", "+", "add")):
        return set(v[2:4]) == {count, ("c", 1)}
    return False


def get(v, fields, adts=None):
    """A field of a value which is known in part."""
    for i, n in fields:
        if v[0] == "upd":
            d = dict(v[2])
            v = d[i] if i in d else get(v[1], [(i, n)])
        elif v[0] == "agg":
            v = v[3][i] if i < len(v[3]) else ("?",)
        elif v[0] == "sym":
            v = ("sym", v[1] + "." + str(n))
        else:
            return ("?",)
    return v


def run(ctx):
    F = ctx.F
    R = Rows(ctx)
    if not ctx.expect(R.found(), "state", "fields", "NumberedEnvState", "the state of numbered rows has not the fields which are known: %s, %s" % (R.fields, R.modes)):
        return
    roots = [f for f in F.local("math_core") if f["kind"] != "Closure" and R.root(f) and R.touching(f)]
    seps = ends = sets = 0
    covered = set()
    seen_modes = {}
    for f in roots:
        T = Trace(F, R.boundary)
        g = R.prune(f)
        paths = [p for p in (R.path(T, rv, ev, con, st) for rv, ev, pairs, con, st in T.go(g)) if p]
        covered.add(f["key"])
        ctx.counts["paths"] = ctx.counts.get("paths", 0) + len(paths)
        for p in paths:
            if not p.ok:
                continue
            kind, info = what(R, p)
            tok = token(R, p)
            if kind == "sep":
                seps += separator(ctx, R, f, p, info, False)
            elif kind == "end":
                ends += separator(ctx, R, f, p, info, True)
                started(ctx, R, f, p, seen_modes)
            else:
                sets += command(ctx, R, f, p, tok)
    for name, ms in sorted(seen_modes.items()):
        want = {MODES.get(name)}
        ctx.expect(ms == want, "environment", name, name, "the environment %s starts with the numbering %s instead of %s" % (name, "/".join(map(str, ms)), MODES.get(name)), key="environment:" + name)
    ctx.floor("environments", len(seen_modes), 22)
    ctx.floor("cases at a separator of rows", seps, 24)
    ctx.floor("cases at the end of an environment", ends, 24)
    ctx.floor("cases of the commands", sets, 3)
    writers(ctx, R, covered)


def token(R, p):
    for k, cs in p.con.items():
        if k[0] == "ex" and k[1] == "discr" and k[3].endswith("token::Token"):
            for op, x in cs:
                if op == "=" and R.tokens.get(x) in ("NoNumber", "Tag", "Label", "Begin", "NewLine"):
                    return R.tokens[x], k[2]
    return None


def walk(v):
    if isinstance(v, tuple) and v:
        yield v
        for x in v:
            if isinstance(x, tuple):
                yield from walk(x)


def what(R, p):
    """Does the path make a separator of rows, or end an environment?  With the number which it gets."""
    for src in [p.rv] + [e[1] for e in p.ev]:
        for v in walk(src):
            if len(v) == 4 and v[0] == "agg" and str(v[1]).endswith("ast::Node") and v[2] == R.sep[0]:
                return "sep", v[3][0] if some(v[3][0]) is not None or none(v[3][0]) else v[3][1]
    for name, args, tys in p.ev:
        for a, t in zip(args, tys):
            if "Option<" in t and "RowLabelInfo" in t:
                return "end", a
    return None, None


def numbered(p, *more):
    """The name of the state of numbered rows on this path."""
    names = set()
    for k in p.con:
        for s in syms(k, set()):
            m = re.match(r"^(.*\.numbered)(\.0(\..*)?)?$", s)
            if m:
                names.add(m.group(1))
    return names


def separator(ctx, R, f, p, info, last):
    where = f["name"]
    kind = "end" if last else "separator"
    N = sorted(numbered(p))
    if last:
        # the state which the content left behind
        N = [n for n in N if re.match(r"^after:\w+#\d+:\d+\.", n)] or N
    if len(N) > 1:
        ctx.fail("%s:state" % kind, where, "more than one state of numbered rows is used at one %s: %s" % (kind, N))
        return 0
    if not N or p.opt(N[0]) == {False}:
        ctx.expect(none(info), kind, "%s not numbered" % where, where, "a row of an environment which has no numbers gets the number %s" % (str(info)[:80],), key=kind + ":none")
        return 1
    if p.opt(N[0]) != {True}:
        ctx.fail("%s:unknown" % kind, where, "a row ends without a look at whether its environment has numbers")
        return 0
    pre = N[0] + ".0."
    fl = {k: v[0] for k, v in R.fields.items()}
    n = 0
    cname = [s for o, v in p.mem.items() for s in syms(v, set()) if s.endswith("." + R.count[0])]
    gname = sorted({o[1] for o in p.mem if o[0] == "S" and o[1].endswith(".global_state")} | {x.rsplit(".", 1)[0] for x in cname})
    lives = [e for e in p.ev if e[0].startswith("labels.")]
    selfv = p.mem.get(("S", "self"))
    for mode, tag, off, lab in itertools.product(sorted(p.domain(("ex", "discr", ("sym", pre + fl["mode"]), [k for k in R.F.adts if k.endswith("environments::NumberingMode")][0]), R.modes)),
                                                 sorted(p.opt(pre + fl["tag"])), sorted(p.domain(("sym", pre + fl["off"]), (0, 1))), sorted(p.opt(pre + fl["label"]))):
        m = R.modes[mode]
        case = "%s, mode %s%s%s%s" % (kind, m, ", tag" if tag else "", ", suppressed" if off else "", ", label" if lab else "")
        key = case.replace(", ", ":").replace(" ", "-")
        n += 1
        deferred = m == "OnlyLast" and not last
        want = None if deferred else "tag" if tag else None if off or m == "NoneByDefault" else "number"
        # the number of the row
        rec = p.allocated(some(info)) if some(info) is not None else None
        text = None
        if want is None:
            ctx.expect(none(info), "number", case, where, "a row (%s) gets a number: %s" % (case, str(info)[:60]), key=key + ":number")
        else:
            good = rec is not None and rec[0] == "agg" and rec[1].endswith("RowLabelInfo")
            t = rec[3][0] if good else None
            if want == "tag" and good:
                text = ("sym", pre + fl["tag"] + ".0.text")
                good = t == ("sym", pre + fl["tag"] + ".0") or t[0] == "agg" and t[3] == (text, ("sym", pre + fl["tag"] + ".0.parenthesized"))
            elif good:
                good = t[0] == "agg" and len(gname) == 1 and number(p.allocated(t[3][0]), ("sym", gname[0] + "." + R.count[0])) and t[3][1] == ("c", 1)
                text = t[3][0] if t[0] == "agg" else None
            ctx.expect(good, "number", case, where, "a row (%s) does not get %s but %s" % (case, "its tag" if want == "tag" else "the next number in parentheses", str(t)[:120]), key=key + ":number")
            link = rec[3][1] if rec is not None and rec[0] == "agg" and len(rec[3]) > 1 else None
            ln = ("sym", pre + fl["label"])
            ctx.expect(link is not None and (link == ln or (none(link) if not lab else some(link) == ("sym", ln[1] + ".0"))), "link", case, where, "a row (%s) does not carry its label but %s" % (case, str(link)[:80]), key=key + ":link")
        # the counter
        moved = [v for o, v in p.mem.items() if o[0] == "S" and o[1].endswith("global_state")]
        new = get(moved[0], [(index(R.F, R.gs, R.count[0]), R.count[0])]) if moved else None
        same = new is None or new == ("sym", gname[0] + "." + R.count[0])
        if want == "number":
            ctx.expect(new is not None and len(gname) == 1 and following(new, ("sym", gname[0] + "." + R.count[0])), "counter", case, where, "the counter does not go on by one when a row (%s) gets a number: %s" % (case, str(new)[:90]), key=key + ":counter")
        else:
            ctx.expect(same, "counter", case, where, "the counter changes though a row (%s) gets no number: %s" % (case, str(new)[:90]), key=key + ":counter")
        # the table of labels
        if want and lab:
            good = len(lives) == 1 and lives[0][0].endswith("insert") and lives[0][1][1] == ("sym", pre + fl["label"] + ".0") and lives[0][1][2] == text
            ctx.expect(good, "labels", case, where, "the label of a row (%s) is not entered with its number: %s" % (case, [(e[0], e[1][1:]) for e in lives]), key=key + ":labels")
        else:
            ctx.expect(not lives, "labels", case, where, "the table of labels is changed for a row (%s)" % case, key=key + ":labels")
        if last:
            continue
        # what is left for the next row
        ix = lambda a, x: (index(R.F, a, x), x)
        nv = env_value(R, selfv, N[0])
        after = {k: get(nv, [ix(R.nes, fl[k])]) if nv else ("?",) for k in fl}
        before = {k: ("sym", pre + fl[k]) for k in fl}
        ctx.expect(after["mode"] == before["mode"], "next row", case + " mode", where, "the mode changes at a row (%s)" % case, key=key + ":mode")
        if deferred:
            for k, what_ in (("tag", "tag"), ("off", "suppression"), ("label", "label")):
                kept = after[k] == before[k] or k != "off" and (none(after[k]) if not (tag if k == "tag" else lab) else some(after[k]) == ("sym", before[k][1] + ".0")) or k == "off" and after[k] == ("c", off)
                ctx.expect(kept, "next row", "%s %s" % (case, what_), where, "the %s is lost at a row which cannot have a number (%s), before the row which has the only one" % (what_, case), key="%s:%s" % (key, what_))
        else:
            ctx.expect(none(after["tag"]) or not tag and after["tag"] == before["tag"], "next row", case + " tag", where, "the tag goes on to the next row (%s)" % case, key=key + ":tag")
            if m != "NoneByDefault":       # there it would change nothing
                ctx.expect(after["off"] == ("c", 0) or not off and after["off"] == before["off"], "next row", case + " suppression", where, "the suppression of the number goes on to the next row (%s)" % case, key=key.replace(":label", "") + ":suppression")
            ctx.expect(none(after["label"]) or not lab and after["label"] == before["label"], "next row", case + " label", where, "the label goes on to the next row (%s)" % case, key=key + ":label")
        if p.opt(pre + fl["rows"]) == {True}:
            r = after["rows"]
            inner = some(r) if some(r) is not None else get(r, [(0, "0")])
            ctx.expect(following(inner, ("sym", pre + fl["rows"] + ".0")), "next row", case + " rows", where, "the rows are not counted (%s): %s" % (case, str(r)[:80]), key=key + ":rows")
    return n


def index(F, adt, name):
    return [x["name"] for x in F.adts[adt]["variants"][0]["fields"]].index(name)


def env_value(R, v, name):
    """The state of numbered rows within the parser."""
    if v is None:
        return None
    F = R.F
    adt = [k for k in F.adts if k.endswith("parser::Parser")][0]
    for part in ("state", "env", "numbered"):
        fs = F.adts[adt]["variants"][0]["fields"]
        i = [x["name"] for x in fs].index(part) if part in [x["name"] for x in fs] else None
        if i is None:
            return None
        v = get(v, [(i, part)])
        adt = next((k for k in F.adts if any(k.endswith("::" + t.split("::")[-1]) for t in re.findall(r"[\w:]+", fs[i]["ty"])) and F.adts[k]["crate"] == "math_core"), None)
    return some(v) if some(v) is not None else get(v, [(0, "0")])


def started(ctx, R, f, p, seen):
    """The state with which the content of an environment is parsed, and the one which is put back."""
    tok = token(R, p)
    env = None
    for k, cs in p.con.items():
        if k[0] == "ex" and k[1] == "discr" and k[3].endswith("environments::Env"):
            env = k
    names = [R.envs[i] for i in sorted(p.domain(env, R.envs))] if env else sorted(R.envs.values())
    got = []
    for name, args, tys in p.ev:
        if args and tys and "parser::Parser<" in tys[0]:
            for v in walk(args[0]):
                if v[0] == "agg" and str(v[1]).endswith("environments::EnvState") and v not in got:
                    got.append(v)
    if len(got) != 1:
        ctx.fail("start", f["name"], "the state with which an environment starts is not known")
        return
    i = index(R.F, [k for k in R.F.adts if k.endswith("environments::EnvState")][0], "numbered")
    n = got[0][3][i]
    s = some(n)
    if none(n):
        m = None
    elif s is not None and s[0] == "agg":
        fs = {k: s[3][index(R.F, R.nes, v[0])] for k, v in R.fields.items()}
        mv = fs["mode"]
        m = R.modes.get(mv[2]) if mv[0] == "agg" else "?"
        ctx.expect(none(fs["tag"]) and none(fs["label"]) and fs["off"] == ("c", 0), "start", "/".join(names), f["name"], "the environment %s starts with a tag, a label or a suppressed number" % "/".join(names), key="start:" + "/".join(names))
        if m == "OnlyLast":
            ctx.expect(not none(fs["rows"]), "start", "rows " + "/".join(names), f["name"], "the environment %s does not count its rows" % "/".join(names), key="start:rows")
    else:
        m = "?"
    for x in names:
        seen.setdefault(x, set()).add(m)


def command(ctx, R, f, p, tok):
    """\\tag, \\notag and \\label change just what they name."""
    N = sorted(numbered(p))
    if not tok or tok[0] not in ("NoNumber", "Tag", "Label"):
        for o, v in p.mem.items():
            ctx.expect(not changes(R, v), "command", "%s %s" % (f["name"], o[1]), f["name"], "the state of numbered rows changes on a path which neither divides rows nor sets a tag, a label or a suppression: %s" % (str(changes(R, v))[:100]), key="command:other")
        return 0
    where = f["name"]
    kind, tk = tok
    if not N or p.opt(N[0]) == {False}:
        ctx.expect(kind == "NoNumber", "command", kind + " elsewhere", where, "the command for %s is accepted where there are no numbers" % kind, key="command:%s:elsewhere" % kind)
        return 0
    if len(N) > 1:
        ctx.fail("command:state", where, "%s uses more than one state: %s" % (kind, N))
        return 0
    fl = {k: v[0] for k, v in R.fields.items()}
    nv = env_value(R, p.mem.get(("S", "self")), N[0])
    if nv is None:
        ctx.fail("command:" + kind, where, "the state after %s is not known" % kind)
        return 0
    pre = N[0] + ".0."
    for k in fl:
        v, old = get(nv, [(index(R.F, R.nes, fl[k]), fl[k])]), ("sym", pre + fl[k])
        if k == {"NoNumber": "off", "Tag": "tag", "Label": "label"}[kind]:
            if k == "off":
                good = v == ("c", 1)
            elif k == "label":
                good = literal(some(v)) and p.opt(pre + fl["label"]) == {False}
            else:
                t = some(v)
                good = t is not None and t[0] == "agg" and literal(t[3][0]) and t[3][1] in (("sym", tk[1] + ".parenthesized") if tk[0] == "sym" else None, ("sym", tk[1] + ".0"))
            ctx.expect(good, "command", kind, where, "%s sets %s" % (kind, str(v)[:120]), key="command:" + kind)
        else:
            same = v == old or none(v) and p.opt(pre + fl[k]) == {False}
            ctx.expect(same, "command", "%s keeps %s" % (kind, k), where, "%s changes the %s of the row" % (kind, k), key="command:%s:%s" % (kind, k))
    return 1


def literal(v):
    """The text which the parser has read as the argument."""
    return v is not None and v[0] == "sym" and re.match(r"^\w+#\d+(\.\d+)*$", v[1]) is not None


def changes(R, v):
    """Is part of the state of numbered rows or of the counter overwritten in this value?"""
    for x in walk(v):
        if x[0] == "upd" and x[1][0] == "sym" and re.search(r"\.numbered(\.0)?$", x[1][1]):
            return x
        if x[0] == "upd" and x[1][0] == "sym" and x[1][1].endswith("global_state"):
            return x
    return None


def writers(ctx, R, covered):
    """Nothing else writes the counter, the labels or the state of numbered rows."""
    F = R.F
    inl = set()
    w = [f for f in F.local("math_core") if f["key"] in covered]
    while w:
        for _, g in R.calls(w.pop()):
            if g["key"] not in inl and g["key"] not in covered and not R.root(g) and R.touching(g):
                inl.add(g["key"])
                w.append(g)
    n = 0
    for f in F.local("math_core"):
        if f["name"].endswith(DERIVED):
            continue
        for b in f["blocks"]:
            if b.get("cleanup"):
                continue
            for s in b["st"]:
                if s["s"] != "=":
                    continue
                hits = []
                for p, mode in [(s["p"], "write")] + ([(s["rv"]["p"], "ref")] if s["rv"]["r"] in ("ref", "rawptr") and (s["rv"].get("mut") or s["rv"].get("bk") == "mut") else []):
                    for x in p[1]:
                        if x[0] == "f" and len(x) > 3 and (str(x[3]).endswith(NES) or str(x[3]).endswith(GS) and x[2] in (R.count[0], R.map[0])):
                            hits.append((x[2], mode))
                for nm, mode in hits:
                    n += 1
                    ok = f["key"] in covered or f["key"] in inl
                    reset = f["name"].endswith("reset_global_state")
                    ctx.expect(ok or reset, "writers", "%s %s" % (f["name"], nm), f["name"], "%s changes %s outside of the rows of an environment" % (f["name"], nm), key="writers:%s:%s" % (f["name"], nm))
                    if nm == R.fields["mode"][0]:
                        ctx.fail("mode:" + f["name"], f["name"], "the mode of an environment is changed while it is parsed")
    ctx.floor("writes of the state", n, 6)
