"""The command line tool changes files and exits as it should."""
import clicommon
from clicommon import arg, truth, variant, main, boundary
from apirun import Trace
from absint import SYM, C, mentions
from facts import norm

RULE = ("All paths through the command line tool, from main and from every function which calls itself, with the arguments, files and results of the library symbolic: every call which can change a file, every "
        "call which ends the process and everything printed is a recorded event with its arguments and the conditions of its path. A file may be opened for writing only on paths where its own content was read and "
        "converted without error, no dry run was asked for and writing was; what is written is the result of that conversion. A path on which reading, converting or writing failed must end the process with "
        "1 (reading or writing), 2 (a formula or macro was rejected), 3 (the configuration which was named does not exist) or 4 (the configuration cannot be used); no other path may end it like that.")
ASSUMPTIONS = ["entries of a directory which cannot be read are skipped by the recursive mode"]
HARMLESS = {"fs::read_to_string", "fs::read", "fs::read_dir", "fs::metadata", "fs::symlink_metadata", "fs::canonicalize", "fs::exists", "fs::File::open", "io::stdin", "io::read_to_string", "io::read", "io::read_to_end",
            "io::_eprint", "io::stderr", "io::stdout", "io::flush", "fs::try_exists", "io::stdio::stdin", "io::Stdin::lock", "io::Stdout::lock", "io::Stderr::lock"}
KINDS = {"io": 1, "formula": 2}


def run(ctx):
    F = ctx.F
    n = {"create": 0, "write": 0, "print": 0, "exit": 0, "done": 0}
    m = main(ctx)
    if not m:
        return
    roots = [m] + recursive(F)
    for f in roots:
        one(ctx, f, n, f is m)
    for k, least in (("create", 1), ("write", 1), ("print", 2), ("exit", 5), ("done", 5)):
        ctx.floor("events: " + k, n[k], least)


def recursive(F):
    """Functions of the tool which can reach themselves."""
    edges = {}
    for k, f in F.fns.items():
        if f["crate"] == clicommon.CRATE and f["kind"] != "Closure":
            out = set()
            for b in f["blocks"]:
                t = b["term"]
                if t["t"] == "call" and "c" in t:
                    g = F.callee_body(t["c"])
                    if g is not None and g["crate"] == clicommon.CRATE:
                        out.add(g["key"])
            edges[k] = out
    res = []
    for k in edges:
        seen, work = set(), list(edges[k])
        while work:
            x = work.pop()
            if x not in seen:
                seen.add(x)
                work += edges.get(x, ())
        if k in seen and not F.fns[k].get("trait"):
            res.append(F.fns[k])
    return sorted(res, key=lambda f: f["key"])


def failures(con):
    """The results which are errors on this path: (kind, symbol)."""
    out = []
    for k in con:
        if k[0] == "ex" and k[1] == "discr" and truth(con, k) == 1:
            v = k[2]
            if v[0] == "sym" and "@" not in v[1] and "." not in v[1].split("#")[-1]:
                if v[1].startswith(("Replacer.replace#", "LatexToMathML.")):
                    out.append(("formula", v))
                elif v[1].startswith(("fs::", "io::")) and v[1].split("#")[0] not in ("fs::exists", "fs::try_exists"):
                    out.append(("io", v))
            if v[0] == "sym" and v[1].startswith("?") and ("io::" in v[1] or "fs::" in v[1]) and ("read" in v[1] or "write" in v[1] or "create" in v[1]):
                out.append(("io", v))
    return out


def one(ctx, fn, n, ismain):
    T = Trace(ctx.F, boundary, budget=2_000_000)
    where = fn["name"].split("::")[-1]
    names = {}
    for i in range(1, fn["argc"] + 1):
        if (fn["locals"][i].get("adt") or norm(fn["locals"][i]["ty"]).strip("& ")).endswith("Args"):
            names[i] = "Args.parse#0"

    def bad(key, msg, st=None):
        ctx.fail(key, where, msg, ["on the path with: " + ", ".join("%s = %s" % (T.show(k)[:70], truth(st.con, k)) for k in st.con)] if st is not None else ())

    def conversion(st):
        """The conversions which succeeded on this path: (path of the file, result)."""
        ev = st.mon[0]
        out = []
        for e in ev:
            if e[0] == "Replacer.replace":
                src = [a for a in e[1] if a[0] == "sym" and (a[1].startswith("fs::read") and a[1].endswith("@Ok.0"))]
                for s in src:
                    for r in ev:
                        if r[0].startswith("fs::read"):
                            out.append((r[1][0], s[1][:-len("@Ok.0")], e))
        return out

    def on_event(st, name, vals, raw):
        con = st.con
        if name.startswith("fs::OpenOptions::") and name != "fs::OpenOptions::open" or name == "fs::File::options":
            return              # only `open` does anything
        if name in ("fs::File::create", "fs::write", "fs::OpenOptions::open", "fs::File::create_new"):
            n["create"] += 1
            if name == "fs::OpenOptions::open":
                vals = vals[1:]
                if not any(e[0] == "fs::OpenOptions::truncate" and e[1][1] == C(1) for e in st.mon[0]):
                    bad("create:truncate", "a file is opened for writing without removing what it contains", st)
            ok = [c for c in conversion(st) if c[0] == vals[0] and variant(con, SYM(c[1])) == 0]
            if not ok:
                return bad("create:source", "a file is opened for writing which was not read and converted on this path", st)
            if not any(variant(con, v) == 0 for v in results(st, "Replacer.replace")):
                return bad("create:converted", "a file is opened for writing although its conversion has not succeeded", st)
            if failures(other(con)):
                return bad("create:failed", "a file is opened for writing after %s failed" % T.show(failures(other(con))[0][1]), st)
            if truth(con, arg("dry_run")) != 0:
                return bad("create:dry", "a file is opened for writing in a dry run", st)
            if ismain and not (truth(con, arg("write")) == 1 or truth(con, arg("recursive")) == 1):
                return bad("create:asked", "a file is opened for writing although that was not asked for", st)
            ctx.ok("opened for writing", where)
            if name == "fs::write":
                n["write"] += 1
                (ctx.ok("written", where) if good(st, vals[1]) else bad("write:what", "what is written is not the result of the conversion: %s" % T.show(vals[1])[:120], st))
            return
        if name.startswith("io::write") or name == "io::write_fmt":
            if mentions(vals[0], lambda s: s.startswith(("fs::File", "fs::OpenOptions::open", "after:io::write"))):
                n["write"] += 1
                if name != "io::write_all":
                    if name == "io::write_fmt" and text(vals[1])[0] == [b""] * 2 and good(st, text(vals[1])[1]):
                        return ctx.ok("written", where)
                    return bad("write:how", "%s may write only a part" % name, st)
                return ctx.ok("written", where) if good(st, vals[1]) else bad("write:what", "what is written is not the result of the conversion: %s" % T.show(vals[1])[:120], st)
            if mentions(vals[0], lambda s: s.startswith("io::stderr")):
                return
            return printed(st, vals[1])
        if name == "io::_print":
            return printed(st, vals[0])
        if name == "process::exit" or name in ("process::abort",):
            n["exit"] += 1
            return exit(st, vals)
        if name.startswith(("fs::", "io::", "process::", "env::", "os::", "net::")) and name not in HARMLESS and not name.startswith(("fs::DirEntry::", "fs::Metadata::", "fs::FileType::", "io::Error", "io::read", "io::error")):
            bad("effect:" + name, "%s is called; what it does to files is not known" % name, st)

    def results(st, prefix):
        seen = {k[2] for k in st.con if k[0] == "ex" and k[1] == "discr" and k[2][0] == "sym" and k[2][1].startswith(prefix + "#")}
        return sorted(seen)

    def other(con):
        """Without the configuration, which may be missing."""
        cfg = config(con)
        return {k: v for k, v in con.items() if not (k[0] == "ex" and k[1] == "discr" and k[2] in cfg)}

    def config(con):
        """The result of reading the configuration: what is read before the converter is made."""
        return cfgsites

    cfgsites = set()

    def good(st, v):
        return v[0] == "sym" and v[1].startswith("Replacer.replace#") and v[1].endswith("@Ok.0") and variant(st.con, SYM(v[1][:-5])) == 0

    def text(v):
        """(template, the one value) of something that is formatted."""
        if v[0] == "agg" and v[1] == "fmt::Arguments" and v[3][0][0] == "bytes" and len(v[3]) > 1 and v[3][1][0] == "agg" and len(v[3][1][3]) == 1:
            a = v[3][1][3][0]
            b = v[3][0][1]
            if a[0] == "agg" and a[1] == "fmt::Argument" and a[3][0] == ("f", "display"):
                if b == b"\xc0\x00":
                    return [b"", b""], a[3][1]
                if b == b"\xc0\x01\n\x00":
                    return [b"", b"\n"], a[3][1]
        return None, None

    def printed(st, v):
        n["print"] += 1
        con = st.con
        t, x = text(v)
        if t is None and (v[0] in ("sym", "ref") or v[0] == "ex"):
            t, x = [b"", b""], v
        if x is not None and x[0] == "sym" and x[1].startswith("LatexToMathML.") and x[1].endswith("@Ok.0.mathml"):
            ok = variant(con, SYM(x[1][:-len("@Ok.0.mathml")])) == 0
        else:
            ok = x is not None and good(st, x)
        if not ok:
            return bad("print:what", "something is printed which is not the result of the conversion: %s" % T.show(v)[:120], st)
        if failures(other(con)):
            return bad("print:failed", "a result is printed after %s failed" % T.show(failures(other(con))[0][1]), st)
        if variant(con, arg("file")) == 1 and not any(e[0].startswith("io::read") or e[0] == "io::stdin" for e in st.mon[0]):
            if truth(con, arg("dry_run")) != 0:
                return bad("print:dry", "something is printed in a dry run", st)
        ctx.ok("printed", where)

    def exit(st, vals):
        con = st.con
        code = vals[0][1] if vals[0][0] == "c" else None
        if code is None:
            return bad("exit:code", "the process is ended with a code that is not known: %s" % T.show(vals[0]), st)
        cfg = config(con)
        fails = failures(other(con))
        if fails:
            want = KINDS[fails[-1][0]]
            if {f[0] for f in fails} != {fails[-1][0]}:
                return bad("exit:late", "the process goes on after %s failed" % T.show(fails[0][1]), st)
            return ctx.ok("exit code", where) if code == want else bad("exit:%s" % fails[-1][0], "the process is ended with %d after %s failed" % (code, T.show(fails[-1][1])), st)
        if any(variant(con, c) == 1 for c in cfg) or unusable(con):
            # the configuration: 3 if it was named and does not exist, otherwise 4
            missing = notfound(con)
            want = 3 if missing == 1 and variant(con, arg("config_file")) == 1 else 4
            if missing == 1 and variant(con, arg("config_file")) != 1:
                return bad("exit:config", "the process is ended although a configuration was not named and does not exist", st)
            return ctx.ok("exit code", where) if code == want else bad("exit:config", "the process is ended with %d for a configuration which %s" % (code, "does not exist" if want == 3 else "cannot be used"), st)
        if code != 0:
            return bad("exit:none", "the process is ended with %d although nothing failed" % code, st)

    def unusable(con):
        return any(k[0] == "ex" and k[1] == "discr" and k[2][0] == "ex" and k[2][1].startswith("call:toml") and truth(con, k) == 1 for k in con)

    def notfound(con):
        for k in con:
            if k[0] == "ex" and k[1].startswith("call:") and "ErrorKind" in k[1] and k[1].endswith("::eq"):
                return truth(con, k)
            if k[0] == "ex" and k[1].startswith("call:") and "ErrorKind" in k[1] and k[1].endswith("::ne"):
                return 1 - truth(con, k)
            if k[0] == "ex" and k[1] == "discr" and k[2][0] == "ex" and k[2][1].endswith("io::Error::kind"):
                return 1 if truth(con, k) == 0 else 0       # NotFound is the first
        return None

    def first(st, name, vals, raw):
        if ismain and name.startswith("fs::read") and not any(e[0] == "LatexToMathML.new" for e in st.mon[0]):
            cfgsites.add(SYM(T.current))          # this is the configuration
        if name == "LatexToMathML.new":
            con = st.con
            if any(variant(con, c) == 1 for c in cfgsites) and not (notfound(con) == 1 and variant(con, arg("config_file")) == 0):
                bad("config:unnoticed", "the process goes on without the configuration although it was named, or exists and cannot be read", st)
            elif unusable(con):
                bad("config:unusable", "the process goes on although the configuration cannot be used", st)
            else:
                ctx.ok("configuration", where)
        on_event(st, name, vals, raw)
    T.on_event = first
    paths = T.go(fn, names)
    for rv, ev, pairs, con, st in paths:
        if rv[0] == "never":
            continue
        n["done"] += 1
        fails = failures(other(con))
        if fails:
            bad("unnoticed:%s" % fails[0][0], "the process can end as if nothing had happened although %s failed" % T.show(fails[0][1]), st)
        for e in ev:
            if e[0] in ("fs::read_to_string", "fs::read", "fs::read_dir", "fs::File::create", "fs::OpenOptions::open", "fs::write", "io::write_all", "Replacer.replace") or e[0].startswith("LatexToMathML.convert"):
                ok = any(variant(con, v) is not None for v in results(st, e[0]))
                ctx.expect(ok, "looked at", e[0], where, "the process can end as if nothing had happened without looking at whether %s failed" % e[0])
        if not fails and ismain:
            ctx.ok("no failure unnoticed", where)
            done(ctx, T, st, con, ev, bad)


def done(ctx, T, st, con, ev, bad):
    """A run which ends well has given its result."""
    names = [e[0] for e in ev]
    if variant(con, arg("file")) == 0:
        if "LatexToMathML.convert_with_global_state" not in names or not any(x in ("io::_print", "io::write_all", "io::write_fmt") for x in names):
            bad("done:formula", "the process can end without having printed the result for a formula", st)
        return
    if truth(con, arg("recursive")) == 1:
        return
    if "Replacer.replace" not in names:
        return bad("done:file", "the process can end without having converted the file", st)
    out = any(x in ("io::_print", "io::write_all", "io::write_fmt", "fs::write") for x in names)
    same = any(k[0] == "ex" and k[1].startswith("call:") and k[1].split("::")[-1] in ("ne", "eq") and mentions(k, lambda s: s.startswith("Replacer.replace#")) and truth(con, k) == (0 if k[1].endswith("ne") else 1) for k in con)
    if not out and truth(con, arg("dry_run")) != 1 and not (same and truth(con, arg("write")) == 1):
        bad("done:out", "the process can end without giving the result of the conversion", st)
