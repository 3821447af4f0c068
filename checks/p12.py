"""Converting a collection: one result per snippet, everything parsed before anything is written."""
from apicommon import method, trace, boundary, norm
from absint import RESULT

RULE = ("For every path through convert_all (calls of the parser and the writer recorded, sequences as sets of possible elements, iterator adaptors known to keep every element in its place): "
        "no parser runs after a writer; each element taken from a sequence gives exactly one element of the result before the next is taken; what is parsed is the source of the element, "
        "the nodes written are those parsed, an error of the parser is the result.")


def run(ctx):
    F = ctx.F
    fn = method(ctx, "convert_all")
    if not fn:
        return
    src = fn["locals"][2]["name"]
    from apirun import Trace
    T = Trace(F, boundary)
    T.track = True
    paths = T.go(fn)
    ctx.floor("paths of convert_all", len(paths), 4)
    oks = errs = 0
    for rv, ev, pairs, con, st in paths:
        bad = sorted({(a, b) for a, b in pairs if a.startswith("Emitter::") and b.startswith(("Parser::", "Lexer::"))})
        ctx.expect(not bad, "phases", "order", "convert_all", "a snippet is parsed after another one was written: %s" % (bad[:1],))
        skip = [x for x in pairs if x[0] == "#skip" and (x[1][1] == src or x[1][1] == "vecof")]
        ctx.expect(not skip, "one", "skip", "convert_all", "a snippet can be passed over without a result")
        openend = [x for x in pairs if x[0] == "#open" and (x[1][1] == src or x[1][1] == "vecof")]
        ctx.expect(not openend, "one", "end", "convert_all", "going through the snippets can end before the last one")
        ctx.expect(("#extra", "") not in pairs, "one", "extra", "convert_all", "a snippet can give more than one result")
        ok = rv[0] == "agg" and rv[1] == "vecof"
        ctx.expect(ok, "result", "list", "convert_all", "the results are not exactly those of the snippets in their order: %s" % repr(rv)[:150])
        if not ok:
            continue
        isempty = any(k[0] == "ex" and k[1] == "isempty" and k[2] == ("sym", src) and v in (1, ("=", 1)) for k, v in con.items())
        ctx.expect(bool(rv[3]) or isempty, "result", "some", "convert_all", "there are no results although there are snippets")
        for x in rv[3]:
            if x[0] == "agg" and x[1] == RESULT and x[2] == 1:
                e = x[3][0]
                errs += 1
                ctx.expect(e[0] == "sym" and e[1].startswith("Parser::") and "@Err.0" in e[1], "result", "error", "convert_all", "an error in the results is not the one of the parser: %s" % repr(e)[:100])
            elif x[0] == "agg" and x[1] == RESULT:
                oks += 1
                r = x[3][0]
                ctx.expect(r[0] == "agg" and r[1].endswith("ConvertResult") and any(y[0] == "sym" and y[1].startswith("Emitter::") for y in r[3]), "result", "ok", "convert_all",
                           "a result is not what the writer gave: %s" % repr(r)[:150])
            else:
                ctx.fail("result:kind", "convert_all", "a result is neither a conversion nor an error of the parser: %s" % repr(x)[:150])
        for e in ev:
            if e[0] == "Lexer::new":
                ctx.expect(e[1][0] == ("sym", src + "[].0"), "source", "lexer", "convert_all", "what is parsed is not the source of the snippet: %s" % T.show_event(e)[:150])
            if e[0] == "Emitter::emit":
                v = [a for a, ty in zip(e[1], e[3]) if "Node" in norm(ty)]
                ctx.expect(all(a[0] == "sym" and a[1].startswith(("Parser::parse", "node_vec_to_node")) for a in v), "source", "emit", "convert_all",
                           "what is written is not what was parsed: %s" % T.show_event(e)[:150])
            if e[0] == "node_vec_to_node":
                ctx.expect(e[1][1][0] == "sym" and e[1][1][1].startswith("Parser::parse"), "source", "row", "convert_all", "what is written is not what was parsed: %s" % T.show_event(e)[:150])
    ctx.floor("successful results", oks, 1)
    ctx.floor("failed results", errs, 1)
