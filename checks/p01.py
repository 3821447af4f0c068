"""Well-formed output with the number of children MathML demands."""
import emitcommon

RULE = ("Path-sensitive abstract interpretation of the MIR of every function which writes markup (Emitter::emit for "
        "each kind of node, the <math>/<semantics> wrapper, the HTML fallback for errors) with symbolic node contents; "
        "the text written on every feasible path is fed to a pushdown monitor for XML and MathML arity. "
        "An obligation is one event of the monitor: a tag opened or closed, an attribute set, a child or a piece of "
        "unknown text written.")
ASSUMPTIONS = ["a child is written by a recursive call of Emitter::emit, which writes exactly one element (this is what is "
               "shown for every kind of node; separators are handled by the table which contains them, see P05)",
               "lengths which reach the output are finite"]


def run(ctx):
    rows = emitcommon.results(ctx, "xml", "text")
    emitcommon.report(ctx, rows, ("xml", "arity"), "xml")
    tags = {t for r in rows for t in r.get("tags", [])}
    ctx.counts["elements seen"] = sorted(tags)
    ctx.floor("different elements", len(tags), 20)
