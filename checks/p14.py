"""The output is a function of the input, the configuration and the state alone."""
import re
from facts import norm
from reach import Graph, entries

LIBS = ("math_core", "math_core_renderer_internal")
RULE = ("Effect rule over the call graph: from the public methods of the converter and of its error type, only library functions are reached which "
        "are functions of their arguments: no environment, clock, file, process, thread, random or address-dependent value, no iteration over "
        "a hash map or set, no hash map with a random state.")
CRATES = {"core", "alloc", "hashbrown", "phf", "phf_shared", "kstring", "stable_arena", "percent_encoding", "dtoa", "itoa", "memchr", "bitflags", "rustc_hash", "ariadne", "serde",
          "serde_core", "std"}
DENY = re.compile(r"(^|::|<)(env|time|fs|net|process|thread|random|rand|io::stdin|RandomState|Instant|SystemTime|DefaultHasher|getrandom|backtrace)(::|>|$)")
HASHITER = re.compile(r"(HashMap|HashSet|hash_map|hash_set|hashbrown|hash::map|hash::set)")
ITER = re.compile(r"::(iter|iter_mut|keys|values|values_mut|into_iter|into_keys|into_values|drain|retain|extract_if|union|intersection|difference|next)$")
ADDR = re.compile(r"(::addr$|expose_provenance|ptr::(const_ptr|mut_ptr)::.*(addr|offset_from)|fmt::Pointer|new_pointer$|ptr_eq$|ptr::eq$|type_name|type_id|TypeId|Location::caller)")


def run(ctx):
    F = ctx.F
    G = Graph(F, LIBS)
    R = G.closure(entries(F))
    ctx.floor("functions which a conversion reaches", len(R), 300)
    n = set()
    for k in R:
        f = F.fns[k]
        bad = None
        for g, c, kind, bi in G.out(k):
            nm = norm((c or {}).get("rname") or (c or {}).get("name") or "")
            if not nm:
                continue
            full = (c.get("rname") or c["name"])
            if g is None:
                n.add(nm)
                cr = (c.get("rcrate") or c.get("id", "").split("::")[0])
                if cr == "wasm_bindgen":
                    continue
                if cr not in CRATES:
                    bad = "calls %s of the crate %s, which is not known to depend on its arguments only" % (nm, cr)
            if DENY.search(nm):
                bad = "calls " + nm
            if ADDR.search(nm):
                bad = "calls %s, which depends on addresses" % nm
            tys = " ".join([full] + [str(x) for x in c.get("targs") or []] + [str(x) for x in f["blocks"][bi]["term"].get("aty", [])][:1])
            if HASHITER.search(tys.split("closure")[0]) and ITER.search(nm) and HASHITER.search(nm + " " + (f["blocks"][bi]["term"].get("aty") or [""])[0]) and kind == "call":
                bad = "iterates over a hash table: " + nm
        if f["crate"] in LIBS:
            for b in f["blocks"]:
                for s in b["st"]:
                    if s["s"] == "=" and s["rv"].get("r") == "cast" and re.search(r"PointerExpose|PtrToInt|FnPtrToPtr", str(s["rv"].get("kind") or "")):
                        bad = "turns a pointer into an integer"
            for l in f["locals"]:
                if "RandomState" in l["ty"]:
                    bad = "uses a hash table with a random state"
        ctx.expect(bad is None, "pure", f["name"], f["name"], "%s, which a conversion reaches, %s" % (f["name"], bad), G.path(R, k))
    ctx.counts["library functions"] = len(n)
    for a in F.adts.values():
        if a["crate"] in LIBS:
            for v in a["variants"]:
                for fl in v["fields"]:
                    ctx.expect("RandomState" not in str(fl["tys"]), "hash", "%s.%s" % (a["id"], fl["name"]), a["id"], "the field %s of %s is a hash table with a random state" % (fl["name"], a["id"]))
