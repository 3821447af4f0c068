"""A tokenizer and pushdown monitor for the XML which the emitters write.

The monitor consumes pieces of output (literal text, holes of unknown text, and whole child
elements) in program order along every path and checks the grammar of the output."""
from models import DANGEROUS

LEAF = {"mi", "mn", "mo", "mtext", "ms", "annotation"}
INLINE = {"b", "i", "em", "code", "span", "s", "u", "a", "strong", "sub", "sup"}
VOID = {"mspace", "mprescripts", "none"}
ARITY = {"mfrac": 2, "msub": 2, "msup": 2, "munder": 2, "mover": 2, "mroot": 2, "msubsup": 3, "munderover": 3}
ANY = {"mrow", "msqrt", "mpadded", "mphantom", "mstyle", "merror", "menclose", "mtd", "math", "#root"}
CONTAINER = {"mtable": {"mtr"}, "mtr": {"mtd"}}
ENT = {"lt", "gt", "amp", "quot", "apos"}
SP = " \t\r\n"

# state: (mode, aux, stack)
#   mode  T text | < after '<' | N tag name | S in tag | A attr name | = after attr name | V after '=' | Q in value
#         / after '/' in tag | C closing-tag name | E entity (aux, back) | P doctype etc.
# frame: (tag, count, flags) ; count capped, flags: 't' has text, 'p' prescripts seen


class Xml:
    def __init__(self, report, root_allows=None, text_root=False, html=False):
        self.html = html            # HTML, where "<" may occur in an attribute value
        self.report = report
        self.text_root = text_root
        self.obligations = 0
        self.tags = set()
        self.attrs = set()

    def start(self):
        return ("T", "", (("#root", 0, ""),))

    # ---- events
    def child(self, m, name, err):
        """A complete element (or exactly one element written by a recursive call)."""
        self.obligations += 1
        mode, aux, stack = m
        if mode != "T":
            err("xml", "an element is written inside a tag or attribute")
            return m
        return (mode, aux, self.addchild(stack, name, err))

    def addchild(self, stack, name, err):
        tag, n, fl = stack[-1]
        if tag in LEAF or tag in INLINE:
            if name not in INLINE and name not in ("?",) or name == "?":
                if not (name in INLINE):
                    err("xml", "element <%s> inside <%s>" % (name, tag))
        elif tag in CONTAINER and name not in CONTAINER[tag]:
            err("xml", "element <%s> directly inside <%s>" % (name, tag))
        elif tag in VOID:
            err("xml", "element inside the empty element <%s>" % tag)
        if name in ("mtr",) and tag not in ("mtable",) or name in ("mtd",) and tag not in ("mtr",):
            err("xml", "<%s> inside <%s>" % (name, tag))
        if tag == "mmultiscripts":
            if name == "mprescripts":
                if "p" in fl or n % 2 == 0:
                    err("xml", "<mprescripts/> at a wrong position")
                return stack[:-1] + ((tag, 1, fl + "p"),)
            n = n + 1 if n < 2 else 1
            return stack[:-1] + ((tag, n, fl),)
        cap = 2 if tag == "#root" else 4 if tag in ARITY else 1
        return stack[:-1] + ((tag, min(n + 1, cap), fl),)

    def close(self, stack, name, err, selfclosed=False):
        self.obligations += 1
        if len(stack) < 2:
            err("xml", "</%s> closes nothing" % name)
            return stack
        tag, n, fl = stack[-1]
        if tag != name:
            err("xml", "</%s> closes <%s>" % (name, tag))
            return stack[:-1]
        if tag in ARITY and n != ARITY[tag]:
            err("arity", "<%s> has %s children, it needs %d" % (tag, n if n < 4 else "4 or more", ARITY[tag]))
        if tag == "mmultiscripts" and n % 2 != 1:
            err("arity", "<mmultiscripts> does not have a base followed by pairs of scripts")
        if tag in VOID and (n or "t" in fl):
            err("arity", "<%s> has content" % tag)
        if tag == "mtd" and "t" in fl:
            err("xml", "text directly inside <mtd>")
        return stack[:-1]

    def text(self, stack, ws, err):
        tag, n, fl = stack[-1]
        if ws:
            return stack
        if tag not in LEAF and tag not in INLINE and not (tag == "#root" and self.text_root):
            err("xml", "text directly inside <%s>" % tag)
        if "t" not in fl:
            stack = stack[:-1] + ((tag, n, fl + "t"),)
        return stack

    def feed(self, m, pieces, err):
        for p in pieces:
            if p[0] == "lit":
                for ch in p[1]:
                    m = self.char(m, ch, err)
            else:
                m = self.hole(m, p, err)
        return m

    def hole(self, m, p, err):
        self.obligations += 1
        mode, aux, stack = m
        safe = p[2]
        if mode == "T":
            bad = [c for c in "<&" if c not in safe]
            if bad:
                err("escape", "text which can contain %s is written into element content" % " ".join(bad), p)
            return (mode, aux, self.text(stack, False, err))
        if mode == "Q":
            bad = [c for c in ("&\"" if self.html else "<&\"") if c not in safe]
            if bad:
                err("escape", "text which can contain %s is written into an attribute value" % " ".join(bad), p)
            return m
        if mode == "E":
            err("escape", "unknown text inside a character reference", p)
            return m
        if mode == "C" and p[3] == "tag":
            return m
        err("escape", "unknown text inside a tag (outside of an attribute value)", p)
        return m

    def char(self, m, ch, err):
        mode, aux, stack = m
        if mode == "T":
            if ch == "<":
                return ("<", "", stack)
            if ch == "&":
                return ("E", ("T", ""), stack)
            if ch == ">" and False:
                return m
            return ("T", "", self.text(stack, ch in SP, err))
        if mode == "<":
            if ch == "/":
                return ("C", "", stack)
            if ch == "!":
                return ("P", "", stack)
            if ch.isalpha():
                return ("N", ch, stack)
            err("xml", "'<' followed by %r" % ch)
            return ("T", "", stack)
        if mode == "P":
            return ("T", "", stack) if ch == ">" else m
        if mode == "N":
            if ch.isalnum() or ch in "-_:":
                return ("N", aux + ch, stack)
            self.tags.add(aux)
            return self.char(("S", (aux, (), False), stack), ch, err)
        if mode == "S":
            tag, attrs, sp = aux
            if ch in SP:
                return ("S", (tag, attrs, True), stack)
            if ch == ">":
                if len(stack) > 10:
                    err("xml", "elements can be opened again and again without being closed, here <%s>" % tag)
                    return ("T", "", stack)
                st = self.addchild(stack, tag, err) + ((tag, 0, ""),)
                return ("T", "", st)
            if ch == "/":
                return ("/", aux, stack)
            if ch.isalpha() or ch in "_:":
                if not sp:
                    err("xml", "no space before the attribute starting with %r in <%s>" % (ch, tag))
                return ("A", (tag, attrs, ch), stack)
            err("xml", "unexpected %r in the tag <%s>" % (ch, tag))
            return m
        if mode == "/":
            if ch == ">":
                tag, attrs, sp = aux
                st = self.addchild(stack, tag, err)
                self.obligations += 1
                if tag in ARITY:
                    err("arity", "<%s/> has no children" % tag)
                return ("T", "", st)
            err("xml", "'/' in a tag not followed by '>'")
            return ("S", aux, stack)
        if mode == "A":
            tag, attrs, nm = aux
            if ch == "=":
                self.obligations += 1
                if nm in attrs:
                    err("dupattr", "the attribute %s is set twice on <%s>" % (nm, tag))
                self.attrs.add((tag, nm))
                return ("V", (tag, tuple(sorted(set(attrs) | {nm})), nm), stack)
            if ch.isalnum() or ch in "-_:.":
                return ("A", (tag, attrs, nm + ch), stack)
            err("xml", "attribute %s of <%s> has no value" % (nm, tag))
            return self.char(("S", (tag, attrs, True), stack), ch, err)
        if mode == "V":
            tag, attrs, nm = aux
            if ch == '"':
                return ("Q", (tag, attrs, nm), stack)
            err("xml", "attribute value of %s not in double quotes" % nm)
            return m
        if mode == "Q":
            tag, attrs, nm = aux
            if ch == '"':
                return ("S", (tag, attrs, False), stack)
            if ch == "<" and not self.html:
                err("escape", "'<' in an attribute value")
            if ch == "&":
                return ("E", ("Q", aux), stack)
            return m
        if mode == "E":
            back, rest = aux[0], aux[1]
            cur = aux[2] if len(aux) > 2 else ""
            if ch == ";":
                self.obligations += 1
                if not (cur in ENT or (cur.startswith("#") and cur[1:].lstrip("x").isalnum())):
                    err("escape", "unknown character reference &%s;" % cur)
                if back == "T":
                    return ("T", "", self.text(stack, False, err))
                return ("Q", rest, stack)
            if ch.isalnum() or ch == "#":
                if len(cur) > 8:
                    err("escape", "'&' not part of a character reference")
                    return ("T", "", stack) if back == "T" else ("Q", rest, stack)
                return ("E", (back, rest, cur + ch), stack)
            err("escape", "'&' not part of a character reference")
            return self.char(("T", "", stack) if back == "T" else ("Q", rest, stack), ch, err)
        if mode == "C":
            if ch == ">":
                return ("T", "", self.close(stack, aux, err))
            return ("C", aux + ch, stack)
        raise AssertionError(mode)

    def finished(self, m, err, count=1):
        mode, aux, stack = m
        if mode != "T":
            err("xml", "the output ends inside a tag or reference")
        elif len(stack) != 1:
            err("xml", "<%s> is not closed" % stack[-1][0])
        elif count is not None and stack[0][1] != count:
            err("arity", "writes %s elements instead of exactly %d" % (stack[0][1], count))
