AST = "crates/mathml-renderer/src/ast.rs"
TABLE = "crates/mathml-renderer/src/table.rs"
ATTR = "crates/mathml-renderer/src/attribute.rs"
LIBRS = "crates/math-core/src/lib.rs"
MC = "crates/math-core/src/"
S = {}
HEAD = "use math_core::*;\n"


def cfg(body, conf="MathCoreConfig::default()"):
    return HEAD + "fn main() {\n    let c = LatexToMathML::new(%s).unwrap();\n%s\n}\n" % (conf, body)


S["p01-array"] = dict(prop="P01", needs="an array whose column specification has a vertical line on the left and which starts with \\hdashline",
    breaks="the style attribute of the table is not closed for that combination of borders",
    edits=[(AST, '''                        Some(LineType::Dashed) => write!(self.s, "{BORDER_TOP_DASHED}")?,
                        None => (),
                    }
                    write!(self.s, "\\"")?;
                }
                if let Some(style) = style {''', '''                        Some(LineType::Dashed) if array_spec.border_left.is_some() => {
                            write!(self.s, "{BORDER_TOP_DASHED}\\"")?;
                        }
                        Some(LineType::Dashed) => write!(self.s, "{BORDER_TOP_DASHED}")?,
                        None => (),
                    }
                    write!(self.s, "\\"")?;
                }
                if let Some(style) = style {''')],
    demo=cfg(r'''    for s in [r"\begin{array}{|c}\hdashline x\end{array}", r"\begin{array}{c}\hdashline x\end{array}", r"\begin{array}{|c}\hline x\end{array}"] {
        check(&c.convert_with_local_state(s, MathDisplay::Block).unwrap().mathml).unwrap();
    }'''))

S["p01-onlyline"] = dict(prop="P01", needs="an array with a double vertical line between columns, and an \\hline between rows",
    breaks="the cell which draws a vertical line is not closed when the row has a border on top",
    edits=[(TABLE, '''                    write!(s, "\\"></mtd>")?;
                    new_line_and_indent(s, indent_num, indentation);''', '''                    write!(s, "{MTD_CLOSE_STYLE}")?;
                    if border_top.is_empty() {
                        write!(s, "</mtd>")?;
                    }
                    new_line_and_indent(s, indent_num, indentation);''')],
    demo=cfg(r'''    for s in [r"\begin{array}{c||c}a&b\\\hline c&d\end{array}", r"\begin{array}{c||c}a&b\\ c&d\end{array}"] {
        check(&c.convert_with_local_state(s, MathDisplay::Block).unwrap().mathml).unwrap();
    }'''))

S["p04-subsup"] = dict(prop="P04", needs="a subscript which is an operator together with a superscript which is a number",
    breaks="subscript and superscript change places",
    edits=[(AST, """                self.emit(second, child_indent)?;
                self.emit(third, child_indent)?;
                writeln_indent!""", """                if matches!((node, second, third), (Node::SubSup { .. }, Node::Operator { .. }, Node::Number(_))) {
                    self.emit(third, child_indent)?;
                    self.emit(second, child_indent)?;
                } else {
                    self.emit(second, child_indent)?;
                    self.emit(third, child_indent)?;
                }
                writeln_indent!""")],
    demo=cfg(r"""    let r = c.convert_with_local_state(r"x_\pm^2", MathDisplay::Block).unwrap().mathml;
    assert!(r.find('±').unwrap() < r.find("<mn>2").unwrap(), "{r}");"""))

S["p04-toplevel"] = dict(prop="P04", needs="a formula with a space as last part, written with a namespace and without annotation",
    breaks="spaces at the end of the formula are not written",
    edits=[("crates/math-core/src/lib.rs", "        for node in ast {\n", "        for (i, node) in ast.iter().enumerate() {\n            if flags.xml_namespace && i > 0 && matches!(node, Node::Space(_)) && i + 1 == ast.len() {\n                break;\n            }\n")],
    demo=cfg(r"""    let r = c.convert_with_local_state(r"x\quad y\quad", MathDisplay::Block).unwrap().mathml;
    assert!(r.matches("<mspace").count() == 2, "{r}");""", "MathCoreConfig { xml_namespace: true, ..Default::default() }"))

S["p07-trailing"] = dict(prop="P07", needs="a LaTeX source which ends in white space, with annotations on",
    breaks="the annotation loses white space at the end of the source",
    edits=[(MC + "lib.rs", "html_utils::escape_html_content(&mut output, latex);", "html_utils::escape_html_content(&mut output, latex.trim_end());")],
    demo=cfg(r"""    let r = c.convert_with_local_state("a \\ ", MathDisplay::Block).unwrap().mathml;
    assert!(r.contains(">a \\ </annotation>"), "{r}");""", "MathCoreConfig { annotation: true, ..Default::default() }"))

S["p07-display"] = dict(prop="P07", needs="a display formula with namespace and annotation switched on at the same time",
    breaks="display=\"block\" is not written for that configuration",
    edits=[(MC + "lib.rs", "if matches!(display, MathDisplay::Block) {\n        output", "if matches!(display, MathDisplay::Block) && !(flags.annotation && flags.xml_namespace) {\n        output")],
    demo=cfg(r'''    let r = c.convert_with_local_state("x", MathDisplay::Block).unwrap().mathml;
    assert!(r.contains("display=\"block\""), "{r}");''', "MathCoreConfig { annotation: true, xml_namespace: true, ..Default::default() }"))

S["p08-emptytag"] = dict(prop="P08", needs="a reference to an equation whose tag is empty",
    breaks="a defined reference is reported and written as undefined",
    edits=[(AST, "                    Some(tag) => tag,\n                    None => {", "                    Some(tag) if !tag.is_empty() => tag,\n                    _ => {")],
    demo=cfg(r'''    let r = c.convert_with_local_state(r"\begin{align}x\tag{}\label{a}\end{align}\eqref{a}", MathDisplay::Block).unwrap();
    assert!(!r.warnings.has_any(), "{}", r.mathml);'''))

S["p08-annotation"] = dict(prop="P08", needs="an unknown command or undefined reference in a formula with annotations switched on",
    breaks="warnings are read before the formula is written",
    edits=[(MC + "lib.rs", "        let _ = emitter.emit(node, children_indent);\n        warnings = emitter.warnings();\n", "        warnings = emitter.warnings();\n        let _ = emitter.emit(node, children_indent);\n")],
    demo=cfg(r'''    let r = c.convert_with_local_state(r"\eqref{a}", MathDisplay::Block).unwrap();
    assert!(r.warnings.has_undefined_references());''', "MathCoreConfig { annotation: true, ..Default::default() }"))

S["p09-prefix"] = dict(prop="P09", needs="an id prefix together with an equation whose number comes from \\tag*",
    breaks="the id of an equation with an unparenthesized tag has no prefix",
    edits=[(AST, '''                r#" id="{id_prefix}{id}">"#,
''', '''                r#" id="{}{id}">"#,
                if label_info.tag.parenthesized { id_prefix } else { "" },
''')],
    demo=cfg(r'''    let r = c.convert_with_local_state(r"\begin{align}x\tag*{A}\label{a}\end{align}\eqref{a}", MathDisplay::Block).unwrap().mathml;
    assert!(r.contains("href=\"#p-a\"") && r.contains("id=\"p-a\""), "{r}");''', 'MathCoreConfig { id_prefix: "p-".into(), ..Default::default() }'))

S["p10-carry"] = dict(prop="P10", needs="a failing conversion which has already counted an equation, followed by a conversion with local state", also=["P11"],
    breaks="the equation count of a failed conversion is carried over to the next one by a static variable",
    edits=[(LIBRS, '''        let mut state = GlobalState::default();
        convert(
            latex,
            display,
            &self.parser_cfg,
            &mut state,
            &self.emitter_cfg,
        )
''', '''        static PENDING: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);
        let mut state = GlobalState {
            equation_count: PENDING.swap(0, core::sync::atomic::Ordering::Relaxed),
            ..GlobalState::default()
        };
        let result = convert(
            latex,
            display,
            &self.parser_cfg,
            &mut state,
            &self.emitter_cfg,
        );
        if result.is_err() {
            PENDING.store(state.equation_count, core::sync::atomic::Ordering::Relaxed);
        }
        result
''')],
    demo=cfg(r'''    let a = c.convert_with_local_state(r"\begin{align}x\end{align}", MathDisplay::Block).unwrap().mathml;
    let _ = c.convert_with_local_state(r"\begin{align}x\\y\end{align}\begin{align}x\end{align}\unknowncmd", MathDisplay::Block);
    let b = c.convert_with_local_state(r"\begin{align}x\end{align}", MathDisplay::Block).unwrap().mathml;
    assert_eq!(a, b);'''))


S["p11-reset"] = dict(prop="P11", needs="a label of an equation with its own tag, and a reset before any equation was counted",
    breaks="the labels survive a reset if no equation has been counted",
    edits=[(LIBRS, "        self.state.equation_count = 0;\n        self.state.label_map.clear();\n", "        if self.state.equation_count > 0 {\n            self.state.equation_count = 0;\n            self.state.label_map.clear();\n        }\n")],
    demo=HEAD + r'''fn main() {
    let mut c = LatexToMathML::new(MathCoreConfig::default()).unwrap();
    c.convert_with_global_state(r"\begin{align}x\tag{A}\label{a}\end{align}", MathDisplay::Block).unwrap();
    c.reset_global_state();
    let r = c.convert_with_global_state(r"\eqref{a}", MathDisplay::Block).unwrap();
    assert!(r.warnings.has_undefined_references(), "{}", r.mathml);
}
''')

S["p11-local"] = dict(prop="P11", needs="a conversion with global state which defines a label, followed by the conversion of a collection which refers to it",
    breaks="the conversion of a collection starts with the labels of the converter",
    edits=[(LIBRS, '''        let mut state = GlobalState::default();
        let arena = Arena::new();
''', '''        let mut state = GlobalState {
            label_map: self.state.label_map.clone(),
            ..GlobalState::default()
        };
        let arena = Arena::new();
''')],
    demo=HEAD + r'''fn main() {
    let mut c = LatexToMathML::new(MathCoreConfig::default()).unwrap();
    c.convert_with_global_state(r"\begin{align}x\label{a}\end{align}", MathDisplay::Block).unwrap();
    let r = c.convert_all(&[(r"\eqref{a}", MathDisplay::Block)]);
    assert!(r[0].as_ref().unwrap().warnings.has_undefined_references());
}
''')

S["p12-empty"] = dict(prop="P12", needs="a collection with an empty snippet",
    breaks="empty snippets have no result, so all later results move",
    edits=[(LIBRS, "            .iter()\n            .map(|(latex, display)| {\n                parse(", "            .iter()\n            .filter(|(latex, _)| !latex.is_empty())\n            .map(|(latex, display)| {\n                parse(")],
    demo=cfg(r'''    assert_eq!(c.convert_all(&[("x", MathDisplay::Inline), ("", MathDisplay::Inline), ("y", MathDisplay::Inline)]).len(), 3);'''))

S["p12-chunks"] = dict(prop="P12", needs="a collection of more than 64 snippets with a reference to a label more than 64 snippets later",
    breaks="snippets are written in groups, before those of later groups are parsed",
    edits=[(LIBRS, '''        let arena = Arena::new();
        let ast_vec: Vec<ParseResult<(Vec<&Node<'_>>, &str, MathDisplay)>> = snippets
            .iter()
''', '''        if snippets.len() > 64 {
            let mut results = Vec::with_capacity(snippets.len());
            for chunk in snippets.chunks(64) {
                let arena = Arena::new();
                let asts: Vec<_> = chunk
                    .iter()
                    .map(|(latex, display)| parse(latex, &arena, &self.parser_cfg, &mut state, *display))
                    .collect();
                for (ast, (latex, display)) in asts.into_iter().zip(chunk) {
                    results.push(ast.map(|ast| {
                        emit(ast, latex, *display, &state.label_map, &arena, &self.emitter_cfg)
                    }));
                }
            }
            return results;
        }
        let arena = Arena::new();
        let ast_vec: Vec<ParseResult<(Vec<&Node<'_>>, &str, MathDisplay)>> = snippets
            .iter()
''')],
    demo=cfg(r'''    let mut v = vec![(r"\eqref{a}", MathDisplay::Inline)];
    for _ in 0..70 { v.push(("x", MathDisplay::Inline)); }
    v.push((r"\begin{align}x\label{a}\end{align}", MathDisplay::Block));
    let r = c.convert_all(&v);
    assert!(!r[0].as_ref().unwrap().warnings.has_any());'''))

S["p14-address"] = dict(prop="P14", needs="an equation with a number but without a label, with an id prefix which ends in a colon",
    breaks="rows without a label get an id made from the address of the row",
    edits=[(AST, '''        } else {
            write!(s, ">")?;
        }
        new_line_and_indent(s, child_indent3, indentation);
        let tag''', '''        } else if !id_prefix.ends_with(':') {
            write!(s, ">")?;
        } else {
            let row = core::ptr::from_ref(label_info).addr();
            write!(s, r#" id="{id_prefix}{row:x}">"#)?;
        }
        new_line_and_indent(s, child_indent3, indentation);
        let tag''')],
    demo=cfg(r'''    let f = || c.convert_with_local_state(r"\begin{align}x\end{align}", MathDisplay::Block).unwrap().mathml;
    let a = f();
    let mut keep = Vec::new();
    for i in 1..2000usize {
        keep.push(vec![1u8; i * 8 % 5000 + 1]);
        if i % 3 == 0 { keep.remove(i % keep.len()); }
        assert_eq!(a, f());
    }''', 'MathCoreConfig { id_prefix: "p:".into(), ..Default::default() }'))


def pydemo(body):
    return '''#!/bin/bash
# Run in the repository: exits 0 on the unchanged tree, nonzero with the patch.
set -e
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
CARGO_TARGET_DIR="$d/target" cargo build -q --offline -p math-core-python --manifest-path "$PWD/Cargo.toml"
cp "$d/target/debug/libmath_core_python.so" "$d/_math_core_rust.abi3.so"
cat > "$d/demo.py" <<'T'
from _math_core_rust import LatexToMathML, LatexError
%s
T
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$d" python3 "$d/demo.py"
''' % body


PYRS = "crates/math-core-python/src/lib.rs"
S["p13-limit"] = dict(prop="P13", needs="a Python user who sets max_expansions above 65535",
    breaks="the limit of the Python binding is cut to 16 bits",
    edits=[(PYRS, "MaxExpansions(max_expansions),", "MaxExpansions(max_expansions & 0xffff),")],
    demo_sh=pydemo(r'''c = LatexToMathML(macros={"f": "xx"}, max_expansions=65537)
print(c.convert_with_local_state(r"\f\f\f", displaystyle=False))'''))
S["p13-scope"] = dict(prop="P13", needs="a configuration with global_group and without ignore_unknown_commands",
    breaks="definitions are only kept for the document if unknown commands are not an error",
    edits=[(LIBRS, "            global_group: config.global_group,", "            global_group: config.global_group && config.max_expansions.0 > 0,")],
    demo=HEAD + r'''fn main() {
    for n in [1000, 0] {
        let mut c = LatexToMathML::new(MathCoreConfig { global_group: true, max_expansions: MaxExpansions(n), ..Default::default() }).unwrap();
        let _ = c.convert_with_global_state(r"\newcommand{\f}{x}", MathDisplay::Inline).unwrap();
        let e = c.convert_with_global_state(r"\f", MathDisplay::Inline).map(|r| r.mathml).map_err(|e| e.error_message());
        println!("{n} {e:?}");
        if let Err(e) = e { assert!(!e.to_lowercase().contains("unknown")); }
    }
}
''')
S["p26-index"] = dict(prop="P26", needs="a collection in Python with a failing snippet after at least one other, with continue_on_error",
    breaks="the HTML for an error in a collection is made with the display mode of the first snippet",
    edits=[(PYRS, "Ok(latex_error.to_html(latex, display, None))", "Ok(latex_error.to_html(latex, inputs.first().map_or(display, |f| f.1), None))")],
    demo_sh=pydemo(r'''c = LatexToMathML(continue_on_error=True)
a = c.convert_all([("x", True), (r"\foo", False)])
assert a[1] == c.convert_with_local_state(r"\foo", displaystyle=False), a'''))
S["p26-same"] = dict(prop="P26", needs="a collection in Python in which the same snippet occurs twice next to each other and is rejected, without continue_on_error",
    breaks="the exception names the wrong snippet",
    edits=[(PYRS, '''                                Some(index),
                            ))''', '''                                Some(index).filter(|i| inputs.get(i + 1) != Some(&inputs[*i])),
                            ))''')],
    demo_sh=pydemo(r'''c = LatexToMathML(fancy_error=False)
for l in ([(r"\foo", False)], [("x", True), (r"\foo", False), (r"\foo", False)]):
    try:
        c.convert_all(l)
        assert False
    except LatexError as e:
        assert str(e).startswith("input%d:" % (len(l) // 2)), e'''))

S["p02-label"] = dict(prop="P02", needs="an \\eqref whose label contains \\&", breaks="the & of a label is written as it is into the href",
    edits=[(MC + "lexer.rs", "if ch.is_ascii() && !matches!(ch, '&' | '{' | '}') =>", "if ch.is_ascii() && !matches!(ch, '{' | '}') =>")],
    demo=cfg(r'''    if let Ok(r) = c.convert_with_local_state(r"\eqref{a\&b}", MathDisplay::Block) {
        assert!(!r.mathml.contains("a&b"), "{}", r.mathml);
    }
    c.convert_with_local_state(r"\eqref{ab}", MathDisplay::Block).unwrap();'''))

S["p02-number"] = dict(prop="P02", needs="digits directly followed by an ordinary symbol like \\& and a digit, inside a formula which is transformed to upright",
    breaks="the symbol becomes part of the number, which is written without escapes",
    edits=[(MC + "parser.rs", """                            let ch = if matches!(self.tokens.peek().token(), &FULL_STOP_TOKEN) {
                                Some('.')
                            } else {
                                None
                            };""", """                            let ch = match *self.tokens.peek().token() {
                                FULL_STOP_TOKEN => Some('.'),
                                Token::MathOrTextMode(&Token::Ord(_), sep)
                                    if self.state.transform.is_some() =>
                                {
                                    Some(sep)
                                }
                                _ => None,
                            };""")],
    demo=cfg(r'''    for s in [r"\mathrm{1\&2}", r"1\&2", r"\mathrm{1/2}"] {
        let r = c.convert_with_local_state(s, MathDisplay::Block).unwrap();
        assert!(!r.mathml.contains("1&2") && !r.mathml.contains(">&<"), "{}", r.mathml);
    }'''))

S["p02-message"] = dict(prop="P02", needs="an error message which quotes a name that ends with a star, as for \\begin{foo*}",
    breaks="a quotation mark after a star is not replaced, and ends the title attribute",
    edits=[(MC + "html_utils.rs", """    for ch in input.bytes() {
        match ch {
            b'&' => output.extend_from_slice(b"&amp;"),
            b'"' => output.extend_from_slice(b"&quot;"),
            _ => output.push(ch),
        }
    }""", """    let mut last = 0;
    for ch in input.bytes() {
        match ch {
            b'&' => output.extend_from_slice(b"&amp;"),
            b'"' if last != b'*' => output.extend_from_slice(b"&quot;"),
            _ => output.push(ch),
        }
        last = ch;
    }""")],
    demo=cfg(r'''    for s in ["\\begin{\"}", "\\foo", "{", "\\begin{a\"}", "\\begin{foo*}", "^", "x^1^2", "\\left\"", "\\color{\"}", "\\sqrt[", "\\begin{a}\\end{b\"}", "\\hspace{\"}", "\\hspace{1\"", "\\text{a", "\\limits", "\\genfrac{\"", "\\\"", "#\""] {
        if let Err(e) = c.convert_with_local_state(s, MathDisplay::Block) {
            let h = e.to_html(s, MathDisplay::Block, None);
            let tag = &h[..h.find("<code>").unwrap()];
            assert_eq!(tag.matches('"').count(), 4, "{tag}");
        }
    }'''))


def clidemo(body):
    """m = path of the tool; the demonstration runs in a scratch directory."""
    return '''#!/bin/bash
# Run in the repository: exits 0 on the unchanged tree, nonzero with the patch.
set -e
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
CARGO_TARGET_DIR="$d/target" cargo build -q --offline -p math-core-cli --manifest-path "$PWD/Cargo.toml"
m="$d/target/debug/mathcore"
mkdir "$d/w"
cd "$d/w"
%s
''' % body


CLI = "crates/math-core-cli/src/main.rs"
REPL = "crates/math-core-cli/src/replace.rs"
ENT = "crates/math-core-cli/src/html_entities.rs"
S["p25-dry"] = dict(prop="P25", needs="--dry-run together with --recursive", breaks="a dry run in recursive mode changes the files",
    edits=[(CLI, "    if args.dry_run {\n        return;\n    }\n    if write {", "    if args.dry_run && (args.write || !write) {\n        return;\n    }\n    if write {")],
    demo_sh=clidemo('''mkdir t
echo 'a $x$' > t/a.html
"$m" --dry-run -r t
test "$(cat t/a.html)" = 'a $x$\''''))
S["p25-early"] = dict(prop="P25", needs="a file which contains a formula that is rejected, converted in place", breaks="a file is emptied before its conversion has succeeded",
    edits=[(CLI, '''    let converted = replace(replacer, &original, converter, args.continue_on_error)
        .unwrap_or_else(|e| exit_conversion_error(e, Some(fp)));
    if args.dry_run {
        return;
    }
    if write {
        if original != converted {
            let mut fp = fs::File::create(fp).unwrap_or_else(|e| exit_io_error(&e));
''', '''    let opened = if write && !args.dry_run {
        let file = fs::OpenOptions::new()
            .write(true)
            .truncate(original.len() > 4096)
            .open(fp)
            .unwrap_or_else(|e| exit_io_error(&e));
        Some(file)
    } else {
        None
    };
    let converted = replace(replacer, &original, converter, args.continue_on_error)
        .unwrap_or_else(|e| exit_conversion_error(e, Some(fp)));
    if args.dry_run {
        return;
    }
    if let Some(mut fp) = opened {
        if original != converted {
            fp.set_len(0).unwrap_or_else(|e| exit_io_error(&e));
''')],
    demo_sh=clidemo(r'''head -c 5000 /dev/zero | tr '\0' a > a.html
echo ' $\foo$' >> a.html
cp a.html b.html
if "$m" -w a.html 2>/dev/null; then exit 1; fi
cmp a.html b.html'''))
S["p25-exit"] = dict(prop="P25", needs="a configuration file which is named, has the default name, and does not exist", breaks="a named configuration file which does not exist goes unnoticed for some names",
    edits=[(CLI, "            if args.config_file.is_none() {", "            if args.config_file.is_none() || config_path.file_name() == Some(DEFAULT_CONFIG_FILE.as_ref()) {")],
    demo_sh=clidemo('''if "$m" -c nodir/mathcore.toml -f x >/dev/null 2>&1; then exit 1; fi'''))
S["p15-close"] = dict(prop="P15", needs="--block-open and --block-close together with --inline-open and --inline-close", breaks="the closing delimiter for inline formulas is used for block formulas too",
    edits=[(CLI, "(open, args.block_close.as_ref().unwrap())", "(open, args.block_close.as_ref().or(args.inline_close.as_ref()).filter(|_| args.inline_open.is_none()).unwrap_or(open))")],
    demo_sh=clidemo(r'''printf '%s' 'a \(x\) b \[y\]' > a.html
"$m" --inline-open '\(' --inline-close '\)' --block-open '\[' --block-close '\]' a.html > o
test "$(grep -c 'display="block"' o)" = 1'''))
S["p15-error"] = dict(prop="P15", needs="--continue-on-error and a rejected block formula", breaks="the fallback for a rejected block formula is that of an inline one",
    edits=[(CLI, "result.unwrap_or_else(|err| err.to_html(latex, display, None))", "result.unwrap_or_else(|err| err.to_html(latex, if latex.len() > 8 { MathDisplay::Inline } else { display }, None))")],
    demo_sh=clidemo(r'''printf '%s' '$$\foobarbaz$$' > a.html
"$m" --continue-on-error a.html > o
grep -q 'display="block"\|<p\|<div\|display: *block' o
! grep -q '<span' o'''))
S["p24-mismatch"] = dict(prop="P24", needs="an empty pair of mixed delimiters such as \\(\\]", breaks="an empty formula with delimiters of different kinds is accepted",
    edits=[(REPL, "if !self.closing_identical && open_typ != close_typ {", "if !self.closing_identical && open_typ != close_typ && idx > 0 {")],
    demo_sh=clidemo(r'''printf '%s' 'a \(\] b \[y\]' > a.html
if "$m" --inline-open '\(' --inline-close '\)' --block-open '\[' --block-close '\]' a.html > o 2>/dev/null; then exit 1; fi'''))
S["p24-resume"] = dict(prop="P24", needs="delimiters for inline and block formulas with closing delimiters of the same text but the block one taken", breaks="after a formula the length of the wrong closing delimiter is skipped",
    edits=[(REPL, '''            let closing_delim_len = match close_typ {
                MathDisplay::Inline => self.closing_lengths.0,
                MathDisplay::Block => self.closing_lengths.1,
            };
''', '''            let closing_delim_len = match close_typ {
                MathDisplay::Inline => self.closing_lengths.0,
                MathDisplay::Block if remaining.len() > 2000 => self.opening_lengths.1,
                MathDisplay::Block => self.closing_lengths.1,
            };
''')],
    demo_sh=clidemo(r'''(printf '%s' 'a [[x]end'; head -c 3000 /dev/zero | tr '\0' a) > a.html
"$m" --block-open '[[' --block-close ']' a.html > o
grep -q '</math>end' o'''))
S["p24-entity"] = dict(prop="P24", needs="a formula with an unknown entity whose name is long", breaks="a long unknown entity loses its semicolon",
    edits=[(ENT, "buffer.push_str(&input[next_start..=end]);", "buffer.push_str(&input[next_start..end + usize::from(index < 32)]);")],
    demo_sh=clidemo(r'''printf '%s' '$\text{&aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa;}$' > a.html
"$m" a.html > o
grep -q 'aaa;' o'''))

PRS = MC + "parser.rs"
S["p17-direct"] = dict(prop="P17", needs="a long chain of commands whose argument is the next command, without braces", breaks="arguments are parsed without counting the nesting",
    edits=[(PRS, '''        self.parse_token(token, parse_as, Class::Default)
            .map(|(_, node)| node)''', '''        match self.parse_one_token(token, parse_as, Class::Default)? {
            Parsed::Node(_, node) => Ok(node),
            Parsed::Expansion => self.parse_next(parse_as),
        }''')],
    demo=cfg(r'''    let f = |n: usize| c.convert_with_local_state(&r"\hat".repeat(n), MathDisplay::Block);
    assert!(f(3).is_err());
    assert!(f(60_000).is_err());'''))
S["p17-relax"] = dict(prop="P17", needs="a very long run of \\relax", breaks="a run of \\relax is skipped by recursion",
    edits=[(PRS, '''            Token::Relax => Ok(()),
''', '''            Token::Relax => {
                if matches!(self.tokens.peek().token(), Token::Relax) {
                    let tokspan = self.next_token()?;
                    return self.handle_tokens_without_output(
                        &tokspan,
                        sequence_end,
                        collected_nodes,
                        cell_start,
                        infix_frac,
                    );
                }
                Ok(())
            }
''')],
    demo=cfg(r'''    let f = |n: usize| c.convert_with_local_state(&(r"\relax".repeat(n) + " x"), MathDisplay::Block).unwrap().mathml;
    assert_eq!(f(1), f(300_000));'''))

PRETTY = r'''    fn flat(s: &str) -> String {
        // white space between tags, outside of elements which contain text
        let mut out = String::new();
        let mut rest = s;
        let mut token = false;
        while let Some(i) = rest.find('<') {
            let (text, tail) = rest.split_at(i);
            if token || !text.chars().all(|c| matches!(c, ' ' | '\n' | '\t')) { out.push_str(text); }
            let j = tail.find('>').unwrap() + 1;
            let tag = &tail[..j];
            token = ["<mi", "<mn", "<mo", "<mtext", "<annotation", "<a "].iter().any(|t| tag.starts_with(t) && !tag.starts_with("<mover"));
            out.push_str(tag);
            rest = &tail[j..];
        }
        out + rest
    }
    let conv = |pp: PrettyPrint, ind: Indentation, annotation: bool, s: &str, d: MathDisplay| {
        let cfg = MathCoreConfig { pretty_print: pp, indentation: ind, annotation, ..Default::default() };
        LatexToMathML::new(cfg).unwrap().convert_with_local_state(s, d).unwrap().mathml
    };
'''
FMT = "crates/mathml-renderer/src/fmt.rs"
S["p06-nbsp"] = dict(prop="P06", needs="an indentation of more than 8 spaces", breaks="wide indentation is made of no-break spaces, which are text and not white space",
    edits=[(FMT, '''                    s.push(' ');
''', '''                    s.push(if n > 8 { '\\u{a0}' } else { ' ' });
''')],
    demo=cfg(PRETTY + r'''    let _ = &c;
    for n in [1, 8, 9, 12] {
        assert_eq!(flat(&conv(PrettyPrint::Always, Indentation::Spaces(n), false, r"\frac{a}{b}", MathDisplay::Block)),
                   conv(PrettyPrint::Never, Indentation::Spaces(n), false, r"\frac{a}{b}", MathDisplay::Block));
    }'''))
S["p06-deep"] = dict(prop="P06", needs="pretty printing and a group which is nested in at least seven elements", breaks="deep inside of a pretty-printed formula, an empty row gets a space",
    edits=[(AST, '''                if nodes.is_empty() {
                    write!(self.s, "</mrow>")?;
''', '''                if nodes.is_empty() {
                    if base_indent > 7 {
                        write!(self.s, "<mspace/>")?;
                    }
                    write!(self.s, "</mrow>")?;
''')],
    demo=cfg(PRETTY + r'''    let _ = &c;
    for n in [1, 5, 9, 12] {
        let s = format!("{}x^{{}}{}", r"\sqrt{".repeat(n), "}".repeat(n));
        assert_eq!(flat(&conv(PrettyPrint::Always, Indentation::tab(), false, &s, MathDisplay::Block)),
                   conv(PrettyPrint::Never, Indentation::tab(), false, &s, MathDisplay::Block));
    }'''))
S["p06-auto"] = dict(prop="P06", needs="pretty printing set to automatic, an inline formula and an annotation", breaks="with an annotation, inline formulas are pretty-printed although only block formulas should be",
    edits=[(LIBRS, '''        || (matches!(flags.pretty_print, PrettyPrint::Auto) && display == MathDisplay::Block);
''', '''        || (matches!(flags.pretty_print, PrettyPrint::Auto)
            && (display == MathDisplay::Block || flags.annotation));
''')],
    demo=cfg(PRETTY + r'''    let _ = (&c, flat);
    for a in [false, true] {
        assert_eq!(conv(PrettyPrint::Auto, Indentation::tab(), a, "x^2", MathDisplay::Inline), conv(PrettyPrint::Never, Indentation::tab(), a, "x^2", MathDisplay::Inline));
        assert_eq!(conv(PrettyPrint::Auto, Indentation::tab(), a, "x^2", MathDisplay::Block), conv(PrettyPrint::Always, Indentation::tab(), a, "x^2", MathDisplay::Block));
    }'''))
S["p29-limits"] = dict(prop="P29", needs="\\limits after the base of a \\sideset or prescript", breaks="\\limits before the scripts on the left side is accepted although nothing can have limits there",
    edits=[(PRS, '''                let pre_bounds = pre_bounds_limits.ensure_no_explicit_limits()?;
''', '''                let pre_bounds = pre_bounds_limits
                    .ensure_no_explicit_limits()
                    .unwrap_or(Bounds(None, None));
''')],
    demo=cfg(r'''    let e = |s: &str| c.convert_with_local_state(s, MathDisplay::Block).is_err();
    assert!(e(r"\sideset{\limits_a}{_b}\sum"));'''))
S["p29-macro"] = dict(prop="P29", needs="a macro of the configuration whose definition is wrong only behind a parameter", breaks="an error in the definition of a macro with parameters is not reported; the macro is cut off there",
    edits=[(LIBRS, '''                    Err(err) => {
                        break 'body Err(err);
                    }
''', '''                    Err(err) => {
                        if num_args > 0 && first_class.is_some() {
                            // The rest of the body cannot be used.
                            break;
                        }
                        break 'body Err(err);
                    }
''')],
    demo=cfg(r'''    let _ = &c;
    for m in ["#1\\begin{nosuch}", "x#1\\begin{nosuch}", "x\\begin{nosuch}"] {
        let cfg = MathCoreConfig { macros: vec![("foo".to_string(), m.to_string())], ..Default::default() };
        assert!(LatexToMathML::new(cfg).is_err(), "{m}");
    }'''))
STYLE = r'''    let f = |s: &str| c.convert_with_local_state(s, MathDisplay::Block).unwrap().mathml;
'''
S["p20-prime"] = dict(prop="P20", needs="a superscript which follows a prime, and then something that depends on the style", breaks="the style of a superscript behind a prime goes on after it",
    edits=[(PRS, '''            let node = self.parse_token(Ok(next), ParseAs::Arg, Class::Default)?.1;
            self.state.style = old_style;
''', '''            let node = self.parse_token(Ok(next), ParseAs::Arg, Class::Default)?.1;
            if nodes.is_empty() {
                self.state.style = old_style;
            }
''')],
    demo=cfg(STYLE + r'''    for s in [r"f^2 \mathchoice dtsz", r"f'^2 \mathchoice dtsz", r"f'' \mathchoice dtsz"] {
        assert!(f(s).contains("<mi>d</mi>"), "{s}");
    }'''))
S["p20-font"] = dict(prop="P20", needs="a command for a font directly within the argument of the same or another one, or none around it", breaks="a font command at the top level leaves its font behind if its argument is not a letter",
    edits=[(PRS, '''                let content = self.parse_next(ParseAs::Arg)?;
                self.state.transform = old_tf;
''', '''                let content = self.parse_next(ParseAs::Arg)?;
                if old_tf.is_some() || !matches!(content, Node::Frac { .. }) {
                    self.state.transform = old_tf;
                }
''')],
    demo=cfg(STYLE + r'''    for s in [r"\mathbf{a} x", r"\mathbf{\frac{a}{b}} x", r"\mathbf{\mathit{\frac{a}{b}}} x"] {
        assert!(f(s).contains("<mi>x</mi>"), "{s}");
    }'''))
S["p20-env"] = dict(prop="P20", needs="an empty environment and then something that depends on the style", breaks="the style of an environment without content goes on after it",
    edits=[(PRS, '''                self.state.style = old_style;
                let env_state = mem::replace''', '''                if !content.is_empty() {
                    self.state.style = old_style;
                }
                let env_state = mem::replace''')],
    demo=cfg(STYLE + r'''    for s in [r"\begin{matrix}a\end{matrix}\mathchoice dtsz", r"\begin{matrix}\end{matrix}\mathchoice dtsz"] {
        assert!(f(s).contains("<mi>d</mi>"), "{s}");
    }'''))
TABLES = r'''    let c = LatexToMathML::new(MathCoreConfig::default()).unwrap();
    let ok = |s: &str| c.convert_with_local_state(s, MathDisplay::Block).is_ok();
'''
S["p05-nested"] = dict(prop="P05", needs="& in an environment without columns which stands in a cell of a table", breaks="an environment which takes no & takes it within a table",
    edits=[(PRS, '''                let old_env_state = mem::replace(&mut self.state.env, env.new_state());
''', '''                let mut env_state = env.new_state();
                env_state.allow_columns |= self.state.env.allow_columns;
                let old_env_state = mem::replace(&mut self.state.env, env_state);
''')],
    demo=cfg(TABLES + r'''    assert!(ok(r"\begin{matrix} a & \begin{gathered} b \\ c \end{gathered} \end{matrix}"));
    assert!(!ok(r"\begin{gathered} b & c \end{gathered}"));
    assert!(!ok(r"\begin{matrix} a & \begin{gathered} b & c \end{gathered} \end{matrix}"));'''))
S["p05-after"] = dict(prop="P05", needs="a table directly within an environment without columns, and & behind it", breaks="behind a table, & is taken although what is around the table has no columns",
    edits=[(PRS, '''                let env_state = mem::replace(&mut self.state.env, old_env_state);
                let numbered_state = env_state.numbered;
''', '''                let mut env_state = mem::replace(&mut self.state.env, old_env_state);
                if self.state.env.meaningful_newlines && env_state.allow_hlines {
                    mem::swap(&mut self.state.env.allow_columns, &mut env_state.allow_columns);
                }
                let numbered_state = env_state.numbered;
''')],
    demo=cfg(TABLES + r'''    assert!(ok(r"\begin{gathered} \begin{matrix} a & b \end{matrix} c \end{gathered}"));
    assert!(!ok(r"\begin{gathered} a & c \end{gathered}"));
    assert!(!ok(r"\begin{gathered} \begin{matrix} a & b \end{matrix} & c \end{gathered}"));'''))
S["p05-arg"] = dict(prop="P05", needs="& as the second argument of \\overset within a table", breaks="a cell ends within the argument of \\overset",
    edits=[(PRS, '''                    self.parse_token(token, ParseAs::ContinueSequence, prev_class)?;
                self.state.right_boundary_hack = old_boundary_hack;
                class = cls;
                if matches!(cur_token, Token::Overset)''', '''                    self.parse_token(token, ParseAs::Sequence, prev_class)?;
                self.state.right_boundary_hack = old_boundary_hack;
                class = cls;
                if matches!(cur_token, Token::Overset)''')],
    demo=cfg(TABLES + r'''    assert!(ok(r"\begin{matrix} \overset{x}{y} & b \end{matrix}"));
    assert!(!ok(r"\begin{matrix} \overset{x} & b \end{matrix}"));'''))
S["p05-style"] = dict(prop="P05", needs="a switch of the style as the argument of \\underbrace or another stretchy accent, in a table with & behind it", breaks="the argument of an accent goes on up to the end of the table",
    edits=[(PRS, "        matches!(self, ParseAs::Sequence | ParseAs::ContinueSequence)", "        !matches!(self, ParseAs::Arg)")],
    demo=cfg(TABLES + r'''    assert!(ok(r"\begin{matrix} \underbrace{\displaystyle a} & b \end{matrix}"));
    assert!(!ok(r"\begin{matrix} \underbrace\displaystyle a & b \end{matrix}"));'''))

SC = "crates/mathml-renderer/src/super_char.rs"
SYM = "crates/mathml-renderer/src/symbol.rs"
ENVS = "crates/math-core/src/environments.rs"

S["p22-bb"] = dict(prop="P22", needs="small gamma or pi within \\mathbb",
    breaks="double-struck gamma and pi change places",
    edits=[(ATTR, "                'π' => Some('ℼ'),\n                'γ' => Some('ℽ'),", "                'π' => Some('ℽ'),\n                'γ' => Some('ℼ'),")],
    demo=cfg(r"""    let r = c.convert_with_local_state(r"\mathbb{\pi}", MathDisplay::Block).unwrap().mathml;
    assert!(r.contains('ℼ'), "{r}");"""))

S["p22-tt"] = dict(prop="P22", needs="the digit 9 within \\mathtt",
    breaks="the digit is not changed",
    edits=[(ATTR, "                '0'..='9' => Some(add_offset(c, 0x1D7C6)),", "                '0'..'9' => Some(add_offset(c, 0x1D7C6)),")],
    demo=cfg(r"""    let r = c.convert_with_local_state(r"\mathtt{9}", MathDisplay::Block).unwrap().mathml;
    assert!(r.contains('𝟿'), "{r}");"""))

S["p22-bold"] = dict(prop="P22", needs="an archaic Greek digamma (Ϝ or ϝ) within \\mathbf, with the letter itself typed in the formula",
    breaks="the small digamma is not changed",
    edits=[(ATTR, "                'Ϝ'..='ϝ' => Some(add_offset(c, 0x1D3EE)),", "                'Ϝ' => Some(add_offset(c, 0x1D3EE)),")],
    demo=cfg(r"""    let r = c.convert_with_local_state(r"\mathbf{ϝ}", MathDisplay::Block).unwrap().mathml;
    assert!(r.contains('𝟋'), "{r}");"""))

S["p22-command"] = dict(prop="P22", needs="\\varointclockwise or \\ointctrclockwise",
    breaks="the integrals around a contour have the opposite orientation",
    edits=[(MC + "commands.rs", '    "varointclockwise" => Op(symbol::CLOCKWISE_CONTOUR_INTEGRAL),', '    "varointclockwise" => Op(symbol::ANTICLOCKWISE_CONTOUR_INTEGRAL),'),
           (MC + "commands.rs", '    "ointctrclockwise" => Op(symbol::ANTICLOCKWISE_CONTOUR_INTEGRAL),', '    "ointctrclockwise" => Op(symbol::CLOCKWISE_CONTOUR_INTEGRAL),')],
    demo=cfg(r"""    let r = c.convert_with_local_state(r"\varointclockwise x", MathDisplay::Block).unwrap().mathml;
    assert!(r.contains('∲'), "{r}");"""))

S["p22-typed"] = dict(prop="P22", needs="the character ⋪ typed in a formula",
    breaks="the character becomes the relation with an equals sign below",
    edits=[(MC + "commands.rs", "    '⋪' => Relation(symbol::NOT_NORMAL_SUBGROUP_OF),", "    '⋪' => Relation(symbol::NOT_NORMAL_SUBGROUP_OF_OR_EQUAL_TO),")],
    demo=cfg(r"""    let r = c.convert_with_local_state("a ⋪ b", MathDisplay::Block).unwrap().mathml;
    assert!(r.contains('⋪'), "{r}");"""))

S["p21-tagcount"] = dict(prop="P21", needs="a \\tag in the last row of an environment, and another numbered equation in the same document",
    breaks="the tag uses up a number: the next equation is numbered one too high",
    edits=[(ENVS, "            // The state has already been cleared here through `take()`.\n", "            // The state has already been cleared here through `take()`.\n            if is_last {\n                *equation_counter += 1;\n            }\n")],
    demo=cfg(r"""    let mut c = c;
    c.convert_with_global_state(r"\begin{align} a \tag{x} \\ b \tag{y} \end{align}", MathDisplay::Block).unwrap();
    let r = c.convert_with_global_state(r"\begin{equation} a \end{equation}", MathDisplay::Block).unwrap().mathml;
    assert!(r.contains("(1)"), "{r}");"""))

S["p21-again"] = dict(prop="P21", needs="a label which is given to a second equation, in a row which is not the last one",
    breaks="the label still refers to the first equation",
    edits=[(PRS, '''                                if let Some(label) = link_target {
                                    self.tokens.stores.global_state.label_map.insert(
                                        KString::from_ref(label),
                                        KString::from_ref(tag.text),
                                    );
                                }
                                Some(
                                    self.arena
                                        .alloc_row_label_info(RowLabelInfo { tag, link_target }),
                                )
                            } else {
                                // If''', '''                                if let Some(label) = link_target {
                                    self.tokens
                                        .stores
                                        .global_state
                                        .label_map
                                        .entry(KString::from_ref(label))
                                        .or_insert_with(|| KString::from_ref(tag.text));
                                }
                                Some(
                                    self.arena
                                        .alloc_row_label_info(RowLabelInfo { tag, link_target }),
                                )
                            } else {
                                // If''')],
    demo=cfg(r"""    let r = c.convert_with_local_state(r"\begin{align} a \label{l} \\ b \label{l} \\ c \end{align} \eqref{l}", MathDisplay::Block).unwrap().mathml;
    assert!(r.contains("(2)</a>"), "{r}");"""))

S["p21-clear"] = dict(prop="P21", needs="\\notag after \\tag in the same row",
    breaks="the row loses its tag",
    edits=[(PRS, '''                    numbered_state.suppress_next_number = true;
''', '''                    numbered_state.suppress_next_number = true;
                    numbered_state.custom_next_tag = None;
''')],
    demo=cfg(r"""    let r = c.convert_with_local_state(r"\begin{align} a \tag{x} \notag \end{align}", MathDisplay::Block).unwrap().mathml;
    assert!(r.contains("(x)"), "{r}");"""))

S["p21-star"] = dict(prop="P21", needs="\\tag* with a text in parentheses", breaks="the text gets parentheses of its own",
    edits=[(PRS, '''                        text: tag_name,
                        parenthesized,
''', '''                        text: tag_name,
                        parenthesized: parenthesized || tag_name.starts_with('('),
''')],
    demo=cfg(r"""    let r = c.convert_with_local_state(r"\begin{align} a \tag*{(x)} \end{align}", MathDisplay::Block).unwrap().mathml;
    assert!(!r.contains("((x))"), "{r}");"""))

S["p21-rows"] = dict(prop="P21", needs="multline with at least ten rows", breaks="the environment gets no number",
    edits=[(PRS, '''                        &mut self.tokens.stores.global_state.equation_count,
                        true,
''', '''                        &mut self.tokens.stores.global_state.equation_count,
                        n.num_rows.is_none_or(|rows| rows.get() < 10),
''')],
    demo=cfg(r"""    let r = c.convert_with_local_state(r"\begin{multline} a\\b\\c\\d\\e\\f\\g\\h\\i\\j\\k \end{multline}", MathDisplay::Block).unwrap().mathml;
    assert!(r.contains("(1)"), "{r}");"""))
