# The properties, in the words of a user, with where they are anchored and how they are decided.
AST = "crates/mathml-renderer/src/ast.rs"
ATTR = "crates/mathml-renderer/src/attribute.rs"
LIB = "crates/math-core/src/lib.rs"
PARSER = "crates/math-core/src/parser.rs"
LEXER = "crates/math-core/src/lexer.rs"
ERR = "crates/math-core/src/error.rs"
HU = "crates/math-core/src/html_utils.rs"
TQ = "crates/math-core/src/token_queue.rs"
CC = "crates/math-core/src/custom_cmds.rs"
GS = "crates/math-core/src/global_state.rs"
PROPS = []
NA = {}
NOTES = ("Static analysis of rustc's MIR of the whole workspace: a rustc driver (driver/main.rs) extracts type-checked, resolved MIR of "
         "/repo's current tree as facts; engine/ contains a path-sensitive abstract interpreter, a pushdown monitor for the markup and "
         "dataflow/call-graph analyses; checks/ contains one rule module per property. Nothing of /repo is executed.")


def P(id, title, statement, over, text, why, files, mech, technique, note, level="proof", state=(), observe=()):
    a = {"files": list(files), "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = list(observe)
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={"over": list(over), "text": text}, why_tests_cant=why,
                      anchors=a, technique=technique, note=note, level=level))


ABSINT = "path-sensitive abstract interpretation of MIR with a pushdown XML monitor"
TRUST = "Trusts rustc's MIR, the models of library functions (engine/models.py) and the monitor. "

P("P01", "The written markup is balanced and every element has the children it needs",
  "Every accepted formula is written as one <math> element in which all tags and attribute quotes are balanced, and every MathML element with "
  "a fixed number of children (fractions, scripts, roots, scripts before and after a base) has exactly that many, and table rows and cells occur only "
  "inside tables and rows. The fallback written for a rejected formula is one balanced HTML element.",
  ["inputs", "configurations"], "every tree of nodes the parser can build, every formatting configuration",
  "The snapshot tests render a few hundred formulas; the number of combinations of node kinds, optional fields and formatting options is unbounded, and a "
  "malformed page only shows for a combination nobody tried.",
  [AST, "crates/mathml-renderer/src/table.rs", ATTR, LIB, ERR],
  [("the recursive writer of all node kinds", AST + " Emitter::emit"), ("column and row generator", "crates/mathml-renderer/src/table.rs ColumnGenerator"),
   ("wrapper element", LIB + " emit"), ("HTML fallback for errors", ERR + " LatexError::to_html")],
  ABSINT, TRUST + "By induction over the tree: a child is one recursive call of the writer, which is shown to write exactly one element for every kind of node; "
  "column and row separators are covered by P05.", observe=["ConvertResult.mathml", "LatexError::to_html"])

P("P04", "Every part of a formula is written exactly once, in the order MathML reads it",
  "Everything inside a construct of the formula (numerator, denominator, base, scripts, index of a root, cells, members of a row) is written to the "
  "output exactly once, and in the order which gives it its role in MathML: base before subscript before superscript, under before over, "
  "numerator before denominator, radicand before index, post-scripts before pre-scripts.",
  ["inputs", "configurations"], "every tree of nodes, every combination of optional parts, every formatting configuration",
  "A snapshot of each construct shows one combination of its optional parts; a path which swaps or drops a child for another combination is never rendered.",
  [AST, "crates/mathml-renderer/src/table.rs"],
  [("the recursive writer of all node kinds", AST + " Emitter::emit"), ("table writer", AST + " Emitter::emit_table")],
  ABSINT + ", recording the order of the recursive calls", TRUST + "The writing of already parsed formulas is decided; that the parser puts the right node into the right field is not.")

P("P07", "Namespace, display mode and source annotation appear exactly when configured",
  "The <math> element has the MathML xmlns attribute if and only if the namespace option is on, display=\"block\" if and only if the formula is a display formula, and a <semantics> element with a "
  "TeX <annotation> if and only if annotations are on. The content of the annotation, and of the code element of the fallback for a rejected "
  "formula, is (once entities are decoded) exactly the LaTeX source which was given.",
  ["inputs", "configurations"], "every LaTeX source, every configuration",
  "Tests use a handful of configurations and short sources; an escaping loop which loses or repeats a piece between two special characters needs a particular arrangement of them.",
  [LIB, HU, ERR], [("wrapper element", LIB + " emit"), ("copying with escapes", HU + " escape_html_content"), ("HTML fallback for errors", ERR + " LatexError::to_html")],
  "abstract interpretation of MIR with an automaton for the text still to be written", TRUST + "For every path the options assumed on it are compared with what is written.")

P("P08", "Warnings are reported exactly when the output contains what they are about",
  "The result of a conversion reports undefined references if and only if a reference whose label is not defined was written into the output, and unknown commands if and only if "
  "the output contains the marker of an unknown command; asking for any warning is true if and only if one of them is reported.",
  ["inputs", "histories"], "every formula and every set of labels known when it is written",
  "The tests look at one formula for each warning; whether a flag leaks into another query, or is set for a defined label, depends on the combination of constructs in one formula.",
  [AST, LIB], [("warning flags", AST + " Warnings"), ("reference lookup", AST + " Emitter::emit EqRef"), ("result", LIB + " emit")],
  ABSINT + ", effect on the warning flags per path", TRUST + "Effects on the flags are computed for every kind of node and compared with the mask each public query tests.")

P("P09", "A reference links to the id which the labelled equation carries",
  "Whenever a reference to an equation is written as a link, its target is a fragment consisting of the configured id prefix and the label, and the "
  "equation with that label carries an id made from the same prefix and the same encoding of the label, whatever characters the label consists of.",
  ["inputs", "configurations"], "every label, every id prefix, every construct which can carry a label",
  "The two places which build the id and the link are far apart in the writer; tests use plain ASCII labels without a prefix, for which most mistakes do not show.",
  [AST], [("link target", AST + " Emitter::emit EqRef"), ("row id", AST + " Emitter::emit_table")],
  ABSINT + ", comparing the symbolic values of id and href", TRUST + "Only labels of the same conversion or converter are linked; that the label map holds labels exactly of numbered rows is P14.")

P("P10", "Converting does not change a shared converter",
  "The conversions which take a shared reference to the converter (the one with local state, and the one for a collection) leave the converter as it is: nothing a converter "
  "consists of can be changed through a shared reference, and no conversion keeps anything between calls outside of the converter (in a global or thread-local variable).",
  ["histories", "schedules"], "every sequence of conversions on one converter, from any number of threads",
  "A cache or counter behind a shared reference shows up only for particular sequences of calls or when threads meet; tests convert one formula per converter.",
  [LIB, GS, CC, PARSER], [("the converter", LIB + " LatexToMathML"), ("configuration used while parsing", CC + " CustomCmds"), ("everything reachable from a conversion", LIB + " convert")],
  "type-graph analysis (freeze) and effect analysis over the call graph", "Trusts that library functions of core, alloc, hashbrown etc. keep no state of their own and that the unsafe code they contain is sound.",
  state=[("LatexToMathML", "configuration, custom commands and global state", LIB)])

P("P11", "Conversions use the state they are documented to use; reset empties it",
  "A conversion with local state, and the conversion of a collection, start from an empty state (no equation counted, no label, no command defined); a conversion with global state "
  "starts from and updates the state of the converter itself; references are resolved with the labels of the same state the formula was parsed with; and resetting the global state empties all of it: "
  "equation counter, labels, and commands defined in documents.",
  ["histories"], "every history of conversions and resets",
  "Histories of several conversions, failures and resets are unbounded; tests look at two or three calls.",
  [LIB, GS], [("conversions", LIB + " LatexToMathML"), ("state", GS + " GlobalState"), ("reset", LIB + " reset_global_state")],
  "interprocedural abstract interpretation of the public methods with recorded calls (object identity and default values)",
  "What the parser does with the state it is given is not part of this property.", state=[("GlobalState", "equation counter, labels, commands of the document", GS)])

P("P12", "A collection gives one result per snippet, in order, parsed before writing",
  "convert_all gives exactly one result for each snippet, in the order of the snippets: the conversion of that snippet, or the error it was rejected with; one failing snippet does not "
  "affect whether there are results for the others. All snippets are parsed, in order and with one common state, before the first is written, so references to later snippets resolve.",
  ["inputs", "histories"], "every collection of snippets, valid or not",
  "Tests convert a few short collections; what happens to the n-th result when another snippet fails or is empty depends on the collection.",
  [LIB], [("conversion of a collection", LIB + " convert_all")],
  "interprocedural abstract interpretation with recorded calls and sequences as sets of elements in order", "Sequences zipped with each other are taken to be equally long.")

P("P14", "The output depends on nothing but the input, the configuration and the history",
  "Converting the same inputs with the same configuration after the same history gives the same output in every process: no conversion or error message depends on the clock, the environment, files, random numbers, "
  "addresses, type names or the order of a hash table.",
  ["inputs", "environments"], "every input, every process",
  "Two runs of a test in one environment agree even when the output depends on the environment or the seed of a hash table.",
  [LIB, PARSER, LEXER, AST], [("everything reachable from the public methods", LIB + " LatexToMathML"), ("error messages", ERR + " LatexError")],
  "effect analysis over the call graph", "Trusts the list of library crates which are functions of their arguments (checks/p14.py).")

PYB, JSB = "crates/math-core-python/src/lib.rs", "crates/math-core-wasm/src/lib.rs"
P("P13", "Every setting reaches the place where it is used, unchanged",
  "Each setting of the library, of the Python binding and of the JavaScript binding (other than the contents of the macro map, which are not looked at) is handed on unchanged to the setting of the same name: no setting is swapped with, "
  "combined with or derived from another one, cut, or replaced by a constant. A setting which is left out has the default of the library (throwOnError: true), and a setting given as a string stands for the "
  "variant of that name. Macros are read with the same settings as formulas.",
  ["configurations"], "every configuration of the library and of both bindings",
  "Tests set a few of the options, one at a time; a setting which is dropped or mixed up matters only for the combination of options nobody tried.",
  [LIB, PYB, JSB], [("constructor of the converter", LIB + " LatexToMathML::new"), ("constructor in Python", PYB + " new"), ("constructor in JavaScript", JSB + " new")],
  "interprocedural abstract interpretation of the constructors with symbolic settings",
  "Decides what is stored in the converter. Command-line options and the configuration file are not part of this property.",
  observe=["LatexToMathML::new"])

P("P26", "The bindings give back exactly what the library gives",
  "Each conversion of the Python and of the JavaScript binding calls the conversion of the same name of the library once, on the formula it was given and with the display mode asked for, and returns the MathML of that call unchanged. "
  "For a rejected formula it returns the HTML of that error for the same formula and display mode if the binding is configured to go on, and raises otherwise (telling, for a collection, which snippet failed). A collection gives one "
  "value per snippet in order. In Python, conversions which do not use the shared state take only the shared lock, so they do not exclude each other.",
  ["inputs", "configurations", "schedules"], "every formula and collection, every configuration of the bindings, every interleaving of Python threads",
  "The tests of the bindings convert a handful of formulas in one thread; a value mixed up between snippets or a lock which is too strong shows only for particular collections or under concurrency.",
  [PYB, JSB], [("conversions in Python", PYB + " LatexToMathML"), ("conversions in JavaScript", JSB + " LatexToMathML"), ("exceptions", PYB + " conversion_error")],
  "interprocedural abstract interpretation with recorded calls of the library and of the lock",
  "pyo3 and wasm-bindgen are trusted to hand arguments and values over; the wording of the exceptions is not decided.",
  observe=["convert_with_local_state", "convert_with_global_state", "convert_all"])

P("P02", "Text of the formula is never taken for markup",
  "Whatever characters a formula contains, they appear in the output as text, never as markup: '<' and '&' which come from the formula are written as character references wherever text "
  "is written (names of functions, unknown commands, \\text, operators, accents and delimiters, the annotation, the fallback for a rejected formula), and so are '&' and '\"' inside attribute values. The places which "
  "write characters as they are, for speed (numbers, single-letter identifiers, targets of references), can never be given one of these characters by the lexer, the parser or the tables of commands.",
  ["inputs", "configurations"], "every formula, every configuration (class names and the prefix for ids are trusted)",
  "The tests check the escapes of the constructs which they happen to use with a special character; a path which writes one field without them needs that field, on that path, to hold '<' or '&'.",
  [AST, "crates/mathml-renderer/src/escaping.rs", ERR, LEXER, PARSER, "crates/math-core/src/commands.rs"],
  [("the writers of text", AST + " Emitter::emit"), ("fallback for a rejected formula", ERR + " LatexError::to_html"), ("what the lexer makes of a character", LEXER + " Lexer::next_token"),
   ("which characters a label may have", LEXER + " recover_limited_ascii")],
  ABSINT + "; field-based interprocedural dataflow of characters for the fields which are written as they are",
  TRUST + "The dataflow trusts that a library function returns only characters of its arguments.")

CLIM = "crates/math-core-cli/src/main.rs"
REPL = "crates/math-core-cli/src/replace.rs"
ENT = "crates/math-core-cli/src/html_entities.rs"
P("P15", "The command line tool converts what it is asked to",
  "The command line tool converts the formula given with --formula, or else standard input, in block display if --block is given and inline otherwise. For a file (or standard input for \"-\") it looks for "
  "formulas between the opening and closing delimiter of --inline-open/--inline-close if given and between two of --inline-del otherwise, likewise for block formulas, and ignores escaped delimiters exactly if asked to. "
  "The configuration is read from the named file or else from mathcore.toml. Each formula of a file is converted with the shared state and is replaced by exactly its MathML; for a rejected formula the fallback HTML of "
  "its error for the same formula and display mode is put there if --continue-on-error is given, and the file is rejected otherwise.",
  ["inputs", "configurations"], "every combination of options and every input",
  "There are no tests which run the tool; a mixed-up delimiter or display mode shows only for one combination of options.",
  [CLIM], [("the options", CLIM + " main"), ("conversion of one formula of a file", CLIM + " replace"), ("a single formula", CLIM + " convert_and_exit")],
  "interprocedural abstract interpretation with recorded calls of the library and of the operating system",
  "clap is trusted to fill in the options.")

P("P24", "Everything outside of formulas is copied as it is",
  "When the formulas of a file are replaced, the text before, between and after the formulas appears in the output unchanged and in order, and each formula with its two delimiters is replaced by exactly one result: the converter is given "
  "the text between the delimiters with its HTML entities decoded, and the display mode of its opening delimiter. A formula without a closing delimiter, one whose closing delimiter is of the other kind (unless both closing delimiters "
  "are equal), and one which contains another opening delimiter are rejected, and nothing else is. Decoding replaces each known entity (from an ampersand to the next semicolon) by its character and copies everything else.",
  ["inputs"], "every text and every choice of delimiters",
  "The tests replace formulas in a few short texts; positions that are off, or text that is dropped, may need delimiters of particular lengths, empty formulas or particular distances.",
  [REPL, ENT], [("replacement of formulas", REPL + " Replacer::replace"), ("decoding of entities", ENT + " replace_html_entities"), ("table of entities", ENT + " HTML_RESERVED_MAP")],
  "abstract interpretation with symbolic positions (linear expressions) and induction over the formulas",
  "Which delimiter is the next one (find_next_delimiter) is not part of this property; what a search finds is trusted to lie where it says.")

P("P25", "The command line tool changes files and exits as it should",
  "The command line tool opens a file for writing only after that same file was read and converted without error, never in a dry run, and only with --write or --recursive; then all of the converted text is written. Otherwise "
  "the result is printed. The process exits with 1 if reading or writing failed, 2 if a formula or a macro of the configuration was rejected, 3 if the configuration which was named does not exist and 4 if the configuration "
  "cannot be read or parsed; it neither ends successfully nor goes on after such a failure, and does not exit with one of these codes otherwise.",
  ["inputs", "configurations", "crash points"], "every combination of options, every outcome of every operation on files, every configuration",
  "There are no tests which run the tool; whether a failure is noticed needs the failure at one particular operation.",
  [CLIM, "crates/math-core-cli/src/config_file.rs"], [("files", CLIM + " convert_html"), ("directories", CLIM + " convert_html_recursive"), ("exit codes", CLIM + " exit_io_error")],
  "interprocedural abstract interpretation with every call of the operating system recorded; rules over the events and conditions of each path",
  "A directory entry which cannot be listed is skipped (as documented in the code); a write which is cut short by a crash is not covered.")

P("P17", "Nesting is limited, and no recursion is unbounded",
  "A formula which nests deeper than a fixed number of levels (at most 255) is rejected instead of exhausting the stack: every recursion of the parser counts the level, wherever it goes through, and constructs which stand next to each other do "
  "not use up levels. Every other recursion of the library works on a proper part of finite data which was built before (so it is no deeper than that data), and the length of a formula is dealt with by loops, never by recursion.",
  ["inputs"], "every formula of any length and depth",
  "The tests have a few deep formulas; a single path through the parser which does not count, or which recurses once per token, needs a formula which repeats just that construct thousands of times.",
  [PARSER, AST, LEXER], [("limit of nesting", PARSER + " Parser::parse_token"), ("recursion over nodes", AST + " Emitter::emit"), ("loops over tokens", LEXER + " Lexer::next_token")],
  "call-graph cycles; size-change analysis; path-sensitive abstract interpretation of the functions which count",
  "That the stack suffices for 255 levels is assumed. Recursion through library functions other than by closures and function values is not followed.")

P("P06", "Pretty printing adds white space between elements and nothing else",
  "Pretty printing (the mode and the unit of indentation) has no influence on a conversion except that spaces, tabs and newlines are added between elements: never inside an element which contains text or inside a tag, and no "
  "other character of the output, warning, error or later result depends on it. With PrettyPrint::Never, and with PrettyPrint::Auto for inline formulas, nothing is added; with PrettyPrint::Always, and Auto for block formulas, the formula is pretty-printed.",
  ["inputs", "configurations"], "every formula and every configuration",
  "The tests pretty-print a few formulas with one indentation; something which depends on the depth, on a combination of options or on the place in a table needs just that formula to be compared in all modes.",
  [LIB, "crates/mathml-renderer/src/fmt.rs", AST], [("choice of the mode", LIB + " emit"), ("white space", "crates/mathml-renderer/src/fmt.rs new_line_and_indent"), ("levels", AST + " Emitter::emit")],
  "information flow (data and control dependence) and abstract interpretation of the writers with an XML monitor", "Which levels the indentation has is not part of this property.")

P("P29", "An error found in a formula or macro is never swallowed",
  "When a step of reading a formula or a macro definition (fetching a token, reading an argument, bounds, a length, a color, a group, expanding a macro, parsing a part) reports an error, the conversion or the construction of the converter "
  "ends with that error or with another error which replaces it. The error is never dropped, overwritten, turned into a result or skipped over, by any caller on the way from the place that found it to the result which the user gets.",
  ["inputs", "configurations"], "every formula and every configuration",
  "The tests check errors which their formulas provoke at the usual places; an error which one caller drops needs the formula that fails right there (often at the end of the input or inside of a nested construct).",
  [PARSER, LIB, TQ, CC], [("parsing", PARSER + " Parser::parse_sequence"), ("expansion of macros", CC + " CustomCmds::absorb"), ("conversion", LIB + " parse")],
  "path-sensitive dataflow of error values over MIR (errors as resources which must reach the returned value)",
  "That a step reports an error for a wrong formula is not part of this property. Look-ahead which is repeated later is followed like every other call.")

P("P20", "Changes of font and style end with their group",
  "A switch of the math font (such as \\bf or \\rm) or of the style (\\displaystyle and so on) holds for everything up to the end of the group, argument, script, table cell, environment or \\left...\\right pair in which it stands, and for nothing "
  "beyond it; a command such as \\mathbf changes the font for its argument only; nothing else changes the font. A script is read in the style which TeX gives it (script, or scriptscript within scripts), the numerator and the denominator of a fraction "
  "one step smaller than the fraction, and a formula starts without a font and in display style exactly if it is a block. Which of its alternatives \\mathchoice shows depends on this style.",
  ["inputs"], "every formula",
  "The tests have a few switches at the top level; a font or style which is not put back on one path shows only in what comes after that very construct, in a nesting which is not sampled.",
  [PARSER, ATTR], [("groups and cells", PARSER + " Parser::parse_sequence"), ("switches", PARSER + " Parser::handle_tokens_without_output"), ("commands with arguments", PARSER + " Parser::parse_one_token"), ("styles", ATTR + " Style::scriptify")],
  "path-sensitive symbolic propagation of the parser's state over MIR (save and restore as typestate)",
  "The argument of \\set, \\pod and other built-in macros is put in without a group around it, like that of a macro which the user defines. Known finding: \\genfrac.")

P("P05", "& and \\\\ divide only the environment in which they directly stand",
  "A table is divided into columns by & and into rows by \\\\ only where they stand directly in the content of its environment: outside of an environment with columns (equation, gather, gathered and multline have none), within a group, "
  "a \\left...\\right pair, an optional argument or as (part of) an argument of a command, & is an error, and \\\\ makes no row. Whether an environment can be divided depends on this environment alone, not on those which it stands in or which stand "
  "in it, and a switch such as \\displaystyle or \\color, which holds up to the end of a cell, ends at its separator.",
  ["inputs"], "every formula",
  "The tests have an & at a few wrong places; a place which passes the permission of the environment on to an argument or to another environment shows only with & at this very place.",
  [PARSER, "crates/math-core/src/environments.rs"], [("separators", PARSER + " Parser::parse_one_token"), ("sequences", PARSER + " Parser::parse_sequence"), ("environments", "crates/math-core/src/environments.rs Env::new_state")],
  "path-sensitive symbolic propagation of the parser's state and of its parameters over MIR; exact evaluation per environment",
  "How the table is then written is the subject of P01 and P04; that an infix fraction covers only its own cell is not checked.")

P("P22", "Fonts, symbols and commands give the characters which their names stand for",
  "A math font maps each character which Unicode has in that font to it (with the variation selector of the two script fonts), and every other character, and one which has marks, to itself. \\not over a character gives Unicode's composed "
  "character if there is one, and the combining slash otherwise; the marks and the selector of a stored character are given back in order. A constant of symbol.rs which is named like a Unicode character is that character; a command of LaTeX "
  "gives the character, the kind (relation, opening, ...), the accent, the space, the font, the size or the operator name which its name stands for; an operator character which is typed gives itself.",
  ["inputs"], "every character and every command",
  "The tests contain about two thirds of the commands and a sixth of the characters; each entry of the tables is a separate case.",
  [ATTR, "crates/mathml-renderer/src/symbol.rs", "crates/math-core/src/commands.rs", "crates/mathml-renderer/src/super_char.rs"],
  [("fonts", ATTR + " TextTransform::transform_char"), ("slash", "crates/mathml-renderer/src/super_char.rs SuperChar::with_overlay"), ("commands", "crates/math-core/src/commands.rs COMMANDS")],
  "exact interval evaluation of MIR for all characters against the Unicode database; compiler-evaluated tables against the named characters of HTML and a reference table",
  "Commands which HTML does not name are compared with a table which was written from the code and reviewed. The few commands which depend on the configuration (unicode_substitution, unreliable rendering) and macros are not covered.")

P("P21", "Equations are numbered in order, and tags and labels belong to their row",
  "Each row of align, equation and gather gets the next number of the document, in parentheses, and multline gets one number, for its last row; the starred forms get none. \\tag gives its row this text instead (in the starred forms too, and also "
  "next to \\notag), without parentheses for \\tag*, and uses up no number; \\notag and \\nonumber leave the row without one. The counter goes on by exactly one for each number which is given, and for nothing else. A tag, a \\notag or a \\label holds for the row in which it "
  "stands alone (for all of multline, as it has one number only); a label, of which a row can have one, refers from then on to the tag or number of its row, and the row carries it as its link target. The rows of multline are counted.",
  ["inputs"], "every sequence of formulas",
  "The tests number a few rows in one environment at a time; what one row leaves behind for the next, or one environment for the next, shows only in combinations of modes, tags, suppressed numbers and labels.",
  [PARSER, "crates/math-core/src/environments.rs", GS], [("numbers", "crates/math-core/src/environments.rs NumberedEnvState::next_equation_tag"), ("rows", PARSER + " Parser::parse_one_token"), ("commands", PARSER + " Parser::handle_tokens_without_output")],
  "symbolic evaluation of all paths over MIR against a table over mode, tag, suppression and label; ownership of the counter's and labels' writes",
  "Known finding: \\notag next to \\tag. That the number is then written in its cell is the subject of P04; the id and the link are that of P09.")
