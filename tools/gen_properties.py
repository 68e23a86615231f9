#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
S = "crates/seam/src/"
P = []
def p(id, title, statement, qtext, why, files, mech, over=("inputs",)):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=[S+f for f in files],
                     mechanism=[dict(name=n, where=S+w) for n, w in mech])))
NONE = "No existing test reaches this: the six tests only run %sort, %reverse, %date and %timestamp on fixed calls; "
p("L01", "Reading any source text terminates without a crash",
  "For every UTF-8 source text, lexing and parsing it ends after finitely many steps with either a tree or an error. It never hangs, panics, reads outside the text or cuts it inside a character (given stack space for its nesting).",
  "every valid UTF-8 string of any length, at every lexer position",
  NONE + "totality quantifies over all texts, including unfinished strings, escapes and comments at end of file.",
  ["parse/lexer.rs", "parse/parser.rs"],
  [("lexer loops", "parse/lexer.rs"), ("recursive descent", "parse/parser.rs")])
p("L02", "Tokens and leading whitespace tile the source text exactly",
  "Every token's text and leading whitespace are exact consecutive pieces of the source: the whitespace is what separates it from the previous token (from the last comment's line end, when there are comments), and nothing else is skipped. Token boundaries depend only on the text: parentheses are tokens of their own, identifiers extend to the next unescaped space, parenthesis or quote, strings to their unescaped closing quotes.",
  "every source text and every token in it",
  NONE + "tiling is a statement about all texts.",
  ["parse/lexer.rs"],
  [("whitespace and comments", "parse/lexer.rs:consume_whitespace"), ("identifier scan", "parse/lexer.rs:consume_identifier_string"), ("strings", "parse/lexer.rs:consume_string")])
p("L03", "Reported source locations are exact",
  "The location recorded for a token names the byte offset where it starts, the number of bytes it spans, its line (one more than the number of newlines before it) and its byte offset within that line. This holds for every token, also after multi-line strings, comments and escaped newlines. Looking a location up gives back exactly that piece of text, and its line.",
  "every source text and every token in it",
  NONE + "off-by-one and double-counting errors only show after particular prefixes.",
  ["parse/lexer.rs", "parse/tokens.rs"],
  [("offset bookkeeping", "parse/lexer.rs:increment_byte_offsets,next_line,consume_char,site")])
p("L04", "The parse tree mirrors the source, and only malformed texts are errors",
  "Parsing succeeds exactly when parentheses balance, strings are closed with valid escapes and every keyword is followed by an expression; otherwise it reports an error. On success the tree nests exactly as the parentheses do, keeps every expression in order and with its kind, pairs each keyword with the one expression that follows, and keeps each token's text, leading whitespace and location.",
  "every source text",
  NONE + "acceptance and nesting quantify over all token sequences.",
  ["parse/parser.rs"],
  [("parse_list", "parse/parser.rs:parse_list"), ("parse_keyword", "parse/parser.rs:parse_keyword"), ("parse_expr", "parse/parser.rs:parse_expr")])
p("L05", "A backslash in a symbol stands for the character after it",
  "In symbols, numbers and identifiers, each backslash is removed and the character after it is kept literally, whatever it is, including another backslash; all other characters are kept unchanged and in order.",
  "every identifier text",
  NONE + "no test contains an escape.",
  ["parse/parser.rs", "parse/lexer.rs"],
  [("unescaping", "parse/parser.rs:escape_sanitize")])
p("L06", "Tree search finds the first matching node within the depth limit",
  "Searching a tree for a node by kind and value returns the first match in document order that lies within the given depth: lists by the value of their first element, literals by their own value, attributes by keyword (giving the attribute's value). It reports no match exactly when there is none.",
  "every tree, kind, value and depth",
  NONE + "no test searches a tree.",
  ["parse/parser.rs"], [("search_node", "parse/parser.rs:search_node")])
p("L07", "Node equality means same kind and same content, nothing else",
  "Two nodes compare equal exactly when they are of the same kind and their values, children or keyword and value are equal; whitespace and source location do not matter. The comparison is reflexive, symmetric and transitive.",
  "every pair and triple of nodes",
  NONE + "no test compares nodes.",
  ["parse/parser.rs"], [("PartialEq", "parse/parser.rs:impl PartialEq")])
p("M01", "XML escaping replaces exactly the five special characters",
  "Escaping a text replaces <, >, \", ' and & by &lt;, &gt;, &quot;, &apos; and &amp; and leaves every other character alone, in order. The result is valid text, contains none of < > \" ' raw, and determines the original text.",
  "every UTF-8 string",
  NONE + "no test escapes anything.",
  ["assemble/mod.rs"], [("escape_xml", "assemble/mod.rs:escape_xml")])
p("M02", "Plain-text output is the tree's text, verbatim",
  "Plain-text output of any tree is the concatenation, in document order, of every literal's whitespace and value, of lists wrapped in parentheses with their own and their closing whitespace, and of attributes as colon, keyword and value. It never fails and adds or drops nothing.",
  "every tree",
  NONE + "no test generates markup.",
  ["assemble/text.rs"], [("generate_node", "assemble/text.rs:generate_node")])
p("M03", "S-expression output reproduces the tree as source text",
  "S-expression output writes symbols and numbers as they are, strings quoted and escaped, raw strings as (%raw ...) around the quoted value, attributes as :keyword and value, and lists in parentheses, each with its original leading and closing whitespace, in order. It never fails and adds or drops nothing.",
  "every tree",
  NONE + "the tests print expanded nodes, not this formatter.",
  ["assemble/sexp.rs"], [("generate_node", "assemble/sexp.rs:generate_node")])
p("M04", "XML output is well nested and complete",
  "XML output of a list is an opening tag named by its first element with its leading attributes, the output of its remaining elements in order, and the matching closing tag; ! and ? lists become declarations with space-separated symbols and attributes. Literal text and attribute values are escaped unless raw; whitespace follows the source except that a first child on the same line is not preceded by any. Trees that have no XML reading (empty lists, non-symbol or empty tag names, compound attribute values, stray attributes) give an error, and no tree makes it crash.",
  "every tree",
  NONE + "no test generates markup.",
  ["assemble/xml.rs"], [("generate_xml_node", "assemble/xml.rs:generate_xml_node"), ("display_attribute", "assemble/xml.rs:display_attribute")])
p("M05", "HTML output is well nested and complete",
  "HTML output of a list is an opening tag named by its first element with its leading attributes, its remaining elements in order, and the closing tag in lower case; void elements have no closing tag and reject children, ! lists become declarations. title and textarea hold plain text, style holds CSS (or one verbatim string), script holds s-expressions, svg and math hold XML. Trees without an HTML reading give an error; apart from the documented restriction on pre, no tree makes it crash.",
  "every tree",
  NONE + "no test generates markup.",
  ["assemble/html.rs"], [("generate_html_node", "assemble/html.rs:generate_html_node"), ("VOID_ELEMENTS", "assemble/html.rs:VOID_ELEMENTS")])
p("M06", "Text can never turn into markup",
  "In HTML and XML output, text from symbols, numbers and strings, both as content and inside attribute values, is always escaped, so that it cannot open a tag, end an attribute or start an entity; raw strings are always output unchanged.",
  "every tree and every text value in it",
  NONE + "no test outputs a special character.",
  ["assemble/html.rs", "assemble/xml.rs", "assemble/mod.rs"], [("escape_xml", "assemble/mod.rs:escape_xml"), ("display_attribute", "assemble/xml.rs:display_attribute"), ("attribute values", "assemble/html.rs:generate_html_node")])
p("M07", "Document wrappers are added exactly when missing",
  "Generating an HTML document adds a doctype exactly when the top level has none, and then, if the top level has no html element either, an html element, an empty head and a body, head and body each exactly when the top two levels have none; what is opened is closed again after the content. XML documents get the XML declaration exactly when they do not start with one; empty inputs give the format's fixed default document, text and s-expression documents are the plain output.",
  "every tree and format",
  NONE + "no test generates a document.",
  ["assemble/html.rs", "assemble/xml.rs", "assemble/css.rs", "assemble/sexp.rs", "assemble/text.rs"], [("document", "assemble/html.rs:document"), ("document", "assemble/xml.rs:document"), ("document", "assemble/css.rs:document")])
p("M08", "CSS output has one rule per list and balanced braces",
  "Every top-level list becomes one CSS rule: its leading literals as selectors, then one `keyword: value;` line per attribute between braces; @-rules take arguments and nested rules, one-line @-rules end in a semicolon. Function values are written name(args) with commas only for rgba and hsla, arithmetic as parenthesised infix. Anything else (no selector, stray literals or attributes, non-attribute properties) gives an error; no tree makes it crash.",
  "every tree",
  NONE + "no test generates CSS.",
  ["assemble/css.rs"], [("generate_css_rule", "assemble/css.rs:generate_css_rule"), ("generate_special_selector", "assemble/css.rs:generate_special_selector"), ("convert_value", "assemble/css.rs:convert_value")])
p("E01", "Binding arguments matches patterns positionally, by name and to the rest",
  "Binding a list of arguments to parameters gives each positional parameter the next positional argument, each named parameter the last argument of that name or else its default, the &-parameter all remaining positional arguments in order and the &&-parameter all remaining named ones in order of appearance. It succeeds exactly when every parameter is filled, no argument is left over and literals match; nested patterns bind the same way, and no other variable changes.",
  "every parameter pattern and argument list",
  NONE + "the tests contain one three-element pattern.",
  ["parse/expander.rs"], [("bind", "parse/expander.rs:bind"), ("bind_list", "parse/expander.rs:bind_list")])
p("E02", "Definitions made inside a macro call, match, for or namespace stay inside",
  "After a macro call, a %match, a %for or a %namespace has been expanded, the variables visible to the code that follows are what evaluating its arguments left behind; parameters, pattern variables, loop variables and definitions made inside its body are gone. The one exception is %namespace, which adds the definitions visible inside it under prefixed names.",
  "every environment, macro and argument list",
  NONE + "scoping needs sequences of definitions and uses, which no test has.",
  ["parse/expander.rs"], [("subcontexts", "parse/expander.rs:apply_macro"), ("expand_match_macro", "parse/expander.rs:expand_match_macro"), ("expand_for_macro", "parse/expander.rs:expand_for_macro"), ("expand_namespace_macro", "parse/expander.rs:expand_namespace_macro")], over=("inputs", "histories"))
p("E03", "Expansion leaves code without macros untouched",
  "Expanding a tree in which no symbol starts with % yields the same tree, node for node, with all values, whitespace and locations, and changes no definition.",
  "every macro-free tree in every environment",
  NONE + "no test expands plain code.",
  ["parse/expander.rs"], [("expand_node", "parse/expander.rs:expand_node"), ("expand_nodes", "parse/expander.rs:expand_nodes")])
p("E04", "Expansion works element by element, in order",
  "Expanding a sequence is the concatenation of expanding its elements from left to right, each seeing the definitions left by those before, and stops at the first error. A variable expands to its expanded definition with the whitespace of the use, a plain list to the list of its expanded elements, an attribute to its keyword with the expanded value, and a list headed by a %-symbol to the call of that macro with the elements after it.",
  "every tree in every environment",
  NONE + "order and threading of definitions need sequences.",
  ["parse/expander.rs"], [("expand_node", "parse/expander.rs:expand_node"), ("expand_nodes", "parse/expander.rs:expand_nodes"), ("expand_invocation", "parse/expander.rs:expand_invocation")], over=("inputs", "histories"))
p("E05", "%sort returns a stable, correctly ordered permutation",
  "%sort returns a list with the same elements, each exactly once, ordered by key: numbers by value before all other text, text alphabetically, ascending unless descending is asked for; elements with equal keys keep their order. Whitespace stays in its place in the list, and no input makes it crash.",
  "every list, key macro and order",
  "Two tests sort one fixed list each; order, stability and permutation quantify over all lists and key mixes.",
  ["parse/expander.rs"], [("expand_sort_macro", "parse/expander.rs:expand_sort_macro")])
p("E06", "%reverse reverses a list and keeps whitespace in place",
  "%reverse gives the elements of its list in opposite order, each exactly once, while the i-th element of the result has the leading whitespace the i-th element of the input had. The list's own location and whitespace are kept.",
  "every list",
  "One test reverses one list.",
  ["parse/expander.rs"], [("expand_reverse_macro", "parse/expander.rs:expand_reverse_macro")])
p("E07", "Text-building macros concatenate exactly their arguments",
  "%string and %raw yield one string (or raw string) made of the whitespace and value of each argument in order; %concat the values alone, %join the values separated by the first argument (and followed by it if trailing is set). Non-literal arguments are errors, and the result takes the whitespace and location of the call.",
  "every argument list",
  NONE + "no test calls them.",
  ["parse/expander.rs"], [("expand_string_macro", "parse/expander.rs:expand_string_macro"), ("expand_raw_macro", "parse/expander.rs:expand_raw_macro"), ("expand_join_macro", "parse/expander.rs:expand_join_macro"), ("expand_concat_macro", "parse/expander.rs:expand_concat_macro")])
p("E08", "List-shaping macros keep every element, in order",
  "%list wraps its expanded arguments in one list with the call's whitespace and location; %splat replaces each list argument by its elements, giving the first the list's leading whitespace, and keeps other arguments; %strip only removes the first argument's leading whitespace; %number and %symbol change only the kind of each literal. No element is lost, duplicated or reordered.",
  "every argument list",
  NONE + "no test calls them.",
  ["parse/expander.rs"], [("expand_splat_macro", "parse/expander.rs:expand_splat_macro"), ("expand_list_macro", "parse/expander.rs:expand_list_macro"), ("expand_strip_macro", "parse/expander.rs:expand_strip_macro"), ("expand_number_macro", "parse/expander.rs:expand_number_macro"), ("expand_symbol_macro", "parse/expander.rs:expand_symbol_macro")])
p("E09", "%get follows a path of indices and keywords",
  "%get walks from its second argument along the path's parts: a part that is a number in range selects that element, otherwise the first attribute with that keyword selects its value. It fails exactly when some step starts from a non-list or selects nothing, and never crashes.",
  "every list and path",
  NONE + "no test calls it.",
  ["parse/expander.rs"], [("expand_get_macro", "parse/expander.rs:expand_get_macro")])
p("E10", "Conditional macros choose the right branch",
  "%ifdef expands its second argument if the named variable is defined and its third, or nothing, otherwise, giving the result the call's whitespace; the branch not taken is not evaluated. %match expands the body of the first pattern that binds, with the pattern's variables defined, and yields nothing if none does.",
  "every environment and argument list",
  NONE + "no test calls them.",
  ["parse/expander.rs"], [("expand_ifdef_macro", "parse/expander.rs:expand_ifdef_macro"), ("expand_match_macro", "parse/expander.rs:expand_match_macro")])
p("E11", "%define binds exactly the given name to the given definition",
  "%define with a name evaluates the rest and binds the name to the result; with a list it binds the list's first symbol to a macro with the remaining elements as parameters and the unevaluated rest as body. It leaves no output, changes no other definition, and rejects definitions without a name or with more than one & or && parameter.",
  "every environment and definition",
  NONE + "no test defines a named macro.",
  ["parse/expander.rs"], [("expand_define_macro", "parse/expander.rs:expand_define_macro"), ("create_macro", "parse/expander.rs:create_macro")])
p("E12", "Iteration macros apply the body to every element in order",
  "%for binds its pattern to each element of the expanded list in turn and yields the concatenation of the expanded bodies; %map yields the concatenation of the results of calling the macro on each argument, %filter the same without results that are a single empty list, and %apply calls the macro once on all arguments.",
  "every list, pattern, macro and body",
  NONE + "no test calls them.",
  ["parse/expander.rs"], [("expand_for_macro", "parse/expander.rs:expand_for_macro"), ("expand_map_macro", "parse/expander.rs:expand_map_macro"), ("expand_filter_macro", "parse/expander.rs:expand_filter_macro"), ("expand_apply_macro", "parse/expander.rs:expand_apply_macro")])
p("E13", "Built-in macros accept exactly the arguments their schema allows",
  "An argument list is accepted exactly when every argument fits the first rule for its position or name (or, failing any, the rule for the rest), its kind and allowed values match that rule, and all mandatory arguments are present. An accepted list hands every argument to exactly one slot: positional by number, named by keyword, the rest in order.",
  "every schema and argument list",
  NONE + "the tests pass a handful of valid argument lists and no invalid one.",
  ["parse/macros.rs"], [("ArgParser::new", "parse/macros.rs:ArgParser"), ("ArgType::check", "parse/macros.rs:ArgType")])
p("E14", "%namespace prefixes every definition and returns the rest",
  "%namespace makes each definition visible at the end of its body available outside under namespace, separator and name (the separator being / unless given), leaves all other outside definitions alone, and yields the elements after its name and options unchanged.",
  "every environment and body",
  NONE + "no test calls it.",
  ["parse/expander.rs"], [("expand_namespace_macro", "parse/expander.rs:expand_namespace_macro")])
p("E15", "Files are looked up in the include directories in the given order",
  "Including or embedding a file uses the first include directory, in the order they were given (the current directory first), that has a readable file of that name; an include falls back to the name with .sex appended within each directory before trying the next.",
  "every sequence of include directories and every file layout",
  NONE + "no test includes files.",
  ["parse/expander.rs"], [("includes", "parse/expander.rs:add_includes"), ("expand_include_macro", "parse/expander.rs:expand_include_macro"), ("expand_embed_macro", "parse/expander.rs:expand_embed_macro")], over=("inputs", "configurations"))
p("E16", "Dates are formatted in exactly the requested time zone",
  "A timezone of h hours shifts %date and %timestamp by exactly 3600*h seconds, rounded to the nearest second (h being read to the nearest 2^-32), and offsets of a day or more, and times or formats that are out of range or malformed, give an error, never a crash or a wrong offset. A date that says its own zone is taken in that zone; without any, the machine's own zone counts.",
  "every timezone, timestamp and format",
  "Five fixed timezones are tested.",
  ["parse/expander.rs"], [("expand_date_macro", "parse/expander.rs:expand_date_macro"), ("expand_timestamp_macro", "parse/expander.rs:expand_timestamp_macro")])
p("E17", "TOML and YAML data map to the same structure as the document",
  "%toml and %yaml (and %json) give a list for the document: a table or mapping becomes a list of attributes and an array or sequence a list, with all their values, in the order of the (first) document; the tables of TOML in the order of their keys. In TOML, integers and floats become numbers, booleans and dates symbols and the rest strings; in YAML all scalars become strings. Each value is also defined under its path, the keys and indices (from 0) that lead to it joined by the separator, which is / unless given. A document that is malformed, or in YAML has aliases or keys that are no scalars, is an error.",
  "every TOML or YAML document",
  NONE + "no test calls them.",
  ["parse/expander.rs"], [("expand_yaml", "parse/expander.rs:expand_yaml"), ("expand_toml", "parse/expander.rs:expand_toml")])
p("E18", "Environment variables and format strings are filled in as given",
  "%os/env yields the value of exactly the named environment variable as a string in its argument's place, and fails if there is none. %format fills the places of its format string with its further arguments, those without keyword in order and those with one by name, and fails if the format is malformed, a place stays empty or an argument is no literal.",
  "every argument list and environment",
  NONE + "no test calls them.",
  ["parse/expander.rs"], [("expand_os_env_macro", "parse/expander.rs:expand_os_env_macro"), ("expand_format_macro", "parse/expander.rs:expand_format_macro")], over=("inputs", "configurations"))
p("E19", "Markdown is rendered whole, and its frontmatter becomes definitions",
  "%markdown yields one raw string, with the call's whitespace and location: the HTML that the Markdown library makes of exactly its text, with frontmatter, tables and task lists read, a single tilde no strikethrough, and HTML and links left as they are. Frontmatter (YAML or TOML) is defined as %yaml and %toml would define it, with the same separator; missing or malformed frontmatter is no error. With only set to content nothing is defined; with only set to frontmatter nothing is yielded, and it must be there and well formed.",
  "every text, argument list and definition state",
  NONE + "no test calls it.",
  ["parse/expander.rs"], [("expand_markdown_macro", "parse/expander.rs:expand_markdown_macro")], over=("inputs", "histories"))
p("E20", "%glob lists exactly the matching paths, in the order asked for",
  "%glob yields one string for each path that matches the pattern, once each, which is of the type asked for (file, directory or any; paths that lead nowhere left out), at the pattern's location, separated by single spaces. They come by name; by type (directories before files, no extension before extensions, by extension, then by name); the most recently modified or created first, by name among equals; or, with none (the default), in reverse of the order in which they are found; and in descending order exactly the other way around. A malformed pattern or a directory that can't be read is an error.",
  "every argument list and file tree",
  NONE + "no test calls it.",
  ["parse/expander.rs"], [("expand_glob_macro", "parse/expander.rs:expand_glob_macro")], over=("inputs", "configurations"))
p("X01", "References into arenas stay valid as long as they are used",
  "Nodes, parsers and formatters handed out by reference stay alive and unmoved while any reference to them is in use, whatever is expanded or included in between.",
  "every program, with any nesting of macros and includes",
  NONE + "no test includes a file or nests calls deeply.",
  ["parse/expander.rs", "assemble/html.rs", "lib.rs"], [("register_parser", "parse/expander.rs:register_parser"), ("register_invocation", "parse/expander.rs:register_invocation"), ("register_formatter", "assemble/html.rs:register_formatter")], over=("inputs", "histories"))
p("X02", "The same program always gives the same output",
  "Expanding and generating the same source twice, with the same files, environment and clock, gives byte-identical output or the same error; unexpected keyword arguments are listed by first appearance.",
  "every program",
  NONE + "hash-map iteration order differs between runs.",
  ["parse/expander.rs", "parse/macros.rs"], [("bind_list", "parse/expander.rs:bind_list")], over=("inputs", "histories"))
p("X03", "The command line processes inputs as asked",
  "The command line tool reads the given files in order (or standard input), generates the requested format with or without the document wrapper, and exits non-zero with a message on any error.",
  "every argument list",
  NONE + "no test runs the binary.",
  ["bin.rs"], [("main", "bin.rs:main")], over=("inputs", "configurations"))
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
