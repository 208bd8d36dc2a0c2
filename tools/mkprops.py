#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as code so that the entries stay readable).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["papyri_lang::compile_str", "compiler::Context"]
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Every source text compiles to output or diagnostics, never a crash",
  "For any source text whatsoever, valid or not, compilation finishes and yields either rendered output or at least one diagnostic; it never panics, aborts or reports an internal compiler error (nesting and recursion so deep that the stack is exhausted excepted). The string API returns output exactly when there were no errors and no warnings, and printing the diagnostics of a failed compilation always succeeds.",
  ["inputs", "programs"], "all Unicode strings (bounded nesting depth), from raw text through token soup to mutated well-formed programs",
  "The tests sample a few hundred small ASCII programs; crashes live in odd escapes, entities, multi-byte characters, malformed signatures and recovery paths after a syntax error.",
  ["src/parser/tokenizer.rs", "src/parser/base.rs", "src/parser/text.rs", "src/parser/func.rs", "src/parser/matcher.rs", "src/utils/sourcefile.rs", "src/compiler/native.rs", "src/errors/sink_base.rs", "src/lib.rs"],
  [("tokenizer never slices off a char boundary", "src/parser/tokenizer.rs"), ("parser recovers after errors and AST still compiles", "src/parser/base.rs"), ("runtime errors are reported, not thrown", "src/compiler/context.rs report")])

p("C02", "Diagnostics point at the exact file, line, column and call chain",
  "Every reported error or warning names the file containing the offending source text and the 1-based line and character column where that text starts, whatever characters precede it; errors raised while functions are being called also list the call sites of all active calls, outermost first, each with the name of the function it is in. The error and warning totals and the summary line agree with the diagnostics reported, and suppressing warnings hides warnings only.",
  ["inputs", "programs"], "programs with one or more mistakes planted at generated positions, after arbitrary (multi-byte, multi-line) text, under arbitrary call chains",
  "Unit tests only look at which error variant occurs; they never look at positions, and only use ASCII single-line programs.",
  ["src/errors/sink_base.rs", "src/errors/sink.rs", "src/utils/sourcefile.rs", "src/compiler/frame.rs", "src/compiler/context.rs"],
  [("byte offset to line/column table", "src/utils/sourcefile.rs index_to_line_col"), ("stack trace walk", "src/compiler/frame.rs stack_trace"), ("severity filter and totals", "src/errors/sink_base.rs add/summary")])

p("C03", "Prose reaches the output with exactly the documented substitutions",
  "Literal text in a document, in a quoted string or in a verbatim string appears in the output with the characters the author wrote, except for the documented substitutions: backslash escapes, HTML entities, whitespace and line-break handling and, in document text only, typographic dashes, minus signs, ellipses, arrows and other symbols and smart quotes. No character is lost, duplicated or reordered, verbatim strings undergo no substitution at all, and escaped characters are never substituted again.",
  ["inputs"], "all sequences of words, punctuation, escapes, entities, quotes, whitespace, line breaks and multi-byte characters",
  "Substitution is context dependent (what precedes a quote, how many dashes, what surrounds a slash); tests check one occurrence of a few substitutions.",
  ["src/parser/tokenizer.rs", "src/parser/text.rs", "src/parser/template.rs", "src/utils/text.rs"],
  [("raw text and quote tokenisation", "src/parser/tokenizer.rs"), ("escape and entity decoding, text substitution", "src/parser/text.rs"), ("template assembly", "src/parser/template.rs")])

p("C04", "Rendered HTML is well formed and faithfully encodes its content",
  "Any string a program places in element content or in an attribute value is encoded so that an independent HTML reader of the rendered output recovers exactly that string and nothing in it can open a tag, close an attribute or start an entity (raw-text elements, `script` and `style`, excepted: their content is encoded too). Elements in the rendered output are properly nested and closed, void elements have no closing tag, and attributes appear once each with the values the program gave them.",
  ["inputs", "programs"], "all element trees over valid tag and attribute names with arbitrary Unicode strings as text and attribute values",
  "Tests compare a handful of fixed outputs; injection safety is a claim about every string and every tree.",
  ["src/compiler/render.rs", "src/utils/text.rs", "src/compiler/tag.rs", "src/utils/taginfo.rs"],
  [("entity encoding", "src/utils/text.rs encode_entities"), ("tree rendering", "src/compiler/render.rs"), ("attribute evaluation", "src/compiler/tag.rs")])

p("C05", "Each element's content obeys its content model",
  "Content is placed according to the model of the element it appears in: block containers wrap runs of inline content in paragraphs with one paragraph per blank-line separated or block-separated run, lists get their items and tables their rows and cells wrapped automatically, inline-only elements accept no block content, and text-less elements accept none. Apart from whitespace next to a block, which is dropped, content written in the source is never reordered, dropped or duplicated by wrapping, and content that a model forbids is reported as an error rather than emitted.",
  ["inputs", "programs"], "all sequences of text, line breaks, inline and block elements nested in every kind of element",
  "The rule depends on the whole sequence of siblings and the parent; tests cover isolated two- or three-node cases.",
  ["src/compiler/sequence.rs", "src/utils/taginfo.rs", "src/compiler/html.rs"],
  [("sequence builder", "src/compiler/sequence.rs SequenceBuilder"), ("content kinds per tag", "src/utils/taginfo.rs ContentKind::for_")])

p("C06", "Comments, spacing and redundant grouping never change the result",
  "Adding or removing comments, whitespace or line breaks between the tokens of code constructs, wrapping content in a redundant group, or using an optional trailing comma leaves the rendered output and the diagnostics kinds unchanged.",
  ["programs"], "all well-formed programs from the grammar and all positions where such a change is allowed",
  "Each parser production handles spacing on its own; tests write one layout for each construct.",
  ["src/parser/base.rs", "src/parser/queue.rs", "src/parser/func.rs", "src/parser/matcher.rs", "src/parser/tag.rs", "src/parser/types.rs", "src/parser/tokenizer.rs"],
  [("whitespace skipping", "src/parser/queue.rs, src/parser/base.rs"), ("comment tokens", "src/parser/tokenizer.rs")])

p("C07", "Declared types decide exactly which values are accepted, and as what",
  "A value is accepted where a type is declared exactly when it belongs to the type or has a documented conversion to it, the accepted value then has the declared type, and otherwise a type error is reported. The type reported for a value describes it (for a collection, it describes every element), and every value is accepted unchanged at its own reported type.",
  ["inputs", "programs"], "all pairs of generated values and generated types, nested to bounded depth",
  "Tests check a few value/type pairs; acceptance is a relation over two recursive structures with conversions at each level.",
  ["src/compiler/types.rs", "src/compiler/value.rs", "src/parser/types.rs"],
  [("type check", "src/compiler/types.rs check_value"), ("coercion", "src/compiler/value.rs coerce"), ("least upper bound", "src/compiler/types.rs least_upper_bound")])

p("C08", "Pattern matching picks the first matching branch and binds exactly its parts",
  "A match expression evaluates the first branch whose pattern matches the value, with every variable in that pattern bound to exactly the part of the value it stands for, and nothing bound by earlier failed branches or other branches visible; when no branch matches, the result is an error or the documented default. This holds for literal, type, list, dict, HTML tag, attribute, template, regex, alternative, conjunction and ignore patterns at any nesting, with spreads binding exactly the remaining items.",
  ["inputs", "programs"], "all generated values paired with generated pattern lists at bounded depth",
  "Tests use one pattern per kind; ordering, partial failure, nested alternatives and spreads interact.",
  ["src/compiler/matcher.rs", "src/parser/matcher.rs"],
  [("pattern binding", "src/compiler/matcher.rs bind_pattern"), ("pattern parsing", "src/parser/matcher.rs")])

p("C09", "Calls bind every argument exactly once to the right parameter, or fail",
  "A call binds positional, named, spread, content, default, optional and implicit arguments to the parameters the signature declares, each argument to exactly one parameter, and reports an error when an argument is missing, unexpected, duplicated or of the wrong type. Binding arguments in several partial steps gives the same result as passing them all at once.",
  ["programs", "histories"], "all generated signatures, argument lists and splits of the arguments into partial binding steps",
  "Tests fix a few signatures; correctness is a relation between arbitrary signatures and arbitrary argument lists.",
  ["src/compiler/signature.rs", "src/compiler/func.rs", "src/parser/func.rs", "src/compiler/value.rs"],
  [("parameter binder", "src/compiler/signature.rs ParamBinder"), ("partial binding", "src/compiler/func.rs bind_partial"), ("implicit lookup", "src/compiler/frame.rs get_implicit")])

p("C10", "Names resolve lexically; bindings never leak out of their scope",
  "A variable refers to the innermost enclosing lexical binding in effect; functions see the bindings of their definition site, not of their callers, while an omitted implicit parameter takes the innermost implicit binding of its name that is in lexical scope at the call. A binding is visible only inside the construct that introduced it, an outer binding of the same name is restored afterwards, and a name with no binding in scope is reported as an error.",
  ["programs"], "all generated programs of nested let, fn, match, closures, implicit bindings and calls",
  "Interactions of shadowing, closures captured before or after rebinding, and implicit passing are combinatorial; tests have a few two-level examples.",
  ["src/compiler/frame.rs", "src/compiler/value.rs", "src/compiler/exports.rs", "src/compiler/names.rs", "src/compiler/func.rs"],
  [("frames", "src/compiler/frame.rs"), ("let evaluation", "src/compiler/value.rs"), ("closure creation", "src/compiler/func.rs compile_func_def")])

p("C11", "List operations return exactly the elements and order they promise",
  "Each list operation (length, indexing, slicing, filtering, mapping, flattening, sorting, reversing, enumerating, searching, testing and joining) returns what its description says for every list and argument: nothing dropped, duplicated or invented, order preserved or stably sorted, and out-of-range or ill-typed arguments reported as errors. Slices of slices and lists shared between variables are never affected by other operations.",
  ["inputs", "histories"], "all lists of generated values, all indices (negative and out of range included), all chains of operations",
  "Boundary indices, empty lists, stability, repeated elements and slices of slices are not covered by the fixed examples.",
  ["src/compiler/native.rs", "src/utils/sliceref.rs", "src/compiler/native_gen.rs"],
  [("list natives", "src/compiler/native.rs LIST"), ("shared slices", "src/utils/sliceref.rs")])

p("C12", "String, number, boolean and dict operations compute what they promise",
  "Each string, integer, boolean, dict and function operation of the standard library returns what its description says for every argument, never splits a character, and integer results that do not fit the integer range are reported as errors instead of crashing or wrapping. Numeric, string, list, dict and quoted-template literals denote exactly the written value. A path of attributes and indices denotes the nested value it leads to; what follows `?::` of none is none, and a call through such a path of what is none is none, without its arguments being evaluated, where none is accepted.",
  ["inputs"], "all strings (multi-byte included), all integers including the extremes, all dicts, all delimiters and limits",
  "Tests use small ASCII strings and small numbers.",
  ["src/compiler/native.rs", "src/compiler/native_gen.rs", "src/parser/base.rs", "src/compiler/value.rs"],
  [("str/int/bool/dict natives", "src/compiler/native.rs"), ("literal parsing", "src/parser/base.rs")])

p("C13", "Regular expression operations agree with the regular expression language",
  "Compiling, testing, counting, finding, finding all, splitting and pattern matching with a regular expression give the same answer as the underlying regular expression language on every pattern and subject, with captures returned as a string, list or dict according to the groups of the expression and unmatched groups absent. Invalid expressions are reported as errors.",
  ["inputs"], "all generated regular expressions (named, numbered, optional groups, multi-byte) and subject strings",
  "Tests use one expression of each kind.",
  ["src/compiler/regex_value.rs", "src/compiler/native.rs", "src/compiler/matcher.rs"],
  [("capture conversion", "src/compiler/regex_value.rs captures_to_value"), ("regex cache", "src/compiler/regex_value.rs compile_regex")])

p("C14", "Generated identifiers are valid, bounded in length and never repeat",
  "Every identifier the unique-identifier service returns is a valid lowercase identifier, no longer than the requested maximum unless uniqueness cannot be had otherwise, and within one compilation no two requests ever return the same identifier, whatever the requested bases, lengths and order; explicitly requested identifiers keep the requested text when that is possible.",
  ["histories", "inputs"], "all sequences of requests with arbitrary (colliding, truncated, multi-byte, digit-suffixed) bases",
  "Uniqueness is a property of histories: collisions arise when a suffixed or truncated name meets a literal one.",
  ["src/utils/text.rs", "src/compiler/native.rs"],
  [("id generator", "src/utils/text.rs UniqueIDGenerator::get_unique_id"), ("identifier sanitising", "src/utils/text.rs make_identifier")],
  [("ids_used", "identifiers already handed out", "src/utils/text.rs UniqueIDGenerator")],
  ["utils::text::UniqueIDGenerator", "@unique_id in compile_str"])

p("C15", "Syntax highlighting never alters the displayed code",
  "The visible text of a highlighted inline code span or code block, with markup removed, equals the source code given, after the documented removal of common indentation and surrounding blank lines, in every language and for unknown languages. Line numbers are consecutive from the requested first number with exactly one per line.",
  ["inputs"], "all code texts over all supported language names and unknown names, including multi-byte and malformed code",
  "Tests check two short snippets; highlighting must preserve every text.",
  ["src/compiler/highlight.rs", "src/compiler/highlight_papyri.rs", "src/utils/text.rs", "src/compiler/native.rs"],
  [("syntax highlighter", "src/compiler/highlight.rs"), ("indentation fixing", "src/utils/text.rs fix_indentation"), ("line enumeration", "src/compiler/highlight.rs enumerate_lines")])

p("C16", "Compilation is deterministic and independent of earlier compilations",
  "Compiling the same source always gives the same output and diagnostics, and compiling a file in a context that has already compiled other files and was reset gives exactly what a fresh context would give. No variable, identifier, output file, diagnostic or module state of an earlier compilation is observable later.",
  ["histories", "programs"], "all sequences of generated source files (failing ones, module importers and file writers included) compiled in one context, in any order",
  "Tests always use a fresh context for a single compilation.",
  ["src/compiler/context.rs", "src/compiler/module_loader.rs", "src/utils/text.rs", "src/utils/string_pool.rs", "src/bin/papyri.rs"],
  [("context reset", "src/compiler/context.rs reset"), ("module cache", "src/compiler/module_loader.rs load_cached")],
  [("module_cache", "loaded, busy and failed modules", "src/compiler/module_loader.rs ModuleCache"), ("unique_ids", "ids handed out", "src/compiler/context.rs Context")])

p("C17", "Imports deliver exactly a module's exports; cycles and failures are reported",
  "Importing a module gives a dict of exactly the names it exports with their values, including a module's output, evaluated once however many times and through however many paths it is imported; relative paths are resolved from the importing file. A missing, cyclic or erroneous import is reported as an error and never hangs, crashes or yields partial results as success.",
  ["programs", "configurations"], "all generated module graphs (diamonds, chains, cycles, self imports, missing and broken modules) in generated directory layouts",
  "Tests never touch the file system: module loading is not tested at all.",
  ["src/compiler/module_loader.rs", "src/compiler/native.rs", "src/compiler/exports.rs", "src/compiler/context.rs"],
  [("module cache states", "src/compiler/module_loader.rs load_cached"), ("exports", "src/compiler/exports.rs")],
  [("ModuleState", "NotLoaded/Busy/Loaded/Error", "src/compiler/module_loader.rs")])

p("C18", "Programs can only write output files below the output directory",
  "A program that writes output files can only ever produce files strictly inside the configured output directory: every path that stays inside it is accepted and written there with the given content, and every absolute or parent-relative path that leaves it is reported as an error and nothing is written for it. Writing is refused when no output directory is configured and inside imported modules.",
  ["inputs", "configurations"], "all output directory spellings and all path strings with dots, parents, absolute and repeated separators",
  "Containment is a security property over all paths; tests never write files.",
  ["src/utils/outfiles.rs", "src/utils/relpath.rs", "src/compiler/context.rs", "src/compiler/native.rs"],
  [("path containment", "src/utils/outfiles.rs try_push"), ("normalisation", "normalize-path crate")],
  None, ["utils::OutFiles", "@file::write", "papyri --out"])

p("C19", "The command line writes all outputs of a good file and none of a bad one",
  "For each source file given, the command writes its complete output to the mapped output path if it compiled without errors, and writes nothing at all for a file with errors, leaving existing outputs untouched; library files are never compiled on their own and files that are up to date are skipped when asked. The exit status is zero exactly when no file failed, one file's failure does not affect another's output, sources are compiled in the order of their paths whatever the order of the arguments, and reading from standard input prints exactly what the string API returns, or reports the same diagnostics. The closing line counts the files written and the sources that were good, failed or skipped, and in silent mode only failures and diagnostics are printed.",
  ["configurations", "fault_sequences", "histories"], "all generated project trees with good, failing, warning, empty, library, unchanged and file-writing sources and all option combinations",
  "There are no tests of the command at all.",
  ["src/bin/papyri.rs", "src/utils/relpath.rs", "src/utils/outfiles.rs", "src/utils/sourcefile.rs"],
  [("per-file processing", "src/bin/papyri.rs process_source_file"), ("output path mapping", "src/bin/papyri.rs get_out_path")],
  None, ["papyri executable: files, exit status, stdout"])

p("C20", "Source discovery finds exactly the source files, in a stable order",
  "Searching a directory, from the command line or from within a program, yields exactly the regular source files below it, recursively, each once, with paths relative to the searched directory and in sorted order, whatever other files, directories, name cases or nesting exist; the program-level listing names each file by the directory as given followed by the file's relative path without extension, and never fails because of a file's name. Links and directories are not regular files.",
  ["configurations", "inputs"], "all generated directory trees with files and directories of confusing names",
  "No test reads a directory.",
  ["src/utils/relpath.rs", "src/utils/sourcefile.rs", "src/compiler/native.rs", "src/bin/papyri.rs"],
  [("directory walk", "src/utils/relpath.rs find_papyri_source_files_in_dir"), ("name test", "src/utils/sourcefile.rs is_papyri_file")],
  None, ["utils::relpath", "@file::list", "papyri DIR"])

p("C21", "Raw HTML is parsed to the tree a browser would build, and round-trips",
  "A raw HTML document which a program parses becomes the element tree that a conforming HTML parser builds for it (html, head and body included, when implied also), with the same elements, attributes, text and order, and without comments and the document type; names are in lowercase, and a hyphen in an attribute's name is an underscore, as in tags. Text with parse errors other than repeated attributes is reported as an error, and no input crashes the parser. Parsing the rendered form of such a value, after a document type, gives an equal value, except for raw-text elements (such as script and style), whose rendered content is encoded, and line breaks at the start of preformatted text.",
  ["inputs"], "all generated HTML documents, well formed in all the ways HTML can be written, and malformed",
  "Tests parse two fixed fragments.",
  ["src/compiler/html_parse.rs", "src/compiler/render.rs"],
  [("DOM conversion", "src/compiler/html_parse.rs node_to_html")])

p("C22", "Markup and attribute helpers change exactly the attribute or tag they name",
  "The standard library's attribute, class and style helpers return the same element with only the named attributes added (class and style values are appended to existing ones; `attributes` naming an attribute already present is an error), and its markup, link, image, list, footnote and page helpers wrap their content in exactly the documented element with all content preserved; values that are not of the required kind are reported as errors.",
  ["inputs", "programs"], "all generated elements, attribute sets and contents, with helpers stacked in any order",
  "Tests apply each helper to one element at most.",
  ["src/std.papyri", "src/compiler/matcher.rs", "src/compiler/tag.rs"],
  [("stdlib definitions", "src/std.papyri"), ("attribute spread and override order", "src/compiler/tag.rs")])

p("C23", "Text mode renders exactly the visible text",
  "Rendering a document as plain text yields the document's text in order without tags, attributes or entity encoding, with line breaks for the elements and blocks the renderer documents, and differs from the HTML rendering in nothing else.",
  ["programs", "inputs"], "all generated documents",
  "No test uses text mode.",
  ["src/compiler/render.rs", "src/bin/papyri.rs"],
  [("text rendering", "src/compiler/render.rs")],
  None, ["compiler::Context::render", "papyri --text"])

p("C24", "Content values compare and decompose by structure, not by how they were built",
  "Two content values are equal exactly when they represent the same sequence of text and elements, however the pieces were grouped or concatenated; splitting a value into its nodes and joining the nodes again gives an equal value, adjacent text is merged, and the type of a value, and whether it is empty or blank, depends only on its content.",
  ["inputs", "programs"], "all generated content values and all ways of grouping their pieces",
  "Normalisation happens at many construction sites; tests compare few values built in one way.",
  ["src/compiler/html.rs", "src/compiler/value_convert.rs", "src/compiler/native.rs"],
  [("sequence builder", "src/compiler/html.rs HTMLSeqBuilder"), ("value conversion", "src/compiler/value_convert.rs")])

p("C25", "The string API reads and writes no files and no network",
  "Compiling a source string through the library's string API never reads, lists or writes any file and never makes a network request, whatever the program does: every such attempt is reported as an error and produces no other effect.",
  ["inputs", "programs"], "all programs that try file, module and network operations by any route, with any path or address",
  "No test tries a file or network operation through the string API; the guarantee is about every operation and every path.",
  ["src/lib.rs", "src/compiler/context.rs", "src/compiler/native.rs", "src/compiler/module_loader.rs"],
  [("string API configuration", "src/lib.rs compile_str"), ("file and network natives", "src/compiler/native.rs FILE, NET, import, include")])

p("C26", "Highlighting marks tokens by kind, pairs brackets and links addresses",
  "In highlighted Papyri code every character that is not whitespace is marked with the class of the token it belongs to: comments, verbatim strings, numbers, boolean literals, escapes and entities (as literals), variables, function names, keywords, the name a function definition introduces, a tag's name, operators and brackets; all other text has no markup. In every language, opening and closing brackets are paired by nesting, also across lines: the two brackets of a pair have the same number, two pairs never do, and a closing bracket which does not match the innermost open one has the class of an unmatched one and no number. In other languages, comments, strings, numbers, literals, keywords and defined names have the classes of their kinds. An address starting with http:// or https:// in a comment or string is a link to exactly that address. Code in no language or an unknown one has no markup, and an unknown language gives a warning.",
  ["inputs"], "all sequences of tokens, nestings of brackets, layouts over lines, and addresses in comments and strings",
  "One test shows one snippet of Papyri code; the classes, pairs and links must be right for every sequence of tokens and layout.",
  ["src/compiler/highlight.rs", "src/compiler/highlight_papyri.rs", "src/parser/tokenizer.rs"],
  [("token classes", "src/compiler/highlight_papyri.rs syntax_highlight_papyri; highlight.rs token_kind, make_token"), ("bracket pairs", "src/compiler/highlight.rs LineHighlighter::push"), ("links", "src/compiler/highlight.rs push_with_possible_urls")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for e in P: f.write(json.dumps(e, ensure_ascii=False) + "\n")
