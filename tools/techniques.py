TECH = {
 "C01": "raw, token-soup and mutated sources against a no-crash and API-consistency invariant",
 "C02": "generated programs in several files with planted mistakes and call chains against a model of what is reported and where; any source, moved by comments",
 "C03": "generated prose, quoted and verbatim text against an independent reader of the documented substitutions",
 "C04": "generated strings, attributes and element trees against a hand-written HTML reader and html5ever as a second one",
 "C05": "generated content in every kind of element against an executable model of the content models",
 "C06": "metamorphic: generated token sequences in the plain layout and in random layouts",
 "C11": "generated programs of list operations on shared lists against a model on vectors",
 "C12": "generated programs of string, number, boolean, dict and function operations and literals against an independent model of each",
 "C13": "generated expressions and subjects against a backtracking model and, for arbitrary expressions, the regex library called directly",
 "C14": "generated histories of identifier requests against an independent statement of validity, length and uniqueness",
 "C15": "generated code in every language, inline and in blocks, against an independent reading of the displayed text and line numbers",
 "C16": "generated histories of compilations in one context, with files and modules, against a fresh context for each",
 "C17": "generated module graphs on disk, with cycles and failures, against an executable model of loading",
 "C18": "generated paths and output directories against an independent resolution of paths, through the library and the command",
 "C19": "generated source trees, options and earlier outputs against a model of what the command writes",
 "C20": "generated directory trees against the list of what was made",
 "C23": "generated documents against a model of the text rendering and of the HTML rendering's text",
 "C24": "content values built in two generated ways, and changed, against a model on normalised node sequences",
 "C25": "generated programs with file, module and network operations by every route, against the files on disk and the diagnostics",
 "C21": "generated documents, written in generated ways, against their trees, and generated malformed text against a conforming parser",
 "C22": "generated stacks of helpers on generated elements, and generated pages, against a model of each helper",
 "C26": "generated sequences of tokens with their classes, in Papyri and in other languages, against an independent pairing of brackets and reading of addresses",
 "C07": "generated values and declared types in every place a type can be declared, against an executable model of types and conversions",
 "C08": "generated values and patterns, mostly derived from the value, against a reference matcher",
 "C09": "generated signatures, argument lists, splits into partial steps and implicit scopes, against a reference binder",
 "C10": "generated programs with heavy shadowing, closures, implicit parameters and patterns, against a reference interpreter",
}
