//! C15: syntax highlighting never alters the displayed code.
use crate::engine::*;
use crate::lang::*;

/// The code as it should be displayed: the lines without common indentation
/// and surrounding blank lines.
fn displayed(src: &str) -> Vec<String> {
    let blank = |l: &str| l.chars().all(|c| c.is_whitespace());
    let mut lines: Vec<&str> = src.split('\n').collect();
    while lines.last().map_or(false, |l| blank(l)) { lines.pop(); }
    let k = lines.iter().position(|l| !blank(l)).unwrap_or(lines.len());
    let lines = &lines[k..];
    let Some(first) = lines.first() else { return vec![]; };
    let indent: String = first.chars().take_while(|c| c.is_whitespace()).collect();
    let n = lines.len();
    lines.iter().enumerate().map(|(i, l)| {
        // a line which is indented otherwise loses all of its indentation
        let l = if let Some(r) = l.strip_prefix(&indent) { r } else { l.trim_start() };
        let l = l.strip_suffix('\r').unwrap_or(l);
        if i == n - 1 { l.trim_end().to_string() } else { l.to_string() }
    }).collect()
}

const PIECES: &[&str] = &[
    "a", "foo", "x1", " ", "  ", "\t", "(", ")", "[", "]", "{", "}", "\"", "'", "\"s\"", "'c'", "/* c */", "// c", "# c", "<!-- c -->", "--", "->", "=", "==", ";", ",", ".", "::", "0", "12", "1.5", "0x1F",
    "fn", "let", "if", "def", "class", "@fn", "@let", "@match", "$x", "@foo", "<b>", "</b>", "</>", "<", ">", "&", "&amp;", "&lt;", "\\n", "\\", "https://a.b/c?d=1", "http://x", "https://é", "\"https://q.r\"", "// see https://z.y, ok", "é", "漢", "😀", "\u{301}", "\u{a0}", "$", "%", "!", "?", "True", "None", "null",
    "@Override", "#[derive(X)]", "#include <x>", "/*", "*/", "\"\"\"", "r#\"", "|", "_", "~", "^", "\u{0}", "\u{2028}", "…", "“", "-1", "1e9", "trait A {}", "def f(x: int) -> str:", "var y = 'z';", "SELECT * FROM t",
];
const LANGS: &[&str] = &["none", "papyri", "rust", "python", "js", "html", "java", "c", "cpp", "json", "xml", "css", "sh", "bash", "sql", "yaml", "markdown", "md", "go", "ruby", "php", "haskell", "lua", "tex", "diff", "makefile", "nosuchlang", "Rust", "clojure", "perl", "scala", "r"];

fn code(s: &mut Src, lines: usize, backtick: bool) -> String {
    let indent = s.pick(&["", "", "  ", "\t", "    ", "\u{a0}", "\u{2003} "]).to_string();
    let eol = if s.chance(1, 12) { "\r\n" } else { "\n" };
    let ls = s.vec(1, lines, |s| {
        match s.weighted(&[8, 1, 1]) {
            0 => {
                let extra = s.pick(&["", "", "  ", " ", "\t"]);
                let body = s.vec(0, 8, |s| if backtick && s.chance(1, 12) { "`" } else { s.pick(PIECES) }).concat();
                format!("{}{extra}{body}", if s.chance(1, 10) { "" } else { &indent })
            },
            1 => String::new(),
            _ => s.pick(&[" ", "\t", "      "]).to_string(),
        }
    });
    let mut o = ls.join(eol);
    if s.chance(1, 3) { o = format!("{}{o}", s.pick(&["\n", "\n\n", " \n"])); }
    if s.chance(1, 3) { o += s.pick(&["\n", "\n  ", "\n\n", "  "]); }
    o
}

fn find<'a>(ns: &'a [Node], name: &str) -> Option<&'a Node> {
    for n in ns {
        if let Node::El(m, _, c) = n { if m == name { return Some(n); } if let Some(r) = find(c, name) { return Some(r); } }
    }
    None
}
fn attr<'a>(n: &'a Node, k: &str) -> Option<&'a str> {
    match n { Node::El(_, a, _) => a.iter().find(|x| x.0 == k).and_then(|x| x.1.as_deref()), _ => None }
}
/// Links, which must be to what they say.
fn links(ns: &[Node]) -> CaseResult {
    for n in ns {
        if let Node::El(name, _, c) = n {
            if name == "a" && attr(n, "href") != Some(&text_of(c)) { return Err(format!("the link {n:?} is not to its text")); }
            links(c)?;
        }
    }
    Ok(())
}
fn same(a: &str, b: &str) -> bool { a == b }

fn check_warnings(o: &Out, lang: &str, extra: &[&str]) -> CaseResult {
    if o.errors > 0 { return Err(format!("errors: {}", o.printed)); }
    for m in o.msgs() {
        let lang_ok = !matches!(lang, "none" | "papyri") && m.contains("language");
        if !lang_ok && !extra.iter().any(|x| m.contains(x)) { return Err(format!("unexpected warning {m:?} for language {lang}")); }
    }
    Ok(())
}

fn block(s: &mut Src) -> CaseResult {
    let mut src = code(s, 6, false);
    let mut lang = s.pick(LANGS).to_string();
    let mut expected = displayed(&src);
    // the language may be named in the first line
    let hint = s.chance(1, 3);
    let start = match s.us(4) { 0 => Some(s.range(-5, 3000)), 1 => Some(s.range(0, 1)), _ => None };
    let first = start.unwrap_or(1);
    let lang_arg = lang.clone();
    if hint {
        lang = s.pick(LANGS).to_string();
        src = format!("{lang}{}\n{src}", s.pick(&["", " ", "", "\t", "\r", " \t ", "\u{c}", "\u{a0}", "\u{2003} "]));
    } else {
        let l = src.split('\n').next().unwrap().trim_end();
        let ident = l.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') && l.chars().all(|c| c.is_ascii_alphanumeric() || c == '_');
        if ident && src.contains('\n') { lang = l.to_string(); expected = displayed(&src[src.find('\n').unwrap() + 1..]); }
    }
    let mut args = vec![];
    if let Some(n) = start { args.push(format!("first_line_no={n}")); }
    let lit = str_lit(&src);
    let arg_list = |args: &[String]| if args.is_empty() { String::new() } else { format!("({})", args.join(", ")) };
    let prog = match s.us(5) {
        0 => { args.push(format!("language=`{lang_arg}`")); format!("@code_block{} {lit}", arg_list(&args)) },
        1 => { args.push(format!("language=`{lang_arg}`")); args.push("code_block=True".into()); format!("@code{} {lit}", arg_list(&args)) },
        2 => format!("@implicit(language=`{lang_arg}`) @code_block{} {lit}", arg_list(&args)),
        k => {
            if src.is_empty() || src.contains("```") || src.starts_with('`') || src.ends_with('`') || start.is_some() { return Ok(()); }
            if k == 3 { format!("@implicit(language=`{lang_arg}`) {{```{src}```}}") } else { if !hint && lang == lang_arg { lang = "none".into(); } format!("```{src}```") }
        },
    };
    s.note("program", prog.clone());
    s.tick();
    let o = compile(&prog)?;
    check_warnings(&o, &lang, &[])?;
    let nodes = read_html(&o.html)?;
    let Some(Node::El(_, _, kids)) = find(&nodes, "code") else { return Err(format!("no code in {}", o.html)); };
    links(kids)?;
    let mut got = vec![];
    let mut no = first;
    for (i, k) in kids.iter().enumerate() {
        match k {
            Node::El(n, _, c) if n == "span" && attr(k, "class") == Some("line") && i % 2 == 0 => {
                if attr(k, "data-line-no") != Some(&no.to_string()) { return Err(format!("line number {:?}, expected {no}: {}", attr(k, "data-line-no"), o.html)); }
                no += 1;
                got.push(text_of(c));
            },
            Node::Text(t) if t == "\n" && i % 2 == 1 => {},
            k => return Err(format!("unexpected {k:?} among the lines of {}", o.html)),
        }
    }
    if expected.is_empty() && got.iter().all(|l| l.is_empty()) && got.len() <= 1 { return Ok(()); }
    if expected.len() != got.len() || !expected.iter().zip(&got).all(|(a, b)| same(a, b)) { return Err(format!("the displayed lines are\n{got:?}, expected\n{expected:?}")); }
    if expected.iter().any(|l| l.len() >= 4) && expected.len() >= 2 { s.nontrivial(); }
    // and without markup
    let plain: String = o.text.lines().collect::<Vec<_>>().join("\n");
    let want: String = expected.join("\n");
    if !plain.replace('\r', "").starts_with(&want.lines().collect::<Vec<_>>().join("\n").replace('\r', "")) { return Err(format!("the text output is {:?}, expected {want:?}", o.text)); }
    Ok(())
}

fn inline(s: &mut Src) -> CaseResult {
    let lines = if s.chance(1, 5) { 3 } else { 1 };
    let src = code(s, lines, false);
    let src = if lines == 1 { src.replace('\n', "") } else { src };
    let lang = s.pick(LANGS).to_string();
    let expected = displayed(&src);
    let lit = str_lit(&src);
    let (prog, lang) = match s.us(4) {
        0 => (format!("@code(language=`{lang}`) {lit}"), lang),
        1 => (format!("@implicit(language=`{lang}`) @code {lit}"), lang),
        2 => (format!("@code {lit}"), "none".to_string()),
        _ => {
            if src.contains(&['`', '\n', '\r'][..]) || src.trim().is_empty() { return Ok(()); }
            let q = if s.coin() { "`" } else { "``" };
            let k = s.coin();
            (if k { format!("@implicit(language=`{lang}`) {{{q}{src}{q}}}") } else { format!("{q}{src}{q}") }, if k { lang } else { "none".to_string() })
        },
    };
    s.note("program", prog.clone());
    s.tick();
    let o = compile(&prog)?;
    check_warnings(&o, &lang, if expected.len() > 1 { &["multiple lines"] } else { &[] })?;
    if expected.len() > 1 && !o.printed.contains("multiple lines") { return Err(format!("no warning about the lines: {}", o.printed)); }
    let nodes = read_html(&o.html)?;
    let Some(n @ Node::El(_, _, kids)) = find(&nodes, "code") else { return Err(format!("no code in {}", o.html)); };
    links(kids)?;
    let want: String = expected.concat();
    let got = text_of(kids);
    if !same(&want, &got) { return Err(format!("the displayed code is {got:?}, expected {want:?}: {}", o.html)); }
    if !matches!(lang.as_str(), "none") && o.warnings == 0 && attr(n, "class").map_or(true, |c| !c.contains(&lang)) { return Err(format!("the code is not of class {lang}: {}", o.html)); }
    if want.len() >= 4 { s.nontrivial(); }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        subs: vec![
            Sub {name: "blocks", quick: 60_000, thorough: 2_000_000, run: block},
            Sub {name: "inline", quick: 60_000, thorough: 2_000_000, run: inline},
        ],
        fixed: vec![],
        rule: "blocks of at least two lines, inline code of at least four characters",
        assumptions: &["a carriage return before a line break is not displayed text", "empty code may be shown as no line or as one empty line", "inline code of several lines is shown as one, with a warning"],
    }
}
