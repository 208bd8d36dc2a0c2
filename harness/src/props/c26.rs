//! C26: highlighted code marks each token by its kind, and pairs brackets.
use crate::engine::*;
use crate::lang::*;

/// The class of a character of the code; `*` is any.
type Cls = &'static str;
const ANY: Cls = "*";
/// Brackets, which are given their classes and numbers afterwards.
const B: Cls = "bracket";
const PLAIN: Cls = "";

/// Pieces of code with their classes; an address in a comment or string is a link.
struct Code { parts: Vec<(String, Cls)> }
impl Code {
    fn add(&mut self, t: &str, c: Cls) { self.parts.push((t.to_string(), c)); }
    fn text(&self) -> String { self.parts.iter().map(|p| p.0.as_str()).collect() }
    /// The class and bracket number of each character which is not whitespace.
    fn marks(&self) -> Vec<(char, String, u32)> {
        let mut v = vec![];
        let mut open: Vec<(char, u32)> = vec![];
        let mut n = 0;
        for (t, c) in &self.parts {
            let mut t: &str = t;
            while let Some(ch) = t.chars().next() {
                let rest = &t[ch.len_utf8()..];
                if *c == B && !ch.is_whitespace() {
                    let (k, no) = match ch {
                        '(' | '[' | '{' => { n += 1; open.push((match ch { '(' => ')', '[' => ']', _ => '}' }, n)); ("lparen", n) },
                        _ => if open.last().map_or(false, |o| o.0 == ch) { ("rparen", open.pop().unwrap().1) } else { ("unmatched-paren", 0) },
                    };
                    v.push((ch, k.to_string(), no));
                } else if matches!(*c, "comment" | "string") && (t.starts_with("https://") || t.starts_with("http://")) {
                    let start = t.find("//").unwrap() + 2;
                    let stop = |c: char| c.is_whitespace() || matches!(c, '\'' | '"' | '`');
                    let len = start + t[start..].find(stop).unwrap_or(t.len() - start);
                    if len > start {
                        let k = if *c == "comment" { "a comment" } else { "a" };
                        for u in t[..len].chars() { v.push((u, k.to_string(), 0)); }
                        t = &t[len..];
                        continue;
                    }
                    v.push((ch, c.to_string(), 0));
                } else if !ch.is_whitespace() { v.push((ch, c.to_string(), 0)); }
                t = rest;
            }
        }
        v
    }
}

fn attr<'a>(a: &'a [(String, Option<String>)], k: &str) -> Option<&'a str> { a.iter().find(|x| x.0 == k).and_then(|x| x.1.as_deref()) }

/// What the output says.
fn read(ns: &[Node], out: &mut Vec<(char, String, u32)>) -> CaseResult {
    for n in ns {
        match n {
            Node::Text(t) => for c in t.chars() { if !c.is_whitespace() { out.push((c, PLAIN.to_string(), 0)); } },
            Node::El(name, a, kids) => {
                let class = attr(a, "class");
                if name == "span" && class == Some("line") { read(kids, out)?; continue; }
                let t = text_of(kids);
                if kids.iter().any(|k| matches!(k, Node::El(..))) { return Err(format!("a token with elements in it: {n:?}")); }
                let (k, no) = match name.as_str() {
                    "a" => {
                        if attr(a, "href") != Some(&t) || t.contains(char::is_whitespace) || a.iter().any(|x| !matches!(&*x.0, "href" | "class")) { return Err(format!("not a link to an address: {n:?}")); }
                        (match class { None => "a".to_string(), Some(c) => format!("a {c}") }, 0)
                    },
                    "span" => {
                        let no = match attr(a, "data-paren-no") { None => 0, Some(x) => x.parse::<u32>().ok().filter(|x| *x > 0).ok_or_else(|| format!("a bracket number is {x:?}"))? };
                        if a.iter().any(|x| !matches!(&*x.0, "data-paren-no" | "class")) { return Err(format!("the attributes are {a:?}")); }
                        (class.unwrap_or("no class").to_string(), no)
                    },
                    _ => return Err(format!("unexpected {n:?}")),
                };
                for c in t.chars() { if !c.is_whitespace() { out.push((c, k.clone(), no)); } }
            },
        }
    }
    Ok(())
}

fn find<'a>(ns: &'a [Node]) -> Option<&'a [Node]> {
    for n in ns { if let Node::El(m, _, c) = n { if m == "code" { return Some(c); } if let Some(r) = find(c) { return Some(r); } } }
    None
}

fn check(s: &mut Src, lang: &str, code: &Code, warned: bool) -> CaseResult {
    let src = code.text();
    let lit = str_lit(&src);
    let block = src.contains('\n') || s.coin();
    let prog = match s.us(3) {
        0 if block => format!("@code_block(language=`{lang}`) {lit}"),
        0 => format!("@implicit(language=`{lang}`) @code {lit}"),
        1 => format!("@code(language=`{lang}`{}) {lit}", if block { ", code_block=True" } else { "" }),
        _ if block => format!("@implicit(language=`{lang}`) @code_block(first_line_no=7) {lit}"),
        _ => format!("@code(language=`{lang}`, code_block=False) {lit}"),
    };
    s.note("code", src.clone());
    s.note("program", prog.clone());
    s.tick();
    let o = compile(&prog)?;
    if o.errors > 0 || o.warnings != warned as u32 || warned && !o.printed.contains(&format!("no syntax highlighter found for language \"{lang}\"")) { return Err(format!("reported:\n{}", o.printed)); }
    let nodes = read_html(&o.html)?;
    let Some(kids) = find(&nodes) else { return Err(format!("no code in {}", o.html)); };
    let mut got = vec![];
    read(kids, &mut got).map_err(|e| format!("{e}\n{}", o.html))?;
    let want = code.marks();
    // pairs of brackets have numbers of their own, whichever
    let mut nos: Vec<(u32, u32)> = vec![(0, 0)];
    for (i, w) in want.iter().enumerate() {
        let Some(g) = got.get(i) else { return Err(format!("the code ends after {i} characters\n{}", o.html)); };
        if g.0 != w.0 { return Err(format!("character {i} is {:?}, expected {:?}\n{}", g.0, w.0, o.html)); }
        let class_ok = w.1 == ANY || g.1 == w.1;
        let num_ok = w.1 == ANY || match nos.iter().find(|n| n.0 == w.2 || n.1 == g.2) { Some(n) => *n == (w.2, g.2), None => { nos.push((w.2, g.2)); true } };
        if !class_ok || !num_ok {
            let near: String = want[i.saturating_sub(12)..want.len().min(i + 12)].iter().map(|x| x.0).collect();
            return Err(format!("{:?} (near {near:?}) is of class {:?} with number {}, expected {:?} with number {}\n{}", w.0, g.1, g.2, w.1, w.2, o.html));
        }
    }
    if got.len() > want.len() { return Err(format!("the code goes on after {} characters\n{}", want.len(), o.html)); }
    Ok(())
}

fn words(s: &mut Src, c: &mut Code, class: Cls, pre: &str, post: &str) {
    let mut t = pre.to_string();
    for i in 0..s.us(4) {
        if i > 0 { t.push(' '); }
        t += s.pick(&["a", "foo", "(", "x]", "12", "é", "日本", "https://a.b/c?d=1&e", "http://x", "see https://é.f/(g),", "http://", "https:/x", "True", "fn", "😀", "=", "#h", "xhttp://y.z", "ftp://q"]);
    }
    // in a string, a bracket alone may be taken for one of an interpolation
    if t == "(" { t += "b"; }
    t += post;
    c.add(&t, class);
}

const IDENTS: &[&str] = &["foo", "bar_1", "x", "yy", "qux", "abc9"];

/// Code in Papyri itself.
fn papyri(s: &mut Src) -> CaseResult {
    let mut c = Code {parts: vec![]};
    let oneline = s.chance(1, 4);
    c.add("1", "number");
    let mut depth: Vec<char> = vec![];
    for _ in 0..1 + s.us(14) {
        let sep = if oneline { " " } else { s.pick(&[" ", " ", "\n", "  ", "\n\n", "\n  "]) };
        c.add(sep, PLAIN);
        match s.weighted(&[10, 3, 2, 3, 3, 3, 3, 4, 3, 5, 2, 4]) {
            0 => for _ in 0..1 + s.us(3) {
                // brackets, mostly in pairs
                let b = match s.us(5) { 0 | 1 => { let b = *s.pick(&['(', '[', '{']); depth.push(match b { '(' => ')', '[' => ']', _ => '}' }); b }, 2 | 3 if !depth.is_empty() => depth.pop().unwrap(), _ => *s.pick(&[')', ']', '}']) };
                c.add(&b.to_string(), B);
                if s.chance(1, 3) { let (t, k) = *s.pick(&[("$x", "name"), ("word", PLAIN), ("=", "op"), ("5", "number"), ("`s`", "string"), ("@f", "decorator")]); c.add(t, k); }
            },
            1 => { c.add("@fn", "keyword"); c.add(s.pick(&[" ", "  ", "\n"]), PLAIN); if s.chance(1, 4) { c.add("<!-- c -->", "comment"); c.add(s.pick(&["", " "]), PLAIN); } c.add(s.pick(IDENTS), "name-def"); if s.coin() { c.add("(", B); c.add("$x", "name"); c.add(",", "op"); c.add(" ", PLAIN); c.add("$y", "name"); c.add(")", B); } },
            2 => {
                // a function without a name, then a keyword, and a name it does not define
                if s.chance(1, 4) { c.add("@fn", "keyword"); c.add(" ", PLAIN); c.add("$x", "name"); c.add(" ", PLAIN); c.add("->", "op"); c.add(" ", PLAIN); }
                c.add(s.pick(&["@let", "@match", "@implicit", "@export"]), "keyword");
                if s.coin() { c.add(" ", PLAIN); c.add(s.pick(IDENTS), PLAIN); }
            },
            3 => { c.add(&format!("@{}", s.pick(&["foo", "f", "fnx", "lets", "_x", "matched"])), "decorator"); if s.chance(1, 3) { c.add("::", "op"); c.add(s.pick(IDENTS), PLAIN); } },
            4 => { c.add(&format!("${}", s.pick(IDENTS)), "name"); if s.chance(1, 3) { c.add(s.pick(&["::", "?::"]), "op"); c.add(s.pick(IDENTS), PLAIN); } },
            5 => c.add(s.pick(&["0", "12", "-5", "-0", "99999999999999999999"]), "number"),
            6 => c.add(s.pick(&["True", "False", "\\n", "\\$", "\\\\", "\\x41", "\\u00e9", "\\U0001f600", "&amp;", "&#65;", "&eacute;", "\\é"]), "keyword-literal"),
            7 => match s.us(3) {
                0 => { let q = s.pick(&["`", "``", "```"]); let mut t = Code {parts: vec![]}; words(s, &mut t, "string", "", ""); let body = format!("{}.", t.text()); c.add(&format!("{q}{body}{q}"), "string"); },
                1 if !oneline => c.add(&format!("```\n{}\n```", s.pick(&["a (b", "fn x\n\n{ y", "http://u.v w", "é`é"])), "string"),
                2 if s.coin() => { let mut t = Code {parts: vec![]}; words(s, &mut t, "string", "", ""); c.add(&format!("`{}.`", t.text().replace(' ', s.pick(&["' ", "\"", "'x", " \""]))), "string") },
                _ => c.add("`a`", "string"),
            },
            8 => match s.us(3) {
                0 if !oneline => { words(s, &mut c, "comment", "# ", "\n"); },
                1 if !oneline => words(s, &mut c, "comment", "<!-- a\n", "\nb -->"),
                _ => words(s, &mut c, "comment", "<!-- ", " -->"),
            },
            9 => c.add(s.pick(&["->", "=", "|", ",", "!", "*", "**", ":", "::", "?", ".", "...", "_", "'", "\"", "&"]), "op"),
            10 if s.chance(1, 4) => {
                // a name after `<!` is not that of a tag
                c.add("<", "op"); c.add("!", "op");
                if s.coin() { c.add(" ", PLAIN); }
                c.add(s.pick(IDENTS), PLAIN);
                if s.coin() { c.add(" ", PLAIN); c.add(s.pick(IDENTS), PLAIN); }
                c.add(">", "op");
            },
            10 if s.chance(1, 6) => {
                // nor is one after a comment or a space
                c.add("<", "op");
                if s.coin() { c.add("<!-- c -->", "comment"); c.add(s.pick(&["", " "]), PLAIN); } else { c.add(" ", PLAIN); }
                c.add(s.pick(IDENTS), PLAIN);
                c.add(">", "op");
            },
            10 => {
                c.add("<", "op");
                if s.chance(3, 4) { c.add(s.pick(&["b", "div", "x1"]), "name"); if s.coin() { c.add(" ", PLAIN); c.add("id", PLAIN); c.add("=", "op"); c.add("`x`", "string"); } c.add(s.pick(&[">", "/>"]), "op"); if s.coin() { c.add("text", PLAIN); c.add(s.pick(&["</b>", "</>"]), "op"); } }
            },
            _ => c.add(s.pick(&["hello", "é", "日本", "😀", "~%;", "+", "^", "-", "/", "fn", "let", "a1", "Truely", "x_y"]), PLAIN),
        }
    }
    if c.parts.iter().filter(|p| p.1 == B).count() > 1 { s.nontrivial(); }
    check(s, "papyri", &c, false)
}

/// Lines of other languages: `class=text` segments between `¦`, and places for
/// an identifier, a number, or the text of a string or comment.
const LINES: &[(&str, &[&str])] = &[
    ("rust", &["keyword=fn¦= ¦name-def=ID¦bracket=()¦= ¦bracket={¦= ¦bracket=}", "keyword=let¦*= ID ¦op==¦= ¦number=NUM¦*=;", "keyword=let¦*= ID ¦op==¦= ¦keyword-literal=true¦*=;", "keyword=let¦*= ID ¦op==¦= ¦string=\"TEXT\"¦*=;", "comment=// TEXT", "comment=/* TEXT */", "keyword=pub¦= ¦keyword=struct¦= ¦name-def=Foo¦*=;", "keyword=return¦= ¦bracket=(¦number=NUM¦bracket=)¦*=;", "decorator=#¦bracket=[¦decorator=derive¦bracket=(¦decorator=X¦bracket=)¦bracket=]"]),
    ("python", &["keyword=def¦= ¦name-def=ID¦bracket=(¦name=ID¦bracket=)¦*=:¦= ¦keyword=pass", "name=ID¦= ¦op==¦= ¦number=NUM", "name=ID¦= ¦op==¦= ¦string=\"TEXT\"¦= ¦op=+¦= ¦name=ID", "name=ID¦= ¦op==¦= ¦keyword-literal=None", "comment=# TEXT", "keyword=class¦= ¦name-def=Foo¦*=:¦= ¦keyword=pass", "keyword=if¦= ¦name=ID¦= ¦op=and¦= ¦name=ID¦*=:¦= ¦keyword=pass", "keyword=return¦= ¦bracket=[¦number=NUM¦*=,¦= ¦bracket=(¦number=NUM¦*=,¦= ¦number=NUM¦bracket=)¦bracket=]", "name=ID¦= ¦op==¦= ¦keyword=lambda¦= ¦name=ID¦*=:¦= ¦name=ID"]),
    ("js", &["keyword=function¦= ¦name-def=ID¦bracket=(¦name=ID¦bracket=)¦= ¦bracket={¦bracket=}", "keyword=let¦= ¦name=ID¦= ¦op==¦= ¦number=NUM¦*=;", "name=ID¦= ¦op==¦= ¦string=\"TEXT\"¦= ¦op=+¦= ¦keyword-literal=true¦*=;", "comment=// TEXT", "comment=/* TEXT */", "keyword=class¦= ¦name-def=Foo¦= ¦bracket={¦bracket=}", "keyword=return¦= ¦keyword-literal=null¦*=;", "name=ID¦bracket=[¦number=NUM¦bracket=]¦*=;", "name=ID¦= ¦op==¦= ¦keyword-op=new¦= ¦name=Foo¦*=;"]),
    ("java", &["keyword=int¦*= ID ¦op==¦= ¦number=NUM¦*=;", "keyword=return¦= ¦keyword-literal=null¦*=;", "comment=// TEXT", "comment=/* TEXT */", "string=\"TEXT\"¦*=;"]),
    ("cpp", &["keyword=bool¦*= ID ¦op==¦= ¦keyword-literal=true¦= ¦keyword-op=and¦= ¦keyword-literal=false¦*=;", "keyword=return¦= ¦keyword-op=sizeof¦*= ID;", "comment=// TEXT", "comment=/* TEXT */", "keyword=int¦= ¦name-def=ID¦bracket=(¦keyword=int¦= ¦name=ID¦bracket=)¦= ¦bracket={¦= ¦keyword=return¦= ¦number=NUM¦*=;¦= ¦bracket=}"]),
    ("go", &["keyword=func¦= ¦name-def=ID¦bracket=(¦name=ID¦= ¦keyword=int¦bracket=)¦= ¦bracket={¦bracket=}", "name=ID¦= ¦op=:=¦= ¦keyword-literal=nil", "comment=// TEXT", "name=ID¦= ¦op=:=¦= ¦string=\"TEXT\"", "name=ID¦= ¦op=:=¦= ¦number=NUM"]),
    ("lua", &["keyword=local¦*= ID ¦op==¦= ¦keyword-literal=nil", "comment=-- TEXT", "*=ID ¦op==¦= ¦string=\"TEXT\"", "keyword=function¦= ¦name-def=ID¦bracket=(¦name=ID¦bracket=)¦= ¦keyword=end"]),
];

fn fill(s: &mut Src, c: &mut Code, line: &str) {
    for seg in line.split('¦') {
        let k = seg.find('=').unwrap();
        let (class, text) = (&seg[..k], &seg[k + 1..]);
        let class: Cls = ["", "*", B, "keyword", "keyword-literal", "keyword-op", "name", "name-def", "number", "op", "comment", "string", "decorator"].iter().find(|x| **x == class).unwrap();
        if text.contains("TEXT") {
            let mut t = Code {parts: vec![]};
            words(s, &mut t, "comment", "", "");
            let mut t = t.text();
            if t.is_empty() { t = "c".into(); }
            c.add(&text.replace("TEXT", &t), class);
        } else {
            let t = text.replace("ID", s.pick(IDENTS)).replace("NUM", s.pick(&["0", "7", "12", "345"]));
            if class == B { for ch in t.chars() { c.add(&ch.to_string(), B); } } else { c.add(&t, class); }
        }
    }
}

fn json(s: &mut Src, c: &mut Code, d: u32) {
    let sp = |s: &mut Src, c: &mut Code| c.add(s.pick(&["", " ", "\n", "\n  "]), PLAIN);
    match s.us(if d == 0 { 3 } else { 6 }) {
        0 => c.add(s.pick(&["0", "12", "-7", "1.5"]), "number"),
        1 => c.add(s.pick(&["true", "false", "null"]), "keyword-literal"),
        2 => { let mut t = Code {parts: vec![]}; words(s, &mut t, "string", "", ""); c.add(&format!("\"{}\"", t.text()), "string"); },
        k => {
            let obj = k % 2 == 0;
            c.add(if obj { "{" } else { "[" }, B);
            sp(s, c);
            for i in 0..s.us(4) {
                if i > 0 { c.add(",", "punctuation"); sp(s, c); }
                if obj { c.add("\"k\"", "string"); c.add(":", "punctuation"); sp(s, c); }
                json(s, c, d - 1);
            }
            sp(s, c);
            c.add(if obj { "}" } else { "]" }, B);
        },
    }
}

fn others(s: &mut Src) -> CaseResult {
    let mut c = Code {parts: vec![]};
    if s.chance(1, 5) {
        c.add("[", B);
        json(s, &mut c, 4);
        c.add("]", B);
        if c.text().len() > 20 { s.nontrivial(); }
        s.label("json");
        return check(s, "json", &c, false);
    }
    let (lang, lines) = *s.pick(LINES);
    let n = if s.chance(1, 4) { 1 } else { 1 + s.us(6) };
    for i in 0..n {
        if i > 0 { c.add("\n", PLAIN); }
        let l = *s.pick(lines);
        fill(s, &mut c, l);
    }
    if n > 1 { s.nontrivial(); }
    s.label(lang);
    check(s, lang, &c, false)
}

/// In no language, or an unknown one, nothing is marked.
fn plain(s: &mut Src) -> CaseResult {
    let mut c = Code {parts: vec![]};
    let (lang, warned) = *s.pick(&[("none", false), ("nosuchlang", true), ("é", true), ("Papyri", true)]);
    c.add("1 ", PLAIN);
    for _ in 0..1 + s.us(6) {
        let (before, after) = (*s.pick(&["", "# ", "\"", "{", "@fn x ", "// "]), *s.pick(&[" ", "\n", ")", "\" "]));
        words(s, &mut c, PLAIN, before, after);
    }
    s.nontrivial();
    check(s, lang, &c, warned)
}

pub fn prop() -> Prop {
    Prop {
        id: "C26",
        subs: vec![
            Sub {name: "papyri", quick: 60_000, thorough: 1_500_000, run: papyri},
            Sub {name: "others", quick: 60_000, thorough: 1_500_000, run: others},
            Sub {name: "plain", quick: 10_000, thorough: 200_000, run: plain},
        ],
        fixed: vec![],
        rule: "Papyri code with at least two brackets; other code of several lines; code without a highlighter",
        assumptions: &["whitespace has no class of its own", "in languages other than Papyri, only tokens whose kind is plain in that language are compared", "an address starts with http:// or https:// and goes on to whitespace or a quotation mark"],
    }
}
