//! C03: prose reaches the output with exactly the documented substitutions.
//! The oracle is a character-level reader of the part of the language that
//! consists of prose, quoted strings and verbatim strings, written
//! independently of the tokenizer and parser.
use crate::engine::*;
use crate::lang::*;

#[derive(Clone, PartialEq, Debug)]
enum Atom { Text(String), Code(String) }
impl Atom {
    fn is_ws(&self) -> bool { matches!(self, Atom::Text(t) if t.chars().all(|c| c.is_ascii_whitespace())) }
}

const SUBS: &[(&str, &str)] = &[
    ("---", "\u{2014}"), ("--", "\u{2013}"), ("<->", "\u{2194}"), ("<-", "\u{2190}"), ("->", "\u{2192}"),
    ("!=", "\u{2260}"), ("<=", "\u{2264}"), (">=", "\u{2265}"), ("+/-", "\u{b1}"), ("(c)", "\u{a9}"), ("~", "\u{a0}"),
];

fn substitute(t: &str) -> String {
    let mut o = String::new();
    let mut r = t;
    'next: while !r.is_empty() {
        // the longest substitution that starts here, if any
        for n in [3, 2, 1] {
            for (a, b) in SUBS { if a.len() == n && r.starts_with(a) { o += b; r = &r[n..]; continue 'next; } }
            if n == 2 && r.starts_with('-') && r[1..].starts_with(|c: char| c.is_ascii_digit()) {
                o.push('\u{2212}'); o += &r[1..2]; r = &r[2..]; continue 'next;
            }
        }
        let c = r.chars().next().unwrap();
        o.push(c);
        r = &r[c.len_utf8()..];
    }
    o
}

fn entity(name: &str) -> char {
    match name {
        "lt" => '<', "gt" => '>', "amp" => '&', "quot" => '"', "nbsp" => '\u{a0}', "copy" => '©', "eacute" => 'é', "hellip" => '…', "mdash" => '—', "rarr" => '→', "alpha" => 'α', "euro" => '€',
        n => {
            let v = if let Some(h) = n.strip_prefix("#x") { u32::from_str_radix(h, 16).unwrap() } else { n.strip_prefix('#').unwrap().parse().unwrap() };
            char::from_u32(v).unwrap()
        },
    }
}

/// The escape at the start of `r`: what it denotes, and its length.
fn escape(r: &str) -> (char, usize) {
    let c = r[1..].chars().next().unwrap();
    let n = match c { 'x' => 4, 'u' => 6, 'U' => 10, _ => return (match c { 'n' => '\n', 't' => '\t', c => c }, 1 + c.len_utf8()) };
    (char::from_u32(u32::from_str_radix(&r[2..n], 16).unwrap()).unwrap(), n)
}

/// The length of a comment at the start of `r`, if there is one.
fn comment(r: &str) -> Option<usize> {
    if r.starts_with("<!--") {
        Some(r[4..].find("-->").map_or(r.len(), |k| k + 7))
    } else if r.starts_with('#') {
        let e = r.find('\n').unwrap_or(r.len());
        let ws = r[e..].find(|c: char| !c.is_ascii_whitespace()).map_or(r.len(), |k| e + k);
        Some(if r[e..ws].matches('\n').count() >= 2 { e } else { ws })
    } else { None }
}

fn ws_len(r: &str) -> usize { r.find(|c: char| !c.is_ascii_whitespace()).unwrap_or(r.len()) }

/// Reads prose; the result is the paragraphs.
fn read_prose(src: &str) -> Vec<Vec<Atom>> {
    let mut paras: Vec<Vec<Atom>> = vec![vec![]];
    let mut run = String::new();
    let mut left = true; // whether a quote here opens
    let mut last_ws = false; // whether the last thing, comments aside, was whitespace
    let mut r = src;
    let mut prev = ' '; // the character before, within the same run
    fn flush(run: &mut String, paras: &mut Vec<Vec<Atom>>) {
        if !run.is_empty() { paras.last_mut().unwrap().push(Atom::Text(substitute(run))); run.clear(); }
    }
    while let Some(c) = r.chars().next() {
        if let Some(k) = comment(r) { r = &r[k..]; continue; }
        if c.is_ascii_whitespace() {
            flush(&mut run, &mut paras);
            let k = ws_len(r);
            if r[..k].matches('\n').count() >= 2 { paras.push(vec![]); }
            else if !last_ws { paras.last_mut().unwrap().push(Atom::Text(" ".into())); }
            r = &r[k..]; left = true; last_ws = true; prev = ' ';
            continue;
        }
        last_ws = false;
        if c == '\\' {
            flush(&mut run, &mut paras);
            let (c, k) = escape(r);
            paras.last_mut().unwrap().push(Atom::Text(c.to_string()));
            r = &r[k..]; left = false; prev = ' ';
        } else if c == '&' && r[1..].starts_with(|c: char| c.is_ascii_alphabetic() || c == '#') {
            flush(&mut run, &mut paras);
            let k = r.find(';').unwrap();
            paras.last_mut().unwrap().push(Atom::Text(entity(&r[1..k]).to_string()));
            r = &r[k + 1..]; left = false; prev = ' ';
        } else if c == '`' || r.starts_with("@str::from ") {
            flush(&mut run, &mut paras);
            let is_code = c == '`';
            if !is_code { r = &r["@str::from ".len()..]; }
            let n = r.find(|c| c != '`').unwrap();
            let e = n + r[n..].find(&r[..n]).unwrap();
            let t = r[n..e].to_string();
            if is_code { paras.last_mut().unwrap().push(Atom::Code(t)); }
            else if !t.is_empty() { paras.last_mut().unwrap().push(Atom::Text(t)); }
            r = &r[e + n..]; left = false; prev = ' ';
        } else if r.starts_with("...") {
            run.push('…'); r = &r[3..]; left = false; prev = '.';
        } else if c == '"' || c == '\'' {
            run.push(match (c, left) { ('"', true) => '“', ('"', false) => '”', (_, true) => '‘', (_, false) => '’' });
            r = &r[1..]; left = false; prev = c;
        } else {
            run.push(if c == '|' { '\u{2060}' } else { c });
            left = matches!(c, '=' | '(') || c == '>' && prev != '-';
            prev = c;
            r = &r[c.len_utf8()..];
        }
    }
    flush(&mut run, &mut paras);
    paras.into_iter().map(|mut p| {
        while p.last().map_or(false, |a| a.is_ws()) { p.pop(); }
        let k = p.iter().take_while(|a| a.is_ws()).count();
        p.drain(..k);
        p
    }).filter(|p| !p.is_empty()).collect()
}

/// Merges adjacent text.
fn merge(p: Vec<Atom>) -> Vec<Atom> {
    let mut out: Vec<Atom> = vec![];
    for a in p {
        match (out.last_mut(), a) {
            (Some(Atom::Text(t)), Atom::Text(u)) => *t += &u,
            (_, a) => out.push(a),
        }
    }
    out
}

const WORDS: &[&str] = &["a", "word", "x1", "True", "_", "fn", "naïve", "老虎", "😀", "\u{a0}", "\u{2028}", "\u{b}", "12", "0", "c", "u", "\u{0}", "\u{feff}", "é\u{301}"];
const PUNCT: &[&str] = &["-", "--", "---", "----", ".", "..", "...", "....", "<", "<-", "->", "<->", "!=", "<=", ">=", "+/-", "(c)", "(C)", "~", "|", "'", "\"", "\"", "=", "(", ")", ":", "::", "?", "?::", ",", "*", "**", "!",
    "/", "/>", ">", "&", "@", "$", "%", "^", "+", ";", "-5", "--5", "-0", "-1", "-2", "-3", "-4", "-6", "-7", "-8", "-9", "-->", "<--", "<<", ">>", "|-|"];
const WS: &[&str] = &[" ", "\n", "\t", "  ", " \n ", "\r\n", "\u{c}"];
const ENTS: &[&str] = &["&lt;", "&gt;", "&amp;", "&quot;", "&nbsp;", "&copy;", "&eacute;", "&hellip;", "&mdash;", "&rarr;", "&alpha;", "&euro;", "&#65;", "&#x41;", "&#x1F600;", "&#32;", "&#126;", "&#60;", "&#x2d;"];

fn gen_escape(s: &mut Src) -> String {
    const ESC: &[&str] = &["\\\\", "\\-", "\\.", "\\'", "\\\"", "\\~", "\\|", "\\#", "\\`", "\\<", "\\>", "\\{", "\\}", "\\$", "\\@", "\\&", "\\n", "\\t", "\\ ", "\\é", "\\😀", "\\(", "\\1", "\\=", "\\[", "\\]"];
    match s.weighted(&[5, 1, 1, 1]) {
        0 => s.pick(ESC).to_string(),
        1 => format!("\\x{:02x}", s.below(256)),
        2 => { let c = s.below(0xd800); if s.coin() { format!("\\u{c:04x}") } else { format!("\\u{c:04X}") } },
        _ => { let c = if s.coin() { s.below(0xd800) } else { 0xe000 + s.below(0x110000 - 0xe000) }; format!("\\U{c:08x}") },
    }
}

/// A verbatim string and its content.
fn gen_verbatim(s: &mut Src, free: bool) -> String {
    const IN: &[&str] = &["a", "--", "...", "\"", "'", "~", "\\n", "&lt;", "<b>", "$x", "@f", "# c", "<!-- c -->", " ", "|", "{", "}", "-1", "(c)", "é", "老", "``", "`", "->", "\\", "\n", "\n\n"];
    let n = *s.pick(&[1usize, 2, 3, 4]);
    let mut t: String = s.vec(0, 6, |s| s.pick(IN).to_string()).concat();
    if n < 3 || !free { t = t.replace('\n', " "); }
    while t.contains(&"`".repeat(n)) { t = t.replace(&"`".repeat(n), "a"); }
    // the delimiters must not run into the content, and code is trimmed
    if t.is_empty() || t.starts_with('`') || !free { t = format!("b{t}"); }
    if t.ends_with('`') || !free { t.push('e'); }
    let d = "`".repeat(if free { n } else { n.min(2) });
    if !free && t.contains(&d) { t = t.replace('`', "c"); }
    format!("{d}{t}{d}")
}

/// Joins pieces, keeping apart those which would together start a construct
/// that is not prose.
fn join(pieces: Vec<String>, in_string: bool) -> String {
    let mut o = String::new();
    let mut was_escape = false;
    for p in pieces {
        let Some(c) = p.chars().next() else { continue; };
        let ident = c.is_ascii_alphabetic() || c == '_';
        // the last character outside comments
        let mut last = o.chars().last().unwrap_or(' ');
        if o.ends_with("-->") { last = o[..o.rfind("<!--").unwrap_or(0)].chars().last().unwrap_or(' '); }
        if in_string && last.is_ascii_whitespace() && c.is_ascii_whitespace() { continue; }
        let bad = !was_escape && match last {
            '<' => c == '/' || c == '!' || c == '$' || (ident && !in_string),
            '@' | '$' => ident,
            '&' => c.is_ascii_alphabetic() || c == '#',
            // a run of backticks must not grow
            '`' => c == '`',
            _ => false,
        };
        if bad { o.push(' '); }
        was_escape = p.starts_with('\\') && !p.ends_with('}');
        o += &p;
    }
    o
}

fn prose_piece(s: &mut Src) -> String {
    match s.weighted(&[6, 7, 5, 1, 2, 1, 1, 1, 1]) {
        0 => s.pick(WORDS).to_string(),
        1 => s.pick(PUNCT).to_string(),
        2 => s.pick(WS).to_string(),
        3 => s.pick(&["\n\n", "\n \n", "\n\n\n", "\r\n\r\n", " \n\n\t"]).to_string(),
        4 => gen_escape(s),
        5 => s.pick(ENTS).to_string(),
        6 => gen_verbatim(s, false),
        7 => format!("@str::from {}", gen_verbatim(s, true)),
        _ => s.pick(&[" <!--c-->", "(<!-- -- -->", "w<!--\n\n-->", "w #c ... \n", "w#\n", " #c`\n "]).to_string(),
    }
}

fn run_prose(s: &mut Src) -> CaseResult {
    let pieces = s.vec(1, 24, prose_piece);
    let kinds = pieces.len();
    let src = join(pieces, false);
    s.note("source", src.clone());
    if kinds >= 3 { s.nontrivial(); }
    s.tick();
    let out = compile(&src)?;
    if !out.ok() { return Err(format!("prose was rejected: {}", out.printed)); }
    let want: Vec<Vec<Atom>> = read_prose(&src).into_iter().map(merge).collect();
    let mut got = Vec::new();
    for n in read_html(&out.html)? {
        let Node::El(name, attrs, children) = n else { return Err(format!("text outside a paragraph: {}", out.html)); };
        if name != "p" || !attrs.is_empty() { return Err(format!("expected paragraphs only: {}", out.html)); }
        let mut p = vec![];
        for c in children {
            match c {
                Node::Text(t) => p.push(Atom::Text(t)),
                Node::El(n, a, c) if n == "code" && a.is_empty() => p.push(Atom::Code(text_of(&c))),
                n => return Err(format!("unexpected element {n:?}")),
            }
        }
        got.push(merge(p));
    }
    if got != want { return Err(format!("the document reads\n  {got:?}\nbut was written\n  {want:?}")); }
    // the same text, in text mode
    let plain: String = want.iter().map(|p| p.iter().map(|a| match a { Atom::Text(t) | Atom::Code(t) => t.as_str() }).collect::<String>() + "\n\n").collect();
    if out.text != plain { return Err(format!("text mode gives {:?}, expected {plain:?}", out.text)); }
    Ok(())
}

/// Reads the inside of a quoted string. Variables are `$v0`… with the given values.
fn read_string(src: &str, vars: &[String]) -> String {
    let mut out: Vec<String> = vec![]; // a single space is whitespace only if marked so
    let mut ws: Vec<bool> = vec![];
    let mut r = src;
    let mut last_ws = false;
    while let Some(c) = r.chars().next() {
        if let Some(k) = comment(r) { r = &r[k..]; continue; }
        let mut now_ws = false;
        let (t, k) = if c.is_ascii_whitespace() {
            now_ws = true;
            (if last_ws { String::new() } else { " ".into() }, ws_len(r))
        } else if c == '\\' {
            let (c, k) = escape(r); (c.to_string(), k)
        } else if c == '&' && r[1..].starts_with(|c: char| c.is_ascii_alphabetic() || c == '#') {
            let k = r.find(';').unwrap(); (entity(&r[1..k]).to_string(), k + 1)
        } else if r.starts_with("$v") {
            let d: usize = r[2..3].parse().unwrap();
            (vars[d].clone(), 3)
        } else if c == '{' {
            r = &r[1..];
            loop {
                if let Some(k) = comment(r) { r = &r[k..]; continue; }
                let k = ws_len(r);
                if k == 0 { break; }
                r = &r[k..];
            }
            last_ws = false;
            continue;
        } else if c == '}' {
            if ws.last() == Some(&true) { ws.pop(); out.pop(); }
            r = &r[1..];
            last_ws = false;
            continue;
        } else { (c.to_string(), c.len_utf8()) };
        if !(now_ws && last_ws) { out.push(t); ws.push(now_ws); }
        last_ws = now_ws;
        r = &r[k..];
    }
    out.concat()
}

fn run_string(s: &mut Src) -> CaseResult {
    let q = *s.pick(&['"', '\'']);
    let vals: Vec<(&str, &str)> = vec![("`a--b`", "a--b"), ("-5", "-5"), ("True", "True"), ("\"\"", ""), ("bare", "bare")];
    let pieces = s.vec(0, 20, |s| match s.weighted(&[6, 7, 4, 2, 1, 2, 1, 1]) {
        0 => s.pick(WORDS).to_string(),
        1 => s.pick(PUNCT).to_string(),
        2 => s.pick(WS).to_string(),
        3 => gen_escape(s),
        4 => s.pick(ENTS).to_string(),
        // a name must not run into what follows
        5 => format!("$v{}{}", s.below(5), s.pick(&[" ", "-", ".", "{x}", "\\:", "%", "&amp;"])),
        6 => s.pick(&["@foo", "@fn", "<b>", "[", "]", "@match", "<b>x</b>", "</>", "@x::y(1)"]).to_string(),
        _ => s.pick(&["{x}", "{ x }", "{\tx y\n}", "x{ $v1 }y", "{ {a } b}", " <!--c-->", "w #c\n", "w <!-- \" --> ", "w#'\n", " { <!--c--> x <!--c--> } "]).to_string(),
    }).into_iter().map(|p| if p.contains('{') || p.contains('#') || p.contains('&') || p.contains("<!--") || p.starts_with('\\') { p } else { p.replace(q, "q") }).collect::<Vec<_>>();
    let n = pieces.len();
    let body = join(pieces, true);
    s.note("string", format!("{q}{body}{q}"));
    if n >= 3 { s.nontrivial(); }
    s.tick();
    let src = format!("@export @let({})\n@export(r={q}{body}{q}).\n",
        vals.iter().enumerate().map(|(i, (e, _))| format!("v{i}={e}")).collect::<Vec<_>>().join(", ") + ",");
    // the exports above need their own expression: use a let instead
    let src = src.replacen("@export @let", "@let", 1).replacen("@export(r=", "{@export(r=", 1).trim_end().to_string() + "}";
    let e = eval(&src, &["r".into()])?;
    let want = read_string(&body, &vals.iter().map(|v| v.1.to_string()).collect::<Vec<_>>());
    if !e.out.ok() { return Err(format!("the string was rejected: {}", e.out.printed)); }
    if e.get("r") != Some(&V::Str(want.clone())) { return Err(format!("the string is {:?}, but was written {want:?}", e.get("r"))); }
    Ok(())
}

fn run_verbatim(s: &mut Src) -> CaseResult {
    let lits = s.vec(1, 4, |s| gen_verbatim(s, true));
    let src = format!("@export({}).", lits.iter().enumerate().map(|(i, l)| format!("r{i}={l}")).collect::<Vec<_>>().join(", "));
    s.note("source", src.clone());
    if src.len() > 20 { s.nontrivial(); }
    s.tick();
    let names: Vec<String> = (0..lits.len()).map(|i| format!("r{i}")).collect();
    let e = eval(&src, &names)?;
    if !e.out.ok() { return Err(format!("rejected: {}", e.out.printed)); }
    for (i, l) in lits.iter().enumerate() {
        let n = l.find(|c| c != '`').unwrap();
        let want = &l[n..l.len() - n];
        if e.get(&names[i]) != Some(&V::s(want)) { return Err(format!("{l} denotes {:?}", e.get(&names[i]))); }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        subs: vec![
            Sub {name: "prose", quick: 60_000, thorough: 3_000_000, run: run_prose},
            Sub {name: "quoted strings", quick: 40_000, thorough: 2_000_000, run: run_string},
            Sub {name: "verbatim strings", quick: 10_000, thorough: 300_000, run: run_verbatim},
        ],
        fixed: vec![],
        rule: "texts of at least 3 pieces (words, punctuation, whitespace, escapes, entities, verbatim strings, comments); each is compared, atom by atom, with an independent reader of the source",
        assumptions: &["constructs inside prose (tags, calls, groups, lists) are covered by the other properties", "whitespace at the edges of a paragraph is dropped even when it was written as an escape"],
    }
}
