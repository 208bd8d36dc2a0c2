//! C04: rendered HTML is well formed and faithfully encodes its content.
//! Element trees are generated, written as programs, rendered, and read back
//! by the strict reader in lang.rs and by a conforming HTML parser.
use crate::engine::*;
use crate::lang::*;
use super::gen;

#[derive(Clone)]
enum T {
    /// The pieces in which the text is inserted.
    Text(Vec<String>),
    El(String, Vec<(String, Option<String>)>, Vec<T>),
}

const INLINE: &[&str] = &["span", "em", "b", "i", "code", "sup", "a", "label", "foo", "x1", "my_tag", "button", "q"];
const BLOCK_INLINE: &[&str] = &["p", "div", "h1", "h6", "pre", "div", "figcaption"];
const BLOCK_BLOCK: &[&str] = &["div", "section", "article", "blockquote", "main", "form"];
const VOID_INLINE: &[&str] = &["br", "img", "input", "wbr", "embed"];
const ATTRS: &[&str] = &["id", "href", "title", "data_x", "a", "x_y_z", "alt", "onclick", "value", "aria_label", "b2", "hidden", "_q", "src", "data_a_b_c", "a__b_c", "x_1_2_3_4", "end_"];

/// Strings which would do damage if they were not encoded.
const NASTY: &[&str] = &[
    "</p>", "</span>", "<script>", "<!--", "-->", "\"", "'", "\" onclick=\"x", "&", "&amp;", "&lt;", "&#60;", "&quot;", "&nbsp;", "<", ">", "<<", "]]>", "&#x3c;", "<b a=\"", "=", " ", "é", "老", "😀", "\u{a0}", "--", "a",
    "&&", "&a", "a&b;c", "`", "\\", "\u{2028}", "\u{ad}", "©", "\u{7f}", "\u{80}", "{", "$x", "@f", "\t",
];

fn text(s: &mut Src) -> String {
    match s.weighted(&[4, 2, 1, 1]) {
        0 => s.vec(0, 4, |s| s.pick(NASTY).to_string()).concat(),
        1 => gen::any_string(s, 8),
        2 => gen::word(s),
        _ => { let c = s.below(0x300) as u32; char::from_u32(c).unwrap().to_string() },
    }
}

fn some_lit(s: &mut Src, t: &str) -> String {
    if s.coin() { return str_lit(t); }
    // a quoted string, with only the necessary escapes
    let mut o = String::from("\"");
    let mut prev_ws = false;
    for c in t.chars() {
        let ws = c == ' ' && !prev_ws;
        match c {
            '"' | '\\' | '{' | '}' | '$' | '`' | '&' | '#' | '<' => { o.push('\\'); o.push(c); },
            c if c.is_ascii_whitespace() && !ws || (c as u32) < 0x20 => o += &format!("\\x{:02x}", c as u32),
            c => o.push(c),
        }
        prev_ws = ws;
    }
    o + "\""
}

/// An attribute list as source, and what it should render to.
fn attrs(s: &mut Src) -> (String, Vec<(String, Option<String>)>) {
    let mut names: Vec<&str> = ATTRS.to_vec();
    let mut src = String::new();
    let mut out = Vec::new();
    let n = s.weighted(&[5, 4, 3, 2, 1]);
    for _ in 0..n {
        let name = names.remove(s.us(names.len()));
        let shown = name.replace('_', "-");
        match s.weighted(&[6, 2, 1, 1, 1, 2, 2, 1]) {
            0 => { let t = text(s); src += &format!(" {name}={}", some_lit(s, &t)); out.push((shown, Some(t))); },
            1 => { src += &format!(" {name}"); out.push((shown, None)); },
            2 => { let i = s.int(); if i != i64::MIN { src += &format!(" {name}={i}"); out.push((shown, Some(i.to_string()))); } },
            3 => { src += &format!(" {name}=True"); out.push((shown, Some("True".into()))); },
            4 => src += &format!(" {name}?=."),
            5 => { let t = text(s); src += &format!(" {name}?={}", some_lit(s, &t)); out.push((shown, Some(t))); },
            6 => {
                let t = text(s);
                let other = names.remove(s.us(names.len()));
                let (oe, ov) = match s.us(3) { 0 => (".".to_string(), None), 1 => ("-7".to_string(), Some("-7".to_string())), _ => { let t = text(s); (str_lit(&t), Some(t)) } };
                src += &format!(" **@dict::new({name}={}, {other}={oe}).", some_lit(s, &t));
                out.push((shown, Some(t)));
                out.push((other.replace('_', "-"), ov));
            },
            _ => {
                let t = text(s);
                src += &format!(" {name}=@match {} {{$m -> \"[$m]\"}}", str_lit(&t));
                out.push((shown, Some(format!("[{t}]"))));
            },
        }
    }
    (src, out)
}

fn mixed_case(s: &mut Src, t: &str) -> String {
    match s.us(3) { 0 => t.to_string(), 1 => t.to_uppercase(), _ => { let mut c = t.chars(); c.next().unwrap().to_uppercase().collect::<String>() + c.as_str() } }
}

fn element(s: &mut Src, name: &str, kids: (String, Vec<T>), void: bool, o: &mut String) -> T {
    let (a, want) = attrs(s);
    let written = if s.chance(1, 4) { mixed_case(s, name) } else { name.to_string() };
    let dynamic = s.chance(1, 6);
    if dynamic {
        *o += &format!("@let(t={}) <$t{a}", str_lit(&written));
    } else {
        *o += &format!("<{written}{a}");
    }
    if void {
        *o += if dynamic || s.coin() { "/>" } else { ">" };
    } else if kids.0.is_empty() && s.coin() {
        *o += "/>";
    } else {
        *o += ">";
        *o += &kids.0;
        *o += &if dynamic || s.coin() { "</>".to_string() } else { format!("</{}>", mixed_case(s, name)) };
    }
    T::El(name.to_string(), want, kids.1)
}

fn inlines(s: &mut Src, depth: u32) -> (String, Vec<T>) {
    let mut o = String::new();
    let kids = s.vec(0, 4, |s| {
        match s.weighted(&[5, if depth > 0 { 3 } else { 0 }, 1]) {
            0 => {
                let t = text(s);
                match s.us(3) {
                    0 => { o += &format!("@str::from {}", some_lit(s, &t)); T::Text(vec![t]) },
                    1 => { o += &format!("@let(v={}) $v", some_lit(s, &t)); o += "{}"; T::Text(vec![t]) },
                    _ => {
                        for c in t.chars() { o += &format!("\\U{:08x}", c as u32); }
                        T::Text(t.chars().map(|c| c.to_string()).collect())
                    },
                }
            },
            1 => {
                let name = s.pick(INLINE).to_string();
                let kids = inlines(s, depth - 1);
                element(s, &name, kids, false, &mut o)
            },
            _ => {
                let name = s.pick(VOID_INLINE).to_string();
                element(s, &name, (String::new(), vec![]), true, &mut o)
            },
        }
    });
    (o, kids)
}

fn blocks(s: &mut Src, depth: u32) -> (String, Vec<T>) {
    let mut o = String::new();
    let kids = s.vec(if depth == 3 { 1 } else { 0 }, 4, |s| {
        match s.weighted(&[4, if depth > 0 { 3 } else { 0 }, 1]) {
            0 => {
                let name = s.pick(BLOCK_INLINE).to_string();
                let kids = inlines(s, 2);
                element(s, &name, kids, false, &mut o)
            },
            1 => {
                let name = s.pick(BLOCK_BLOCK).to_string();
                let kids = blocks(s, depth - 1);
                element(s, &name, kids, false, &mut o)
            },
            _ => element(s, "hr", (String::new(), vec![]), true, &mut o),
        }
    });
    (o, kids)
}

fn is_ws(t: &T) -> bool { matches!(t, T::Text(p) if p.iter().all(|t| t.chars().all(|c| c.is_ascii_whitespace()))) }

/// The tree a reader should see.
fn expected(kids: Vec<T>) -> Vec<Node> {
    // whitespace at the edges of an element is dropped
    let mut flat: Vec<T> = Vec::new();
    for k in kids {
        match k { T::Text(p) => flat.extend(p.into_iter().map(|t| T::Text(vec![t]))), k => flat.push(k) }
    }
    while flat.last().map_or(false, is_ws) { flat.pop(); }
    let n = flat.iter().take_while(|k| is_ws(k)).count();
    flat.drain(..n);
    let mut out: Vec<Node> = Vec::new();
    for k in flat {
        match k {
            T::Text(t) => {
                let t = t.concat();
                if t.is_empty() { continue; }
                if let Some(Node::Text(u)) = out.last_mut() { *u += &t; } else { out.push(Node::Text(t)); }
            },
            T::El(n, mut a, k) => { a.sort(); out.push(Node::El(n, a, expected(k))); },
        }
    }
    out
}

pub fn sorted(nodes: Vec<Node>) -> Vec<Node> {
    nodes.into_iter().map(|n| match n {
        Node::El(n, mut a, k) => { a.sort(); Node::El(n, a, sorted(k)) },
        n => n,
    }).collect()
}

fn run_tree(s: &mut Src) -> CaseResult {
    let (src, tree) = blocks(s, 3);
    let (src, doctype) = if s.chance(1, 6) { (if s.chance(1, 4) { format!("@let(dt=`!{}`)...\n\n<$dt html/>{src}", mixed_case(s, "doctype")) } else { format!("<!{} html>{src}", mixed_case(s, "doctype")) }, true) } else { (src, false) };
    s.note("source", src.clone());
    if src.len() > 20 { s.nontrivial(); }
    s.tick();
    let out = compile(&src)?;
    if !out.ok() { return Err(format!("the document was rejected: {}", out.printed)); }
    let mut want = expected(tree);
    if doctype { want.insert(0, Node::El("!DOCTYPE".into(), vec![("html".into(), None)], vec![])); }
    let got = sorted(read_html(&out.html)?);
    if got != want { return Err(format!("a reader of {:?} sees\n  {got:?}\nbut the program wrote\n  {want:?}", out.html)); }
    if out.html.contains("</br") || out.html.contains("</hr") || out.html.contains("</img") || out.html.contains("</wbr") { return Err(format!("closing tag of a void element in {}", out.html)); }
    Ok(())
}

/// One string everywhere a string can go, read back by a conforming parser.
fn run_strings(s: &mut Src) -> CaseResult {
    // line ends and NUL are changed by HTML parsers themselves
    let clean = |t: String| -> String { t.chars().map(|c| if matches!(c, '\r' | '\u{0}' | '\u{c}') { 'r' } else { c }).collect() };
    let t = clean(text(s));
    let u = clean(text(s));
    let v = clean(text(s));
    let (lt, lu, lv) = (some_lit(s, &t), some_lit(s, &u), some_lit(s, &v));
    let src = format!("<div title={lu} data_a={lv} **@dict::new(data_b={lt}).><b>x@str::from {lt}y</b><i>x{{v@let(q={lu}) $q}}.y</i><span>x<em id={lt} class=\"a {{}}b\"/>@let(q={lv}) \"[$q]\" z</span></div>");
    s.note("source", src.clone());
    if t.len() + u.len() + v.len() > 2 { s.nontrivial(); }
    s.tick();
    let out = compile(&src)?;
    if !out.ok() { return Err(format!("the document was rejected: {}", out.printed)); }
    let a = |k: &str, v: &str| (k.to_string(), Some(v.to_string()));
    let u2 = if u.chars().all(|c| c.is_ascii_whitespace()) { "" } else { u.as_str() }; // dropped at the end of a group
    let el = |n: &str, k: Vec<Node>| Node::El(n.into(), vec![], k);
    let txt = |t: String| Node::Text(t);
    let mut want = vec![Node::El("div".into(), vec![a("title", &u), a("data-a", &v), a("data-b", &t)], vec![
        el("b", vec![txt(format!("x{t}y"))]),
        el("i", vec![txt(format!("xv{u2}.y"))]),
        el("span", vec![txt("x".into()), Node::El("em".into(), vec![a("id", &t), a("class", "ab")], vec![]), txt(format!("[{v}] z"))]),
    ])];
    want = sorted(want);
    // "a {}b": whitespace next to an empty group is dropped
    let strict = sorted(read_html(&out.html)?);
    if strict != want { return Err(format!("a reader of {:?} sees\n  {strict:?}\nbut the program wrote\n  {want:?}", out.html)); }
    let browser = sorted(super::dom::parse(&out.html));
    if browser != want { return Err(format!("an HTML parser given {:?} sees\n  {browser:?}\nbut the program wrote\n  {want:?}", out.html)); }
    Ok(())
}

/// An attribute given twice is an error and does not appear twice.
fn run_duplicate(s: &mut Src) -> CaseResult {
    let name = *s.pick(ATTRS);
    // in any case
    let form = |s: &mut Src| { let name = if s.chance(2, 3) { name.to_string() } else { mixed_case(s, name) }; match s.us(5) {
        0 => format!("{name}=a"), 1 => name.to_string(), 2 => format!("{name}?=b"), 3 => format!("**@dict::new({name}=c)."), _ => format!("**@dict::new({name}=., other=x)."),
    } };
    let (a, b) = (form(s), form(s));
    let third = if s.coin() { " zz=1 " } else { " " };
    let src = format!("<p>x</p><div {a}{third}{b}>y</div>");
    s.note("source", src.clone());
    s.nontrivial();
    s.tick();
    let out = compile(&src)?;
    if out.errors == 0 { return Err(format!("accepted, as {}", out.html)); }
    read_html(&out.html).map(|_| ())
}

/// Whatever a program does, its output is well formed.
fn run_any(s: &mut Src) -> CaseResult {
    let src = gen::program(s);
    if gen::may_recurse(&src) || src.contains("script") || src.contains("style") { return Ok(()); }
    s.note("source", src.clone());
    // a crash is the business of C01
    let Ok(out) = compile(&src) else { return Ok(()); };
    s.tick();
    if out.html.matches('<').count() >= 4 { s.nontrivial(); }
    read_html(&out.html).map_err(|e| format!("{e}\nin {:?}", out.html))?;
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        subs: vec![
            Sub {name: "element trees", quick: 60_000, thorough: 2_000_000, run: run_tree},
            Sub {name: "strings", quick: 30_000, thorough: 1_000_000, run: run_strings},
            Sub {name: "any program", quick: 60_000, thorough: 3_000_000, run: run_any},
            Sub {name: "duplicate attributes", quick: 2_000, thorough: 20_000, run: run_duplicate},
        ],
        fixed: vec![],
        rule: "trees written with more than 20 bytes, string triples of more than 2 bytes; the rendered output is read by a strict reader and, for the second part, by html5ever",
        assumptions: &["tag names start with a letter (names starting with an underscore are not HTML tags)", "script and style content is not generated", "CR, NUL and FF are not given to the HTML parser, which changes them itself"],
    }
}
