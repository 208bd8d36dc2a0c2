//! C23: text mode renders exactly the visible text.
use crate::engine::*;
use crate::lang::*;
use super::{c18, gen, progs};

/// Elements which stand on lines of their own.
const BLOCKS: &[&str] = &["!DOCTYPE", "address", "article", "aside", "base", "blockquote", "body", "dd", "details", "div", "dl", "dt", "fieldset", "figcaption", "figure", "footer", "form", "h1", "h2", "h3", "h4", "h5", "h6", "head", "header", "hgroup", "html", "iframe", "li", "link", "main", "menu", "meta", "nav", "ol", "pre", "script", "section", "style", "table", "template", "title", "ul"];

/// The text of the document: that of the elements, each with what it ends with.
pub fn plain(nodes: &[Node], out: &mut String) {
    for n in nodes {
        match n {
            Node::Text(t) => *out += t,
            Node::El(name, _, kids) => {
                plain(kids, out);
                match name.as_str() {
                    "p" => *out += "\n\n",
                    "hr" => *out += "\n\u{2015}\n\n",
                    n if BLOCKS.contains(&n) => out.push('\n'),
                    _ => {},
                }
            },
        }
    }
}

fn text(s: &mut Src) -> String {
    match s.us(8) {
        0 => str_lit(&gen::any_string(s, 6)).replace('"', "\""),
        1 => format!("&{};", s.pick(&["lt", "gt", "amp", "quot", "nbsp", "eacute", "#65", "#x1F600", "copy"])),
        2 => s.pick(&["-- ", "--- ", "... ", "(c)", "'q'", "\"q\"", "\\<", "\\&", "\\$", "\\n", "\\\\", "-1"]).to_string(),
        3 => format!("@match {} {{$v -> $v}}", str_lit(&gen::any_string(s, 5))),
        4 => s.pick(&[" ", "\n", " \n "]).to_string(),
        _ => gen::word(s),
    }
}
fn inline(s: &mut Src, d: u32) -> String {
    s.vec(0, 4, |s| if d > 0 && s.chance(1, 3) {
        let n = *s.pick(&["b", "i", "span", "em", "a", "code", "q", "sup", "foo"]);
        let a = *s.pick(&["", "", " id=`x`", " title=`<&\"`", " hidden"]);
        match s.us(6) { 0 => "<br>".to_string(), 1 => "<img src=`a.png` alt=`alt text`>".into(), _ => format!("<{n}{a}>{}</>", inline(s, d - 1)) }
    } else { text(s) }).concat()
}
fn block(s: &mut Src, d: u32) -> String {
    match s.us(if d == 0 { 4 } else { 14 }) {
        0 | 1 => inline(s, 2),
        2 => format!("<p>{}</>", inline(s, 1).replace("\n\n", " ")),
        3 => format!("<{}>{}</>", s.pick(&["h1", "h2", "h6", "pre", "div"]), inline(s, 1)),
        4 => "<hr>".into(),
        5 => format!("<ul>{}</>", s.vec(1, 3, |s| format!("<li>{}</>", inline(s, 1))).concat()),
        6 => format!("<ol>{}</>", s.vec(1, 3, |s| format!("<li>{}</>", blocks(s, d - 1))).concat()),
        7 => format!("<table>{}</>", s.vec(1, 3, |s| format!("<tr>{}</>", s.vec(1, 3, |s| format!("<{}>{}</>", if s.chance(1, 3) { "th" } else { "td" }, inline(s, 1))).concat())).concat()),
        8 => format!("<dl><dt>{}</><dd>{}</></>", inline(s, 1), inline(s, 1)),
        9 => format!("@code_block(language=`python`) `{}`", s.pick(&["x = 1", "if a < b:", "a & b"])),
        10 => format!("<figure>{}<figcaption>{}</></>", block(s, d - 1), inline(s, 1)),
        11 => s.pick(&["[1, `a`, <b>x</>]", "@dict::new(a=1, b=`x`).", "@match True {$v -> $v}", "<script src=`a`/>", "<style>a</>", "<iframe/>", "<a href=`x`><div>y</></>"]).to_string(),
        12 => format!("<form>{}</>", blocks(s, d - 1)),
        _ => format!("<{}>{}</>", s.pick(&["section", "article", "blockquote", "div", "details", "main", "header", "nav", "fieldset", "address"]), blocks(s, d - 1)),
    }
}
fn blocks(s: &mut Src, d: u32) -> String { s.vec(0, 4, |s| { let b = block(s, d); b + s.pick(&["\n\n", " ", ""]) }).concat() }

fn check(s: &mut Src, src: &str) -> CaseResult {
    s.note("program", src.to_string());
    s.tick();
    let o = compile(src)?;
    let nodes = read_html(&o.html)?;
    let mut want = String::new();
    plain(&nodes, &mut want);
    if o.text != want { return Err(format!("the text output is\n{:?}, expected\n{want:?}\nfor {:?}", o.text, o.html)); }
    if o.html.matches('<').count() >= 6 { s.nontrivial(); }
    Ok(())
}

fn documents(s: &mut Src) -> CaseResult {
    let src = match s.us(8) {
        0 => progs::plain(&progs::program(s)),
        1 => gen::program(s),
        2 => format!("@page(title={}, header={{{}}}) {{{}}}", str_lit(&gen::any_string(s, 4)), inline(s, 1), blocks(s, 2)),
        _ => blocks(s, 3),
    };
    // obsolete elements which the strict reader would take for containers
    if ["command", "keygen", "menuitem", "html::parse"].iter().any(|w| src.contains(w)) { return Ok(()); }
    check(s, &src)
}

fn command(s: &mut Src) -> CaseResult {
    let src = blocks(s, 3);
    s.note("program", src.clone());
    let o = compile(&src)?;
    if o.errors > 0 || o.html.is_empty() { return Ok(()); }
    let cwd = scratch_dir().join("c23/w");
    std::fs::create_dir_all(&cwd).unwrap();
    std::fs::write(cwd.join("a.papyri"), &src).unwrap();
    let _ = std::fs::remove_file(cwd.join("a.txt"));
    s.tick(); s.nontrivial();
    let (code, out, err) = c18::papyri(&cwd, &["-t".into(), "a.papyri".into()], None)?;
    if code != 0 { return Err(format!("exit status {code}\n{out}{err}")); }
    let got = std::fs::read_to_string(cwd.join("a.txt")).map_err(|e| format!("{e}"))?;
    let mut want = String::new();
    plain(&read_html(&o.html)?, &mut want);
    if got != want { return Err(format!("the file is\n{got:?}, expected\n{want:?}")); }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C23",
        subs: vec![
            Sub {name: "documents", quick: 80_000, thorough: 1_500_000, run: documents},
            Sub {name: "command", quick: 1_500, thorough: 40_000, run: command},
        ],
        fixed: vec![],
        rule: "documents of at least three elements",
        assumptions: &["the HTML rendering of the same document, read by the strict reader, says what the document is (C04)", "the elements which stand on lines of their own are those of the list in the check; a paragraph and a rule are followed by an empty line"],
    }
}
