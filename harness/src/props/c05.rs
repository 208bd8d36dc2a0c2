//! C05: each element's content obeys its content model. The oracle is a
//! recursive specification of how a sequence of items is placed in an element
//! of each kind, over the element names of the published content models.
use crate::engine::*;
use crate::lang::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    /// Only these elements; anything else is wrapped in the first one.
    OneOf(&'static [&'static str]),
    /// Only blocks; anything else is wrapped in paragraphs.
    Blocks,
    /// Either inline content only, or blocks only.
    Either,
    Inline,
    /// Inline content, with no paragraph breaks.
    Line,
    Empty,
}

pub fn kind(tag: &str) -> Kind {
    match tag {
        "article" | "aside" | "blockquote" | "footer" | "header" | "main" | "nav" | "section" => Kind::Blocks,
        "a" | "address" | "body" | "details" | "div" | "fieldset" | "figcaption" | "figure" | "form" | "li" => Kind::Either,
        "dl" => Kind::OneOf(&["dd", "dt"]),
        "hgroup" => Kind::OneOf(&["p", "h1", "h2", "h3", "h4", "h5", "h6"]),
        "html" => Kind::OneOf(&["body", "head"]),
        "head" => Kind::OneOf(&["base", "link", "meta", "noscript", "script", "style", "template", "title"]),
        "menu" | "ol" | "ul" => Kind::OneOf(&["li"]),
        "table" => Kind::OneOf(&["tr", "tbody", "tfoot", "thead", "caption", "colgroup"]),
        "tbody" | "tfoot" | "thead" => Kind::OneOf(&["tr"]),
        "tr" => Kind::OneOf(&["td", "th"]),
        "h1" | "h2" | "h3" | "h4" | "h5" | "h6" | "p" => Kind::Line,
        t if VOID.contains(&t) || t == "!DOCTYPE" => Kind::Empty,
        _ => Kind::Inline,
    }
}

const BLOCKS: &[&str] = &[
    "!DOCTYPE", "address", "article", "aside", "base", "blockquote", "body", "dd", "details", "div", "dl", "dt", "fieldset", "figcaption", "figure", "footer", "form", "h1", "h2", "h3", "h4", "h5", "h6", "head", "header", "hgroup", "hr", "html",
    "iframe", "li", "link", "main", "menu", "meta", "nav", "ol", "p", "pre", "script", "section", "style", "table", "template", "title", "ul",
];

pub fn is_block(n: &Node) -> bool {
    match n {
        Node::Text(_) => false,
        Node::El(t, _, k) if t == "a" => k.iter().any(is_block),
        Node::El(t, ..) => BLOCKS.contains(&t.as_str()),
    }
}

/// One item of the content of an element.
#[derive(Clone)]
pub enum It {
    Ws,
    /// A paragraph break.
    Break,
    /// A value: nothing, one node, or several.
    Nodes(Vec<Node>),
}

pub fn el(t: &str, k: Vec<Node>) -> Node { Node::El(t.into(), vec![], k) }

fn push(out: &mut Vec<Node>, n: Node) {
    match (out.last_mut(), n) {
        (Some(Node::Text(t)), Node::Text(u)) => *t += &u,
        (_, n) => out.push(n),
    }
}

/// How the items are placed in an element of this kind; `Err` if they may not be.
pub fn place(k: Kind, items: &[It]) -> Result<Vec<Node>, String> {
    let mut out: Vec<Node> = Vec::new();
    match k {
        Kind::Inline | Kind::Line | Kind::Empty => {
            let mut flat: Vec<It> = vec![];
            for it in items {
                match it {
                    It::Ws => flat.push(It::Ws),
                    It::Break => match k {
                        Kind::Inline => flat.push(It::Nodes(vec![el("br", vec![])])),
                        Kind::Line => return Err("paragraph break".into()),
                        _ => {},
                    },
                    It::Nodes(n) if n.is_empty() => {},
                    It::Nodes(n) => {
                        if k == Kind::Empty { return Err("content in a void element".into()); }
                        if n.iter().any(is_block) { return Err("block in inline content".into()); }
                        flat.push(it.clone());
                    },
                }
            }
            while let Some(It::Ws) = flat.last() { flat.pop(); }
            let lead = flat.iter().take_while(|i| matches!(i, It::Ws)).count();
            for it in flat.drain(..).skip(lead) {
                match it { It::Ws => push(&mut out, Node::Text(" ".into())), It::Nodes(n) => n.into_iter().for_each(|n| push(&mut out, n)), It::Break => unreachable!() }
            }
        },
        Kind::OneOf(_) | Kind::Blocks | Kind::Either => {
            let allowed = |n: &[Node]| match k {
                Kind::OneOf(ts) => n.iter().all(|n| matches!(n, Node::El(t, ..) if ts.contains(&t.as_str()))),
                _ => n.iter().any(is_block),
            };
            let wrapper = if let Kind::OneOf(ts) = k { ts[0] } else { "p" };
            let mut run: Vec<It> = vec![];
            let mut whole = true; // nothing but one run so far
            let close = |run: &mut Vec<It>, out: &mut Vec<Node>| -> Result<(), String> {
                let c = place(kind(wrapper), run)?;
                run.clear();
                if !c.is_empty() { out.push(el(wrapper, c)); }
                Ok(())
            };
            for it in items {
                match it {
                    It::Break => { close(&mut run, &mut out)?; },
                    It::Nodes(n) if n.is_empty() => {},
                    It::Nodes(n) if allowed(n) => { close(&mut run, &mut out)?; n.iter().for_each(|n| push(&mut out, n.clone())); },
                    it => run.push(it.clone()),
                }
                whole = out.is_empty();
            }
            if k == Kind::Either && whole { return place(Kind::Line, &run); }
            close(&mut run, &mut out)?;
        },
    }
    Ok(out)
}

/// What must hold of the children of every rendered element.
fn valid(tag: Option<&str>, kids: &[Node]) -> Result<(), String> {
    let k = tag.map_or(Kind::Blocks, kind);
    let bad = |w: &str| Err(format!("<{}> contains {w}: {kids:?}", tag.unwrap_or("root")));
    let blocks = kids.iter().filter(|n| is_block(n)).count();
    match k {
        Kind::OneOf(ts) => if !kids.iter().all(|n| matches!(n, Node::El(t, ..) if ts.contains(&t.as_str()))) { return bad("something not allowed"); },
        Kind::Blocks => if blocks != kids.len() { return bad("inline content"); },
        Kind::Either => if blocks != 0 && blocks != kids.len() { return bad("mixed content"); },
        Kind::Inline | Kind::Line => if blocks != 0 { return bad("a block"); },
        Kind::Empty => if !kids.is_empty() { return bad("content"); },
    }
    inner(kids)
}
fn inner(kids: &[Node]) -> Result<(), String> {
    for n in kids {
        match n {
            // a dict is shown as a table, with its values as they are in the cells
            Node::El(t, a, k) if t == "table" && a.iter().any(|a| a.1.as_deref().is_some_and(|c| c.split_whitespace().any(|w| w == "tabular-data"))) => for r in k {
                if let Node::El(_, _, c) = r { for c in c { if let Node::El(_, _, k) = c { inner(k)?; } } }
            },
            Node::El(t, _, k) => valid(Some(t), k)?,
            Node::Text(_) => {},
        }
    }
    Ok(())
}

const TAGS: &[&str] = &[
    "span", "b", "em", "a", "td", "th", "caption", "colgroup", "code", "li", "dd", "dt", "pre", "title", "p", "h1", "h2", "h6", "div", "div", "section", "blockquote", "article", "body", "figure", "figcaption", "form", "address", "details", "fieldset",
    "aside", "footer", "header", "main", "nav", "ul", "ol", "menu", "dl", "table", "table", "tr", "tbody", "thead", "tfoot", "hgroup", "head", "html", "iframe", "template", "h3", "h4", "h5", "label", "noscript",
];
const VOIDS: &[&str] = &["br", "hr", "img", "meta", "link", "wbr", "base", "input"];
const WORDS: &[&str] = &["x", "yy", "z", "foo", "(bar)", "é", "a.b", "1"];

/// Drops and merges what the source does not distinguish: whitespace at the
/// edges, and adjacent whitespace.
fn normal(items: Vec<It>) -> Vec<It> {
    let mut out: Vec<It> = vec![];
    for it in items {
        match (out.last(), &it) {
            (Some(It::Ws), It::Ws) | (Some(It::Break), It::Ws) | (Some(It::Break), It::Break) => {},
            (Some(It::Ws), It::Break) => { out.pop(); out.push(it); },
            _ => out.push(it),
        }
    }
    while matches!(out.last(), Some(It::Ws | It::Break)) { out.pop(); }
    let n = out.iter().take_while(|i| matches!(i, It::Ws | It::Break)).count();
    out.drain(..n);
    out
}

struct G { err: Option<String>, count: usize, joined: bool }

/// Generates the content of something: its source, and its items.
fn content(s: &mut Src, g: &mut G, parent: Kind, depth: u32, max: usize) -> (String, Vec<It>) {
    let mut src = String::new();
    let mut last_ws = true;
    let mut breaks_ok = s.chance(2, 3);
    if parent == Kind::Line { breaks_ok = s.chance(1, 10); }
    // without this, nearly every inline-only element would be an error
    let inline_only = matches!(parent, Kind::Inline | Kind::Line) && !s.chance(1, 8);
    let items = s.vec(0, max, |s| {
        g.count += 1;
        let d = if depth > 0 { 1 } else { 0 };
        let it = match s.weighted(&[6, 4, if breaks_ok { 3 } else { 0 }, 6 * d, 1, 2 * d, 1, if inline_only { 0 } else { d }, 1, d]) {
            0 => { let w = *s.pick(WORDS); src += w; It::Nodes(vec![Node::Text(w.into())]) },
            1 => { src += if last_ws { " " } else { *s.pick(&[" ", "\n", "  "]) }; It::Ws },
            2 => { src += *s.pick(&["\n\n", "\n \n", "\n\n\n"]); It::Break },
            3 => {
                let tag = match parent {
                    Kind::OneOf(ts) if s.chance(2, 3) => { let t = *s.pick(ts); if kind(t) == Kind::Empty { "title" } else { t } },
                    _ if inline_only => *s.pick(&["span", "b", "em", "a", "code"]),
                    _ => *s.pick(TAGS),
                };
                let n = element(s, g, tag, depth - 1, inline_only, &mut src);
                It::Nodes(vec![n])
            },
            4 => {
                let t = if inline_only { *s.pick(&["br", "img", "wbr"]) } else { *s.pick(VOIDS) };
                src += &format!("<{t}>");
                It::Nodes(vec![el(t, vec![])])
            },
            5 => {
                let (c, items) = content(s, g, if inline_only { Kind::Line } else { Kind::Either }, depth - 1, 4);
                let k = Kind::Either;
                let pre = if c.trim().is_empty() { "" } else { *s.pick(&["", "", "@let(q=1)", "@match 1 {_ -> "]) };
                src += &format!("{pre}{{{c}}}");
                if pre.starts_with("@match") { src.push('}'); }
                It::Nodes(finish(g, k, items))
            },
            6 => { src += *s.pick(&["{}", "@match 1 {_ -> .}", "{ }"]); It::Nodes(vec![]) },
            7 => {
                // a list is shown as <ul>
                let mut es: Vec<String> = vec![];
                let lis = s.vec(0, 3, |s| {
                    let (c, items) = content(s, g, Kind::Either, depth - 1, 3);
                    es.push(format!("{{{c}}}"));
                    let n = finish(g, Kind::Either, items);
                    el("li", n)
                });
                src += &format!("[{}]", es.join(", "));
                It::Nodes(vec![el("ul", lis)])
            },
            8 => { let w = *s.pick(WORDS); src += &format!("@str::from `{w}`"); It::Nodes(vec![Node::Text(w.into())]) },
            _ => {
                // one value of several nodes, which may be inline and block
                let mut es: Vec<String> = vec![];
                let mut nodes = vec![];
                s.vec(1, 3, |s| {
                    let mut src = String::new();
                    let n = if s.chance(1, 3) {
                        let w = *s.pick(WORDS);
                        src += &format!("`{w}`");
                        Node::Text(w.into())
                    } else {
                        let tag = match parent {
                            Kind::OneOf(ts) if s.coin() => { let t = *s.pick(ts); if kind(t) == Kind::Empty { "title" } else { t } },
                            _ if inline_only || s.chance(1, 3) => *s.pick(&["span", "b", "em", "a", "code"]),
                            _ => *s.pick(TAGS),
                        };
                        element(s, g, tag, depth - 1, inline_only, &mut src)
                    };
                    es.push(src);
                    push(&mut nodes, n);
                });
                if nodes.len() > 1 && nodes.iter().any(is_block) != nodes.iter().all(is_block) { g.joined = true; }
                if s.coin() { src += &format!("@list::join [{}]", es.join(", ")); }
                else { src += &format!("@let(joined=[{}]) {{@list::join $joined}}", es.join(", ")); }
                It::Nodes(nodes)
            },
        };
        last_ws = matches!(it, It::Ws | It::Break);
        it
    });
    (src, normal(items))
}

fn finish(g: &mut G, k: Kind, items: Vec<It>) -> Vec<Node> {
    place(k, &items).unwrap_or_else(|e| { g.err.get_or_insert(e); vec![] })
}

fn element(s: &mut Src, g: &mut G, tag: &str, depth: u32, inline_only: bool, src: &mut String) -> Node {
    let k = kind(tag);
    let (c, items) = content(s, g, if inline_only { Kind::Line } else { k }, depth, 5);
    let kids = finish(g, k, items);
    match s.us(4) {
        0 => *src += &format!("<{tag}>{c}</{tag}>"),
        1 => *src += &format!("@let(t=`{tag}`)<$t>{c}</>"),
        _ => *src += &format!("<{tag}>{c}</>"),
    }
    el(tag, kids)
}

fn run(s: &mut Src) -> CaseResult {
    let mut g = G {err: None, count: 0, joined: false};
    let (src, want) = if s.chance(1, 3) {
        let (src, items) = content(s, &mut g, Kind::Blocks, 3, 8);
        let w = finish(&mut g, Kind::Blocks, items);
        (src, w)
    } else {
        // one element of each kind gets its turn
        let tag = *s.pick(TAGS);
        let mut src = String::new();
        let n = element(s, &mut g, tag, 3, false, &mut src);
        let w = finish(&mut g, Kind::Blocks, vec![It::Nodes(vec![n])]);
        (src, w)
    };
    s.note("source", src.clone());
    if g.count >= 3 { s.nontrivial(); }
    s.label(if g.err.is_some() { "forbidden content" } else { "allowed content" });
    s.tick();
    let out = compile(&src)?;
    let got = read_html(&out.html)?;
    // such a value is placed as it is
    if !g.joined { valid(None, &got).map_err(|e| format!("rendered {}: {e}", out.html))?; } else { s.label("inline and block in one value"); }
    match g.err {
        Some(e) => if out.errors == 0 { return Err(format!("{e} was accepted: {}", out.html)); },
        None => {
            if !out.ok() { return Err(format!("rejected: {}\nexpected {want:?}", out.printed)); }
            if got != want { return Err(format!("rendered\n  {got:?}\nexpected\n  {want:?}")); }
        },
    }
    Ok(())
}

/// Content in a void element can only come from a computed tag name.
fn run_void(s: &mut Src) -> CaseResult {
    let t = *s.pick(VOID);
    let t = if t == "param" || t == "source" { "img" } else { t };
    let (mut src, bad) = match s.us(4) {
        0 => (format!("<{t}>"), false),
        1 => (format!("<{t}/>"), false),
        2 => (format!("@let(t={t}) <$t>{}</>", s.pick(&["", " ", "\n\n", "{}", " {} "])), false),
        _ => (format!("@let(t={t}) <$t>{}</>", s.pick(&["x", "<b>x</b>", "<p>x</p>", " x ", "{x}", "<br>", "1"])), true),
    };
    if matches!(t, "base" | "col") { src = format!("<div>{src}</div>"); }
    s.note("source", src.clone());
    s.nontrivial();
    s.tick();
    let out = compile(&src)?;
    if bad != (out.errors > 0) { return Err(format!("{}: {}", if bad { "accepted" } else { "rejected" }, out.printed)); }
    if !bad && !out.html.contains(&format!("<{t}>")) { return Err(format!("<{t}> is missing from {}", out.html)); }
    valid(None, &read_html(&out.html)?)
}

/// The output of any program has only allowed content in each element.
fn run_any(s: &mut Src) -> CaseResult {
    let src = super::gen::program(s);
    if super::gen::may_recurse(&src) || ["html::parse", "::join", "html_nodes"].iter().any(|w| src.contains(w)) { return Ok(()); }
    s.note("source", src.clone());
    let Ok(out) = compile(&src) else { return Ok(()); };
    s.tick();
    let Ok(got) = read_html(&out.html) else { return Ok(()); };
    if out.html.matches('<').count() >= 4 { s.nontrivial(); }
    valid(None, &got).map_err(|e| format!("rendered {}: {e}", out.html))
}

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        subs: vec![
            Sub {name: "placement", quick: 150_000, thorough: 5_000_000, run},
            Sub {name: "any program", quick: 60_000, thorough: 3_000_000, run: run_any},
            Sub {name: "void elements", quick: 2_000, thorough: 20_000, run: run_void},
        ],
        fixed: vec![],
        rule: "documents of at least 3 items; items are text, whitespace, paragraph breaks, elements of every content kind, groups, lists, joined values and empty values, nested up to 4 deep",
        assumptions: &["a value built by joining inline and block content is placed as a whole, like a block: its own nodes are not wrapped in paragraphs"],
    }
}
