//! C22: the helpers of the standard library, stacked in any order, against
//! their description: which element they make, and which attributes they add.
use crate::engine::*;
use crate::lang::*;
use super::{c05::is_block, gen};

type Attrs = Vec<(String, Option<String>)>;
fn el(n: &str, a: Attrs, k: Vec<Node>) -> Node { Node::El(n.into(), a, k) }
fn txt(t: &str) -> Node { Node::Text(t.into()) }

fn norm(v: Vec<Node>) -> Vec<Node> {
    let mut out: Vec<Node> = vec![];
    for n in v {
        match n {
            Node::Text(t) if t.is_empty() => {},
            Node::Text(t) => if let Some(Node::Text(u)) = out.last_mut() { *u += &t; } else { out.push(Node::Text(t)); },
            // the order of attributes and the spacing of classes are free
            Node::El(n, a, k) => {
                let mut a: Attrs = a.into_iter().map(|(k, v)| { let v = if k == "class" { v.map(|v| v.split_whitespace().collect::<Vec<_>>().join(" ")) } else { v }; (k.replace('_', "-"), v) }).collect();
                a.sort();
                out.push(el(&n, a, norm(k)));
            },
        }
    }
    out
}

/// Content which is only whitespace is no content for an element.
fn content(k: Vec<Node>) -> Vec<Node> { match &k[..] { [Node::Text(t)] if t.chars().all(|c| c.is_ascii_whitespace()) => vec![], _ => k } }

#[derive(Clone, Debug)]
enum Val { Str(String), Html(Vec<Node>), Func, Int(i64) }
impl Val {
    fn html(&self) -> Option<Vec<Node>> {
        match self { Val::Str(t) => Some(norm(vec![txt(t)])), Val::Html(h) => Some(h.clone()), Val::Int(i) => Some(vec![Node::Text(i.to_string().replace('-', "−"))]), Val::Func => None }
    }
    fn inline(&self) -> Option<Vec<Node>> { self.html().filter(|h| !h.iter().any(is_block)) }
    fn block(&self) -> Option<Vec<Node>> {
        let h = self.html()?;
        // inline content becomes a paragraph
        Some(if h.is_empty() || h.iter().any(is_block) { h } else { vec![el("p", vec![], h)] })
    }
    fn str(&self) -> Option<String> { match self { Val::Str(t) => Some(t.clone()), Val::Int(i) => Some(i.to_string()), _ => None } }
    /// As reported in messages.
    fn kind(&self) -> &'static str {
        match self { Val::Str(_) => "str", Val::Int(_) => "str", Val::Func => "function", Val::Html(h) if h.is_empty() => "none", Val::Html(h) if h.iter().any(is_block) => "block", Val::Html(h) => if let [Node::Text(_)] = h[..] { "str" } else { "inline" } }
    }
}

fn string(s: &mut Src) -> String {
    match s.us(5) { 0 => gen::any_string(s, 5), 1 => s.pick(&["a b", "<b>", "\" onclick=\"", "&amp;", "x;y", "", " "]).to_string(), _ => gen::word(s) }
}
/// A string as an argument: it need not be a literal.
fn arg(s: &mut Src) -> (String, String) {
    if s.chance(1, 8) { let i = s.below(100) as i64 - 20; return (i.to_string(), i.to_string()); }
    let t = string(s);
    (str_lit(&t), t)
}
const NAMES: &[&str] = &["id", "title", "data_x", "href", "class", "style", "hidden", "x"];

fn attrs(s: &mut Src) -> (String, Attrs) {
    let mut a: Attrs = vec![];
    let mut o = String::new();
    for _ in 0..s.weighted(&[5, 3, 2]) {
        let k = *s.pick(NAMES);
        if a.iter().any(|x| x.0 == k) { continue; }
        // (an existing class without a value is not generated)
        if k != "class" && k != "style" && s.chance(1, 4) { o += &format!(" {k}"); a.push((k.into(), None)); continue; }
        let v = if k == "class" || k == "style" { s.pick(&["a", "b", "x y", "color: red;"]).to_string() } else { string(s) };
        o += &format!(" {k}={}", str_lit(&v));
        a.push((k.into(), Some(v)));
    }
    (o, a)
}

fn start(s: &mut Src) -> (String, Val) {
    let inner = |s: &mut Src| { let t = gen::word(s); if s.chance(1, 3) { (format!("{t}<i>a</>"), vec![txt(&t), el("i", vec![], vec![txt("a")])]) } else { (t.clone(), vec![txt(&t)]) } };
    match s.us(14) {
        0 => { let t = string(s); let t = if !t.is_empty() && t.chars().all(|c| c.is_ascii_whitespace()) { "w".to_string() } else { t }; (str_lit(&t), Val::Str(t)) },
        1 => (".".into(), Val::Html(vec![])),
        2 => { let (o, k) = inner(s); (format!("{{{o}}}"), if k.len() == 1 { Val::Str(text_of(&k)) } else { Val::Html(k) }) },
        3 => { let i = s.below(50) as i64 - 10; (i.to_string(), Val::Int(i)) },
        4 => ("$typeof".into(), Val::Func),
        5 => ("[1, `a`]".into(), Val::Html(vec![el("ul", vec![], vec![el("li", vec![], vec![txt("1")]), el("li", vec![], vec![txt("a")])])])),
        6 => { let (o, a) = attrs(s); let n = *s.pick(&["br", "img", "hr"]); (format!("<{n}{o}>"), Val::Html(vec![el(n, a, vec![])])) },
        7 => { let (o, a) = attrs(s); let (t, k) = inner(s); (format!("<ul{o}><li>{t}</><li>b</></>"), Val::Html(vec![el("ul", a, vec![el("li", vec![], k), el("li", vec![], vec![txt("b")])])])) },
        8 => { let (o, a) = attrs(s); let (t, k) = inner(s); let n = *s.pick(&["p", "h2", "div", "li", "figure"]); (format!("<{n}{o}>{t}</>"), Val::Html(vec![el(n, a, k)])) },
        9 => { let (o, a) = attrs(s); let (t, k) = inner(s); (format!("{{<p>x</p><div{o}>{t}</>}}"), Val::Html(vec![el("p", vec![], vec![txt("x")]), el("div", a, k)])) },
        _ => { let (o, a) = attrs(s); let (t, k) = inner(s); let n = *s.pick(&["b", "a", "span", "foo", "em"]); (format!("<{n}{o}>{t}</>"), Val::Html(vec![el(n, a, k)])) },
    }
}

/// Applies one helper; an error is a part of the message.
fn helper(s: &mut Src, src: &str, v: &Val) -> (String, Result<Val, String>) {
    let wrong = |want: &str| Err::<Val, String>(format!("Type error: expected {want}, was "));
    let tag = |v: &Val| -> Result<(String, Attrs, Vec<Node>), String> {
        let Some(h) = v.html() else { return Err("Type error: expected html, was ".into()); };
        match &h[..] { [Node::El(n, a, k)] => Ok((n.clone(), a.clone(), k.clone())), _ => Err(format!("expected tag, was {}", v.kind())) }
    };
    let one = |n: String, a: Attrs, k: Vec<Node>| Ok(Val::Html(vec![Node::El(n, a, content(k))]));
    match s.us(18) {
        0..=2 => {
            let (c, t) = match s.us(3) { 0 => { let n = s.pick(&["k", "c d", "e"]).to_string(); (str_lit(&n), n) }, _ => { let (c, t) = arg(s); let t2 = t.trim_matches(|c: char| c.is_whitespace()).to_string(); if t2.is_empty() { ("`k`".into(), "k".into()) } else { (c, t) } } };
            (format!("@class({c}) {src}"), tag(v).and_then(|(n, mut a, k)| {
                match a.iter_mut().find(|x| x.0 == "class") { Some(x) => x.1 = Some(format!("{} {t}", x.1.clone().unwrap_or_default())), None => a.push(("class".into(), Some(t.clone()))) }
                one(n, a, k)
            }))
        },
        3 | 4 => {
            let (c, t) = arg(s);
            (format!("@style({c}) {src}"), tag(v).and_then(|(n, mut a, k)| {
                match a.iter_mut().find(|x| x.0 == "style") { Some(x) => x.1 = Some(format!("{}{t}", x.1.clone().unwrap_or_default())), None => a.push(("style".into(), Some(t.clone()))) }
                one(n, a, k)
            }))
        },
        5..=7 => {
            let mut d: Attrs = vec![];
            let mut o = vec![];
            for _ in 0..s.us(4) {
                let k = *s.pick(&["id", "title", "data_x", "lang", "x", "y_z", "class", "alt", "_q", "ID", "Title", "data_X"]);
                if d.iter().any(|x| x.0 == k) { continue; }
                if s.chance(1, 5) { o.push(format!("{k}=.")); d.push((k.into(), None)); } else { let (c, t) = arg(s); o.push(format!("{k}={c}")); d.push((k.into(), Some(t))); }
            }
            let call = if s.coin() || o.is_empty() { format!("@attributes({}) {src}", o.join(", ")) } else { format!("@attributes(**@dict::new({}).) {src}", o.join(", ")) };
            (call, tag(v).and_then(|(n, mut a, k)| {
                for (k, v) in &d {
                    if a.iter().any(|x| x.0.eq_ignore_ascii_case(k)) { return Err(format!("received multiple values for attribute '{k}'")); }
                    a.push((k.clone(), v.clone()));
                }
                one(n, a, k)
            }))
        },
        8 | 9 => {
            let (f, n) = *s.pick(&[("b", "b"), ("bold", "strong"), ("cite", "cite"), ("dfn", "dfn"), ("emph", "em"), ("i", "i"), ("quote", "q"), ("span", "span"), ("sub", "sub"), ("sup", "sup"), ("strikethrough", "s"), ("underline", "u")]);
            (format!("@{f} {src}"), v.inline().map_or_else(|| wrong("inline"), |k| one(n.into(), vec![], k)))
        },
        10 => {
            let n = *s.pick(&["h1", "h2", "h3", "h4", "h5", "h6"]);
            (format!("@{n} {src}"), v.inline().map_or_else(|| wrong("inline"), |k| one(n.into(), vec![], k)))
        },
        11 => { let n = *s.pick(&["kbd", "samp"]); (format!("@{n} {src}"), v.str().map_or_else(|| wrong("str"), |k| one(n.into(), vec![], norm(vec![txt(&k)])))) },
        12 => { let (c, t) = arg(s); (format!("@href({c}) {src}"), v.inline().map_or_else(|| wrong("inline"), |k| one("a".into(), vec![("href".into(), Some(t))], k))) },
        13 => {
            let (o, a) = match s.us(4) { 0 => { let (c, t) = arg(s); (format!("(alt={c})"), vec![("alt".to_string(), Some(t))]) }, 1 => ("(alt=.)".into(), vec![]), _ => (String::new(), vec![]) };
            (format!("@image{o} {src}"), v.str().map_or_else(|| wrong("str"), |k| one("img".into(), [vec![("src".into(), Some(k))], a].concat(), vec![])))
        },
        14 => {
            let (o, a) = match s.us(3) { 0 => { let (c, t) = arg(s); (format!("(cite={c})"), vec![("cite".to_string(), Some(t))]) }, _ => (String::new(), vec![]) };
            (format!("@blockquote{o} {src}"), v.block().map_or_else(|| wrong("block"), |k| one("blockquote".into(), a, k)))
        },
        15 => {
            (format!("@numbered {src}"), match v.html() {
                None => wrong("html"),
                Some(h) => match &h[..] {
                    [Node::El(n, a, k)] if n == "ul" => one("ol".into(), a.clone(), k.clone()),
                    [Node::El(n, ..)] => Err(format!("expected <ul> tag, was <{n}> tag")),
                    _ => Err(format!("expected <ul> tag, was {}", v.kind())),
                },
            })
        },
        16 => (format!("@footnote {src}"), v.inline().map_or_else(|| wrong("inline"), |k| Ok(Val::Html(vec![txt("\u{2060}"), el("a", vec![("class".into(), Some("footnote-ref".into()))], vec![]), el("span", vec![("class".into(), Some("footnote panel".into()))], content(k))])))),
        _ => if s.coin() {
            (format!("@block::from {src}"), v.block().map_or_else(|| wrong("block"), |k| Ok(Val::Html(k))))
        } else {
            (format!("@inline::from {src}"), v.inline().map_or_else(|| wrong("inline"), |k| Ok(match (v, &k[..]) { (Val::Str(_), _) => v.clone(), (_, [Node::Text(t)]) => Val::Str(t.clone()), _ => Val::Html(k) })))
        },
    }
}

fn stacked(s: &mut Src) -> CaseResult {
    let (mut src, v) = start(s);
    let mut v = Ok(v);
    let mut lets = String::new();
    let n = 1 + s.us(5);
    let mut applied = 0;
    for i in 0..n {
        let Ok(x) = &v else { break; };
        let (a, b) = helper(s, &src, x);
        src = a; v = b;
        applied += 1;
        if s.chance(1, 6) { lets += &format!("@let(v{i}_={src}) "); src = format!("$v{i}_"); }
    }
    // `@f x` where x is a negative number or a group needs no brackets
    let prog = format!("{lets}@let(r={src}) {{@export(r=$r).}}");
    s.note("program", prog.clone());
    if applied >= 3 || applied == 2 && v.is_ok() { s.nontrivial(); }
    s.tick();
    let e = eval(&prog, &["r".to_string()])?;
    match v {
        Err(m) => {
            s.label("refused");
            let Some(d) = e.out.diags().into_iter().next() else { return Err(format!("no error, expected {m:?}; the value is {:?}", e.get("r"))); };
            if !d.msg.contains(&m) { return Err(format!("reported {:?}, expected {m:?}", d.msg)); }
            match e.get("r") { None => Ok(()), Some(v) if *v == V::unit() => Ok(()), Some(v) => Err(format!("an error is reported, but the value is {v:?}")) }
        },
        Ok(v) => {
            s.label("made");
            if !e.out.ok() { return Err(format!("diagnostics: {}", e.out.printed)); }
            let got = e.get("r").ok_or("no value")?;
            let want = norm(v.html().ok_or("harness: a function")?);
            let got = match got { V::Html(h) => norm(read_html(h)?), V::Str(t) => norm(vec![txt(t)]), g => return Err(format!("the value is {g:?}")) };
            if got != want { return Err(format!("made {got:?}\n  expected {want:?}")); }
            Ok(())
        },
    }
}

/// Blocks, as source and as nodes.
fn blocks(s: &mut Src) -> (String, Vec<Node>) {
    let mut o = String::new();
    let mut v = vec![];
    for _ in 0..1 + s.us(3) {
        let t = gen::word(s);
        match s.us(5) {
            0 => { o += &format!("<h1>{t}</>"); v.push(el("h1", vec![], vec![txt(&t)])); },
            1 => { o += &format!("<section><p>{t}</></>"); v.push(el("section", vec![], vec![el("p", vec![], vec![txt(&t)])])); },
            2 => { o += &format!("{t}\n\n"); v.push(el("p", vec![], vec![txt(&t)])); },
            3 => { o += &format!("@h2 {{{t}}}"); v.push(el("h2", vec![], vec![txt(&t)])); },
            _ => { o += &format!("<p>{t} <b>x</></>"); v.push(el("p", vec![], vec![txt(&format!("{t} ")), el("b", vec![], vec![txt("x")])])); },
        }
    }
    (o, v)
}

fn page(s: &mut Src) -> CaseResult {
    let (tsrc, title) = arg(s);
    let mut args = vec![format!("title={tsrc}")];
    let mut root = "https://kaya3.github.io/papyri".to_string();
    if s.coin() {
        let r = s.pick(&[".", "..", "/a", "https://x.org/y", "a/b/", "/", "../", "x//", "é", "a&b", ""]).to_string();
        args.push(format!("web_root={}", str_lit(&r)));
        // one slash at the end is dropped
        root = match r.strip_suffix('/') { Some(p) if !p.is_empty() => p.to_string(), _ => r };
    }
    let mut head = vec![
        el("title", vec![], content(vec![txt(&title)])),
        el("meta", vec![("charset".into(), Some("utf-8".into()))], vec![]),
        el("link", vec![("rel".into(), Some("stylesheet".into())), ("type".into(), Some("text/css".into())), ("href".into(), Some(format!("{root}/papyri.css")))], vec![]),
    ];
    let mut body = vec![];
    let mut parts = args.len();
    if s.coin() {
        let (o, v) = match s.us(4) {
            0 => ("<meta name=`a` content=`b`>".to_string(), vec![el("meta", vec![("name".into(), Some("a".into())), ("content".into(), Some("b".into()))], vec![])]),
            1 => ("{<link rel=`icon` href=`i`><style>a</>}".into(), vec![el("link", vec![("rel".into(), Some("icon".into())), ("href".into(), Some("i".into()))], vec![]), el("style", vec![], vec![txt("a")])]),
            2 => (".".into(), vec![]),
            _ => ("<script src=`s.js`/>".into(), vec![el("script", vec![("src".into(), Some("s.js".into()))], vec![])]),
        };
        args.push(format!("head={o}")); head.extend(v); parts += 1;
    }
    let section = |s: &mut Src, args: &mut Vec<String>, n: &str| -> Option<Node> {
        if s.coin() { return None; }
        if s.chance(1, 8) { args.push(format!("{n}=.")); return None; }
        let (o, v) = if s.chance(1, 3) { let w = gen::word(s); (w.clone(), vec![el("p", vec![], vec![txt(&w)])]) } else { blocks(s) };
        args.push(format!("{n}={{{o}}}"));
        Some(el(n, vec![], v))
    };
    if let Some(h) = section(s, &mut args, "header") { body.push(h); parts += 1; }
    let footer = section(s, &mut args, "footer");
    if footer.is_some() { parts += 1; }
    let (c, cv) = if s.chance(1, 4) { let w = gen::word(s); (format!("{{{w} <i>a</>}}"), vec![el("p", vec![], vec![txt(&format!("{w} ")), el("i", vec![], vec![txt("a")])])]) } else { let (o, v) = blocks(s); (format!("{{{o}}}"), v) };
    body.push(el("article", vec![], cv));
    body.extend(footer);
    body.push(el("script", vec![("type".into(), Some("text/javascript".into())), ("src".into(), Some(format!("{root}/papyri.js")))], vec![]));
    // arguments in any order
    for i in (1..args.len()).rev() { let j = s.us(i + 1); args.swap(i, j); }
    let src = match s.us(3) { 0 => format!("@page({}) {c}", args.join(", ")), 1 => format!("@page(\n    {},\n) {c}\n", args.join(",\n    ")), _ => format!("@page({}) ...\n{}", args.join(", "), &c[1..c.len() - 1]) };
    s.note("program", src.clone());
    if parts >= 3 { s.nontrivial(); }
    s.tick();
    let out = compile(&src)?;
    if !out.ok() { return Err(format!("diagnostics: {}", out.printed)); }
    let want = norm(vec![el("!DOCTYPE", vec![("html".into(), None)], vec![]), el("html", vec![], vec![el("head", vec![], head), el("body", vec![], body)])]);
    let got = norm(read_html(&out.html)?);
    if got != want { return Err(format!("made {got:?}\n  expected {want:?}")); }
    Ok(())
}

fn listing(s: &mut Src) -> CaseResult {
    // code_block is a pre element with what @code makes of the same block
    let code = s.vec(1, 4, |s| s.pick(&["x = 1", "    y", "def f():", "a < b & c", "é", "# c", "\"s\""]).to_string()).join("\n");
    let lang = *s.pick(&["python", "none", "text", "papyri", "html", "json"]);
    let n = if s.coin() { Some(s.below(200) as i64 - 20) } else { None };
    let first = n.map(|n| format!("first_line_no={n}")).unwrap_or_default();
    let lit = str_lit(&code);
    let args = |extra: &str, l: bool| { let mut a: Vec<String> = vec![]; if l { a.push(format!("language=`{lang}`")); } if !extra.is_empty() { a.push(extra.into()); } if !first.is_empty() { a.push(first.clone()); } if a.is_empty() { String::new() } else { format!("({})", a.join(", ")) } };
    let (mode, src) = match s.us(3) {
        0 => ("given", format!("@export(a=@code_block{} {lit}, b=@code{} {lit}).", args("", true), args("code_block=True", true))),
        1 => ("implicit", format!("@implicit(language=`{lang}`) {{@export(a=@code_block{} {lit}, b=@code{} {lit}).}}", args("", false), args("code_block=True", true))),
        _ => ("absent", format!("@export(a=@code_block{} {lit}, b=@code{} {lit}).", args("", false), args("code_block=True", false))),
    };
    s.note("program", src.clone());
    s.label(mode);
    s.nontrivial();
    s.tick();
    let src = src.replace("@implicit(", "@let(language: @implicit str=").replace("@let(language: @implicit str=language=", "@implicit(language=");
    let e = eval(&src, &["a", "b"].map(String::from))?;
    if e.out.errors > 0 { return Err(format!("diagnostics: {}", e.out.printed)); }
    let (Some(V::Html(a)), Some(V::Html(b))) = (e.get("a"), e.get("b")) else { return Err(format!("exports {:?}", e.vals)); };
    let (a, b) = (norm(read_html(a)?), norm(read_html(b)?));
    let want = norm(vec![el("pre", vec![("class".into(), Some("panel listing".into()))], b)]);
    if a != want { return Err(format!("made {a:?}\n  expected {want:?}")); }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C22",
        subs: vec![
            Sub {name: "stacked", quick: 40_000, thorough: 2_000_000, run: stacked},
            Sub {name: "page", quick: 10_000, thorough: 400_000, run: page},
            Sub {name: "listing", quick: 4_000, thorough: 100_000, run: listing},
        ],
        fixed: vec![],
        rule: "stacked: at least three helpers, or two which both apply; page: at least three parts given; listing: every case",
        assumptions: &["the order of attributes and the whitespace between classes are free", "an element with a class or style attribute without a value is not generated"],
    }
}
