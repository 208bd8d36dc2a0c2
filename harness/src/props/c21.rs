//! C21: raw HTML is parsed to the tree a browser would build, and round-trips.
//! Documents are generated together with their trees and written in the many
//! ways HTML allows; arbitrary text is compared with a conforming parser.
use crate::engine::*;
use crate::lang::*;
use super::{dom, gen};
use html5ever::tendril::TendrilSink;
use markup5ever_rcdom::{Handle, NodeData, RcDom};

type Attrs = Vec<(String, Option<String>)>;
fn el(n: &str, a: Attrs, k: Vec<Node>) -> Node { Node::El(n.into(), a, k) }

const NAMED: &[(char, &str)] = &[('é', "eacute"), ('\u{a0}', "nbsp"), ('©', "copy"), ('"', "quot"), ('€', "euro"), ('—', "mdash"), ('𝔸', "Aopf"), ('\u{2009}', "thinsp"), ('\'', "apos")];

/// A character that may occur in conforming HTML.
fn good(c: char) -> bool {
    let u = c as u32;
    !(u < 0x20 && c != '\n' && c != '\t' || (0x7f..0xa0).contains(&u) || (0xfdd0..0xfdf0).contains(&u) || u & 0xfffe == 0xfffe || c == '\u{feff}')
}
fn text(s: &mut Src) -> String {
    let t: String = match s.us(5) {
        0 => gen::any_string(s, 6),
        1 => s.vec(1, 4, |s| s.pick(&["<", ">", "&", "\"", "'", "&amp;", "&lt", "é", "\u{a0}", "©", "<b>", "-->", "</p>", " ", "\n", "€", "=", "`", "𝔸", "$x", "{", "@b", "\\"]).to_string()).concat(),
        _ => s.vec(1, 3, gen::word).join(*s.pick(&[" ", "  ", "\n", ""])),
    };
    t.chars().filter(|&c| good(c)).collect()
}
/// Writes text or an attribute value (in the given quotes).
fn encode(s: &mut Src, t: &str, quote: Option<char>) -> String {
    let cs: Vec<char> = t.chars().collect();
    let mut o = String::new();
    for (i, &c) in cs.iter().enumerate() {
        let numeric = |s: &mut Src| match s.us(3) { 0 => format!("&#{};", c as u32), 1 => format!("&#x{:x};", c as u32), _ => format!("&#X{:04X};", c as u32) };
        let must = match quote { None => c == '<', Some(q) => c == q } || c == '&' && (t.contains('\n') || !cs.get(i + 1).is_some_and(|n| n.is_whitespace()));
        // (html5ever doubles a CRLF which ends a lone `&` and letters)
        match c {
            '&' if must || s.coin() => o += &if s.coin() { "&amp;".to_string() } else { numeric(s) },
            '&' => o.push(c),
            '<' if must || s.chance(1, 3) => o += &if s.coin() { "&lt;".to_string() } else { numeric(s) },
            '>' if s.coin() => o += &if s.coin() { "&gt;".to_string() } else { numeric(s) },
            _ if must => o += &if s.coin() { NAMED.iter().find(|p| p.0 == c).map(|p| format!("&{};", p.1)).unwrap_or_default() } else { numeric(s) },
            _ if s.chance(1, 8) => o += &NAMED.iter().find(|p| p.0 == c).filter(|_| s.coin()).map(|p| format!("&{};", p.1)).unwrap_or_else(|| numeric(s)),
            '\n' if s.chance(1, 4) => o += "\r\n",
            _ => o.push(c),
        }
    }
    o
}
fn case(s: &mut Src, n: &str) -> String { match s.us(6) { 0 => n.to_uppercase(), 1 => n.chars().map(|c| if s.coin() { c.to_ascii_uppercase() } else { c }).collect(), _ => n.to_string() } }

const ATTRS: &[&str] = &["id", "class", "title", "data-x", "data-long-name", "aria-label", "href", "hidden", "style", "x", "xml:lang", "lang", "é", "onclick"];

fn attrs(s: &mut Src, o: &mut String) -> Attrs {
    let mut a: Attrs = vec![];
    for _ in 0..s.weighted(&[6, 3, 2, 1]) {
        let k = *s.pick(ATTRS);
        let v = if s.chance(1, 5) { String::new() } else { text(s) };
        *o += *s.pick(&[" ", " ", "  ", "\n", "\t"]);
        *o += &if k == "é" { k.to_string() } else { case(s, k) };
        let plain = !v.is_empty() && v.chars().all(|c| c.is_alphanumeric() || "-_.:/#?".contains(c));
        let eq = *s.pick(&["=", "=", "=", " =", "= ", "\n=\n"]);
        *o += &match s.us(4) {
            0 if v.is_empty() => String::new(),
            1 if plain => format!("{eq}{v}"),
            2 => format!("{eq}'{}'", encode(s, &v, Some('\''))),
            _ => format!("{eq}\"{}\"", encode(s, &v, Some('"'))),
        };
        if !a.iter().any(|x| x.0 == k) { a.push((k.into(), Some(v))); }
    }
    if s.chance(1, 6) { *o += " "; }
    a
}
fn tag(s: &mut Src, n: &str, o: &mut String) -> Attrs {
    *o += "<";
    *o += &case(s, n);
    let a = attrs(s, o);
    // an unquoted value would take a slash; here no void element is closed with one
    *o += ">";
    a
}
fn close(s: &mut Src, n: &str, o: &mut String) { let n = case(s, n); *o += &format!("</{n}{}>", s.pick(&["", "", "", " ", "\n"])); }
fn comment(s: &mut Src, o: &mut String) { if s.chance(1, 8) { *o += *s.pick(&["<!-- c -->", "<!---->", "<!-- <b> & -->", "<!--\n- -\n-->"]); } }

fn phrasing(s: &mut Src, d: u32, o: &mut String, in_a: bool) -> Vec<Node> {
    let mut v = vec![];
    for _ in 0..s.us(4) {
        comment(s, o);
        if d == 0 || s.coin() {
            let t = text(s);
            *o += &encode(s, &t, None);
            v.push(Node::Text(t));
            continue;
        }
        match s.us(9) {
            0 => { let n = *s.pick(&["br", "img", "input", "wbr"]); let a = tag(s, n, o); v.push(el(n, a, vec![])); },
            1 if !in_a => { let a = tag(s, "a", o); let k = phrasing(s, d - 1, o, true); close(s, "a", o); v.push(el("a", a, k)); },
            2 => {
                // foreign content
                *o += *s.pick(&["<svg viewBox=\"0 0 1 1\">", "<SVG VIEWBOX='0 0 1 1'>"]);
                let mut k = vec![];
                for _ in 0..s.us(3) {
                    match s.us(4) {
                        0 => { *o += "<path d='M0'/>"; k.push(el("path", vec![("d".into(), Some("M0".into()))], vec![])); },
                        1 => { *o += "<use xlink:href=#x href=y />"; k.push(el("use", vec![("xlink:href".into(), Some("#x".into())), ("href".into(), Some("y".into()))], vec![])); },
                        2 => { *o += "<foreignObject><p>a</p></foreignObject>"; k.push(el("foreignobject", vec![], vec![el("p", vec![], vec![Node::Text("a".into())])])); },
                        _ => { let t = "a<b&amp;"; *o += &format!("<text><![CDATA[{t}]]></text>"); k.push(el("text", vec![], vec![Node::Text(t.into())])); },
                    }
                }
                *o += "</svg>";
                v.push(el("svg", vec![("viewbox".into(), Some("0 0 1 1".into()))], k));
            },
            3 => {
                let a = tag(s, "select", o);
                let mut k = vec![];
                for _ in 0..s.us(3) {
                    let a = tag(s, "option", o); let t = text(s); *o += &encode(s, &t, None);
                    if s.coin() { close(s, "option", o); }
                    k.push(el("option", a, vec![Node::Text(t)]));
                }
                close(s, "select", o);
                v.push(el("select", a, k));
            },
            4 => { let n = *s.pick(&["textarea", "title"]); let n = if n == "title" { "textarea" } else { n }; let a = tag(s, n, o); let t = text(s).trim_start_matches('\n').to_string(); *o += &encode(s, &t, None); close(s, n, o); v.push(el(n, a, vec![Node::Text(t)])); },
            _ => { let n = *s.pick(&["b", "i", "em", "span", "code", "q", "sup", "my-element", "label", "u", "ruby", "del"]); let a = tag(s, n, o); let k = phrasing(s, d - 1, o, in_a); close(s, n, o); v.push(el(n, a, k)); },
        }
    }
    comment(s, o);
    v
}
fn block(s: &mut Src, d: u32, o: &mut String) -> Node {
    match s.us(if d == 0 { 4 } else { 11 }) {
        0 => { let n = *s.pick(&["h1", "h6"]); let a = tag(s, n, o); let k = phrasing(s, 1, o, false); close(s, n, o); el(n, a, k) },
        1 => { let a = tag(s, "hr", o); el("hr", a, vec![]) },
        2 => {
            let a = tag(s, "pre", o);
            if s.chance(1, 3) { *o += "\n"; } else { *o += "<!---->"; }
            let k = phrasing(s, 1, o, false);
            close(s, "pre", o);
            el("pre", a, k)
        },
        4 => {
            let n = *s.pick(&["ul", "ol"]);
            let a = tag(s, n, o);
            let mut k = vec![];
            for _ in 0..s.us(3) {
                let a = tag(s, "li", o);
                let c = if s.coin() { phrasing(s, 1, o, false) } else { flow(s, d - 1, o, true) };
                if s.coin() { close(s, "li", o); }
                k.push(el("li", a, c));
            }
            close(s, n, o);
            el(n, a, k)
        },
        5 => {
            // rows are in a body, which may be implied
            let a = tag(s, "table", o);
            let mut k = vec![];
            if s.chance(1, 3) { let a = tag(s, "caption", o); let c = phrasing(s, 1, o, false); close(s, "caption", o); k.push(el("caption", a, c)); }
            let (ba, implied) = if s.coin() { (tag(s, "tbody", o), false) } else { (vec![], true) };
            let mut rows = vec![];
            let m = s.us(3);
            for r in 0..m {
                let a = tag(s, "tr", o);
                let mut cells = vec![];
                for _ in 0..s.us(3) {
                    let n = *s.pick(&["td", "td", "th"]);
                    let a = tag(s, n, o);
                    let c = if s.coin() { phrasing(s, 1, o, false) } else { flow(s, d - 1, o, true) };
                    if s.coin() { close(s, n, o); }
                    cells.push(el(n, a, c));
                }
                // cells may be closed by what follows
                if r + 1 == m || s.coin() { close(s, "tr", o); }
                rows.push(el("tr", a, cells));
            }
            if !implied && s.coin() { close(s, "tbody", o); }
            close(s, "table", o);
            if !implied || !rows.is_empty() { k.push(el("tbody", ba, rows)); }
            el("table", a, k)
        },
        6 => { let a = tag(s, "template", o); let k = flow(s, d - 1, o, true); close(s, "template", o); el("template", a, k) },
        7 => {
            let a = tag(s, "dl", o);
            let mut k = vec![];
            for _ in 0..s.us(3) { let n = *s.pick(&["dt", "dd"]); let a = tag(s, n, o); let c = phrasing(s, 1, o, false); if s.coin() { close(s, n, o); } k.push(el(n, a, c)); }
            close(s, "dl", o);
            el("dl", a, k)
        },
        8 | 9 => { let n = *s.pick(&["div", "section", "blockquote", "details", "main"]); let a = tag(s, n, o); let k = if s.coin() { phrasing(s, 2, o, false) } else { flow(s, d - 1, o, true) }; close(s, n, o); el(n, a, k) },
        _ => { let a = tag(s, "p", o); let k = phrasing(s, 2, o, false); close(s, "p", o); el("p", a, k) },
    }
}
/// Blocks; a paragraph may be closed by what follows it.
fn flow(s: &mut Src, d: u32, o: &mut String, may_omit: bool) -> Vec<Node> {
    let mut v = vec![];
    for _ in 0..s.us(4) {
        if s.chance(1, 4) {
            let a = tag(s, "p", o); let k = phrasing(s, 1, o, false);
            v.push(el("p", a, k));
            if may_omit && s.coin() {
                // the next thing is a block or the end of the parent
                let n = *s.pick(&["div", "h2", "p", "ul"]);
                if s.coin() { break; }
                let a = tag(s, n, o); close(s, n, o);
                v.push(el(n, a, vec![]));
            } else { close(s, "p", o); }
        } else { v.push(block(s, d, o)); }
        comment(s, o);
    }
    v
}
fn norm(v: &[Node]) -> Vec<Node> {
    let mut out: Vec<Node> = vec![];
    for n in v {
        match n {
            Node::Text(t) if t.is_empty() => {},
            Node::Text(t) => if let Some(Node::Text(u)) = out.last_mut() { *u += t; } else { out.push(n.clone()); },
            Node::El(n, a, k) => out.push(el(n, a.iter().map(|(k, v)| (k.replace('_', "-"), v.clone())).collect(), norm(k))),
        }
    }
    out
}
fn lower(v: &[Node]) -> Vec<Node> {
    v.iter().map(|n| match n { Node::El(n, a, k) => el(&n.to_lowercase(), a.iter().map(|(k, v)| (k.to_lowercase(), v.clone())).collect(), lower(k)), n => n.clone() }).collect()
}

fn document(s: &mut Src) -> (String, Vec<Node>) {
    let mut o = String::new();
    comment(s, &mut o);
    o += *s.pick(&["<!DOCTYPE html>", "<!doctype HTML>", "<!DOCTYPE html >", "<!DOCTYPE html>\n", "<!DOCTYPE html SYSTEM \"about:legacy-compat\">"]);
    let full = s.coin();
    let (mut ha, mut heada, mut ba) = (vec![], vec![], vec![]);
    if full { ha = tag(s, "html", &mut o); heada = tag(s, "head", &mut o); }
    let mut head = vec![];
    for _ in 0..s.us(3) {
        match s.us(6) {
            0 => { let a = tag(s, "meta", &mut o); head.push(el("meta", a, vec![])); },
            1 => { let a = tag(s, "link", &mut o); head.push(el("link", a, vec![])); },
            2 => { let n = *s.pick(&["script", "style"]); let a = tag(s, n, &mut o); let t = *s.pick(&["", "x", "a = 1;\n", "b { c: d }", "'é'"]); o += t; close(s, n, &mut o); head.push(el(n, a, vec![Node::Text(t.into())])); },
            3 => { let a = tag(s, "template", &mut o); let k = flow(s, 0, &mut o, true); close(s, "template", &mut o); head.push(el("template", a, k)); },
            _ => { let a = tag(s, "title", &mut o); let t = text(s); o += &encode(s, &t, None); close(s, "title", &mut o); head.push(el("title", a, vec![Node::Text(t)])); },
        }
    }
    if full { close(s, "head", &mut o); ba = tag(s, "body", &mut o); }
    let body = if full && s.coin() { phrasing(s, 2, &mut o, false) } else {
        let mut v = vec![];
        // not anything that could be in the head
        if !full { let a = tag(s, "div", &mut o); let k = flow(s, 1, &mut o, true); close(s, "div", &mut o); v.push(el("div", a, k)); }
        v.extend(flow(s, 2, &mut o, true));
        v
    };
    if full && s.coin() { close(s, "body", &mut o); close(s, "html", &mut o); }
    let t = vec![el("html", ha, vec![el("head", heada, head), el("body", ba, body)])];
    (o, norm(&t))
}

fn count(v: &[Node]) -> usize { v.iter().map(|n| match n { Node::El(_, a, k) => 1 + a.len() + count(k), _ => 1 }).sum() }

/// Whether the rendered form would be read differently: raw text elements
/// and text areas, and lines at the start of preformatted text.
fn raw(v: &[Node]) -> bool {
    v.iter().any(|n| match n {
        Node::El(n, _, k) => match n.as_str() {
            "script" | "style" | "iframe" | "xmp" | "noembed" | "noframes" | "plaintext" | "noscript" => text_of(k).contains(['<', '>', '&', '\u{a0}', '"', '\'']) || !text_of(k).is_ascii(),
            "pre" | "textarea" | "listing" => matches!(k.first(), Some(Node::Text(t)) if t.starts_with('\n')) || raw(k),
            "command" | "keygen" | "menuitem" => true,
            _ => raw(k),
        },
        _ => false,
    })
}

/// The value of the HTML, and whether its rendered form parses to an equal one.
fn parsed(html: &str) -> Result<Result<(Vec<Node>, bool), String>, String> {
    let src = format!("@let(h={}) {{@let(v=@html::parse $h) {{@export(v=$v, t=@typeof $v).@let(r=@html::escape_html $v) {{@match @html::parse \"<!DOCTYPE html>$r\" {{=$v -> {{@export(eq=True).}}, _ -> {{@export(eq=False).}}}}}}}}}}", str_lit(html)).replace("\"<!DOCTYPE", "\"\\<!DOCTYPE");
    let e = eval(&src, &["v", "t", "eq"].map(String::from))?;
    let Some(V::Html(v)) = e.get("v").cloned() else {
        let Some(m) = e.out.msgs().into_iter().next() else { return Err("no value and no diagnostic".into()); };
        return Ok(Err(m));
    };
    if v.is_empty() { return Ok(Err(e.out.msgs().into_iter().next().unwrap_or_default())); }
    let eq = e.get("eq") == Some(&V::Bool(true));
    if eq && !e.out.ok() { return Err(format!("diagnostics: {}", e.out.printed)); }
    Ok(Ok((norm(&read_html(&v)?), eq)))
}

fn documents(s: &mut Src) -> CaseResult {
    let (html, want) = document(s);
    s.note("html", html.clone());
    if count(&want) >= 8 { s.nontrivial(); }
    s.tick();
    match parsed(&html)? {
        Err(m) => Err(format!("{m} for a conforming document")),
        Ok((got, eq)) => {
            if norm(&got) != want { return Err(format!("parsed as\n    {got:?}\n  expected\n    {want:?}")); }
            if !eq && !raw(&want) { return Err(format!("the rendered form of {got:?} does not parse to an equal value")); }
            s.label(if raw(&want) { "not compared after rendering" } else { "compared after rendering" });
            Ok(())
        },
    }
}

fn reference(html: &str) -> Result<Vec<Node>, String> {
    fn conv(h: &Handle, out: &mut Vec<Node>) {
        for c in h.children.borrow().iter() {
            match &c.data {
                NodeData::Text {contents} => out.push(Node::Text(contents.borrow().to_string())),
                NodeData::Element {name, attrs, template_contents, ..} => {
                    let mut a: Attrs = vec![];
                    for x in attrs.borrow().iter() {
                        let k = match &x.name.prefix { Some(p) => format!("{p}:{}", x.name.local), None => x.name.local.to_string() };
                        a.push((k, Some(x.value.to_string())));
                    }
                    let mut k = vec![];
                    if let Some(t) = template_contents.borrow().as_ref() { conv(t, &mut k); } else { conv(c, &mut k); }
                    out.push(Node::El(name.local.to_string(), a, k));
                },
                _ => {},
            }
        }
    }
    let dom: RcDom = html5ever::parse_document(RcDom::default(), Default::default()).one(html.to_string());
    if let Some(e) = dom.errors.iter().find(|e| *e != "Duplicate attribute") { return Err(e.to_string()); }
    let mut out = vec![];
    conv(&dom.document, &mut out);
    Ok(norm(&lower(&out)))
}

const PIECES: &[&str] = &[
    "<p>", "</p>", "<div>", "</div>", "<b>", "</b>", "<i>", "</i>", "<a href=x>", "</a>", "<table>", "</table>", "<tr>", "<td>", "</td>", "<tbody>", "<ul>", "<li>", "</ul>", "<br>", "<br/>", "<hr>", "<img src=a>",
    "<html>", "<head>", "</head>", "<body>", "</body>", "</html>", "<title>", "</title>", "<script>", "</script>", "<style>", "</style>", "<template>", "</template>", "<svg>", "</svg>", "<math>", "</math>", "<mi>", "<path/>",
    "<textarea>", "</textarea>", "<pre>", "</pre>", "\n", " ", "a", "text", "é", "&amp;", "&lt;", "&", "&nbsp;", "&#65;", "&#0;", "&#x110000;", "&bogus;", "&copy", "<", ">", "</", "<!", "<!-- c -->", "<!--", "-->", "<?php ?>", "<![CDATA[x]]>",
    "<p class=a id='b'>", "<p class=a class=b>", "<p data-x=1>", "<p a=\"<&>\">", "<select>", "<option>", "</select>", "<frameset>", "<noscript>", "<iframe>", "</iframe>", "<plaintext>", "<form>", "</form>", "<input type=hidden>", "<button>", "<nobr>", "<font>", "<center>", "<h1>", "</h1>", "<dd>", "<dt>", "<col>", "<caption>", "<colgroup>",
    "<use xlink:href='#a' xml:lang=x>", "<foreignObject>", "</foreignObject>", "<annotation-xml>", "<wbr>", "<embed>", "<object>", "<param>", "<ruby>", "<rt>", "<a", " x", "='", "'", "\"", "=", "/>", "\u{0}", "\r", "\u{feff}", "\u{1}",
];

fn soup(s: &mut Src) -> CaseResult {
    let mut html = String::new();
    let mutate = s.coin();
    if mutate {
        html = document(s).0;
        for _ in 0..1 + s.us(3) {
            let cs: Vec<usize> = html.char_indices().map(|p| p.0).chain([html.len()]).collect();
            let i = cs[s.us(cs.len())];
            match s.us(4) {
                0 => { let j = cs[s.us(cs.len())]; let (i, j) = (i.min(j), i.max(j)); if j - i < 12 { html.replace_range(i..j, ""); } },
                1 => { let c = gen::any_char(s); html.insert(i, c); },
                _ => html.insert_str(i, *s.pick(PIECES)),
            }
        }
    } else {
        if s.chance(7, 8) { html += "<!DOCTYPE html>"; }
        html += &s.vec(0, 10, |s| s.pick(PIECES).to_string()).concat();
    }
    s.note("html", html.clone());
    let want = guarded(|| reference(&html));
    let Ok(want) = want else { return Ok(()); };
    if mutate || html.len() > 30 { s.nontrivial(); }
    // names which the reader of rendered HTML cannot read, or which become one
    fn odd(v: &[Node]) -> bool {
        v.iter().any(|n| match n {
            Node::El(n, a, k) => {
                let bad = |n: &str| n.is_empty() || !n.chars().all(|c| c.is_alphanumeric() || "-_:".contains(c));
                bad(n) || a.iter().any(|x| bad(&x.0)) || (0..a.len()).any(|i| a[..i].iter().any(|y| y.0 == a[i].0)) || VOID.contains(&n.as_str()) && !k.is_empty() || ["command", "keygen", "menuitem"].contains(&n.as_str()) || odd(k)
            },
            _ => false,
        })
    }
    s.tick();
    let src = format!("@let(v=@html::parse {}) {{@export(v=$v).}}", str_lit(&html));
    let e = eval(&src, &["v".to_string()])?;
    match want {
        Err(w) => {
            s.label("malformed");
            if e.out.errors != 1 { return Err(format!("malformed ({w}), but {} errors are reported: {}", e.out.errors, e.out.printed)); }
            if !e.out.printed.contains("parse HTML") { return Err(format!("malformed ({w}), but reported is {}", e.out.printed)); }
            Ok(())
        },
        Ok(want) => {
            s.label("well formed");
            if !e.out.ok() { return Err(format!("diagnostics: {}", e.out.printed)); }
            if odd(&want) { s.label("with odd names"); return Ok(()); }
            let Some(V::Html(v)) = e.get("v") else { return Err(format!("the value is {:?}", e.get("v"))); };
            let got = norm(&read_html(v)?);
            if got != want { return Err(format!("parsed as\n    {got:?}\n  expected\n    {want:?}")); }
            if raw(&want) { return Ok(()); }
            // what is rendered need not be conforming, where elements were moved or implied
            match parsed(&html)? {
                Ok((_, true)) => { s.label("round trip"); },
                r => {
                    let again = reference(&format!("<!DOCTYPE html>{v}"));
                    if again.as_ref() == Ok(&want) { return Err(format!("the rendered form {v:?} does not parse to an equal value: {r:?}")); }
                    if html.contains('\r') || html.contains("&#") { return Ok(()); }
                    return Err(format!("the rendered form {v:?} is read as {again:?}, not {want:?}"));
                },
            }
            Ok(())
        },
    }
}

pub fn prop() -> Prop {
    let _ = dom::parse;
    Prop {
        id: "C21",
        subs: vec![
            Sub {name: "documents", quick: 12_000, thorough: 500_000, run: documents},
            Sub {name: "soup", quick: 25_000, thorough: 1_000_000, run: soup},
        ],
        fixed: vec![],
        rule: "documents: a tree of at least eight elements, attributes and texts; soup: an edited document or more than 30 bytes of pieces",
        assumptions: &["html5ever, the parser the code uses, is the conforming parser for arbitrary text; for generated documents the tree is known", "raw-text elements and lines at the start of preformatted text are not compared after rendering", "texts nest to a bounded depth"],
    }
}
