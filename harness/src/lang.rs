//! Access to the code under test, and an independent reader of its output.

use papyri_lang::compiler::{Context, HTML, Value};
use papyri_lang::errors::ReportingLevel;
use crate::engine::guarded;

/// One reported diagnostic, as printed.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Diag {
    /// "Syntax error: …", "Warning: …" and so on.
    pub msg: String,
    /// (file, line, column, enclosing function) of each location, in printed order.
    pub locs: Vec<(String, u32, u32, Option<String>)>,
    pub traced: bool,
}

impl Diag {
    pub fn is_warning(&self) -> bool { self.msg.starts_with("Warning: ") }
    pub fn at(&self) -> (u32, u32) { self.locs.last().map(|l| (l.1, l.2)).unwrap_or((0, 0)) }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Out {
    pub html: String,
    pub text: String,
    pub errors: u32,
    pub warnings: u32,
    /// The whole diagnostics text, as printed.
    pub printed: String,
}

impl Out {
    pub fn ok(&self) -> bool { self.errors == 0 && self.warnings == 0 }
    pub fn diags(&self) -> Vec<Diag> { parse_diags(&self.printed) }
    /// The messages only, in order.
    pub fn msgs(&self) -> Vec<String> { self.diags().into_iter().map(|d| d.msg).collect() }
}

/// Parses the printed form of diagnostics. Messages may themselves span lines.
pub fn parse_diags(printed: &str) -> Vec<Diag> {
    let mut out: Vec<Diag> = Vec::new();
    let mut cur: Option<Diag> = None;
    let mut in_trace_locs = false;
    let kinds = ["Module error: ", "Name error: ", "Runtime error: ", "Syntax error: ", "Type error: ", "Warning: ", "Diagnostic already reported"];
    for line in printed.lines() {
        if line == "Traceback (most recent call last):" {
            if let Some(d) = cur.take() { out.push(d); }
            cur = Some(Diag {msg: String::new(), locs: vec![], traced: true});
            in_trace_locs = true;
            continue;
        }
        let loc = line.strip_prefix("    File \"").and_then(|r| {
            let k = r.rfind("\", line ")?;
            let (file, rest) = (&r[..k], &r[k + 8..]);
            let (l, rest) = rest.split_once(", col ")?;
            let (c, func) = match rest.split_once(", in ") { Some((c, f)) => (c, Some(f.to_string())), None => (rest, None) };
            Some((file.to_string(), l.parse().ok()?, c.parse().ok()?, func))
        });
        if let Some(loc) = loc {
            if let Some(d) = cur.as_mut() { d.locs.push(loc); }
            if !in_trace_locs { if let Some(d) = cur.take() { out.push(d); } }
            continue;
        }
        let starts = kinds.iter().any(|k| line.starts_with(k));
        if starts && in_trace_locs {
            if let Some(d) = cur.as_mut() { d.msg = line.to_string(); }
            in_trace_locs = false;
            out.push(cur.take().unwrap());
        } else if starts {
            cur = Some(Diag {msg: line.to_string(), locs: vec![], traced: false});
        } else if let Some(d) = cur.as_mut() {
            d.msg.push('\n'); d.msg += line;
        } else if line.starts_with("failed, ") || line.starts_with("OK") || line.is_empty() {
        } else if let Some(d) = out.last_mut() {
            d.msg.push('\n'); d.msg += line;
        }
    }
    if let Some(d) = cur { out.push(d); }
    out
}

pub fn new_ctx() -> Context { Context::new(ReportingLevel::Warning, None, None) }

pub fn render(ctx: &Context, h: &HTML, as_html: bool) -> Result<String, String> {
    let mut v = Vec::new();
    ctx.render(h, as_html, &mut v).map_err(|e| format!("render failed: {e}"))?;
    String::from_utf8(v).map_err(|e| format!("output is not UTF-8: {e}"))
}

/// Compiles in the given context, rendering the output whatever the outcome.
pub fn compile_in(ctx: &mut Context, src: &str) -> Result<(Out, papyri_lang::compiler::CompileResult), String> {
    let r = ctx.compile_synthetic("<string>", src);
    let out = Out {
        html: render(ctx, &r.out, true)?,
        text: render(ctx, &r.out, false)?,
        errors: ctx.diagnostics.num_errors,
        warnings: ctx.diagnostics.num_warnings,
        printed: format!("{:?}", ctx.diagnostics),
    };
    Ok((out, r))
}

/// Compiles a source in a fresh context; an error is a panic.
pub fn compile(src: &str) -> Result<Out, String> {
    guarded(|| compile_in(&mut new_ctx(), src).map(|r| r.0))
        .and_then(|r| r)
        .map_err(|e| format!("{e}\nsource: {src:?}"))
}

/// A value exported by a program, seen from outside.
#[derive(Clone, PartialEq, Eq)]
pub enum V {
    Bool(bool),
    Int(i64),
    Str(String),
    List(Vec<V>),
    /// In insertion order.
    Dict(Vec<(String, V)>),
    /// Rendered; the empty string is the unit value.
    Html(String),
    Func,
    Regex(String),
}

impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            V::Bool(b) => write!(f, "{}", if *b { "True" } else { "False" }),
            V::Int(i) => write!(f, "{i}"),
            V::Str(s) => write!(f, "{s:?}"),
            V::List(v) => f.debug_list().entries(v).finish(),
            V::Dict(d) => f.debug_map().entries(d.iter().map(|(k, v)| (k, v))).finish(),
            V::Html(h) => write!(f, "html({h})"),
            V::Func => write!(f, "func"),
            V::Regex(s) => write!(f, "regex({s:?})"),
        }
    }
}

impl V {
    pub const UNIT: V = V::Html(String::new());
    pub fn unit() -> V { V::Html(String::new()) }
    pub fn s(s: &str) -> V { V::Str(s.to_string()) }
}

/// Names whose interned identity can be recovered from outside: those given,
/// by exporting them from a program compiled in the same context.
pub struct Names(Vec<(papyri_lang::utils::NameID, String)>);

impl Names {
    pub fn learn(ctx: &mut Context, names: &[String]) -> Result<Names, String> {
        if names.is_empty() { return Ok(Names(vec![])); }
        let src = format!("@export({}).", names.iter().map(|n| format!("{n}=1")).collect::<Vec<_>>().join(", "));
        let before = (ctx.diagnostics.num_errors, ctx.diagnostics.num_warnings);
        let r = ctx.compile_synthetic("<names>", &src);
        if before != (ctx.diagnostics.num_errors, ctx.diagnostics.num_warnings) || r.exports.len() != names.len() {
            return Err(format!("harness: cannot learn names {names:?}: {:?}", ctx.diagnostics));
        }
        Ok(Names(r.exports.keys().copied().zip(names.iter().cloned()).collect()))
    }
    pub fn get(&self, id: papyri_lang::utils::NameID) -> String {
        self.0.iter().find(|(k, _)| *k == id).map(|(_, v)| v.clone()).unwrap_or_else(|| format!("?{id:?}"))
    }
}

pub fn to_v(ctx: &Context, names: &Names, v: &Value) -> Result<V, String> {
    Ok(match v {
        Value::Bool(b) => V::Bool(*b),
        Value::Int(i) => V::Int(*i),
        Value::Str(s) => V::Str(s.to_string()),
        Value::List(l) => V::List(l.as_ref().iter().map(|v| to_v(ctx, names, v)).collect::<Result<_, _>>()?),
        Value::Dict(d) => V::Dict(d.iter().map(|(&k, v)| Ok((names.get(k), to_v(ctx, names, v)?))).collect::<Result<_, String>>()?),
        Value::HTML(h) => V::Html(render(ctx, h, true)?),
        Value::Func(_) => V::Func,
        Value::Regex(r) => V::Regex(String::new()),
    })
}

/// The exports of a program, with its output; `names` are the dict keys which
/// may occur in the exported values.
pub struct Exported {
    pub out: Out,
    pub vals: Vec<(String, V)>,
}

impl Exported {
    pub fn get(&self, k: &str) -> Option<&V> { self.vals.iter().find(|(n, _)| n == k).map(|(_, v)| v) }
}

pub fn eval(src: &str, names: &[String]) -> Result<Exported, String> {
    guarded(|| {
        let mut ctx = new_ctx();
        let (out, r) = compile_in(&mut ctx, src)?;
        let names = Names::learn(&mut ctx, names)?;
        let mut vals = Vec::new();
        for (&k, v) in r.exports.iter() { vals.push((names.get(k), to_v(&ctx, &names, v)?)); }
        Ok(Exported {out, vals})
    }).and_then(|r| r).map_err(|e: String| format!("{e}\nsource: {src}"))
}

// ---------------------------------------------------------------------------

/// A node of an HTML document, as read back from rendered output by an
/// independent reader.
#[derive(Clone, PartialEq, Eq)]
pub enum Node {
    Text(String),
    El(String, Vec<(String, Option<String>)>, Vec<Node>),
}

impl std::fmt::Debug for Node {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Node::Text(t) => write!(f, "{t:?}"),
            Node::El(n, a, c) => {
                write!(f, "<{n}")?;
                for (k, v) in a {
                    write!(f, " {k}")?;
                    if let Some(v) = v { write!(f, "={v:?}")?; }
                }
                write!(f, ">")?;
                f.debug_list().entries(c).finish()
            },
        }
    }
}

pub const VOID: &[&str] = &["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr"];

/// A strict reader of rendered HTML: elements must nest properly, attributes
/// must be double-quoted, and in text and attribute values every `<`, `>` and
/// `&` must be part of a tag or a character reference.
pub fn read_html(s: &str) -> Result<Vec<Node>, String> {
    let mut p = Reader {s, i: 0};
    let nodes = p.nodes(None)?;
    if p.i != s.len() { return Err(format!("unexpected closing tag at byte {} in {s:?}", p.i)); }
    Ok(nodes)
}

struct Reader<'a> { s: &'a str, i: usize }

impl<'a> Reader<'a> {
    fn rest(&self) -> &'a str { &self.s[self.i..] }
    fn err<T>(&self, m: &str) -> Result<T, String> { Err(format!("{m} at byte {} in {:?}", self.i, self.s)) }
    fn nodes(&mut self, parent: Option<&str>) -> Result<Vec<Node>, String> {
        let mut out = Vec::new();
        loop {
            let r = self.rest();
            if r.is_empty() {
                return if parent.is_some() { self.err("unclosed element") } else { Ok(out) };
            } else if r.starts_with("</") {
                return Ok(out);
            } else if r.starts_with('<') {
                out.push(self.element()?);
            } else {
                let k = r.find('<').unwrap_or(r.len());
                let t = decode(&r[..k], false).map_err(|e| format!("{e} in text {:?}", &r[..k]))?;
                self.i += k;
                out.push(Node::Text(t));
            }
        }
    }
    fn name(&mut self) -> Result<String, String> {
        let r = self.rest();
        let k = r.find(|c: char| !(c.is_alphanumeric() || c == '-' || c == '_' || c == '!' || c == ':')).unwrap_or(r.len());
        if k == 0 { return self.err("expected a name"); }
        self.i += k;
        Ok(r[..k].to_string())
    }
    fn element(&mut self) -> Result<Node, String> {
        self.i += 1;
        let name = self.name()?;
        let mut attrs = Vec::new();
        loop {
            let r = self.rest();
            if r.starts_with('>') { self.i += 1; break; }
            if !r.starts_with(' ') { return self.err("malformed tag"); }
            self.i += 1;
            let k = self.name()?;
            let mut v = None;
            if self.rest().starts_with('=') {
                self.i += 1;
                if !self.rest().starts_with('"') { return self.err("unquoted attribute"); }
                self.i += 1;
                let r = self.rest();
                let Some(e) = r.find('"') else { return self.err("unterminated attribute"); };
                v = Some(decode(&r[..e], true).map_err(|e2| format!("{e2} in attribute {:?}", &r[..e]))?);
                self.i += e + 1;
            }
            if attrs.iter().any(|(k2, _): &(String, _)| k2.eq_ignore_ascii_case(&k)) { return self.err("duplicate attribute"); }
            attrs.push((k, v));
        }
        if name.eq_ignore_ascii_case("!DOCTYPE") {
            if self.rest().starts_with('\n') { self.i += 1; }
            return Ok(Node::El("!DOCTYPE".into(), attrs, vec![]));
        }
        if VOID.contains(&name.as_str()) { return Ok(Node::El(name, attrs, vec![])); }
        let children = self.nodes(Some(&name))?;
        let close = format!("</{name}>");
        if !self.rest().starts_with(&close) { return self.err(&format!("expected {close}")); }
        self.i += close.len();
        Ok(Node::El(name, attrs, children))
    }
}

/// Decodes character references the way an HTML reader does for the small set
/// an encoder may use; anything else is an error.
fn decode(s: &str, attr: bool) -> Result<String, String> {
    let mut out = String::new();
    let mut r = s;
    while let Some(c) = r.chars().next() {
        match c {
            '<' => return Err("raw '<'".into()),
            '>' => return Err("raw '>'".into()),
            '"' if attr => return Err("raw quote".into()),
            '&' => {
                let e = r.find(';').ok_or("unterminated character reference")?;
                let name = &r[1..e];
                let c = match name {
                    "lt" => '<', "gt" => '>', "amp" => '&', "quot" => '"', "apos" => '\'', "nbsp" => '\u{a0}',
                    _ => {
                        let n = if let Some(h) = name.strip_prefix("#x").or(name.strip_prefix("#X")) { u32::from_str_radix(h, 16).ok() }
                            else if let Some(d) = name.strip_prefix('#') { d.parse().ok() } else { None };
                        n.and_then(char::from_u32).ok_or_else(|| format!("unknown character reference &{name};"))?
                    },
                };
                out.push(c);
                r = &r[e + 1..];
            },
            c => { out.push(c); r = &r[c.len_utf8()..]; },
        }
    }
    Ok(out)
}

pub fn text_of(nodes: &[Node]) -> String {
    let mut s = String::new();
    for n in nodes {
        match n {
            Node::Text(t) => s += t,
            Node::El(_, _, c) => s += &text_of(c),
        }
    }
    s
}

/// The text of a rendered document, or an error if it is malformed.
pub fn html_text(html: &str) -> Result<String, String> { Ok(text_of(&read_html(html)?)) }

// ---------------------------------------------------------------------------

/// A Papyri expression which denotes exactly this string.
pub fn str_lit(s: &str) -> String {
    // verbatim when that is possible, otherwise a quoted string of escapes
    if !s.is_empty() && !s.contains('`') && !s.contains('\n') && !s.contains('\r') { return format!("`{s}`"); }
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            c if c.is_ascii_alphanumeric() => o.push(c),
            c if (c as u32) <= 0x7f => o += &format!("\\x{:02x}", c as u32),
            c if (c as u32) <= 0xffff => o += &format!("\\u{:04x}", c as u32),
            c => o += &format!("\\U{:08x}", c as u32),
        }
    }
    o + "\""
}
