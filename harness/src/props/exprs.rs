//! A generator of programs which are mostly well typed: every native function
//! and most of the standard library, with the values on which they turn.
use crate::engine::Src;
use crate::lang::str_lit;
use super::gen;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ty { Bool, Int, Str, Html, List, Dict, Func, Regex, Any, Unit }
use Ty::*;

/// A function: its name, positional, named and content parameters, and the
/// type of the result. A spread of positionals is written as three of them.
struct F { name: &'static str, pos: &'static [Ty], opt: usize, named: &'static [(&'static str, Ty)], content: Ty, ret: Ty }
const fn f(name: &'static str, pos: &'static [Ty], content: Ty, ret: Ty) -> F { F {name, pos, opt: 0, named: &[], content, ret} }
const fn o(name: &'static str, pos: &'static [Ty], opt: usize, content: Ty, ret: Ty) -> F { F {name, pos, opt, named: &[], content, ret} }
const fn n(name: &'static str, named: &'static [(&'static str, Ty)], content: Ty, ret: Ty) -> F { F {name, pos: &[], opt: 0, named, content, ret} }

const FUNCS: &[F] = &[
    f("bool::and", &[Bool, Bool], Unit, Bool), f("bool::from", &[], Any, Bool), f("bool::or", &[Bool, Bool], Unit, Bool), f("bool::negate", &[], Bool, Bool),
    o("int::add", &[Int, Int, Int], 3, Unit, Int), f("int::negate", &[], Int, Int), f("int::parse", &[], Str, Int),
    f("str::ends_with", &[Str, Str], Unit, Bool), f("str::escape_html", &[], Str, Str), f("str::from", &[], Str, Str), f("str::is_empty", &[], Str, Bool),
    f("str::is_whitespace", &[], Str, Bool), f("str::len", &[], Str, Int), f("str::lower", &[], Str, Str), f("str::split", &[Str], Str, List),
    f("str::starts_with", &[Str, Str], Unit, Bool), f("str::trim", &[], Str, Str), n("str::unique_id", &[("max_length", Int)], Str, Str), f("str::upper", &[], Str, Str),
    f("regex::compile", &[], Str, Regex), f("regex::count", &[Regex], Str, Int), f("regex::find", &[Regex], Str, Any), f("regex::find_all", &[Regex], Str, List),
    f("regex::split", &[Regex], Str, List), f("regex::test", &[Regex], Str, Bool),
    o("function::bind", &[Func, Any], 1, Any, Func), f("function::name", &[], Func, Str), o("function::call", &[Func], 0, Any, Any),
    f("html::escape_html", &[], Html, Str), f("html::is_empty", &[], Html, Bool), f("html::is_whitespace", &[], Html, Bool), f("html::parse", &[], Str, Html), f("html::tag_name", &[], Html, Any),
    f("list::all", &[Func], List, Bool), f("list::any", &[Func], List, Bool), f("list::contains", &[Any], List, Bool), n("list::enumerate", &[("from", Int)], List, List),
    o("list::filter", &[Func], 1, List, List), f("list::find", &[Func], List, Any), f("list::flat", &[], List, List), f("list::get", &[Int], List, Any), f("list::html_nodes", &[], Html, List),
    f("list::is_empty", &[], List, Bool), o("list::join", &[Html], 1, List, Html), f("list::len", &[], List, Int), f("list::map", &[Func], List, List),
    o("list::slice", &[Int, Int], 1, List, List), n("list::sorted", &[("key", Func), ("reversed", Bool)], List, List), f("list::reversed", &[], List, List),
    f("dict::get", &[Str], Dict, Any), f("dict::is_empty", &[], Dict, Bool), f("dict::items", &[], Dict, List), f("dict::keys", &[], Dict, List), f("dict::len", &[], Dict, Int),
    n("dict::new", &[("a", Any), ("b", Any), ("x_y", Any)], Unit, Dict), f("dict::values", &[], Dict, List),
    f("file::write", &[Str], Html, Unit),
    n("code", &[("language", Str), ("code_block", Bool), ("first_line_no", Int)], Str, Html), n("code_block", &[("language", Str), ("first_line_no", Int)], Str, Html),
    f("raise", &[], Str, Any), f("typeof", &[], Any, Str), f("attributes", &[], Html, Html), n("attributes", &[("a", Str), ("class", Str)], Html, Html),
    f("class", &[Str], Html, Html), f("style", &[Str], Html, Html), f("b", &[], Html, Html), n("blockquote", &[("cite", Str)], Html, Html), f("href", &[Str], Html, Html),
    n("image", &[("alt", Str)], Str, Html), f("kbd", &[], Str, Html), f("span", &[], Html, Html), f("h1", &[], Html, Html), f("numbered", &[], Html, Html), f("footnote", &[], Html, Html),
    f("inline::from", &[], Html, Html), f("block::from", &[], Html, Html), F {name: "page", pos: &[], opt: 0, named: &[("title", Str), ("head", Html), ("web_root", Str)], content: Html, ret: Html},
];

#[derive(Clone, Default)]
pub struct Scope { vars: Vec<(String, Ty)>, funcs: Vec<(String, usize, usize, Ty)>, count: std::rc::Rc<std::cell::Cell<usize>>, pub depth: u32 }

impl Scope {
    pub fn new(depth: u32) -> Self { Scope {depth, ..Default::default()} }
    fn down(&self) -> Self { Scope {depth: self.depth.saturating_sub(1), ..self.clone()} }
    fn fresh(&self) -> String { let k = self.count.get(); self.count.set(k + 1); format!("v{k}") }
    fn with(&self, v: &str, t: Ty) -> Self { let mut c = self.down(); c.vars.push((v.to_string(), t)); c }
}

const TYPES: &[Ty] = &[Bool, Int, Str, Html, List, Dict, Func, Regex, Unit];
const ANNOT: &[(&str, Ty)] = &[("bool", Bool), ("int", Int), ("str", Str), ("html", Html), ("inline", Html), ("block", Html), ("any list", List), ("int list", List), ("str list", List), ("any dict", Dict), ("str? dict", Dict), ("function", Func), ("regex", Regex), ("any", Any), ("int?", Int), ("none", Unit), ("str? list?", List)];
const BAD: &[&str] = &["(", "[", "\\", "*", "(?P<x>a)(?P<x>b)", "a{2000}{2000}"];
const REGEXES: &[&str] = &["a", "", "a*", "^", "$", "(a)(b)?", "(?P<x>a)", "(?P<a>.)(?P<b>.)?", "[^a]+", "é|a", "\\b", ".", "(?s).", "(?m)^", "a|", "(?P<x>a)|(?P<y>b)", "\\d+", "(?i)É", "\\s+", "x?", ",", "(.)(.)", "\\w"];

pub fn lit(s: &mut Src, t: &str) -> String {
    if !t.is_empty() && !t.contains(&['`', '\n', '\r'][..]) && s.coin() { return format!("`{t}`"); }
    str_lit(t)
}

fn string(s: &mut Src) -> String {
    match s.weighted(&[3, 3, 2, 1, 1]) {
        0 => s.pick(&["", "a", "ab", "foo bar", "1", "-7", "True", "none", "papyri", "a,b,,c"]).to_string(),
        1 => s.vec(0, 8, |s| *s.pick(&['a', 'b', ' ', '\n', 'é', 'İ', 'ß', '漢', '😀', '\u{a0}', '\t', '<', '&', '1', '-', ':', '#', '_', '"'])).into_iter().collect(),
        2 => s.pick(&["a\n b\n  c", "\n\na\n", "papyri: x", " x: y\nz", "<b>x</b>", "<p>a</p>b", "&amp;&lt;&#65;", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "+5", "id a b", "A", "\u{3000}", "if x: # y", "@let(x=1) 'a'", "@fn $x -> {", "</b>", "<!-- c -->"]).to_string(),
        3 => s.pick(REGEXES).to_string(),
        _ => gen::any_string(s, 10),
    }
}

fn int(s: &mut Src) -> i64 {
    match s.weighted(&[6, 2, 1]) {
        0 => s.range(-3, 5),
        1 => *s.pick(&[7, -7, 10, -10, 100, 255, 256, -1000, 4096]),
        _ => *s.pick(&[i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, 1 << 32, 1 << 31, -(1 << 31), 1 << 62]),
    }
}

/// A value of the type, written out.
fn literal(s: &mut Src, t: Ty, sc: &Scope) -> String {
    let d = sc.down();
    let flat = sc.depth == 0;
    match t {
        List if flat => s.pick(&["[]", "[1, 2, 3]", "[a, b, c]", "[3, -1, 2]", "[`b`, `a`, \"\"]", "[[1, a], [2, b]]", "[<b>x</>, ., 1]", "[., 1, True]"]).to_string(),
        Dict if flat => s.pick(&["@dict::new.", "@dict::new(a=1).", "@dict::new(a=`x`, class=`y`).", "@dict::new(a=., b=2, x_y=[]).", "@dict::new(len=True)."]).to_string(),
        Func if flat => s.pick(&["$int::negate", "$bool::from", "$typeof", "$list::reversed", "$str::len", "$list::slice", "$str::starts_with", "@fn $x -> $x", "@fn $x: int -> @int::add($x, 1).", "@fn(*$_a). -> $_a"]).to_string(),
        Html if flat => s.pick(&["<b>x</>", "<br>", "<p>a</>", "<ul><li>a</></>", "{a\n\nb}", "x", "<i id=`a` class=\"b\">y</>", "{1 2}", "<a/>"]).to_string(),
        Bool => if s.coin() { "True".into() } else { "False".into() },
        Int => int(s).to_string(),
        Str => { let t = string(s); lit(s, &t) },
        Unit => s.pick(&[".", "{}"]).to_string(),
        Regex => { let r = if s.chance(1, 8) { s.pick(BAD) } else { s.pick(REGEXES) }.to_string(); format!("@regex::compile {}", lit(s, &r)) },
        List => {
            let t = match s.weighted(&[3, 3, 1, 1]) { 0 => Int, 1 => Str, 2 => List, _ => Any };
            format!("[{}]", s.vec(0, 4, |s| if s.chance(1, 10) { format!("*{}", spread(s, List, &d)) } else { expr(s, t, &d) }).join(", "))
        },
        Dict => {
            let mut k = s.vec(0, 3, |s| s.pick(&["a", "b", "class", "x_y", "len"]).to_string());
            k.sort(); k.dedup();
            let mut a: Vec<String> = k.into_iter().map(|k| format!("{k}={}", expr(s, Any, &d))).collect();
            if s.chance(1, 6) { let e = spread(s, Dict, &d); a.push(format!("**{e}")); }
            format!("@dict::new({}).", a.join(", "))
        },
        Html => html(s, &d),
        Func => func(s, &d),
        Any => { let t = *s.pick(TYPES); expr(s, t, sc) },
    }
}

const BLOCKS: &[&str] = &["div", "ul", "ol", "section", "td"];

fn html(s: &mut Src, d: &Scope) -> String {
    match s.us(5) {
        0 => { let e = expr(s, Html, d); format!("{{{}}}", prose(s, d, &e)) },
        1 => s.pick(&["<b>x</>", "<br>", "<p>a</>", "<ul><li>a</></>", "<ul>\n\na\n\nb\n\n</>", "<table>a, b</>", "{a\n\nb}", "x", "<i/>", "{<!-- c -->}", "{1 2}", "<!DOCTYPE html>", "<script>`x`</>"]).to_string(),
        _ => {
            let mut name = s.pick(&["b", "p", "span", "div", "ul", "ol", "dl", "nav", "td", "a", "em", "h1", "section", "pre", "thead"]).to_string();
            if s.chance(1, 8) { name = if let Some(v) = var(s, d, Str) { format!("${v}") } else { name }; }
            let mut seen = 0;
            let a = s.vec(0, 2, |s| match s.us(5) {
                0 => s.pick(&["id=`a`", "title", "href=\"x y\"", "data_x=1", "class=`c`"]).to_string(),
                1 => format!("x{}={}", {seen += 1; seen}, simple(s, Str, d)),
                2 => format!("y{}?={}", {seen += 1; seen}, simple(s, Any, d)),
                3 => format!("z{}=\"${}\"", {seen += 1; seen}, var(s, d, Str).unwrap_or("typeof".into())),
                _ => format!("**{}", simple(s, Dict, d)),
            }).join(" ");
            let sep = if BLOCKS.contains(&name.as_str()) { "\n\n" } else { *s.pick(&[" ", "", "\n", ", "]) };
            let k = s.vec(0, 3, |s| expr(s, Html, d)).join(sep);
            format!("<{name} {a}>{k}</>")
        },
    }
}

fn prose(s: &mut Src, d: &Scope, first: &str) -> String {
    let mut parts = vec![first.to_string()];
    parts.extend(s.vec(0, 2, |s| { let t = *s.pick(&[Str, Int, Html, Any]); expr(s, t, d) }));
    parts.join(*s.pick(&[" ", " x ", "\n", " -- "]))
}

fn var(s: &mut Src, d: &Scope, t: Ty) -> Option<String> {
    let v: Vec<&String> = d.vars.iter().filter(|v| t == Any || v.1 == t).map(|v| &v.0).collect();
    if v.is_empty() { None } else { Some(s.pick(&v).to_string()) }
}

/// An expression which is one token or nearly so.
fn simple(s: &mut Src, t: Ty, d: &Scope) -> String {
    if let Some(v) = var(s, d, t) { if s.coin() { return format!("${v}"); } }
    if s.chance(1, 8) { if let Some(e) = coalescing(s, d) { return e; } }
    literal(s, t, &Scope {depth: 0, ..d.clone()})
}

/// A name with `?::` in it, or a call of one.
fn coalescing(s: &mut Src, d: &Scope) -> Option<String> {
    let t = *s.pick(&[Unit, Unit, Dict, Any]);
    let v = var(s, d, t)?;
    let path = s.pick(&["?::a", "?::len", "?::a?::b", "?::a::b", "::a?::b", "?::0", "?::items"]).to_string();
    Some(match s.us(4) {
        0 => format!("${v}{path}"),
        1 => format!("@{v}{path}."),
        2 => format!("@{v}{path} x"),
        _ => format!("@{v}{path}(1, $typeof)."),
    })
}

fn func(s: &mut Src, d: &Scope) -> String {
    match s.weighted(&[3, 3, 2]) {
        0 => {
            let f = s.pick(FUNCS);
            if f.name == "raise" || f.name == "function::call" || f.name == "function::bind" { "$list::len".into() } else { format!("${}", f.name) }
        },
        1 => {
            let v = d.fresh();
            let (a, t) = *s.pick(ANNOT);
            let body = { let d = d.with(&v, t); let r = *s.pick(&[Bool, Int, Str, Any]); expr(s, r, &d) };
            let p = if s.coin() { format!("${v}: {a}") } else { format!("${v}") };
            format!("@fn {p} -> {body}")
        },
        _ => if let Some(v) = var(s, d, Func) { format!("${v}") } else { s.pick(&["$int::negate", "$bool::from", "$typeof", "$str::from", "$list::reversed", "$str::len"]).to_string() },
    }
}

/// What is spread.
fn spread(s: &mut Src, t: Ty, d: &Scope) -> String {
    if s.chance(1, 4) { if let Some(e) = coalescing(s, d) { return e; } }
    expr(s, t, d)
}

/// The arguments of a call.
fn args(s: &mut Src, f: &F, skip: usize, d: &Scope) -> String {
    let most = f.pos.len() - skip.min(f.pos.len());
    let least = most.saturating_sub(f.opt);
    let k = if s.chance(1, 80) { s.us(4) } else { least + s.us(most - least + 1) };
    let mut a: Vec<String> = (0..k).map(|i| match f.name {
        "dict::get" if s.chance(5, 6) => s.pick(&["a", "b", "class", "x_y"]).to_string(),
        "list::get" if s.chance(5, 6) => s.range(-1, 1).to_string(),
        _ => expr(s, *f.pos.get(skip + i).unwrap_or(&Any), d),
    }).collect();
    if f.opt > 0 && s.chance(1, 15) || s.chance(1, 80) { let e = spread(s, List, d); a.push(format!("*{e}")); }
    for (n, t) in f.named {
        if *n == "title" || s.chance(2, 5) { let e = expr(s, *t, d); a.push(format!("{n}={e}")); }
    }
    if s.chance(1, if f.name == "dict::new" || f.name == "attributes" { 8 } else { 100 }) { let e = spread(s, Dict, d); a.push(format!("**{e}")); }
    a.join(", ")
}

fn content(s: &mut Src, t: Ty, d: &Scope) -> String {
    if t == Unit { ".".into() } else { format!(" {}", expr(s, t, d)) }
}

fn call(s: &mut Src, t: Ty, sc: &Scope) -> Option<String> {
    let fs: Vec<&F> = FUNCS.iter().filter(|f| t == Any || f.ret == t || (f.ret == Any && s.chance(1, 4))).collect();
    if fs.is_empty() { return None; }
    let mut f = *s.pick(&fs);
    if f.name == "raise" { f = *s.pick(&fs); }
    let d = sc.down();
    // as a method of a variable
    let own = f.name.split("::").next().unwrap_or("");
    let owner = match own { "bool" => Bool, "int" => Int, "str" => Str, "list" => List, "html" => Html, "function" => Func, "regex" => Regex, _ => Unit };
    if owner != Unit && s.chance(1, 4) {
        if let Some(v) = var(s, &d, owner) {
            let m = f.name.split("::").nth(1).unwrap();
            let by_pos = f.pos.first() == Some(&owner) && f.content != owner;
            let a = args(s, f, by_pos as usize, &d);
            let c = if by_pos { content(s, f.content, &d) } else { ".".into() };
            return Some(format!("@{v}::{m}({a}){c}"));
        }
    }
    let a = args(s, f, 0, &d);
    let c = if f.name == "int::parse" && s.chance(3, 4) { format!(" `{}`", int(s)) } else if f.name == "html::parse" && s.chance(3, 4) { s.pick(&[" `<b>x</b>`", " `<p>a</p><p>b<br>c</p>`", " \"a&amp;b\"", " `<ul><li>a</li></ul>`"]).to_string() } else { content(s, f.content, &d) };
    Some(if a.is_empty() { format!("@{}{c}", f.name) } else { format!("@{}({a}){c}", f.name) })
}

fn pattern(s: &mut Src, d: &mut Scope, depth: u32) -> String {
    let mut bind = |t: Ty, d: &mut Scope| { let v = d.fresh(); d.vars.push((v.clone(), t)); v };
    if depth == 0 {
        return match s.us(6) {
            0 => "_".into(),
            1 => format!("${}", bind(Any, d)),
            2 => literal(s, Int, d),
            3 => literal(s, Str, d),
            4 => { let (a, t) = *s.pick(ANNOT); format!("${}: {a}", bind(t, d)) },
            _ => s.pick(&[".", "True", "_: $v_t", "_: str", "_: any list"]).to_string(),
        };
    }
    let rest = |s: &mut Src, d: &mut Scope, bind: &mut dyn FnMut(Ty, &mut Scope) -> String, t: Ty| if s.coin() { format!("*${}", bind(t, d)) } else { "*_".to_string() };
    match s.us(9) {
        0 | 1 => {
            let mut p: Vec<String> = vec![];
            let k = s.us(4);
            for _ in 0..k { p.push(pattern(s, d, depth - 1)); }
            if s.coin() { let r = rest(s, d, &mut bind, List); let at = s.us(p.len() + 1); p.insert(at, r); }
            format!("[{}]", p.join(", "))
        },
        2 => {
            let mut p: Vec<String> = vec![];
            for k in ["a", "class"] { if s.coin() { p.push(format!("{k}={}", pattern(s, d, depth - 1))); } }
            if s.coin() { p.push(format!("**${}", bind(Dict, d))); }
            format!("({})", p.join(", "))
        },
        3 => {
            let n = if s.coin() { format!("${}", bind(Str, d)) } else { s.pick(&["b", "p", "_", "ul"]).to_string() };
            let a = match s.us(4) { 0 => "...".to_string(), 1 => format!("**${}", bind(Dict, d)), 2 => format!("id={} ...", pattern(s, d, 0)), _ => String::new() };
            let c = pattern(s, d, depth - 1);
            format!("<{n} {a}>{c}</>")
        },
        4 => {
            let mut piece = |s: &mut Src| s.vec(0, 3, |s| match s.us(5) {
                0 | 1 => s.pick(&["a", " ", "b ", "é", ". ", "--", "&lpar;", "&#91;"]).to_string(),
                2 => format!("\\{}", s.pick(&["(", ")", "[", "]", "{", "}", "*", "+", "?", "|", "^", "$", "\\", ".", "-", "#", "n", "&", "~", " "])),
                3 => format!("\\x{:02x}", 32 + s.us(95)),
                _ => s.pick(&["(", "[", "*", "+", "?", "|", "^", "^a", "b+", ".*", "a|b"]).to_string(),
            }).concat();
            let (a, b, c) = (piece(s), piece(s), piece(s));
            format!("\"{a}{{${}}}{b}{}\"", bind(Str, d), if s.coin() { format!("${}{c}", bind(Str, d)) } else { String::new() })
        },
        5 => { let v = bind(Any, d); let t = bind(Str, d); format!("${v}: ${t}") },
        6 => { let e = simple(s, Any, d); format!("={e}") },
        7 => { let a = pattern(s, d, depth - 1); let b = pattern(s, d, depth - 1); format!("{a} {} {b}", if s.coin() { "|" } else { "&" }) },
        _ => {
            // in content, only patterns which can match content
            let k = s.us(3);
            let mut p: Vec<String> = (0..k).map(|_| match s.us(5) { 0 => "_".into(), 1 => format!("${}", bind(Html, d)), 2 => format!("${}: str", bind(Str, d)), 3 => format!("<$t_ **_>${}</>", bind(Html, d)), _ => format!("{}", s.pick(&["`a`", "<b>_</>", "_: html", "\"x$_q\"", "` `"])) }).collect();
            if s.coin() { let r = rest(s, d, &mut bind, Html); let at = s.us(p.len() + 1); p.insert(at, r); }
            format!("{{{}}}", p.join(" "))
        },
    }
}

fn matched(s: &mut Src, t: Ty, sc: &Scope) -> String {
    let d = sc.down();
    let on = *s.pick(TYPES);
    let v = expr(s, on, &d);
    let b = s.vec(1, 3, |s| {
        let mut d = d.clone();
        let depth = s.us(3) as u32;
        let p = pattern(s, &mut d, depth);
        format!("{p} -> {}", expr(s, t, &d))
    });
    let mut b = b;
    if s.chance(3, 4) { b.push(format!("_ -> {}", simple(s, t, &d))); }
    format!("@match {v} {{{}}}", b.join(", "))
}

/// An expression which mostly has the type.
pub fn expr(s: &mut Src, t: Ty, sc: &Scope) -> String {
    let t = if s.chance(1, 80) { *s.pick(TYPES) } else { t };
    let t = if t == Any { *s.pick(TYPES) } else { t };
    if sc.depth == 0 { return if s.coin() { simple(s, t, sc) } else { literal(s, t, sc) }; }
    match s.weighted(&[3, 3, 7, 1, if sc.funcs.is_empty() { 0 } else { 1 }]) {
        0 => if let Some(v) = var(s, sc, t) { format!("${v}") } else { literal(s, t, sc) },
        1 => literal(s, t, sc),
        2 => match call(s, t, sc) { Some(c) => c, None => literal(s, t, sc) },
        3 => matched(s, t, sc),
        _ => { let f = s.pick(&sc.funcs).clone();
            let d = sc.down();
            let k = f.1 + s.us(f.2 - f.1 + 1);
            let a = (0..k).map(|_| expr(s, Any, &d)).collect::<Vec<_>>().join(", ");
            let c = content(s, f.3, &d);
            if k > 0 { format!("@{}({a}){c}", f.0) } else { format!("@{}{c}", f.0) } },
    }
}

fn signature(s: &mut Src, sc: &mut Scope) -> (String, usize, usize, Ty) {
    let (mut least, mut most, mut cont) = (0, 0, Unit);
    let mut ps = vec![];
    let pos = s.us(3);
    let mut opt = false;
    for _ in 0..pos { let v = sc.fresh(); let (a, t) = *s.pick(ANNOT); if !opt { opt = s.chance(1, 3); } most += 1; if !opt { least += 1; } ps.push(format!("$_{v}{}{}", if opt { "?" } else { "" }, if s.coin() { format!(": {a}") } else { String::new() })); sc.vars.push((format!("_{v}"), t)); }
    if s.chance(1, 3) { most += 2; let v = sc.fresh(); ps.push(format!("*$_{v}{}", s.pick(&["", ": any list", ": int list"]))); sc.vars.push((format!("_{v}"), List)); }
    for n in ["a", "b"] { if s.chance(1, 3) { let (a, t) = *s.pick(ANNOT); let dflt = simple(s, t, sc); let t_opt = ps.iter().any(|p: &String| p.contains('?') || p.contains('=')); ps.push(match s.us(4) { 0 if !t_opt => format!("${n}: {a}"), 0 | 1 => format!("${n}?: {a}"), 2 => format!("${n}: {a} = {dflt}"), _ => format!("${n} = {dflt}") }); sc.vars.push((n.to_string(), t)); } }
    if s.chance(1, 4) { let v = sc.fresh(); ps.push(format!("**${v}")); sc.vars.push((v, Dict)); }
    let mut o = if ps.is_empty() { String::new() } else { format!("({})", ps.join(", ")) };
    if s.chance(3, 4) { let v = sc.fresh(); let (a, t) = *s.pick(ANNOT); o += &format!(" ${v}{}", if s.coin() { format!(": {a}") } else { String::new() }); sc.vars.push((v, t)); cont = t; } else { o.push('.'); }
    (o, least, most, cont)
}

/// A program: definitions, and expressions in them.
pub fn program(s: &mut Src) -> String {
    let depth = 2 + s.us(2) as u32;
    let mut sc = Scope::new(depth);
    let mut out = String::new();
    let k = s.us(5);
    for _ in 0..k {
        let d = Scope {depth, ..sc.clone()};
        if s.chance(3, 4) {
            let n = 1 + s.us(2);
            let mut b = vec![];
            let mut new = vec![];
            for _ in 0..n { let t = *s.pick(TYPES); let v = sc.fresh(); b.push(format!("{v}={}", expr(s, t, &d))); new.push((v, t)); }
            out += &format!("{}\n", if s.chance(3, 4) { format!("@let({})...", b.join(", ")) } else { format!("@export({}).", b.join(", ")) });
            sc.vars.extend(new);
        } else {
            // the body sees what is defined before, so that nothing calls itself
            let mut inner = d.clone();
            let (sig, least, most, cont) = signature(s, &mut inner);
            let t = *s.pick(TYPES);
            let body = expr(s, t, &inner);
            let v = sc.fresh();
            out += &format!("@fn {v}{sig} -> {body}\n");
            sc.funcs.push((v.clone(), least, most, cont));
            if s.coin() { sc.vars.push((v, Func)); }
        }
    }
    let m = 1 + s.us(4);
    for _ in 0..m {
        let t = *s.pick(&[Html, Str, Int, Any, List]);
        let e = expr(s, t, &Scope {depth, ..sc.clone()});
        out += &if t == Html || t == Str || t == Int { format!("{e}\n\n") } else { format!("@typeof {e}\n\n") };
    }
    out
}
