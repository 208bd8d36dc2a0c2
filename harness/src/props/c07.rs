//! C07: declared types decide exactly which values are accepted, and as what.
use crate::engine::*;
use crate::lang::*;
use super::{c05::is_block, vals};

#[derive(Clone, Debug, PartialEq)]
pub enum T { None, Any, Html, Block, Inline, Bool, Int, Str, Func, Regex, Dict(Box<T>), List(Box<T>), Opt(Box<T>) }
impl std::fmt::Display for T {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            T::Dict(t) => write!(f, "{t} dict"), T::List(t) => write!(f, "{t} list"), T::Opt(t) => write!(f, "{t}?"),
            t => write!(f, "{}", PRIMS.iter().find(|p| p.1 == *t).unwrap().0),
        }
    }
}
const PRIMS: &[(&str, T)] = &[("int", T::Int), ("str", T::Str), ("bool", T::Bool), ("html", T::Html), ("inline", T::Inline), ("block", T::Block), ("any", T::Any), ("none", T::None), ("function", T::Func), ("regex", T::Regex)];

impl T {
    fn takes_unit(&self) -> bool { matches!(self, T::Any | T::Html | T::Block | T::Inline | T::None | T::Opt(_)) }
    pub fn opt(self) -> T { if self.takes_unit() { self } else { T::Opt(Box::new(self)) } }
    fn parse(s: &str) -> Option<T> {
        if let Some(t) = s.strip_suffix('?') { return Some(T::Opt(Box::new(T::parse(t)?))); }
        if let Some(t) = s.strip_suffix(" list") { return Some(T::List(Box::new(T::parse(t)?))); }
        if let Some(t) = s.strip_suffix(" dict") { return Some(T::Dict(Box::new(T::parse(t)?))); }
        PRIMS.iter().find(|p| p.0 == s).map(|p| p.1.clone())
    }
}

/// A type, and a way of writing it.
pub fn type_(s: &mut Src) -> (String, T) {
    let i = s.weighted(&[4, 4, 2, 3, 2, 2, 2, 1, 1, 1]);
    let (mut o, mut t) = (PRIMS[i].0.to_string(), PRIMS[i].1.clone());
    if s.chance(1, 10) { let l = s.coin(); o = if l { "list".into() } else { "dict".into() }; t = if l { T::List(Box::new(T::Any)) } else { T::Dict(Box::new(T::Any)) }; }
    for _ in 0..s.weighted(&[4, 4, 2, 1]) {
        let ws = *s.pick(&[" ", " ", " ", "  ", "\n", " # c\n "]);
        match s.us(3) {
            0 => { o += &format!("{ws}list"); t = T::List(Box::new(t)); },
            1 => { o += &format!("{ws}dict"); t = T::Dict(Box::new(t)); },
            _ => if !t.takes_unit() { o += if s.chance(1, 6) { " ?" } else { "?" }; t = T::Opt(Box::new(t)); },
        }
    }
    (o, t)
}

#[derive(Clone, Debug)]
pub enum M { Bool(bool), Int(i64), Str(String), List(Vec<M>), Dict(Vec<(String, M)>), Html(Vec<Node>), Func, Regex }

pub fn el(n: &str, k: Vec<Node>) -> Node { Node::El(n.into(), vec![], k) }
fn unit() -> M { M::Html(vec![]) }
fn elems() -> Vec<(&'static str, Vec<Node>)> {
    let t = |s: &str| Node::Text(s.into());
    vec![
        ("<b>x</>", vec![el("b", vec![t("x")])]), ("<i/>", vec![el("i", vec![])]), ("{p <b>x</>}", vec![t("p "), el("b", vec![t("x")])]), ("<p>x</>", vec![el("p", vec![t("x")])]), ("<br>", vec![el("br", vec![])]),
        ("<a><div>x</></>", vec![el("a", vec![el("div", vec![t("x")])])]), ("<a>x</>", vec![el("a", vec![t("x")])]), ("{<b>x</><hr>}", vec![el("p", vec![el("b", vec![t("x")])]), el("hr", vec![])]), ("<foo/>", vec![el("foo", vec![])]), ("<ul><li>x</></>", vec![el("ul", vec![el("li", vec![t("x")])])]),
        ("@list::join [x, <hr>]", vec![t("x"), el("hr", vec![])]),
    ]
}

fn scalar(s: &mut Src) -> M {
    match s.weighted(&[4, 4, 1, 2, 3, 1, 1]) {
        0 => M::Int(if s.chance(1, 6) { s.int() } else { s.range(-3, 5) }),
        1 => M::Str(vals::string(s)),
        2 => M::Bool(s.coin()),
        3 => unit(),
        4 => { let e = elems(); let i = s.us(e.len()); M::Html(e[i].1.clone()) },
        5 => M::Func,
        _ => M::Regex,
    }
}
pub fn value(s: &mut Src, d: u32) -> M {
    if d == 0 { return scalar(s); }
    match s.weighted(&[6, 3, 2]) {
        0 => scalar(s),
        1 => M::List(items(s, d, 4)),
        _ => { let v = items(s, d, 3); M::Dict(v.into_iter().enumerate().map(|(i, v)| (vals::KEYS[i].to_string(), v)).collect()) },
    }
}
/// Often alike, so that they have a common type.
fn items(s: &mut Src, d: u32, max: usize) -> Vec<M> {
    match s.us(5) {
        0 => { let (_, t) = type_(s); s.vec(0, max, |s| of(s, &t, d - 1)) },
        1 => s.vec(0, max, |s| if s.chance(1, 4) { unit() } else { M::Int(s.range(0, 3)) }),
        2 => s.vec(0, max, |s| if s.chance(1, 4) { unit() } else { M::Str("a".into()) }),
        3 => s.vec(0, max, |s| { let e = elems(); let i = s.us(e.len()); M::Html(e[i].1.clone()) }),
        _ => s.vec(0, max, |s| value(s, d - 1)),
    }
}
/// A value which belongs to the type, or nearly.
fn of(s: &mut Src, t: &T, d: u32) -> M {
    if s.chance(1, 8) { return value(s, d.min(1)); }
    match t {
        T::None => unit(), T::Any => value(s, d.min(1)), T::Bool => M::Bool(s.coin()), T::Int => M::Int(s.range(-2, 9)), T::Str => M::Str(vals::string(s)), T::Func => M::Func, T::Regex => M::Regex,
        T::Html | T::Block | T::Inline => { let e = elems(); let i = s.us(e.len()); M::Html(e[i].1.clone()) },
        T::Opt(t) => if s.chance(1, 3) { unit() } else { of(s, t, d) },
        T::List(t) => M::List(s.vec(0, 3, |s| of(s, t, d.saturating_sub(1)))),
        T::Dict(t) => { let v = s.vec(0, 3, |s| of(s, t, d.saturating_sub(1))); M::Dict(v.into_iter().enumerate().map(|(i, v)| (vals::KEYS[i].to_string(), v)).collect()) },
    }
}
pub fn src(s: &mut Src, v: &M) -> String {
    match v {
        M::Bool(b) => if *b { "True".into() } else { "False".into() },
        M::Int(i) => i.to_string(),
        M::Str(t) => vals::str_src(s, t),
        M::List(v) => format!("[{}]", v.iter().map(|v| src(s, v)).collect::<Vec<_>>().join(", ")),
        M::Dict(v) => format!("@dict::new({}).", v.iter().map(|(k, v)| format!("{k}={}", src(s, v))).collect::<Vec<_>>().join(", ")),
        M::Html(h) if h.is_empty() => s.pick(&[".", "{}"]).to_string(),
        M::Html(h) => elems().into_iter().find(|e| e.1 == *h).expect("an element of the table").0.to_string(),
        M::Func => "$typeof".into(),
        M::Regex => "@regex::compile `a+`".into(),
    }
}
fn is_unit(v: &M) -> bool { matches!(v, M::Html(h) if h.is_empty()) }

/// Whether the value belongs to the type.
pub fn belongs(t: &T, v: &M) -> bool {
    if is_unit(v) { return t.takes_unit(); }
    match (t, v) {
        (T::Any, _) | (T::Bool, M::Bool(_)) | (T::Int, M::Int(_)) | (T::Str | T::Html | T::Inline, M::Str(_)) | (T::Func, M::Func) | (T::Regex, M::Regex) | (T::Html, M::Html(_)) => true,
        (T::Block, M::Html(h)) => h.iter().any(is_block),
        (T::Inline, M::Html(h)) => !h.iter().any(is_block),
        (T::List(t), M::List(v)) => v.iter().all(|v| belongs(t, v)),
        (T::Dict(t), M::Dict(v)) => v.iter().all(|v| belongs(t, &v.1)),
        (T::Opt(t), v) => belongs(t, v),
        _ => false,
    }
}
/// The value as content.
fn html(v: &M) -> Vec<Node> {
    let t = |s: String| if s.is_empty() { vec![] } else { vec![Node::Text(s)] };
    match v {
        M::Bool(b) => t(if *b { "True" } else { "False" }.into()),
        M::Int(i) => t(i.to_string().replace('-', "−")),
        M::Str(s) => t(s.clone()),
        M::Html(h) => h.clone(),
        M::List(v) => vec![el("ul", v.iter().map(|v| el("li", html(v))).collect())],
        M::Dict(v) => vec![Node::El("table".into(), vec![("class".into(), Some("tabular-data".into()))], v.iter().map(|(k, v)| el("tr", vec![el("th", vec![Node::Text(k.clone())]), el("td", html(v))])).collect())],
        M::Func => vec![el("code", t("(@fn typeof)".into()))],
        M::Regex => vec![el("code", t("(@regex a+)".into()))],
    }
}
fn from_html(h: Vec<Node>) -> M { if let [Node::Text(t)] = &h[..] { M::Str(t.clone()) } else { M::Html(h) } }

pub fn type_of(v: &M) -> T {
    match v {
        M::Bool(_) => T::Bool, M::Int(_) => T::Int, M::Str(_) => T::Str, M::Func => T::Func, M::Regex => T::Regex,
        M::Html(h) => if h.is_empty() { T::None } else if h.iter().any(is_block) { T::Block } else { T::Inline },
        M::List(v) => T::List(Box::new(v.iter().map(type_of).reduce(lub).unwrap_or(T::None))),
        M::Dict(v) => T::Dict(Box::new(v.iter().map(|v| type_of(&v.1)).reduce(lub).unwrap_or(T::None))),
    }
}
/// The least type of which both are subtypes.
fn lub(a: T, b: T) -> T {
    let h = |t: &T| matches!(t, T::Html | T::Block | T::Inline);
    match (a, b) {
        (a, b) if a == b => a,
        (T::Any, _) | (_, T::Any) => T::Any,
        (T::None, t) | (t, T::None) => t.opt(),
        (a, b) if h(&a) && h(&b) => T::Html,
        (T::List(a), T::List(b)) => T::List(Box::new(lub(*a, *b))),
        (T::Dict(a), T::Dict(b)) => T::Dict(Box::new(lub(*a, *b))),
        (T::Opt(a), T::Opt(b)) => lub(*a, *b).opt(),
        (T::Opt(a), b) | (b, T::Opt(a)) => lub(*a, b).opt(),
        _ => T::Any,
    }
}

/// What the value is accepted as; an error is the type wanted and the one found.
pub fn coerce(t: &T, v: &M) -> Result<M, (T, T)> {
    let t = match t { T::Opt(_) if is_unit(v) => return Ok(unit()), T::Opt(t) => t, t => t };
    if is_unit(v) { return if t.takes_unit() { Ok(unit()) } else { Err((t.clone(), T::None)) }; }
    Ok(match (t, v) {
        (T::Any, _) | (T::Bool, M::Bool(_)) | (T::Int, M::Int(_)) | (T::Str | T::Html | T::Inline, M::Str(_)) | (T::Func, M::Func) | (T::Regex, M::Regex) | (T::Html, M::Html(_)) => v.clone(),
        (T::Str, M::Bool(b)) => M::Str(if *b { "True" } else { "False" }.into()),
        (T::Str, M::Int(i)) => M::Str(i.to_string()),
        (T::List(t), M::List(v)) => M::List(v.iter().map(|v| coerce(t, v)).collect::<Result<_, _>>()?),
        (T::Dict(t), M::Dict(v)) => M::Dict(v.iter().map(|(k, v)| Ok((k.clone(), coerce(t, v)?))).collect::<Result<_, (T, T)>>()?),
        (T::Html, M::Func) | (T::Block, M::Func) => return Err((t.clone(), T::Func)),
        (T::Html, v) => from_html(html(v)),
        (T::Block, v) => { let h = html(v); from_html(if h.is_empty() || h.iter().any(is_block) { h } else { vec![el("p", h)] }) },
        (T::Inline, M::Bool(_) | M::Int(_) | M::Regex) => from_html(html(v)),
        (T::Inline, M::Html(h)) if !h.iter().any(is_block) => v.clone(),
        _ => return Err((t.clone(), type_of(v))),
    })
}

fn merge(v: &[Node]) -> Vec<Node> {
    v.iter().filter(|n| !matches!(n, Node::Text(t) if t.is_empty())).map(|n| match n { Node::El(n, a, k) => Node::El(n.clone(), a.clone(), merge(k)), n => n.clone() }).collect()
}
pub fn same(m: &M, v: &V) -> Result<bool, String> {
    Ok(match (m, v) {
        (M::Bool(a), V::Bool(b)) => a == b,
        (M::Int(a), V::Int(b)) => a == b,
        (M::Str(a), V::Str(b)) => a == b,
        (M::List(a), V::List(b)) => { if a.len() != b.len() { return Ok(false); } for (a, b) in a.iter().zip(b) { if !same(a, b)? { return Ok(false); } } true },
        (M::Dict(a), V::Dict(b)) => { if a.len() != b.len() { return Ok(false); } for (a, b) in a.iter().zip(b) { if a.0 != b.0 || !same(&a.1, &b.1)? { return Ok(false); } } true },
        (M::Html(a), V::Html(b)) => merge(a) == read_html(b)?,
        (M::Func, V::Func) | (M::Regex, V::Regex(_)) => true,
        _ => false,
    })
}

/// A function inside a collection is content only when the collection is not
/// written where content is wanted.
fn nested_func(v: &M) -> bool { match v { M::List(v) => v.iter().any(|v| matches!(v, M::Func) || nested_func(v)), M::Dict(v) => v.iter().any(|v| matches!(v.1, M::Func) || nested_func(&v.1)), _ => false } }
fn wants_html(t: &T) -> bool { match t { T::Html | T::Block => true, T::List(t) | T::Dict(t) | T::Opt(t) => wants_html(t), _ => false } }

fn accept(s: &mut Src) -> CaseResult {
    let (ts, t) = type_(s);
    let v = match s.us(3) { 0 => value(s, 2), _ => of(s, &t, 2) };
    if nested_func(&v) && wants_html(&t) { return Ok(()); }
    let lit = src(s, &v);
    let var = s.coin();
    let mut e = lit.clone();
    if var { e = "$v_".into(); }
    else { match s.us(6) { 0 => e = format!("@match 1 {{1 -> {e}, _ -> none}}"), 1 => e = format!("@let(q={e}) $q"), _ => {} } }
    let list = |x: M| M::List(vec![x]);
    let dict = |x: M| M::Dict(vec![("k1".into(), x)]);
    let id = |x: M| x;
    let w: (String, &dyn Fn(M) -> M) = match s.us(16) {
        0 => (format!("@fn f($_a: {ts}) . -> $_a\n@export(r=@f({e}).)."), &id),
        1 => (format!("@fn f($a: {ts}) . -> $a\n@export(r=@f(a={e}).)."), &id),
        2 | 3 => (format!("@fn f $a: {ts} -> $a\n@export(r=@f {e})."), &id),
        4 => (format!("@fn f(*$_a: {ts} list) . -> $_a\n@export(r=@f({e}).)."), &list),
        5 => (format!("@fn f(**$a: {ts} dict) . -> $a\n@export(r=@f(k1={e}).)."), &dict),
        6 => (format!("@fn f($a: @implicit {ts}) . -> $a\n@implicit(a={e}) {{@export(r=@f().).}}"), &id),
        7 => (format!("@fn f($a: {ts}={e}) . -> $a\n@export(r=@f().)."), &id),
        8 => (format!("@fn f($_a: {ts}) . -> $_a\n@export(r=@f(*[{e}]).)."), &id),
        9 => (format!("@fn f($a: {ts}) . -> $a\n@export(r=@f(**@dict::new(a={e}).).)."), &id),
        10 => (format!("@fn f $a: {ts} -> $a\n@export(r=@list::map($f) [{e}])."), &list),
        11 => (format!("@fn f($a: {ts}) . -> $a\n@let(g=@function::bind($f, a={e}).) {{@export(r=@g().).}}"), &id),
        12 => (format!("@fn f($_a: {ts}) $b -> $_a\n@let(g=@function::bind($f, {e}).) {{@export(r=@g `z`).}}"), &id),
        13 => (format!("@fn f(*$_a: {ts} list) . -> $_a\n@let(g=@function::bind($f, {e}).) {{@export(r=@g().).}}"), &list),
        14 => (format!("@fn f($a: {ts}, $b=`b`) $c: {ts} -> [$a, $b, $c]\n@export(r=@f(a={e}) {e})."), &|x: M| M::List(vec![x.clone(), M::Str("b".into()), x])),
        _ => (format!("@fn g $a: {ts} -> $a\n@fn f $a -> @g $a\n@export(r=@f {e})."), &id),
    };
    let (body, wrap) = w;
    let prog = if var { format!("@let(v_={lit}) {{{body}}}") } else { body };
    s.note("program", prog.clone());
    let want = coerce(&t, &v);
    s.label(match &want { Err(_) => "refused", Ok(_) if belongs(&t, &v) => "belongs", Ok(_) => "converted" });
    if matches!(t, T::List(_) | T::Dict(_) | T::Opt(_)) || matches!((&want, belongs(&t, &v)), (Ok(_), false)) { s.nontrivial(); }
    s.tick();
    let names: Vec<String> = vals::keys().into_iter().chain(["r".to_string()]).collect();
    let o = eval(&prog, &names)?;
    match want {
        Ok(m) => {
            if !belongs(&t, &m) { return Err(format!("harness: {m:?} does not belong to {t}")); }
            if !o.out.ok() { return Err(format!("a {} is not accepted as {t}: {}", type_of(&v), o.out.printed)); }
            let m = wrap(m);
            let Some(r) = o.get("r") else { return Err("no value".into()); };
            if !same(&m, r)? { return Err(format!("accepted as {r:?}, expected {m:?}")); }
        },
        Err((want, was)) => {
            if o.get("r").is_some() { return Err(format!("a {} is accepted as {t}", type_of(&v))); }
            let Some(d) = o.out.diags().into_iter().next() else { return Err("no error is reported".into()); };
            let m = format!("Type error: expected {want}, was {was}");
            if !d.msg.starts_with("Type error: expected ") || var && d.msg != m { return Err(format!("reported {:?}, expected {m:?}", d.msg)); }
        },
    }
    Ok(())
}

/// Patterns accept without conversions; the reported type describes the value.
fn types(s: &mut Src) -> CaseResult {
    let v = value(s, 3);
    let (ts, t) = type_(s);
    let lit = src(s, &v);
    let tv = type_of(&v);
    let prog = format!("@let(v_={lit}) {{@export(t=@typeof $v_, p=@match $v_ {{$x: {ts} -> True, _ -> False}}, q=@match [$v_] {{[_: {ts}] -> True, _ -> False}}).\n@fn f $a: {tv} -> $a\n@fn g(*$_a: {tv} list, **$b: {tv} dict) . -> [$_a, $b]\n@export(own=@f $v_, all=@g($v_, $v_, a=$v_)., m=@match $v_ {{$x: {tv} -> $x, _ -> `no`}}).}}");
    s.note("program", prog.clone());
    if matches!(v, M::List(_) | M::Dict(_)) { s.nontrivial(); }
    s.label(if belongs(&t, &v) { "belongs" } else { "does not" });
    s.tick();
    let names: Vec<String> = vals::keys().into_iter().chain(["t", "p", "q", "own", "all", "m"].map(String::from)).collect();
    let o = eval(&prog, &names)?;
    let Some(V::Str(got)) = o.get("t") else { return Err(format!("the type is {:?}\n{}", o.get("t"), o.out.printed)); };
    let Some(g) = T::parse(got) else { return Err(format!("the type {got:?} is not a type")); };
    if !belongs(&g, &v) { return Err(format!("the type {got:?} does not describe {v:?}")); }
    if g != tv { return Err(format!("the type is {got}, expected {tv}")); }
    if !o.out.ok() { return Err(format!("diagnostics: {}", o.out.printed)); }
    let b = belongs(&t, &v);
    for k in ["p", "q"] { if o.get(k) != Some(&V::Bool(b)) { return Err(format!("{k}: the pattern for {t} gives {:?} for a {tv}", o.get(k))); } }
    let is = |k: &str, m: &M| -> CaseResult { match o.get(k) { Some(r) if same(m, r)? => Ok(()), r => Err(format!("{k} is {r:?}, expected {m:?}")) } };
    is("own", &v)?;
    is("m", &v)?;
    is("all", &M::List(vec![M::List(vec![v.clone(), v.clone()]), M::Dict(vec![("a".into(), v.clone())])]))
}

/// How types are written, seen in the message about a value not accepted.
fn syntax(s: &mut Src) -> CaseResult {
    let (mut ts, mut t) = type_(s);
    let mut warn = 0;
    let mut bad = false;
    match s.us(5) {
        0 => { if !t.takes_unit() { t = T::Opt(Box::new(t)); ts += "?"; } ts += "?"; warn += 1; },
        1 => { ts = format!("{}{}", s.pick(&["integer", "foo", "Int", "string", "lists", "True_", "?"]), if s.coin() { " list" } else { "" }); bad = true; },
        2 => { ts += *s.pick(&[" int", " lists", " optional"]); bad = true; },
        3 => { ts += *s.pick(&[" dict ?", " list ?", " list?  dict", " list list?"]); t = match &ts[ts.len() - 6..] { x if x.ends_with("dict ?") => T::Opt(Box::new(T::Dict(Box::new(t)))), x if x.ends_with(" list?") => T::Opt(Box::new(T::List(Box::new(T::List(Box::new(t)))))), x if x.ends_with("  dict") => T::Dict(Box::new(T::Opt(Box::new(T::List(Box::new(t)))))), _ => T::Opt(Box::new(T::List(Box::new(t)))) }; },
        _ => {},
    }
    let body = match s.us(3) { 0 => format!("@fn f $a: {ts} -> $a\n@f $typeof"), 1 => format!("@fn f($_a: {ts}) . -> $_a\n@f($typeof)."), _ => format!("@fn f(*$_a: {ts} list) . -> $_a\n@f($typeof).") };
    s.note("program", body.clone());
    s.nontrivial();
    s.tick();
    let o = compile(&body)?;
    if bad { return if o.errors > 0 && o.diags().iter().any(|d| d.msg.starts_with("Syntax error")) { Ok(()) } else { Err(format!("no syntax error: {}", o.printed)) }; }
    if o.warnings != warn { return Err(format!("{} warnings, expected {warn}: {}", o.warnings, o.printed)); }
    let inner = if let T::Opt(t) = &t { t } else { &t };
    let want = format!("Type error: expected {inner}, was function");
    let got: Vec<String> = o.diags().into_iter().map(|d| d.msg).filter(|m| !m.starts_with("Warning")).collect();
    if matches!(inner, T::Any | T::Func) { return if got.iter().all(|m| m.contains("expected html, was function")) { Ok(()) } else { Err(format!("a function is not accepted as {t}: {}", o.printed)) }; }
    if got.first() != Some(&want) { return Err(format!("reported {got:?}, expected {want:?}")); }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        subs: vec![
            Sub {name: "accept", quick: 60_000, thorough: 3_000_000, run: accept},
            Sub {name: "types", quick: 30_000, thorough: 1_500_000, run: types},
            Sub {name: "syntax", quick: 10_000, thorough: 100_000, run: syntax},
        ],
        fixed: vec![],
        rule: "accept: a collection or optional type, or a value which is converted; types: a collection; syntax: every case",
        assumptions: &["conversions: bool and int to str; any value but a function to html; inline content to block content, as a paragraph; to inline, values but collections, functions and blocks", "functions inside collections are not given where content is wanted: a list literal of functions is refused, and a variable with the same list accepted"],
    }
}
