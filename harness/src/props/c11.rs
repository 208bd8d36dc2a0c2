//! C11: list operations, against a model on vectors.
use crate::engine::*;
use crate::lang::*;
use super::vals::{self, Prog, R};

type F = Box<dyn Fn(&V) -> R>;

fn kind(v: &V) -> &'static str {
    match v {
        V::Bool(_) => "bool", V::Int(_) => "int", V::Str(_) => "str", V::List(_) => "list", V::Dict(_) => "dict",
        V::Html(h) if h.is_empty() => "unit", V::Html(_) => "html", V::Func => "function", V::Regex(_) => "regex",
    }
}

/// A function of one value, with its model; `T` says what it returns.
fn predicate(s: &mut Src) -> (String, F) {
    let lit = |s: &mut Src| { let v = vals::scalar(s); let l = match &v { V::Str(t) => str_lit(t), v => vals::src(s, v) }; (v, l) };
    match s.us(8) {
        0 => ("@fn $v -> True".into(), Box::new(|_| Ok(V::Bool(true)))),
        1 => ("@fn $v -> False".into(), Box::new(|_| Ok(V::Bool(false)))),
        2 => {
            let t = *s.pick(&["int", "str", "bool"]);
            (format!("@fn $v -> @match $v {{_: {t} -> True, _ -> False}}"), Box::new(move |v| Ok(V::Bool(kind(v) == t))))
        },
        3 => {
            let (c, l) = lit(s);
            (format!("@fn $v -> @match $v {{ ={l} -> True, _ -> False}}"), Box::new(move |v| Ok(V::Bool(vals::equal(v, &c)))))
        },
        // no value for some, an error
        4 => {
            let t = *s.pick(&["int", "str", "bool"]);
            let (b1, b2) = (s.coin(), s.coin());
            let w = |b| if b { "True" } else { "False" };
            (format!("@fn $v -> @match $v {{_: {t} -> {}, [..] -> {}}}", w(b1), w(b2)).replace("[..]", "[*_]"),
                Box::new(move |v| if kind(v) == t { Ok(V::Bool(b1)) } else if kind(v) == "list" { Ok(V::Bool(b2)) } else { Err(()) }))
        },
        // not always a boolean
        5 => {
            let (c, l) = lit(s);
            (format!("@fn $v -> @match $v {{ ={l} -> @raise oops, _ -> True}}"), Box::new(move |v| if vals::equal(v, &c) { Err(()) } else { Ok(V::Bool(true)) }))
        },
        6 => {
            let (c, l) = lit(s);
            (format!("@fn $v -> @match $v {{ ={l} -> 5, _ -> False}}"), Box::new(move |v| if vals::equal(v, &c) { Err(()) } else { Ok(V::Bool(false)) }))
        },
        _ => {
            let k = s.range(-1, 4);
            (format!("@fn $v -> @match $v {{ {k} | {} | a | `` -> True, _ -> False}}", k + 1).replace(" | a | ``", " | `a`"), Box::new(move |v| Ok(V::Bool(*v == V::Int(k) || *v == V::Int(k + 1) || *v == V::s("a")))))
        },
    }
}

fn mapper(s: &mut Src) -> (String, F) {
    match s.us(7) {
        0 => ("@fn $v -> $v".into(), Box::new(|v| Ok(v.clone()))),
        1 => ("@fn $v -> [$v, $v]".into(), Box::new(|v| Ok(V::List(vec![v.clone(), v.clone()])))),
        2 => ("@fn $v -> @dict::new(a=$v).".into(), Box::new(|v| Ok(V::Dict(vec![("a".into(), v.clone())])))),
        3 => { let c = vals::value(s, 1); let l = vals::src(s, &c); (format!("@fn $v -> {l}"), Box::new(move |_| Ok(c.clone()))) },
        4 => ("@fn $v -> @match $v {$i: int -> @int::add($i, 1)., _ -> $v}".into(), Box::new(|v| match v { V::Int(i) => i.checked_add(1).map(V::Int).ok_or(()), v => Ok(v.clone()) })),
        5 => ("@fn $v -> @match $v {_: bool -> @raise oops, [$h, *$t] -> $t, _ -> .}".into(), Box::new(|v| match v { V::Bool(_) => Err(()), V::List(l) if !l.is_empty() => Ok(V::List(l[1..].to_vec())), _ => Ok(V::unit()) })),
        _ => ("@fn $v: str -> [`s`, $v]".into(), Box::new(|v| match v {
            V::Str(_) => Ok(V::List(vec![V::s("s"), v.clone()])),
            V::Int(i) => Ok(V::List(vec![V::s("s"), V::Str(i.to_string())])),
            V::Bool(b) => Ok(V::List(vec![V::s("s"), V::s(if *b { "True" } else { "False" })])),
            _ => Err(()),
        })),
    }
}

fn key(s: &mut Src) -> (String, F) {
    match s.us(6) {
        5 => ("@fn $v -> @match $v {[$k: int, *_] -> $k, $k: int -> $k, _ -> 0}".into(), Box::new(|v| Ok(match v { V::Int(_) => v.clone(), V::List(l) => match l.first() { Some(k @ V::Int(_)) => k.clone(), _ => V::Int(0) }, _ => V::Int(0) }))),
        0 => ("@fn $v -> $v".into(), Box::new(|v| Ok(v.clone()))),
        1 => ("@fn $v -> @match $v {_: int -> 1, _: str -> 0, _ -> 2}".into(), Box::new(|v| Ok(V::Int(match kind(v) { "int" => 1, "str" => 0, _ => 2 })))),
        2 => ("@fn $v -> @match $v {$t: str -> @str::len $t, [*$l] -> @list::len $l, _ -> -1}".into(), Box::new(|v| Ok(V::Int(match v { V::Str(t) => t.len() as i64, V::List(l) => l.len() as i64, _ => -1 })))),
        3 => ("@fn $v -> @match $v {0 | 3 -> `z`, 1 -> `Z`, _: int -> `é`, _ -> \"\"}".into(), Box::new(|v| Ok(V::s(match v { V::Int(0 | 3) => "z", V::Int(1) => "Z", V::Int(_) => "é", _ => "" })))),
        _ => ("@fn $v -> @match $v {_: int -> $v, _: str -> $v, _ -> 0}".into(), Box::new(|v| Ok(match v { V::Int(_) | V::Str(_) => v.clone(), _ => V::Int(0) }))),
    }
}

pub fn escape(t: &str) -> String { t.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;") }

/// Joined content; only what this module can model.
fn join(l: &[V], sep: &V) -> Option<V> {
    let mut text = Some(String::new());
    let mut html = String::new();
    for (i, v) in l.iter().enumerate() {
        let mut parts = vec![v];
        if i > 0 { parts.insert(0, sep); }
        for v in parts {
            let t = match v {
                V::Str(t) => t.clone(),
                V::Int(i) => i.to_string().replace('-', "\u{2212}"),
                V::Bool(b) => if *b { "True".into() } else { "False".into() },
                V::Html(h) if h.is_empty() => String::new(),
                V::Html(h) => { html += h; text = None; continue; },
                _ => return None,
            };
            if let Some(o) = text.as_mut() { *o += &t; }
            html += &escape(&t);
        }
    }
    Some(match text { Some(t) if t.is_empty() => V::unit(), Some(t) => V::Str(t), None => V::Html(html) })
}

fn sorted(l: &[V], key: Option<&F>, reversed: bool) -> Result<Vec<V>, ()> {
    let mut d: Vec<(V, V)> = vec![];
    for v in l {
        let k = match key { Some(f) => f(v)?, None => v.clone() };
        d.push((k, v.clone()));
    }
    if !(d.iter().all(|p| matches!(p.0, V::Int(_))) || d.iter().all(|p| matches!(p.0, V::Str(_)))) { return Err(()); }
    let cmp = |a: &V, b: &V| match (a, b) { (V::Int(a), V::Int(b)) => a.cmp(b), (V::Str(a), V::Str(b)) => a.chars().cmp(b.chars()), _ => unreachable!() };
    // insertion sort, keeping equal elements in their order
    let mut out: Vec<(V, V)> = vec![];
    for p in d {
        let i = out.iter().position(|q| { let o = cmp(&p.0, &q.0); if reversed { o.is_gt() } else { o.is_lt() } }).unwrap_or(out.len());
        out.insert(i, p);
    }
    Ok(out.into_iter().map(|p| p.1).collect())
}

fn index(s: &mut Src, n: usize) -> i64 {
    let n = n as i64;
    match s.weighted(&[6, 3, 1]) { 0 => s.range(-n - 1, n + 1), 1 => s.range(0, n), _ => s.int() }
}

/// Appends one operation on the list named `x`, and returns the name of the
/// result and its model.
fn op(s: &mut Src, p: &mut Prog, x: &str, l: &[V]) -> (String, R) {
    let n = l.len();
    // the ways to give a list to a function: as content, or as the subject
    let call = |s: &mut Src, f: &str, args: &str| {
        let paren = if args.is_empty() { if s.coin() { "()" } else { "" }.to_string() } else { format!("({args})") };
        match s.us(3) {
            0 => format!("@list::{f}{paren} ${x}"),
            1 => format!("@{x}::{f}{paren}."),
            _ => format!("@list::{f}{paren} [*${x}]"),
        }
    };
    let wrap = |r: Result<Vec<V>, ()>| r.map(V::List);
    let (e, r): (String, R) = match s.us(20) {
        0 => (call(s, "len", ""), Ok(V::Int(n as i64))),
        1 => (call(s, "is_empty", ""), Ok(V::Bool(n == 0))),
        2 => {
            let i = index(s, n);
            let r = if i >= 0 { l.get(i as usize).cloned().ok_or(()) } else if -(i as i128) <= n as i128 { Ok(l[(n as i64 + i) as usize].clone()) } else { Err(()) };
            if s.coin() { (call(s, "get", &i.to_string()), r) } else { (format!("${x}::{i}"), r) }
        },
        3 | 4 | 5 => {
            let a = index(s, n);
            let b = if s.chance(1, 3) { None } else { Some(index(s, n)) };
            let pos = |i: i64| if i < 0 { (n as i128 + i as i128).max(0) as usize } else { (i as i128).min(n as i128) as usize };
            let (lo, hi) = (pos(a), b.map(pos).unwrap_or(n));
            let r = if lo < hi { l[lo..hi].to_vec() } else { vec![] };
            let args = match b { Some(b) => format!("{a}, {b}"), None => if s.chance(1, 4) { format!("{a}, .") } else { a.to_string() } };
            (call(s, "slice", &args), Ok(V::List(r)))
        },
        6 => (call(s, "filter", ""), Ok(V::List(l.iter().filter(|v| **v != V::unit()).cloned().collect()))),
        7 => {
            let (f, m) = predicate(s);
            let mut out = Ok(vec![]);
            for v in l { match m(v) { Ok(V::Bool(true)) => { let _ = out.as_mut().map(|o: &mut Vec<V>| o.push(v.clone())); }, Ok(_) => {}, Err(()) => { out = Err(()); break; } } }
            (call(s, "filter", &f), wrap(out))
        },
        8 => {
            let (f, m) = mapper(s);
            (call(s, "map", &f), wrap(l.iter().map(|v| m(v)).collect()))
        },
        9 => (call(s, "flat", ""), Ok(V::List(l.iter().flat_map(|v| match v { V::List(l) => l.clone(), v => vec![v.clone()] }).collect()))),
        10 => {
            let rev = s.us(3);
            let k = if s.chance(2, 3) { Some(key(s)) } else { None };
            let mut args = vec![];
            if let Some(k) = &k { args.push(format!("key={}", k.0)); }
            if rev > 0 { args.push(format!("reversed={}", if rev == 1 { "True" } else { "False" })); }
            let r = sorted(l, k.as_ref().map(|k| &k.1), rev == 1);
            (call(s, "sorted", &args.join(", ")), wrap(r))
        },
        11 => (if s.coin() { format!("@list::reversed ${x}") } else { format!("@list::reversed [*${x}]") }, Ok(V::List(l.iter().rev().cloned().collect()))),
        12 => {
            let from = s.chance(1, 2).then(|| s.int());
            let r = l.iter().enumerate().map(|(i, v)| from.unwrap_or(0).checked_add(i as i64).map(|i| V::List(vec![V::Int(i), v.clone()])).ok_or(())).collect();
            (call(s, "enumerate", &from.map(|f| format!("from={f}")).unwrap_or_default()), wrap(r))
        },
        13 | 14 | 15 => {
            let which = *s.pick(&["find", "any", "all"]);
            let (f, m) = predicate(s);
            let mut r = Ok(match which { "find" => V::unit(), "any" => V::Bool(false), _ => V::Bool(true) });
            for v in l {
                match m(v) {
                    Err(()) => { r = Err(()); break; },
                    Ok(V::Bool(true)) if which == "find" => { r = Ok(v.clone()); break; },
                    Ok(V::Bool(true)) if which == "any" => { r = Ok(V::Bool(true)); break; },
                    Ok(V::Bool(false)) if which == "all" => { r = Ok(V::Bool(false)); break; },
                    Ok(_) => {},
                }
            }
            (call(s, which, &f), r)
        },
        16 => {
            let v = if n > 0 && s.coin() { s.pick(l).clone() } else { vals::value(s, 1) };
            let lit = vals::src(s, &v);
            (call(s, "contains", &lit), Ok(V::Bool(l.iter().any(|w| vals::equal(&v, w)))))
        },
        17 => {
            let sep = match s.us(4) { 0 => None, 1 => Some(V::Html("<br>".into())), 2 => Some(V::Int(-4)), _ => Some(V::Str(vals::string(s))) };
            let r = join(l, sep.as_ref().unwrap_or(&V::unit()));
            let args = match &sep { None => String::new(), Some(v) => vals::src(s, v) };
            match r {
                Some(r) => (call(s, "join", &args), Ok(r)),
                None => (call(s, "len", ""), Ok(V::Int(n as i64))),
            }
        },
        // what cannot be indexed; with `?`, nothing has no elements
        18 => {
            let i = index(s, n);
            let opt = s.coin();
            let v = s.pick(&[".", "@dict::new(a=1).", "5", "`text`", "<b>x</b>", "True", "$list::len"]);
            let q = if opt { "?" } else { "" };
            let e = if s.coin() { format!("@let(iv={v}) $iv{q}::{i}") } else { format!("@let(iv={v}) [$iv{q}::{i}]") };
            let r = if opt && *v == "." { Ok(if e.ends_with(']') { V::List(vec![V::unit()]) } else { V::unit() }) } else { Err(()) };
            (e, r)
        },
        // arguments of the wrong type
        _ => {
            let f = *s.pick(&["slice(`1`)", "slice(1, True)", "get(.)", "get([1])", "enumerate(from=`x`)", "filter(5)", "map(.)", "sorted(key=1)", "sorted(reversed=1)", "any(True)", "slice()", "get()", "slice(1, 2, 3)", "len(1)", "map()", "contains()", "find(f=1)"]);
            (format!("@list::{f} ${x}"), Err(()))
        },
    };
    let name = p.export(&e, r.clone());
    (name, r)
}

fn run(s: &mut Src) -> CaseResult {
    let mut p = Prog::default();
    let mut lists: Vec<(String, Vec<V>)> = vec![];
    for _ in 0..=s.us(2) {
        let l = vals::list(s);
        let e = vals::src(s, &V::List(l.clone()));
        lists.push((p.export(&e, Ok(V::List(l.clone()))), l));
    }
    let n = 1 + s.us(9);
    let mut big = 0;
    for _ in 0..n {
        let (x, l) = s.pick(&lists).clone();
        if l.len() >= 2 { big += 1; }
        if let (name, Ok(V::List(r))) = op(s, &mut p, &x, &l) { lists.push((name, r)); }
    }
    // nothing has changed any of them
    let again = format!("[{}]", lists.iter().map(|l| format!("${}", l.0)).collect::<Vec<_>>().join(", "));
    p.export(&again, Ok(V::List(lists.iter().map(|l| V::List(l.1.clone())).collect())));
    if big >= 2 { s.nontrivial(); }
    s.label(if p.want.iter().any(|w| w.1.is_err()) { "with an error" } else { "without errors" });
    p.check(s)
}

/// Operations on long lists, whose elements have few distinct keys.
fn long(s: &mut Src) -> CaseResult {
    let mut p = Prog::default();
    let mut lists: Vec<(String, Vec<V>)> = vec![];
    let most = if s.chance(1, 8) { 600 } else { 80 };
    let n = 15 + s.us(most);
    let few = s.range(1, 6);
    let kind = s.us(5);
    let l: Vec<V> = (0..n as i64).map(|i| match kind {
        0 => V::List(vec![V::Int(s.range(0, few)), V::Int(i)]),
        1 => V::List(vec![V::Int(s.range(0, few)), vals::scalar(s)]),
        2 => if s.coin() { V::Int(i) } else { V::Str(format!("s{}", s.range(0, few))) },
        3 => V::Str(s.vec(0, 3, |s| *s.pick(&['a', 'b', 'Z'])).into_iter().collect()),
        _ => V::Int(s.range(-few, few)),
    }).collect();
    let e = vals::src(s, &V::List(l.clone()));
    lists.push((p.export(&e, Ok(V::List(l.clone()))), l));
    let mut big = 0;
    for _ in 0..2 + s.us(5) {
        let (x, l) = lists[s.us(lists.len())].clone();
        if l.len() > 20 { big += 1; }
        if let (name, Ok(V::List(r))) = op(s, &mut p, &x, &l) { if r.len() <= 2000 { lists.push((name, r)); } }
    }
    if big >= 2 { s.nontrivial(); }
    p.check(s)
}

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        subs: vec![
            Sub {name: "operations", quick: 200_000, thorough: 4_000_000, run},
            Sub {name: "long", quick: 15_000, thorough: 400_000, run: long},
        ],
        fixed: vec![],
        rule: "programs with at least two operations on lists of at least two elements; results of operations are operands of later ones, and all lists are exported again at the end; long: at least two operations on lists of more than 20 elements",
        assumptions: &["joined content is modelled for text, numbers, booleans and a table of elements only (the other joins are checked by C24)"],
    }
}
