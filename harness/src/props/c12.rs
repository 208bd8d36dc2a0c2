//! C12: string, number, boolean, dict and function operations, and literals.
use crate::engine::*;
use crate::lang::*;
use super::vals::{self, Prog, R};
use super::c11::escape;

/// Gives an argument: as a literal or through a variable.
fn arg(s: &mut Src, p: &mut Prog, v: &V) -> String {
    let e = vals::src(s, v);
    if s.chance(1, 3) { format!("${}", p.export(&e, Ok(v.clone()))) } else { e }
}
/// A call of `ns::f`, whose subject is the content or the first argument.
fn call_content(s: &mut Src, p: &mut Prog, ns: &str, f: &str, args: &[String], subject: &V) -> String {
    let paren = if args.is_empty() { String::new() } else { format!("({})", args.join(", ")) };
    if s.coin() { let a = arg(s, p, subject); format!("@{ns}::{f}{paren} {a}") }
    else { let e = vals::src(s, subject); let x = p.export(&e, Ok(subject.clone())); format!("@{x}::{f}{paren}.") }
}
fn call_pos(s: &mut Src, p: &mut Prog, ns: &str, f: &str, args: &[V]) -> String {
    let mut a: Vec<String> = args.iter().map(|v| arg(s, p, v)).collect();
    if s.chance(1, 4) && !args.is_empty() {
        let i = s.us(a.len());
        let rest = a.split_off(i);
        a.push(format!("*[{}]", rest.join(", ")));
    }
    match s.us(3) {
        0 if !args.is_empty() => { let x = p.export(&vals::src(s, &args[0]), Ok(args[0].clone())); let a: Vec<String> = args[1..].iter().map(|v| arg(s, p, v)).collect(); format!("@{x}::{f}({}).", a.join(", ")) },
        _ => format!("@{ns}::{f}({}).", a.join(", ")),
    }
}

/// The string a value becomes where a string is wanted.
fn as_str(v: &V) -> Option<String> {
    match v {
        V::Str(t) => Some(t.clone()),
        V::Int(i) => Some(i.to_string()),
        V::Bool(b) => Some(if *b { "True" } else { "False" }.into()),
        _ => None,
    }
}

fn split(t: &str, sep: &str) -> Vec<String> {
    let (t, sep): (Vec<char>, Vec<char>) = (t.chars().collect(), sep.chars().collect());
    let mut out = vec![];
    let mut cur = String::new();
    if sep.is_empty() {
        // between all characters, and at both ends
        out.push(String::new());
        out.extend(t.iter().map(|c| c.to_string()));
        out.push(String::new());
        return out;
    }
    let mut i = 0;
    while i < t.len() {
        if t[i..].starts_with(&sep) { out.push(std::mem::take(&mut cur)); i += sep.len(); } else { cur.push(t[i]); i += 1; }
    }
    out.push(cur);
    out
}

fn trim(t: &str) -> String {
    let cs: Vec<char> = t.chars().collect();
    let a = cs.iter().position(|c| !c.is_whitespace()).unwrap_or(cs.len());
    let b = cs.iter().rposition(|c| !c.is_whitespace()).map(|i| i + 1).unwrap_or(a);
    cs[a..b].iter().collect()
}

fn parse_int(t: &str) -> Option<i64> {
    let (neg, d) = if let Some(r) = t.strip_prefix('-') { (true, r) } else { (false, t.strip_prefix('+').unwrap_or(t)) };
    if d.is_empty() || !d.chars().all(|c| c.is_ascii_digit()) { return None; }
    let mut n: i128 = 0;
    for c in d.chars() { n = n * 10 + c.to_digit(10).unwrap() as i128; if n > 1 << 70 { return None; } }
    i64::try_from(if neg { -n } else { n }).ok()
}

fn num_text(s: &mut Src) -> String {
    match s.us(5) {
        0 => s.int().to_string(),
        1 => { let z = "0".repeat(s.us(4)); format!("{}{z}{}", s.pick(&["", "-", "+"]), s.us(50)) },
        2 => s.pick(&["9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551616", "99999999999999999999999999", "-0", "+5"]).to_string(),
        3 => s.pick(&["", "-", "+", "--1", "1 ", " 1", "1.0", "1e3", "0x10", "1_000", "٣", "１", "a"]).to_string(),
        _ => format!("{}{}", s.us(1000), s.pick(&["", "0", "x", "\n"])),
    }
}

fn str_op(s: &mut Src, p: &mut Prog) -> (String, R) {
    let t = vals::string(s);
    let v = V::Str(t.clone());
    let piece = |s: &mut Src| {
        let cs: Vec<char> = t.chars().collect();
        if !cs.is_empty() && s.chance(2, 3) { let a = s.us(cs.len()); let b = a + s.us(cs.len() - a + 1); cs[a..b].iter().collect() } else { vals::string(s) }
    };
    match s.us(12) {
        0 => (call_content(s, p, "str", "len", &[], &v), Ok(V::Int(t.len() as i64))),
        1 => (call_content(s, p, "str", "is_empty", &[], &v), Ok(V::Bool(t.is_empty()))),
        2 => (call_content(s, p, "str", "is_whitespace", &[], &v), Ok(V::Bool(t.chars().all(|c| matches!(c, ' ' | '\t' | '\n' | '\r' | '\u{c}'))))),
        3 => (call_content(s, p, "str", "trim", &[], &v), Ok(V::Str(trim(&t)))),
        4 | 5 => {
            let (f, up) = if s.coin() { ("upper", true) } else { ("lower", false) };
            let (t, v) = if s.chance(1, 6) { let t = s.pick(&["ΟΔΟΣ", "Σ", "aΣ", "ΑΣ. Σα", "ΣΣ-Σ", "ΑΣ'Β", "İΣ", "ŉ ΐ", "ﬁnﬂ", "ᾳ ᾼ", "Ǆ ǅ ǆ", "Straße", "ΜΆΪΟΣ"]).to_string(); (t.clone(), V::Str(t)) } else { (t, v) };
            let cs: Vec<char> = t.chars().collect();
            let cased = |c: &char| c.is_lowercase() || c.is_uppercase() || *c == 'ǅ' || *c == 'ᾼ';
            let ignored = |c: &&char| !matches!(c, '.' | ':' | '\'' | '`' | '^' | '\u{301}');
            let r: String = cs.iter().enumerate().flat_map(|(i, &c)| {
                if up { return c.to_uppercase().collect::<Vec<_>>(); }
                // a sigma at the end of a word
                if c == 'Σ' && cs[..i].iter().rev().find(ignored).map_or(false, cased) && !cs[i + 1..].iter().find(ignored).map_or(false, cased) { return vec!['ς']; }
                c.to_lowercase().collect()
            }).collect();
            (call_content(s, p, "str", f, &[], &v), Ok(V::Str(r)))
        },
        6 => (call_content(s, p, "str", "escape_html", &[], &v), Ok(V::Str(escape(&t)))),
        7 | 8 => {
            let sep = piece(s);
            let sv = V::Str(sep.clone());
            let parts = split(&t, &sep).into_iter().map(V::Str).collect();
            let a = arg(s, p, &sv);
            (call_content(s, p, "str", "split", &[a], &v), Ok(V::List(parts)))
        },
        9 => {
            let q = piece(s);
            let (a, b): (Vec<char>, Vec<char>) = (t.chars().collect(), q.chars().collect());
            let start = s.coin();
            let r = if start { a.starts_with(&b) } else { a.ends_with(&b) };
            (call_pos(s, p, "str", if start { "starts_with" } else { "ends_with" }, &[v, V::Str(q)]), Ok(V::Bool(r)))
        },
        10 => { let v = vals::value(s, 1); let a = arg(s, p, &v); (format!("@str::from {a}"), as_str(&v).map(V::Str).ok_or(())) },
        _ => { let t = num_text(s); let a = arg(s, p, &V::Str(t.clone())); (format!("@int::parse {a}"), parse_int(&t).map(V::Int).ok_or(())) },
    }
}

fn num_op(s: &mut Src, p: &mut Prog) -> (String, R) {
    match s.us(4) {
        0 | 1 => {
            let ns = s.vec(0, 5, |s| s.int());
            let r: i128 = ns.iter().map(|&n| n as i128).sum();
            let vs: Vec<V> = ns.into_iter().map(V::Int).collect();
            (call_pos(s, p, "int", "add", &vs), i64::try_from(r).map(V::Int).map_err(|_| ()))
        },
        2 => { let n = s.int(); (call_content(s, p, "int", "negate", &[], &V::Int(n)), n.checked_neg().map(V::Int).ok_or(())) },
        _ => {
            let v = vals::scalar(s);
            let a = arg(s, p, &v);
            match s.us(2) {
                0 => (format!("@int::negate {a}"), match v { V::Int(n) => n.checked_neg().map(V::Int).ok_or(()), _ => Err(()) }),
                _ => (format!("@int::add(1, {a})."), match v { V::Int(n) => n.checked_add(1).map(V::Int).ok_or(()), _ => Err(()) }),
            }
        },
    }
}

fn bool_op(s: &mut Src, p: &mut Prog) -> (String, R) {
    match s.us(4) {
        0 => {
            let v = vals::value(s, 2);
            let r = match &v { V::Bool(b) => *b, V::Int(i) => *i != 0, V::Str(t) => !t.is_empty(), V::List(l) => !l.is_empty(), V::Dict(d) => !d.is_empty(), V::Html(h) => !h.is_empty(), _ => true };
            let a = arg(s, p, &v);
            (format!("@bool::from {a}"), Ok(V::Bool(r)))
        },
        1 => { let e = s.pick(&["@fn $x -> $x", "@fn . -> .", "$list::map", "@regex::compile a"]).to_string(); (format!("@bool::from {e}"), Ok(V::Bool(true))) },
        2 => { let b = s.coin(); (call_content(s, p, "bool", "negate", &[], &V::Bool(b)), Ok(V::Bool(!b))) },
        _ => {
            let (a, b) = (s.coin(), s.coin());
            let and = s.coin();
            (call_pos(s, p, "bool", if and { "and" } else { "or" }, &[V::Bool(a), V::Bool(b)]), Ok(V::Bool(if and { a && b } else { a || b })))
        },
    }
}

fn dict_op(s: &mut Src, p: &mut Prog) -> (String, R) {
    let mut d: Vec<(String, V)> = vec![];
    s.vec(0, 5, |s| { let k = s.pick(vals::KEYS).to_string(); let v = vals::value(s, 1); if !d.iter().any(|x| x.0 == k) { d.push((k, v)); } });
    let v = V::Dict(d.clone());
    let e = arg(s, p, &v);
    let key = s.pick(&["a", "b", "k1", "foo_bar", "len", "x", "keys", "nope", "", " a", "a ", "A", " b\n", "aa", "k", "foo-bar", "fooBar", "a\u{301}"]).to_string();
    let got = d.iter().find(|x| x.0 == key).map(|x| x.1.clone()).ok_or(());
    match s.us(9) {
        0 => (format!("@dict::len {e}"), Ok(V::Int(d.len() as i64))),
        1 => (format!("@dict::is_empty {e}"), Ok(V::Bool(d.is_empty()))),
        2 => (format!("@dict::keys {e}"), Ok(V::List(d.iter().map(|x| V::s(&x.0)).collect()))),
        3 => (format!("@dict::values {e}"), Ok(V::List(d.into_iter().map(|x| x.1).collect()))),
        4 => (format!("@dict::items {e}"), Ok(V::List(d.into_iter().map(|x| V::List(vec![V::Str(x.0), x.1])).collect()))),
        5 => { let k = arg(s, p, &V::Str(key)); (format!("@dict::get({k}) {e}"), got) },
        6 if !key.is_empty() && key.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') => {
            let x = p.export(&e, Ok(v));
            let q = s.pick(&["::", "?::"]).to_string();
            (format!("${x}{q}{key}"), got)
        },
        7 => {
            // more entries, before or after; one key twice is an error
            let w = vals::scalar(s);
            let k = s.pick(vals::KEYS).to_string();
            let dup = d.iter().any(|x| x.0 == k);
            let wl = arg(s, p, &w);
            if s.coin() { d.push((k.clone(), w)); (format!("@dict::new(**{e}, {k}={wl})."), if dup { Err(()) } else { Ok(V::Dict(d)) }) }
            else { d.insert(0, (k.clone(), w)); (format!("@dict::new({k}={wl}, **{e})."), if dup { Err(()) } else { Ok(V::Dict(d)) }) }
        },
        _ => {
            let f = s.pick(&["dict::len", "dict::keys", "dict::items", "dict::values", "dict::get(a)"]).to_string();
            let w = vals::scalar(s);
            let a = arg(s, p, &w);
            (format!("@{f} {a}"), Err(()))
        },
    }
}

/// A value of dicts, lists, functions and nones.
fn nest(s: &mut Src, d: u32) -> V {
    match s.weighted(&[if d > 0 { 5 } else { 0 }, if d > 0 { 2 } else { 0 }, 3, 2, 1]) {
        0 => { let mut v = vec![]; for k in ["a", "b"] { if s.chance(3, 4) { v.push((k.to_string(), nest(s, d - 1))); } } V::Dict(v) },
        1 => V::List(s.vec(0, 3, |s| nest(s, d - 1))),
        2 => V::unit(),
        3 => V::Func,
        _ => if s.coin() { V::Int(7) } else { V::Bool(true) },
    }
}
fn nest_src(v: &V) -> String {
    match v {
        V::Dict(d) => format!("@dict::new({}).", d.iter().map(|(k, v)| format!("{k}={}", nest_src(v))).collect::<Vec<_>>().join(", ")),
        V::List(l) => format!("[{}]", l.iter().map(nest_src).collect::<Vec<_>>().join(", ")),
        V::Func => "@fn(*$_a, **$n) $c -> 5".into(),
        V::Int(i) => i.to_string(),
        V::Bool(_) => "True".into(),
        _ => ".".into(),
    }
}
/// A name of attributes and indices, some of which may be of none, or a call of it.
fn path_op(s: &mut Src, p: &mut Prog) -> (String, R) {
    let v = nest(s, 3);
    let x = p.export(&nest_src(&v), Ok(v.clone()));
    let (mut path, mut at, mut any) = (x, Ok(v), false);
    for _ in 0..s.us(4) {
        let co = s.chance(2, 5);
        any |= co;
        path += if co { "?::" } else { "::" };
        // mostly a step which there is
        let attr = match &at { Ok(V::List(_)) => s.chance(1, 6), Ok(V::Dict(_)) => !s.chance(1, 8), _ => s.coin() };
        if attr {
            let k = s.pick(&["a", "b", "a", "b", "zz"]).to_string();
            path += &k;
            at = match at { Ok(V::Dict(d)) => d.into_iter().find(|e| e.0 == k).map(|e| e.1).ok_or(()), Ok(v) if co && v == V::unit() => Ok(v), _ => Err(()) };
        } else {
            let i = s.range(-2, 2);
            path += &i.to_string();
            at = match at { Ok(V::List(l)) => { let n = l.len() as i64; let j = if i < 0 { i + n } else { i }; if (0..n).contains(&j) { Ok(l[j as usize].clone()) } else { Err(()) } }, Ok(v) if co && v == V::unit() => Ok(v), _ => Err(()) };
        }
    }
    if s.chance(1, 3) { return (format!("${path}"), at); }
    // a call of none does not evaluate its arguments
    let none = any && at == Ok(V::unit());
    let c = match s.us(5) { 0 => ".".to_string(), 1 => " x".into(), 2 => "(1, k=2) [x]".into(), 3 if none => "(@raise `no`).".into(), 4 if none => " $nosuch".into(), _ => " {y}".into() };
    let at = match at { Ok(V::Func) => Ok(5), _ if none => Ok(0), _ => Err(()) };
    let call = format!("@{path}{c}");
    match s.us(6) {
        0 => (format!("@int::add(1, {call})."), at.and_then(|n| if n == 5 { Ok(V::Int(6)) } else { Err(()) })),
        1 => (format!("[*{call}]"), Err(())),
        2 => (format!("@bool::from {call}"), at.map(|n| V::Bool(n == 5))),
        3 => (format!("[True, {call}]"), at.map(|n| V::List(vec![V::Bool(true), if n == 5 { V::Int(5) } else { V::unit() }]))),
        4 => (format!("@match {call} {{$q: int -> $q, . -> none}}"), at.map(|n| if n == 5 { V::Int(5) } else { V::s("none") })),
        _ => (call, at.map(|n| if n == 5 { V::Int(5) } else { V::unit() })),
    }
}

fn fn_op(s: &mut Src, p: &mut Prog) -> (String, R) {
    let (e, n): (&str, &str) = *s.pick(&[("@fn foo $x -> $x", "foo"), ("@fn k1($_a) . -> .", "k1"), ("$list::map", "map"), ("$str::len", "len"), ("$bold", "bold"), ("$code_block", "code_block"), ("$bool::and", "and"), ("$list::slice", "slice"), ("@fn $x -> $x", "<anonymous>")]);
    let mut e = e.to_string();
    for _ in 0..s.us(4) { e = format!("@function::bind({e}{}).", if n == "slice" && s.coin() && !e.contains(", 1") { ", 1" } else { "" }); }
    if s.coin() { (format!("@function::name {e}"), Ok(V::s(n))) }
    else { let x = p.export(&e, Ok(V::Func)); (format!("@{x}::name()."), Ok(V::s(n))) }
}

fn ops(s: &mut Src) -> CaseResult {
    let mut p = Prog::default();
    let n = 1 + s.us(6);
    for _ in 0..n {
        let (e, r) = match s.weighted(&[6, 3, 2, 5, 1, 3]) { 0 => str_op(s, &mut p), 1 => num_op(s, &mut p), 2 => bool_op(s, &mut p), 3 => dict_op(s, &mut p), 4 => fn_op(s, &mut p), _ => path_op(s, &mut p) };
        p.export(&e, r);
    }
    if p.want.len() >= 3 { s.nontrivial(); }
    s.label(if p.want.iter().any(|w| w.1.is_err()) { "with an error" } else { "without errors" });
    p.check(s)
}

/// Literals, and templates with values put into them.
fn literals(s: &mut Src) -> CaseResult {
    let mut p = Prog::default();
    for _ in 0..1 + s.us(4) {
        match s.us(4) {
            0 => { let v = vals::value(s, 3); let e = vals::src(s, &v); p.export(&e, Ok(v)); },
            1 => {
                let neg = s.coin();
                let d: String = s.vec(1, 18, |s| char::from(b'0' + s.us(10) as u8)).into_iter().collect();
                let n: i64 = d.parse().unwrap();
                p.export(&format!("{}{d}", if neg { "-" } else { "" }), Ok(V::Int(if neg { -n } else { n })));
            },
            2 => {
                // every character, by an escape
                let c = loop_char(s);
                let esc = match s.us(3) { 0 if (c as u32) < 0x80 => format!("\\x{:02x}", c as u32), 1 if (c as u32) < 0x10000 => format!("\\u{:04X}", c as u32), _ => format!("\\U{:08x}", c as u32) };
                p.export(&format!("\"a{esc}1\""), Ok(V::Str(format!("a{c}1"))));
            },
            _ => {
                let mut src = String::from("\"");
                let mut want = Some(String::new());
                let mut vars = vec![];
                for _ in 0..s.us(4) + 1 {
                    match s.us(3) {
                        0 => { let w = s.pick(&["a", "b1", ".", "é", "漢", "(x)", "1"]).to_string(); src += &w; if let Some(o) = want.as_mut() { *o += &w; } },
                        1 => { if !src.ends_with([' ', '"']) { src += "  "; if let Some(o) = want.as_mut() { o.push(' '); } } },
                        _ => {
                            let v = if s.chance(1, 8) { vals::value(s, 1) } else { match vals::scalar(s) { V::Str(t) => V::Str(t), v => v } };
                            let e = vals::src(s, &v);
                            let x = p.export(&e, Ok(v.clone()));
                            vars.push(x.clone());
                            src += &format!("${x}");
                            // the name must end here
                            let sep = s.pick(&[".", "-", ")", "é"]).to_string();
                            src += &sep;
                            match as_str(&v) { _ if v == V::unit() => {}, Some(t) => if let Some(o) = want.as_mut() { *o += &t; }, None => want = None }
                            if let Some(o) = want.as_mut() { *o += &sep; }
                        },
                    }
                }
                // white space at the end is dropped
                if src.ends_with(' ') { src += "."; if let Some(o) = want.as_mut() { o.push('.'); } }
                src += "\"";
                p.export(&src, want.map(V::Str).ok_or(()));
            },
        }
    }
    if p.want.len() >= 3 { s.nontrivial(); }
    p.check(s)
}
fn loop_char(s: &mut Src) -> char {
    let n = match s.us(4) { 0 => s.us(0x80), 1 => s.us(0x800), 2 => s.us(0x10000), _ => s.us(0x110000) };
    char::from_u32(n as u32).unwrap_or('x')
}

/// Numbers which do not fit are errors.
fn big(s: &mut Src) -> CaseResult {
    let t = match s.us(4) {
        0 => s.pick(&["9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616"]).to_string(),
        1 => format!("{}{}", s.pick(&["", "-"]), 9223372036854775808u128 + s.below(1 << 40) as u128 + (neg_one() as u128)),
        _ => format!("{}1{}", s.pick(&["", "-"]), s.vec(19, 60, |s| char::from(b'0' + s.us(10) as u8)).into_iter().collect::<String>()),
    };
    let src = match s.us(4) { 0 => format!("@export(a={t})."), 1 => format!("[{t}]"), 2 => format!("<p id={t}>x</>"), _ => format!("@match 1 {{{t} -> a, _ -> b}}") };
    s.note("program", src.clone());
    s.nontrivial(); s.tick();
    let o = compile(&src)?;
    if o.errors == 0 { return Err(format!("the number {t} is accepted: {:?}", o.html)); }
    Ok(())
}
fn neg_one() -> u8 { 1 }

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        subs: vec![
            Sub {name: "operations", quick: 150_000, thorough: 4_000_000, run: ops},
            Sub {name: "literals", quick: 80_000, thorough: 2_000_000, run: literals},
            Sub {name: "large numbers", quick: 10_000, thorough: 500_000, run: big},
        ],
        fixed: vec![],
        rule: "programs with at least three exported results; results are compared with an independent model of each operation",
        assumptions: &["the length of a string is its length in bytes, as implemented"],
    }
}
