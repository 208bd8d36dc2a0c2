//! C08: pattern matching picks the first matching branch and binds exactly its parts.
use crate::engine::*;
use crate::lang::*;
use super::{c07::{self, belongs, same, type_of, M, T}, gen, vals};

#[derive(Clone, Debug)]
enum Part { Lit(Vec<char>), Ws, Var(String) }
#[derive(Clone, Debug)]
enum E { Is(M), Var(String), Fail, List(Vec<E>) }
#[derive(Clone, Debug)]
enum P {
    Ignore, Unit(bool), Var(String), Lit(M), Eq(E),
    Typed(Option<String>, String, T), TypeOf(Option<String>, String),
    List(Vec<P>, Option<(Box<P>, Vec<P>)>), Seq(Vec<P>, Option<(Box<P>, Vec<P>)>),
    Dict(Vec<(String, P)>, Option<Box<P>>), Tag(Box<P>, Vec<(String, P)>, Option<Box<P>>, Box<P>),
    Tmpl(Vec<Part>), Or(Vec<P>), And(Box<P>, Box<P>),
}

/// As it renders.
fn shown(m: &M) -> M {
    fn n(v: &[Node]) -> Vec<Node> { v.iter().map(|x| match x { Node::El(t, a, k) => Node::El(t.clone(), a.iter().map(|(k, v)| (k.replace('_', "-"), v.clone())).collect(), n(k)), x => x.clone() }).collect() }
    match m { M::Html(h) => M::Html(n(h)), M::List(v) => M::List(v.iter().map(shown).collect()), M::Dict(v) => M::Dict(v.iter().map(|(k, v)| (k.clone(), shown(v))).collect()), m => m.clone() }
}
fn unit() -> M { M::Html(vec![]) }
/// Content as a value: text by itself is a string.
fn value_of(h: &[Node]) -> M { if let [Node::Text(t)] = h { M::Str(t.clone()) } else { M::Html(h.to_vec()) } }
/// A value as content, when it can be.
fn nodes(v: &M) -> Option<Vec<Node>> { match v { M::Html(h) => Some(h.clone()), M::Str(t) if t.is_empty() => Some(vec![]), M::Str(t) => Some(vec![Node::Text(t.clone())]), _ => None } }
fn node_eq(a: &[Node], b: &[Node]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| match (a, b) {
        (Node::Text(a), Node::Text(b)) => a == b,
        (Node::El(n, x, c), Node::El(m, y, d)) => n == m && x.len() == y.len() && x.iter().all(|k| y.contains(k)) && node_eq(c, d),
        _ => false,
    })
}
fn equal(a: &M, b: &M) -> bool {
    match (a, b) {
        (M::Bool(a), M::Bool(b)) => a == b,
        (M::Int(a), M::Int(b)) => a == b,
        (M::Str(a), M::Str(b)) => a == b,
        (M::List(a), M::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| equal(a, b)),
        (M::Dict(a), M::Dict(b)) => a.len() == b.len() && a.iter().all(|(k, v)| b.iter().any(|(l, w)| k == l && equal(v, w))),
        (M::Html(a), M::Html(b)) => node_eq(a, b),
        _ => false,
    }
}

// ---- the reference matcher ----

type Env = Vec<(String, M)>;
struct Ctx { outer: Env, errors: usize }

fn names(p: &P, out: &mut Vec<String>) {
    let mut one = |n: &String| if !out.contains(n) { out.push(n.clone()) };
    match p {
        P::Var(n) => one(n),
        P::Typed(Some(n), ..) => one(n),
        P::TypeOf(n, t) => { one(t); if let Some(n) = n { one(n); } },
        P::Tmpl(v) => for x in v { if let Part::Var(n) = x { one(n); } },
        P::List(a, b) | P::Seq(a, b) => { for p in a { names(p, out); } if let Some((p, c)) = b { names(p, out); for p in c { names(p, out); } } },
        P::Dict(a, b) => { for p in a { names(&p.1, out); } if let Some(p) = b { names(p, out); } },
        P::Tag(n, a, b, c) => { names(n, out); for p in a { names(&p.1, out); } if let Some(p) = b { names(p, out); } names(c, out); },
        P::Or(v) => for p in v { names(p, out); },
        P::And(a, b) => { names(a, out); names(b, out); },
        _ => {},
    }
}

fn matches(p: &P, v: &M, env: &mut Env, cx: &mut Ctx) -> bool {
    let bind = |env: &mut Env, n: &str, v: M| env.push((n.to_string(), v));
    match p {
        P::Ignore => true,
        P::Unit(_) => matches!(v, M::Html(h) if h.is_empty()),
        P::Var(n) => { bind(env, n, v.clone()); true },
        P::Lit(l) => equal(l, v),
        P::Eq(e) => match eval_e(e, env, cx) { Some(w) => equal(v, &w), None => { cx.errors += 1; false } },
        P::Typed(n, _, t) => belongs(t, v) && { if let Some(n) = n { bind(env, n, v.clone()); } true },
        P::TypeOf(n, t) => { bind(env, t, M::Str(type_of(v).to_string())); if let Some(n) = n { bind(env, n, v.clone()); } true },
        P::List(a, s) => match v { M::List(v) => seq(a, s, v, &|x| x[0].clone(), &|x| M::List(x.to_vec()), env, cx), _ => false },
        P::Seq(a, s) => match nodes(v) { Some(h) => seq(a, s, &h, &value_of, &value_of, env, cx), None => false },
        P::Dict(a, s) => match v { M::Dict(v) => dict(a, s, v, env, cx), _ => false },
        P::Tag(n, a, s, c) => {
            let M::Html(h) = v else { return false; };
            let [Node::El(name, attrs, kids)] = &h[..] else { return false; };
            let at: Vec<(String, M)> = attrs.iter().map(|(k, v)| (k.clone(), v.clone().map_or(unit(), M::Str))).collect();
            matches(n, &M::Str(name.clone()), env, cx) && dict(a, s, &at, env, cx) && matches(c, &value_of(kids), env, cx)
        },
        P::Tmpl(parts) => {
            let M::Str(t) = v else { return false; };
            if parts.iter().all(|p| matches!(p, Part::Lit(_))) { return parts.iter().flat_map(|p| if let Part::Lit(l) = p { l.clone() } else { vec![] }).eq(t.chars()); }
            let t: Vec<char> = t.chars().collect();
            let mut caps = vec![];
            if !template(parts, &t, &mut caps) { return false; }
            for (n, x) in caps { bind(env, &n, M::Str(x)); }
            true
        },
        P::Or(alts) => {
            let k = env.len();
            for a in alts {
                if matches(a, v, env, cx) {
                    let mut ns = vec![];
                    names(p, &mut ns);
                    for n in ns { if !env[k..].iter().any(|e| e.0 == n) { bind(env, &n, unit()); } }
                    return true;
                }
                env.truncate(k);
            }
            false
        },
        P::And(a, b) => matches(a, v, env, cx) && matches(b, v, env, cx),
    }
}
fn eval_e(e: &E, env: &Env, cx: &Ctx) -> Option<M> {
    match e {
        E::Is(m) => Some(m.clone()),
        E::Var(n) => env.iter().rev().chain(cx.outer.iter()).find(|e| e.0 == *n).map(|e| e.1.clone()),
        E::Fail => None,
        E::List(v) => Some(M::List(v.iter().map(|e| eval_e(e, env, cx)).collect::<Option<_>>()?)),
    }
}
fn seq<X>(a: &[P], s: &Option<(Box<P>, Vec<P>)>, v: &[X], one: &dyn Fn(&[X]) -> M, many: &dyn Fn(&[X]) -> M, env: &mut Env, cx: &mut Ctx) -> bool {
    let after = s.as_ref().map_or(&[][..], |s| &s.1);
    if s.is_none() && v.len() != a.len() || v.len() < a.len() + after.len() { return false; }
    for (i, p) in a.iter().enumerate() { if !matches(p, &one(&v[i..i + 1]), env, cx) { return false; } }
    let Some((sp, _)) = s else { return true; };
    let j = v.len() - after.len();
    if !matches(sp, &many(&v[a.len()..j]), env, cx) { return false; }
    for (i, p) in after.iter().enumerate() { if !matches(p, &one(&v[j + i..j + i + 1]), env, cx) { return false; } }
    true
}
fn dict(a: &[(String, P)], s: &Option<Box<P>>, v: &[(String, M)], env: &mut Env, cx: &mut Ctx) -> bool {
    if s.is_none() && a.len() != v.len() { return false; }
    for (k, p) in a {
        let Some(x) = v.iter().find(|x| x.0 == *k) else { return false; };
        if !matches(p, &x.1, env, cx) { return false; }
    }
    match s { Some(p) => matches(p, &M::Dict(v.iter().filter(|x| !a.iter().any(|k| k.0 == x.0)).cloned().collect()), env, cx), None => true }
}
/// Each variable is as short as can be, and whitespace as long as can be, the leftmost first.
fn template(parts: &[Part], t: &[char], caps: &mut Vec<(String, String)>) -> bool {
    let Some((p, rest)) = parts.split_first() else { return t.is_empty(); };
    match p {
        Part::Lit(l) => t.starts_with(l) && template(rest, &t[l.len()..], caps),
        Part::Ws => { let n = t.iter().take_while(|c| c.is_whitespace()).count(); (1..=n).rev().any(|n| template(rest, &t[n..], caps)) },
        Part::Var(v) => {
            let k = caps.len();
            for n in 1..=t.len() {
                caps.push((v.clone(), t[..n].iter().collect()));
                if template(rest, &t[n..], caps) { return true; }
                caps.truncate(k);
            }
            false
        },
    }
}

// ---- values ----

fn text(s: &mut Src) -> String { s.pick(&["a", "b", "ab", "x1", "a b", "foo", "foo bar baz", "7"]).to_string() }
pub fn kids(s: &mut Src, d: u32) -> Vec<Node> {
    let mut v: Vec<Node> = vec![];
    s.vec(0, 4, |s| if d > 0 && s.chance(2, 3) || matches!(v.last(), Some(Node::Text(_))) { let e = elem(s, d.saturating_sub(1)); v.push(e); } else { let t = text(s); v.push(Node::Text(t)); });
    v
}
fn elem(s: &mut Src, d: u32) -> Node {
    let n = *s.pick(&["b", "b", "i", "foo", "br", "span"]);
    let mut at: Vec<(String, Option<String>)> = vec![];
    if s.coin() { s.vec(0, 3, |s| { let k = *s.pick(&["id", "title", "data_x", "hidden"]); let v = match s.us(4) { 0 => None, 1 => Some(String::new()), _ => Some(text(s)) }; if !at.iter().any(|a| a.0 == k) { at.push((k.into(), v)); } }); }
    Node::El(n.into(), at, if n == "br" { vec![] } else { kids(s, d) })
}
fn content(s: &mut Src) -> M {
    let h = if s.chance(1, 6) { s.vec(0, 3, |s| if s.chance(1, 3) { c07::el("hr", vec![]) } else { let t = text(s); c07::el("p", vec![Node::Text(t)]) }) } else { kids(s, 2) };
    // white space before or after, which only a list joined to it can have
    if h.len() == 1 && matches!(h[0], Node::El(..)) && s.chance(1, 12) {
        let mut h = h;
        let at = s.us(2);
        h.insert(at, Node::Text(" ".into()));
        return M::Html(h);
    }
    value_of(&h)
}
fn scalar(s: &mut Src) -> M {
    match s.weighted(&[4, 4, 1, 2, 4, 1]) {
        0 => M::Int(s.range(-2, 4)),
        1 => if s.coin() { M::Str(text(s)) } else { M::Str(vals::string(s)) },
        2 => M::Bool(s.coin()),
        3 => unit(),
        4 => content(s),
        _ => M::Func,
    }
}
pub fn value(s: &mut Src, d: u32) -> M {
    if d == 0 { return scalar(s); }
    match s.weighted(&[4, 4, 3]) {
        0 => scalar(s),
        1 => if s.chance(1, 4) { let x = scalar(s); M::List(s.vec(0, 4, |_| x.clone())) } else { M::List(s.vec(0, 4, |s| value(s, d - 1))) },
        _ => { let mut v: Vec<(String, M)> = vec![]; s.vec(0, 4, |s| { let k = s.pick(vals::KEYS).to_string(); let x = value(s, d - 1); if !v.iter().any(|e| e.0 == k) { v.push((k, x)); } }); M::Dict(v) },
    }
}
fn node_src(s: &mut Src, h: &[Node]) -> String {
    h.iter().map(|n| match n {
        Node::Text(t) => t.clone(),
        Node::El(n, a, k) => {
            let a: String = a.iter().map(|(k, v)| match v { None => format!(" {k}"), Some(v) => format!(" {k}={}", vals::str_src(s, v)) }).collect();
            if k.is_empty() { if n == "br" || n == "hr" { format!("<{n}{a}>") } else if s.coin() { format!("<{n}{a}/>") } else { format!("<{n}{a}></>") } } else { let k = node_src(s, k); format!("<{n}{a}>{k}</{}>", if s.coin() { n } else { "" }) }
        },
    }).collect()
}
pub fn src(s: &mut Src, v: &M) -> String {
    match v {
        M::List(v) => format!("[{}]", v.iter().map(|v| src(s, v)).collect::<Vec<_>>().join(", ")),
        M::Dict(v) => format!("@dict::new({}).", v.iter().map(|(k, v)| format!("{k}={}", src(s, v))).collect::<Vec<_>>().join(", ")),
        M::Html(h) if h.len() == 2 && h.iter().any(|n| matches!(n, Node::Text(t) if t == " ")) => format!("@list::join [{}]", h.iter().map(|n| match n { Node::Text(_) => "` `".to_string(), n => node_src(s, std::slice::from_ref(n)) }).collect::<Vec<_>>().join(", ")),
        M::Html(h) if !h.is_empty() => { let t = node_src(s, h); if h.len() == 1 && s.coin() { t } else { format!("{{{t}}}") } },
        M::Html(_) => s.pick(&[".", "{}", "{ }"]).to_string(),
        v => c07::src(s, v),
    }
}

// ---- patterns ----

struct Pg { free: Vec<String>, bound: Vec<String>, wrong: u64, html: bool, funcs: bool }

impl Pg {
    fn name(&mut self, s: &mut Src) -> Option<String> {
        if self.free.is_empty() { return None; }
        let i = s.us(self.free.len());
        let n = self.free.remove(i);
        self.bound.push(n.clone());
        Some(n)
    }
    fn var(&mut self, s: &mut Src) -> P { self.name(s).map_or(P::Ignore, P::Var) }
    fn e(&mut self, s: &mut Src, v: &M) -> E {
        // whether a function is equal to itself is not said
        if self.funcs { return E::Is(M::Int(99)); }
        match s.weighted(&[6, 3, 1, 1]) {
            1 if !self.bound.is_empty() => E::Var(s.pick(&self.bound).clone()),
            2 => E::Fail,
            3 => E::Var(format!("v{}", s.us(NAMES))),
            _ => match v { M::List(v) if s.coin() => E::List(v.iter().map(|x| self.e(s, x)).collect()), v => E::Is(v.clone()) },
        }
    }
    /// A pattern for the value, or nearly.
    fn pat(&mut self, s: &mut Src, v: &M, d: u32) -> P {
        if s.chance(self.wrong, 40) { let w = scalar(s); return self.pat(s, &w, d.min(1)); }
        if d > 0 && s.chance(1, 6) {
            if s.coin() { let html = self.html; let a = self.pat(s, v, d - 1); self.html = html; let b = self.pat(s, v, d - 1); self.html = html; return P::And(Box::new(a), Box::new(b)); }
            let (free, bound, html, wrong) = (self.free.clone(), self.bound.clone(), self.html, self.wrong);
            let mut left = free.clone();
            let n = 2 + s.us(2);
            let v: Vec<P> = (0..n).map(|i| {
                self.free = free.clone(); self.bound = bound.clone(); self.html = html;
                self.wrong = if i + 1 < n { (wrong * 2).clamp(8, 20) } else { wrong };
                let p = self.pat(s, v, d - 1);
                left.retain(|x| self.free.contains(x));
                p
            }).collect();
            self.free = left; self.bound = bound; self.wrong = wrong; self.html = html;
            let mut flat = vec![];
            for p in v { flat.push(p); }
            return P::Or(flat);
        }
        match s.weighted(&[1, 3, 2, 1, 8, 2]) {
            0 => P::Ignore,
            1 => self.var(s),
            2 => {
                let (ts, t) = if s.chance(2, 3) { let t = type_of(v); (t.to_string(), t) } else { c07::type_(s) };
                let n = if s.coin() { self.name(s) } else { None };
                P::Typed(n, ts, t)
            },
            3 => { let n = if s.coin() { self.name(s) } else { None }; match self.name(s) { Some(t) => P::TypeOf(n, t), None => n.map_or(P::Ignore, P::Var) } },
            5 => P::Eq(self.e(s, v)),
            _ => match v {
                M::Html(h) if h.is_empty() => P::Unit(s.coin()),
                M::Bool(_) | M::Int(_) if !self.html => P::Lit(v.clone()),
                M::Str(t) if s.chance(1, 3) && !t.is_empty() && !t.contains(&['\r', '`'][..]) => P::Lit(v.clone()),
                M::Str(t) if s.chance(2, 3) => P::Tmpl(self.parts(s, t)),
                M::List(v) if !self.html => { let (a, b) = self.seq(s, v, d, &|x| x[0].clone(), &|x| M::List(x.to_vec())); P::List(a, b) },
                M::Dict(v) if !self.html => { let (a, b) = self.dict(s, v, d); P::Dict(a, b) },
                M::Html(h) if h.len() == 1 && !s.chance(1, 6) => self.tag(s, &h[0], d),
                // of a part, which the whole is not
                M::Html(h) if h.len() > 1 && s.chance(1, 6) && h.iter().any(|n| matches!(n, Node::El(..))) => { let n = h.iter().find(|n| matches!(n, Node::El(..))).unwrap(); self.tag(s, n, d) },
                _ => match nodes(v) {
                    Some(h) if !h.is_empty() => { let html = std::mem::replace(&mut self.html, true); let (a, b) = self.seq(s, &h, d, &value_of, &value_of); self.html = html; if a.is_empty() && b.is_none() { P::Unit(true) } else { P::Seq(a, b) } },
                    _ => P::Eq(self.e(s, v)),
                },
            },
        }
    }
    fn seq<X>(&mut self, s: &mut Src, v: &[X], d: u32, one: &dyn Fn(&[X]) -> M, many: &dyn Fn(&[X]) -> M) -> (Vec<P>, Option<(Box<P>, Vec<P>)>) {
        let d = d.saturating_sub(1);
        let extra = |s: &mut Src, a: &mut Vec<P>| if s.chance(1, 25) { if s.coin() { a.pop(); } else { a.push(P::Ignore); } };
        if s.chance(3, 5) {
            let mut a: Vec<P> = (0..v.len()).map(|i| self.pat(s, &one(&v[i..i + 1]), d)).collect();
            extra(s, &mut a);
            return (a, None);
        }
        let i = s.us(v.len() + 1);
        let j = i + s.us(v.len() - i + 1);
        let mut a: Vec<P> = (0..i).map(|i| self.pat(s, &one(&v[i..i + 1]), d)).collect();
        let m = if s.chance(1, 3) { P::Ignore } else if s.coin() { self.var(s) } else { self.pat(s, &many(&v[i..j]), d) };
        let b = (j..v.len()).map(|i| self.pat(s, &one(&v[i..i + 1]), d)).collect();
        extra(s, &mut a);
        (a, Some((Box::new(m), b)))
    }
    fn dict(&mut self, s: &mut Src, v: &[(String, M)], d: u32) -> (Vec<(String, P)>, Option<Box<P>>) {
        let d = d.saturating_sub(1);
        let mut ks: Vec<usize> = (0..v.len()).collect();
        for i in (1..ks.len()).rev() { let j = s.us(i + 1); ks.swap(i, j); }
        let spread = s.coin();
        if spread { let n = s.us(ks.len() + 1); ks.truncate(n); }
        let mut a: Vec<(String, P)> = ks.iter().map(|&i| (v[i].0.clone(), self.pat(s, &v[i].1, d))).collect();
        if s.chance(1, 25) { if s.coin() { a.pop(); } else if !a.iter().any(|x| x.0 == "zz") { a.push(("zz".into(), P::Ignore)); } }
        let rest = M::Dict(v.iter().enumerate().filter(|x| !ks.contains(&x.0)).map(|x| x.1.clone()).collect());
        let b = if spread { Some(Box::new(if s.chance(1, 3) { P::Ignore } else if s.coin() { self.var(s) } else { self.pat(s, &rest, d) })) } else { None };
        (a, b)
    }
    fn tag(&mut self, s: &mut Src, n: &Node, d: u32) -> P {
        let Node::El(name, attrs, k) = n else { return P::Ignore; };
        let html = std::mem::replace(&mut self.html, false);
        let np = match s.weighted(&[5, 1, 2]) { 0 => P::Lit(M::Str(if s.chance(1, 10) { "i".into() } else { name.clone() })), 1 => P::Ignore, _ => self.var(s) };
        let at: Vec<(String, M)> = attrs.iter().map(|(k, v)| (k.clone(), v.clone().map_or(unit(), M::Str))).collect();
        let (a, b) = self.dict(s, &at, d);
        // a name after a type would be part of the type
        let mut a = a;
        if let Some(i) = a.iter().position(|p| ends_typed(&p.1)) { let p = a.remove(i); a.push(p); }
        let c = if k.is_empty() && s.coin() || matches!(&np, P::Lit(M::Str(n)) if n == "br" || n == "hr") { P::Unit(false) } else { self.pat(s, &value_of(k), d.saturating_sub(1)) };
        self.html = html;
        P::Tag(Box::new(np), a, b, Box::new(c))
    }
    fn parts(&mut self, s: &mut Src, t: &str) -> Vec<Part> {
        let mut out: Vec<Part> = vec![];
        let c: Vec<char> = t.chars().collect();
        let mut i = 0;
        while i < c.len() {
            let ws = c[i..].iter().take_while(|c| c.is_whitespace()).count();
            if ws > 0 && s.chance(3, 4) && !matches!(out.last(), Some(Part::Ws)) { out.push(Part::Ws); i += if s.chance(1, 6) { 1 } else { ws }; continue; }
            let n = 1 + s.us((c.len() - i).min(5));
            match if s.chance(2, 5) { self.name(s) } else { None } {
                Some(v) => out.push(Part::Var(v)),
                None => out.push(Part::Lit(c[i..i + n].to_vec())),
            }
            i += n;
        }
        if s.chance(1, 12) { match s.us(3) { 0 => { out.pop(); }, 1 => out.push(Part::Lit(vec!['a'])), _ => if let Some(v) = self.name(s) { out.push(Part::Var(v)) } } }
        if out.len() > 1 && s.chance(1, 20) { let i = s.us(out.len() - 1); out.swap(i, i + 1); }
        // whitespace is one token
        out.dedup_by(|a, b| matches!((a, b), (Part::Ws, Part::Ws)));
        out
    }
}

// ---- writing patterns ----

fn sp(s: &mut Src) -> &'static str { *s.pick(&["", "", "", " ", " ", "\n", " # c\n"]) }
fn gap(s: &mut Src) -> &'static str { *s.pick(&[" ", " ", " ", "  ", "\n", " # c\n"]) }

fn lit_char(s: &mut Src, c: char, o: &mut String, prev_var: bool) {
    let raw = c.is_ascii_alphanumeric() && !prev_var || !prev_var && matches!(c, 'é' | 'ß' | '漢' | ',' | '=' | '.' | '*' | '+' | '(' | ')' | '[' | ']' | '|' | '^');
    // a dot after a dot, and the like, may be a token of its own, which is the same text
    if raw && !s.chance(1, 10) { o.push(c); }
    else if c.is_ascii_punctuation() && c != '\'' && c != '"' && s.coin() { o.push('\\'); o.push(c); }
    else if c as u32 <= 0x7f && s.coin() { *o += &format!("\\x{:02x}", c as u32); }
    else if (c as u32) <= 0xffff { *o += &format!("\\u{:04x}", c as u32); }
    else { *o += &format!("\\U{:08x}", c as u32); }
}
fn tmpl_src(s: &mut Src, parts: &[Part]) -> String {
    let q = if s.coin() { '"' } else { '\'' };
    let mut o = String::from(q);
    let mut var = false;
    for p in parts {
        match p {
            Part::Lit(l) => for &c in l { lit_char(s, c, &mut o, var); var = false; },
            Part::Ws => { o += *s.pick(&[" ", " ", "  ", "\n", "\t"]); var = false; },
            Part::Var(v) => if s.chance(1, 5) { o += &format!("{{${v}}}"); var = false; } else { o += &format!("${v}"); var = true; },
        }
    }
    o.push(q);
    o
}
fn e_src(s: &mut Src, e: &E) -> String {
    match e { E::Is(m) => src(s, m), E::Var(n) => format!("${n}"), E::Fail => s.pick(&["$undefined_", "@int::add(1, x).", "@list::len 5", "$v0::nope"]).to_string(), E::List(v) => format!("[{}]", v.iter().map(|e| e_src(s, e)).collect::<Vec<_>>().join(", ")) }
}
fn pat_src(s: &mut Src, p: &P) -> String {
    match p {
        P::Ignore => "_".into(),
        P::Unit(dot) => if *dot { ".".into() } else { "{}".into() },
        P::Var(n) => format!("${n}"),
        P::Lit(m) => match m { M::Str(t) => str_lit(t), m => c07::src(s, m) },
        P::Eq(e) => format!("={}{}", if s.chance(1, 6) { " " } else { "" }, e_src(s, e)),
        P::Typed(n, ts, _) => format!("{}{}:{}{ts}", n.as_ref().map_or("_".into(), |n| format!("${n}")), if s.chance(1, 8) { " " } else { "" }, if s.chance(1, 4) { "" } else { " " }),
        P::TypeOf(n, t) => format!("{}: ${t}", n.as_ref().map_or("_".into(), |n| format!("${n}"))),
        P::List(a, b) => { let v = items(s, a, b, '['); let c = sp(s); let tail = if !v.is_empty() && s.chance(1, 8) { "," } else { "" }; format!("[{c}{}{tail}]", join(s, &v, ",")) },
        P::Seq(a, b) => { let v = items(s, a, b, '{'); format!("{{{}}}", join(s, &v, "")) },
        P::Dict(a, b) => { let mut v: Vec<String> = a.iter().map(|(k, p)| format!("{k}={}", pat_src(s, p))).collect(); if let Some(b) = b { v.push(rest(s, b)); } let tail = if !v.is_empty() && s.chance(1, 8) { "," } else { "" }; format!("({}{tail})", join(s, &v, ",")) },
        P::Tag(n, a, b, c) => {
            let mut v: Vec<String> = a.iter().map(|(k, p)| if matches!(p, P::Unit(_)) && s.coin() { k.clone() } else { format!("{k}={}", pat_src(s, p)) }).collect();
            if let Some(b) = b { v.push(rest(s, b)); }
            let (name, close) = match &**n { P::Lit(M::Str(n)) => { let up = |s: &mut Src| match s.us(12) { 0 => n.to_uppercase(), 1 => n.char_indices().map(|(i, c)| if i % 2 == 1 { c.to_ascii_uppercase() } else { c }).collect(), _ => n.clone() }; (up(s), if s.coin() { up(s) } else { String::new() }) }, n => (pat_src(s, n), String::new()) };
            let at: String = v.iter().map(|x| format!("{}{x}", gap(s))).collect();
            if ["br", "hr"].iter().any(|v| name.eq_ignore_ascii_case(v)) { return format!("<{name}{at}>"); }
            match &**c {
                P::Unit(false) => if s.coin() { format!("<{name}{at}{}/>", if at.is_empty() && !name.starts_with('$') { "" } else { " " }) } else { format!("<{name}{at}></{close}>") },
                c => format!("<{name}{at}>{}{}{}</{close}>", sp(s), pat_src(s, c), gap(s)),
            }
        },
        P::Tmpl(v) => tmpl_src(s, v),
        P::Or(v) => { let v: Vec<String> = v.iter().map(|p| pat_src(s, p)).collect(); v.join(*s.pick(&[" | ", " |", "\n| ", " # a | b\n | "])) },
        P::And(a, b) => format!("{} &{}{}", pat_src(s, a), gap(s), pat_src(s, b)),
    }
}
fn rest(s: &mut Src, p: &P) -> String { if matches!(p, P::Ignore) && s.coin() { "...".into() } else { format!("**{}", pat_src(s, p)) } }
fn items(s: &mut Src, a: &[P], b: &Option<(Box<P>, Vec<P>)>, _open: char) -> Vec<String> {
    let mut v: Vec<String> = a.iter().map(|p| pat_src(s, p)).collect();
    if let Some((m, c)) = b {
        v.push(if matches!(**m, P::Ignore) && s.coin() { "...".into() } else { format!("*{}", pat_src(s, m)) });
        for p in c { v.push(pat_src(s, p)); }
    }
    v
}
fn join(s: &mut Src, v: &[String], sep: &str) -> String {
    let mut o = String::new();
    for (i, x) in v.iter().enumerate() { if i > 0 { o += sep; o += gap(s); } o += x; }
    o
}
/// Alternatives are not operands of `&`, and functions have no pattern.
fn writable(p: &P) -> bool {
    let all = |a: &[P], b: &Option<(Box<P>, Vec<P>)>| a.iter().all(writable) && b.as_ref().is_none_or(|b| writable(&b.0) && b.1.iter().all(writable));
    match p {
        P::And(a, b) => !matches!(**a, P::Or(_)) && !matches!(**b, P::Or(_) | P::And(..)) && writable(a) && writable(b),
        P::Or(v) => v.iter().all(|p| !matches!(p, P::Or(_)) && writable(p)),
        P::List(a, b) | P::Seq(a, b) => all(a, b),
        P::Dict(a, b) => a.iter().all(|p| writable(&p.1)) && b.as_ref().is_none_or(|b| writable(b)),
        P::Tag(n, a, b, c) => a.iter().rev().skip(1).all(|p| !ends_typed(&p.1)) && writable(n) && a.iter().all(|p| writable(&p.1)) && b.as_ref().is_none_or(|b| writable(b)) && writable(c),
        _ => true,
    }
}
fn ends_typed(p: &P) -> bool { match p { P::Typed(..) => true, P::Or(v) => ends_typed(&v[v.len() - 1]), P::And(_, b) => ends_typed(b), _ => false } }
fn html_ok(p: &P) -> bool { match p { P::And(a, b) => html_ok(a) && html_ok(b), P::Or(v) => v.iter().all(html_ok), P::Lit(M::Bool(_) | M::Int(_)) | P::Eq(E::Is(M::Bool(_) | M::Int(_) | M::List(_)) | E::List(_)) | P::List(..) | P::Dict(..) => false, _ => true } }
fn seqs_ok(p: &P) -> bool {
    match p {
        P::Seq(a, b) => a.iter().all(|p| html_ok(p) && seqs_ok(p)) && b.as_ref().is_none_or(|b| html_ok(&b.0) && seqs_ok(&b.0) && b.1.iter().all(|p| html_ok(p) && seqs_ok(p))),
        P::List(a, b) => a.iter().all(seqs_ok) && b.as_ref().is_none_or(|b| seqs_ok(&b.0) && b.1.iter().all(seqs_ok)),
        P::Dict(a, b) => a.iter().all(|p| seqs_ok(&p.1)) && b.as_ref().is_none_or(|b| seqs_ok(b)),
        P::Tag(n, a, b, c) => seqs_ok(n) && a.iter().all(|p| seqs_ok(&p.1)) && b.as_ref().is_none_or(|b| seqs_ok(b)) && seqs_ok(c),
        P::And(a, b) => seqs_ok(a) && seqs_ok(b),
        P::Or(v) => v.iter().all(seqs_ok),
        _ => true,
    }
}
fn size(p: &P) -> usize {
    let all = |a: &[P], b: &Option<(Box<P>, Vec<P>)>| a.iter().map(size).sum::<usize>() + b.as_ref().map_or(0, |b| size(&b.0) + b.1.iter().map(size).sum::<usize>());
    1 + match p {
        P::And(a, b) => size(a) + size(b), P::Or(v) => v.iter().map(size).sum(), P::List(a, b) | P::Seq(a, b) => all(a, b),
        P::Dict(a, b) => a.iter().map(|p| size(&p.1)).sum::<usize>() + b.as_ref().map_or(0, |b| size(b)),
        P::Tag(_, a, b, c) => 1 + a.iter().map(|p| size(&p.1)).sum::<usize>() + b.as_ref().map_or(0, |b| size(b)) + size(c),
        P::Tmpl(v) => v.len(), _ => 0,
    }
}

fn has_func(v: &M) -> bool { match v { M::Func => true, M::List(v) => v.iter().any(has_func), M::Dict(v) => v.iter().any(|x| has_func(&x.1)), _ => false } }

const NAMES: usize = 6;

fn run(s: &mut Src, v: M, d: u32) -> CaseResult {
    let pool: Vec<String> = (0..NAMES).map(|i| format!("v{i}")).collect();
    let outer: Env = pool.iter().enumerate().map(|(i, n)| (n.clone(), M::Str(format!("outer{i}")))).collect();
    let mut cx = Ctx {outer: outer.clone(), errors: 0};
    let n = 1 + s.us(4);
    let mut won: Option<(usize, Env)> = None;
    let mut branches = vec![];
    let mut tot = 0;
    for i in 0..n {
        let mut g = Pg {free: pool.clone(), bound: vec![], wrong: *s.pick(&[0, 2, 6, 12]), html: false, funcs: has_func(&v)};
        let mut p = g.pat(s, &v, d);
        if !writable(&p) || !seqs_ok(&p) { p = P::Ignore; if i + 1 < n { p = P::Lit(M::Int(77)); } }
        tot = tot.max(size(&p));
        if won.is_none() {
            let mut env = vec![];
            if matches(&p, &v, &mut env, &mut cx) { won = Some((i, env)); }
        }
        let p = pat_src(s, &p);
        branches.push(format!("{p} -> [{i}, {}]", pool.iter().map(|n| format!("${n}")).collect::<Vec<_>>().join(", ")));
    }
    let lit = src(s, &v);
    let e = match s.us(5) { 0 => format!("@let(q={lit}) $q"), 1 => format!("@id_ {lit}"), _ => lit };
    let tail = if s.chance(1, 5) { "," } else { "" };
    let m = format!("@match {e} {{\n    {}{tail}\n}}", branches.join(",\n    "));
    let lets = outer.iter().map(|(n, v)| format!("{n}={}", if let M::Str(v) = v { v } else { "" })).collect::<Vec<_>>().join(", ");
    let prog = format!("@fn id_ $x: any -> $x\n@let({lets}) {{\n@export(r={m}).\n@export(after=[{}]).\n}}", pool.iter().map(|n| format!("${n}")).collect::<Vec<_>>().join(", "));
    s.note("program", prog.clone());
    if tot >= 4 && won.as_ref().is_some_and(|w| !w.1.is_empty()) { s.nontrivial(); }
    s.label(match &won { None => "none matches", Some((0, _)) => "the first matches", Some(_) => "a later one matches" });
    s.tick();
    let mut ns: Vec<String> = vals::keys();
    ns.extend(["r", "after", "id", "title", "data_x", "hidden"].map(String::from));
    let o = eval(&prog, &ns)?;
    let look = |env: &Env, n: &String| env.iter().rev().chain(outer.iter()).find(|e| e.0 == *n).unwrap().1.clone();
    match (&won, o.get("r")) {
        (None, None) => {},
        (None, Some(r)) => return Err(format!("no branch matches, but the result is {r:?}")),
        (Some((i, env)), r) => {
            let mut w = vec![M::Int(*i as i64)];
            w.extend(pool.iter().map(|n| look(env, n)));
            let w = shown(&M::List(w));
            match r { Some(r) if same(&w, r)? => {}, _ => return Err(format!("the result is {r:?}, expected {w:?}\n{}", o.out.printed)) }
        },
    }
    let w = M::List(pool.iter().map(|n| look(&vec![], n)).collect());
    match o.get("after") { Some(r) if same(&w, r)? => {}, r => return Err(format!("after the match, the variables are {r:?}\n{}", o.out.printed)) }
    let errs = cx.errors + won.is_none() as usize;
    if o.out.errors as usize != errs { return Err(format!("{} errors are reported, expected {errs}: {}", o.out.errors, o.out.printed)); }
    if o.out.warnings != 0 { return Err(format!("unexpected warnings: {}", o.out.printed)); }
    if won.is_none() && !o.out.msgs().iter().any(|m| m.contains("branch")) { return Err(format!("no error says that no branch matches: {}", o.out.printed)); }
    Ok(())
}
fn any(s: &mut Src) -> CaseResult { let v = value(s, 2); run(s, v, 4) }
fn html(s: &mut Src) -> CaseResult { let v = content(s); run(s, v, 5) }
fn deep(s: &mut Src) -> CaseResult { let v = value(s, 4); run(s, v, 7) }

/// Templates, on texts where they may match in many ways.
fn templates(s: &mut Src) -> CaseResult {
    let t = match s.us(3) {
        0 => s.vec(0, 10, |s| *s.pick(&['a', 'b', 'a', ' ', ','])).into_iter().collect(),
        1 => s.vec(0, 9, |s| *s.pick(&['a', '.', '*', '(', '\\', '$', '^', ' ', '\n', '"', '\'', '{', '\u{2003}', 'é', '😀', '#', '@', '<', '&', '-'])).into_iter().collect(),
        _ => gen::any_string(s, 8),
    };
    run_tmpl(s, t)
}
fn run_tmpl(s: &mut Src, t: String) -> CaseResult {
    let mut g = Pg {free: (0..NAMES).map(|i| format!("v{i}")).collect(), bound: vec![], wrong: 0, html: false, funcs: false};
    let parts = g.parts(s, &t);
    let mut caps = vec![];
    let c: Vec<char> = t.chars().collect();
    let yes = template(&parts, &c, &mut caps);
    let p = tmpl_src(s, &parts);
    let vars: Vec<String> = parts.iter().filter_map(|p| if let Part::Var(v) = p { Some(format!("${v}")) } else { None }).collect();
    let prog = format!("@export(r=@match {} {{{p} -> [{}], _ -> `no`}}).", str_lit(&t), vars.join(", "));
    s.note("program", prog.clone());
    if vars.len() >= 2 { s.nontrivial(); }
    s.label(if yes { "matches" } else { "does not" });
    s.tick();
    let o = eval(&prog, &["r".to_string()])?;
    let w = if yes { V::List(caps.into_iter().map(|c| V::Str(c.1)).collect()) } else { V::Str("no".into()) };
    if o.get("r") != Some(&w) { return Err(format!("the result is {:?}, expected {w:?}\n{}", o.get("r"), o.out.printed)); }
    if !o.out.ok() { return Err(format!("diagnostics: {}", o.out.printed)); }
    Ok(())
}

/// Regular expressions are equal when they are written alike.
fn regexes(s: &mut Src) -> CaseResult {
    const R: &[&str] = &["a", "b", "a+", "(a)", "(?P<x>a)", "a|b", "[ab]", "", "(?i)a", "A", "a "];
    fn of(s: &mut Src, d: u32) -> (String, Vec<usize>, Vec<usize>) {
        // the source, the shape, and the expressions in it
        if d > 0 && s.coin() {
            let v: Vec<_> = (0..1 + s.us(3)).map(|_| of(s, d - 1)).collect();
            let dict = s.chance(1, 3);
            let items: Vec<String> = v.iter().enumerate().map(|(i, x)| if dict { format!("{}={}", vals::KEYS[i], x.0) } else { x.0.clone() }).collect();
            let src = if dict { format!("@dict::new({}).", items.join(", ")) } else { format!("[{}]", items.join(", ")) };
            let mut shape = vec![if dict { 2 } else { 1 }, v.len()];
            let mut leaves = vec![];
            for x in v { shape.extend(x.1); leaves.extend(x.2); }
            return (src, shape, leaves);
        }
        let i = s.us(R.len());
        (format!("@regex::compile {}", str_lit(R[i])), vec![0], vec![i])
    }
    let a = of(s, 2);
    let mut b = if s.chance(1, 6) { of(s, 2) } else { a.clone() };
    if s.coin() {
        // another at one place
        let k = s.us(b.2.len());
        let j = s.us(R.len());
        let (from, to) = (format!("@regex::compile {}", str_lit(R[b.2[k]])), format!("@regex::compile {}", str_lit(R[j])));
        let mut at = 0;
        for i in &b.2[..k] { let f = format!("@regex::compile {}", str_lit(R[*i])); at += b.0[at..].find(&f).unwrap() + f.len(); }
        at += b.0[at..].find(&from).unwrap();
        b.0.replace_range(at..at + from.len(), &to);
        b.2[k] = j;
    }
    let yes = a.1 == b.1 && a.2 == b.2;
    let prog = format!("@let(x={}, y={}).. @export(r=@match $x {{=$y -> `yes`, _ -> `no`}}, q=@match [$x] {{[=$y] -> `yes`, _ -> `no`}}).", a.0, b.0).replace(".. ", "... ");
    s.note("program", prog.clone());
    s.label(if yes { "equal" } else { "different" });
    if a.2.len() > 1 { s.nontrivial(); }
    s.tick();
    let o = eval(&prog, &["r".to_string(), "q".to_string()])?;
    let w = V::Str(if yes { "yes" } else { "no" }.into());
    for n in ["r", "q"] { if o.get(n) != Some(&w) { return Err(format!("{n} is {:?}, expected {w:?}\n{}", o.get(n), o.out.printed)); } }
    if !o.out.ok() { return Err(format!("diagnostics: {}", o.out.printed)); }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        subs: vec![
            Sub {name: "any value", quick: 80_000, thorough: 3_000_000, run: any},
            Sub {name: "content", quick: 70_000, thorough: 2_000_000, run: html},
            Sub {name: "deep", quick: 30_000, thorough: 1_000_000, run: deep},
            Sub {name: "templates", quick: 50_000, thorough: 1_500_000, run: templates},
            Sub {name: "regular expressions", quick: 4_000, thorough: 200_000, run: regexes},
        ],
        fixed: vec![],
        rule: "a pattern of at least four parts, in a match of which a branch which binds a variable is chosen; templates: at least two variables; regular expressions: at least two",
        assumptions: &["a variable of a template is the shortest text, and whitespace the longest, with which the template matches, the leftmost first; whitespace in a template with variables or whitespace is any run of whitespace", "a pattern `=expression` whose evaluation fails reports the error and does not match", "a name which only another alternative binds is the unit value"],
    }
}
