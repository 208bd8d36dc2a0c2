//! C09: calls bind every argument exactly once to the right parameter, or fail.
use crate::engine::*;
use crate::lang::*;
use super::{c07::{self, coerce, same, M, T}, vals};

#[derive(Clone, Debug)]
struct Par { name: String, ts: String, t: T, default: Option<M>, implicit: bool }
#[derive(Clone, Debug, Default)]
struct Sig { pos: Vec<Par>, spread: Option<Par>, named: Vec<Par>, kw: Option<Par>, content: Option<Par> }
#[derive(Clone, Debug)]
enum A { Pos(M), Spread(Vec<M>), Named(String, M), Kw(Vec<(String, M)>) }

fn unit() -> M { M::Html(vec![]) }
fn is_unit(m: &M) -> bool { matches!(m, M::Html(h) if h.is_empty()) }

// ---- the reference binder ----

#[derive(Clone, Default)]
struct Bound { count: usize, spread: Vec<M>, kw: Vec<(String, M)>, map: Vec<(String, M)> }
type R<X = ()> = Result<X, String>;
fn component(t: &T) -> T { match t { T::List(t) | T::Dict(t) => (**t).clone(), T::Opt(t) => component(t), T::Block | T::Html => T::Html, _ => T::Any } }
fn put(t: &T, v: &M) -> R<M> { coerce(t, v).map_err(|e| { let _ = e; "Type error: expected ".to_string() }) }

impl Bound {
    fn has(&self, n: &str) -> bool { self.map.iter().any(|x| x.0 == n) }
    fn pos(&mut self, g: &Sig, v: &M) -> R {
        if let Some(p) = g.pos.get(self.count) { let v = put(&p.t, v)?; self.map.push((p.name.clone(), v)); }
        else if let Some(p) = &g.spread { self.spread.push(put(&component(&p.t), v)?); }
        self.count += 1;
        Ok(())
    }
    fn named(&mut self, g: &Sig, n: &str, v: &M) -> R {
        let dup = || Err(format!("Runtime error: received multiple named arguments for parameter '{n}'"));
        if let Some(p) = g.named.iter().find(|p| p.name == n) { let v = put(&p.t, v)?; if self.has(n) { return dup(); } self.map.push((n.into(), v)); }
        else if let Some(p) = &g.kw { let v = put(&component(&p.t), v)?; if self.kw.iter().any(|x| x.0 == n) { return dup(); } self.kw.push((n.into(), v)); }
        else { return Err(format!("Name error: no such parameter '{n}'")); }
        Ok(())
    }
    fn arg(&mut self, g: &Sig, a: &A) -> R {
        match a {
            A::Pos(v) => self.pos(g, v), A::Named(n, v) => self.named(g, n, v),
            A::Spread(v) => v.iter().try_for_each(|v| self.pos(g, v)), A::Kw(v) => v.iter().try_for_each(|(k, v)| self.named(g, k, v)),
        }
    }
    fn content(&mut self, g: &Sig, v: &M) -> R {
        let (n, t) = g.content.as_ref().map_or(("", &T::None), |p| (&p.name[..], &p.t));
        if self.has(n) { if !is_unit(v) { return Err("Type error: this function's contents have already been bound".into()); } return Ok(()); }
        let v = put(t, v)?;
        if g.content.is_some() { self.map.push((n.into(), v)); }
        Ok(())
    }
    fn check(&self, g: &Sig) -> R { if g.spread.is_none() && self.count > g.pos.len() { Err(format!("Type error: too many positional arguments (expected {}, was {})", g.pos.len(), self.count)) } else { Ok(()) } }
    fn implicits(&mut self, g: &Sig, scope: &[(bool, String, M)]) -> R {
        for p in g.named.iter().filter(|p| p.implicit) {
            if self.has(&p.name) { continue; }
            let v = match scope.iter().rev().find(|x| x.0 && x.1 == p.name) {
                Some(x) => x.2.clone(),
                None => match &p.default {
                    Some(v) => v.clone(),
                    None if scope.iter().any(|x| x.1 == p.name) => return Err(format!("Runtime error: required implicit parameter '{}'; this name exists", p.name)),
                    None => return Err(format!("Runtime error: missing required implicit parameter '{}'", p.name)),
                },
            };
            let v = put(&p.t, &v)?;
            self.map.push((p.name.clone(), v));
        }
        Ok(())
    }
    /// Every parameter's value, in the order of the signature.
    fn finish(mut self, g: &Sig) -> R<M> {
        self.check(g)?;
        if let Some(p) = &g.spread { let v = put(&p.t, &M::List(self.spread.clone()))?; self.map.push((p.name.clone(), v)); }
        if let Some(p) = &g.kw { let v = put(&p.t, &M::Dict(self.kw.clone()))?; self.map.push((p.name.clone(), v)); }
        let req = g.pos.iter().filter(|p| p.default.is_none()).count();
        for p in g.pos.iter().skip(self.count) {
            let Some(v) = &p.default else { return Err(format!("Type error: not enough positional arguments (expected {req}, was {})", self.count)); };
            let v = put(&p.t, v)?; self.map.push((p.name.clone(), v));
        }
        for p in &g.named {
            if self.has(&p.name) { continue; }
            let Some(v) = &p.default else { return Err(format!("Runtime error: missing required parameter '{}'", p.name)); };
            let v = put(&p.t, v)?; self.map.push((p.name.clone(), v));
        }
        let mut out = vec![];
        for p in g.all() {
            let v: Vec<&M> = self.map.iter().filter(|x| x.0 == p.name).map(|x| &x.1).collect();
            assert!(v.len() == 1, "{} is bound {} times by the model", p.name, v.len());
            out.push(v[0].clone());
        }
        Ok(M::List(out))
    }
}
impl Sig {
    fn all(&self) -> Vec<&Par> { self.pos.iter().chain(&self.spread).chain(&self.named).chain(&self.kw).chain(&self.content).collect() }
}

// ---- generators ----

fn plain(v: &M) -> bool { match v { M::Func | M::Regex => false, M::List(v) => v.iter().all(plain), M::Dict(v) => v.iter().all(|x| plain(&x.1)), _ => true } }
fn val(s: &mut Src, t: &T) -> M {
    for _ in 0..4 {
        let v = match s.weighted(&[3, 3, 1, 1]) { 0 => M::Int(s.range(0, 99)), 1 => M::Str(s.pick(&["a", "b", "foo", "x y", "7"]).to_string()), 2 => c07::value(s, 1), _ => unit() };
        if plain(&v) && (coerce(t, &v).is_ok() || s.chance(1, 25)) { return v; }
    }
    match coerce_from(t) { Some(v) => v, None => unit() }
}
fn coerce_from(t: &T) -> Option<M> {
    [unit(), M::Int(3), M::Bool(true), M::Str("s".into()), M::List(vec![]), M::Dict(vec![])].into_iter().find(|v| coerce(t, v).is_ok())
}
fn typ(s: &mut Src) -> (String, T) {
    loop {
        let (ts, t) = match s.weighted(&[5, 2, 2, 1, 2]) { 0 => (String::new(), T::Any), 1 => ("int".into(), T::Int), 2 => ("str".into(), T::Str), 3 => ("any".into(), T::Any), _ => c07::type_(s) };
        if coerce_from(&t).is_some() { return (ts, t); }
    }
}
fn par(s: &mut Src, name: &str, default: bool) -> Par {
    let (ts, t) = typ(s);
    let mut p = Par {name: name.into(), ts, t, default: None, implicit: false};
    if default {
        if s.chance(1, 3) { p.ts = format!("? {}", p.ts); p.t = p.t.opt(); p.default = Some(unit()); }
        if p.default.is_none() || s.chance(1, 3) {
            for _ in 0..5 { let v = val(s, &p.t); if coerce(&p.t, &v).is_ok() { p.default = Some(v); break; } }
            if p.default.is_none() { p.default = coerce_from(&p.t); }
        }
    }
    p
}
fn list_of(mut p: Par, list: bool) -> Par {
    let w = if list { "list" } else { "dict" };
    p.ts = if p.ts.is_empty() { String::new() } else { format!("{} {w}", p.ts) };
    p.t = if list { T::List(Box::new(p.t)) } else { T::Dict(Box::new(p.t)) };
    if p.ts.is_empty() { p.t = T::Any; }
    p
}
pub const IMPL: &[&str] = &["im", "lang"];
fn sig(s: &mut Src) -> Sig {
    let mut g = Sig::default();
    let n = s.us(4);
    let d = s.us(n + 1);
    for i in 0..n { g.pos.push(par(s, ["_a", "_b", "_c"][i], i >= d)); }
    if s.chance(1, 3) { g.spread = Some(list_of(par(s, "_rest", false), true)); }
    let n = s.us(4);
    let d = s.us(n + 1);
    for i in 0..n { g.named.push(par(s, ["x", "y", "z"][i], i >= d)); }
    // optional ones come last
    if s.chance(1, 3) {
        let n = *s.pick(IMPL);
        let mut p = par(s, n, false);
        p.implicit = true;
        // the keyword is followed by a type
        if p.ts.is_empty() { p.ts = "any".into(); }
        if s.chance(1, 3) { p.default = Some(unit()); p.t = p.t.clone().opt(); p.ts = format!("? {}", p.ts); g.named.push(p); } else { g.named.insert(0, p); }
    }
    if s.chance(1, 3) { g.kw = Some(list_of(par(s, "kw", false), false)); }
    if s.chance(2, 3) { g.content = Some(if s.chance(1, 5) { par(s, "body", false).opt() } else { par(s, "body", false) }); }
    g
}
impl Par { fn opt(mut self) -> Par { self.ts = format!("? {}", self.ts); self.t = self.t.opt(); self } }

fn par_src(s: &mut Src, p: &Par, stars: &str) -> String {
    let (q, ts) = match p.ts.strip_prefix("? ") { Some(t) => ("?", t), None => ("", &p.ts[..]) };
    let mut o = format!("{stars}${}{q}", p.name);
    if p.implicit { o += &format!(": @implicit {ts}"); } else if !ts.is_empty() { o += &format!(":{}{ts}", if s.chance(1, 5) { "" } else { " " }); }
    if let Some(d) = &p.default { if !p.implicit && (q.is_empty() || !is_unit(d)) { o += "="; o += &c07::src(s, d); } }
    o
}
fn sig_src(s: &mut Src, g: &Sig) -> String {
    let mut v: Vec<String> = g.pos.iter().map(|p| par_src(s, p, "")).collect();
    if let Some(p) = &g.spread { v.push(par_src(s, p, "*")); }
    v.extend(g.named.iter().map(|p| par_src(s, p, "")));
    if let Some(p) = &g.kw { v.push(par_src(s, p, "**")); }
    let c = g.content.as_ref().map_or(".".to_string(), |p| par_src(s, p, ""));
    if v.is_empty() && s.coin() { return format!(" {c}"); }
    format!("({}) {c}", v.join(", "))
}
fn arg_src(s: &mut Src, a: &A) -> String {
    match a {
        A::Pos(v) => c07::src(s, v), A::Named(n, v) => format!("{n}={}", c07::src(s, v)),
        A::Spread(v) => format!("*{}", c07::src(s, &M::List(v.clone()))), A::Kw(v) => format!("**{}", c07::src(s, &M::Dict(v.clone()))),
    }
}
fn args_src(s: &mut Src, a: &[A]) -> String { if a.is_empty() && s.coin() { return String::new(); } let v: Vec<String> = a.iter().map(|a| arg_src(s, a)).collect(); format!("({})", v.join(", ")) }

/// Arguments for the signature, or nearly.
fn args(s: &mut Src, g: &Sig) -> (Vec<A>, Vec<A>, M) {
    let req = g.pos.iter().filter(|p| p.default.is_none()).count();
    let mut n = req + s.us(g.pos.len() - req + 1);
    if g.spread.is_some() && s.coin() { n = g.pos.len() + s.us(3); }
    if s.chance(1, 20) { if s.coin() { n += 1; } else { n = n.saturating_sub(1); } }
    let ty = |i: usize| g.pos.get(i).map_or(g.spread.as_ref().map_or(T::Any, |p| component(&p.t)), |p| p.t.clone());
    let vs: Vec<M> = (0..n).map(|i| val(s, &ty(i))).collect();
    let mut pos = vec![];
    let mut i = 0;
    while i < n { if s.chance(1, 6) { let k = i + s.us(n - i + 1); pos.push(A::Spread(vs[i..k].to_vec())); i = k; } else { pos.push(A::Pos(vs[i].clone())); i += 1; } }
    let mut nv: Vec<(String, M)> = vec![];
    for p in &g.named { if (p.default.is_none() && !p.implicit || s.chance(if p.implicit { 1 } else { 2 }, 4)) && !s.chance(1, 30) { let v = val(s, &p.t); nv.push((p.name.clone(), v)); } }
    if let Some(p) = &g.kw { s.vec(0, 3, |s| { let k = s.pick(&["k1", "a", "b", "_a", "body", "foo_bar", "len"]).to_string(); let v = val(s, &component(&p.t)); if !nv.iter().any(|x| x.0 == k) { nv.push((k, v)); } }); }
    if s.chance(1, 20) { let k = s.pick(&["x", "y", "zz", "_a", "body", "im", "kw"]).to_string(); let v = val(s, &T::Any); nv.push((k, v)); }
    for i in (1..nv.len()).rev() { let j = s.us(i + 1); nv.swap(i, j); }
    let mut named = vec![];
    let mut i = 0;
    while i < nv.len() {
        // the values of a dict have names of which there is but one
        if s.chance(1, 5) { let k = i + s.us(nv.len() - i + 1); let d = &nv[i..k]; if (0..d.len()).all(|i| d[..i].iter().all(|x| x.0 != d[i].0)) { named.push(A::Kw(d.to_vec())); i = k; continue; } }
        named.push(A::Named(nv[i].0.clone(), nv[i].1.clone()));
        i += 1;
    }
    let c = match &g.content { Some(p) => val(s, &p.t), None => if s.chance(1, 20) { M::Int(1) } else { unit() } };
    (pos, named, c)
}
/// A name is written twice among the arguments.
fn dup_names(a: &[A]) -> bool { let n: Vec<&String> = a.iter().filter_map(|a| if let A::Named(n, _) = a { Some(n) } else { None }).collect(); (0..n.len()).any(|i| n[..i].contains(&n[i])) }

fn run(s: &mut Src, partial: bool) -> CaseResult {
    let g = sig(s);
    let (pos, named, content) = args(s, &g);
    // the bindings in scope at the call
    let mut scope: Vec<(bool, String, M)> = vec![];
    for p in g.named.iter().filter(|p| p.implicit) { s.vec(0, 3, |s| { let im = s.chance(3, 4); let v = val(s, &p.t); if plain(&v) { scope.push((im, if s.chance(1, 8) { "other".into() } else { p.name.clone() }, v)); } }); }
    let mut b = Bound::default();
    let mut want: R<M> = Ok(unit());
    let mut lets = String::new();
    let mut depth = 0;
    let mut syntax = false;
    let mut f = "$f".to_string();
    let (mut p, mut n, mut c) = (&pos[..], &named[..], content.clone());
    let mut steps = 0;
    if partial {
        for i in 0..1 + s.us(3) {
            let (k, l) = (s.us(p.len() + 1), s.us(n.len() + 1));
            let mut a: Vec<A> = p[..k].to_vec();
            a.extend(n[..l].to_vec());
            p = &p[k..]; n = &n[l..];
            let step_c = if s.chance(1, 4) { if s.chance(1, 10) { c.clone() } else { std::mem::replace(&mut c, unit()) } } else { unit() };
            syntax |= dup_names(&a);
            if want.is_ok() {

                want = step(&mut b, &g, &a, &step_c);
            }
            let ar: String = a.iter().map(|a| format!(", {}", arg_src(s, a))).collect();
            let v = format!("g{i}");
            lets += &format!("@let({v}=@function::bind({f}{ar}) {}) {{\n", c07::src(s, &step_c));
            depth += 1;
            f = format!("${v}");
            if !a.is_empty() || !is_unit(&step_c) { steps += 1; }
        }
    }
    let mut a: Vec<A> = p.to_vec();
    a.extend(n.to_vec());
    let call = f.trim_start_matches('$').to_string();
    // a callback gets its content only
    let callback = a.is_empty() && s.chance(1, 3);
    syntax |= dup_names(&a);
    let want = want.and_then(|_| {
        if callback { b.content(&g, &c)?; return Ok(M::List(vec![b.finish(&g)?])); }
        a.iter().try_for_each(|a| b.arg(&g, a))?;
        b.implicits(&g, &scope)?;
        b.content(&g, &c)?;
        b.finish(&g)
    });
    let mut e = if callback { format!("@list::map(${call}) [{}]", c07::src(s, &c)) } else { format!("@{call}{} {}", args_src(s, &a), c07::src(s, &c)) };
    for (im, n, v) in scope.iter().rev() { e = format!("@{}({n}={}) {e}", if *im { "implicit" } else { "let" }, c07::src(s, v)); }
    let body = format!("[{}]", g.all().iter().map(|p| format!("${}", p.name)).collect::<Vec<_>>().join(", "));
    let prog = format!("@fn f{} -> {body}\n{lets}@export(r={e}).\n{}@export(after=1).", sig_src(s, &g), "}".repeat(depth));
    s.note("program", prog.clone());
    if g.all().len() >= 3 && (!partial || steps >= 2) { s.nontrivial(); }
    s.label(if want.is_ok() { "bound" } else { "refused" });
    s.tick();
    let mut names: Vec<String> = vals::keys();
    names.extend(["r", "after", "_a", "body", "y", "z", "zz", "im", "lang", "kw"].map(String::from));
    let o = eval(&prog, &names)?;
    if syntax { return if o.out.errors > 0 && o.out.diags().iter().any(|d| d.msg.starts_with("Syntax error")) { Ok(()) } else { Err(format!("no syntax error is reported: {}", o.out.printed)) }; }
    if o.get("after") != Some(&V::Int(1)) { return Err(format!("what follows is not evaluated: {}", o.out.printed)); }
    match (want, o.get("r")) {
        (Ok(w), Some(r)) => {
            if !o.out.ok() { return Err(format!("diagnostics: {}", o.out.printed)); }
            if !same(&w, r)? { return Err(format!("the parameters are {r:?}, expected {w:?}")); }
        },
        (Ok(w), None) => return Err(format!("refused, expected {w:?}: {}", o.out.printed)),
        (Err(e), Some(r)) => return Err(format!("the parameters are {r:?}, expected an error, {e:?}")),
        (Err(e), None) => match o.out.diags().first() { Some(d) if d.msg.starts_with(&e) => {}, d => return Err(format!("the error is {d:?}, expected {e:?}")) },
    }
    Ok(())
}
/// Partial binding takes positional arguments, then named ones, then content.
fn step(b: &mut Bound, g: &Sig, a: &[A], c: &M) -> R<M> {
    // names given twice in one step are refused before anything is bound
    let mut kw: Vec<&String> = vec![];
    for a in a { let v: Vec<&String> = match a { A::Named(n, _) => vec![n], A::Kw(d) => d.iter().map(|x| &x.0).collect(), _ => vec![] }; for n in v { if kw.contains(&n) { return Err(format!("Runtime error: received multiple named arguments for parameter '{n}'")); } kw.push(n); } }
    a.iter().try_for_each(|a| b.arg(g, a))?;
    if !is_unit(c) { b.content(g, c)?; }
    b.check(g)?;
    Ok(unit())
}
fn direct(s: &mut Src) -> CaseResult { run(s, false) }
fn partial(s: &mut Src) -> CaseResult { run(s, true) }

/// Which signatures are accepted, and which lists of arguments.
fn signatures(s: &mut Src) -> CaseResult {
    let mut ps = vec![];
    let (mut errors, mut names): (usize, Vec<String>) = (0, vec![]);
    let (mut opt_p, mut opt_n, mut any_n, mut sp, mut kw) = (false, false, false, false, false);
    let mut all = vec![];
    for _ in 0..s.us(5) {
        let (pos, spread) = (s.coin(), s.chance(1, 5));
        let base = *s.pick(&["a", "b", "c", "d", "e", "g"]);
        let n = if pos { format!("_{base}") } else { base.to_string() };
        let opt = !spread && s.chance(1, 3);
        let imp = s.chance(1, 8);
        let def = !spread && !opt && s.chance(1, 4);
        let req = !spread && !opt && !def;
        let bad = if names.contains(&n) { true }
            else if pos && any_n { true }
            else if req && (if pos { opt_p } else { opt_n }) { true }
            else if pos && imp || spread && imp || imp && def { true }
            else { pos && sp || !pos && kw };
        errors += bad as usize;
        names.push(n.clone());
        match (pos, spread) { (false, false) => { any_n = true; opt_n |= !req; }, (true, false) => opt_p |= !req, (false, true) => { any_n = true; kw = true; }, (true, true) => sp = true }
        all.push(n.clone());
        ps.push(format!("{}${n}{}{}{}", if spread { if pos { "*" } else { "**" } } else { "" }, if opt { "?" } else { "" }, if imp { ": @implicit any" } else { "" }, if def { "=1" } else { "" }));
    }
    let mut c = ".".to_string();
    if s.coin() {
        let n = s.pick(&["body", "a", "_b", "b"]).to_string();
        c = format!("${n}");
        if names.contains(&n) { errors += 1; } else if s.chance(1, 6) { c = format!("*${n}"); errors += 1; } else if s.chance(1, 6) { c += "=1"; errors += 1; }
        all.push(n);
    }
    all.dedup();
    let prog = format!("@fn f({}) {c} -> [{}]\n@export(after=1).", ps.join(", "), all.iter().map(|n| format!("${n}")).collect::<Vec<_>>().join(", "));
    s.note("program", prog.clone());
    if ps.len() >= 2 { s.nontrivial(); }
    s.label(if errors == 0 { "accepted" } else { "refused" });
    s.tick();
    let o = eval(&prog, &["after".to_string()])?;
    if o.out.errors as usize != errors { return Err(format!("{} errors are reported, expected {errors}: {}", o.out.errors, o.out.printed)); }
    if o.out.diags().iter().any(|d| !d.msg.starts_with("Syntax error")) { return Err(format!("an error which is not of syntax: {}", o.out.printed)); }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        subs: vec![
            Sub {name: "direct", quick: 120_000, thorough: 3_000_000, run: direct},
            Sub {name: "partial", quick: 120_000, thorough: 3_000_000, run: partial},
            Sub {name: "signatures", quick: 20_000, thorough: 300_000, run: signatures},
        ],
        fixed: vec![],
        rule: "a function of at least three parameters, and for partial binding at least two steps which bind something; signatures: at least two parameters",
        assumptions: &["when a call is wrong in several ways, the first is reported: arguments from left to right, then implicit parameters, then content, then what is missing", "functions and regular expressions are not among the arguments", "content which is unit is not bound by partial binding", "implicit parameters are bound when the function is called by name, not in callbacks"],
    }
}
