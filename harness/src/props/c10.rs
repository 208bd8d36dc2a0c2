//! C10: names resolve lexically; bindings never leak out of their scope.
use crate::engine::*;
use crate::lang::*;
use std::{cell::RefCell, rc::Rc};

#[derive(Clone, Debug)]
enum E { Unit, Int(i64), Var(String), List(Vec<E>), Let(bool, Vec<(String, E)>, Box<E>), Fn(Rc<Def>), Call(String, Vec<E>, Vec<(String, E)>, Box<E>), Match(Box<E>, Vec<(Pt, E)>), Tmpl(String), Map(String, Vec<E>), Bind(String, Vec<(String, E)>) }
#[derive(Clone, Debug)]
enum Pt { Var(String), Two(String, String), Eq(String), Wild, Either(String, String), And(String, String), Part(String, String) }
#[derive(Clone, Debug)]
struct Def { pos: Vec<(String, Option<E>)>, named: Vec<(String, Option<E>)>, imp: Vec<(String, bool)>, content: Option<String>, body: E }
#[derive(Clone, Debug)]
enum S { Def(String, Rc<Def>, bool), Let(bool, Vec<(String, E)>, bool, Vec<S>), Export(String, E), Match(E, Vec<(Pt, Vec<S>)>), Group(Vec<S>) }

// ---- the reference interpreter ----

#[derive(Clone)]
enum Vl { Int(i64), Str(String), List(Vec<Vl>), Fn(Rc<Clo>), Unit }
struct Clo { def: Rc<Def>, frame: Fr, defaults: (Vec<Option<Vl>>, Vec<Option<Vl>>), bound: Vec<(String, Vl)> }
struct Frame { locals: Vec<(String, Vl)>, imp: Vec<String>, up: Option<Fr> }
type Fr = Rc<RefCell<Frame>>;

struct Int { errors: Vec<String>, exports: Vec<(String, Vl)>, steps: usize, depth: usize, calls: usize, shadowed: usize }
struct Out;
/// An error which has been reported, or that the program runs for too long.
enum Stop { Err, Fuel }
type R<X> = Result<X, Stop>;
impl From<Out> for Stop { fn from(_: Out) -> Stop { Stop::Fuel } }

fn child(f: &Fr) -> Fr { Rc::new(RefCell::new(Frame {locals: vec![], imp: vec![], up: Some(f.clone())})) }
fn set(f: &Fr, n: &str, v: Vl, imp: bool) { let mut f = f.borrow_mut(); if imp { f.imp.push(n.into()); } f.locals.retain(|x| x.0 != n); f.locals.push((n.into(), v)); }
fn get(f: &Fr, n: &str, imp: bool) -> Option<Vl> {
    let b = f.borrow();
    if !imp || b.imp.iter().any(|x| x == n) { if let Some(x) = b.locals.iter().find(|x| x.0 == n) { return Some(x.1.clone()); } }
    b.up.as_ref().and_then(|u| get(u, n, imp))
}
fn count(f: &Fr, n: &str) -> usize { let b = f.borrow(); b.locals.iter().any(|x| x.0 == n) as usize + b.up.as_ref().map_or(0, |u| count(u, n)) }
fn same_v(a: &Vl, b: &Vl) -> bool { match (a, b) { (Vl::Int(a), Vl::Int(b)) => a == b, (Vl::Str(a), Vl::Str(b)) => a == b, (Vl::Unit, Vl::Unit) => true, (Vl::List(a), Vl::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same_v(a, b)), _ => false } }
fn size(v: &Vl) -> usize { if let Vl::List(v) = v { 1 + v.iter().map(size).sum::<usize>() } else { 1 } }
fn has_fn(v: &Vl) -> bool { match v { Vl::Fn(_) => true, Vl::List(v) => v.iter().any(has_fn), _ => false } }

impl Int {
    fn fail<X>(&mut self, m: impl Into<String>) -> R<X> { self.errors.push(m.into()); Err(Stop::Err) }
    fn tick(&mut self) -> R<()> { self.steps += 1; if self.steps > 2000 || self.depth > 30 { return Err(Stop::Fuel); } Ok(()) }
    fn var(&mut self, f: &Fr, n: &str) -> R<Vl> {
        if count(f, n) > 1 { self.shadowed += 1; }
        match get(f, n, false) { Some(v) => Ok(v), None => self.fail(format!("Name error: no such variable '{n}'")) }
    }
    fn func(&mut self, f: &Fr, n: &str) -> R<Rc<Clo>> { match self.var(f, n)? { Vl::Fn(c) => Ok(c), _ => self.fail("Type error: expected function") } }
    fn closure(&mut self, f: &Fr, d: &Rc<Def>) -> R<Rc<Clo>> {
        let mut defaults = (vec![], vec![]);
        // a default which fails is an error, and then the parameter has none
        for (_, e) in &d.pos { let v = match e { None => None, Some(e) => match self.eval(f, e) { Ok(v) => Some(v), Err(Stop::Err) => None, Err(x) => return Err(x) } }; defaults.0.push(v); }
        for (_, e) in &d.named { let v = match e { None => None, Some(e) => match self.eval(f, e) { Ok(v) => Some(v), Err(Stop::Err) => None, Err(x) => return Err(x) } }; defaults.1.push(v); }
        Ok(Rc::new(Clo {def: d.clone(), frame: f.clone(), defaults, bound: vec![]}))
    }
    fn eval(&mut self, f: &Fr, e: &E) -> R<Vl> {
        self.tick()?;
        Ok(match e {
            E::Unit => Vl::Unit,
            E::Int(i) => Vl::Int(*i),
            E::Var(n) => self.var(f, n)?,
            E::List(v) => { let l = Vl::List(v.iter().map(|e| self.eval(f, e)).collect::<R<_>>()?); if size(&l) > 300 { return Err(Stop::Fuel); } l },
            E::Let(imp, b, body) => { let g = child(f); for (n, e) in b { let v = self.eval(&g, e)?; set(&g, n, v, *imp); } self.eval(&g, body)? },
            E::Fn(d) => Vl::Fn(self.closure(f, d)?),
            E::Call(n, pos, named, content) => {
                let c = self.func(f, n)?;
                let mut b = vec![];
                let mut k = 0;
                for e in pos { let v = self.eval(f, e)?; if let Some(p) = c.def.pos.get(k) { b.push((p.0.clone(), v)); } k += 1; }
                for (n, e) in named { let v = self.eval(f, e)?; self.named(&c, &mut b, n, v)?; }
                for (n, opt) in &c.def.imp {
                    if b.iter().chain(&c.bound).any(|x| x.0 == *n) { continue; }
                    let v = match get(f, n, true) {
                        Some(v) => v,
                        None if *opt => Vl::Unit,
                        None if get(f, n, false).is_some() => return self.fail(format!("Runtime error: required implicit parameter '{n}'; this name exists")),
                        None => return self.fail(format!("Runtime error: missing required implicit parameter '{n}'")),
                    };
                    b.push((n.clone(), v));
                }
                let v = self.eval(f, content)?;
                self.enter(&c, b, k, v)?
            },
            E::Bind(n, named) => {
                let c = self.func(f, n)?;
                let mut vs = vec![];
                for (n, e) in named { vs.push((n.clone(), self.eval(f, e)?)); }
                let mut b = vec![];
                for (n, v) in vs { self.named(&c, &mut b, &n, v)?; }
                let mut bound = c.bound.clone();
                bound.extend(b);
                Vl::Fn(Rc::new(Clo {def: c.def.clone(), frame: c.frame.clone(), defaults: c.defaults.clone(), bound}))
            },
            E::Map(n, v) => {
                let c = self.func(f, n)?;
                let v = v.iter().map(|e| self.eval(f, e)).collect::<R<Vec<_>>>()?;
                Vl::List(v.into_iter().map(|v| self.enter(&c, vec![], 0, v)).collect::<R<_>>()?)
            },
            E::Match(e, bs) => { let v = self.eval(f, e)?; match self.branch(f, &v, bs)? { Some((g, e)) => self.eval(&g, e)?, None => return self.fail("Runtime error: no matching branch") } },
            E::Tmpl(n) => match self.var(f, n)? { Vl::Int(i) => Vl::Str(format!("<{i}>")), Vl::Str(t) => Vl::Str(format!("<{t}>")), Vl::Unit => Vl::Str("<>".into()), _ => return self.fail("Type error: expected str") },
        })
    }
    fn named(&mut self, c: &Clo, b: &mut Vec<(String, Vl)>, n: &str, v: Vl) -> R<()> {
        if !c.def.named.iter().any(|p| p.0 == n) && !c.def.imp.iter().any(|p| p.0 == n) { return self.fail(format!("Name error: no such parameter '{n}'")); }
        if b.iter().chain(&c.bound).any(|x| x.0 == n) { return self.fail(format!("Runtime error: received multiple named arguments for parameter '{n}'")); }
        b.push((n.into(), v));
        Ok(())
    }
    fn enter(&mut self, c: &Rc<Clo>, mut b: Vec<(String, Vl)>, k: usize, content: Vl) -> R<Vl> {
        b.extend(c.bound.iter().cloned());
        match &c.def.content { Some(n) => b.push((n.clone(), content)), None => if !matches!(content, Vl::Unit) { return self.fail("Type error: expected none"); } }
        if k > c.def.pos.len() { return self.fail("Type error: too many positional arguments"); }
        for (p, d) in c.def.pos.iter().zip(&c.defaults.0).skip(k) { match d { Some(v) => b.push((p.0.clone(), v.clone())), None => return self.fail("Type error: not enough positional arguments") } }
        // in the order of the signature, implicit parameters come first
        for (n, opt) in &c.def.imp { if !b.iter().any(|x| x.0 == *n) { if *opt { b.push((n.clone(), Vl::Unit)); } else { return self.fail(format!("Runtime error: missing required parameter '{n}'")); } } }
        for (p, d) in c.def.named.iter().zip(&c.defaults.1) { if !b.iter().any(|x| x.0 == p.0) { match d { Some(v) => b.push((p.0.clone(), v.clone())), None => return self.fail(format!("Runtime error: missing required parameter '{}'", p.0)) } } }
        let g = child(&c.frame);
        for (n, v) in b { set(&g, &n, v, false); }
        self.calls += 1; self.depth += 1;
        let r = self.eval(&g, &c.def.body);
        self.depth -= 1;
        r
    }
    fn equals(&mut self, g: &Fr, n: &str, v: &Vl) -> R<bool> {
        match self.var(g, n) { Ok(w) => { if has_fn(&w) { return Err(Stop::Fuel); } Ok(same_v(&w, v)) }, Err(Stop::Err) => Ok(false), Err(e) => Err(e) }
    }
    fn branch<'b, X>(&mut self, f: &Fr, v: &Vl, bs: &'b [(Pt, X)]) -> R<Option<(Fr, &'b X)>> {
        for (p, x) in bs {
            let g = child(f);
            let yes = match p {
                Pt::Wild => true,
                Pt::Var(n) => { set(&g, n, v.clone(), false); true },
                Pt::Two(a, b) => match v { Vl::List(v) if v.len() == 2 => { set(&g, a, v[0].clone(), false); set(&g, b, v[1].clone(), false); true }, _ => false },
                Pt::Either(a, b) => match v { Vl::List(v) if v.len() == 2 => { set(&g, a, v[0].clone(), false); set(&g, b, Vl::Unit, false); true }, v => { set(&g, a, Vl::Unit, false); set(&g, b, v.clone(), false); true } },
                Pt::Eq(n) => self.equals(&g, n, v)?,
                // these bind a name, and then may fail
                Pt::And(a, n) => { set(&g, a, v.clone(), false); self.equals(&g, n, v)? },
                Pt::Part(a, n) => match v { Vl::List(v) if v.len() == 2 => { set(&g, a, v[0].clone(), false); self.equals(&g, n, &v[1])? }, _ => false },
            };
            if yes { return Ok(Some((g, x))); }
        }
        Ok(None)
    }
    /// Runs statements; an error stops only the statement it is in.
    fn run(&mut self, f: &Fr, ss: &[S]) -> Result<(), Out> {
        for s in ss { if let Err(Stop::Fuel) = self.stmt(f, s) { return Err(Out); } }
        Ok(())
    }
    fn stmt(&mut self, f: &Fr, s: &S) -> R<()> {
        self.tick()?;
        match s {
            S::Def(n, d, ex) => { let c = Vl::Fn(self.closure(f, d)?); if *ex { self.exports.push((n.clone(), c.clone())); } set(f, n, c, false); },
            S::Export(n, e) => { let v = self.eval(f, e)?; self.exports.push((n.clone(), v)); },
            S::Let(imp, b, ex, ss) => { let g = child(f); for (n, e) in b { let v = self.eval(&g, e)?; if *ex { self.exports.push((n.clone(), v.clone())); } set(&g, n, v, *imp); } self.run(&g, ss)?; },
            S::Match(e, bs) => { let v = self.eval(f, e)?; match self.branch(f, &v, bs)? { Some((g, ss)) => self.run(&g, ss)?, None => return self.fail("Runtime error: no matching branch") } },
            S::Group(ss) => self.run(f, ss)?,
        }
        Ok(())
    }
}

// ---- programs ----

const VARS: &[&str] = &["va", "vb", "vc"];
const FNS: &[&str] = &["fa", "fb", "fc"];
const POS: &[&str] = &["_p", "_q"];

/// What is known of the scope while a program is made: names, and signatures of functions.
#[derive(Clone, Default)]
struct Sc { vars: Vec<String>, fns: Vec<(String, Rc<Def>)>, here: Vec<String> }
impl Sc {
    fn inner(&self) -> Sc { Sc {here: vec![], ..self.clone()} }
    fn add(&mut self, n: &str) { self.fns.retain(|x| x.0 != n); self.vars.push(n.into()); self.here.push(n.into()); }
    fn add_fn(&mut self, n: &str, d: &Rc<Def>) { self.add(n); self.fns.push((n.into(), d.clone())); }
}
struct G { next: i64, exports: usize, exported: Vec<String>, size: usize }
impl G {
    fn lit(&mut self) -> E { self.next += 1; E::Int(self.next) }
    fn var(&mut self, s: &mut Src, sc: &Sc) -> E {
        if s.chance(149, 150) { return if sc.vars.is_empty() { self.lit() } else { E::Var(s.pick(&sc.vars).clone()) }; }
        E::Var(s.pick(&[VARS, FNS, POS].concat()).to_string())
    }
    fn binds(&mut self, s: &mut Src, sc: &mut Sc, d: u32, max: usize) -> Vec<(String, E)> {
        let mut v: Vec<(String, E)> = vec![];
        for _ in 0..1 + s.us(max) {
            let fun = s.chance(1, 4);
            let n = s.pick(if fun { FNS } else { VARS }).to_string();
            if v.iter().any(|x| x.0 == n) { continue; }
            if fun { let f = Rc::new(self.def(s, sc, d)); sc.add_fn(&n, &f); v.push((n, E::Fn(f))); }
            else { let e = if s.coin() { self.lit() } else { self.expr(s, sc, d) }; sc.add(&n); v.push((n, e)); }
        }
        v
    }
    fn def(&mut self, s: &mut Src, sc: &Sc, d: u32) -> Def {
        let d = d.saturating_sub(1);
        let mut used: Vec<String> = vec![];
        let mut f = Def {pos: vec![], named: vec![], imp: vec![], content: None, body: E::Int(0)};
        let mut fresh = |s: &mut Src, pool: &[&str]| { let n = s.pick(pool).to_string(); if used.contains(&n) { None } else { used.push(n.clone()); Some(n) } };
        if s.chance(1, 3) { if let Some(n) = fresh(s, POS) { let e = if s.chance(2, 3) { Some(if s.coin() { self.lit() } else { self.expr(s, sc, d) }) } else { None }; f.pos.push((n, e)); } }
        if s.chance(1, 4) { if let Some(n) = fresh(s, VARS) { f.imp.push((n, s.chance(1, 2))); } }
        if s.chance(1, 3) { if let Some(n) = fresh(s, VARS) { let opt = s.chance(4, 5) || f.imp.iter().any(|x| x.1); let e = if opt { Some(if s.coin() { self.lit() } else { self.expr(s, sc, d) }) } else { None }; f.named.push((n, e)); } }
        if s.chance(3, 5) { f.content = fresh(s, &[VARS, POS].concat()); }
        let mut sc = sc.inner();
        for n in &used { sc.add(n); }
        f.body = self.expr(s, &sc, d);
        f
    }
    fn call(&mut self, s: &mut Src, sc: &Sc, d: u32) -> E {
        let (n, def) = if !sc.fns.is_empty() && s.chance(14, 15) { let x = s.pick(&sc.fns); (x.0.clone(), Some(x.1.clone())) } else { (s.pick(&[FNS, VARS].concat()).to_string(), None) };
        let Some(def) = def else { let e = self.expr(s, sc, d - 1); return E::Call(n, vec![], vec![], Box::new(e)); };
        let mut pos = vec![];
        for p in &def.pos { if p.1.is_none() || s.coin() { pos.push(self.expr(s, sc, d - 1)); } }
        let mut named = vec![];
        for p in &def.named { if p.1.is_none() || s.chance(1, 3) { named.push((p.0.clone(), self.expr(s, sc, d - 1))); } }
        for p in &def.imp { if s.chance(1, 5) { named.push((p.0.clone(), self.expr(s, sc, d - 1))); } }
        let c = if def.content.is_some() { self.expr(s, sc, d - 1) } else { E::Unit };
        E::Call(n, pos, named, Box::new(c))
    }
    fn pats(&mut self, s: &mut Src, sc: &Sc) -> Vec<Pt> {
        let n = |s: &mut Src| s.pick(VARS).to_string();
        let eq = |s: &mut Src| if sc.vars.is_empty() { Pt::Wild } else if s.chance(1, 40) { Pt::Eq(n(s)) } else { let n = s.pick(&sc.vars).clone(); if n.starts_with('f') { Pt::Wild } else { Pt::Eq(n) } };
        let mut v = vec![];
        for _ in 0..s.us(3) { v.push(match s.us(6) {
            0 => eq(s), 1 => Pt::Two("va".into(), s.pick(&["vb", "vc"]).to_string()), 2 => Pt::Either("vb".into(), "vc".into()),
            3 | 4 => { let a = n(s); match eq(s) { Pt::Eq(n) => if s.coin() { Pt::And(a, n) } else { Pt::Part(a, n) }, p => p } },
            _ => eq(s),
        }); }
        if !s.chance(1, 10) || v.is_empty() { v.push(if s.coin() { Pt::Var(n(s)) } else { Pt::Wild }); }
        v
    }
    fn expr(&mut self, s: &mut Src, sc: &Sc, d: u32) -> E {
        self.size += 1;
        if d == 0 || self.size > 120 { return if s.chance(1, 4) { self.lit() } else { self.var(s, sc) }; }
        match s.weighted(&[5, 2, 3, 4, 2, 3, 2, 1, 1, 1]) {
            0 => self.var(s, sc),
            1 => self.lit(),
            2 => { let n = 1 + s.us(3); E::List((0..n).map(|_| self.expr(s, sc, d - 1)).collect()) },
            3 => { let mut g = sc.inner(); let imp = s.chance(2, 5); let b = self.binds(s, &mut g, d - 1, 2); let e = self.expr(s, &g, d - 1); E::Let(imp, b, Box::new(e)) },
            4 => E::Fn(Rc::new(self.def(s, sc, d))),
            5 | 9 => self.call(s, sc, d),
            6 => { let e = self.expr(s, sc, d - 1); let ps = self.pats(s, sc); E::Match(Box::new(e), ps.into_iter().map(|p| { let g = scope_of(&p, sc); let e = self.expr(s, &g, d - 1); (p, e) }).collect()) },
            7 => if s.coin() { self.expr(s, sc, d - 1) } else if let E::Var(n) = self.var(s, sc) { E::Tmpl(n) } else { self.lit() },
            _ => {
                let Some((n, def)) = (if sc.fns.is_empty() { None } else { Some(s.pick(&sc.fns).clone()) }) else { return self.lit(); };
                if def.content.is_some() && s.coin() { let n2 = 1 + s.us(2); return E::Map(n, (0..n2).map(|_| self.expr(s, sc, d - 1)).collect()); }
                let mut named = vec![];
                for p in def.named.iter().map(|p| &p.0).chain(def.imp.iter().map(|p| &p.0)) { if s.coin() { named.push((p.clone(), self.expr(s, sc, d - 1))); } }
                E::Bind(n, named)
            },
        }
    }
    fn stmts(&mut self, s: &mut Src, sc: &mut Sc, d: u32, max: usize) -> Vec<S> {
        let n = 1 + s.us(max);
        let mut out = vec![];
        for _ in 0..n {
            let k = if d == 0 { [0, 3][s.us(2)] } else { s.weighted(&[3, 4, 2, 5, 1]) };
            match k {
                0 => {
                    let n = s.pick(&[FNS, FNS, VARS].concat()).to_string();
                    if sc.here.contains(&n) { continue; }
                    let mut g = sc.clone();
                    // a function may call itself
                    if s.chance(1, 10) { g.vars.push(n.clone()); }
                    let def = Rc::new(self.def(s, &g, 3));
                    let ex = s.chance(1, 5) && !self.exported.contains(&n);
                    if ex { self.exported.push(n.clone()); }
                    sc.add_fn(&n, &def);
                    out.push(S::Def(n, def, ex));
                },
                1 => {
                    let mut g = sc.inner();
                    let b = self.binds(s, &mut g, 2, 3);
                    let ex = s.chance(1, 6) && b.iter().all(|x| !self.exported.contains(&x.0));
                    if ex { self.exported.extend(b.iter().map(|x| x.0.clone())); }
                    let imp = !ex && s.chance(2, 5);
                    let ss = self.stmts(s, &mut g, d - 1, 3);
                    out.push(S::Let(imp, b, ex, ss));
                },
                2 => { let e = self.expr(s, sc, 2); let ps = self.pats(s, sc); out.push(S::Match(e, ps.into_iter().map(|p| { let mut g = scope_of(&p, sc); let ss = self.stmts(s, &mut g, d - 1, 2); (p, ss) }).collect())); },
                3 => { self.exports += 1; let n = format!("r{}", self.exports); let e = self.expr(s, sc, 4); out.push(S::Export(n, e)); },
                _ => { let ss = self.stmts(s, sc, d - 1, 2); out.push(S::Group(ss)); },
            }
        }
        if out.is_empty() { self.exports += 1; let n = format!("r{}", self.exports); let e = self.var(s, sc); out.push(S::Export(n, e)); }
        out
    }
}
fn scope_of(p: &Pt, sc: &Sc) -> Sc {
    let mut g = sc.inner();
    match p { Pt::Var(n) => g.add(n), Pt::Two(a, b) | Pt::Either(a, b) => { g.add(a); g.add(b); }, Pt::And(a, _) | Pt::Part(a, _) => g.add(a), _ => {} }
    g
}

// ---- writing programs ----

fn e_src(e: &E) -> String {
    match e {
        E::Unit => ".".into(),
        E::Int(i) => i.to_string(),
        E::Var(n) => format!("${n}"),
        E::List(v) => format!("[{}]", v.iter().map(e_src).collect::<Vec<_>>().join(", ")),
        // a literal is not the body of a let expression
        E::Let(imp, b, e) => format!("@{}({}) {}", if *imp { "implicit" } else { "let" }, binds_src(b), e_src(e)),
        E::Fn(d) => format!("@fn {}", def_src(d)),
        E::Call(n, pos, named, c) => { let mut a: Vec<String> = pos.iter().map(e_src).collect(); a.extend(named.iter().map(|(n, e)| format!("{n}={}", e_src(e)))); format!("@{n}({}) {}", a.join(", "), e_src(c)) },
        E::Match(e, bs) => format!("@match {} {{{}}}", e_src(e), bs.iter().map(|(p, e)| format!("{} -> {}", p_src(p), e_src(e))).collect::<Vec<_>>().join(", ")),
        E::Tmpl(n) => format!("\"\\<${n}>\""),
        E::Map(n, v) => format!("@list::map(${n}) {}", e_src(&E::List(v.clone()))),
        E::Bind(n, b) => format!("@function::bind(${n}{}).", b.iter().map(|(n, e)| format!(", {n}={}", e_src(e))).collect::<String>()),
    }
}
fn binds_src(b: &[(String, E)]) -> String { b.iter().map(|(n, e)| format!("{n}={}", e_src(e))).collect::<Vec<_>>().join(", ") }
fn def_src(d: &Def) -> String {
    let one = |p: &(String, Option<E>)| match &p.1 { Some(e) => format!("${}={}", p.0, e_src(e)), None => format!("${}", p.0) };
    let mut v: Vec<String> = d.pos.iter().map(one).collect();
    v.extend(d.imp.iter().map(|(n, o)| format!("${n}{}: @implicit any", if *o { "?" } else { "" })));
    v.extend(d.named.iter().map(one));
    format!("({}) {} -> {}", v.join(", "), d.content.as_ref().map_or(".".into(), |n| format!("${n}")), e_src(&d.body))
}
fn p_src(p: &Pt) -> String { match p { Pt::Var(n) => format!("${n}"), Pt::Two(a, b) => format!("[${a}, ${b}]"), Pt::Eq(n) => format!("=${n}"), Pt::Wild => "_".into(), Pt::Either(a, b) => format!("[${a}, _] | ${b}"), Pt::And(a, b) => format!("${a} & =${b}"), Pt::Part(a, b) => format!("[${a}, =${b}]") } }
fn s_src(ss: &[S], ind: usize) -> String {
    let t = "  ".repeat(ind);
    ss.iter().map(|s| t.clone() + &match s {
        S::Def(n, d, ex) => format!("@{}fn {n}{}", if *ex { "export @" } else { "" }, def_src(d)),
        S::Let(imp, b, ex, ss) => format!("@{}{}({}) {{\n{}{t}}}", if *ex { "export @" } else { "" }, if *imp { "implicit" } else { "let" }, binds_src(b), s_src(ss, ind + 1)),
        S::Export(n, e) => format!("@export({n}={}).", e_src(e)),
        S::Match(e, bs) => format!("@match {} {{{}}}", e_src(e), bs.iter().map(|(p, ss)| format!("{} -> {{\n{}{t}}}", p_src(p), s_src(ss, ind + 1))).collect::<Vec<_>>().join(", ")),
        S::Group(ss) => format!("{{\n{}{t}}}", s_src(ss, ind + 1)),
    } + "\n").collect()
}
/// Literals and exported implicit bindings have no place in the body of a let.
fn fix(e: &mut E) {
    match e {
        E::List(v) | E::Map(_, v) => v.iter_mut().for_each(fix),
        E::Let(_, b, e) => { b.iter_mut().for_each(|x| fix(&mut x.1)); fix(e); if matches!(**e, E::Int(_)) { **e = E::List(vec![(**e).clone()]); } },
        E::Fn(d) => { let mut x = (**d).clone(); fix_def(&mut x); *d = Rc::new(x); },
        E::Call(_, p, n, c) => { p.iter_mut().for_each(fix); n.iter_mut().for_each(|x| fix(&mut x.1)); fix(c); },
        E::Bind(_, n) => n.iter_mut().for_each(|x| fix(&mut x.1)),
        E::Match(e, bs) => { fix(e); bs.iter_mut().for_each(|x| fix(&mut x.1)); },
        _ => {},
    }
}
fn fix_def(d: &mut Def) { d.pos.iter_mut().chain(&mut d.named).for_each(|p| if let Some(e) = &mut p.1 { fix(e) }); fix(&mut d.body); }
fn fix_all(ss: &mut [S]) {
    for s in ss { match s {
        S::Def(_, d, _) => { let mut x = (**d).clone(); fix_def(&mut x); *d = Rc::new(x); },
        S::Let(_, b, _, ss) => { b.iter_mut().for_each(|x| fix(&mut x.1)); fix_all(ss); },
        S::Export(_, e) => fix(e),
        S::Match(e, bs) => { fix(e); bs.iter_mut().for_each(|x| fix_all(&mut x.1)); },
        S::Group(ss) => fix_all(ss),
    } }
}

fn equal(a: &Vl, b: &V) -> bool {
    match (a, b) { (Vl::Int(a), V::Int(b)) => a == b, (Vl::Str(a), V::Str(b)) => a == b, (Vl::Unit, b) => *b == V::unit(), (Vl::Fn(_), V::Func) => true, (Vl::List(a), V::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| equal(a, b)), _ => false }
}
fn show(v: &Vl) -> String { match v { Vl::Int(i) => i.to_string(), Vl::Str(t) => format!("{t:?}"), Vl::Unit => "unit".into(), Vl::Fn(_) => "func".into(), Vl::List(v) => format!("[{}]", v.iter().map(show).collect::<Vec<_>>().join(", ")) } }

fn run(s: &mut Src, depth: u32, n: usize) -> CaseResult {
    let mut g = G {next: 0, exports: 0, exported: vec![], size: 0};
    let mut sc = Sc::default();
    let mut ss = g.stmts(s, &mut sc, depth, n);
    fix_all(&mut ss);
    let mut it = Int {errors: vec![], exports: vec![], steps: 0, depth: 0, calls: 0, shadowed: 0};
    let top: Fr = Rc::new(RefCell::new(Frame {locals: vec![], imp: vec![], up: None}));
    if it.run(&top, &ss).is_err() { s.label("without end, or of unknown equality, not compiled"); return Ok(()); }
    let prog = s_src(&ss, 0);
    s.note("program", prog.clone());
    s.label(if it.errors.is_empty() { "clean" } else { "with errors" });
    if it.shadowed > 0 && it.calls > 0 { s.nontrivial(); }
    s.tick();
    let mut names: Vec<String> = (1..=g.exports).map(|i| format!("r{i}")).collect();
    names.extend([VARS, FNS].concat().iter().map(|x| x.to_string()));
    let o = eval(&prog, &names)?;
    for n in &names {
        let w = it.exports.iter().find(|x| x.0 == *n).map(|x| x.1.clone());
        match (&w, o.get(n)) {
            (None, None) => {},
            (Some(w), Some(v)) if equal(w, v) => {},
            (w, v) => return Err(format!("{n} is {v:?}, expected {}\n{}", w.as_ref().map_or("nothing".into(), show), o.out.printed)),
        }
    }
    let msgs: Vec<String> = o.out.diags().into_iter().filter(|d| !d.is_warning()).map(|d| d.msg).collect();
    if msgs.len() != it.errors.len() || !msgs.iter().zip(&it.errors).all(|(m, w)| m.starts_with(w)) { return Err(format!("the errors are {msgs:?}, expected {:?}", it.errors)); }
    if o.out.warnings != 0 { return Err(format!("unexpected warnings: {}", o.out.printed)); }
    Ok(())
}
fn small(s: &mut Src) -> CaseResult { run(s, 2, 4) }
fn large(s: &mut Src) -> CaseResult { run(s, 4, 8) }

/// Code fences call the function `code` or `code_block` which is in scope, and
/// take its implicit parameters from the place of the fence.
#[derive(Clone, Debug)]
enum F { Fence(String), Block(String), Let(bool, Vec<(String, String)>, Vec<F>), Use(bool, Rc<User>, Vec<F>), Fn(String, bool, Vec<F>), Call(String) }
/// A user's version of the functions: which parameters it has.
#[derive(Debug)]
struct User { block: bool, id: usize, lang: Par, k: Par }
#[derive(Clone, Copy, PartialEq, Debug)]
enum Par { No, Need, Opt, Default }

fn fence_stmts(s: &mut Src, d: u32, next: &mut usize, fns: &mut Vec<String>, here: Option<bool>) -> Vec<F> {
    let n = 1 + s.us(3);
    let mut out = vec![];
    let mut here: Vec<bool> = here.into_iter().collect();
    for _ in 0..n {
        *next += 1;
        let k = *next;
        match if d == 0 { s.us(2) } else { s.weighted(&[3, 2, 4, 3, 1, 1]) } {
            0 => out.push(F::Fence(format!("t{k}"))),
            1 => out.push(F::Block(format!("t{k}"))),
            2 => {
                let mut b = vec![("language".to_string(), s.pick(&["papyri", "python", "rust", "python"]).to_string())];
                if s.chance(1, 3) { b.push(("k".to_string(), format!("k{k}"))); }
                if s.chance(1, 4) { b.remove(0); }
                if b.is_empty() { b.push(("k".to_string(), format!("k{k}"))); }
                let imp = s.chance(3, 4);
                out.push(F::Let(imp, b, fence_stmts(s, d - 1, next, &mut fns.clone(), None)));
            },
            3 => {
                let block = s.coin();
                let lang = *s.pick(&[Par::No, Par::Need, Par::Opt, Par::Opt, Par::Default]);
                let mut k2 = *s.pick(&[Par::No, Par::No, Par::Need, Par::Opt, Par::Default]);
                // after an optional parameter there is no required one
                if matches!(lang, Par::Opt | Par::Default) && k2 == Par::Need { k2 = Par::Opt; }
                let u = Rc::new(User {block, id: k, lang, k: k2});
                // in a scope of its own, or the rest of this one
                if s.coin() || here.contains(&block) { out.push(F::Use(true, u, fence_stmts(s, d - 1, next, &mut fns.clone(), Some(block)))); }
                else { here.push(block); out.push(F::Use(false, u, vec![])); }
            },
            4 => { let f = format!("f{k}"); let b = fence_stmts(s, d - 1, next, &mut fns.clone(), None); fns.push(f.clone()); let imp = s.coin(); out.push(F::Fn(f, imp, b)); },
            _ => if fns.is_empty() { out.push(F::Fence(format!("t{k}"))) } else { out.push(F::Call(s.pick(fns).clone())) },
        }
    }
    out
}
fn user_src(u: &User, name: Option<&str>) -> String {
    let par = |n: &str, p: Par| match p { Par::No => None, Par::Need => Some(format!("${n}: @implicit any")), Par::Opt => Some(format!("${n}?: @implicit str")), Par::Default => Some(format!("${n}=`d`")) };
    let ps: Vec<String> = [par("language", u.lang), par("k", u.k)].into_iter().flatten().collect();
    let show = |n: &str, p: Par| if p == Par::No { String::new() } else { format!("{{${n}}}") };
    let e = if u.block { "p" } else { "i" };
    format!("@fn{}{}{}{} $t: str -> <{e} title=\"{}|{}|{}\">$t</{e}>", if name.is_some() { " " } else { "" }, name.unwrap_or(""), if ps.is_empty() { "" } else { "(" }, if ps.is_empty() { String::new() } else { format!("{})", ps.join(", ")) }, u.id, show("language", u.lang), show("k", u.k))
}
fn fence_src(s: &mut Src, ss: &[F]) -> String {
    let mut o = String::new();
    for f in ss {
        o += &match f {
            F::Fence(t) => { let q = s.pick(&["`", "``"]); format!("a {q}{t}{q} b\n\n") },
            F::Block(t) => format!("```\n{t}\n```\n\n"),
            F::Let(imp, b, ss) => format!("@{}({}) {{\n{}}}\n\n", if *imp { "implicit" } else { "let" }, b.iter().map(|x| format!("{}=`{}`", x.0, x.1)).collect::<Vec<_>>().join(", "), fence_src(s, ss)),
            F::Use(true, u, ss) => format!("@let({}={}) {{\n{}}}\n\n", if u.block { "code_block" } else { "code" }, user_src(u, None), fence_src(s, ss)),
            F::Use(false, u, _) => format!("{}\n\n", user_src(u, Some(if u.block { "code_block" } else { "code" }))),
            F::Fn(n, imp, ss) => format!("@fn {n}{} . -> {{\n{}}}\n\n", if *imp { "($language?: @implicit str)" } else { "" }, fence_src(s, ss)),
            F::Call(n) => format!("@{n}.\n\n"),
        };
    }
    o
}
/// What a name is, for the fences.
#[derive(Clone)]
enum Fv { Str(String), Code(Rc<User>), Fn(Rc<Vec<F>>, Fs) }
struct FScope { locals: Vec<(String, bool, Fv)>, up: Option<Fs> }
type Fs = Rc<RefCell<FScope>>;
fn f_in(up: &Fs) -> Fs { Rc::new(RefCell::new(FScope {locals: vec![], up: Some(up.clone())})) }
fn f_get(f: &Fs, n: &str, imp: bool) -> Option<Fv> {
    let b = f.borrow();
    match b.locals.iter().find(|x| x.0 == n && (x.1 || !imp)) { Some(x) => Some(x.2.clone()), None => b.up.as_ref().and_then(|u| f_get(u, n, imp)) }
}
struct Fences { shown: Vec<(String, String)>, errors: usize, taken: usize, steps: usize }
impl Fences {
    fn run(&mut self, f: &Fs, ss: &[F]) {
        let code = |b: bool| if b { "code_block" } else { "code" };
        for st in ss {
            self.steps += 1;
            if self.steps > 300 { return; }
            match st {
                F::Fence(t) => self.fence(f, "code", t),
                F::Block(t) => self.fence(f, "code_block", t),
                F::Let(imp, b, ss) => { let g = f_in(f); for (n, v) in b { g.borrow_mut().locals.push((n.clone(), *imp, Fv::Str(v.clone()))); } self.run(&g, ss); },
                F::Use(own, u, ss) => {
                    let g = if *own { f_in(f) } else { f.clone() };
                    g.borrow_mut().locals.push((code(u.block).into(), false, Fv::Code(u.clone())));
                    self.run(&g, ss);
                },
                F::Fn(n, _, b) => { let v = Fv::Fn(Rc::new(b.clone()), f.clone()); f.borrow_mut().locals.push((n.clone(), false, v)); },
                // the body is in the scope of the definition, and a parameter is not implicit there
                F::Call(n) => if let Some(Fv::Fn(b, g)) = f_get(f, n, false) { self.run(&f_in(&g), &b); },
            }
        }
    }
    fn fence(&mut self, f: &Fs, code: &str, t: &str) {
        let imp = |n: &str| match f_get(f, n, true) { Some(Fv::Str(v)) => Some(v), _ => None };
        let Some(Fv::Code(u)) = f_get(f, code, false) else {
            // the one of the standard library
            let l = imp("language");
            if l.is_some() { self.taken += 1; }
            self.shown.push((l.map_or("".into(), |l| format!("lang-{l}")), t.into()));
            return;
        };
        let mut show = vec![];
        for (n, p) in [("language", u.lang), ("k", u.k)] {
            show.push(match (p, imp(n)) {
                (Par::No, _) => String::new(),
                (Par::Default, _) => "d".into(),
                (Par::Need, None) => { self.errors += 1; return; },
                (_, Some(v)) => { self.taken += 1; v },
                (_, None) => String::new(),
            });
        }
        self.shown.push((format!("{}|{}", u.id, show.join("|")), t.into()));
    }
}
fn seen(nodes: &[Node], out: &mut Vec<(String, String)>) {
    for n in nodes {
        if let Node::El(name, attrs, kids) = n {
            let at = |k: &str| attrs.iter().find(|a| a.0 == k).and_then(|a| a.1.clone()).unwrap_or_default();
            let text = || text_of(kids).trim().to_string();
            if name == "code" { out.push((at("class").replace("syntax-highlight ", ""), text())); }
            else if matches!(&**name, "i" | "p") && at("title") != "" { out.push((at("title"), text())); }
            else { seen(kids, out); }
        }
    }
}
fn fences(s: &mut Src) -> CaseResult {
    let mut next = 0;
    let ss = fence_stmts(s, 3, &mut next, &mut vec![], None);
    let mut m = Fences {shown: vec![], errors: 0, taken: 0, steps: 0};
    m.run(&Rc::new(RefCell::new(FScope {locals: vec![], up: None})), &ss);
    if m.steps > 300 { return Ok(()); }
    let src = fence_src(s, &ss);
    s.note("program", src.clone());
    if m.taken > 0 { s.nontrivial(); }
    s.label(if m.errors > 0 { "fences with errors" } else { "fences" });
    s.tick();
    let o = compile(&src)?;
    let mut got = vec![];
    seen(&read_html(&o.html)?, &mut got);
    if got != m.shown { return Err(format!("the fences give\n{got:?}, expected\n{:?}\n{}\n{}", m.shown, o.html, o.printed)); }
    if o.errors as usize != m.errors { return Err(format!("{} errors are reported, expected {}\n{}", o.errors, m.errors, o.printed)); }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        subs: vec![
            Sub {name: "small", quick: 100_000, thorough: 5_000_000, run: small},
            Sub {name: "large", quick: 30_000, thorough: 1_500_000, run: large},
            Sub {name: "fences", quick: 30_000, thorough: 1_000_000, run: fences},
        ],
        fixed: vec![],
        rule: "a program in which a function is called and a name is used which has two bindings or more; fences: a program in which a code fence takes an implicit parameter",
        assumptions: &["a group or tag is not a scope of its own; the document, functions, branches, @let and @implicit are", "a function which is defined later in the same scope is visible to functions defined before, when they are called", "default values are evaluated once, where the function is defined"],
    }
}
