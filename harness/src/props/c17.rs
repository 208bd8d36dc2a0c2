//! C17: imports deliver exactly a module's exports; cycles and failures are reported.
use crate::engine::*;
use crate::lang::*;
use super::vals;
use std::collections::{BTreeMap, HashMap};
use std::path::Path;

/// Where modules are; the scratch directory holds them all. `lnk` is a link to `d`.
const DIRS: &[&str] = &["", "d/", "d/e/", "f/", "f.papyri/", "d/x.papyri.d/"];

#[derive(Clone, Debug)]
enum St {
    /// A paragraph.
    Text(String),
    /// `@export(name=value).`
    Export(String, V, String),
    /// `@export @let(name=value) { paragraph }`: exported, and visible inside.
    ExportLet(String, V, String),
    /// Exports the dict of another module under the name.
    Import(String, usize, String),
    /// Imports, and exports one name of the module.
    Pick(String, usize, String, String),
    Include(usize, String),
    /// Exports the value of a variable which an inclusion may have bound.
    Var(String, String),
    /// `@export @fn name() -> @import path`, evaluated where it is called.
    Func(String, usize, String),
    /// Calls a function of that name, exported by the module.
    CallFunc(String, usize, String, String),
    /// `@nope`
    Wrong,
    /// A warning.
    Warn,
}

/// Values, with functions by the target of the import they perform.
#[derive(Clone, Debug)]
enum W { V(V), Dict(Vec<(String, W)>), F(usize, String) }

#[derive(Clone, Debug, PartialEq)]
enum State { Busy, Failed, Loaded }

#[derive(Clone, Default, Debug)]
struct Loaded { out: String, exports: Vec<(String, W)> }

struct Model<'a> {
    mods: &'a [Option<Vec<St>>],
    state: HashMap<usize, State>,
    results: HashMap<usize, Loaded>,
    evaluated: usize,
    errors: BTreeMap<&'static str, u32>,
    warnings: u32,
}

impl<'a> Model<'a> {
    fn err(&mut self, k: &'static str) { *self.errors.entry(k).or_insert(0) += 1; }

    /// An import of the module.
    fn load(&mut self, m: usize) -> Option<Loaded> {
        match self.state.get(&m) {
            Some(State::Loaded) => return Some(self.results[&m].clone()),
            Some(State::Busy) => { self.err("circular import"); return None; },
            Some(State::Failed) => { self.err("previous error"); return None; },
            None => {},
        }
        let Some(sts) = &self.mods[m] else {
            // a file which is not text; or, from the second time, it is known to be wrong
            self.err("stream did not contain valid UTF-8");
            self.state.insert(m, State::Failed);
            return None;
        };
        self.state.insert(m, State::Busy);
        let r = self.run(sts);
        self.state.insert(m, State::Loaded);
        self.results.insert(m, r.clone());
        Some(r)
    }
    fn export(&mut self, r: &mut Loaded, n: &str, v: W) {
        match r.exports.iter_mut().find(|x| x.0 == n) {
            Some(x) => { x.1 = v; self.warnings += 1; },
            None => r.exports.push((n.to_string(), v)),
        }
    }
    fn run(&mut self, sts: &[St]) -> Loaded {
        self.evaluated += 1;
        let mut r = Loaded::default();
        let mut vars: HashMap<String, W> = HashMap::new();
        let mut bind = |me: &mut Model, vars: &mut HashMap<String, W>, n: &str, v: W| { if vars.insert(n.to_string(), v).is_some() { me.warnings += 1; } };
        for st in sts {
            match st {
                St::Text(t) => r.out += &format!("<p>{t}</p>"),
                St::Export(n, v, _) => self.export(&mut r, n, W::V(v.clone())),
                St::ExportLet(n, v, _) => self.export(&mut r, n, W::V(v.clone())),
                St::Import(n, m, _) => if let Some(l) = self.load(*m) { self.export(&mut r, n, W::Dict(l.exports)); },
                St::Pick(n, m, k, _) => if let Some(l) = self.load(*m) {
                    match l.exports.iter().find(|x| x.0 == *k) { Some(x) => { let v = x.1.clone(); self.export(&mut r, n, v); }, None => self.err("has no such attribute") }
                },
                St::Include(m, _) => if let Some(l) = self.load(*m) {
                    for (k, v) in l.exports { bind(self, &mut vars, &k, v); }
                    r.out += &l.out;
                },
                St::Var(n, k) => match vars.get(k).cloned() { Some(v) => self.export(&mut r, n, v), None => self.err("no such variable") },
                St::Func(n, m, p) => { let f = W::F(*m, p.clone()); self.export(&mut r, n, f.clone()); bind(self, &mut vars, n, f); },
                St::CallFunc(n, m, k, _) => if let Some(l) = self.load(*m) {
                    match l.exports.iter().find(|x| x.0 == *k) {
                        None => self.err("has no such attribute"),
                        Some((_, W::F(t, _))) => { let t = *t; if let Some(l) = self.load(t) { self.export(&mut r, n, W::Dict(l.exports)); } },
                        Some(_) => self.err("expected function"),
                    }
                },
                St::Wrong => self.err("no such variable 'nope'"),
                St::Warn => self.warnings += 1,
            }
        }
        r
    }
}

fn to_w(v: &W) -> V {
    match v { W::V(v) => v.clone(), W::F(..) => V::Func, W::Dict(d) => V::Dict(d.iter().map(|(k, v)| (k.clone(), to_w(v))).collect()) }
}
fn eq(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Func, V::Func) => true,
        (V::Dict(a), V::Dict(b)) => a.len() == b.len() && a.iter().all(|(k, v)| b.iter().any(|(k2, v2)| k == k2 && eq(v, v2))),
        (a, b) => vals::equal(a, b),
    }
}

/// A path from a file in one directory to a module, in one of its many forms.
fn path(s: &mut Src, from: &str, dir: &str, name: &str, root: &Path) -> String {
    let ups = "../".repeat(from.matches('/').count());
    let mut d = dir.to_string();
    if d.starts_with("d/") && s.chance(1, 5) { d = d.replacen("d/", "lnk/", 1); }
    let mut p = match s.us(5) {
        0 if from == dir => name.to_string(),
        1 if dir.starts_with(from) && from != "" => format!("{}{name}", &dir[from.len()..]),
        2 => format!("./{ups}{d}{name}"),
        3 => format!("{ups}f/../{d}./{name}"),
        4 if s.coin() => format!("{}/{d}{name}", root.display()),
        _ => format!("{ups}{d}{name}"),
    };
    // a name which ends like the suffix has to be written with its own
    if name.ends_with(".papyri") || s.chance(1, 3) { p += ".papyri"; }
    p
}

fn graph(s: &mut Src) -> CaseResult {
    let root = scratch_dir();
    for d in DIRS { std::fs::create_dir_all(root.join(d)).unwrap(); }
    if !root.join("lnk").exists() { std::os::unix::fs::symlink("d", root.join("lnk")).unwrap(); }
    let n = 1 + s.us(5);
    let dirs: Vec<&str> = (0..=n).map(|i| if s.chance(1, 8) { DIRS[4 + s.us(2)] } else { let _ = i; DIRS[s.us(4)] }).collect();
    let stems: Vec<String> = (0..=n).map(|i| match s.us(24) { 0 => format!("m{i}.PAPYRI"), 1 => format!("m{i}.papyri"), 2 => format!("m{i}.Papyri"), 3 => format!("m {i}"), 4 => format!("é{i}.x"), 5 => format!("{i}papyri"), 6 => format!(".m{i}"), _ => format!("m{i}") }).collect();
    let fname = |i: usize| stems[i].clone();
    // cycles are possible in some of the graphs only
    let cyclic = s.chance(1, 3);
    let failing = s.chance(1, 4);
    let mut mods: Vec<Option<Vec<St>>> = vec![];
    for i in 0..=n {
        if failing && i < n && s.chance(1, 8) { mods.push(None); continue; }
        let main = i == n;
        let from = dirs[i];
        let mut k = 0;
        let sts = s.vec(1, if main { 8 } else { 5 }, |s| {
            k += 1;
            // names differ, so that every export is known by its name
            let name = format!("v{i}_{k}");
            let other = if s.chance(1, 30) { format!("v{i}_1") } else { name };
            let name = other;
            let to = if cyclic { s.us(n + 1) } else if i == 0 { usize::MAX } else { s.us(i) };
            let (imports, fails) = (if to == usize::MAX { 0 } else if main { 6 } else { 2 }, if failing { 1 } else { 0 });
            let p = if to == usize::MAX { String::new() } else { path(s, from, dirs[to], &fname(to), &root) };
            let some = |s: &mut Src, m: usize| format!("v{m}_{}", 1 + s.us(4));
            match s.weighted(&[3, 3, 2, imports, imports, imports, if to == usize::MAX { 0 } else { fails + 1 }, imports / 2 + 1, imports / 2, fails, 1]) {
                0 => St::Text(format!("t{i}x{k}")),
                1 => { let v = vals::value(s, 1); let e = vals::src(s, &v); St::Export(name, v, e) },
                2 => { let v = vals::scalar(s); let e = vals::src(s, &v); St::ExportLet(name, v, e) },
                3 => St::Import(name, to, p),
                4 => St::Pick(name, to, some(s, to), p),
                5 => St::Include(to, p),
                6 => St::Var(name, some(s, to)),
                7 if to != usize::MAX => St::Func(name, to, p),
                8 => St::CallFunc(name, to, some(s, to), p),
                9 => St::Wrong,
                _ => St::Warn,
            }
        });
        mods.push(Some(sts));
    }
    let mut note = String::new();
    for (i, m) in mods.iter().enumerate() {
        let file = root.join(format!("{}{}.papyri", dirs[i], fname(i)));
        let Some(sts) = m else { note += &format!("--- {}{}: not text\n", dirs[i], fname(i)); std::fs::write(file, b"x \xff\n").unwrap(); continue; };
        let t: String = sts.iter().map(|st| match st {
            St::Text(t) => format!("{t}\n\n"),
            St::Export(n, _, e) => format!("@export({n}={e}).\n\n"),
            St::ExportLet(n, _, e) => format!("@export @let({n}={e}) {{ @match ${n} {{_ -> .}} }}\n\n"),
            St::Import(n, _, p) => format!("@export({n}=@import `{p}`).\n\n"),
            St::Pick(n, _, k, p) => format!("@let(d=@import `{p}`) {{@export({n}=$d::{k}).}}\n\n"),
            St::Include(_, p) => format!("@include `{p}`\n\n"),
            St::Var(n, k) => format!("@export({n}=${k}).\n\n"),
            St::Func(n, _, p) => format!("@export @fn {n} . -> @import `{p}`\n\n"),
            St::CallFunc(n, _, k, p) => format!("@let(d=@import `{p}`) {{@export({n}=@d::{k}.).}}\n\n"),
            St::Wrong => "@match $nope {_ -> .}\n\n".into(),
            St::Warn => "@match [1, 2] {[$a, $a] -> .}\n\n".into(),
        }).collect();
        note += &format!("--- {}{}:\n{t}", dirs[i], fname(i));
        std::fs::write(file, t).unwrap();
    }
    s.note("modules", note.replace(&root.display().to_string(), "ROOT"));
    let mut model = Model {mods: &mods, state: HashMap::new(), results: HashMap::new(), evaluated: 0, errors: BTreeMap::new(), warnings: 0};
    let main = mods[n].as_ref().unwrap();
    let want = model.run(main);
    // a program which loads itself and others without end cannot be
    if model.evaluated > 2 { s.nontrivial(); }
    let total: u32 = model.errors.values().sum();
    s.label(if total == 0 { "no errors" } else if model.errors.contains_key("circular import") { "cycle" } else { "other errors" });
    s.tick();
    let file = root.join(format!("{}{}.papyri", dirs[n], fname(n)));
    let (html, vals, errs, warns, printed) = guarded(|| -> Result<_, String> {
        let mut ctx = new_ctx();
        let r = ctx.load_uncached(&file).map_err(|_| "cannot be read".to_string())?;
        let (e, w, p) = (ctx.diagnostics.num_errors, ctx.diagnostics.num_warnings, format!("{:?}", ctx.diagnostics));
        let mut names: Vec<String> = vals::keys();
        for i in 0..=n { for k in 1..=10 { names.push(format!("v{i}_{k}")); } }
        let names = Names::learn(&mut ctx, &names)?;
        let vals = r.exports.iter().map(|(&k, v)| Ok((names.get(k), to_v(&ctx, &names, v)?))).collect::<Result<Vec<_>, String>>()?;
        Ok((render(&ctx, &r.out, true)?, vals, e, w, p))
    })??;
    if errs != total { return Err(format!("{errs} errors, expected {:?}\n{printed}", model.errors)); }
    for (k, c) in &model.errors {
        let got = printed.matches(k).count() as u32;
        if got < *c { return Err(format!("{got} errors of the kind {k:?}, expected {c}\n{printed}")); }
    }
    if warns != model.warnings { return Err(format!("{warns} warnings, expected {}\n{printed}", model.warnings)); }
    let got = V::Dict(vals);
    let exp = to_w(&W::Dict(want.exports));
    if !eq(&got, &exp) { return Err(format!("the exports are\n{got:?}, expected\n{exp:?}\n{printed}")); }
    let html: String = html.split_whitespace().collect::<Vec<_>>().concat();
    if html != want.out { return Err(format!("the output is\n{html:?}, expected\n{:?}\n{printed}", want.out)); }
    Ok(())
}

/// Imports which cannot succeed, in every place an expression may stand.
fn missing(s: &mut Src) -> CaseResult {
    let root = scratch_dir();
    let _ = std::fs::create_dir_all(root.join("dir.papyri"));
    std::fs::write(root.join("good.papyri"), "text @export(a=1).\n").unwrap();
    std::fs::write(root.join("bin.papyri"), b"\xc3\x28").unwrap();
    let func = *s.pick(&["import", "include"]);
    let bad = s.pick(&["nothing", "dir", "bin", "good/x", "no/good", "../t/nothing", "", ".", "good.papyri.papyri", "GOOD", " good", "good ", "no\0pe"]).to_string();
    let e = format!("@{func} {}", str_lit(&bad));
    let src = match s.us(7) {
        0 => e.clone(),
        1 => format!("@export(x={e})."),
        2 => format!("@let(x={e}) $x"),
        3 => format!("@match {e} {{_ -> fine}}"),
        4 => format!("@fn f() $_c -> {e}\n@f."),
        5 => format!("@export(x=[{e}])."),
        _ => format!("<p>{e} text</>"),
    };
    let twice = s.coin();
    let src = if twice { format!("{src}\n\n{e}") } else { src };
    let src = format!("@include `good` {src}\n");
    s.note("program", src.clone());
    std::fs::write(root.join("main.papyri"), &src).unwrap();
    s.nontrivial(); s.tick();
    let errs = guarded(|| { let mut ctx = new_ctx(); let _ = ctx.load_uncached(&root.join("main.papyri")); ctx.diagnostics.num_errors })?;
    if errs < if twice { 2 } else { 1 } { return Err(format!("{errs} errors are reported")); }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        subs: vec![
            Sub {name: "graphs", quick: 60_000, thorough: 1_500_000, run: graph},
            Sub {name: "failures", quick: 2_500, thorough: 60_000, run: missing},
        ],
        fixed: vec![],
        rule: "graphs in which at least three files are evaluated; failing imports",
        assumptions: &["the file system does not change during a compilation"],
    }
}
