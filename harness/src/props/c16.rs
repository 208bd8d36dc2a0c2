//! C16: compilation is deterministic and independent of earlier compilations.
use crate::engine::*;
use crate::lang::*;
use super::{exprs, gen, progs};
use papyri_lang::compiler::Context;
use papyri_lang::errors::ReportingLevel;
use std::path::{Path, PathBuf};

/// Everything one compilation shows.
#[derive(Clone, PartialEq, Eq, Debug)]
struct Seen { out: Out, files: Vec<(PathBuf, String)>, exports: Vec<String> }

fn ctx(level: ReportingLevel) -> Context { Context::new(level, Some(Path::new("out")), None) }

fn compile_with(ctx: &mut Context, job: &Job) -> Result<Seen, String> {
    let r = match job {
        Job::File(p) => ctx.load_uncached(p).map_err(|_| "cannot be read".to_string())?,
        Job::Text(t) => ctx.compile_synthetic("<job>", t),
    };
    let out = Out {
        html: render(ctx, &r.out, true)?, text: render(ctx, &r.out, false)?,
        errors: ctx.diagnostics.num_errors, warnings: ctx.diagnostics.num_warnings,
        printed: format!("{:?}\n{}", ctx.diagnostics, ctx.diagnostics.summary()),
    };
    let files: Vec<_> = ctx.out_files.as_mut().ok_or("the output files collector is gone")?.take_iter().collect();
    let files = files.into_iter().map(|(p, h)| Ok((p, render(ctx, &h, true)?))).collect::<Result<Vec<_>, String>>()?;
    let none = Names::learn(ctx, &[])?;
    let exports = r.exports.iter().map(|(_, v)| Ok(match to_v(ctx, &none, v)? {
        // the names of keys are private
        V::Dict(d) => format!("{:?}", d.iter().map(|x| &x.1).map(shape).collect::<Vec<_>>()),
        v => shape(&v),
    })).collect::<Result<Vec<_>, String>>()?;
    Ok(Seen {out, files, exports})
}
/// The value without the identity of dict keys.
fn shape(v: &V) -> String {
    match v {
        V::List(l) => format!("{:?}", l.iter().map(shape).collect::<Vec<_>>()),
        V::Dict(d) => format!("dict{:?}", d.iter().map(|x| shape(&x.1)).collect::<Vec<_>>()),
        v => format!("{v:?}"),
    }
}

#[derive(Clone, Debug)]
enum Job { File(PathBuf), Text(String) }

/// A statement which leaves something behind, or shows what was left.
fn stmt(s: &mut Src, modules: &[&str]) -> String {
    let n = *s.pick(&["x", "y", "foo", "id"]);
    let m = if modules.is_empty() { "m0".to_string() } else { s.pick(modules).to_string() };
    match s.weighted(&[3, 3, 3, 2, 2, 4, 2, 2, 4, 5, 5, 3, 2, 1, 2]) {
        0 => format!("@export({n}={}).", s.range(0, 9)),
        1 => format!("@export @let({n}={}) {{ @export(in_{n}=[$x]). }}", s.range(0, 9)),
        2 => format!("@export @fn {n}($_a=1, $b=2) . -> {{ $_a $b }}"),
        3 => format!("${n} "),
        4 => format!("@{n}."),
        5 => format!("@str::unique_id `{}`", s.pick(&["a", "x y", "a_2", "foo"])),
        6 => format!("@implicit(language=`papyri`) {{ `@b.` @code `1 + 1` }}"),
        7 => format!("@code_block(language=`{}`) `x = 1`", s.pick(&["python", "papyri", "nope"])),
        8 => format!("@file::write(`{}`) <p>{}</p>", s.pick(&["a.html", "d/b.html", "../c.html", "/x"]), s.pick(&["one", "two"])),
        9 if !modules.is_empty() => format!("@include `{m}`"),
        10 if !modules.is_empty() => format!("@let(m=@import `{m}`) {{ $m @match $m {{ (x=$v, **_) -> $v, _ -> none }} }}"),
        11 => format!("@let({n}={}, {n}={}) ${n}", s.range(0, 9), s.range(0, 9)),
        12 => "@footnote {note}".to_string(),
        13 => s.pick(&["{", "@raise `r`", "<b>", "@int::add(1) 9223372036854775807", "\\x4", "'quote"]).to_string(),
        _ => s.pick(&["text -- (c) 'a' \"b\"", "<b>bold</> ...", "é 漢", "[1, `a`, True, .]", "<span style=\"a\" class=b>t</>"]).to_string(),
    }
}
fn body(s: &mut Src, modules: &[&str]) -> String {
    s.vec(1, 5, |s| { let t = stmt(s, modules); format!("{t}{}", s.pick(&["\n\n", " ", "\n"])) }).concat()
}

const MODULES: &[&str] = &["m0", "m1", "sub/m2", "m3"];

fn write_modules(s: &mut Src, dir: &Path) -> String {
    std::fs::create_dir_all(dir.join("sub")).unwrap();
    let mut note = String::new();
    for (i, m) in MODULES.iter().enumerate() {
        // now and then a module does not exist, imports others or itself
        let p = dir.join(format!("{m}.papyri"));
        if s.chance(1, 12) { let _ = std::fs::remove_file(&p); note += &format!("{m}: missing\n"); continue; }
        let known: Vec<&str> = if i == 2 { vec!["../m0", "../m1", "m2"] } else { MODULES[..=i].to_vec() };
        let alone = s.coin();
        let t = body(s, if alone { &[] } else { &known });
        note += &format!("{m}: {t:?}\n");
        std::fs::write(p, t).unwrap();
    }
    note
}

fn same(what: &str, a: &Seen, b: &Seen) -> CaseResult {
    if a == b { return Ok(()); }
    let show = |x: &Seen| format!("html: {:?}\ntext: {:?}\nfiles: {:?}\nexports: {:?}\n{}", x.out.html, x.out.text, x.files, x.exports, x.out.printed);
    Err(format!("{what} gives\n{}\nbut a fresh context gives\n{}", show(b), show(a)))
}

fn text_jobs(s: &mut Src) -> CaseResult {
    let jobs: Vec<Job> = s.vec(2, 5, |s| Job::Text(match s.weighted(&[4, 2, 2, 1, 4]) {
        0 => body(s, &[]),
        4 => exprs::program(s),
        1 => progs::plain(&progs::program(s)),
        2 => gen::mutated(s),
        _ => gen::soup(s, 8),
    }));
    run(s, &jobs, &mut |_, _| false)
}

fn file_jobs(s: &mut Src) -> CaseResult {
    let dir = scratch_dir();
    let note = write_modules(s, &dir);
    s.note("modules", note);
    let n = 2 + s.us(3);
    let mut jobs = vec![];
    for i in 0..n {
        if s.chance(1, 8) { jobs.push(Job::File(dir.join("m1.papyri"))); continue; }
        let t = body(s, MODULES);
        s.note(["main 0", "main 1", "main 2", "main 3"][i], t.clone());
        let p = dir.join(format!("main{i}.papyri"));
        std::fs::write(&p, t).unwrap();
        jobs.push(Job::File(p));
    }
    run(s, &jobs, &mut |s, _| {
        // the modules may change between compilations
        if s.chance(1, 6) { let n = write_modules(s, &dir); s.note("modules later", n); }
        true
    })
}

fn run(s: &mut Src, jobs: &[Job], before: &mut dyn FnMut(&mut Src, usize) -> bool) -> CaseResult {
    if !matches!(jobs[0], Job::File(_)) { s.note("jobs", format!("{jobs:#?}")); }
    // what is reported is up to whoever compiles
    let level = match s.weighted(&[4, 2, 2, 2]) { 0 => ReportingLevel::Warning, 1 => ReportingLevel::All, 2 => ReportingLevel::Error, _ => ReportingLevel::IgnoreAll };
    s.note("reported", match level { ReportingLevel::Warning => "warnings and errors", ReportingLevel::All => "all", ReportingLevel::Error => "errors", ReportingLevel::IgnoreAll => "nothing" }.to_string());
    let mut reused = ctx(level);
    let mut outputs = 0;
    for (i, j) in jobs.iter().enumerate() {
        if i > 0 { before(s, i); }
        // a crash is the business of C01
        let Ok(fresh) = guarded(|| compile_with(&mut ctx(level), j)) else { return Ok(()); };
        let Ok(fresh) = fresh else { return Ok(()); };
        s.tick();
        if i == 0 || s.chance(1, 4) {
            let again = guarded(|| compile_with(&mut ctx(level), j))??;
            same(&format!("compiling job {i} once more in a fresh context"), &fresh, &again)?;
        }
        let later = guarded(|| { if i > 0 { reused.reset(); } compile_with(&mut reused, j) })??;
        same(&format!("compiling job {i} after others"), &fresh, &later)?;
        if !fresh.out.html.is_empty() || !fresh.out.printed.is_empty() { outputs += 1; }
        if i > 0 { s.label(if fresh.out.errors > 0 { "later job with errors" } else { "later job without errors" }); }
    }
    if outputs >= 2 { s.nontrivial(); }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        subs: vec![
            Sub {name: "sources", quick: 20_000, thorough: 400_000, run: text_jobs},
            Sub {name: "files", quick: 12_000, thorough: 400_000, run: file_jobs},
        ],
        fixed: vec![],
        rule: "histories of at least two compilations which give output or diagnostics",
        assumptions: &["the identity of interned names, which no program can see, may differ between contexts"],
    }
}
