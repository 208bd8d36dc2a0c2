//! C18: programs can only write output files below the output directory.
use crate::engine::*;
use crate::lang::*;
use super::vals;
use papyri_lang::compiler::Context;
use papyri_lang::errors::ReportingLevel;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

/// The components of a path seen from a working directory, with nothing but
/// names in it: `..` takes the last one away, if there is one.
fn resolve(cwd: &[String], path: &str) -> Vec<String> {
    let mut r: Vec<String> = if path.starts_with('/') { vec![] } else { cwd.to_vec() };
    for c in path.split('/') {
        match c { "" | "." => {}, ".." => { r.pop(); }, c => r.push(c.to_string()) }
    }
    r
}
/// Whether the path, walked from the directory, never leaves it.
fn stays(path: &str) -> bool {
    if path.starts_with('/') { return false; }
    let mut depth = 0;
    for c in path.split('/') {
        match c { "" | "." => {}, ".." => { depth -= 1; if depth < 0 { return false; } }, _ => depth += 1 }
    }
    true
}
fn below(dir: &[String], p: &[String]) -> bool { p.len() > dir.len() && p.starts_with(dir) }

#[derive(PartialEq, Clone, Copy, Debug)]
enum Want { Accept, Reject, Either }

fn want(cwd: &[String], base: &str, path: &str) -> (Want, Vec<String>) {
    let b = resolve(cwd, base);
    let p = if path.starts_with('/') { resolve(&[], path) } else { resolve(&b, path) };
    // what has been walked out of the directory and back, or is given in
    // another form than the directory, may be refused
    let w = if !below(&b, &p) { Want::Reject }
        else if stays(path) || path.starts_with('/') && base.starts_with('/') { Want::Accept }
        else { Want::Either };
    (w, p)
}

const NAMES: &[&str] = &["a", "b.html", "out", "out2", "d", "é", "sp ace", "...", "..a", "x.papyri", "c:", "~", "-", "%2e%2e", "..\\x", "*", "outer"];

fn rel_path(s: &mut Src, ups: usize) -> String {
    let mut left = ups;
    let mut p: String = s.vec(1, 6, |s| match s.weighted(&[6, 3, 1, 1]) {
        1 if left > 0 => { left -= 1; "..".to_string() },
        1 | 0 => s.pick(NAMES).to_string(),
        2 => ".".into(),
        _ => String::new(),
    }).join("/");
    if s.chance(1, 15) { p.push('/'); }
    // an empty first part would make it absolute
    p.trim_start_matches('/').to_string()
}

/// Contents, and how they are rendered.
fn content(s: &mut Src, k: usize) -> (String, String) {
    match s.us(4) {
        0 => (format!("`c{k} x`"), format!("c{k} x")),
        1 => (format!("{{<p>c{k}</> <p>&lt;</>}}"), format!("<p>c{k}</p> <p>&lt;</p>")),
        2 => { let e = s.pick(&vals::ELEMS[..3]); (format!("{{c{k} {}}}", e.0), format!("c{k} {}", e.1)) },
        _ => (format!("{k}"), format!("{k}")),
    }
}
fn squash(s: &str) -> String { s.split_whitespace().collect() }

/// Where a call stands.
fn placed(s: &mut Src, call: &str, k: usize) -> String {
    match s.us(6) {
        0 | 1 => format!("{call}\n\n"),
        2 => format!("<div>{call} text</>\n\n"),
        3 => format!("@fn w{k}() $_c -> {call}\n@w{k}.\n\n"),
        4 => format!("@match 1 {{ 1 -> {call}, _ -> . }}\n\n"),
        _ => format!("@let(x={call}) {{ $x }}\n\n"),
    }
}
fn call(s: &mut Src, p: &str, c: &str) -> String {
    match s.us(4) {
        0 => format!("@let(f=@function::bind($file::write, {}).) {{@f(){c}}}", str_lit(p)),
        1 => format!("@let(p={}) {{@file::write($p) {c}}}", str_lit(p)),
        _ => format!("@file::write({}) {c}", str_lit(p)),
    }
}

/// Through the library; nothing is written.
fn library(s: &mut Src) -> CaseResult {
    let cwd: Vec<String> = ["v", "w", "x", "y"].map(String::from).to_vec();
    let base = match s.us(4) {
        0 => s.pick(&["out", "./out", "out/", "a/out", ".", "", "./", "..", "../out", "../../x/out", "a/../out", "out/.", "out/..", "/v/w/x/y/out", "/", "/srv/../out/"]).to_string(),
        1 => format!("/{}", rel_path(s, 2)),
        2 => "out".into(),
        _ => rel_path(s, 2),
    };
    let base_r = resolve(&cwd, &base);
    let n = 1 + s.us(4);
    let mut src = String::new();
    let mut expect: Vec<(Want, Vec<String>, String, String)> = vec![];
    let mut empty = false;
    for k in 0..n {
        let p = match s.us(6) {
            0 => format!("/{}", rel_path(s, 2)),
            1 => format!("/{}/{}", base_r.join("/"), rel_path(s, 3)),
            2 => format!("{}{}", "../".repeat(s.us(4)), rel_path(s, 0)),
            3 => s.pick(&["", ".", "..", "/", "./", "a/..", "a/../..", "../out/x", "../out2/x", "..", "x/../../out/y", "//x", "x//y"]).to_string(),
            _ => rel_path(s, 3),
        };
        let (w, r) = want(&cwd, &base, &p);
        // a file without any content, of which there is one so that it can be told
        let none = w != Want::Either && !empty && s.chance(1, 8);
        empty |= none;
        let (c, html) = if none { (s.pick(&[".", "{}", "@match . {$x -> $x}"]).to_string(), String::new()) } else { content(s, k) };
        let e = call(s, &p, &c);
        src += &placed(s, &e, k);
        s.label(match w { Want::Accept => "inside", Want::Reject => "outside", Want::Either => "out and back" });
        expect.push((w, r, html, p));
    }
    s.note("base", base.clone());
    s.note("program", src.clone());
    if expect.iter().any(|e| e.0 == Want::Reject) || n > 2 { s.nontrivial(); }
    s.tick();
    let (files, errors, printed) = guarded(|| -> Result<_, String> {
        let mut ctx = Context::new(ReportingLevel::Warning, Some(Path::new(&base)), None);
        ctx.compile_synthetic("<string>", &src);
        let files: Vec<_> = ctx.out_files.as_mut().ok_or("no collector")?.take_iter().collect();
        let files = files.into_iter().map(|(p, h)| Ok((p, render(&ctx, &h, true)?))).collect::<Result<Vec<_>, String>>()?;
        Ok((files, ctx.diagnostics.num_errors, format!("{:?}", ctx.diagnostics)))
    })??;
    let mut i = 0;
    let mut refused = 0;
    for (w, r, html, p) in &expect {
        let hit = files.get(i).filter(|f| squash(&f.1) == squash(html));
        match (w, hit) {
            (Want::Accept, None) => return Err(format!("{p:?} is not written\nfiles: {files:?}\n{printed}")),
            (Want::Reject, Some(f)) => return Err(format!("{p:?} is written to {:?}\n{printed}", f.0)),
            (_, Some(f)) => {
                let at = resolve(&cwd, &f.0.to_string_lossy());
                if at != *r { return Err(format!("{p:?} is written to {:?}, expected /{}", f.0, r.join("/"))); }
                if !below(&base_r, &at) { return Err(format!("{p:?} is written to {:?}", f.0)); }
                i += 1;
            },
            (_, None) => {
                refused += 1;
                let msg = format!("path \"{p}\" is not within output directory");
                if !printed.contains(&msg) { return Err(format!("no error for {p:?}\n{printed}")); }
            },
        }
    }
    if i != files.len() { return Err(format!("also written: {:?}", &files[i..])); }
    if errors != refused { return Err(format!("{errors} errors for {refused} refused paths\n{printed}")); }
    Ok(())
}

/// Without an output directory, and in modules.
fn refused(s: &mut Src) -> CaseResult {
    let root = scratch_dir();
    std::fs::create_dir_all(root.join("c18m")).unwrap();
    let dir = root.join("c18m");
    let with_base = s.coin();
    let p = s.pick(&["a.html", "d/b", "../x", "/x"]).to_string();
    let (c, _) = content(s, 0);
    let e = call(s, &p, &c);
    let bad = placed(s, &e, 0);
    let mut later = vec![];
    let (src, module) = if with_base {
        // written in a module, however it is loaded; the main file may still write afterwards
        let nested = s.coin();
        std::fs::write(dir.join("m.papyri"), &bad).unwrap();
        std::fs::write(dir.join("n.papyri"), "@include `m` text").unwrap();
        let m = if nested { "n" } else { "m" };
        let load = match s.us(4) {
            0 => format!("@include `{m}`\n\n"),
            1 => format!("@import `{m}`\n\n"),
            2 => format!("@include `{m}`\n\n@include `m`\n\n@include `n`\n\n"),
            _ => format!("@fn f() $_c -> @import `{m}`\n@f.\n\n"),
        };
        let mut src = String::new();
        for k in 1..3 {
            if s.coin() { later.push(format!("ok{k}.html")); src += &format!("@file::write(`ok{k}.html`) `{k}`\n\n"); }
            if k == 1 { src += &load; }
        }
        (src, true)
    } else { (bad.clone(), false) };
    s.note("program", src.clone());
    s.note("module", if module { bad } else { String::new() });
    s.nontrivial(); s.tick();
    std::fs::write(dir.join("main.papyri"), &src).unwrap();
    let (files, errors, printed) = guarded(|| -> Result<_, String> {
        let mut ctx = Context::new(ReportingLevel::Warning, if with_base { Some(Path::new("out")) } else { None }, None);
        ctx.load_uncached(&dir.join("main.papyri")).map_err(|_| "cannot be read".to_string())?;
        let files: Option<Vec<PathBuf>> = ctx.out_files.as_mut().map(|o| o.take_iter().map(|f| f.0).collect());
        Ok((files, ctx.diagnostics.num_errors, format!("{:?}", ctx.diagnostics)))
    })??;
    if files.is_some() != with_base { return Err("the collector of output files is gone".into()); }
    let got: Vec<String> = files.unwrap_or_default().iter().map(|p| p.display().to_string()).collect();
    let want: Vec<String> = later.iter().map(|p| format!("out/{p}")).collect();
    if got != want { return Err(format!("{got:?} are written, expected {want:?}\n{printed}")); }
    if errors != 1 { return Err(format!("{errors} errors, expected one\n{printed}")); }
    Ok(())
}

pub fn tree(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    let mut r = BTreeMap::new();
    fn go(root: &Path, d: &Path, r: &mut BTreeMap<String, Vec<u8>>) {
        let Ok(rd) = std::fs::read_dir(d) else { return; };
        for e in rd.flatten() {
            let p = e.path();
            let k = p.strip_prefix(root).unwrap().to_string_lossy().into_owned();
            let t = e.file_type().unwrap();
            if t.is_dir() { go(root, &p, r); } else if t.is_file() { r.insert(k, std::fs::read(&p).unwrap_or_default()); } else { r.insert(k, b"(link)".to_vec()); }
        }
    }
    go(dir, dir, &mut r);
    r
}

pub fn papyri(cwd: &Path, args: &[String], stdin: Option<&[u8]>) -> Result<(i32, String, String), String> {
    papyri_to(cwd, args, stdin, None)
}

/// With its output going to the given file, if there is one.
pub fn papyri_to(cwd: &Path, args: &[String], stdin: Option<&[u8]>, stdout: Option<&Path>) -> Result<(i32, String, String), String> {
    use std::io::Write;
    let bin = std::env::var("PBT_PAPYRI").expect("PBT_PAPYRI");
    let outs = cwd.parent().unwrap();
    let (so, se, si) = (outs.join(".stdout"), outs.join(".stderr"), outs.join(".stdin"));
    let mut cmd = Command::new(bin);
    cmd.args(args).current_dir(cwd).env_clear().stdout(std::fs::File::create(stdout.unwrap_or(&so)).unwrap()).stderr(std::fs::File::create(&se).unwrap());
    match stdin {
        Some(b) => { std::fs::File::create(&si).unwrap().write_all(b).unwrap(); cmd.stdin(std::fs::File::open(&si).unwrap()); },
        None => { cmd.stdin(Stdio::null()); },
    }
    let r = run_limited(&mut cmd, 60);
    let read = |p: &Path| String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default()).into_owned();
    let (o, e) = (if stdout.is_some() { String::new() } else { read(&so) }, read(&se));
    match r {
        None => Err("the command does not end".into()),
        Some((Some(c), _)) if e.contains("panicked at") => Err(format!("the command crashes (exit status {c}): {e}")),
        Some((Some(c), _)) => Ok((c, o, e)),
        Some((None, sig)) => Err(format!("the command is killed by signal {sig}: {e}")),
    }
}

/// Through the command, which writes the files. Every path which leaves the
/// output directory stays below the scratch directory all the same.
fn command(s: &mut Src) -> CaseResult {
    let root = scratch_dir().join("c18");
    let _ = std::fs::remove_dir_all(&root);
    let top = root.join("1/2/3/4/5/6");
    let cwd = top.join("w");
    std::fs::create_dir_all(&cwd).unwrap();
    let comps = |p: &Path| resolve(&[], &p.to_string_lossy());
    let cwd_c = comps(&cwd);
    let base = s.pick(&["out", "./out", "out/", "a/out", ".", "../out", "../w/out", "ABS/out", "ABS"]).replace("ABS", &cwd.to_string_lossy());
    let n = 1 + s.us(3);
    let mut src = String::new();
    let mut expect: BTreeMap<Vec<String>, String> = BTreeMap::new();
    let mut errs = 0;
    let mut unsure = false;
    for k in 0..n {
        let p = match s.us(5) {
            0 => format!("{}/{}", cwd.display(), rel_path(s, 3)),
            1 => format!("{}/{}", if s.coin() { top.join("out").display().to_string() } else { cwd.join("out").display().to_string() }, rel_path(s, 3)),
            2 => format!("{}{}", "../".repeat(s.us(4)), rel_path(s, 0)),
            _ => rel_path(s, 3),
        };
        let (w, r) = want(&cwd_c, &base, &p);
        // names which would stand in the way of each other
        if w != Want::Reject && (expect.keys().any(|e| e.starts_with(&r) || r.starts_with(e)) || r.last().map_or(false, |l| l.starts_with("main")) || r.len() > cwd_c.len() && r == comps(&cwd.join("main.papyri"))) { continue; }
        let (c, html) = if s.chance(1, 8) { (".".to_string(), String::new()) } else { content(s, k) };
        let e = call(s, &p, &c);
        src += &format!("{e}\n\n");
        match w { Want::Accept => { expect.insert(r, html); }, Want::Reject => errs += 1, Want::Either => unsure = true }
        s.label(match w { Want::Accept => "inside", Want::Reject => "outside", Want::Either => "out and back" });
    }
    if s.coin() { src += "The end.\n"; let o = resolve(&cwd_c, &format!("{base}/main.html")); expect.insert(o, "<p>The end.</p>".into()); }
    s.note("out", base.clone());
    s.note("program", src.replace(&*root.to_string_lossy(), "ROOT"));
    std::fs::write(cwd.join("main.papyri"), &src).unwrap();
    if expect.len() > 1 || errs > 0 { s.nontrivial(); }
    s.tick();
    let (code, out, err) = papyri(&cwd, &["--out".into(), base.clone(), "main.papyri".into()], None)?;
    let files = tree(&root);
    let failed = code != 0;
    let say = || format!("exit status {code}\n{out}{err}");
    if errs > 0 && !failed { return Err(format!("no failure although a path leaves the output directory\n{}", say())); }
    if errs == 0 && !unsure && failed { return Err(format!("failed although all paths are within the output directory\n{}", say())); }
    let base_c = resolve(&cwd_c, &base);
    let root_c = comps(&root);
    let mut got: BTreeMap<Vec<String>, String> = BTreeMap::new();
    for (f, b) in files {
        let mut p = root_c.clone();
        p.extend(resolve(&[], &f));
        if p == comps(&cwd.join("main.papyri")) || f.ends_with("/.stdout") || f.ends_with("/.stderr") { continue; }
        if !below(&base_c, &p) { return Err(format!("{f} is outside of the output directory\n{}", say())); }
        got.insert(p, String::from_utf8_lossy(&b).into_owned());
    }
    if failed {
        if !got.is_empty() { return Err(format!("{:?} are written although the file failed\n{}", got.keys(), say())); }
    } else if !unsure {
        if got.len() != expect.len() { return Err(format!("written are {:?}, expected {:?}\n{}", got.keys(), expect.keys(), say())); }
    }
    if !failed {
        for (k, v) in &expect {
            match got.get(k) {
                Some(g) if squash(g) == squash(v) => {},
                g => return Err(format!("{k:?} is {g:?}, expected {v:?}\n{}", say())),
            }
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        subs: vec![
            Sub {name: "library", quick: 40_000, thorough: 2_000_000, run: library},
            Sub {name: "refused", quick: 6_000, thorough: 200_000, run: refused},
            Sub {name: "command", quick: 4_000, thorough: 100_000, run: command},
        ],
        fixed: vec![],
        rule: "programs with a path which leaves the directory, or writing several files; writes where none is allowed",
        assumptions: &["paths are compared by their names: symbolic links, which no program can create, are not considered", "a path which leaves the directory and comes back may be accepted or refused"],
    }
}
