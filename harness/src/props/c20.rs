//! C20: source discovery finds exactly the source files, in a stable order.
use crate::engine::*;
use crate::lang::*;
use super::c18;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::ffi::OsString;
use std::path::{Path, PathBuf};

const STEMS: &[&str] = &["a", "b", "A", "index", "é", "a b", "a.b", "x.lib", "_u", "..", "...", "老", "a-b", "a!", "9", "papyri", "~", "a\n", "a\\b", "\"q\""];
const EXTS: &[&str] = &[".papyri", ".papyri", ".papyri", ".PAPYRI", ".Papyri", ".papyri.bak", ".html", ".papyr", "papyri", ".papyri ", ".papyris", ".txt"];
const DIRS: &[&str] = &["d", "d.papyri", ".hidden", "é", "a", "a b", "A", "B.PAPYRI", "node_modules", "x.lib"];

/// Whether it is the name of a source file: it has a stem, and the extension
/// in any case.
fn is_source(name: &[u8]) -> bool {
    name.len() > 7 && name[name.len() - 7..].eq_ignore_ascii_case(b".papyri")
}

struct Tree { links: bool, sources: Vec<PathBuf>, others: usize, note: String, odd: bool }

fn make(s: &mut Src, root: &Path, odd_ok: bool, links: bool) -> Tree {
    let mut t = Tree {links, sources: vec![], others: 0, note: String::new(), odd: false};
    fill(s, root, Path::new(""), 3, &mut t, odd_ok);
    // now and then a deep one
    if s.chance(1, 10) {
        let mut r = PathBuf::from("deep");
        for _ in 0..s.us(40) {
            std::fs::create_dir_all(root.join(&r)).unwrap();
            t.others += 1;
            if s.chance(1, 4) { let n = r.join("z.papyri"); std::fs::write(root.join(&n), "x\n").unwrap(); t.note += &format!("{n:?}\n"); t.sources.push(n); }
            r.push(*s.pick(&["d", "e.papyri", "z"]));
        }
        if !root.join(&r).exists() { std::fs::create_dir_all(root.join(&r)).unwrap(); }
        let n = r.join("last.papyri");
        std::fs::write(root.join(&n), "x\n").unwrap();
        t.note += &format!("{n:?}\n");
        t.sources.push(n);
    }
    t
}
fn fill(s: &mut Src, root: &Path, rel: &Path, depth: u32, t: &mut Tree, odd_ok: bool) {
    let entries = s.vec(0, if depth == 3 { 7 } else { 4 }, |s| {
        let kind = s.weighted(&[10, if depth > 0 { 5 } else { 0 }, if t.links { 2 } else { 0 }]);
        let name = if kind == 1 { OsString::from(*s.pick(DIRS)) } else {
            let mut n = Vec::from(s.pick(STEMS).as_bytes());
            if odd_ok && s.chance(1, 25) { n.push(0xff); }
            n.extend(s.pick(EXTS).as_bytes());
            if s.chance(1, 20) { n = b".papyri".to_vec(); }
            OsString::from_vec(n)
        };
        (kind, name, s.us(5))
    });
    for (kind, name, x) in entries {
        let r = rel.join(&name);
        let p = root.join(&r);
        if name.as_bytes().contains(&b'/') || std::fs::symlink_metadata(&p).is_ok() { continue; }
        match kind {
            0 => {
                std::fs::write(&p, "x\n").unwrap();
                if is_source(name.as_bytes()) { if name.to_str().is_none() { t.odd = true; } t.sources.push(r.clone()); } else { t.others += 1; }
                t.note += &format!("{r:?}\n");
            },
            1 => {
                std::fs::create_dir(&p).unwrap();
                t.others += 1;
                t.note += &format!("{r:?} (directory)\n");
                fill(s, root, &r, depth - 1, t, odd_ok);
            },
            _ => {
                // a link is not a regular file
                let to: PathBuf = match x { 0 => "nothing".into(), 1 => ".".into(), 2 => t.sources.last().map(|q| root.join(q)).unwrap_or("..".into()), 3 => root.join("outside.papyri"), _ => "..".into() };
                std::os::unix::fs::symlink(&to, &p).unwrap();
                t.others += 1;
                t.note += &format!("{r:?} (link to {to:?})\n");
            },
        }
    }
}
/// In the order of the names of the directories, then of the files.
fn sorted(mut v: Vec<PathBuf>) -> Vec<PathBuf> {
    v.sort_by(|a, b| a.components().map(|c| c.as_os_str().as_bytes().to_vec()).cmp(b.components().map(|c| c.as_os_str().as_bytes().to_vec())));
    v
}

fn fresh() -> PathBuf {
    let d = scratch_dir().join("c20");
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(d.join("w/src/in")).unwrap();
    d
}

fn library(s: &mut Src) -> CaseResult {
    let d = fresh();
    let root = d.join("w/src/in");
    let t = make(s, &root, true, true);
    s.note("files", t.note.clone());
    let form = match s.us(5) { 0 => root.join("."), 1 => root.join("../in"), 2 => PathBuf::from(format!("{}/", root.display())), 3 => { let l = d.join("w/link"); std::os::unix::fs::symlink(&root, &l).unwrap(); l }, _ => root.clone() };
    if t.sources.len() >= 2 && t.others > 0 { s.nontrivial(); }
    s.tick();
    let mut errs = vec![];
    let got = guarded(|| papyri_lang::utils::relpath::find_papyri_source_files_in_dir(&form, |p, e| errs.push(format!("{p:?}: {e}"))))?.map_err(|_| "the directory is erroneous".to_string())?;
    if !errs.is_empty() { return Err(format!("errors: {errs:?}")); }
    let want = sorted(t.sources);
    if got != want { return Err(format!("{form:?} gives\n{got:?}, expected\n{want:?}")); }
    Ok(())
}

fn program(s: &mut Src) -> CaseResult {
    let d = fresh();
    let w = d.join("w/src");
    let t = make(s, &w.join("in"), false, true);
    s.note("files", t.note.clone());
    // the names of files of another encoding are approximated in the list
    let arg = match s.us(8) {
        0 => "in/".to_string(), 1 => "./in".into(), 2 => "../src/in".into(), 3 => "in/./".into(), 4 => w.join("in").display().to_string(), 5 => "in//".into(),
        _ => "in".into(),
    };
    let src = format!("@export(r=@file::list {}).", str_lit(&arg));
    let main = w.join("main.papyri");
    std::fs::write(&main, &src).unwrap();
    s.note("program", src.replace(&*d.to_string_lossy(), "ROOT"));
    if t.sources.len() >= 2 && t.others > 0 { s.nontrivial(); }
    s.tick();
    let got = guarded(|| -> Result<_, String> {
        let mut ctx = new_ctx();
        let r = ctx.load_uncached(&main).map_err(|_| "cannot be read".to_string())?;
        if ctx.diagnostics.num_errors + ctx.diagnostics.num_warnings > 0 { return Err(format!("{:?}", ctx.diagnostics)); }
        let names = Names::learn(&mut ctx, &["r".to_string()])?;
        let v = r.exports.values().next().ok_or("nothing is exported")?;
        to_v(&ctx, &names, v)
    })??;
    let prefix = arg.trim_end_matches('/');
    let want = V::List(sorted(t.sources).iter().map(|p| {
        let p = p.to_str().unwrap();
        V::Str(format!("{prefix}/{}", &p[..p.len() - 7]))
    }).collect());
    if got != want { return Err(format!("the list is\n{got:?}, expected\n{want:?}")); }
    Ok(())
}

/// A directory which cannot be searched.
fn bad(s: &mut Src) -> CaseResult {
    let d = fresh();
    let w = d.join("w/src");
    let arg = s.pick(&["nothing", "in/nothing", "../../../c20/no", "main.papyri/x", "in\0x"]).to_string();
    let src = format!("@export(r=@file::list {}).", str_lit(&arg));
    let main = w.join("main.papyri");
    std::fs::write(&main, &src).unwrap();
    s.note("program", src);
    s.nontrivial(); s.tick();
    let errs = guarded(|| { let mut ctx = new_ctx(); let _ = ctx.load_uncached(&main); ctx.diagnostics.num_errors })?;
    if errs == 0 { return Err("no error is reported".into()); }
    Ok(())
}

/// Whether a pattern matches a path of these components.
fn matches(pat: &str, p: &[&str]) -> bool {
    let (n, name) = (p.len(), p[p.len() - 1]);
    let second_dot = name.chars().nth(1) == Some('.');
    match pat {
        "*" => n == 1,
        "**/*" => true,
        "*/*" => n == 2,
        "?.*" => n == 1 && second_dot,
        "**/?.*" => second_dot,
        "**/*.[pP]*" => name.contains(".p") || name.contains(".P"),
        "**/*.papyri" => name.ends_with(".papyri"),
        "**/*.PAPYRI" => name.ends_with(".PAPYRI"),
        "[!a-m]*" => n == 1 && !name.starts_with(|c: char| ('a'..='m').contains(&c)),
        "d/**/*" => n >= 2 && p[0] == "d",
        "**/a*/*" => n >= 2 && p[n - 2].starts_with('a'),
        _ => unreachable!(),
    }
}
const PATTERNS: &[&str] = &["*", "**/*", "*/*", "?.*", "**/?.*", "**/*.[pP]*", "**/*.papyri", "**/*.PAPYRI", "[!a-m]*", "d/**/*", "**/a*/*"];

/// The command says which files it compiles.
fn command(s: &mut Src) -> CaseResult {
    let d = fresh();
    let w = d.join("w/src/in");
    let t = make(s, &w, false, false);
    s.note("files", t.note.clone());
    let mut args: Vec<String> = vec![];
    let mut base = PathBuf::new();
    let mut patterns: Vec<&str> = vec![];
    if s.coin() {
        let arg = s.pick(&["", ".", "./", "../in", "ABS"]).replace("ABS", &w.to_string_lossy());
        base.push(if arg.is_empty() { "." } else { &arg });
        if !arg.is_empty() { args.push(arg); }
    } else {
        // what several patterns match is compiled once
        patterns = s.vec(1, 3, |s| *s.pick(PATTERNS));
        args.extend(patterns.iter().map(|p| p.to_string()));
        s.label("patterns");
    }
    s.note("arguments", format!("{args:?}"));
    if t.sources.len() >= 2 && t.others > 0 { s.nontrivial(); }
    s.tick();
    // a file name with a line break would make the messages ambiguous
    if t.sources.iter().any(|p| p.to_string_lossy().contains('\n')) { return Ok(()); }
    let (code, o, e) = c18::papyri(&w, &args, None)?;
    if code != 0 { return Err(format!("exit status {code}\n{o}{e}")); }
    let got: Vec<String> = o.lines().filter_map(|l| l.strip_suffix(" (OK)").or(l.strip_suffix(" (library, skipping)")).map(|l| l.to_string())).collect();
    let mut found = sorted(t.sources);
    if !patterns.is_empty() { found.retain(|p| { let c: Vec<&str> = p.to_str().unwrap().split('/').collect(); patterns.iter().any(|q| matches(q, &c)) }); }
    let want: Vec<String> = found.iter().map(|p| base.join(p).to_string_lossy().into_owned()).collect();
    if got != want { return Err(format!("compiled are\n{got:?}, expected\n{want:?}\n{e}")); }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        subs: vec![
            Sub {name: "library", quick: 12_000, thorough: 400_000, run: library},
            Sub {name: "program", quick: 12_000, thorough: 400_000, run: program},
            Sub {name: "failures", quick: 500, thorough: 5_000, run: bad},
            Sub {name: "command", quick: 6_000, thorough: 150_000, run: command},
        ],
        fixed: vec![],
        rule: "trees of at least two source files and something else; directories which cannot be searched",
        assumptions: &["symbolic links are not regular files; the directory searched may itself be given through one", "the order is that of the path components, by bytes"],
    }
}
