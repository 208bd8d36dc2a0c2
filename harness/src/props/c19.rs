//! C19: the command line writes all outputs of a good file and none of a bad one.
use crate::engine::*;
use crate::lang::*;
use super::{c18, gen, progs};
use papyri_lang::compiler::Context;
use papyri_lang::errors::ReportingLevel;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::time::{Duration, SystemTime};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind { Good, Warn, Bad, Empty, Writes, BadWrites, NotText, ImportsBad, ImportsNone, ImportsGood }

struct File {
    /// Relative to the working directory, without the extension.
    stem: String,
    ext: &'static str,
    kind: Kind,
    text: Vec<u8>,
    /// What it writes besides its main output.
    writes: Vec<(String, String)>,
}

fn make(s: &mut Src, i: usize, has_out: bool) -> File {
    let kind = *s.pick(&[Kind::Good, Kind::Good, Kind::Good, Kind::Warn, Kind::Bad, Kind::Empty, Kind::Writes, Kind::BadWrites, Kind::NotText, Kind::ImportsBad, Kind::ImportsNone, Kind::ImportsGood]);
    let dir = s.pick(&["", "", "a/", "a/b/", "c.d/", "e f/"]).to_string();
    let name = s.pick(&["n", "x.y", "é", "_u", "lib", "N", "a b"]).to_string();
    let ext = if s.chance(1, 5) { *s.pick(&["PAPYRI", "Papyri"]) } else { "papyri" };
    let stem = format!("{dir}{name}{i}");
    let t = s.pick(&["hello -- 'x'", "<p>one</> two", "<b>b</> &lt; é", "@code `1 < 2`\n\nmore <br> <ul><li>a</></>"]).to_string();
    let mut writes = vec![];
    let up = "../".repeat(dir.matches('/').count());
    let mut w = |s: &mut Src| {
        let n = s.vec(1, 3, |s| { let k = writes.len(); let d = *s.pick(&["", "w/", "w/v/"]); let p = match s.us(10) { 0 if k > 0 => { let w: &(String, String) = &writes[s.us(k)]; w.0.clone() }, 1 => format!("{stem}.html"), _ => format!("{d}f{i}_{k}.html") }; writes.push((p, format!("<p>w{k}</p>"))); });
        let _ = n;
        writes.iter().enumerate().map(|(k, x)| format!("@file::write(`{}`) <p>w{k}</>\n\n", x.0)).collect::<String>()
    };
    let text: Vec<u8> = match kind {
        Kind::Good => t.into(),
        Kind::Warn => format!("{t} @match [1, 2] {{[$a, $a] -> .}}").into(),
        Kind::Bad => format!("{t} {}", s.pick(&["@raise `no`", "$nope", "{", "<b>", "@export(x=$nope)."])).into(),
        Kind::Empty => s.pick(&["", "# nothing", "@export(x=1).", "<!-- a -->"]).to_string().into(),
        Kind::Writes => { let f = w(s); if s.coin() { format!("{f}{t}") } else { f }.into() },
        Kind::BadWrites => { let f = w(s); if s.coin() { format!("{f}{t} $nope") } else { format!("$nope {t} {f}") }.into() },
        Kind::NotText => vec![b'a', 0xff, b'b'],
        Kind::ImportsBad => format!("{t} @import `{up}bad.lib`").into(),
        // a library which cannot be read, or is not there
        Kind::ImportsNone => format!("@import `{up}{}` {t}", s.pick(&["enc.lib", "enc.lib", "two.lib", "gone"])).into(),
        Kind::ImportsGood => format!("{t} @include `{up}good.lib`").into(),
    };
    let kind = if kind == Kind::Writes && !has_out { Kind::BadWrites } else { kind };
    File {stem, ext, kind, text, writes}
}

/// Whether the files are found by an argument.
fn expand(arg: &str, path: &str) -> bool {
    let arg = arg.trim_start_matches("./");
    let in_dir = |d: &str| path.starts_with(d);
    let (dir, name) = match path.rfind('/') { Some(k) => (&path[..k + 1], &path[k + 1..]), None => ("", path) };
    match arg {
        "" | "." => true,
        "*.papyri" => dir == "" && name.ends_with(".papyri"),
        "*/*.papyri" => dir.matches('/').count() == 1 && name.ends_with(".papyri"),
        "**/*" => true,
        "n?.*" => dir == "" && name.starts_with('n') && name.find('.') == Some(2),
        "a/[a-z]*" => dir == "a/" && name.starts_with(|c: char| c.is_ascii_lowercase()),
        "a" | "a/" | "c.d" | "e f" | "a/b" => in_dir(&format!("{}/", arg.trim_end_matches('/'))),
        _ => arg == path,
    }
}

/// What is printed about a run: a line for each file which is written, and the totals.
fn totals(o: &str, e: &str, silent: bool, written: usize, ok: usize, failed: usize, skipped: usize) -> CaseResult {
    if silent && !o.is_empty() { return Err("something is printed, with --silent".into()); }
    let line = format!("{written} file{} written; {ok} OK, {failed} failed, {skipped} skipped", if written == 1 { "" } else { "s" });
    let at = if failed > 0 { e } else { o };
    if !(silent && failed == 0) && at.lines().last() != Some(&line) { return Err(format!("the last line should be {line:?}")); }
    let n = o.lines().filter(|l| l.starts_with("    => ")).count();
    if !silent && (n < written || n > written && failed == 0) { return Err(format!("{n} outputs are listed, of {written}")); }
    Ok(())
}

fn files(s: &mut Src) -> CaseResult {
    let cwd = scratch_dir().join("c19/w");
    let _ = std::fs::remove_dir_all(scratch_dir().join("c19"));
    std::fs::create_dir_all(&cwd).unwrap();
    let out_dir = match s.us(3) { 0 => None, 1 => Some("out".to_string()), _ => Some(s.pick(&["./out", "out/deep", "../out", "out/", "ABS/out"]).replace("ABS", &cwd.to_string_lossy())) };
    let text = s.chance(1, 4);
    let skip = s.chance(1, 3);
    let mut args: Vec<String> = vec![];
    if text { args.push(s.pick(&["-t", "--text"]).to_string()); }
    if skip { args.push(s.pick(&["-u", "--skip-unchanged"]).to_string()); }
    if s.chance(1, 3) { args.push(s.pick(&["-s", "--silent"]).to_string()); }
    if s.chance(1, 3) { args.push("--ignore-warnings".into()); }
    if let Some(o) = &out_dir { args.push(s.pick(&["-o", "--out"]).to_string()); args.push(o.clone()); }
    let mut all: Vec<File> = vec![];
    let n = 1 + s.us(6);
    for i in 0..n { let f = make(s, i, out_dir.is_some()); all.push(f); }
    // libraries, one of which is wrong
    for (n, t) in [("bad.lib", "$nope text"), ("good.lib", "from the library"), ("a/c.LIB", "$nope"), ("two.lib", "@import `enc.lib`"), ("enc.lib", "")] {
        let text = if n == "enc.lib" { vec![0xff, b'b'] } else { t.into() };
        all.push(File {stem: n.into(), ext: "papyri", kind: Kind::Bad, text, writes: vec![]});
    }
    for d in ["a/b", "c.d", "e f"] { std::fs::create_dir_all(cwd.join(d)).unwrap(); }
    std::fs::write(cwd.join("readme.txt"), "text").unwrap();
    for f in &all { std::fs::write(cwd.join(format!("{}.{}", f.stem, f.ext)), &f.text).unwrap(); }
    // what to compile
    let mut wanted: Vec<String> = s.vec(0, 3, |s| match s.us(4) {
        0 | 1 => { let f = &all[s.us(all.len())]; format!("{}.{}", f.stem, f.ext) },
        2 => s.pick(&["*.papyri", "*/*.papyri", "**/*", "n?.*", "a/[a-z]*"]).to_string(),
        _ => s.pick(&["a", "a/", "c.d", "e f", "a/b", ".", "readme.txt", "./", "missing.papyri"]).to_string(),
    });
    let silent = args.iter().any(|a| a == "-s" || a == "--silent");
    let mut shown = wanted.clone();
    for w in &mut shown { if !w.contains(&['*', '['][..]) { match s.us(6) { 0 => *w = format!("./{w}"), 1 => *w = format!("a/../{w}"), 2 => *w = format!("{}/{w}", cwd.display()), _ => {} } } }
    args.extend(shown.clone());
    if wanted.is_empty() { wanted.push(".".into()); shown.push(".".into()); }
    // a file which is named in several ways is compiled as often
    let ways = |path: &str| -> usize {
        let mut ps: BTreeSet<std::path::PathBuf> = BTreeSet::new();
        for (w, sh) in wanted.iter().zip(&shown).filter(|x| expand(x.0, path)) {
            let dir = w.trim_start_matches("./").trim_end_matches('/');
            ps.insert(if w.contains('*') { path.into() } else if dir == path { sh.into() } else {
                let rest = if matches!(dir, "" | ".") { path } else { path.strip_prefix(dir).unwrap().trim_start_matches('/') };
                Path::new(sh).join(rest)
            });
        }
        ps.len()
    };
    let (mut num_written, mut num_ok, mut num_failed, mut num_skipped) = (0, 0, 0, 0);
    // outputs from before
    let base = match &out_dir { None => cwd.clone(), Some(o) => cwd.join(o) };
    let ext = if text { "txt" } else { "html" };
    let mut expect: BTreeMap<String, String> = BTreeMap::new();
    std::fs::create_dir_all(&base).unwrap();
    let real = |p: &Path| -> String {
        let parent = p.parent().unwrap(); std::fs::create_dir_all(parent).unwrap();
        parent.canonicalize().unwrap().join(p.file_name().unwrap()).to_string_lossy().into_owned()
    };
    let now = SystemTime::now();
    let mut fails = 0;
    let mut compiled = 0;
    let mut done: BTreeSet<usize> = BTreeSet::new();
    let mut note = String::new();
    for (k, f) in all.iter().enumerate() {
        let src_path = format!("{}.{}", f.stem, f.ext);
        let out = base.join(format!("{}.{ext}", f.stem));
        note += &format!("{src_path} ({:?}): {:?}\n", f.kind, String::from_utf8_lossy(&f.text));
        let mut newer = false;
        if s.chance(1, 3) {
            let k = real(&out);
            std::fs::write(&out, "old").unwrap();
            let age = *s.pick(&[-100i64, 0, 100]);
            note += &format!("    with an output {age}s after it\n");
            newer = age >= 0;
            let src_time = now - Duration::from_secs(1000);
            let out_time = if age < 0 { src_time - Duration::from_secs(100) } else { src_time + Duration::from_secs(age as u64) };
            let set = |p: &Path, t| std::fs::File::options().append(true).open(p).unwrap().set_modified(t).unwrap();
            set(&cwd.join(&src_path), src_time); set(&out, out_time);
            expect.insert(k, "old".into());
        }
        let mut old_writes = vec![];
        for w in &f.writes { if out_dir.is_some() && w.0 != format!("{}.html", f.stem) && s.chance(1, 4) { let p = base.join(&w.0); old_writes.push(real(&p)); std::fs::write(&p, "old").unwrap(); } }
        for w in old_writes { expect.insert(w, "old".into()); }
        if !wanted.iter().any(|a| expand(a, &src_path)) || !done.insert(k) { continue; }
        let times = ways(&src_path);
        if f.stem.to_lowercase().ends_with(".lib") || skip && newer { num_skipped += times; continue; }
        compiled += 1;
        match f.kind {
            Kind::Bad | Kind::BadWrites | Kind::NotText | Kind::ImportsBad | Kind::ImportsNone => { fails += 1; num_failed += times; },
            Kind::Empty => num_skipped += times,
            Kind::Good | Kind::Warn | Kind::Writes | Kind::ImportsGood => {
                // the main output, as the library gives it
                let path = cwd.join(&src_path);
                let main = guarded(|| -> Result<_, String> {
                    let mut ctx = Context::new(ReportingLevel::Warning, Some(Path::new("out")), None);
                    let r = ctx.load_uncached(&path).map_err(|_| "cannot be read".to_string())?;
                    if ctx.diagnostics.num_errors > 0 { return Err(format!("harness: {:?}", ctx.diagnostics)); }
                    if r.out.is_empty() { Ok(None) } else { render(&ctx, &r.out, !text).map(Some) }
                })??;
                // after the first time it is up to date, if it has a main output, or writes to its place
                let has_main = main.is_some() || !text && f.writes.iter().any(|w| w.0 == format!("{}.html", f.stem));
                let oks = if skip && has_main { 1 } else { times };
                num_ok += oks;
                num_skipped += times - oks;
                num_written += oks * (f.writes.len() + main.is_some() as usize);
                // of several outputs with the same path the last one is there, and the main one comes last
                for w in &f.writes { expect.insert(real(&base.join(&w.0)), if text { format!("{}\n\n", w.1.replace("<p>", "").replace("</p>", "")) } else { w.1.clone() }); }
                if let Some(m) = main { expect.insert(real(&out), m); }
            },
        }
    }
    if wanted.iter().any(|w| w == "missing.papyri") { fails += 1; num_failed += wanted.iter().zip(&shown).filter(|x| x.0 == "missing.papyri").map(|x| Path::new(x.1)).collect::<BTreeSet<_>>().len(); }
    s.note("arguments", format!("{args:?}").replace(&*cwd.to_string_lossy(), "CWD"));
    s.note("files", note);
    if compiled >= 2 { s.nontrivial(); }
    if fails > 0 && compiled > fails { s.label("good and bad files"); }
    for f in &all { expect.insert(real(&cwd.join(format!("{}.{}", f.stem, f.ext))), String::from_utf8_lossy(&f.text).into_owned()); }
    expect.insert(real(&cwd.join("readme.txt")), "text".into());
    s.tick();
    let (code, o, e) = c18::papyri(&cwd, &args, None)?;
    let say = || format!("exit status {code}\n{o}{e}");
    if (code != 0) != (fails > 0) { return Err(format!("{fails} files failed\n{}", say())); }
    totals(&o, &e, silent, num_written, num_ok, num_failed, num_skipped).map_err(|m| format!("{m}\n{}", say()))?;
    let top = scratch_dir().join("c19");
    let got: BTreeMap<String, String> = c18::tree(&top).into_iter().filter(|x| !x.0.starts_with(".std")).map(|(k, v)| (top.join(k).to_string_lossy().into_owned(), String::from_utf8_lossy(&v).into_owned())).collect();
    for (k, v) in &got {
        match expect.get(k) {
            Some(w) if w == v => {},
            Some(w) => return Err(format!("{k} is {v:?}, expected {w:?}\n{}", say())),
            None => return Err(format!("{k} is written: {v:?}\n{}", say())),
        }
    }
    if let Some(k) = expect.keys().find(|k| !got.contains_key(*k)) { return Err(format!("{k} is not written\n{}", say())); }
    Ok(())
}

fn stdin(s: &mut Src) -> CaseResult {
    let src = match s.us(4) {
        0 => progs::plain(&progs::program(s)),
        1 => gen::program(s),
        2 => gen::soup(s, 6),
        _ => s.vec(1, 4, |s| s.pick(&["hello 'x' -- ", "<p>one</>", "\n\n", "$nope", "@unknown.", "é <b>b</>", "@match [1, 2] {[$a, $a] -> .}", "@file::write(`x.html`) `a`", "@code(language=`nope`) `x`"]).to_string()).concat(),
    };
    // the library has no access to files
    if ["import", "include", "file", "net"].iter().any(|w| src.contains(w)) && !src.contains("@file::write(`x.html`)") { return Ok(()); }
    s.note("source", src.clone());
    let text = s.chance(1, 3);
    let mut args = vec![s.pick(&["-i", "--stdin"]).to_string()];
    if text { args.push("-t".into()); }
    if s.chance(1, 4) { args.push("-s".into()); }
    let Ok(want) = guarded(|| papyri_lang::compile_str(&src)) else { return Ok(()); };
    let lib = compile(&src)?;
    let cwd = scratch_dir().join("c19i/w");
    std::fs::create_dir_all(&cwd).unwrap();
    if s.chance(1, 12) {
        // what it cannot be used with
        let mut input = src.clone().into_bytes();
        match s.us(3) { 0 => args.push("x.papyri".into()), 1 => args.extend(["-o".to_string(), "out".into()]), _ => input.extend([0xff, b'a']) }
        s.note("arguments", format!("{args:?}"));
        s.label("refused");
        s.tick();
        let (code, o, e) = c18::papyri(&cwd, &args, Some(&input))?;
        if code == 0 || !o.is_empty() || e.trim().is_empty() { return Err(format!("exit status {code}, output {o:?}\n{e}")); }
        if !c18::tree(&cwd).is_empty() { return Err(format!("files are written: {:?}", c18::tree(&cwd).keys())); }
        return Ok(());
    }
    s.tick();
    let (code, o, e) = c18::papyri(&cwd, &args, Some(src.as_bytes()))?;
    match want {
        Ok(html) => {
            let want = if text { lib.text } else { html };
            if want.len() > 3 { s.nontrivial(); }
            s.label("output");
            if code != 0 || o != want { return Err(format!("exit status {code}, output {o:?}, expected {want:?}\n{e}")); }
        },
        Err(_) => {
            s.label("diagnostics");
            if lib.errors > 0 && code == 0 || !o.is_empty() && lib.errors > 0 { return Err(format!("exit status {code}, output {o:?}, for errors\n{e}")); }
            let shown = e.replace("\"<stdin>\"", "\"<string>\"");
            if !lib.printed.contains("File access") && !src.contains("file::") && !shown.lines().filter(|l| !l.is_empty()).eq(lib.printed.lines().filter(|l| !l.is_empty())) { return Err(format!("exit status {code}; the diagnostics are\n{e}\nand those of the library\n{}", lib.printed)); }
            if e.trim().is_empty() { return Err(format!("no diagnostics are printed; exit status {code}")); }
        },
    }
    if !c18::tree(&cwd).is_empty() { return Err(format!("files are written: {:?}", c18::tree(&cwd).keys())); }
    Ok(())
}

/// Outputs which cannot be written: a full device, a directory in the way, a
/// file where a directory has to be. The other source files are not affected.
fn faults(s: &mut Src) -> CaseResult {
    let root = scratch_dir().join("c19f");
    let _ = std::fs::remove_dir_all(&root);
    let cwd = root.join("w");
    std::fs::create_dir_all(&cwd).unwrap();
    let full = Path::new("/dev/full");
    let mut args: Vec<String> = vec![];
    let text = s.chance(1, 4);
    if text { args.push("-t".into()); }
    if s.chance(1, 3) { args.push("-s".into()); }
    let ext = if text { "txt" } else { "html" };
    let sizes = [1usize, 1, 3, 500, 1024, 3000, 40_000];
    let body = |n: usize| "word ".repeat(n).trim_end().to_string();
    let shown = |n: usize| if text { format!("{}\n\n", body(n)) } else { format!("<p>{}</p>", body(n)) };
    if s.chance(1, 4) && full.exists() {
        let n = *s.pick(&sizes);
        args.insert(0, "-i".into());
        s.note("arguments", format!("{args:?}, {n} words, to a full device"));
        s.label("standard output");
        s.nontrivial();
        s.tick();
        let (code, _, e) = c18::papyri_to(&cwd, &args, Some(body(n).as_bytes()), Some(full))?;
        if code == 0 { return Err(format!("exit status 0, but the output was not written\n{e}")); }
        return Ok(());
    }
    let has_out = s.coin();
    if has_out { args.extend(["-o".to_string(), "out".into()]); }
    let base = if has_out { cwd.join("out") } else { cwd.clone() };
    let mut expect: BTreeMap<String, String> = BTreeMap::new();
    let mut faulty = 0;
    let mut note = String::new();
    let n = 2 + s.us(3);
    for i in 0..n {
        let dir = if has_out && s.coin() { format!("d{i}/") } else { String::new() };
        let k = if has_out { s.us(4) } else { 0 };
        let main = *s.pick(&sizes);
        let mut src = String::new();
        let mut outs = vec![(format!("{dir}n{i}.{ext}"), main)];
        for j in 0..k {
            let m = *s.pick(&sizes);
            let w = format!("{}n{i}_{j}.{ext}", s.pick(&["", "w/"]));
            src += &format!("@file::write(`{w}`) <p>{}</p>\n", body(m));
            outs.push((w, m));
        }
        src += &body(main);
        if !dir.is_empty() { std::fs::create_dir_all(cwd.join(&dir)).unwrap(); }
        let file = format!("{dir}n{i}.papyri");
        std::fs::write(cwd.join(&file), &src).unwrap();
        let hit = s.chance(1, 2).then(|| s.us(outs.len()));
        let how = s.us(3);
        if let Some(h) = hit {
            let p = base.join(&outs[h].0);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            match how {
                1 if !dir.is_empty() && h == 0 => {
                    std::fs::remove_dir_all(p.parent().unwrap()).unwrap();
                    std::fs::write(p.parent().unwrap(), "in the way").unwrap();
                    s.label("a file for a directory");
                },
                0 if full.exists() => { std::os::unix::fs::symlink(full, &p).unwrap(); s.label("full device"); },
                _ => { std::fs::create_dir(&p).unwrap(); s.label("a directory for a file"); },
            }
            faulty += 1;
            note += &format!("{file}: {outs:?}, {:?} cannot be written\n", outs[h].0);
        } else {
            note += &format!("{file}: {outs:?}\n");
            for (p, m) in &outs { expect.insert(base.join(p).to_string_lossy().into_owned(), shown(*m)); }
        }
    }
    s.note("arguments", format!("{args:?}"));
    s.note("files", note);
    if faulty > 0 && faulty < n { s.nontrivial(); }
    s.tick();
    let (code, o, e) = c18::papyri(&cwd, &args, None)?;
    if (code != 0) != (faulty > 0) { return Err(format!("exit status {code}; {faulty} files have an output which cannot be written\n{o}{e}")); }
    totals(&o, &e, args.iter().any(|a| a == "-s"), expect.len(), n - faulty, faulty, 0).map_err(|m| format!("{m}\n{o}{e}"))?;
    for (p, w) in &expect {
        match std::fs::read_to_string(p) {
            Ok(g) if &g == w => {},
            g => return Err(format!("{p} is {:.100?}, expected {w:.100?}\n{o}{e}", g.ok())),
        }
    }
    Ok(())
}

/// Sources are compiled once each, in the order of their paths, however they
/// are given; so the last of them writes the file which several of them write.
fn order(s: &mut Src) -> CaseResult {
    let root = scratch_dir().join("c19o");
    let cwd = root.join("w");
    let n = 2 + s.us(5);
    let mut paths: Vec<(String, bool)> = vec![];
    for i in 0..n {
        let d = *s.pick(&["", "", "a/", "a/b/", "z/"]);
        let m = *s.pick(&["n", "m", "B", "é", "k.lib"]);
        let good = s.chance(4, 5);
        paths.push((if m == "k.lib" { format!("{d}k{i}.lib.papyri") } else { format!("{d}{m}{i}.papyri") }, good));
    }
    let mut given: Vec<String> = vec![];
    let mut found: BTreeSet<usize> = BTreeSet::new();
    for _ in 0..2 + s.us(4) {
        let arg = if s.chance(3, 4) { paths[s.us(n)].0.clone() } else { s.pick(&["a", "z", "*.papyri", "a/*.papyri", "a/b"]).to_string() };
        for (i, p) in paths.iter().enumerate() {
            let dir = p.0.rfind('/').map_or("", |k| &p.0[..k]);
            let hit = match &*arg { "a" => dir.starts_with('a'), "a/*.papyri" => dir == "a", "*.papyri" => dir.is_empty(), "z" | "a/b" => dir == arg, _ => p.0 == arg };
            if hit { found.insert(i); }
        }
        given.push(arg);
    }
    let mut other = given.clone();
    for i in (1..other.len()).rev() { let j = s.us(i + 1); other.swap(i, j); }
    let mut all: Vec<&(String, bool)> = found.iter().map(|i| &paths[*i]).collect();
    all.sort_by(|a, b| Path::new(&a.0).cmp(Path::new(&b.0)));
    s.note("arguments", format!("{given:?}, and then {other:?}"));
    s.note("files", format!("{paths:?}"));
    let compiled = all.iter().filter(|p| !p.0.contains(".lib.")).count();
    if compiled >= 2 && other != given { s.nontrivial(); }
    s.tick();
    let mut runs = vec![];
    for args in [&given, &other] {
        let _ = std::fs::remove_dir_all(&root);
        for d in ["a/b", "z"] { std::fs::create_dir_all(cwd.join(d)).unwrap(); }
        for (i, (p, good)) in paths.iter().enumerate() {
            std::fs::write(cwd.join(p), format!("@file::write(`same.html`) <b>{i}</>\n\n{}", if *good { "text" } else { "$nope" })).unwrap();
        }
        let mut full = vec!["-o".to_string(), "out".into()];
        full.extend(args.iter().cloned());
        let (code, o, e) = c18::papyri(&cwd, &full, None)?;
        let tree: BTreeMap<_, _> = c18::tree(&cwd).into_iter().collect();
        runs.push((code, o, e, tree));
    }
    let (_, o, e, tree) = &runs[0];
    if runs[0] != runs[1] { return Err(format!("the arguments in another order: {:?}\nand {:?}", runs[0], runs[1])); }
    // each is mentioned by a line, on one stream or the other
    for (good, stream) in [(true, o), (false, e)] {
        let got: Vec<&str> = stream.lines().filter_map(|l| l.split_once(".papyri (").map(|x| x.0)).collect();
        let want: Vec<&str> = all.iter().filter(|p| (p.1 || p.0.contains(".lib.")) == good).map(|p| p.0.strip_suffix(".papyri").unwrap()).collect();
        if got != want { return Err(format!("compiled: {got:?}, expected {want:?}\n{o}{e}")); }
    }
    let last = all.iter().filter(|p| p.1 && !p.0.contains(".lib.")).last().and_then(|l| paths.iter().position(|p| p.0 == l.0));
    let got = tree.get("out/same.html").map(|v| String::from_utf8_lossy(v).into_owned());
    if got != last.map(|i| format!("<b>{i}</b>")) && got != last.map(|i| format!("<p><b>{i}</b></p>")) { return Err(format!("same.html is {got:?}, which source {last:?} writes last\n{o}{e}")); }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        subs: vec![
            Sub {name: "files", quick: 6_000, thorough: 150_000, run: files},
            Sub {name: "faults", quick: 2_000, thorough: 60_000, run: faults},
            Sub {name: "order", quick: 1_500, thorough: 40_000, run: order},
            Sub {name: "stdin", quick: 4_000, thorough: 100_000, run: stdin},
        ],
        fixed: vec![],
        rule: "runs which compile at least two files; standard input with output",
        assumptions: &["an argument which names no source file (and is not one that is missing) is ignored", "programs read from standard input do not access files, which the string API refuses"],
    }
}
