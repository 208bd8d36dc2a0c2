//! C25: the string API reads and writes no files and no network.
use crate::engine::*;
use crate::lang::*;
use std::io::{Read, Write};
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::OnceLock;

extern "C" {
    fn inotify_init1(flags: i32) -> i32;
    fn inotify_add_watch(fd: i32, path: *const std::os::raw::c_char, mask: u32) -> i32;
    fn read(fd: i32, buf: *mut u8, n: usize) -> isize;
}

/// A directory, in which every access is noticed.
struct Watched { dir: PathBuf, fd: i32 }

impl Watched {
    fn new() -> Watched {
        let dir = scratch_dir().join("c25");
        std::fs::create_dir_all(dir.join("sub")).unwrap();
        for f in ["canary.papyri", "canary.txt", "sub/canary.papyri", "canary"] { std::fs::write(dir.join(f), "the canary @export(x=`canary`).\n").unwrap(); }
        let fd = unsafe { inotify_init1(0o4000) };
        assert!(fd >= 0, "inotify");
        for d in [dir.clone(), dir.join("sub")] {
            let p = std::ffi::CString::new(d.to_str().unwrap()).unwrap();
            assert!(unsafe { inotify_add_watch(fd, p.as_ptr(), 0xfff) } >= 0, "inotify watch");
        }
        let w = Watched {dir, fd};
        // the watch works
        let _ = std::fs::read(w.dir.join("canary"));
        assert!(w.seen() > 0, "inotify sees nothing");
        let _ = std::fs::read_dir(&w.dir).map(|d| d.count());
        assert!(w.seen() > 0, "inotify does not see listing");
        w
    }
    /// The number of bytes of events since the last call.
    fn seen(&self) -> usize {
        let mut total = 0;
        let mut buf = [0u8; 8192];
        loop {
            let n = unsafe { read(self.fd, buf.as_mut_ptr(), buf.len()) };
            if n <= 0 { return total; }
            total += n as usize;
        }
    }
}
thread_local!(static WATCHED: Watched = Watched::new());

/// A server, which counts the connections.
fn server() -> (u16, &'static AtomicUsize) {
    static S: OnceLock<u16> = OnceLock::new();
    static N: AtomicUsize = AtomicUsize::new(0);
    let port = *S.get_or_init(|| {
        let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
        let port = l.local_addr().unwrap().port();
        std::thread::spawn(move || for c in l.incoming().flatten() {
            N.fetch_add(1, Ordering::SeqCst);
            let mut c = c;
            let _ = c.set_read_timeout(Some(std::time::Duration::from_secs(2)));
            let _ = c.read(&mut [0; 1024]);
            let _ = c.write_all(b"HTTP/1.1 200 OK\r\nContent-Length: 6\r\nConnection: close\r\n\r\ncanary");
        });
        port
    });
    (port, &N)
}

const FUNCS: &[(&str, &str)] = &[
    ("file::read", "file access is disabled"), ("file::list", "file access is disabled"), ("import", "file access is disabled"), ("include", "file access is disabled"),
    ("file::write", "write"), ("net::fetch_raw", "network"), ("net::fetch_html", "network"),
];

/// Programs which use everything else.
fn other(s: &mut Src) -> CaseResult {
    cwd();
    let (port, count) = server();
    let dir = WATCHED.with(|w| w.dir.display().to_string());
    let mut src = super::exprs::program(s);
    // strings are paths and addresses
    let to = match s.us(4) { 0 => format!("{dir}/canary"), 1 => format!("http://127.0.0.1:{port}/"), 2 => dir.clone(), _ => format!("{dir}/new.html") };
    for w in ["`a`", "`foo bar`", "`papyri`", "`ab`", "\"\""] { src = src.replace(w, &format!("`{to}`")); }
    s.note("program", src.replace(&dir, "DIR"));
    if super::gen::may_recurse(&src) { return Ok(()); }
    if src.contains(&to) { s.nontrivial(); }
    s.tick();
    WATCHED.with(|w| w.seen());
    let before = count.load(Ordering::SeqCst);
    let _ = guarded(|| papyri_lang::compile_str(&src).map_err(|d| d.num_errors));
    if WATCHED.with(|w| w.seen()) > 0 { return Err("the file system is accessed".into()); }
    if count.load(Ordering::SeqCst) > before { return Err("the network is accessed".into()); }
    Ok(())
}

fn cwd() {
    static CWD: OnceLock<()> = OnceLock::new();
    CWD.get_or_init(|| { let d = PathBuf::from(std::env::var("PBT_SCRATCH").unwrap()).join("cwd"); std::fs::create_dir_all(&d).unwrap(); std::env::set_current_dir(d).unwrap(); });
}

fn run(s: &mut Src) -> CaseResult {
    cwd();
    let (port, count) = server();
    let dir = WATCHED.with(|w| w.dir.display().to_string());
    let mut src = String::new();
    let mut want: Vec<&str> = vec![];
    let n = s.us(4);
    for k in 0..n {
        let (f, msg) = *s.pick(FUNCS);
        let arg = match f {
            "file::read" => s.pick(&["D/canary", "D/sub/../canary.txt", "D/canary.papyri", "/etc/hostname", "canary", "D/none", ""]).to_string(),
            "file::list" => s.pick(&["D", "D/", "D/sub", ".", "D/none"]).to_string(),
            "import" | "include" => s.pick(&["D/canary", "D/canary.papyri", "D/sub/canary", "canary", "D/none", "<stdlib>", "<string>"]).to_string(),
            "file::write" => s.pick(&["out.html", "D/out.html", "../out.html", ""]).to_string(),
            _ => s.pick(&["http://127.0.0.1:P/", "http://localhost:P/x?y=z", "file://D/canary", "not a url", "http://127.0.0.1:P"]).to_string(),
        }.replace("D", &dir).replace("P", &port.to_string());
        let lit = str_lit(&arg);
        let write = f == "file::write";
        let call = match s.us(6) {
            0 if !write => format!("@list::map(${f}) [{lit}]"),
            1 if !write => format!("@let(f=${f}) {{@f {lit}}}"),
            2 => if write { format!("@let(f=@function::bind(${f}, {lit}).) {{@f `x`}}") } else { format!("@let(f=@function::bind(${f}) {lit}) {{@f.}}") },
            3 if !write => format!("@str::len @{f} {lit}"),
            _ => if write { format!("@{f}({lit}) <p>x</>") } else { format!("@{f} {lit}") },
        };
        let mut call = call;
        for d in 0..s.us(6) {
            call = match s.us(4) {
                0 => format!("@let(w{d}=@fn in{d} $x -> {{$x {call}}}) {{@in{d} a}}").replace(&format!("@in{d}"), &format!("@w{d}")),
                1 => format!("@let(v{d}=1) {{{call}}}"),
                2 => format!("@let(w{d}=@fn $_x -> {call}) {{@list::map($w{d}) [1]}}"),
                _ => format!("@match 1 {{1 -> {call}}}"),
            };
        }
        src += &match s.us(7) {
            0 => format!("@export(e{k}={call})."),
            1 => format!("@fn g{k}() $_c -> {call}\n@g{k}."),
            2 => format!("@let(v={call}) {{$v}}"),
            3 => format!("@match {call} {{_ -> matched}}"),
            4 => format!("<p>text {call}</>"),
            5 => format!("@fn h{k}($c=.) $x -> .\n@h{k}(c={call})."),
            _ => call,
        };
        src += "\n\n";
        want.push(msg);
        s.label(match f { "net::fetch_raw" | "net::fetch_html" => "network", "file::write" => "write", _ => "read" });
    }
    // what only looks like it
    if s.coin() { src += s.pick(&["@code(language=`papyri`) `@file::read x`", "`@import x`", "text", "@let(file=1) $file"]); }
    s.note("program", src.replace(&dir, "DIR"));
    if n >= 1 { s.nontrivial(); }
    s.tick();
    WATCHED.with(|w| w.seen());
    let before = count.load(Ordering::SeqCst);
    let r = guarded(|| papyri_lang::compile_str(&src).map_err(|d| (d.num_errors, format!("{d:?}"))))?;
    let (seen, connections) = (WATCHED.with(|w| w.seen()), count.load(Ordering::SeqCst) - before);
    if seen > 0 { return Err("the file system is accessed".into()); }
    // another thread's program may have connected, which is as wrong
    if connections > 0 { return Err("the network is accessed".into()); }
    match r {
        Ok(html) if n > 0 => Err(format!("compiles without errors to {html:?}")),
        Ok(_) => Ok(()),
        Err((_, p)) if n == 0 => Err(format!("no file is accessed, but there are diagnostics\n{p}")),
        Err((errs, p)) => {
            if p.contains("the canary") { return Err(format!("contents of a file are in the diagnostics\n{p}")); }
            if (errs as usize) < n { return Err(format!("{errs} errors for {n} accesses\n{p}")); }
            for m in ["file access", "write", "network"] {
                let w = want.iter().filter(|x| x.starts_with(m)).count();
                let g = p.lines().filter(|l| l.starts_with("Runtime error") && l.to_lowercase().contains(m)).count();
                if g < w { return Err(format!("{g} errors about {m}, expected {w}\n{p}")); }
            }
            Ok(())
        },
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C25",
        subs: vec![Sub {name: "programs", quick: 40_000, thorough: 1_500_000, run}, Sub {name: "any program", quick: 40_000, thorough: 1_500_000, run: other}],
        fixed: vec![],
        rule: "programs which attempt at least one access",
        assumptions: &["accesses are noticed in a directory watched for every kind of access, and by a server on the loopback interface"],
    }
}
