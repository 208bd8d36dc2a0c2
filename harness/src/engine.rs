//! A small property-based testing engine: every random decision of a case is a
//! bounded draw from a choice sequence, so that a failing case can be shrunk
//! (by deleting, zeroing and minimising draws) and replayed from a file without
//! the generator library being involved. A run is a pure function of the code
//! under test and of VERIF_SEED.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub type CaseResult = Result<(), String>;

#[derive(Clone, Copy)]
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

/// The source of choices for one case, and the record of what the case did.
pub struct Src {
    replay: Option<Vec<u64>>,
    pos: usize,
    rng: Rng,
    pub choices: Vec<u64>,
    pub notes: Vec<(&'static str, String)>,
    labels: Vec<&'static str>,
    nontrivial: bool,
    evals: u64,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src {replay: None, pos: 0, rng: Rng(seed), choices: vec![], notes: vec![], labels: vec![], nontrivial: false, evals: 0}
    }
    pub fn replaying(choices: Vec<u64>) -> Src {
        let mut s = Src::random(0);
        s.replay = Some(choices);
        s
    }

    /// Draws an integer in `0..n`; 0 is the simplest choice.
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 { return 0; }
        let v = match &self.replay {
            Some(c) => c.get(self.pos).copied().unwrap_or(0).min(n - 1),
            None => (((self.rng.next() as u128) * (n as u128)) >> 64) as u64,
        };
        self.pos += 1;
        self.choices.push(v);
        v
    }
    pub fn us(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + self.below((hi - lo + 1) as u64) as i64 }
    /// True with probability k/n; false is the simpler choice.
    pub fn chance(&mut self, k: u64, n: u64) -> bool { self.below(n) >= n - k }
    pub fn coin(&mut self) -> bool { self.chance(1, 2) }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { let i = self.us(xs.len()); &xs[i] }
    /// An index drawn with the given weights; the first is the simplest.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u64 = ws.iter().map(|&w| w as u64).sum();
        let mut r = self.below(total);
        for (i, &w) in ws.iter().enumerate() {
            if r < w as u64 { return i; }
            r -= w as u64;
        }
        ws.len() - 1
    }
    /// A vector of `min..=max` elements; each element is preceded by its own
    /// continue draw so that deleting an element is deleting a block of draws.
    pub fn vec<T>(&mut self, min: usize, max: usize, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
        // the average is drawn first, so that long and short vectors both occur
        let k = 2 + self.below(6);
        let mut out = Vec::new();
        while out.len() < max {
            if out.len() >= min && !self.chance(k - 1, k) { break; }
            out.push(f(self));
        }
        out
    }
    /// A 64-bit integer: small ones mostly, boundary values and arbitrary ones
    /// sometimes.
    pub fn int(&mut self) -> i64 {
        match self.weighted(&[6, 3, 1, 1]) {
            0 => self.range(0, 9),
            1 => self.range(-12, 120) ,
            2 => *self.pick(&[i64::MAX, i64::MIN + 1, i64::MAX - 1, i64::MIN, 1 << 31, 1 << 53, -(1 << 31), 1000, -1000]),
            _ => self.below(u64::MAX) as i64,
        }
    }
    pub fn note(&mut self, k: &'static str, v: impl Into<String>) {
        self.notes.push((k, v.into()));
        if let Some(p) = TRACE.get() {
            // the case may be about to kill the process: save what it is
            let mut s = self.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" ");
            s.push('\n');
            for (k, v) in self.notes.iter() { s += &format!("--- {k}\n{v}\n"); }
            let _ = std::fs::write(p, s);
        }
    }
    pub fn label(&mut self, l: &'static str) { self.labels.push(l); }
    pub fn nontrivial(&mut self) { self.nontrivial = true; }
    /// Records one execution of the code under test.
    pub fn tick(&mut self) { self.evals += 1; }
}

pub type CaseFn = fn(&mut Src) -> CaseResult;

pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: CaseFn,
}

/// A fixed case which bypasses the generators: a past failure, or a boundary.
pub struct Fixed {
    pub name: &'static str,
    pub run: fn() -> CaseResult,
}

pub struct Prop {
    pub id: &'static str,
    pub subs: Vec<Sub>,
    pub fixed: Vec<Fixed>,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

pub struct Opts {
    pub tier: String,
    pub seed: u64,
    pub verif: PathBuf,
    pub mult: f64,
}

/// Where to save the choices of the running case, in the child processes that
/// look for a crashing case.
static TRACE: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();

const FIXED_BASE: usize = 1_000_000;

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static SCRATCH: RefCell<Option<PathBuf>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

/// Runs something of the code under test; a panic becomes an error.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
        .map_err(|_| format!("panicked: {}", LAST_PANIC.with(|p| p.borrow().clone())))
}

/// A scratch directory private to this worker thread, removed when the run ends.
pub fn scratch_dir() -> PathBuf {
    SCRATCH.with(|s| s.borrow_mut().get_or_insert_with(|| {
        static N: AtomicUsize = AtomicUsize::new(0);
        let root = std::env::var("PBT_SCRATCH").expect("PBT_SCRATCH");
        let d = PathBuf::from(root).join(format!("t{}", N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&d).unwrap();
        d.canonicalize().unwrap()
    }).clone())
}

fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a ^ b.wrapping_mul(0xD6E8FEB86659FD93));
    r.next(); r.next()
}
fn hash_str(s: &str) -> u64 {
    // FNV, so that seeds do not depend on the standard library's hasher
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

fn run_case(run: CaseFn, src: &mut Src) -> CaseResult {
    match guarded(|| run(src)) {
        Ok(r) => r,
        Err(e) => Err(e),
    }
}

pub struct Failure {
    pub sub: String,
    pub index: u64,
    pub choices: Vec<u64>,
    pub notes: Vec<(&'static str, String)>,
    pub msg: String,
}

#[derive(Default)]
struct Stats {
    cases: u64,
    evals: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
}

pub fn case_seed(opts: &Opts, id: &str, sub: &str, idx: u64) -> u64 {
    mix(mix(opts.seed, hash_str(id)), mix(hash_str(sub), idx))
}

fn cut(s: &str, n: usize) -> String {
    if s.chars().count() <= n { s.to_string() } else { s.chars().take(n).collect::<String>() + "…" }
}

pub fn sub_cases(opts: &Opts, sub: &Sub) -> u64 {
    let n = if opts.tier == "thorough" { sub.thorough } else { sub.quick };
    ((n as f64 * opts.mult) as u64).max(1)
}

/// In-flight case record, one slot per thread, so that a supervisor can tell
/// which case was running when the process died, and so that a case which does
/// not end is noticed.
struct Slot { file: Mutex<std::fs::File>, running: Mutex<Option<(usize, u64, Instant)>> }
impl Slot {
    fn new(scratch: &str, t: usize) -> Slot {
        Slot {file: Mutex::new(std::fs::File::create(Path::new(scratch).join(format!("inflight{t}"))).unwrap()), running: Mutex::new(None)}
    }
    fn set(&self, sub: usize, idx: u64) {
        use std::io::Seek;
        let mut f = self.file.lock().unwrap();
        let _ = f.rewind();
        let _ = f.write_all(format!("{sub:20} {idx:20}\n").as_bytes());
        *self.running.lock().unwrap() = if sub == usize::MAX { None } else { Some((sub, idx, Instant::now())) };
    }
}

/// A case takes milliseconds; one that runs this long does not end.
const HANG_SECS: u64 = 60;

fn start_watchdog(prop: &Prop, opts: &Opts, slots: std::sync::Arc<Vec<Slot>>) {
    let names: Vec<String> = prop.subs.iter().map(|s| s.name.to_string()).collect();
    let fixed: Vec<String> = prop.fixed.iter().map(|s| s.name.to_string()).collect();
    let id = prop.id;
    let opts = Opts {tier: opts.tier.clone(), seed: opts.seed, verif: opts.verif.clone(), mult: opts.mult};
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        for sl in slots.iter() {
            let r = *sl.running.lock().unwrap();
            if let Some((sub, idx, t)) = r {
                if t.elapsed().as_secs() < HANG_SECS { continue; }
                let name = if sub >= FIXED_BASE { format!("fixed:{}", fixed[sub - FIXED_BASE]) } else { names[sub].clone() };
                let f = Failure {sub: name, index: idx, choices: vec![], notes: vec![],
                    msg: format!("the case (given by seed and number) did not end within {HANG_SECS} s")};
                let p = write_replay(id, &opts, &f);
                eprintln!("--- {} / {} (case {idx}): {}", id, f.sub, f.msg);
                println!("VIOLATION property={} replay={}", id, p.display());
                std::process::exit(1);
            }
        }
    });
}

/// The code under test leaks every compilation context (the library's own
/// closures are reference cycles), so the worker replaces itself by a fresh
/// process when it has grown this large, carrying its statistics over.
const MAX_RSS: u64 = 7 << 30;

fn rss() -> u64 {
    std::fs::read_to_string("/proc/self/statm").ok()
        .and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0) * 4096
}

struct State { sub: usize, next: u64, violations: u64, wall: f64, known_hits: Vec<String>, fixed_run: u64, done: Vec<Stats>, cur: Stats }

impl Stats {
    fn merge(&mut self, st: Stats) {
        self.cases += st.cases; self.evals += st.evals; self.nontrivial += st.nontrivial;
        self.distinct.extend(st.distinct);
        for (k, v) in st.labels { *self.labels.entry(k).or_default() += v; }
        self.samples.extend(st.samples);
        self.samples.sort();
        self.samples.dedup();
        self.samples.truncate(3);
    }
    fn save(&self, o: &mut Vec<u8>) {
        let put = |o: &mut Vec<u8>, s: &str| { o.extend((s.len() as u64).to_le_bytes()); o.extend(s.as_bytes()); };
        for x in [self.cases, self.evals, self.nontrivial, self.distinct.len() as u64] { o.extend(x.to_le_bytes()); }
        for h in self.distinct.iter() { o.extend(h.to_le_bytes()); }
        o.extend((self.labels.len() as u64).to_le_bytes());
        for (k, v) in self.labels.iter() { put(o, k); o.extend(v.to_le_bytes()); }
        o.extend((self.samples.len() as u64).to_le_bytes());
        for s in self.samples.iter() { put(o, s); }
    }
    fn load(r: &mut Rd) -> Stats {
        let mut st = Stats {cases: r.u(), evals: r.u(), nontrivial: r.u(), ..Stats::default()};
        for _ in 0..r.u() { let h = r.u(); st.distinct.insert(h); }
        for _ in 0..r.u() { let k = r.s(); let v = r.u(); st.labels.insert(k, v); }
        for _ in 0..r.u() { let s = r.s(); st.samples.push(s); }
        st
    }
}
struct Rd { b: Vec<u8>, i: usize }
impl Rd {
    fn u(&mut self) -> u64 { let v = u64::from_le_bytes(self.b[self.i..self.i + 8].try_into().unwrap()); self.i += 8; v }
    fn s(&mut self) -> String { let n = self.u() as usize; let s = String::from_utf8(self.b[self.i..self.i + n].to_vec()).unwrap(); self.i += n; s }
}
impl State {
    fn save(&self, p: &Path) {
        let mut o: Vec<u8> = Vec::new();
        for x in [self.sub as u64, self.next, self.violations, self.wall.to_bits(), self.fixed_run, self.known_hits.len() as u64] { o.extend(x.to_le_bytes()); }
        for s in self.known_hits.iter() { o.extend((s.len() as u64).to_le_bytes()); o.extend(s.as_bytes()); }
        o.extend((self.done.len() as u64).to_le_bytes());
        for d in self.done.iter() { d.save(&mut o); }
        self.cur.save(&mut o);
        std::fs::write(p, o).expect("cannot save state");
    }
    fn load(p: &Path) -> State {
        let mut r = Rd {b: std::fs::read(p).expect("cannot load state"), i: 0};
        let mut st = State {sub: r.u() as usize, next: r.u(), violations: r.u(), wall: f64::from_bits(r.u()), fixed_run: r.u(), known_hits: vec![], done: vec![], cur: Stats::default()};
        for _ in 0..r.u() { let s = r.s(); st.known_hits.push(s); }
        for _ in 0..r.u() { let d = Stats::load(&mut r); st.done.push(d); }
        st.cur = Stats::load(&mut r);
        st
    }
}

fn report(prop: &Prop, opts: &Opts, f: &Failure) {
    let path = write_replay(prop.id, opts, f);
    eprintln!("--- {} / {} (case {}): {}", prop.id, f.sub, f.index, cut(&f.msg, 4000));
    for (k, v) in f.notes.iter() { eprintln!("  {k}: {}", cut(v, 3000)); }
    println!("VIOLATION property={} replay={}", prop.id, path.display());
}

pub fn run_prop(prop: &Prop, opts: &Opts, resume: bool) -> i32 {
    let start = Instant::now();
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 8);
    let scratch = std::env::var("PBT_SCRATCH").expect("PBT_SCRATCH");
    let state_file = Path::new(&scratch).join("state");
    let slots = std::sync::Arc::new((0..threads).map(|t| Slot::new(&scratch, t)).collect::<Vec<_>>());
    start_watchdog(prop, opts, slots.clone());

    let mut st = if resume { State::load(&state_file) } else {
        State {sub: 0, next: 0, violations: 0, wall: 0.0, known_hits: vec![], fixed_run: 0, done: vec![], cur: Stats::default()}
    };

    // directed cases first
    if !resume {
        let known = crate::known::load(&opts.verif, prop.id);
        for (i, f) in prop.fixed.iter().enumerate() {
            let run = f.run;
            st.fixed_run += 1;
            slots[0].set(FIXED_BASE + i, 0);
            let r = std::thread::scope(|s| {
                std::thread::Builder::new().stack_size(512 << 20)
                    .spawn_scoped(s, || guarded(run).unwrap_or_else(Err)).unwrap().join().unwrap()
            });
            slots[0].set(usize::MAX, 0);
            if let Err(msg) = r {
                if let Some(k) = known.iter().find(|k| k.key == f.name) {
                    let l = format!("KNOWN-FINDING: property={} {}", prop.id, k.what);
                    println!("{l}");
                    st.known_hits.push(l);
                } else {
                    report(prop, opts, &Failure {sub: format!("fixed:{}", f.name), index: 0, choices: vec![], notes: vec![], msg});
                    st.violations += 1;
                }
            }
        }
    }

    while st.sub < prop.subs.len() {
        let sub_i = st.sub;
        let sub = &prop.subs[sub_i];
        let n = sub_cases(opts, sub);
        let next = AtomicU64::new(st.next);
        let min_fail = AtomicU64::new(u64::MAX);
        let full = std::sync::atomic::AtomicBool::new(false);
        let found: Mutex<Option<Failure>> = Mutex::new(None);
        let merged: Mutex<Stats> = Mutex::new(std::mem::take(&mut st.cur));
        std::thread::scope(|s| {
            for t in 0..threads {
                let (next, min_fail, found, merged, full) = (&next, &min_fail, &found, &merged, &full);
                let slot = &slots[t];
                std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(s, move || {
                    let mut st = Stats::default();
                    loop {
                        if full.load(Ordering::SeqCst) { break; }
                        let lo = next.fetch_add(16, Ordering::SeqCst);
                        if lo >= n { break; }
                        for idx in lo..(lo + 16).min(n) {
                            if idx >= min_fail.load(Ordering::SeqCst) { continue; }
                            slot.set(sub_i, idx);
                            let mut src = Src::random(case_seed(opts, prop.id, sub.name, idx));
                            let r = run_case(sub.run, &mut src);
                            st.cases += 1;
                            st.evals += src.evals.max(1);
                            for l in src.labels.iter() { *st.labels.entry(l.to_string()).or_default() += 1; }
                            if src.nontrivial {
                                st.nontrivial += 1;
                                let mut h = DefaultHasher::new();
                                src.notes.hash(&mut h);
                                st.distinct.insert(h.finish());
                                if idx % 37 == 0 && st.samples.len() < 4 {
                                    st.samples.push(fmt_sample(sub.name, &src.notes));
                                }
                            }
                            if let Err(msg) = r {
                                let mut f = found.lock().unwrap();
                                if idx < min_fail.load(Ordering::SeqCst) {
                                    min_fail.store(idx, Ordering::SeqCst);
                                    *f = Some(Failure {sub: sub.name.into(), index: idx, choices: src.choices.clone(), notes: src.notes.clone(), msg});
                                }
                            }
                        }
                        if t == 0 && rss() > MAX_RSS { full.store(true, Ordering::SeqCst); }
                    }
                    slot.set(usize::MAX, 0);
                    merged.lock().unwrap().merge(st);
                    SCRATCH.with(|s| if let Some(d) = s.borrow_mut().take() { let _ = std::fs::remove_dir_all(d); });
                }).unwrap();
            }
        });
        let m = merged.into_inner().unwrap();
        let failed = found.into_inner().unwrap();
        let done = failed.is_some() || next.load(Ordering::SeqCst) >= n;
        if let Some(f) = failed {
            let f = shrink_on_big_stack(sub.run, f, prop, opts);
            report(prop, opts, &f);
            st.violations += 1;
        }
        if done {
            eprintln!("[{}] {}: {} cases, {} nontrivial ({} distinct), {:.1}s so far", prop.id, sub.name, m.cases, m.nontrivial, m.distinct.len(), st.wall + start.elapsed().as_secs_f64());
            for (k, v) in m.labels.iter() { eprintln!("    {k}: {v}"); }
            st.done.push(m);
            st.sub += 1;
            st.next = 0;
        } else {
            st.next = next.load(Ordering::SeqCst);
            st.cur = m;
        }
        if rss() > MAX_RSS && st.sub < prop.subs.len() {
            st.wall += start.elapsed().as_secs_f64();
            st.save(&state_file);
            use std::os::unix::process::CommandExt;
            let mut args: Vec<String> = std::env::args().skip(1).filter(|a| a != "--resume").collect();
            args.push("--resume".into());
            let e = std::process::Command::new(std::env::current_exe().unwrap()).args(args).exec();
            eprintln!("cannot restart the worker: {e}");
            return 3;
        }
    }

    let mut total = Stats::default();
    let mut per_sub = Vec::new();
    let mut samples = Vec::new();
    for (sub, m) in prop.subs.iter().zip(st.done) {
        per_sub.push(format!(
            "{{\"name\":{},\"cases\":{},\"nontrivial\":{},\"distinct_nontrivial\":{}}}",
            js(sub.name), m.cases, m.nontrivial, m.distinct.len(),
        ));
        total.cases += m.cases; total.evals += m.evals; total.nontrivial += m.nontrivial;
        let salt = hash_str(sub.name);
        total.distinct.extend(m.distinct.into_iter().map(|h| h ^ salt));
        for (k, v) in m.labels { *total.labels.entry(format!("{}: {k}", sub.name)).or_default() += v; }
        samples.extend(m.samples);
    }
    let labels = total.labels.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",");
    let ev = format!(
        "{{\n \"property\":{},\n \"tier\":{},\n \"seed\":{},\n \"level\":\"exploration\",\n \"coverage\":{{\n  \"evaluations\":{},\n  \"cases\":{},\n  \"fixed_cases\":{},\n  \"nontrivial\":{},\n  \"distinct_nontrivial\":{},\n  \"rule\":{},\n  \"sub_checks\":[{}],\n  \"labels\":{{{}}},\n  \"samples\":[{}]\n }},\n \"assumptions\":[{}],\n \"known_findings_reproduced\":{},\n \"violations\":{},\n \"wall_s\":{:.2}\n}}\n",
        js(prop.id), js(&opts.tier), opts.seed, total.evals + st.fixed_run, total.cases, st.fixed_run, total.nontrivial, total.distinct.len(), js(prop.rule),
        per_sub.join(","), labels,
        samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",\n   "),
        prop.assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
        st.known_hits.len(), st.violations, st.wall + start.elapsed().as_secs_f64(),
    );
    let dir = opts.verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", prop.id)), ev) {
        eprintln!("cannot write evidence: {e}");
        return 3;
    }
    if st.violations > 0 { 1 } else { 0 }
}

fn fmt_sample(sub: &str, notes: &[(&'static str, String)]) -> String {
    let mut s = sub.to_string();
    for (k, v) in notes.iter().take(4) { s += &format!(" | {k}: {}", cut(v, 400)); }
    s
}

/// A JSON string literal.
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 0x20 || c == '\u{7f}' => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn shrink_on_big_stack(run: CaseFn, f: Failure, prop: &Prop, opts: &Opts) -> Failure {
    // a candidate which crashes or hangs must not lose the failure at hand
    let path = write_replay(prop.id, opts, &f);
    let dir = std::env::var("PBT_SCRATCH").expect("PBT_SCRATCH");
    let _ = std::fs::write(Path::new(&dir).join("pending"), format!("{}", path.display()));
    let done = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let d2 = done.clone();
    let line = format!("VIOLATION property={} replay={}", prop.id, path.display());
    std::thread::spawn(move || {
        let t = Instant::now();
        while !d2.load(Ordering::SeqCst) {
            if t.elapsed().as_secs() > 120 { println!("{line}"); std::process::exit(1); }
            std::thread::sleep(std::time::Duration::from_millis(200));
        }
    });
    let r = std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(512 << 20)
            .spawn_scoped(s, || shrink(run, f)).unwrap().join().unwrap()
    });
    done.store(true, Ordering::SeqCst);
    let _ = std::fs::remove_file(Path::new(&dir).join("pending"));
    r
}

fn shrink(run: CaseFn, f: Failure) -> Failure {
    let mut best = f;
    let mut budget = 4000i64;
    let start = Instant::now();
    let mut attempt = |cand: Vec<u64>, best: &mut Failure| -> bool {
        // a wall-clock limit here only makes the reproduction less small
        if budget <= 0 || start.elapsed().as_secs() > 60 { return false; }
        budget -= 1;
        let mut src = Src::replaying(cand);
        match run_case(run, &mut src) {
            Err(msg) => {
                let c = src.choices.clone();
                if (c.len(), &c) < (best.choices.len(), &best.choices) {
                    best.choices = c;
                    best.notes = src.notes.clone();
                    best.msg = msg;
                    true
                } else { false }
            },
            Ok(()) => false,
        }
    };
    loop {
        let before = best.choices.clone();
        for k in [64usize, 32, 16, 8, 4, 3, 2, 1] {
            let mut i = best.choices.len();
            while i > 0 {
                i = i.min(best.choices.len());
                let lo = i.saturating_sub(k);
                if i > lo {
                    let mut c = best.choices.clone();
                    c.drain(lo..i);
                    if attempt(c, &mut best) { continue; }
                    let mut c = best.choices.clone();
                    if c[lo..i].iter().any(|&x| x != 0) {
                        c[lo..i].iter_mut().for_each(|x| *x = 0);
                        attempt(c, &mut best);
                    }
                }
                if i == 0 { break; }
                i -= 1.max(if k > 4 { k / 2 } else { 1 }).min(i);
            }
        }
        let mut i = 0;
        while i < best.choices.len() {
            let mut hi = best.choices[i];
            let mut lo = 0;
            while lo < hi && i < best.choices.len() {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.choices.clone();
                c[i] = mid;
                if attempt(c, &mut best) { hi = mid; } else { lo = mid + 1; }
                if hi.saturating_sub(lo) > 1 << 20 { break; }
            }
            i += 1;
        }
        if best.choices == before { break; }
    }
    best
}

pub fn write_replay(id: &str, opts: &Opts, f: &Failure) -> PathBuf {
    let dir = opts.verif.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let name: String = f.sub.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '-' }).collect();
    let path = dir.join(format!("{id}-{name}.replay"));
    let mut s = format!("property {id}\nsub {}\nseed {}\ncase {}\nchoices {}\n", f.sub, opts.seed, f.index,
        f.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" "));
    s += &format!("--- failure\n{}\n", f.msg);
    for (k, v) in f.notes.iter() { s += &format!("--- {k}\n{v}\n"); }
    let _ = std::fs::write(&path, s);
    path
}

/// Re-runs the case saved in a replay file.
pub fn replay(prop: &Prop, file: &Path) -> i32 {
    let text = std::fs::read_to_string(file).expect("cannot read replay file");
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
    let sub = get("sub ");
    let r = if let Some(name) = sub.strip_prefix("fixed:") {
        let f = prop.fixed.iter().find(|f| f.name == name).expect("no such fixed case");
        guarded(f.run).unwrap_or_else(Err)
    } else {
        let s = prop.subs.iter().find(|s| s.name == sub).expect("no such sub check");
        let choices: Vec<u64> = get("choices ").split_whitespace().map(|c| c.parse().unwrap()).collect();
        let mut src = if text.contains("(given by seed and number)") {
            let o = Opts {tier: String::new(), seed: get("seed ").parse().unwrap(), verif: PathBuf::new(), mult: 1.0};
            Src::random(case_seed(&o, prop.id, s.name, get("case ").parse().unwrap()))
        } else { Src::replaying(choices) };
        let r = run_case(s.run, &mut src);
        for (k, v) in src.notes.iter() { eprintln!("--- {k}\n{v}"); }
        r
    };
    match r {
        Ok(()) => { eprintln!("the replayed case passes"); 0 },
        Err(e) => {
            eprintln!("--- failure\n{e}");
            println!("VIOLATION property={} replay={}", prop.id, file.display());
            1
        },
    }
}

/// Runs one case, given as `sub:index` or as `sub@choices`, for the supervisor
/// to find the one that crashes.
pub fn run_one(prop: &Prop, opts: &Opts, spec: &str) -> i32 {
    limit_memory(6 << 30);
    if let Ok(d) = std::env::var("PBT_SCRATCH") { let _ = TRACE.set(Path::new(&d).join("trace")); }
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(s, || {
            let (sub, mut src) = if let Some((sub, idx)) = spec.split_once(':') {
                let sub: usize = sub.parse().unwrap();
                if sub >= FIXED_BASE {
                    let _ = guarded(prop.fixed[sub - FIXED_BASE].run);
                    return;
                }
                (sub, Src::random(case_seed(opts, prop.id, prop.subs[sub].name, idx.parse().unwrap())))
            } else {
                let (sub, c) = spec.split_once('@').unwrap();
                (sub.parse().unwrap(), Src::replaying(c.split_whitespace().map(|c| c.parse().unwrap()).collect()))
            };
            let _ = run_case(prop.subs[sub].run, &mut src);
        }).unwrap().join().unwrap();
    });
    0
}

/// The supervisor: runs the checks in a child process so that a crash of the
/// code under test (a stack overflow, say) is attributed to the case that
/// caused it instead of ending the check.
pub fn supervise(prop: &Prop, opts: &Opts, args: &[String]) -> i32 {
    use std::process::Command;
    let exe = std::env::current_exe().unwrap();
    let base = std::env::temp_dir();
    let scratch = base.join(format!("pbt-{}-{}", prop.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&scratch);
    std::fs::create_dir_all(&scratch).unwrap();
    let limit = if opts.tier == "thorough" { 6 * 3600 } else { 780 };
    let code = (|| {
        let status = run_limited(Command::new(&exe).args(args).arg("--worker").env("PBT_SCRATCH", &scratch), limit);
        match status {
            None => { eprintln!("time limit reached: no verdict"); return 4; },
            Some((Some(c), _)) => return c,
            Some((None, sig)) => eprintln!("worker ended by signal {sig}"),
        }
        if let Ok(p) = std::fs::read_to_string(scratch.join("pending")) {
            // it died while shrinking a failure
            println!("VIOLATION property={} replay={p}", prop.id);
            return 1;
        }
        // find the case
        for t in 0..8 {
            let Ok(s) = std::fs::read_to_string(scratch.join(format!("inflight{t}"))) else { continue; };
            let mut it = s.split_whitespace();
            let (Some(sub), Some(idx)) = (it.next(), it.next()) else { continue; };
            let (Ok(sub), Ok(idx)) = (sub.parse::<usize>(), idx.parse::<u64>()) else { continue; };
            let trace = scratch.join("trace");
            let crashes = |spec: &str| -> Option<(i32, Vec<u64>, String)> {
                let _ = std::fs::write(&trace, "");
                let r = run_limited(Command::new(&exe).args(args).arg("--one").arg(spec).env("PBT_SCRATCH", &scratch), 60);
                let Some((None, sig @ (11 | 6 | 7))) = r else { return None; };
                let t = std::fs::read_to_string(&trace).unwrap_or_default();
                let (c, notes) = t.split_once('\n').unwrap_or(("", ""));
                Some((sig, c.split_whitespace().filter_map(|c| c.parse().ok()).collect(), notes.to_string()))
            };
            let Some((sig, mut choices, mut notes)) = crashes(&format!("{sub}:{idx}")) else { continue; };
            let name = if sub >= FIXED_BASE { format!("fixed:{}", prop.fixed[sub - FIXED_BASE].name) } else { prop.subs[sub].name.to_string() };
            if sub < FIXED_BASE {
                let mut budget = 150;
                for k in [64usize, 32, 16, 8, 4, 2, 1] {
                    let mut i = choices.len();
                    while i > 0 && budget > 0 {
                        let lo = i.saturating_sub(k);
                        let mut c = choices.clone();
                        c.drain(lo..i.min(choices.len()));
                        budget -= 1;
                        let spec = format!("{sub}@{}", c.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" "));
                        match crashes(&spec) {
                            Some((_, c2, n2)) if c2.len() < choices.len() => { choices = c2; notes = n2; i = lo.min(choices.len()); },
                            _ => i = lo,
                        }
                    }
                }
            }
            let f = Failure {sub: name, index: idx, choices, notes: vec![("case", notes)],
                msg: format!("the process running this case died with signal {sig} (stack overflow or abort)")};
            let p = write_replay(prop.id, opts, &f);
            eprintln!("--- {} / {} (case {idx}): {}\n{}", prop.id, f.sub, f.msg, cut(&f.notes[0].1, 3000));
            println!("VIOLATION property={} replay={}", prop.id, p.display());
            return 1;
        }
        eprintln!("no single case reproduces the crash");
        5
    })();
    let _ = std::fs::remove_dir_all(&scratch);
    code
}

/// Limits the address space, so that code which allocates without end aborts.
pub fn limit_memory(bytes: u64) {
    extern "C" { fn setrlimit(resource: i32, lim: *const [u64; 2]) -> i32; }
    const RLIMIT_AS: i32 = 9;
    unsafe { setrlimit(RLIMIT_AS, &[bytes, bytes]); }
}

/// Runs a command with a time limit; gives (exit code, signal), or None when
/// the limit was reached.
pub fn run_limited(cmd: &mut std::process::Command, secs: u64) -> Option<(Option<i32>, i32)> {
    use std::os::unix::process::ExitStatusExt;
    let mut child = cmd.spawn().expect("spawn");
    let start = Instant::now();
    let mut pause = 1;
    loop {
        if let Some(st) = child.try_wait().expect("wait") {
            return Some((st.code(), st.signal().unwrap_or(0)));
        }
        if start.elapsed().as_secs() > secs {
            let _ = child.kill();
            let _ = child.wait();
            return None;
        }
        std::thread::sleep(std::time::Duration::from_millis(pause));
        pause = (pause * 2).min(50);
    }
}
