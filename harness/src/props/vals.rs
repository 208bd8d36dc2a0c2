//! Values with a source form and a model.
use crate::engine::*;
use crate::lang::*;

/// Elements: how they are written, and how they render.
pub const ELEMS: &[(&str, &str)] = &[
    ("<b>x</>", "<b>x</b>"), ("<i/>", "<i></i>"), ("{p <b>x</>}", "p <b>x</b>"), ("<p>x</>", "<p>x</p>"), ("<br>", "<br>"),
    ("<span id=`a`>y</>", "<span id=\"a\">y</span>"), ("{<b>x</><i/>}", "<b>x</b><i></i>"),
];

pub const KEYS: &[&str] = &["a", "b", "k1", "foo_bar", "len", "x"];

pub fn string(s: &mut Src) -> String {
    match s.weighted(&[4, 2, 1, 1]) {
        0 => s.pick(&["a", "b", "ab", "foo", "x1", ""]).to_string(),
        1 => s.vec(0, 6, |s| *s.pick(&['a', 'b', 'Z', ' ', 'é', 'ß', '-', '1', '漢', '😀', '.', '\n'])).into_iter().collect(),
        2 => s.pick(&["True", "1", "-1", "<b>", "&amp;", "$x", "\\n", "{", "``"]).to_string(),
        _ => s.vec(0, 12, |s| *s.pick(&['a', 'b', ' ', '\t', 'ı', 'İ', 'Σ', 'ﬁ', '\u{301}', '\u{a0}', '\u{2003}', 'ẞ', '\r'])).into_iter().collect(),
    }
}

pub fn scalar(s: &mut Src) -> V {
    match s.weighted(&[4, 4, 1, 1]) {
        0 => V::Int(if s.chance(1, 8) { s.int() } else { s.range(0, 5) }),
        1 => V::Str(string(s)),
        2 => V::Bool(s.coin()),
        _ => V::unit(),
    }
}

pub fn value(s: &mut Src, depth: u32) -> V {
    if depth == 0 { return scalar(s); }
    match s.weighted(&[6, 2, 1, 1]) {
        0 => scalar(s),
        1 => V::List(s.vec(0, 4, |s| value(s, depth - 1))),
        2 => { let mut d: Vec<(String, V)> = vec![]; s.vec(0, 3, |s| { let k = s.pick(KEYS).to_string(); let v = value(s, depth - 1); if !d.iter().any(|x| x.0 == k) { d.push((k, v)); } }); V::Dict(d) },
        _ => V::Html(s.pick(ELEMS).1.to_string()),
    }
}

/// A list, of few distinct values so that there are repeats.
pub fn list(s: &mut Src) -> Vec<V> {
    match s.us(5) {
        0 => s.vec(0, 8, |s| V::Int(s.range(-3, 5))),
        1 => s.vec(0, 8, |s| V::Str(string(s))),
        2 => { let pool: Vec<V> = (0..3).map(|_| value(s, 1)).collect(); s.vec(0, 9, |s| s.pick(&pool).clone()) },
        3 => s.vec(0, 5, |s| V::List(s.vec(0, 3, |s| value(s, 1)))),
        _ => s.vec(0, 6, |s| value(s, 2)),
    }
}

pub fn str_src(s: &mut Src, v: &str) -> String {
    let mut forms = vec![str_lit(v)];
    if !v.is_empty() && v.starts_with(|c: char| c.is_ascii_alphabetic()) && v.chars().all(|c| c.is_ascii_alphanumeric()) && v != "True" && v != "False" { forms.push(v.to_string()); forms.push(format!("\"{v}\"")); }
    if !v.contains("``") && !v.is_empty() && !v.starts_with('`') && !v.ends_with('`') && !v.contains(&['\r', '\n'][..]) { forms.push(format!("``{v}``")); }
    s.pick(&forms).clone()
}

/// An expression which denotes the value.
pub fn src(s: &mut Src, v: &V) -> String {
    match v {
        V::Bool(b) => if *b { "True".into() } else { "False".into() },
        V::Int(i) => i.to_string(),
        V::Str(t) => str_src(s, t),
        V::List(l) => {
            let mut items = vec![];
            let mut i = 0;
            while i < l.len() {
                // a part of the list may be spread into it
                if s.chance(1, 12) {
                    let k = i + s.us(l.len() - i + 1);
                    items.push(format!("*{}", src(s, &V::List(l[i..k].to_vec()))));
                    i = k;
                } else {
                    items.push(src(s, &l[i]));
                    i += 1;
                }
            }
            format!("[{}]", items.join(", "))
        },
        V::Dict(d) => format!("@dict::new({}).", d.iter().map(|(k, v)| format!("{k}={}", src(s, v))).collect::<Vec<_>>().join(", ")),
        V::Html(h) if h.is_empty() => s.pick(&[".", "{}", "{ }"]).to_string(),
        V::Html(h) => ELEMS.iter().find(|e| e.1 == h).expect("an element of the table").0.to_string(),
        V::Func | V::Regex(_) => unreachable!(),
    }
}

/// Equality of values, as the language has it.
pub fn equal(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::List(a), V::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| equal(a, b)),
        (V::Dict(a), V::Dict(b)) => a.len() == b.len() && a.iter().all(|(k, v)| b.iter().any(|(k2, v2)| k == k2 && equal(v, v2))),
        (V::Func, V::Func) => false,
        (a, b) => a == b,
    }
}

pub fn keys() -> Vec<String> { KEYS.iter().map(|k| k.to_string()).collect() }

/// An expected result: a value, or an error.
pub type R = Result<V, ()>;

/// A program under construction, of exports with expected values.
#[derive(Default)]
pub struct Prog {
    pub src: String,
    pub want: Vec<(String, R)>,
    pub depth: usize,
    pub extra: Vec<String>,
}

impl Prog {
    pub fn export(&mut self, expr: &str, want: R) -> String {
        let name = format!("r{}", self.want.len());
        if want.is_ok() { self.src += &format!("@export @let({name}={expr}) {{\n"); self.depth += 1; }
        else { self.src += &format!("@export({name}={expr}).\n"); }
        self.want.push((name.clone(), want));
        name
    }
    /// Compiles the program, and compares the exports with the model.
    pub fn check(&self, s: &mut Src) -> CaseResult {
        let src = format!("{}{}", self.src, "}".repeat(self.depth));
        s.note("program", src.clone());
        let mut names = keys();
        names.extend(self.want.iter().map(|w| w.0.clone()));
        names.extend(self.extra.iter().cloned());
        names.sort(); names.dedup();
        s.tick();
        let e = eval(&src, &names)?;
        let mut errs = 0;
        for (n, w) in &self.want {
            match (w, e.get(n)) {
                (Ok(w), Some(g)) if w == g => {},
                (Ok(w), Some(g)) => return Err(format!("{n} is {g:?}, expected {w:?}")),
                (Ok(w), None) => return Err(format!("{n} is not exported, expected {w:?}\n{}", e.out.printed)),
                (Err(()), Some(g)) => return Err(format!("{n} is {g:?}, expected an error")),
                (Err(()), None) => errs += 1,
            }
        }
        if errs != e.out.errors { return Err(format!("{} errors are reported, expected {errs}\n{}", e.out.errors, e.out.printed)); }
        if e.out.warnings != 0 { return Err(format!("unexpected warnings\n{}", e.out.printed)); }
        Ok(())
    }
}
