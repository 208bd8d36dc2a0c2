//! C02: diagnostics point at the exact file, line, column and call chain.
use crate::engine::*;
use crate::lang::*;
use papyri_lang::compiler::Context;
use papyri_lang::errors::ReportingLevel;
use std::collections::HashMap;
use super::{c18, c02_table::{FIRST, TABLE}, gen, progs};

// ---- the model: what a program does, as far as diagnostics are concerned ----

/// A position, which is marked in the emitted text by a private-use character.
type Mark = u32;
const MARK0: u32 = 0xE000;

#[derive(Clone, Debug)]
struct Bad { at: Mark, msg: String, traced: bool }

/// A step of a sequence; `text` has the marks in it.
#[derive(Clone, Debug)]
enum Step {
    /// Nothing happens.
    Quiet,
    /// Reports; in an expression (not a warning), the expression fails.
    Bad(Bad),
    /// Calls function number `f` at a position.
    Call(usize, Mark),
    /// Calls a function that calls function number `f`: the position of the call, its name, and the position inside.
    Through(usize, Mark, &'static str, Mark),
    /// Evaluates the first expression; then, unless it failed, calls the function whose body is the second.
    CallWith(Box<Step>, Mark, String, Box<Body>),
    /// Runs a callback for each of a number of values, until one fails.
    Map(usize, Mark, usize),
    /// Calls a function which calls itself, by way of the functions and positions of the second, a number of times, and then runs its body.
    Recurse(Mark, String, Vec<(Mark, String)>, Box<Body>),
    /// A sequence, in which each step runs whatever happens to the others.
    Seq(Vec<Step>),
    /// A sequence, and then an expression.
    Then(Vec<Step>, Box<Step>),
    /// Imports file number `m`, by a path relative to the directory of the file.
    Import(usize, String),
}
#[derive(Clone, Debug)]
struct Body { steps: Vec<Step>, braces: bool }
#[derive(Clone, Copy, Debug, PartialEq)]
enum Sig { Dot, Content, Pos }
#[derive(Clone, Debug)]
struct Func { name: String, file: usize, sig: Sig, body: Body }
#[derive(Clone, Debug, Default)]
struct File { dir: String, stem: String, text: String, parse: Vec<Bad>, steps: Vec<Step> }
#[derive(Debug)]
struct Prog { files: Vec<File>, funcs: Vec<Func> }

/// A diagnostic, as it is expected.
#[derive(Clone, Debug, PartialEq)]
struct Exp { msg: String, locs: Vec<(String, u32, u32, Option<String>)>, traced: bool }
impl Exp {
    fn warning(&self) -> bool { self.msg.starts_with("Warning: ") }
    fn print(&self) -> String {
        // in some messages there are paths relative to the file
        let file = &self.locs.last().unwrap().0;
        let this = Exp {msg: self.msg.replace('\u{1}', &file[..file.rfind('/').map_or(0, |k| k + 1)]), ..self.clone()};
        this.print_as_it_is()
    }
    fn print_as_it_is(&self) -> String {
        let mut o = String::new();
        if self.traced { o += "Traceback (most recent call last):\n"; } else { o += &self.msg; o += "\n"; }
        for (f, l, c, n) in &self.locs {
            o += &format!("    File \"{f}\", line {l}, col {c}");
            if let Some(n) = n { o += &format!(", in @{n}"); }
            o.push('\n');
        }
        if self.traced { o += &self.msg; o.push('\n'); }
        o
    }
}

fn strip(t: &str) -> String { t.chars().filter(|c| !(MARK0..0xF8FF).contains(&(*c as u32))).collect() }

/// The line and column of each mark.
fn positions(t: &str, out: &mut HashMap<Mark, (usize, u32, u32)>, file: usize) {
    let (mut l, mut c) = (1, 1);
    for ch in t.chars() {
        if (MARK0..0xF8FF).contains(&(ch as u32)) { out.insert(ch as u32, (file, l, c)); continue; }
        if ch == '\n' { l += 1; c = 1; } else { c += 1; }
    }
}

struct Run<'a> { p: &'a Prog, pos: &'a HashMap<Mark, (usize, u32, u32)>, names: Vec<Option<String>>, out: Vec<Exp>, stack: Vec<(Mark, String)>, deepest: usize, files_in_trace: usize, fuel: u32 }
impl Run<'_> {
    fn loc(&self, m: Mark, name: Option<String>) -> (String, u32, u32, Option<String>) { let (f, l, c) = self.pos[&m]; (self.names[f].clone().unwrap_or_default(), l, c, name) }
    fn report(&mut self, b: &Bad) {
        let mut locs = vec![];
        if b.traced {
            let mut name = None;
            for (m, n) in &self.stack { locs.push(self.loc(*m, name)); name = Some(n.clone()); }
            locs.push(self.loc(b.at, name));
        } else { locs.push(self.loc(b.at, None)); }
        self.deepest = self.deepest.max(locs.len());
        let mut fs: Vec<_> = locs.iter().map(|l| l.0.clone()).collect(); fs.sort(); fs.dedup();
        self.files_in_trace = self.files_in_trace.max(fs.len());
        self.out.push(Exp {msg: b.msg.clone(), locs, traced: b.traced});
    }
    /// `Err` if the expression fails.
    fn step(&mut self, s: &Step) -> Result<(), ()> {
        self.fuel = self.fuel.saturating_sub(1);
        match s {
            Step::Quiet => Ok(()),
            Step::Bad(b) => { self.report(b); if b.msg.starts_with("Warning") { Ok(()) } else { Err(()) } },
            Step::Call(f, at) => self.call(*f, *at),
            Step::Through(f, at, name, inner) => {
                self.stack.push((*at, name.to_string()));
                let r = self.call(*f, *inner);
                self.stack.pop();
                r
            },
            Step::CallWith(e, at, name, body) => {
                self.step(e)?;
                self.stack.push((*at, name.clone()));
                let r = self.body(body);
                self.stack.pop();
                r
            },
            Step::Recurse(at, name, inner, body) => {
                let k = self.stack.len();
                self.stack.push((*at, name.clone()));
                self.stack.extend(inner.iter().cloned());
                let r = self.body(body);
                self.stack.truncate(k);
                r
            },
            Step::Map(f, at, n) => { for _ in 0..*n { self.call(*f, *at)?; } Ok(()) },
            Step::Seq(v) => { for s in v { let _ = self.step(s); } Ok(()) },
            Step::Then(v, e) => { for s in v { let _ = self.step(s); } self.step(e) },
            Step::Import(m, path) => {
                if self.names[*m].is_none() {
                    self.names[*m] = Some(path.clone());
                    let saved = std::mem::take(&mut self.stack);
                    self.file(*m);
                    self.stack = saved;
                }
                Ok(())
            },
        }
    }
    fn body(&mut self, b: &Body) -> Result<(), ()> {
        for s in &b.steps { let r = self.step(s); if !b.braces { return r; } }
        Ok(())
    }
    fn call(&mut self, f: usize, at: Mark) -> Result<(), ()> {
        if self.fuel == 0 || self.out.len() > 300 { self.fuel = 0; return Ok(()); }
        let p = self.p;
        self.stack.push((at, p.funcs[f].name.clone()));
        let r = self.body(&p.funcs[f].body);
        self.stack.pop();
        r
    }
    fn file(&mut self, m: usize) {
        let p = self.p;
        for b in &p.files[m].parse { self.report(b); }
        for s in &p.files[m].steps { let _ = self.step(s); }
    }
}

// ---- generating programs ----

struct G { marks: u32, fresh: u32, parse: Vec<Bad>, ap: Mark }

/// Text which means nothing: no paragraph breaks, and it ends where anything may follow.
fn noise(s: &mut Src, o: &mut String) {
    for _ in 0..s.us(4) {
        match s.us(15) {
            0 => *o += "é",
            1 => *o += "𝄞 日本\u{301}",
            2 => *o += "\nw",
            3 => *o += "# c é - {<\nw",
            4 => *o += "<!-- é\n\n𝄞 { --> ",
            5 => *o += "&eacute; ",
            6 => *o += "\\@\\x41 ",
            7 => *o += "`é\\$x \u{a0}` ",
            8 => *o += "<i x=```\n𝄞\n\né\n```/>",
            9 => *o += "<i>é\n</i> ",
            10 => *o += "\ta\t",
            11 => *o += "a\u{2028}b\u{85}\u{c}c",
            12 => *o += "x\r\ny",
            13 => *o += "x\ry\r\rz ",
            _ => { *o += &gen::word(s); },
        }
    }
    o.push(' ');
}

impl G {
    fn mark(&mut self, o: &mut String) -> Mark { let m = MARK0 + self.marks; self.marks += 1; o.push(char::from_u32(m).unwrap()); m }
    fn name(&mut self, p: &str) -> String { self.fresh += 1; format!("{p}{}_", self.fresh) }
    /// A program of the table.
    fn table(&mut self, s: &mut Src, o: &mut String, fails: bool) -> Step {
        let kind = |m: &str| match () {
            _ if m.starts_with("Syntax") || m.contains("type modifier") => 0,
            _ if !m.starts_with("Warning") => 2,
            _ => 1,
        };
        let of: Vec<usize> = (0..TABLE.len()).filter(|&i| TABLE[i].2.iter().any(|d| kind(d.1) == 2) == fails).collect();
        let (text, soft, diags) = TABLE[*s.pick(&of)];
        let n = self.name("");
        let mut marks = vec![];
        for (i, part) in text.split('§').enumerate() {
            if i > 0 { let m = self.mark(o); marks.push(m); }
            *o += &part.replace('\u{2}', &n);
        }
        let mut step = Step::Quiet;
        for (k, msg) in diags {
            let traced = kind(msg) == 2 || ["cannot enumerate", "inline code cannot", "no syntax highlighter"].iter().any(|w| msg.contains(w));
            let b = Bad {at: marks[*k], msg: msg.replace('\u{2}', &n), traced};
            if kind(msg) == 0 { self.parse.push(b); } else if soft { step = Step::Seq(vec![Step::Bad(b)]); } else { step = Step::Bad(b); }
        }
        step
    }
    /// An expression which fails.
    fn bad(&mut self, s: &mut Src, o: &mut String) -> Step {
        if s.coin() { return self.table(s, o, true); }
        let mut at = 0;
        macro_rules! m { ($($x:expr),*) => { { let parts: &[&str] = &[$($x),*]; *o += parts[0]; at = self.mark(o); for p in &parts[1..] { *o += p; } } } }
        let n = self.name("nope");
        let msg = match s.us(17) {
            0 => { m!("", "$", &n); format!("Name error: no such variable '{n}'") },
            1 => { m!("", "@", &n, "."); format!("Name error: no such variable '{n}'") },
            2 => { m!("", "@raise `é<`"); "Runtime error: é<".into() },
            3 => { m!("", "@match 1 {2 -> 3}"); "Runtime error: no matching branch in @match".into() },
            4 => { m!("@int_(", "`é`)."); "Type error: expected int, was str".into() },
            5 => { m!("<a href=", "$", &n, ">x</a>"); format!("Name error: no such variable '{n}'") },
            6 => { m!("", "@int_(1, 2)."); "Type error: too many positional arguments (expected 1, was 2)".into() },
            7 => { m!("@int_(", "q=1)."); "Name error: no such parameter 'q'".into() },
            8 => { m!("", "@int_."); "Type error: not enough positional arguments (expected 1, was 0)".into() },
            9 => { m!("@int_(1)", "{é}"); "Type error: expected none, was str".into() },
            10 => { m!("", "$int_::yy"); "Name error: value of type 'function' has no such attribute 'yy'".into() },
            11 => { m!("<", "$int_>é</>"); "Type error: expected str, was function".into() },
            12 => { m!("", "@list::get(7)[1, `é`]"); "Runtime error: index out of bounds (index 7, length 2)".into() },
            13 => { m!("@list::map(", "1)[`é`]"); "Type error: expected function, was int".into() },
            14 => { m!("<b x=", "$int_>é</b>"); "Type error: expected str, was function".into() },
            15 => { m!("", "@named_."); "Runtime error: missing required parameter 'x'".into() },
            _ => { m!("", "@int::parse `é`"); "Runtime error: failed to parse int (invalid digit found in string)".into() },
        };
        Step::Bad(Bad {at, msg, traced: true})
    }
    /// A warning, or a syntax error which spoils nothing but itself.
    fn odd(&mut self, s: &mut Src, o: &mut String) -> Step {
        if s.chance(2, 3) { return self.table(s, o, false); }
        let mut at = 0;
        macro_rules! m { ($($x:expr),*) => { { let parts: &[&str] = &[$($x),*]; *o += parts[0]; at = self.mark(o); for p in &parts[1..] { *o += p; } } } }
        let n = self.name("w");
        match s.us(5) {
            0 => { m!("@match [1,2] {[$x, ", "$x] -> ., _ -> .}"); Step::Bad(Bad {at, msg: "Warning: name 'x' already bound in this pattern; did you mean '=$x'?".into(), traced: false}) },
            1 => { m!("", "@code(language=`é`) \"abc\""); Step::Bad(Bad {at, msg: "Warning: no syntax highlighter found for language \"é\"".into(), traced: true}) },
            2 => { m!(&format!("@fn {n} $x: str?"), "? -> ."); self.parse.push(Bad {at, msg: "Warning: type modifier '?' is redundant here".into(), traced: false}); Step::Quiet },
            3 => { m!("", "&nosuch;"); self.parse.push(Bad {at, msg: "Syntax error: invalid entity".into(), traced: false}); Step::Quiet },
            _ => { m!("", "\\xzz"); self.parse.push(Bad {at, msg: "Syntax error: invalid Unicode escape".into(), traced: false}); Step::Quiet },
        }
    }
    /// An expression; `callable` are the functions, with how they are written.
    fn expr(&mut self, s: &mut Src, o: &mut String, callable: &[(usize, String, Sig)], d: u32) -> Step {
        match s.weighted(&[3, 1, if callable.is_empty() { 0 } else { 10 }, 1]) {
            0 => self.bad(s, o),
            1 => { *o += s.pick(&["1", "`é`", "<i>é</i>", "{é}"]); Step::Quiet },
            2 => self.call(s, o, callable, d),
            _ => {
                let v = s.coin();
                if v { *o += "@match `é` {`x` -> 1, _ -> "; }
                *o += "{"; let b = self.seq(s, o, callable, d, 3); *o += "}";
                if v { *o += "}"; }
                Step::Seq(b)
            },
        }
    }
    fn call(&mut self, s: &mut Src, o: &mut String, callable: &[(usize, String, Sig)], d: u32) -> Step {
        let (f, name, sig) = s.pick(callable).clone();
        match s.us(8) {
            0 => {
                // through a variable, or a function with some of its arguments
                let v = self.name("v");
                let bound = sig != Sig::Dot && s.coin();
                *o += &if !bound { format!("{{@let({v}=${name})...") } else if sig == Sig::Content { format!("{{@let({v}=@function::bind(${name}) `é`)...") } else { format!("{{@let({v}=@function::bind(${name}, 1).)...") };
                noise(s, o);
                let at = self.mark(o);
                *o += "@";
                *o += &v;
                *o += match sig { Sig::Dot => ".", _ if bound => ".", Sig::Content => "{é}", Sig::Pos => "(1)." };
                *o += "}";
                Step::Seq(vec![Step::Call(f, at)])
            },
            1 if d > 0 => {
                // with an argument, or content, which is evaluated by the caller
                let (pre, post) = *s.pick(&[("id_(", ")."), ("idc_ ", "")]);
                let at = self.mark(o);
                *o += "@";
                *o += pre;
                let e = self.expr(s, o, callable, d - 1);
                *o += post;
                Step::CallWith(Box::new(e), at, pre.trim_matches(['(', ' ']).to_string(), Box::new(Body {steps: vec![], braces: true}))
            },
            2 if sig == Sig::Dot => {
                let at = self.mark(o); *o += "@"; *o += &format!("ap_(${name}).");
                Step::Through(f, at, "ap_", self.ap)
            },
            3 if sig == Sig::Content => {
                let k = s.us(3);
                *o += "@match ";
                let at = self.mark(o); *o += "@"; *o += &format!("list::map(${name})[{}] {{_ -> .}}", vec!["1"; k].join(", "));
                Step::Map(f, at, k)
            },
            4 if d > 0 => {
                // an anonymous function
                let v = self.name("a");
                *o += &format!("{{@let({v}=@fn . -> ");
                let b = self.body(s, o, callable, d - 1);
                *o += ")...";
                noise(s, o);
                let at = self.mark(o); *o += "@"; *o += &v; *o += ".}";
                Step::Seq(vec![Step::CallWith(Box::new(Step::Quiet), at, "<anonymous>".into(), Box::new(b))])
            },
            6 if d > 0 && s.coin() => {
                // a function which calls itself, or two which call each other
                let a = self.name("r");
                let mutual = s.coin();
                let b = if mutual { self.name("r") } else { a.clone() };
                let n = if s.chance(1, 6) { 9 + s.us(50) } else { s.us(6) };
                *o += &format!("{{@fn {a} $x -> @match $x {{[] -> ");
                let body = self.body(s, o, callable, d - 1);
                *o += s.pick(&[", [_, *$t] -> ", ",\n[_, *$t] -> "]);
                let i1 = self.mark(o); *o += &format!("@{b} $t}}\n");
                let i2 = if mutual { *o += &format!("@fn {b} $x -> "); let m = self.mark(o); *o += &format!("@{a} $x\n"); Some(m) } else { None };
                noise(s, o);
                let at = self.mark(o);
                *o += &format!("@{a} [{}]}}", vec!["1"; n].join(", "));
                let mut inner = vec![];
                for _ in 0..n { inner.push((i1, b.clone())); if let Some(m) = i2 { inner.push((m, a.clone())); } }
                Step::Seq(vec![Step::Recurse(at, a, inner, Box::new(body))])
            },
            5 if d > 0 && s.coin() => {
                // a default, which is evaluated where the function is defined
                let v = self.name("g");
                *o += &format!("{{@fn {v}($x=");
                let e = self.expr(s, o, callable, d - 1);
                *o += ") . -> .}";
                Step::Seq(vec![e])
            },
            _ => {
                let at = self.mark(o); *o += "@"; *o += &name;
                match sig {
                    Sig::Dot => { *o += "."; Step::Call(f, at) },
                    Sig::Pos => { *o += "("; *o += s.pick(&["1", "```\né\n𝄞\n```", "[1,\n2]"]); *o += ")."; Step::Call(f, at) },
                    Sig::Content => {
                        if d > 0 && s.coin() { *o += "{"; let b = self.seq(s, o, callable, d - 1, 2); *o += "}"; Step::Then(b, Box::new(Step::Call(f, at))) }
                        else { *o += s.pick(&[" 1", "{é\n𝄞}", "```\na\nb\n```"]); Step::Call(f, at) }
                    },
                }
            },
        }
    }
    fn seq(&mut self, s: &mut Src, o: &mut String, callable: &[(usize, String, Sig)], d: u32, max: usize) -> Vec<Step> {
        let mut v = vec![];
        for _ in 0..s.us(max + 1) {
            noise(s, o);
            match s.us(6) {
                0 => v.push(self.odd(s, o)),
                1 => { let (a, b) = *s.pick(&[("<b>", "</b>"), ("{", "}"), ("<span x=`é𝄞`\n>", "</>"), ("@let(y_=1)... {", "}")]); if d > 0 { *o += a; let x = self.seq(s, o, callable, d - 1, 2); *o += b; v.push(Step::Seq(x)); } },
                _ => v.push(self.expr(s, o, callable, d)),
            }
            o.push(' ');
        }
        noise(s, o);
        v
    }
    fn body(&mut self, s: &mut Src, o: &mut String, callable: &[(usize, String, Sig)], d: u32) -> Body {
        if s.chance(1, 4) { return Body {steps: vec![self.expr(s, o, callable, d)], braces: false}; }
        *o += "{";
        let steps = self.seq(s, o, callable, d, 3);
        *o += "}";
        Body {steps, braces: true}
    }
}

/// Things which a file can end with, that are not complete.
fn tail(g: &mut G, s: &mut Src, o: &mut String) {
    let (pre, text, msg) = *s.pick(&[
        ("", "{é", "unmatched '{'"),
        ("", "`é", "unexpected end of source in string literal"),
        ("", "```\né\n", "unexpected end of source in string literal"),
        ("", "<b>é", "unmatched opening tag"),
        ("", "</b>", "unmatched closing tag"),
        ("", "@fn . -> 1", "anonymous function not allowed here"),
        ("@let(z_=1) ", "2", "let expression with literal has no effect; did you mean '...'?"),
        ("@fn z_($a, ", "$a) . -> 1", "duplicate parameter name 'a'"),
        ("@fn z_($a,\n", "$_b) . -> 1", "positional parameter cannot occur after named parameter"),
        ("@fn z_ ($a: str, $b: ", "foo) . -> 1", "not a primitive type name"),
    ]);
    *o += "\n\n";
    noise(s, o);
    if s.chance(1, 3) { return unfinished(g, s, o); }
    *o += pre;
    let at = g.mark(o);
    *o += text;
    g.parse.push(Bad {at, msg: format!("Syntax error: {msg}"), traced: false});
}

/// The source ends in the middle of a construct: `^` is before what is not
/// closed, and the number is how often the end is met.
fn unfinished(g: &mut G, s: &mut Src, o: &mut String) {
    let (text, n) = *s.pick(&[
        ("@fn", 1), ("@fn z_", 1), ("@fn z_^($a", 2), ("@fn z_ $x ->", 1), ("@fn z_($a: int) .", 1),
        ("@let^(", 1), ("@let^(z_=", 1), ("@let(z_=1)", 1), ("@match", 1), ("@match 1", 1), ("@match `é`^{", 1), ("@match 1 ^{1 ->", 1), ("@match 1\n^{^[$x,", 1),
        ("^<b x=", 1), ("^<b", 1), ("@raise", 1), ("@raise^(", 1), ("@id_^(a=", 1), ("@id_^(*", 1), ("@export^(", 1), ("@export @fn", 1),
        ("@let^(z_=^\"é", 1), ("^[1,", 1), ("^[", 1), ("@id_^(^[1", 2), ("@match 1 ^{_:", 1),
    ]);
    let mut bad = vec![];
    let mut open = None;
    for c in text.chars() {
        if c == '^' { open = Some(g.mark(o)); continue; }
        if let Some(at) = open.take() {
            bad.push((at, match c { '"' => "unmatched double-quote".to_string(), c => format!("unmatched '{c}'") }));
            let close = match c { '(' => ")", '[' => "]", '{' => "}", '<' => ">", _ => "" };
            if !close.is_empty() { bad.push((0, format!("expected '{close}', was end of course"))); }
        }
        o.push(c);
    }
    o.push(' ');
    // nothing that belongs to a quotation may follow, as it would be part of it
    for _ in 0..s.us(4) { *o += if text.contains('"') { " " } else { s.pick(&[" ", "\t", "\n", "\r\n"]) }; if !text.contains('"') { *o += s.pick(&["# é\n", "<!-- é𝄞 -->", "\n\n", "<!--\n\n-->", "# 日\n"]); } }
    if !text.contains('"') { *o += s.pick(&["", "", "<!-- é 𝄞", "# 日"]); }
    let end = g.mark(o);
    for _ in 0..n { bad.push((0, "unexpected end of source".into())); }
    for (at, msg) in bad { g.parse.push(Bad {at: if at == 0 { end } else { at }, msg: format!("Syntax error: {msg}"), traced: false}); }
}

fn program(s: &mut Src, max_files: usize) -> Prog { program_and(s, max_files, true) }
fn program_and(s: &mut Src, max_files: usize, tails: bool) -> Prog {
    let nf = 1 + s.us(max_files);
    let mut p = Prog {files: vec![], funcs: vec![]};
    let dirs = ["", "d/", "d/e/"];
    for i in 0..nf { p.files.push(File {dir: if i == 0 { String::new() } else { s.pick(&dirs).to_string() }, stem: if i == 0 { "main".into() } else { format!("m{i}") }, ..File::default()}); }
    let mut g = G {marks: 0, fresh: 0, parse: vec![], ap: 0};
    // the last file first: it imports nothing
    for i in (0..nf).rev() {
        let mut o = String::new();
        let mut steps = vec![];
        g.parse.clear();
        if i > 0 || s.coin() { noise(s, &mut o); o += "\n\n"; }
        o += "@fn id_($_x) . -> $_x\n@fn idc_ $x -> $x\n@fn int_($_x: int) . -> $_x\n@fn named_($x: int) . -> $x\n@fn ap_($_f: function) . -> ";
        g.ap = g.mark(&mut o);
        o += "@_f.\n";
        let mut callable: Vec<(usize, String, Sig)> = vec![];
        for j in i + 1..nf {
            if j != i + 1 && s.coin() { continue; }
            // the directory of this file is left for the top
            let up = "../".repeat(p.files[i].dir.matches('/').count());
            let rel = format!("{up}{}{}", p.files[j].dir, p.files[j].stem);
            noise(s, &mut o);
            o += &format!("@let(m{j}=@import `{rel}`)... ");
            steps.push(Step::Import(j, format!("{}{rel}.papyri", p.files[i].dir)));
            for (k, f) in p.funcs.iter().enumerate() { if f.file == j { callable.push((k, format!("m{j}::{}", f.name), f.sig)); } }
        }
        for _ in 0..s.us(if i == 0 { 4 } else { 3 }) + (i > 0) as usize {
            noise(s, &mut o);
            if i == 0 && s.chance(1, 4) { o += "\n\n"; }
            let name = g.name("f");
            let sig = *s.pick(&[Sig::Dot, Sig::Content, Sig::Pos]);
            o += if i > 0 { "@export @fn " } else { "@fn " };
            o += &name;
            o += match sig { Sig::Dot => " . -> ", Sig::Content => " $_c -> ", Sig::Pos => "($_p) . -> " };
            let body = g.body(s, &mut o, &callable, 2);
            o.push('\n');
            let k = p.funcs.len();
            p.funcs.push(Func {name: name.clone(), file: i, sig, body});
            callable.push((k, name, sig));
        }
        let more = g.seq(s, &mut o, &callable, 2, if i == 0 { 5 } else { 2 });
        steps.extend(more);
        if s.chance(1, 6) {
            // the same name exported more than once
            let n = g.name("x");
            o += &format!("@export({n}=1). ");
            for _ in 0..1 + s.us(2) {
                noise(s, &mut o);
                o += "@export(";
                if s.coin() { o += &g.name("y"); o += "=`é`, "; }
                o += &n;
                o.push('=');
                let at = g.mark(&mut o);
                o += s.pick(&["1). ", "`é`). ", "$id_). "]);
                steps.push(Step::Bad(Bad {at, msg: format!("Warning: name '{n}' already exported"), traced: false}));
            }
        }
        if tails && s.chance(1, 4) { tail(&mut g, s, &mut o); }
        let f = &mut p.files[i];
        f.text = o; f.steps = steps; f.parse = std::mem::take(&mut g.parse);
    }
    p
}

/// What is reported, and how deep; none if the program runs for too long.
fn expected(p: &Prog, main: &str) -> Option<(Vec<Exp>, usize, usize)> {
    let mut pos = HashMap::new();
    for (i, f) in p.files.iter().enumerate() { positions(&f.text, &mut pos, i); }
    let mut r = Run {p, pos: &pos, names: vec![None; p.files.len()], out: vec![], stack: vec![], deepest: 0, files_in_trace: 0, fuel: 5000};
    r.names[0] = Some(main.into());
    r.file(0);
    if r.fuel == 0 { return None; }
    Some((r.out, r.deepest, r.files_in_trace))
}

fn summary(errors: usize, warnings: usize) -> String {
    let s = |n: usize| if n == 1 { "" } else { "s" };
    if errors > 0 { format!("failed, {errors} error{}, {warnings} warning{}", s(errors), s(warnings)) }
    else if warnings > 0 { format!("OK, {warnings} warning{}", s(warnings)) } else { "OK".into() }
}

fn note(s: &mut Src, p: &Prog) { let t = p.files.iter().map(|f| format!("--- {}{}.papyri\n{}", f.dir, f.stem, strip(&f.text))).collect::<Vec<_>>().join("\n"); s.note("program", t); }

/// In any order, but for that of syntax errors, which is that of evaluation.
fn sorted(t: &str) -> String {
    let mut blocks: Vec<String> = vec![];
    let mut rest = vec![];
    let lines: Vec<&str> = t.split('\n').collect();
    let mut i = 0;
    while i < lines.len() {
        if lines[i].starts_with("Traceback") || i + 1 < lines.len() && lines[i + 1].starts_with("    File ") {
            let start = i;
            i += 1;
            while i < lines.len() && lines[i].starts_with("    File ") { i += 1; }
            if lines[start].starts_with("Traceback") { i += 1; }
            blocks.push(lines[start..i.min(lines.len())].join("\n"));
        } else { rest.push(lines[i]); i += 1; }
    }
    let (mut st, tr): (Vec<_>, Vec<_>) = blocks.into_iter().partition(|b| b.starts_with("Syntax error") || b.contains("is redundant"));
    st.sort();
    format!("{}\n{}\n{}", st.join("\n"), tr.join("\n"), rest.join("\n"))
}

/// The first difference between what was printed and what was to be.
fn differ(what: &str, got: &str, want: &str) -> CaseResult {
    if got == want || sorted(got) == sorted(want) { return Ok(()); }
    let (a, b): (Vec<&str>, Vec<&str>) = (got.split('\n').collect(), want.split('\n').collect());
    let k = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
    Err(format!("{what}: line {} is {:?}, expected {:?}\nprinted:\n{got}\nexpected:\n{want}", k + 1, a.get(k), b.get(k)))
}

fn write(p: &Prog, dir: &std::path::Path) {
    for f in &p.files {
        std::fs::create_dir_all(dir.join(&f.dir)).unwrap();
        std::fs::write(dir.join(format!("{}{}.papyri", f.dir, f.stem)), strip(&f.text)).unwrap();
    }
    for d in ["d/e"] { std::fs::create_dir_all(dir.join(d)).unwrap(); }
}

const LEVELS: &[ReportingLevel] = &[ReportingLevel::Warning, ReportingLevel::All, ReportingLevel::Error, ReportingLevel::IgnoreAll];
fn filtered(level: ReportingLevel, e: &Exp) -> bool { match level { ReportingLevel::All | ReportingLevel::Warning => true, ReportingLevel::Error => !e.warning(), ReportingLevel::IgnoreAll => false } }

fn planted(s: &mut Src, files: usize) -> CaseResult {
    let p = program(s, files);
    note(s, &p);
    let level = *s.pick(&[ReportingLevel::Warning, ReportingLevel::Warning, ReportingLevel::Error, ReportingLevel::IgnoreAll]);
    s.tick();
    let string = p.files.len() == 1 && s.coin();
    let dir = if string { None } else { Some(scratch_dir()) };
    let path = dir.as_ref().map(|d| d.join("main.papyri"));
    let main = path.as_ref().map_or("<é main>".to_string(), |p| p.to_string_lossy().into_owned());
    let root = dir.as_ref().map_or(String::new(), |d| format!("{}/", d.to_string_lossy()));
    let r = (|| {
        let Some((mut want, deepest, files)) = expected(&p, "main.papyri") else { return Ok(None); };
        for e in &mut want { for l in &mut e.locs { l.0 = if string { main.clone() } else { format!("{root}{}", l.0) }; } }
        let (errors, warnings) = (want.iter().filter(|e| !e.warning()).count(), want.iter().filter(|e| e.warning()).count());
        if let Some(d) = &dir { write(&p, d); }
        let got = guarded(|| {
            let mut ctx = Context::new(level, None, None);
            match &path { Some(path) => { ctx.load_uncached(path).map_err(|e| e.to_string())?; }, None => { ctx.compile_synthetic(&main, &strip(&p.files[0].text)); } }
            Ok::<_, String>((format!("{:?}", ctx.diagnostics), ctx.diagnostics.num_errors as usize, ctx.diagnostics.num_warnings as usize, ctx.diagnostics.is_empty()))
        }).and_then(|r| r)?;
        let text: String = want.iter().filter(|e| filtered(level, e)).map(|e| e.print()).chain([summary(errors, warnings) + "\n"]).collect();
        differ("the diagnostics", &got.0, &text)?;
        if (got.1, got.2, got.3) != (errors, warnings, want.is_empty()) { return Err(format!("the totals are {:?}, expected {errors} errors and {warnings} warnings", got)); }
        Ok(Some((want.len(), deepest, files)))
    })();
    if let Some(d) = &dir { let _ = std::fs::remove_dir_all(d); }
    match r? { Some((n, deepest, files)) => { if deepest > 1 && n > 1 { s.nontrivial(); } if files > 1 { s.label("across files"); } if deepest > 3 { s.label("deep"); } }, None => s.label("too long") }
    Ok(())
}

fn one_file(s: &mut Src) -> CaseResult { planted(s, 1) }
fn many_files(s: &mut Src) -> CaseResult { planted(s, 3) }

/// A file which ends with a mistake from which it may be that more follow: what is
/// before it is reported as it is without it, and the first report about it is known.
fn first(s: &mut Src) -> CaseResult {
    let mut p = program_and(s, 1, false);
    let (snippet, msg) = *s.pick(FIRST);
    let f = &mut p.files[0];
    f.text += "\n\n";
    noise(s, &mut f.text);
    let mut start = HashMap::new();
    let (m0, m1) = (char::from_u32(0xF8FD).unwrap(), char::from_u32(0xF8FE).unwrap());
    f.text.push(m0);
    for _ in 0..s.us(3) { f.text += s.pick(&["{", "<u>", "<i x=1>", "{é ", "@let(z_=1)... {"]); }
    f.text += &snippet.replace('§', &m1.to_string()).replace('\u{2}', "98765_");
    if s.coin() { f.text += s.pick(&["\n", " é", "\n\né", " <b>é</b>", "\n# é"]); }
    positions(&f.text, &mut start, 0);
    note(s, &p);
    let (from, at) = (start[&(m0 as u32)], start[&(m1 as u32)]);
    s.tick();
    let r = compile(&strip(&p.files[0].text))?;
    let mut want: Vec<(String, u32, u32)> = p.files[0].parse.iter().map(|b| { let x = start[&b.at]; (b.msg.clone(), x.1, x.2) }).collect();
    // the runtime errors come later
    let syntax: Vec<(String, u32, u32)> = r.diags().into_iter().filter(|d| d.msg.starts_with("Syntax error") || d.msg.contains("is redundant")).map(|d| { let l = d.locs.last().cloned().unwrap_or_default(); (d.msg, l.1, l.2) }).collect();
    let (mut before, after): (Vec<_>, Vec<_>) = syntax.into_iter().partition(|d| (d.1, d.2) < (from.1, from.2));
    before.sort();
    want.sort();
    if before != want { return Err(format!("of what is before the mistake, {before:?} is reported, expected {want:?}\n{}", r.printed)); }
    if after.first() != Some(&(msg.to_string(), at.1, at.2)) { return Err(format!("reported first is {:?}, expected {msg:?} at {}, {}\n{}", after.first(), at.1, at.2, r.printed)); }
    s.nontrivial();
    Ok(())
}

/// The command: several programs, with options.
fn command(s: &mut Src) -> CaseResult {
    let n = 1 + s.us(3);
    let ps: Vec<Prog> = (0..n).map(|_| program(s, 2)).collect();
    for p in &ps { note(s, p); }
    let base = scratch_dir();
    let cwd = base.join("w");
    let (ignore, silent) = (s.coin(), s.coin());
    let r = (|| {
        std::fs::create_dir_all(&cwd).unwrap();
        let mut args: Vec<String> = vec![];
        if ignore { args.push("--ignore-warnings".into()); }
        if silent { args.push("--silent".into()); }
        let mut text = String::new();
        let (mut total, mut failed) = (0, 0);
        for (i, p) in ps.iter().enumerate() {
            let d = format!("p{i}/");
            std::fs::create_dir_all(cwd.join(&d)).unwrap();
            write(p, &cwd.join(&d));
            args.push(format!("{d}main.papyri"));
            let Some((mut want, ..)) = expected(p, "main.papyri") else { return Ok(0); };
            for e in &mut want { for l in &mut e.locs { l.0 = format!("{d}{}", l.0); } }
            let (errors, warnings) = (want.iter().filter(|e| !e.warning()).count(), want.iter().filter(|e| e.warning()).count());
            for e in &want { if !ignore || !e.warning() { text += &e.print(); text.push('\n'); } }
            if !want.is_empty() { text += &format!("{d}main.papyri ({})\n", summary(errors, warnings)); }
            total += want.len();
            failed += (errors > 0) as usize;
        }
        s.note("args", args.join(" "));
        s.tick();
        let (code, out, err) = c18::papyri(&cwd, &args, None)?;
        if (code != 0) != (failed > 0) { return Err(format!("the exit status is {code}, with {failed} files failed\n{err}")); }
        // the last line, when files failed, says how many
        let mut err = err;
        if failed > 0 {
            let k = err.trim_end_matches('\n').rfind('\n').map_or(0, |k| k + 1);
            let last = err.split_off(k);
            if !last.contains(&format!("{failed} failed")) { return Err(format!("the last line is {last:?}, with {failed} files failed")); }
        }
        differ("the diagnostics", &err, &text)?;
        if silent && !out.is_empty() { return Err(format!("printed {out:?}, with --silent")); }
        Ok(total)
    })();
    let _ = std::fs::remove_dir_all(&base);
    if r? > 2 { s.nontrivial(); }
    Ok(())
}

// ---- any source ----

/// Comments before a source move what is reported about it, and change nothing else;
/// the totals, what is printed at each level, and the positions, are consistent.
fn moved(s: &mut Src) -> CaseResult {
    let src = match s.us(7) { 4 | 5 => {
            // a program in which functions are called, with a mistake in it
            let p = progs::plain(&progs::program(s));
            let at: Vec<usize> = p.match_indices(['$', '@', '1', '=']).map(|x| x.0).collect();
            if at.is_empty() { p } else { let k = *s.pick(&at); match s.us(3) { 0 => format!("{}$nope {}", &p[..k], &p[k + 1..]), 1 => format!("{}{}", &p[..k], &p[k + 1..]), _ => format!("{}`é`{}", &p[..k], &p[k + 1..]) } }
        }, 0 => s.pick(gen::corpus()).clone(), 1 => gen::mutated(s), 2 => super::exprs::program(s), _ => gen::soup(s, 30) };
    if gen::may_recurse(&src) || src.contains("import") || src.contains("include") || src.contains("file") { return Ok(()); }
    let mut pre = String::new();
    for _ in 0..1 + s.us(3) {
        let c: String = gen::any_string(s, 8).replace(['-', '>', '`', '\r'], "é");
        pre += &format!("<!--{c}{}-->", s.pick(&["", "\n", "é\n𝄞", "\n\n"]));
    }
    let (lines, cols) = { let l = pre.matches('\n').count() as u32; (l, pre.chars().rev().take_while(|c| *c != '\n').count() as u32) };
    s.note("source", src.clone());
    s.note("before it", pre.clone());
    let a = compile(&src)?;
    s.tick();
    let b = compile(&format!("{pre}{src}"))?;
    s.tick();
    let (da, db) = (a.diags(), b.diags());
    if !da.is_empty() { s.nontrivial(); }
    let max_lines: Vec<u32> = src.split('\n').map(|l| l.chars().count() as u32).collect();
    for d in &da {
        let Some(l) = d.locs.last() else { return Err(format!("a diagnostic without position: {d:?}")); };
        let _ = l;
        for l in &d.locs {
            if l.0 == "<string>" { if l.1 == 0 || l.2 == 0 || l.1 as usize > max_lines.len() || l.2 > max_lines[l.1 as usize - 1] + 1 { return Err(format!("a position outside of the source: {d:?}")); } }
            else if l.0 != "<stdlib>" { return Err(format!("a position in another file: {d:?}")); }
        }
        if d.locs.len() > 1 { s.label("in functions"); }
    }
    let (w, e) = (da.iter().filter(|d| d.is_warning()).count() as u32, da.iter().filter(|d| !d.is_warning()).count() as u32);
    if (e, w) != (a.errors, a.warnings) { return Err(format!("totals of {} errors, {} warnings, for:\n{}", a.errors, a.warnings, a.printed)); }
    if a.printed.lines().last().unwrap_or("") != summary(e as usize, w as usize) { return Err(format!("the summary is wrong:\n{}", a.printed)); }
    let mut want = da.clone();
    for d in &mut want { for l in &mut d.locs { if l.0 == "<string>" { if l.1 == 1 { l.2 += cols; } l.1 += lines; } } }
    if db != want { return Err(format!("reported:\n{}\nand with the comments:\n{}", a.printed, b.printed)); }
    // levels
    for &level in LEVELS {
        s.tick();
        let (printed, e2, w2) = guarded(|| { let mut ctx = Context::new(level, None, None); ctx.compile_synthetic("<string>", &src); (format!("{:?}", ctx.diagnostics), ctx.diagnostics.num_errors, ctx.diagnostics.num_warnings) })?;
        if (e2, w2) != (e, w) { return Err(format!("at level {level:?} there are {e2} errors and {w2} warnings, not {e} and {w}")); }
        let shown: Vec<Diag> = da.iter().filter(|d| match level { ReportingLevel::Error => !d.is_warning(), ReportingLevel::IgnoreAll => false, _ => true }).cloned().collect();
        let got: Vec<Diag> = parse_diags(&printed).into_iter().filter(|d| d.msg != "Diagnostic already reported").collect();
        if got != shown { return Err(format!("at level {level:?} what is reported is\n{printed}\nout of\n{}", a.printed)); }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        subs: vec![
            Sub {name: "one-file", quick: 120_000, thorough: 800_000, run: one_file},
            Sub {name: "files", quick: 60_000, thorough: 400_000, run: many_files},
            Sub {name: "first", quick: 12_000, thorough: 150_000, run: first},
            Sub {name: "command", quick: 4_000, thorough: 60_000, run: command},
            Sub {name: "moved", quick: 30_000, thorough: 250_000, run: moved},
        ],
        fixed: vec![],
        rule: "planted: at least two diagnostics, one of them inside a function that is being called; command: more than two diagnostics; moved: sources with diagnostics",
        assumptions: &[
            "the start of a call is its @, that of a match or function its @, and that of an argument, attribute value or content its own first character",
            "a module is compiled on its own, so the calls which led to its import are no part of the chain",
            "a warning about a pattern, a type or a syntax error has a position but no call chain",
        ],
    }
}
