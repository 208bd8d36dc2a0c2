//! A generator of whole programs as token sequences, with marks at the places
//! where the layout is free.
use crate::engine::Src;

#[derive(Clone, Debug)]
pub enum Tok {
    T(String),
    /// A place where whitespace and comments may stand, or nothing.
    G,
    /// As `G`, but something must separate the tokens.
    W,
    /// As `W`, but it must start with whitespace.
    A,
    /// Whitespace in prose: one space, however it is written.
    S,
    /// A paragraph break in prose.
    B,
    /// An optional trailing comma.
    C,
    /// The limits of a possible redundant group.
    Open,
    Close,
}
use Tok::*;

#[derive(Clone)]
pub struct Env {
    pub vars: Vec<String>,
    pub funcs: Vec<String>,
    pub depth: u32,
}

pub const NAMES: &[&str] = &["x", "y", "z", "foo", "w2", "n_1"];
pub const KEYS: &[&str] = &["k", "x", "foo", "a_b"];
const WORDS: &[&str] = &["a", "foo", "bar", "naïve", "老", "x1", "1", "word"];

pub struct P { pub toks: Vec<Tok> }

impl P {
    fn t(&mut self, t: &str) { self.toks.push(T(t.into())); }
    fn g(&mut self) { self.toks.push(G); }
    fn w(&mut self) { self.toks.push(W); }

    fn sep<X>(&mut self, s: &mut Src, open: &str, close: &str, min: usize, max: usize, mut f: impl FnMut(&mut P, &mut Src, usize) -> X) {
        self.t(open); self.g();
        let mut n = 0;
        let me = &mut *self;
        s.vec(min, max, |s| {
            if n > 0 { me.g(); me.t(","); me.g(); }
            f(me, s, n);
            n += 1;
        });
        if n > 0 { self.g(); self.toks.push(C); }
        self.g(); self.t(close);
    }

    fn string(&mut self, s: &mut Src, env: &Env) {
        let q = *s.pick(&["\"", "'"]);
        let mut o = String::from(q);
        o += &s.vec(0, 4, |s| match s.us(5) {
            0 | 1 => s.pick(WORDS).to_string(),
            2 => s.pick(&[" ", "\\n", "&lt;", "\\\\", "é"]).to_string(),
            3 if !env.vars.is_empty() => format!("${} ", s.pick(&env.vars)),
            _ => s.pick(&["--", "...", "(c)", "<", "@a", "1"]).to_string(),
        }).concat();
        o += q;
        self.t(&o);
    }

    fn prose(&mut self, s: &mut Src, env: &Env) {
        let mut sep = true;
        let me = &mut *self;
        let d = Env {depth: env.depth.saturating_sub(1), ..env.clone()};
        s.vec(0, 5, |s| {
            if !sep { me.toks.push(if s.chance(1, 8) { B } else { S }); }
            sep = false;
            match s.weighted(&[5, if env.depth > 0 { 3 } else { 0 }, 1, if env.depth > 0 { 2 } else { 0 }, if env.vars.is_empty() { 0 } else { 3 }]) {
                0 => {
                    let w = s.pick(WORDS).to_string();
                    if s.coin() { me.toks.push(Open); me.t(&w); me.toks.push(Close); } else { me.t(&w); }
                },
                1 => { me.toks.push(Open); let n = *s.pick(&["b", "span", "em", "a", "q"]); me.tag(s, &d, n); me.toks.push(Close); },
                2 => me.t(s.pick(&["\\-", "&amp;", "--", "...", "\"q\"", "`c`", "!=", "3-4"])),
                3 => me.expr_code(s, &d),
                _ => { let v = s.pick(&env.vars).clone(); me.t(&format!("${v}")); },
            }
        });
    }

    fn tag(&mut self, s: &mut Src, env: &Env, name: &str) {
        self.t(&format!("<{name}"));
        let mut names = vec!["id", "title", "data_x"];
        let n = s.weighted(&[4, 2, 1]);
        for _ in 0..n {
            self.w();
            let a = names.remove(s.us(names.len()));
            match s.us(4) {
                0 => self.t(a),
                1 => { self.t(a); self.g(); self.t("="); self.g(); self.string(s, env); },
                2 => { self.t(a); self.g(); self.t("?"); self.g(); self.t("="); self.g(); self.t(s.pick(&[".", "5", "`v`", "True", "bare"])); },
                _ => { self.t("**"); self.g(); self.t("@dict::new"); self.g(); let a = a.to_string(); self.sep(s, "(", ")", 1, 1, |p, s, _| { p.t(&a); p.g(); p.t("="); p.g(); p.t(s.pick(&["1", "`x`", "."])); }); self.g(); self.t("."); },
            }
        }
        self.g();
        if s.chance(1, 5) { self.t("/>"); return; }
        self.t(">"); self.g();
        self.prose(s, env);
        self.g(); self.t(s.pick(&["</>", "</>"]));
    }

    fn ty(&mut self, s: &mut Src) {
        self.t(s.pick(&["any", "str", "int", "html", "bool", "list", "dict", "inline", "block", "none", "function", "regex"]));
        let n = s.weighted(&[5, 3, 1]);
        for _ in 0..n {
            match s.us(3) { 0 => { self.w(); self.t("list"); }, 1 => { self.w(); self.t("dict"); }, _ => { self.g(); self.t("?"); } }
        }
    }

    fn pattern(&mut self, s: &mut Src, env: &mut Env, depth: u32, used: &mut Vec<String>) {
        let fresh = |s: &mut Src, used: &mut Vec<String>, env: &mut Env| -> String {
            let v = format!("m{}", used.len());
            let _ = &s;
            used.push(v.clone()); env.vars.push(v.clone());
            v
        };
        match s.weighted(&[3, 3, 2, if depth > 0 { 3 } else { 0 }, if depth > 0 { 2 } else { 0 }, if depth > 0 { 2 } else { 0 }, 2, if depth > 0 { 1 } else { 0 }, if depth > 0 { 1 } else { 0 }]) {
            0 => { self.t("_"); if s.coin() { self.g(); self.t(":"); self.g(); self.ty(s); } },
            1 => {
                let v = fresh(s, used, env);
                self.t(&format!("${v}"));
                match s.us(4) { 0 => { self.g(); self.t(":"); self.g(); self.ty(s); }, 1 => { self.g(); self.t(":"); self.g(); let v = fresh(s, used, env); self.t(&format!("${v}")); }, _ => {} }
            },
            2 => self.t(s.pick(&[".", "1", "-1", "True", "False", "`a`", "\"foo\"", "= foo", "=1"])),
            3 => self.sep(s, "[", "]", 0, 3, |p, s, _| {
                if s.chance(1, 4) { if s.coin() { p.t("..."); return; } p.t("*"); p.g(); }
                p.pattern(s, env, depth - 1, used)
            }),
            4 => {
                let mut keys = KEYS.to_vec();
                self.sep(s, "(", ")", 0, 3, |p, s, _| {
                    if s.chance(1, 5) || keys.is_empty() { if s.coin() { p.t("..."); } else { p.t("**"); p.g(); p.pattern(s, env, 0, used); } return; }
                    let k = keys.remove(s.us(keys.len()));
                    p.t(k); p.g(); p.t("="); p.g(); p.pattern(s, env, depth - 1, used);
                })
            },
            5 => {
                let n = s.us(3);
                let name = match n { 0 => "<b".to_string(), 1 => "<_".into(), _ => format!("<${}", fresh(s, used, env)) };
                self.t(&name);
                match s.us(4) {
                    0 => { self.w(); self.t("id"); self.g(); self.t("="); self.g(); self.pattern(s, env, 0, used); },
                    1 => { self.w(); self.t("..."); },
                    2 => { self.w(); self.t("**"); self.g(); let v = fresh(s, used, env); self.t(&format!("${v}")); },
                    _ => {},
                }
                self.g();
                if s.chance(1, 4) { self.t("/>"); return; }
                self.t(">"); self.g();
                if s.coin() { self.pattern(s, env, depth - 1, used); self.g(); }
                self.t("</>");
            },
            6 => { let v = fresh(s, used, env); let f = s.pick(&["\"a", "\"", "'x"]); let q = &f[..1]; let t = format!("{f}${v}b{q}"); self.t(&t.replace("b\"", "\"").replace("b'", "'")); },
            7 => { self.pattern(s, env, depth - 1, used); self.g(); self.t("|"); self.g(); self.pattern(s, env, depth - 1, used); },
            _ => { self.pattern(s, env, depth - 1, used); self.g(); self.t("&"); self.toks.push(A); self.pattern(s, env, depth - 1, used); },
        }
    }

    /// An expression that may stand in prose.
    fn expr_code(&mut self, s: &mut Src, env: &Env) {
        let d = Env {depth: env.depth.saturating_sub(1), ..env.clone()};
        match s.us(7) {
            0 => {
                self.t("@let"); self.g();
                let mut e = d.clone();
                self.sep(s, "(", ")", 1, 3, |p, s, _| {
                    let n = s.pick(NAMES).to_string();
                    p.t(&n); p.g(); p.t("="); p.g(); p.expr(s, &d);
                    e.vars.push(n);
                });
                self.g();
                self.t("{"); self.g(); self.prose(s, &e); self.g(); self.t("}");
            },
            1 | 2 => {
                self.t("@match"); self.w();
                self.expr(s, &d);
                self.g();
                self.sep(s, "{", "}", 1, 3, |p, s, _| {
                    let mut e = d.clone();
                    p.pattern(s, &mut e, 2, &mut vec![]);
                    p.g(); p.t("->"); p.g();
                    p.expr(s, &e);
                });
            },
            3 => { self.t("@list::map"); self.g(); self.sep(s, "(", ")", 1, 1, |p, s, _| p.lambda(s, &d)); self.g(); self.list(s, &d); },
            4 if !env.funcs.is_empty() => self.call(s, &d),
            5 => { let f = *s.pick(&["@bold", "@emph", "@str::upper", "@str::len", "@typeof", "@inline::from"]); self.t(f); self.w(); self.expr(s, &d); },
            _ => { self.t("{"); self.g(); self.prose(s, &d); self.g(); self.t("}"); },
        }
    }

    fn lambda(&mut self, s: &mut Src, env: &Env) {
        let mut e = env.clone();
        e.vars.push("c".into());
        self.t("@fn"); self.w();
        self.t("$c");
        if s.chance(1, 3) { self.g(); self.t(":"); self.g(); self.ty(s); }
        self.g(); self.t("->"); self.g();
        self.expr(s, &e);
    }

    fn list(&mut self, s: &mut Src, env: &Env) {
        self.sep(s, "[", "]", 0, 4, |p, s, _| {
            if s.chance(1, 6) { p.t("*"); p.g(); p.sep(s, "[", "]", 0, 2, |p, s, _| p.t(s.pick(&["1", "x", "."]))); return; }
            p.expr(s, env)
        });
    }

    fn call(&mut self, s: &mut Src, env: &Env) {
        let f = s.pick(&env.funcs).clone();
        self.t(&format!("@{f}"));
        let n = s.weighted(&[2, 3, 2]);
        if n > 0 {
            self.g();
            self.sep(s, "(", ")", 0, 3, |p, s, _| match s.us(3) {
                0 => { p.t(s.pick(NAMES)); p.g(); p.t("="); p.g(); p.expr(s, env); },
                1 => { p.t(s.pick(&["*", "**"])); p.g(); if s.coin() { p.t("@dict::new(x=1)."); } else { p.t("[1, `b`]"); } },
                _ => p.expr(s, env),
            });
            self.g();
        } else { self.w(); }
        if s.chance(1, 3) { self.t("."); } else { self.expr(s, env); }
    }

    pub fn expr(&mut self, s: &mut Src, env: &Env) {
        let d = Env {depth: env.depth.saturating_sub(1), ..env.clone()};
        if env.depth == 0 || s.chance(2, 5) {
            match s.us(4) {
                0 => self.t(s.pick(&["1", "True", "False", ".", "-7", "0", "bare", "foo", "`a`", "`a b`", "``x ` y``", "12"])),
                1 => self.string(s, env),
                2 if !env.vars.is_empty() => { let v = s.pick(&env.vars).clone(); self.t(&format!("${v}{}", s.pick(&["", "", "", "::len", "?::k", "::0"]))); },
                _ => self.t(s.pick(&["[]", "`z`", "0"])),
            }
            return;
        }
        match s.us(7) {
            0 => self.list(s, &d),
            1 => {
                self.t("@dict::new"); self.g();
                let mut keys = KEYS.to_vec();
                self.sep(s, "(", ")", 0, 3, |p, s, _| { let k = keys.remove(s.us(keys.len())); p.t(k); p.g(); p.t("="); p.g(); p.expr(s, &d); });
                self.g(); self.t(".");
            },
            2 => { self.toks.push(Open); let n = *s.pick(&["b", "span", "p", "div", "em"]); self.tag(s, &d, n); self.toks.push(Close); },
            3 if s.coin() => self.lambda(s, &d),
            _ => self.expr_code(s, &d),
        }
    }

    fn fn_def(&mut self, s: &mut Src, env: &Env, name: &str) {
        let mut e = env.clone();
        self.t("@fn"); self.w(); self.t(name);
        if s.chance(2, 3) {
            self.g();
            let mut names: Vec<&str> = NAMES.to_vec();
            let mut named = false;
            self.sep(s, "(", ")", 0, 3, |p, s, _| {
                let n = names.remove(s.us(names.len()));
                if s.coin() { named = true; }
                if s.chance(1, 6) { named = true; p.t(if s.chance(1, 8) { "*" } else { "**" }); p.g(); p.t(&format!("${n}")); e.vars.push(n.into()); return; }
                let n = if named { n.to_string() } else { format!("_{n}") };
                p.t(&format!("${n}"));
                let opt = s.chance(1, 4);
                if opt { p.g(); p.t("?"); }
                if s.coin() { p.g(); p.t(":"); p.g(); if named && s.chance(1, 4) { p.t("@implicit"); p.w(); } p.ty(s); }
                if !opt && s.chance(1, 3) { p.g(); p.t("="); p.g(); p.expr(s, &Env {depth: 0, ..env.clone()}); }
                e.vars.push(n);
            });
            self.g();
        } else { self.w(); }
        if s.chance(1, 3) { self.t("."); } else { self.t("$c"); e.vars.push("c".into()); if s.chance(1, 3) { self.g(); self.t(":"); self.g(); self.ty(s); } }
        self.g(); self.t("->"); self.g();
        self.expr(s, &e);
    }
}


/// A program: definitions, exports and blocks.
pub fn program(s: &mut Src) -> Vec<Tok> {
    let mut p = P {toks: vec![G]};
    let mut env = Env {vars: vec![], funcs: vec![], depth: 3};
    let mut exports = 0;
    s.vec(1, 5, |s| {
        match s.us(5) {
            0 => {
                let n = format!("f{}", env.funcs.len());
                if s.chance(1, 4) { p.t("@export"); p.w(); }
                p.fn_def(s, &env, &n);
                env.funcs.push(n);
            },
            1 | 2 => {
                p.t("@export"); p.g();
                p.sep(s, "(", ")", 1, 2, |p, s, _| { p.t(&format!("e{exports}")); exports += 1; p.g(); p.t("="); p.g(); p.expr(s, &env); });
                p.g(); p.t(".");
            },
            3 => {
                p.toks.push(Open);
                let t = *s.pick(&["p", "div", "section", "ul", "h1", "table"]);
                p.tag(s, &env, t);
                p.toks.push(Close);
            },
            _ => { p.t("<div>"); p.g(); p.expr_code(s, &env); p.g(); p.t("</div>"); },
        }
        p.g();
    });
    p.toks
}

pub fn export_names() -> Vec<String> {
    let mut v: Vec<String> = (0..12).map(|i| format!("e{i}")).collect();
    v.extend((0..6).map(|i| format!("f{i}")));
    v.extend(KEYS.iter().chain(NAMES).map(|k| k.to_string()));
    v.push("id".into()); v.push("title".into()); v.push("data_x".into());
    v.sort(); v.dedup();
    v
}

pub const PLAIN: u64 = 0;

/// Writes the tokens with the least layout.
pub fn plain(toks: &[Tok]) -> String {
    toks.iter().map(|t| match t { T(t) => t.as_str(), W | A | S => " ", B => "\n\n", _ => "" }).collect()
}

fn gap(s: &mut Src) -> String {
    s.vec(0, 3, |s| match s.weighted(&[4, 2, 2, 1, 2, 2]) {
        0 => " ".to_string(),
        1 => "\n".into(),
        2 => s.pick(&["\t", "\r\n", "  \n  ", "\u{c}"]).to_string(),
        3 => "\n\n".into(),
        4 => format!("#{}\n", s.pick(&["", " c", " \"`{[(<", " @fn $x ->", "# é老", "-->"])),
        _ => format!("<!--{}-->", s.pick(&["", " c ", "\"`{[(<", " @fn\n\n $x ->", "--", "#"])),
    }).concat()
}

/// Writes the tokens with an arbitrary layout.
pub fn laid_out(s: &mut Src, toks: &[Tok], grouping: bool) -> String {
    let mut o = String::new();
    let mut groups: Vec<bool> = vec![];
    for t in toks {
        match t {
            T(t) => o += t,
            G => o += &gap(s),
            W => { let g = gap(s); if s.coin() { o.push(' '); o += &g; } else { o += &g; o.push(' '); } },
            A => { o.push(' '); o += &gap(s); },
            S => o += *s.pick(&[" ", "\n", "  \t", " # c\n", " <!-- c --> ", "\n# x\n  "]),
            B => { o += *s.pick(&["", "", " ", "\t", " <!-- c -->", "<!-- c --> ", "# c", " # c", "\n# c\n"]); o += *s.pick(&["\n\n", "\n \n", "\n\n\n", "\r\n\t\r\n"]); o += *s.pick(&["", "", "  ", "<!-- c -->", "<!-- c --> ", "# c\n", " # c\n\n", "<!--\n-->\n\n"]); },
            C => if s.coin() { o.push(','); },
            Open => { let g = grouping && s.coin(); groups.push(g); if g { o.push('{'); o += &gap(s); } },
            Close => if groups.pop().unwrap() { o += &gap(s); o.push('}'); },
        }
    }
    o
}
