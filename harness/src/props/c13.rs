//! C13: regular expression operations.
use crate::engine::*;
use crate::lang::*;
use super::vals::Prog;

/// An expression of the regular expression language, with its meaning given by
/// backtracking.
#[derive(Clone, Debug)]
enum Re {
    Char(char),
    Class(bool, Vec<(char, char)>),
    Any,
    Seq(Vec<Re>),
    Alt(Vec<Re>),
    Rep(Box<Re>, usize, Option<usize>, bool),
    Group(usize, Box<Re>),
    Start, End,
    /// \w \d \s and their opposites, on the characters the subjects use
    Perl(char),
}
use Re::*;

type Caps = Vec<Option<(usize, usize)>>;

fn is_word(c: char) -> bool { c.is_alphanumeric() || c == '_' }

struct M<'a> { t: &'a [char], steps: u64 }
impl M<'_> {
    fn go(&mut self, r: &Re, i: usize, caps: &mut Caps, k: &mut dyn FnMut(&mut Self, usize, &mut Caps) -> bool) -> bool {
        self.steps += 1;
        if self.steps > 200_000 { return false; }
        let one = |me: &mut Self, ok: bool, caps: &mut Caps, k: &mut dyn FnMut(&mut Self, usize, &mut Caps) -> bool| ok && k(me, i + 1, caps);
        match r {
            Char(c) => { let ok = self.t.get(i) == Some(c); one(self, ok, caps, k) },
            Any => { let ok = matches!(self.t.get(i), Some(c) if *c != '\n'); one(self, ok, caps, k) },
            Class(neg, rs) => { let ok = matches!(self.t.get(i), Some(c) if rs.iter().any(|r| r.0 <= *c && *c <= r.1) != *neg); one(self, ok, caps, k) },
            Perl(p) => {
                let ok = matches!(self.t.get(i), Some(&c) if match p.to_ascii_lowercase() { 'w' => is_word(c), 'd' => c.is_numeric(), _ => c.is_whitespace() } != p.is_ascii_uppercase());
                one(self, ok, caps, k)
            },
            Start => i == 0 && k(self, i, caps),
            End => i == self.t.len() && k(self, i, caps),
            Seq(rs) => self.seq(rs, i, caps, k),
            Alt(rs) => rs.iter().any(|r| { let saved = caps.clone(); self.go(r, i, caps, k) || { *caps = saved; false } }),
            Group(n, r) => {
                let n = *n;
                let old = caps[n];
                self.go(r, i, caps, &mut |me, j, caps| {
                    let inner = caps[n];
                    caps[n] = Some((i, j));
                    k(me, j, caps) || { caps[n] = inner; false }
                }) || { caps[n] = old; false }
            },
            Rep(r, min, max, greedy) => self.rep(r, *min, *max, *greedy, i, caps, k),
        }
    }
    fn seq(&mut self, rs: &[Re], i: usize, caps: &mut Caps, k: &mut dyn FnMut(&mut Self, usize, &mut Caps) -> bool) -> bool {
        match rs.split_first() {
            None => k(self, i, caps),
            Some((r, rest)) => self.go(r, i, caps, &mut |me, j, caps| me.seq(rest, j, caps, k)),
        }
    }
    fn rep(&mut self, r: &Re, min: usize, max: Option<usize>, greedy: bool, i: usize, caps: &mut Caps, k: &mut dyn FnMut(&mut Self, usize, &mut Caps) -> bool) -> bool {
        if max == Some(0) { return k(self, i, caps); }
        if min > 0 || greedy {
            if self.go(r, i, caps, &mut |me, j, caps| me.rep(r, min.saturating_sub(1), max.map(|m| m - 1), greedy, j, caps, k)) { return true; }
            min == 0 && k(self, i, caps)
        } else {
            k(self, i, caps) || self.go(r, i, caps, &mut |me, j, caps| me.rep(r, 0, max.map(|m| m - 1), greedy, j, caps, k))
        }
    }
}

/// All matches, as the language has it: leftmost, the first alternative, no
/// overlaps, and no empty match at the end of the one before.
fn matches(r: &Re, groups: usize, t: &[char]) -> Option<Vec<Caps>> {
    let mut out: Vec<Caps> = vec![];
    let mut at = 0;
    let mut last = None;
    while at <= t.len() {
        let mut found = None;
        for start in at..=t.len() {
            let mut caps: Caps = vec![None; groups + 1];
            let mut m = M {t, steps: 0};
            let mut end = 0;
            let ok = m.go(r, start, &mut caps, &mut |_, j, _| { end = j; true });
            if m.steps > 200_000 { return None; }
            if ok { caps[0] = Some((start, end)); found = Some(caps); break; }
        }
        let Some(c) = found else { break; };
        let (a, b) = c[0].unwrap();
        if a == b {
            at = b + 1;
            if last == Some(b) { continue; }
        } else { at = b; }
        last = Some(b);
        out.push(c);
    }
    Some(out)
}

const ALPHA: &[char] = &['a', 'b', 'c', ' ', 'é', '1', '\n', '漢', '-', '.'];

fn lit(c: char) -> String { if c == '\n' { "\\n".into() } else if c.is_ascii_alphanumeric() || !c.is_ascii() || c == ' ' { c.to_string() } else { format!("\\{c}") } }

struct G { groups: usize, named: bool, names: Vec<String> }

/// An expression, its source, and whether it can match nothing.
fn re(s: &mut Src, g: &mut G, depth: u32) -> (Re, String, bool) {
    let atom = |s: &mut Src| -> (Re, String, bool) {
        match s.weighted(&[8, 3, 2, 2]) {
            0 => { let c = *s.pick(ALPHA); (Char(c), lit(c), false) },
            1 => {
                let neg = s.coin();
                let rs = s.vec(1, 3, |s| *s.pick(&[('a', 'a'), ('a', 'b'), ('b', 'c'), ('1', '1'), ('é', 'é'), (' ', ' '), ('0', '9'), ('a', 'z')]));
                let src = format!("[{}{}]", if neg { "^" } else { "" }, rs.iter().map(|r| if r.0 == r.1 { r.0.to_string() } else { format!("{}-{}", r.0, r.1) }).collect::<String>());
                (Class(neg, rs), src, false)
            },
            2 => (Any, ".".into(), false),
            _ => { let c = *s.pick(&['w', 'W', 'd', 'D', 's', 'S']); (Perl(c), format!("\\{c}"), false) },
        }
    };
    if depth == 0 { return atom(s); }
    match s.weighted(&[4, 5, 2, 4, 4, 1]) {
        0 => atom(s),
        1 => {
            let rs = s.vec(0, 4, |s| re(s, g, depth - 1));
            let src = rs.iter().map(|r| if matches!(r.0, Alt(_)) { format!("(?:{})", r.1) } else { r.1.clone() }).collect();
            let null = rs.iter().all(|r| r.2);
            (Seq(rs.into_iter().map(|r| r.0).collect()), src, null)
        },
        2 => {
            let rs = s.vec(1, 3, |s| re(s, g, depth - 1));
            let src = rs.iter().map(|r| r.1.clone()).collect::<Vec<_>>().join("|");
            let null = rs.iter().any(|r| r.2);
            (Alt(rs.into_iter().map(|r| r.0).collect()), src, null)
        },
        3 => {
            let (r, src, null) = re(s, g, depth - 1);
            // repetition of something that may be empty is another matter
            let (min, max, q) = if null { (0, Some(1), "?") } else { *s.pick(&[(0, Some(1), "?"), (0, None, "*"), (1, None, "+"), (2, Some(3), "{2,3}"), (2, Some(2), "{2}"), (1, None, "{1,}")]) };
            let greedy = s.chance(3, 4) || q == "{2}";
            let atomic = matches!(r, Char(_) | Class(..) | Any | Group(..) | Perl(_));
            let src = if atomic { src } else { format!("(?:{src})") };
            (Rep(Box::new(r), min, max, greedy), format!("{src}{q}{}", if greedy { "" } else { "?" }), null || min == 0)
        },
        4 => {
            g.groups += 1;
            let n = g.groups;
            let mut name = s.pick(&["a", "b", "k1", "foo_bar", "x"]).to_string();
            if g.names.contains(&name) { name = format!("g{n}"); }
            g.names.push(name.clone());
            let (r, src, null) = re(s, g, depth - 1);
            (Group(n, Box::new(r)), if g.named { format!("(?P<{name}>{src})") } else { format!("({src})") }, null)
        },
        _ => if s.coin() { (Start, "^".into(), true) } else { (End, "$".into(), true) },
    }
}

fn subject(s: &mut Src) -> String { s.vec(0, 10, |s| *s.pick(ALPHA)).into_iter().collect() }

/// The matches according to the library, unless its methods contradict each
/// other: the locked version has bugs of its own (`b|^a|$` finds two `a` in
/// `aa` one at a time, and only one together with the captures).
fn consistent(r: &regex::Regex, t: &str) -> Option<Vec<Vec<Option<(usize, usize)>>>> {
    let ms: Vec<Vec<_>> = r.captures_iter(t).map(|m| m.iter().map(|c| c.map(|c| (c.start(), c.end()))).collect()).collect();
    let f: Vec<_> = r.find_iter(t).map(|m| Some((m.start(), m.end()))).collect();
    (f == ms.iter().map(|m: &Vec<_>| m[0]).collect::<Vec<_>>()).then_some(ms)
}

/// Every operation on one subject; `ms` are the captures of all matches, as
/// strings with their places.
fn operations(s: &mut Src, p: &mut Prog, rx: &str, t: &str, ms: &[Vec<Option<(usize, usize)>>], names: &[Option<String>]) {
    let get = |c: &Option<(usize, usize)>| c.map(|(a, b)| V::s(&t[a..b])).unwrap_or(V::unit());
    let value = |m: &Vec<Option<(usize, usize)>>| {
        if m.len() == 1 { get(&m[0]) }
        else if names[0].is_none() { V::List(m.iter().map(get).collect()) }
        else { V::Dict(m[1..].iter().zip(names).map(|(c, n)| (n.clone().unwrap(), get(c))).collect()) }
    };
    let lit = str_lit(t);
    for f in ["test", "count", "find", "find_all", "split"] {
        if s.chance(1, 4) { continue; }
        let want = match f {
            "test" => V::Bool(!ms.is_empty()),
            "count" => V::Int(ms.len() as i64),
            "find" => ms.first().map(value).unwrap_or(V::unit()),
            "find_all" => V::List(ms.iter().map(value).collect()),
            _ => {
                let mut parts = vec![];
                let mut last = 0;
                for m in ms { let (a, b) = m[0].unwrap(); parts.push(V::s(&t[last..a])); last = b; }
                parts.push(V::s(&t[last..]));
                V::List(parts)
            },
        };
        let e = match s.us(3) { 0 => format!("@regex::{f}(${rx}) {lit}"), 1 => format!("@{rx}::{f} {lit}"), _ => format!("@list::map($f{f}) [{lit}]") };
        let (e, want) = if e.starts_with("@list") { (e.replace(&format!("$f{f}"), &format!("${rx}::{f}")), V::List(vec![want])) } else { (e, want) };
        p.export(&e, Ok(want));
    }
}

fn model(s: &mut Src) -> CaseResult {
    let mut g = G {groups: 0, named: s.coin(), names: vec![]};
    let (r, src, _) = re(s, &mut g, 4);
    s.note("expression", src.clone());
    let mut p = Prog::default();
    let rx = p.export(&format!("@regex::compile {}", str_lit(&src)), Ok(V::Regex(src.clone())));
    p.extra = g.names.clone();
    let names: Vec<Option<String>> = g.names.iter().map(|n| g.named.then(|| n.clone())).collect();
    for _ in 0..1 + s.us(3) {
        let t = subject(s);
        let cs: Vec<char> = t.chars().collect();
        let mut at: Vec<usize> = t.char_indices().map(|x| x.0).collect();
        at.push(t.len());
        let Some(ms) = matches(&r, g.groups, &cs) else { continue; };
        let ms: Vec<Vec<_>> = ms.iter().map(|m| m.iter().map(|c| c.map(|(a, b)| (at[a], at[b]))).collect()).collect();
        let lib = regex::Regex::new(&src).map_err(|e| format!("harness: {e}"))?;
        if consistent(&lib, &t).as_ref() != Some(&ms) { s.label("left out: the library has a bug there"); continue; }
        if !ms.is_empty() && t.chars().count() >= 3 { s.nontrivial(); }
        operations(s, &mut p, &rx, &t, &ms, &names);
    }
    s.label(if g.groups == 0 { "no groups" } else if g.named { "named groups" } else { "numbered groups" });
    check(s, &p)
}

/// The model shows a regex as its source; the program under test as debug text.
fn check(s: &mut Src, p: &Prog) -> CaseResult {
    let mut p2 = Prog {src: p.src.clone(), want: p.want.clone(), depth: p.depth, extra: p.extra.clone()};
    for w in p2.want.iter_mut() { if let Ok(V::Regex(_)) = w.1 { w.1 = Ok(V::Regex(String::new())); } }
    p2.check(s)
}

const PIECES: &[&str] = &["a", "b", "(", ")", "[", "]", "|", "*", "+", "?", "{2}", "{1,3}", "{", "}", "\\", ".", "^", "$", "(?:", "(?P<n>", "(?P<k1>", "(?P<1>", "(?P<a.b>", "(?P<a[0]>", "(?P<_x>", "(?i)", "(?s)", "(?m)", "(?x)", "(?i:", "\\d", "\\w", "\\pL", "\\p{Greek}", "\\z", "\\A", "[^a]", "[a-c]", "[[:alpha:]]", "\\x41", "\\u{e9}", "é", "-", ",", "1", "\\1", "(?=a)", "&&", "\n", "#"];

/// Expressions of any form, against the implementation of the language itself.
fn differential(s: &mut Src) -> CaseResult {
    let src: String = if s.chance(1, 3) {
        let mut g = G {groups: 0, named: s.coin(), names: vec![]};
        let (_, a, _) = re(s, &mut g, 3);
        g.named = s.coin();
        let (_, b, _) = re(s, &mut g, 3);
        s.pick(&["(?i)", "(?s)", "(?m)", "", "(?U)"]).to_string() + &a + s.pick(&["", "|", ".*"]) + &b
    } else { s.vec(0, 10, |s| *s.pick(PIECES)).concat() };
    s.note("expression", src.clone());
    let mut p = Prog::default();
    let want = regex::Regex::new(&src).ok().filter(|r| {
        let names: Vec<Option<&str>> = r.capture_names().skip(1).collect();
        names.iter().all(|n| n.is_none()) || names.iter().all(|n| matches!(n, Some(n) if n.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')))
    });
    let Some(r) = want else {
        s.label("invalid");
        p.export(&format!("@regex::compile {}", str_lit(&src)), Err(()));
        return check(s, &p);
    };
    let rx = p.export(&format!("@regex::compile {}", str_lit(&src)), Ok(V::Regex(src.clone())));
    let names: Vec<Option<String>> = r.capture_names().skip(1).map(|n| n.map(|n| n.to_string())).collect();
    p.extra = names.iter().flatten().cloned().collect();
    // a name beginning with an underscore cannot be learnt by exporting it
    let odd = p.extra.iter().any(|n| n.starts_with('_'));
    for _ in 0..1 + s.us(3) {
        let t = subject(s);
        let Some(ms) = consistent(&r, &t) else { s.label("left out: the library has a bug there"); continue; };
        if !ms.is_empty() && t.chars().count() >= 3 { s.nontrivial(); }
        if !odd { operations(s, &mut p, &rx, &t, &ms, &names); }
    }
    s.label("valid");
    if odd { p.extra.clear(); }
    check(s, &p)
}

/// Quoted templates as patterns.
fn templates(s: &mut Src) -> CaseResult {
    // parts: Ok(text), Err(0) variable, Err(1) white space
    #[derive(Clone, PartialEq)]
    enum P { T(String), Var(String), Ws }
    let mut parts: Vec<P> = vec![];
    let mut n = 0;
    s.vec(1, 6, |s| {
        let p = match s.us(3) {
            0 => P::T(s.pick(&["a", "b", ".", "ab", "*", "é", "+1", "(", "漢", "[x]", "^", "|"]).to_string()),
            1 => { n += 1; P::Var(format!("v{n}")) },
            _ => P::Ws,
        };
        // white space belongs between other things; adjacent texts are one
        if p == P::Ws && !matches!(parts.last(), Some(P::T(_)) | Some(P::Var(_))) { return; }
        parts.push(p);
    });
    while parts.last() == Some(&P::Ws) { parts.pop(); }
    if parts.is_empty() { return Ok(()); }
    let mut src = String::new();
    let mut re = vec![];
    for (i, p) in parts.iter().enumerate() {
        match p {
            P::T(t) => { src += t; re.extend(t.chars().map(Char)); },
            P::Var(v) => {
                src += &format!("${v}");
                // keep the name apart from what follows
                if matches!(parts.get(i + 1), Some(P::T(t)) if t.starts_with(|c: char| c.is_ascii_alphanumeric() || c == '_')) { src += "\\x2e"; re.push(Group(v[1..].parse().unwrap(), Box::new(Rep(Box::new(Class(true, vec![])), 1, None, false)))); re.push(Char('.')); }
                else { re.push(Group(v[1..].parse().unwrap(), Box::new(Rep(Box::new(Class(true, vec![])), 1, None, false)))); }
            },
            P::Ws => { src.push_str(s.pick(&[" ", "  ", "\n ", " <!-- c --> "])); re.push(Rep(Box::new(Perl('s')), 1, None, true)); },
        }
    }
    // with neither variables nor white space it is an ordinary string
    let plain = !parts.iter().any(|p| matches!(p, P::Var(_) | P::Ws));
    re.insert(0, Start);
    re.push(End);
    let re = Seq(re);
    s.note("template", src.clone());
    let mut prog = Prog::default();
    for _ in 0..1 + s.us(4) {
        // a subject which fits, more or less
        let mut t = String::new();
        for p in &parts {
            match p {
                P::T(x) => t += x,
                P::Var(_) => t += s.pick(&["x", "ab", "a b", "é", " ", "\n", "", ".", "漢.a"]),
                P::Ws => t += s.pick(&[" ", "\n", "\t ", "  ", "\u{a0}", ""]),
            }
            if s.chance(1, 16) { t += s.pick(&["a", ".", " "]); }
        }
        let cs: Vec<char> = t.chars().collect();
        let ms = match matches(&re, n, &cs) { Some(m) => m, None => continue };
        let want = match ms.first() {
            Some(m) => V::List((1..=n).map(|i| m[i].map(|(a, b)| V::Str(cs[a..b].iter().collect())).unwrap_or(V::unit())).collect()),
            None => V::s("no"),
        };
        if !ms.is_empty() && n > 0 { s.nontrivial(); }
        s.label(if ms.is_empty() { "no match" } else { "match" });
        let vars = (1..=n).map(|i| format!("$v{i}")).collect::<Vec<_>>().join(", ");
        prog.export(&format!("@match {} {{\"{src}\" -> [{vars}], _ -> no}}", str_lit(&t)), Ok(want));
        let _ = plain;
    }
    check(s, &prog)
}

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        subs: vec![
            Sub {name: "model", quick: 60_000, thorough: 2_000_000, run: model},
            Sub {name: "differential", quick: 40_000, thorough: 2_000_000, run: differential},
            Sub {name: "templates", quick: 60_000, thorough: 2_000_000, run: templates},
        ],
        fixed: vec![],
        rule: "expressions which match at least one subject of three or more characters; templates with variables which match",
        assumptions: &["expressions and subjects on which the locked regex library contradicts itself or the model are left out", "the model leaves out repetition of parts that may be empty; these occur in the differential comparison with the regex crate"],
    }
}
