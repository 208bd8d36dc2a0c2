//! C24: content values compare and decompose by structure, not by how they were built.
use crate::engine::*;
use crate::lang::*;
use super::gen;

#[derive(Clone, PartialEq, Debug)]
enum N { Text(String), El(&'static str, Vec<(&'static str, Option<String>)>, Vec<N>) }

const ATTRS: &[&str] = &["id", "class", "data_x", "title", "hidden"];

fn text(s: &mut Src) -> String {
    // texts do not begin or end with whitespace, which depends on what is next to it
    let t = match s.us(4) { 0 => gen::any_string(s, 4), 1 => s.pick(&["a", "b", "ab", "1", "a b", "<b>", "&amp;"]).to_string(), _ => gen::word(s) };
    let t = t.trim_matches(|c: char| c.is_ascii_whitespace()).to_string();
    if t.is_empty() { "a".into() } else { t }
}
fn seq(s: &mut Src, depth: u32, block: bool, max: usize) -> Vec<N> {
    let v = s.vec(0, max, |s| {
        if block && depth > 0 && s.chance(1, 4) { let a = attrs(s); let mut c = seq(s, depth - 1, true, 3); if c.is_empty() { c.push(N::El("p", vec![], vec![])); } N::El("a", a, c) }
        else if block { N::El(*s.pick(&["p", "p", "h1"]), attrs(s), seq(s, depth.saturating_sub(1), false, 3)) }
        else if depth > 0 && s.coin() { let n = *s.pick(&["b", "i", "span", "em", "br", "a"]); N::El(n, attrs(s), if n == "br" { vec![] } else { seq(s, depth - 1, false, 3) }) }
        else { N::Text(text(s)) }
    });
    norm(v)
}
fn attrs(s: &mut Src) -> Vec<(&'static str, Option<String>)> {
    let mut a: Vec<(&'static str, Option<String>)> = vec![];
    s.vec(0, 2, |s| { let k = *s.pick(ATTRS); let v = if s.chance(1, 4) { None } else { Some(if s.chance(1, 5) { String::new() } else { text(s) }) }; if !a.iter().any(|x| x.0 == k) { a.push((k, v)); } });
    a
}
fn norm(v: Vec<N>) -> Vec<N> {
    let mut out: Vec<N> = vec![];
    for n in v {
        match (n, out.last_mut()) {
            (N::Text(t), Some(N::Text(u))) => *u += &t,
            (N::Text(t), _) if t.is_empty() => {},
            (n, _) => out.push(n),
        }
    }
    out
}
fn same(a: &[N], b: &[N]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| match (a, b) {
        (N::Text(a), N::Text(b)) => a == b,
        (N::El(n, x, c), N::El(m, y, d)) => n == m && x.len() == y.len() && x.iter().all(|k| y.contains(k)) && same(c, d),
        _ => false,
    })
}

fn is_block(n: &N) -> bool { match n { N::El("a", _, c) => c.iter().any(is_block), N::El(n, ..) => matches!(*n, "p" | "h1"), _ => false } }

/// A small change, which makes another value.
fn change(s: &mut Src, v: &[N]) -> Vec<N> {
    let mut v = v.to_vec();
    if v.is_empty() { return vec![N::Text("z".into())]; }
    let i = s.us(v.len());
    match s.us(6) {
        0 => { v.remove(i); },
        1 => { let n = v[i].clone(); v.insert(i, n); },
        2 if v.len() > 1 => { let j = (i + 1) % v.len(); v.swap(i, j); },
        3 => { let n = if is_block(&v[i]) { N::El("p", vec![], vec![]) } else { N::El("b", vec![], vec![]) }; v.insert(i, n); },
        _ => match &mut v[i] {
            N::Text(t) => { if t.chars().count() > 1 && s.coin() { t.pop(); *t = t.trim_end_matches(|c: char| c.is_ascii_whitespace()).to_string(); if t.is_empty() { t.push('q'); } } else { t.push('z'); } },
            N::El(n, a, c) => match s.us(3) {
                0 if *n != "a" => *n = match *n { "p" => "h1", "h1" => "p", "b" => "i", "br" => "wbr", _ => "b" },
                // what is around blocks stays around blocks
                2 if *n == "a" && c.iter().any(is_block) => { let d = change(s, c); *c = if d.is_empty() { vec![c[0].clone(), c[0].clone()] } else { d }; },
                0 | 1 => if a.is_empty() { a.push(("id", Some("z".into()))); } else { let k = s.us(a.len()); match s.us(3) { 0 => { a.remove(k); }, 1 => a[k].1 = if a[k].1.is_none() { Some(String::new()) } else { None }, _ => a[k].1 = Some("zz".into()) } },
                _ => if *n != "br" { *c = change(s, c); },
            },
        },
    }
    norm(v)
}

/// Builds the value: statements which bind variables, and an expression.
struct B { lets: Vec<String>, n: usize }
impl B {
    fn var(&mut self, e: String) -> String { let v = format!("x{}_", self.n); self.n += 1; self.lets.push(format!("{v}={e}")); format!("${v}") }
    fn text(&mut self, s: &mut Src, t: &str) -> Vec<String> {
        // pieces, each not empty and without whitespace at its ends
        let cs: Vec<char> = t.chars().collect();
        let mut cuts = vec![0];
        for i in 1..cs.len() { if !cs[i].is_ascii_whitespace() && !cs[i - 1].is_ascii_whitespace() && s.chance(1, 3) { cuts.push(i); } }
        cuts.push(cs.len());
        cuts.windows(2).map(|w| {
            let p: String = cs[w[0]..w[1]].iter().collect();
            if p.chars().all(|c| c.is_ascii_alphanumeric()) && s.coin() && false { p } else {
                let l = str_lit(&p);
                match s.us(4) { 0 if p.chars().all(|c| c.is_ascii_alphabetic()) => p, 1 => format!("@match {l} {{$m -> $m}}"), _ => self.var(l) }
            }
        }).collect()
    }
    fn items(&mut self, s: &mut Src, v: &[N]) -> Vec<String> {
        let mut out: Vec<String> = vec![];
        for n in v {
            match n {
                N::Text(t) => out.extend(self.text(s, t)),
                N::El(n, a, c) => {
                    let mut a = a.clone();
                    if a.len() > 1 && s.coin() { a.reverse(); }
                    let spread = !a.is_empty() && s.chance(1, 4);
                    let mut t = format!("<{n}");
                    if s.chance(1, 5) { t = format!("<{}", n.to_uppercase()); }
                    if s.chance(1, 5) { let x = self.var(format!("`{n}`")); t = format!("<{x}"); }
                    if spread { t += &format!(" **@dict::new({}).", a.iter().map(|(k, v)| format!("{k}={}", v.as_ref().map(|v| str_lit(v)).unwrap_or(".".into()))).collect::<Vec<_>>().join(", ")); }
                    else { for (k, v) in &a { t += &match v { Some(v) => format!(" {k}={}", str_lit(v)), None => format!(" {k}") }; } }
                    if *n == "br" || *n == "wbr" { t += if t.starts_with("<$") || s.coin() { " />" } else { ">" }; } else {
                        let body = self.glue(s, c);
                        t += &if c.is_empty() && s.coin() { " />".to_string() } else { format!(">{body}</>") };
                    }
                    out.push(t);
                },
            }
            if s.chance(1, 8) { out.push(s.pick(&["{}", "{ }", "@match . {_ -> .}"]).to_string()); }
        }
        out
    }
    /// The items next to each other, in groups of any kind.
    fn glue(&mut self, s: &mut Src, v: &[N]) -> String {
        let items = self.items(s, v);
        self.group(s, &items)
    }
    fn group(&mut self, s: &mut Src, items: &[String]) -> String {
        let mut o = String::new();
        let mut i = 0;
        while i < items.len() {
            let k = i + 1 + s.us(items.len() - i);
            // a part in a group of its own, or bound to a variable; the
            // separator keeps neighbouring tokens apart
            let part = if k - i > 1 && s.chance(1, 3) || s.chance(1, 6) {
                let g = format!("{{{}}}", self.group(s, &items[i..k]));
                let r = match s.us(3) { 0 => self.var(g), 1 => format!("@match {g} {{$m -> {{$m}}}}"), _ => g };
                i = k;
                r
            } else { i += 1; items[i - 1].clone() };
            if o.ends_with(|c: char| c.is_alphanumeric() || c == '_') && part.starts_with(|c: char| c.is_alphanumeric() || c == '_' || c == ':') { o += "<!-- -->"; }
            o += &part;
        }
        o
    }
    fn expr(&mut self, s: &mut Src, v: &[N]) -> String {
        let items = self.items(s, v);
        match (v, s.us(4)) {
            ([N::El(..)], 0) if items.len() == 1 => items[0].clone(),
            ([N::Text(t)], 0) => str_lit(t),
            ([N::Text(t)], 1) if t.len() < 40 => { let c: Vec<String> = self.text(s, t).into_iter().map(|p| if p.starts_with('$') { p } else { self.var(format!("{{{p}}}")) }).collect(); format!("\"{}\"", c.concat()) },
            _ => format!("{{{}}}", self.group(s, &items)),
        }
    }
}

fn from_nodes(v: &[Node]) -> Vec<N> {
    v.iter().map(|n| match n {
        Node::Text(t) => N::Text(t.clone()),
        Node::El(n, a, c) => {
            let n = ["p", "h1", "b", "i", "span", "em", "br", "wbr", "a"].into_iter().find(|m| m == n).unwrap_or("?");
            let a = a.iter().map(|(k, v)| (["id", "class", "data_x", "title", "hidden"].into_iter().find(|m| m.replace('_', "-") == *k).unwrap_or("?"), v.clone())).collect();
            N::El(n, a, from_nodes(c))
        },
    }).collect()
}

fn run(s: &mut Src) -> CaseResult {
    let block = s.chance(1, 4);
    let a = seq(s, 2, block, 5);
    let n = if s.coin() { change(s, &a) } else { seq(s, 2, block, 5) };
    let differs = !same(&a, &n);
    let mut b = B {lets: vec![], n: 0};
    let es = [b.expr(s, &a), b.expr(s, &a), b.expr(s, &n)];
    let mut src = String::new();
    let mut depth = 0;
    let mut lets = |b: &mut B, src: &mut String| { for l in b.lets.drain(..) { *src += &format!("@let({l}) {{"); depth += 1; } };
    lets(&mut b, &mut src);
    src += &format!("@export(a={}, b={}, n={}).\n", es[0], es[1], es[2]);
    src += &format!("@let(a={}, b={}, n={}) {{", es[0], es[1], es[2]);
    depth += 1;
    src += "@export(ab=@match $a {=$b -> True, _ -> False}, ba=@list::contains($b) [1, $a], an=@match $a {=$n -> True, _ -> False}, na=@list::contains($a) [$n, 1], l=@match [[$a]] {=[[$b]] -> True, _ -> False}, ta=@typeof $a, tb=@typeof $b).\n";
    // taken apart
    src += "@export(parts=@list::html_nodes $a, rest=@match $a {{*$p} -> $p, _ -> [none]}).\n";
    src += "@let(j=@list::join @list::html_nodes $a) {@export(j=@match $j {=$b -> True, _ -> False}, joined=$j).}\n";
    let cut = s.us(a.len() + 2);
    let back = s.us(3);
    let vars = |r: std::ops::Range<usize>| r.map(|i| format!("$v{i}_")).collect::<Vec<_>>().join(" ");
    let (x, y) = (cut, cut + back);
    let all: Vec<String> = (0..x).map(|i| format!("$v{i}_")).chain(["$mid".to_string()]).chain((x..y).map(|i| format!("$v{i}_"))).collect();
    src += &format!("@match $a {{{{{}}} -> {{@export(again=@list::join [{}], mid=$mid).}}, _ -> {{@export(again=none, mid=none).}}}}\n", all.join(" ").replace("$mid", "*$mid"), all.join(", "));
    let exact = vars(0..a.len());
    src += &format!("@match $a {{{{{exact}}} -> {{@export(exact=@list::join [{}]).}}, _ -> {{@export(exact=[none]).}}}}\n", exact.replace(' ', ", "));
    src += &format!("@match $a {{{{{exact}{}$w}} -> {{@export(longer=True).}}, _ -> {{@export(longer=False).}}}}\n", if exact.is_empty() { "" } else { " " });
    src += &"}".repeat(depth);
    s.note("program", src.clone());
    s.note("value", format!("{a:?}"));
    if a.len() >= 2 && differs { s.nontrivial(); }
    s.label(if differs { "different values" } else { "equal values" });
    s.tick();
    let names: Vec<String> = ["a", "b", "n", "ab", "ba", "an", "na", "l", "ta", "tb", "parts", "j", "joined", "rest", "mid", "again", "exact", "longer"].map(String::from).to_vec();
    let e = eval(&src, &names)?;
    if !e.out.ok() { return Err(format!("diagnostics: {}", e.out.printed)); }
    let get = |k: &str| e.get(k).cloned().ok_or_else(|| format!("{k} is not exported"));
    let want = |k: &str, w: bool| if get(k)? == V::Bool(w) { Ok(()) } else { Err(format!("{k} is {:?}, expected {w}: a is {:?}, b is {:?}, n is {:?}", get(k)?, get("a")?, get("b")?, get("n")?)) };
    // the text of a single piece is a string
    if let [N::Text(t)] = &a[..] { for k in ["a", "b"] { if get(k)? != V::Str(t.clone()) { return Err(format!("{k} is {:?}, expected the string {t:?}", get(k)?)); } } }
    if a.is_empty() { for k in ["a", "b"] { if get(k)? != V::unit() { return Err(format!("{k} is {:?}, expected no content", get(k)?)); } } }
    want("ab", true)?; want("ba", true)?; want("l", true)?;
    want("an", !differs)?; want("na", !differs)?;
    if get("ta")? != get("tb")? { return Err(format!("the types of equal values are {:?} and {:?}", get("ta")?, get("tb")?)); }
    let tw = if a.is_empty() { "none" } else if let [N::Text(_)] = a[..] { "str" } else if block { "block" } else { "inline" };
    if get("ta")? != V::s(tw) { return Err(format!("the type is {:?}, expected {tw:?}", get("ta")?)); }
    // the parts are the texts and the elements
    let V::List(parts) = get("parts")? else { return Err(format!("the parts are {:?}", get("parts")?)); };
    let same_value = |what: &str, v: &V, n: &[N]| -> CaseResult {
        let ok = match (v, n) {
            (v, []) => *v == V::unit(),
            (V::Str(t), [N::Text(u)]) => t == u,
            (V::Str(_), _) | (_, [N::Text(_)]) => false,
            (V::Html(h), n) => same(&from_nodes(&read_html(h)?), n),
            _ => false,
        };
        if ok { Ok(()) } else { Err(format!("{what} is {v:?}, expected {n:?}")) }
    };
    same_value("the value", &get("a")?, &a)?;
    if parts.len() != a.len() { return Err(format!("the nodes are {parts:?} of {a:?}")); }
    for (p, n) in parts.iter().zip(&a) { same_value("a node", p, std::slice::from_ref(n))?; }
    same_value("the whole as a rest", &get("rest")?, &a)?;
    same_value("the joined value", &get("joined")?, &a)?;
    if x + y - x <= a.len() {
        same_value("the middle", &get("mid")?, &a[x..a.len() - (y - x)])?;
        same_value("the value joined again", &get("again")?, &a)?;
    } else if get("again")? != V::s("none") { return Err(format!("{y} variables matched {a:?}")); }
    same_value("the value joined from a pattern of all nodes", &get("exact")?, &a)?;
    want("longer", false)?;
    want("j", true)?;
    Ok(())
}

/// Content built with `list::join` keeps whitespace, at the ends of pieces also.
fn joins(s: &mut Src) -> CaseResult {
    fn piece(s: &mut Src) -> N {
        match s.us(7) {
            0 => N::Text(s.pick(&[" ", "\n", "  ", " \n", "\t", "\u{a0}", " a", "a ", "\na\n"]).to_string()),
            1 => N::Text(String::new()),
            2 => N::El("b", vec![], norm(vec![N::Text(text(s))])),
            3 => N::El("br", vec![], vec![]),
            4 => N::Text(" ".into()),
            _ => N::Text(gen::any_string(s, 3)),
        }
    }
    fn src(n: &N) -> String {
        match n {
            N::Text(t) if t.is_empty() => ".".into(),
            N::Text(t) => str_lit(t),
            N::El(n, a, c) => {
                let a: String = a.iter().map(|(k, v)| match v { Some(v) => format!(" {k}={}", str_lit(v)), None => format!(" {k}") }).collect();
                let body: String = c.iter().map(|n| if let N::Text(t) = n { format!("@str::from {}", str_lit(t)) } else { src(n) }).collect();
                if c.is_empty() { format!("<{n}{a} />") } else { format!("<{n}{a}>{body}</>") }
            },
        }
    }
    fn build(s: &mut Src, v: &[N]) -> String {
        if v.len() == 1 && s.coin() { return src(&v[0]); }
        let mut parts = vec![];
        let mut i = 0;
        while i < v.len() {
            let k = i + 1 + s.us(v.len() - i);
            if k - i < v.len() && s.coin() { parts.push(build(s, &v[i..k])); i = k; } else { parts.push(src(&v[i])); i += 1; }
        }
        format!("@list::join [{}]", parts.join(", "))
    }
    let a = s.vec(0, 6, piece);
    let na = norm(a.clone());
    let b = if s.chance(1, 3) { change(s, &na) } else { a.clone() };
    let nb = norm(b.clone());
    let (x, y) = (build(s, &a), build(s, &b));
    let sep = match s.us(3) { 0 => vec![], _ => vec![piece(s)] };
    let prog = format!("@export(a={x}, b={y}, ta=@typeof {x}, ws=@html::is_whitespace {x}, em=@html::is_empty {x}, nodes=@list::html_nodes {x}, joined=@list::join({}) [{}]).@match {x} {{={y} -> {{@export(eq=True).}}, _ -> {{@export(eq=False).}}}}", sep.first().map(src).unwrap_or(".".into()), a.iter().map(src).collect::<Vec<_>>().join(", "));
    s.note("program", prog.clone());
    if a.len() > na.len() && na.len() > 1 { s.nontrivial(); }
    s.tick();
    let e = eval(&prog, &["a", "b", "ta", "ws", "em", "nodes", "joined", "eq"].map(String::from))?;
    if !e.out.ok() { return Err(format!("diagnostics: {}", e.out.printed)); }
    let check = |k: &str, v: &V, n: &[N]| -> CaseResult {
        let ok = match (v, n) {
            (v, []) => *v == V::unit(),
            (V::Str(t), [N::Text(u)]) => t == u,
            // a single space or newline may be content rather than a string
            (V::Html(t), [N::Text(u)]) => (u == " " || u == "\n") && t == u,
            (V::Str(_), _) => false,
            (V::Html(h), n) => same(&from_nodes(&read_html(h)?), n),
            _ => false,
        };
        if ok { Ok(()) } else { Err(format!("{k} is {v:?}, expected {n:?}")) }
    };
    let get = |k: &str| e.get(k).ok_or_else(|| format!("{k} is not exported"));
    check("a", get("a")?, &na)?;
    check("b", get("b")?, &nb)?;
    let mut all = vec![];
    for (i, n) in a.iter().enumerate() { if i > 0 { all.extend(sep.iter().cloned()); } all.push(n.clone()); }
    check("the joined list", get("joined")?, &norm(all))?;
    if *get("eq")? != V::Bool(same(&na, &nb)) { return Err(format!("equal is {:?} for {na:?} and {nb:?}", get("eq")?)); }
    if *get("em")? != V::Bool(na.is_empty()) { return Err(format!("is_empty is {:?} of {na:?}", get("em")?)); }
    let blank = match &na[..] { [] => true, [N::Text(t)] => t.chars().all(|c| c.is_ascii_whitespace()), _ => false };
    if *get("ws")? != V::Bool(blank) { return Err(format!("is_whitespace is {:?} of {na:?}", get("ws")?)); }
    let V::List(nodes) = get("nodes")? else { return Err(format!("the nodes are {:?}", get("nodes")?)); };
    if nodes.len() != na.len() { return Err(format!("the nodes are {nodes:?} of {na:?}")); }
    for (v, n) in nodes.iter().zip(&na) { check("a node", v, std::slice::from_ref(n))?; }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C24",
        subs: vec![Sub {name: "values", quick: 40_000, thorough: 1_500_000, run},
            Sub {name: "joins", quick: 40_000, thorough: 1_500_000, run: joins}],
        fixed: vec![],
        rule: "values: values of at least two nodes, with another which differs; joins: pieces of which some merge or vanish",
        assumptions: &["an attribute without a value and one with an empty value are different values", "texts with whitespace at their ends, which groups may drop, are generated in joined lists only"],
    }
}
