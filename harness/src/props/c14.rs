//! C14: generated identifiers are valid, bounded in length and never repeat.
use std::collections::HashSet;
use crate::engine::*;
use crate::lang::*;
use super::vals;

fn valid(id: &str) -> bool {
    let mut cs = id.chars();
    matches!(cs.next(), Some(c) if c.is_ascii_lowercase() || c == '_') && cs.all(|c| c.is_ascii_lowercase() || c.is_ascii_digit() || c == '_')
}
fn identifier(t: &str) -> bool {
    let mut cs = t.chars();
    matches!(cs.next(), Some(c) if c.is_ascii_alphabetic() || c == '_') && cs.all(|c| c.is_ascii_alphanumeric() || c == '_')
}

/// The properties of a sequence of answers; `max` is 128 unless given.
fn history(reqs: &[(String, Option<i64>)], ids: &[String]) -> CaseResult {
    let mut used: HashSet<&str> = HashSet::new();
    for (n, ((base, max), id)) in reqs.iter().zip(ids).enumerate() {
        let l = max.unwrap_or(128).min(1 << 20) as usize;
        let what = format!("request {n} for {base:?} with maximum length {l} gives {id:?}");
        if !valid(id) { return Err(format!("{what}, which is not a lowercase identifier")); }
        let lower = base.to_ascii_lowercase();
        // what was asked for, if that is possible
        if identifier(base) && base.len() <= l && !used.contains(lower.as_str()) && *id != lower { return Err(format!("{what}, though {lower:?} is possible")); }
        // the least number of numbered identifiers that fit before longer ones are needed
        let room = if l < 3 { 0 } else { 10usize.saturating_pow((l as u32 - 2).min(9)) - 2 };
        if id.len() > l && n < room && !(l < 3 && n > 0) { return Err(format!("{what}, which is too long")); }
        if !used.insert(id) { return Err(format!("{what}, which was given before")); }
    }
    Ok(())
}

fn base(s: &mut Src, pool: &[String], given: &[String]) -> String {
    match s.weighted(&[5, 3, 3, 2, 2]) {
        0 => s.pick(pool).clone(),
        1 => s.pick(&["a", "b", "A", "ab", "foo", "Foo", "a_2", "a_10", "foo_2", "_", "_2", "__", "x_9", "a2"]).to_string(),
        // something close to an answer of the usual form
        2 => { let b = s.pick(pool).clone(); format!("{b}_{}", s.range(1, 12)) },
        3 => vals::string(s),
        _ => if given.is_empty() { s.vec(0, 20, |s| *s.pick(&['a', 'B', '_', '9', ' ', 'é', '漢', '-', '\u{301}', '😀', '½', '\0'])).into_iter().collect() } else { s.pick(given).clone() },
    }
}

fn requests(s: &mut Src) -> CaseResult {
    let pool: Vec<String> = (0..3).map(|_| match s.us(3) { 0 => s.pick(&["a", "ab", "abc", "abcd", "id", "sec", "long_name"]).to_string(), 1 => vals::string(s), _ => s.vec(1, 30, |s| *s.pick(&['a', 'Z', '_', '1', '9', ' '])).into_iter().collect() }).collect();
    let lens: Vec<Option<i64>> = (0..2).map(|_| match s.weighted(&[2, 6, 1]) { 0 => None, 1 => Some(s.range(1, 9)), _ => Some(s.int().max(1)) }).collect();
    let mut reqs: Vec<(String, Option<i64>)> = vec![];
    let many = s.chance(1, 20);
    let max = if many { 130 } else { 24 };
    while reqs.len() < max {
        if !many && reqs.len() > 1 && s.chance(1, 12) { break; }
        let b = if many && s.chance(4, 5) { pool[0].clone() } else { let g: Vec<String> = reqs.iter().map(|r| r.0.clone()).collect(); base(s, &pool, &g) };
        reqs.push((b, if many && s.chance(9, 10) { lens[0] } else { *s.pick(&lens) }));
    }
    // one program, in which they are asked for in several ways
    let mut src = String::new();
    for (i, (b, l)) in reqs.iter().enumerate() {
        let arg = l.map(|l| format!("(max_length={l})")).unwrap_or_default();
        let lit = vals::str_src(s, b);
        src += &match s.us(5) {
            0 | 1 => format!("@export(r{i}=@str::unique_id{arg} {lit}).\n"),
            2 => format!("@export(r{i}=@let(x={}) {{@x::unique_id{arg}.}}).\n", str_lit(b)),
            3 => format!("@export(r{i}=@let(f=@fn $v -> @str::unique_id{arg} $v) @f {lit}).\n"),
            _ => format!("@export(r{i}=@match @list::map(@fn $v -> @str::unique_id{arg} $v) [{lit}] {{[$x] -> $x}}).\n"),
        };
    }
    s.note("program", src.clone());
    let names: Vec<String> = (0..reqs.len()).map(|i| format!("r{i}")).collect();
    if reqs.len() >= 4 { s.nontrivial(); }
    s.tick();
    let e = eval(&src, &names)?;
    if !e.out.ok() { return Err(format!("errors: {}", e.out.printed)); }
    let mut ids = vec![];
    for n in &names {
        match e.get(n) { Some(V::Str(t)) => ids.push(t.clone()), Some(V::Html(h)) => ids.push(h.clone()), other => return Err(format!("{n} is {other:?}")) }
    }
    s.note("answers", format!("{ids:?}"));
    history(&reqs, &ids)
}

/// The service itself, with long histories.
fn service(s: &mut Src) -> CaseResult {
    let mut g = papyri_lang::utils::text::UniqueIDGenerator::new();
    let rounds = 1 + s.us(2);
    let mut first: Option<(Vec<(String, Option<i64>)>, Vec<String>)> = None;
    for round in 0..rounds {
        let pool: Vec<String> = (0..2).map(|_| match s.us(3) { 0 => s.pick(&["a", "ab", "abc", "abcdef", "_", "9"]).to_string(), 1 => vals::string(s), _ => s.vec(1, 12, |s| *s.pick(&['a', 'Z', '_', '1', '9', ' '])).into_iter().collect() }).collect();
        let len = s.range(1, 7);
        let n = if s.chance(1, 60) { 600 } else { s.us(150) };
        let mut reqs = vec![];
        let mut ids: Vec<String> = vec![];
        for _ in 0..n {
            let b = if n > 500 || s.chance(3, 4) { pool[0].clone() } else { base(s, &pool, &ids) };
            let l = if n > 500 || s.chance(7, 8) { len } else { s.range(1, 20) };
            s.tick();
            ids.push(g.get_unique_id(&b, l as usize).to_string());
            reqs.push((b, Some(l)));
        }
        s.note("requests", format!("{:?}", &reqs[..reqs.len().min(30)]));
        if n > 20 { s.nontrivial(); }
        s.label(if n > 500 { "600 requests" } else { "up to 150 requests" });
        history(&reqs, &ids)?;
        // a cleared service is a new one
        g.clear();
        if round == 0 { first = Some((reqs, ids)); }
    }
    if let Some((reqs, ids)) = first {
        for ((b, l), id) in reqs.iter().zip(&ids) {
            let again = g.get_unique_id(b, l.unwrap() as usize).to_string();
            if again != *id { return Err(format!("after clearing, {b:?} gives {again:?}, but {id:?} before")); }
        }
    }
    Ok(())
}

/// Requests in several modules of one compilation.
fn modules(s: &mut Src) -> CaseResult {
    let dir = scratch_dir();
    let n = 1 + s.us(3);
    let bases = ["a", "b", "a_2", "x y", "A"];
    let mut texts = vec![];
    for m in 0..=n {
        let mut t = String::new();
        // modules before this one, possibly imported more than once
        let mut order: Vec<usize> = s.vec(0, 4, |s| s.us(n + 1)).into_iter().filter(|&k| k < m).collect();
        if m == n { order.insert(0, s.us(n)); }
        for k in &order { t += &match s.us(2) { 0 => format!("@include `m{k}`\n\n"), _ => format!("@let(m=@import `m{k}`) {{$m::all}}\n\n") }; }
        let reqs: Vec<String> = s.vec(1, 4, |s| format!("@str::unique_id `{}`", s.pick(&bases)));
        t += &format!("@let(i{m}=[{}]) {{<p>@list::join(` `) $i{m}</>@export(all=<p>@list::join(` `) $i{m}</>).}}\n", reqs.join(", "));
        texts.push(t);
    }
    // each module says its identifiers once; the same module may be shown again
    let mut ctx = new_ctx();
    for (m, t) in texts.iter().enumerate() {
        s.note(["m0", "m1", "m2", "m3"][m], t.clone());
        std::fs::write(dir.join(format!("m{m}.papyri")), t).unwrap();
    }
    s.nontrivial(); s.tick();
    let r = guarded(|| ctx.load_uncached(&dir.join(format!("m{n}.papyri"))).map_err(|_| ()))?.map_err(|()| "cannot be read".to_string())?;
    if ctx.diagnostics.num_errors > 0 { return Err(format!("errors: {:?}", ctx.diagnostics)); }
    let html = render(&ctx, &r.out, true)?;
    // the lists of the modules, each of which may occur again but only as a whole
    let mut seen: Vec<Vec<String>> = vec![];
    for part in html.split("<p>").skip(1) {
        let ids: Vec<String> = part.split("</p>").next().unwrap().split(' ').map(|x| x.to_string()).collect();
        if seen.contains(&ids) { continue; }
        seen.push(ids);
    }
    let mut used = HashSet::new();
    for id in seen.iter().flatten() {
        if !valid(id) { return Err(format!("{id:?} is not a lowercase identifier\n{html}")); }
        if !used.insert(id) { return Err(format!("{id:?} is given twice in one compilation\n{html}")); }
    }
    Ok(())
}

fn wrong(s: &mut Src) -> CaseResult {
    let arg = s.pick(&["max_length=0", "max_length=-1", "max_length=-9223372036854775808", "max_length=`5`", "max_length=True", "max_length=.", "5", "max_len=5"]).to_string();
    let src = format!("@export(a=@str::unique_id({arg}) {}).", vals::str_src(s, "abc"));
    s.note("program", src.clone());
    s.nontrivial(); s.tick();
    let o = compile(&src)?;
    if o.errors == 0 { return Err("is accepted".into()); }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        subs: vec![
            Sub {name: "requests", quick: 100_000, thorough: 2_000_000, run: requests},
            Sub {name: "service", quick: 20_000, thorough: 3_000_000, run: service},
            Sub {name: "modules", quick: 10_000, thorough: 200_000, run: modules},
            Sub {name: "arguments", quick: 500, thorough: 5_000, run: wrong},
        ],
        fixed: vec![],
        rule: "histories of at least four requests (twenty for the service itself)",
        assumptions: &["a longer identifier than requested is accepted once there have been as many requests as there are numbered identifiers of one character and the requested length"],
    }
}
