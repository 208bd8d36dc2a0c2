//! C01: every source text compiles to output or diagnostics, never a crash.
use crate::engine::*;
use crate::lang::*;
use super::{exprs, gen};

/// The bound on nesting: the parser and the evaluator are recursive.
const MAX_LEN: usize = 4000;

fn check(s: &mut Src, src: String) -> CaseResult {
    if src.len() > MAX_LEN { return Ok(()); }
    s.note("source", src.clone());
    if src.contains("@fn") && gen::may_recurse(&src) { s.label("possibly without end, not compiled"); return Ok(()); }
    s.tick();
    let full = compile(&src)?;
    if full.errors > 0 { s.label("with errors"); } else if full.warnings > 0 { s.label("with warnings only"); } else { s.label("clean"); }
    if src.len() >= 3 { s.nontrivial(); }
    // the totals and what is printed agree
    let d = full.diags();
    let w = d.iter().filter(|d| d.is_warning()).count() as u32;
    if w != full.warnings || d.len() as u32 - w != full.errors {
        return Err(format!("{} errors and {} warnings counted, but printed: {}", full.errors, full.warnings, full.printed));
    }
    if d.iter().any(|d| d.locs.is_empty() || d.msg.contains("already reported")) {
        return Err(format!("malformed diagnostics: {}", full.printed));
    }
    // the string API gives the output, or the diagnostics
    if s.chance(1, 4) && !["file", "import", "include"].iter().any(|w| src.contains(w)) {
        s.tick();
        match guarded(|| papyri_lang::compile_str(&src).map_err(|d| (d.num_errors, d.num_warnings, format!("{d:?}"), d.summary())))? {
            Ok(out) => if !full.ok() || out != full.html { return Err(format!("string API returned {out:?}, diagnostics are {}", full.printed)); },
            Err((e, w, text, sum)) => {
                if (e, w) != (full.errors, full.warnings) || text != full.printed || full.ok() { return Err(format!("string API returned other diagnostics: {text}\nthan {}", full.printed)); }
                if sum.is_empty() { return Err("empty summary".into()); }
            },
        }
    }
    Ok(())
}

fn run_raw(s: &mut Src) -> CaseResult { let t = gen::any_string(s, 60); check(s, t) }
fn run_soup(s: &mut Src) -> CaseResult { let t = gen::soup(s, 24); check(s, t) }
fn run_mutated(s: &mut Src) -> CaseResult { let t = gen::mutated(s); check(s, t) }
fn run_typed(s: &mut Src) -> CaseResult { let t = exprs::program(s); check(s, t) }
fn run_multi(s: &mut Src) -> CaseResult {
    let t = s.vec(1, 4, |s| if s.coin() { gen::soup(s, 6) } else { gen::mutated(s) }).join(if s.coin() { " " } else { "" });
    check(s, t)
}

/// Sources that once crashed the compiler, or come close to it.
fn fixed_sources() -> CaseResult {
    for src in [
        "é[", "\\x4", "\\xé", "\\x4é", "\\u00e", "\\u00é0", "\\U0001F60", "\\U00110000", "\\uD800", "\\é", "\\", "a\\\n b", "&#xD800;", "&#x110000;", "&#99999999999999;", "&#;", "&#x;", "&;", "&é;",
        "@code `\u{a0}a`", "@code_block \"\u{a0}a\n\u{3000}b\"", "@int::add(9223372036854775807, 1).", "@int::add(-9223372036854775807, -2).", "@int::negate(-9223372036854775808)", "-9223372036854775808",
        "@list::enumerate(from=9223372036854775807) [1, 2]", "@code_block(first_line_no=9223372036854775807) \"a\nb\nc\"", "{@str::unique_id `É x` @str::unique_id `É x`}",
        "@str::unique_id(max_length=1) `é` @str::unique_id(max_length=1) `é` @str::unique_id(max_length=2) `éé` @str::unique_id(max_length=2) `éé`",
        "@html::parse `<template>x</template><!--c--><!doctype html><svg><a/></svg>&amp;&nosuch;`", "<", "<!", "<!DOCTYPE", "</", "</>", "`", "``", "\"", "'", "$", "@", "@.", "$.", "[", "(", "{", "#", "<!--", "*", "**", "|", "&", "\u{0}", "\u{feff}x", "\r", "\r\n",
        "@match $", "@match 1 {", "@match 1 {-> 2", "@fn", "@fn(", "@fn($x", "@fn($x: ", "@let(", "@let(x=", "@export", "@implicit(", "$x::", "$x?::", "@let(d=.) {[1, *@d?::f x]}", "@let(d=.) @int::add(*@d?::f x).", "@let(d=.) <b **@d?::f.>x</b>", "@let(d=.) @dict::new(**@d?::f x).", "@let(d=.) <b x=@d?::f. y?=@d?::f.>x</b>",
        "@let(d=.) @match @d?::f. {$x: int -> 1, . -> 2}", "@x::", "<$x", "<a b", "<a b=", "<a *", "@f(*", "@f(**",
    ] {
        compile(src)?;
        guarded(|| papyri_lang::compile_str(src).map_err(|d| format!("{d:?} {}", d.summary())))
            .map_err(|e| format!("{e}\nsource: {src:?}")).map(|_| ())?;
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        subs: vec![
            Sub {name: "raw text", quick: 60_000, thorough: 2_000_000, run: run_raw},
            Sub {name: "token soup", quick: 120_000, thorough: 5_000_000, run: run_soup},
            Sub {name: "mutated programs", quick: 120_000, thorough: 5_000_000, run: run_mutated},
            Sub {name: "typed programs", quick: 250_000, thorough: 5_000_000, run: run_typed},
            Sub {name: "mixed", quick: 40_000, thorough: 3_000_000, run: run_multi},
        ],
        fixed: vec![Fixed {name: "fixed sources", run: fixed_sources}],
        rule: "sources of at least 3 bytes; sources are arbitrary Unicode strings, sequences of Papyri tokens, programs from a corpus with random edits, and generated programs which are mostly well typed",
        assumptions: &["nesting depth is bounded by source length 4000 and a 512 MB stack; unbounded recursion of a user function is outside the property"],
    }
}
