//! C06: comments, spacing and redundant grouping never change the result.
use crate::engine::*;
use crate::lang::*;
use super::progs;

fn same(a: &Exported, b: &Exported) -> Result<(), String> {
    if a.out.html != b.out.html { return Err(format!("the output is {:?}, but with the plain layout {:?}", b.out.html, a.out.html)); }
    if a.out.text != b.out.text { return Err(format!("the text output is {:?}, but with the plain layout {:?}", b.out.text, a.out.text)); }
    if a.out.msgs() != b.out.msgs() || a.out.errors != b.out.errors || a.out.warnings != b.out.warnings { return Err(format!("the diagnostics are\n{}\nbut with the plain layout\n{}", b.out.printed, a.out.printed)); }
    if a.vals != b.vals { return Err(format!("the exports are {:?}, but with the plain layout {:?}", b.vals, a.vals)); }
    Ok(())
}

fn run(s: &mut Src) -> CaseResult {
    let toks = progs::program(s);
    let plain = progs::plain(&toks);
    let names = progs::export_names();
    s.note("plain layout", plain.clone());
    let a = eval(&plain, &names)?;
    if toks.len() >= 15 { s.nontrivial(); }
    s.label(if a.out.errors == 0 { "without errors" } else { "with errors" });
    for grouping in [false, true] {
        let other = progs::laid_out(s, &toks, grouping);
        s.note("other layout", other.clone());
        s.tick();
        let b = eval(&other, &names)?;
        if grouping && a.out.errors > 0 {
            // a group continues after an error in it, so that there may be more
            if b.out.errors == 0 { return Err(format!("no error is reported, but with the plain layout\n{}", a.out.printed)); }
        } else {
            same(&a, &b)?;
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        subs: vec![Sub {name: "layouts", quick: 30_000, thorough: 2_000_000, run}],
        fixed: vec![],
        rule: "programs of at least 15 tokens and gaps; each is compared, in the plain layout and two random ones, by output, text, exports and the sequence of messages",
        assumptions: &["grouping is applied to content (a group of any other value turns it into content)", "only trailing commas after at least one item are generated"],
    }
}
