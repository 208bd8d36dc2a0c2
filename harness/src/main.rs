mod engine;
mod known;
mod lang;
mod props;

use std::path::PathBuf;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let Some(id) = args.first().filter(|a| !a.starts_with("--")).cloned() else {
        eprintln!("usage: papyri-pbt ID [--replay FILE] [--mult X]");
        std::process::exit(2);
    };
    let flag = |name: &str| args.iter().position(|a| a == name).map(|i| args.get(i + 1).cloned().unwrap_or_default());
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" }.to_string();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1);
    let verif = std::env::var("PBT_VERIF").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"));
    let mult = flag("--mult").and_then(|m| m.parse().ok()).unwrap_or(1.0);
    let opts = engine::Opts {tier, seed, verif, mult};

    engine::install_panic_hook();
    let Some(prop) = props::get(&id) else {
        eprintln!("no check for property {id}");
        std::process::exit(2);
    };
    let code = if let Some(f) = flag("--replay") {
        let d = std::env::temp_dir().join(format!("pbt-replay-{}", std::process::id()));
        std::fs::create_dir_all(&d).unwrap();
        std::env::set_var("PBT_SCRATCH", &d);
        let c = std::thread::scope(|s| std::thread::Builder::new().stack_size(512 << 20)
            .spawn_scoped(s, || engine::replay(&prop, f.as_ref())).unwrap().join().unwrap());
        let _ = std::fs::remove_dir_all(&d);
        c
    } else if args.iter().any(|a| a == "--worker") {
        engine::limit_memory(22 << 30);
        engine::run_prop(&prop, &opts, args.iter().any(|a| a == "--resume"))
    } else if let Some(spec) = flag("--one") {
        engine::run_one(&prop, &opts, &spec)
    } else {
        engine::supervise(&prop, &opts, &args)
    };
    std::process::exit(code);
}
