use vmon::report::{Opts, Tier};

#[global_allocator]
static ALLOC: vmon::alloc::Counting = vmon::alloc::Counting;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.is_empty() {
        eprintln!("usage: mon <PROPERTY> [--case FAMILY IDX]");
        std::process::exit(2);
    }
    if args[0] == "--child" {
        std::process::exit(vmon::child(&args[1..]));
    }
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let only = if args.len() >= 4 && args[1] == "--case" {
        Some((args[2].clone(), args[3].parse().expect("case index")))
    } else {
        None
    };
    let verif = std::env::var_os("VERIF_DIR").map_or_else(|| "/verif".into(), std::path::PathBuf::from);
    let threads = std::env::var("VMON_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let Some(spec) = vmon::spec(&args[0]) else {
        eprintln!("unknown property {}", args[0]);
        std::process::exit(2);
    };
    let code = vmon::report::run(spec, &Opts { tier, seed, only, threads, verif });
    if std::env::var_os("VMON_SCRATCH").is_none() {
        let _ = std::fs::remove_dir_all(vmon::report::scratch_root());
    }
    std::process::exit(code);
}
