use vprove::report::*;
fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let id = args.first().cloned().unwrap_or_default();
    let env = |k: &str, d: &str| std::env::var(k).unwrap_or_else(|_| d.to_string());
    let tier = if env("VERIF_TIER", "quick") == "thorough" { Tier::Thorough } else { Tier::Quick };
    let only = match args.get(1).map(String::as_str) {
        Some("--case") => Some((args[2].clone(), args[3].parse().expect("case index"))),
        _ => None,
    };
    let opts = Opts {
        tier,
        seed: env("VERIF_SEED", "1").parse().unwrap_or(1),
        only,
        threads: env("VMON_THREADS", "8").parse().unwrap_or(8),
        verif: env("VERIF_DIR", "/verif").into(),
    };
    let spec = match id.as_str() {
        "C01" => vprove::complete::c01(),
        "C02" => vprove::accuracy::c02(),
        "C03" => vprove::tamper::c03(),
        "C04" => vprove::forge::c04(),
        "C05" => vprove::fields::c05(),
        "C07" => vprove::circuits::c07(),
        "P" => vprove::e2e::proto(),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(4);
        }
    };
    std::process::exit(run(spec, &opts));
}
