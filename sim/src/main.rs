use simcore::{driver, install, props};
use std::time::Duration;

fn main() {
    install(vec![simleaf0::run, simleaf1::run, simleaf2::run, simleaf3::run]);
    let a: Vec<String> = std::env::args().collect();
    let scs = props::all();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let find = |id: &str| scs.iter().find(|s| s.id == id).unwrap_or_else(|| { eprintln!("no property {}", id); std::process::exit(2) });
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let tier = a.get(3).cloned().unwrap_or(tier);
            let cap = std::env::var("SIM_WALL").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 3000 } else { 420 });
            std::process::exit(driver::check(find(&a[2]), seed, &tier, Duration::from_secs(cap)))
        }
        Some("replay") => std::process::exit(driver::replay(&scs, &a[2])),
        Some("plan") => println!("{}", serde_json::to_string_pretty(&driver::plan_for(find(&a[2]), seed, a[3].parse().unwrap(), tier == "thorough").to_json()).unwrap()),
        Some("one") => {
            let sc = find(&a[2]);
            let t = std::time::Instant::now();
            let o = driver::run_one(sc, &driver::plan_for(sc, seed, a[3].parse().unwrap(), tier == "thorough"), true);
            let mut v = o.v.clone();
            if let Some(m) = v.as_object_mut() { m.remove("events"); m.remove("keys"); }
            println!("{}", serde_json::to_string_pretty(&v).unwrap());
            println!("{:?} {:?}", o.viol, t.elapsed());
        }
        Some("determinism") => std::process::exit(driver::determinism(find(&a[2]), seed, a[3].parse().unwrap())),
        Some("list") => for s in &scs { println!("{}", s.id) },
        _ => { eprintln!("usage: plonky-sim check <id> [tier] | replay <file> | one <id> <run> | plan <id> <run> | determinism <id> <runs>"); std::process::exit(2) }
    }
}
