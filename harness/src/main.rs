mod alloc;
mod fmt;
mod gen;
mod ix;
mod lin;
mod mondb;
mod props;
mod rng;
mod run;
#[allow(dead_code)]
#[path = "../../conc/src/work.rs"]
mod work;
mod sched;

#[global_allocator]
static ALLOC: alloc::Watch = alloc::Watch;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let g = |i: usize| a.get(i).map(String::as_str).unwrap_or("");
    if g(1) == "list" {
        for p in props::all() {
            println!("{}", p.id);
        }
        return;
    }
    if g(1) == "keys" {
        props::life::child(g(2).parse().unwrap_or(1));
        return;
    }
    if g(1) == "kept" {
        props::sec::kept_child(g(2).parse().unwrap_or(1));
        return;
    }
    let Some(p) = props::all().into_iter().find(|p| p.id == g(2)) else {
        eprintln!("usage: vh run|worker|replay|list <property> ...");
        std::process::exit(2);
    };
    let env_seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse().ok())
        .unwrap_or(1u64);
    let env_thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let code = match g(1) {
        "run" => run::supervise(
            p,
            env_seed,
            env_thorough,
            std::env::var("VH_HOOKED_BIN").ok(),
        ),
        "worker" => run::worker(
            p,
            g(3).parse().unwrap_or(1),
            g(4) == "thorough",
            g(5) == "hooked",
        ),
        "replay" => run::replay(p, env_seed, g(3), g(4).parse().unwrap_or(0), env_thorough),
        _ => 2,
    };
    std::process::exit(code);
}
