use std::path::PathBuf;
use vmon::mon::Counting;
use vmon::run::*;

#[global_allocator]
static A: Counting = Counting;

fn env(prop: &str) -> Env {
    let root = std::env::var_os("VMON_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"));
    Env {
        root,
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
        prop: prop.to_string(),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match (a.get(1).map(|s| s.as_str()), a.get(2)) {
        (Some("check"), Some(p)) => {
            let e = env(p);
            match vmon::checks::get(p) {
                Some(c) => match (a.get(3), a.get(4)) {
                    (Some(m), Some(i)) => worker(e, c, Some((m.clone(), i.parse().unwrap())), None),
                    _ => supervise(e, c),
                },
                None => 2,
            }
        }
        (Some("work"), Some(p)) => {
            let slots = std::env::var_os("VMON_SLOTS").map(PathBuf::from);
            worker(env(p), vmon::checks::get(p).unwrap(), None, slots)
        }
        (Some("one"), Some(p)) => one(&PathBuf::from(p)),
        (Some("helper"), Some(p)) => vmon::checks::helper(p, &a[3..]),
        _ => {
            eprintln!("usage: vmon check PROPERTY [MODE CASE]");
            2
        }
    };
    std::process::exit(code);
}
