mod checks;
mod cmp;
mod conv;
mod dec;
mod desc;
mod dict;
mod enc;
mod engine;
mod gen;
mod mem;
mod model;
mod vary;
mod mstr;

use std::path::PathBuf;

#[global_allocator]
static A: mem::Counting = mem::Counting;

fn find(id: &str) -> &'static engine::Check {
    checks::all().iter().find(|c| c.id == id).unwrap_or_else(|| {
        eprintln!("no such check: {}", id);
        std::process::exit(2)
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let cfg = engine::Config::from_env();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("worker") => engine::worker(find(&a[2]), &cfg, 0, &PathBuf::from(&a[3]), &PathBuf::from(&a[4])),
        Some("one") => {
            let ch = engine::parse_choices(&std::fs::read_to_string(&a[3]).unwrap_or_default());
            engine::one(find(&a[2]), &cfg, ch, a.get(4).map(PathBuf::from).as_deref())
        }
        Some("case") => engine::case(find(&a[2]), &cfg, a[3].parse().unwrap(), &PathBuf::from(&a[4])),
        Some("list") => {
            for c in checks::all() {
                println!("{}", c.id);
            }
            0
        }
        Some("replay") => {
            let t = std::fs::read_to_string(&a[2]).expect("replay file");
            let get = |k: &str| {
                let p = t.find(&format!("\"{}\":\"", k)).map(|i| i + k.len() + 4)?;
                Some(t[p..].split('"').next().unwrap().to_string())
            };
            let id = get("property").expect("property");
            std::env::set_var("VERIF_TIER", get("tier").unwrap_or_default());
            let cfg = engine::Config::from_env();
            let ch = engine::parse_choices(&get("choices").unwrap_or_default());
            engine::one(find(&id), &cfg, ch, None)
        }
        Some(id) => engine::run_check(find(id), &cfg),
        None => {
            eprintln!("usage: check ID | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}
