mod geomx;
mod model;
mod props;
mod refgeom;
mod runner;
mod tree;
mod world;

use runner::*;
use std::path::Path;

fn find<'a>(all: &'a [Box<dyn Prop>], id: &str) -> &'a dyn Prop {
    all.iter().find(|p| p.id() == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    }).as_ref()
}
fn case_of(f: &str) -> (String, serde_json::Value) {
    let v: serde_json::Value =
        serde_json::from_slice(&std::fs::read(Path::new(f)).expect("case file")).expect("case file");
    (v["property"].as_str().expect("property").to_string(), v["case"].clone())
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let all = props::all();
    let code = match a.first().map(|s| s.as_str()) {
        Some("list") => {
            all.iter().for_each(|p| println!("{}", p.id()));
            0
        }
        Some("run") => {
            let env = |k: &str| std::env::var(k).ok();
            let seed = env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1);
            let mut tier = env("VERIF_TIER").unwrap_or("quick".into());
            let mut cases = None;
            for x in &a[2..] {
                if let Some(n) = x.strip_prefix("--cases=") {
                    cases = Some(n.parse().unwrap());
                } else if let Some(t) = x.strip_prefix("--tier=") {
                    tier = t.to_string();
                }
            }
            run(find(&all, &a[1]), tier == "thorough", seed, cases)
        }
        Some("child") => {
            let job = Job {
                seed: a[2].parse().unwrap(),
                thorough: a[3] == "true",
                progress: Some(a[5].clone().into()),
                cases: a[6].parse().ok(),
            };
            child(find(&all, &a[1]), &job, Path::new(&a[4]));
            0
        }
        Some("replay-child") => {
            let (id, c) = case_of(&a[1]);
            replay_child(find(&all, &id), &c)
        }
        Some("replay") => {
            let (id, _) = case_of(&a[1]);
            let r = std::process::Command::new(std::env::current_exe().unwrap())
                .args(["replay-child", &a[1]])
                .status()
                .unwrap();
            if r.success() {
                println!("holds: property={id}");
                0
            } else {
                println!("VIOLATION property={id} replay={}", a[1]);
                1
            }
        }
        _ => {
            eprintln!("usage: qtcheck list | run <id> [--tier=thorough] [--cases=N] | replay <file>");
            2
        }
    };
    std::process::exit(code)
}
