mod algebra;
mod common;
mod engine;
mod fold;
mod graph;
mod poly;
mod polygen;
mod utils2d;

use engine::*;
use std::path::Path;

fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(graph::props());
    v.extend(poly::props());
    v.extend(utils2d::props());
    v.extend(algebra::props());
    v.extend(fold::props());
    v
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let props = all();
    let find = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("no property {}", id));
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => run_check(&props, find(&a[2])),
        Some("replay") => run_replay(&props, Path::new(&a[2])),
        Some("replay-child") => replay_child(&props, Path::new(&a[2]), Path::new(&a[3])),
        Some("shard") => {
            let p = find(&a[2]);
            let ctx = ShardCtx {
                prop: p.id,
                shard: a[3].parse().unwrap(),
                shards: a[4].parse().unwrap(),
                seed: a[5].parse().unwrap(),
                tier: if a[6] == "thorough" { Tier::Thorough } else { Tier::Quick },
                scale: a[7].parse().unwrap(),
            };
            run_shard(p, &ctx, a.get(9).map(|s| s.as_str()), Path::new(&a[8]))
        }
        Some("list") => {
            for p in &props {
                println!("{} {}", p.id, p.subs.iter().map(|s| s.name).collect::<Vec<_>>().join(" "));
            }
            0
        }
        _ => {
            eprintln!("usage: kv check ID | replay FILE | list");
            64
        }
    };
    std::process::exit(code);
}
