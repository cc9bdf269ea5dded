#![allow(unused_imports, dead_code)]
mod fsx;
mod rt;
mod util;
mod ledger;
mod submit;
mod codec;
mod algo;
mod model;
mod chainx;
mod epoch;
mod persist;
mod misc;
mod dur;
mod node;
mod layout;
mod cancel;
mod pure;
mod accum;
mod damage;
mod twin;

use rt::*;
use std::path::PathBuf;

fn props() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(ledger::props());
    v.extend(submit::props());
    v.extend(codec::props());
    v.extend(algo::props());
    v.extend(chainx::props());
    v.extend(epoch::props());
    v.extend(persist::props());
    v.extend(misc::props());
    v.extend(dur::props());
    v.extend(node::props());
    v.extend(layout::props());
    v.extend(twin::props());
    v.extend(cancel::props());
    v.extend(pure::props());
    v.extend(damage::props());
    v.extend(accum::props());
    v
}

fn tier(s: &str) -> Tier {
    if s == "thorough" { Tier::Thorough } else { Tier::Quick }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let ps = props();
    let find = |id: &str| ps.iter().find(|p| p.id == id).unwrap_or_else(|| { eprintln!("unknown property {id}"); std::process::exit(2) });
    match a.get(1).map(|s| s.as_str()) {
        Some("worker") => {
            let p = find(&a[2]);
            worker(p, tier(&a[3]), a[4].parse().unwrap(), a[5].parse().unwrap(), &PathBuf::from(&a[6]), a.get(7).map(|s| s.parse().unwrap()));
        }
        Some("run") => {
            let t = a.get(3).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
            std::process::exit(parent(find(&a[2]), tier(&t), None));
        }
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let p = find(v["property"].as_str().unwrap());
            std::process::exit(parent(p, tier(v["tier"].as_str().unwrap()), Some(v["case"].as_u64().unwrap())));
        }
        Some("again") => std::process::exit(parent(find(&a[2]), tier(&a[3]), a[4].parse().ok())),
        Some("list") => {
            for p in &ps {
                println!("{} {}", p.id, p.level);
            }
        }
        _ => {
            eprintln!("usage: mc run ID [quick|thorough] | mc replay FILE | mc list");
            std::process::exit(2);
        }
    }
}
