#![allow(dead_code)]
mod cfgx;
mod corpus;
mod dprops;
mod gencfg;
mod gprops;
mod graph;
mod iprops;
mod jprops;
mod model;
mod obs;
mod props;
mod rng;
mod runner;
mod sim;
mod tprops;
mod world;
mod xprops;

use std::path::Path;

pub fn describe(id: &str, seed: u64) -> Option<serde_json::Value> {
    props::find(id).and_then(|p| p.describe.map(|d| d(seed)))
}

fn main() {
    if std::env::var_os("KV_FAKE_DIR").is_some() {
        xprops::fake();
    }
    obs::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map_or("", |s| s.as_str());
    let num = |i: usize| -> u64 { arg(i).parse().unwrap_or_else(|_| usage()) };
    match arg(1) {
        "list" => {
            for p in props::all() {
                println!("{}", p.id);
            }
        }
        "check" => {
            let p = props::find(arg(2)).unwrap_or_else(|| usage());
            let tier = match arg(3) {
                "quick" => runner::Tier::Quick,
                "thorough" => runner::Tier::Thorough,
                _ => usage(),
            };
            std::process::exit(runner::check(p, tier, num(4), Path::new(arg(5))));
        }
        "work" => {
            let p = props::find(arg(2)).unwrap_or_else(|| usage());
            runner::work(p, num(3), num(4), num(5), num(6), num(7), Path::new(arg(8)));
        }
        "describe" => {
            println!(
                "{:#}",
                describe(arg(2), num(3)).unwrap_or(serde_json::Value::Null)
            );
        }
        "one" => {
            let p = props::find(arg(2)).unwrap_or_else(|| usage());
            runner::one(p, num(3));
        }
        _ => usage(),
    }
}

fn usage() -> ! {
    eprintln!("kv list | check ID quick|thorough SEED VERIF_DIR | one ID CASE_SEED | work ...");
    std::process::exit(2);
}
