#![recursion_limit = "256"]
//! Property-based checks of wot-td. See /verif/DESIGN.md.

mod checks;
mod dict;
mod doc;
mod drive;
mod engine;
mod expect;
mod ext;
mod gen;
mod inject;
mod model;
mod validate;

use std::path::PathBuf;

/// Evaluate an expression for the extension set of a model.
#[macro_export]
macro_rules! with_set {
    ($set:expr, $X:ident => $e:expr) => {
        match $set {
            $crate::model::Set::Nil => {
                type $X = wot_td::hlist::Nil;
                $e
            }
            $crate::model::Set::A => {
                type $X = $crate::ext::XA;
                $e
            }
            $crate::model::Set::AB => {
                type $X = $crate::ext::XAB;
                $e
            }
            $crate::model::Set::P => {
                type $X = $crate::ext::XP;
                $e
            }
        }
    };
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let root = PathBuf::from(std::env::var_os("VERIF_ROOT").unwrap_or_else(|| "/verif".into()));
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let threads = std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(1, 16);
    let opts = |tier: &str| engine::Opts {
        seed,
        thorough: tier == "thorough",
        root: root.clone(),
        threads,
    };
    let arg = |i: usize| args.get(i).map_or("", String::as_str);
    let checks = checks::all();
    let find = |id: &str| {
        checks.iter().find(|c| c.id == id).unwrap_or_else(|| {
            eprintln!("unknown property {id:?}");
            std::process::exit(2)
        })
    };
    let code = match arg(0) {
        "list" => {
            for c in &checks {
                println!("{}", c.id);
            }
            0
        }
        // what `dictionary.json` is made of
        "dictionary" => {
            println!("{}", serde_json::to_string_pretty(&dict::to_json(&dict::of_sources())).unwrap());
            0
        }
        "replay" => engine::replay(&checks, arg(1)),
        "worker" => {
            let c = find(arg(1));
            let o = opts(arg(2));
            if arg(3).is_empty() {
                engine::run_worker(c, &o)
            } else {
                engine::run_single(c, &o, arg(3), arg(4).parse().unwrap())
            }
        }
        id => engine::run_parent(find(id), &opts(if arg(1).is_empty() { "quick" } else { arg(1) })),
    };
    std::process::exit(code)
}
