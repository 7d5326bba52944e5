#![cfg_attr(portable_atomic_unstable_f16, feature(f16))]
#![cfg_attr(portable_atomic_unstable_f128, feature(f128))]
#![allow(dead_code)]
mod ops;
mod refmodel;
mod rng;
mod seq;
mod misc;
#[cfg(feature = "cs")]
mod cs;
mod lit;
mod hammer;
mod trace;
#[cfg(target_arch = "aarch64")]
mod emu;
#[cfg(feature = "sim")]
mod sim;
#[cfg(feature = "bare")]
mod bare;
use std::collections::HashMap;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    #[cfg(target_arch = "aarch64")]
    emu::install();
    let mut args = std::env::args().skip(1);
    let cmd = args.next().expect("command");
    let kv: HashMap<String, String> = args.map(|a| { let (k, v) = a.split_once('=').expect("k=v"); (k.into(), v.into()) }).collect();
    let get = |k: &str, d: &str| kv.get(k).cloned().unwrap_or_else(|| d.to_string());
    let num = |k: &str, d: u64| get(k, &d.to_string()).parse::<u64>().unwrap();
    #[cfg(feature = "bare")]
    bare::open(&get("guest", ""), &get("machine", ""), cmd == "others");
    match cmd.as_str() {
        #[cfg(feature = "bare")]
        "int" => bare::intr::run(num("seed", 1), num("pairs", 20) as usize, &get("types", "all"), num("fiq", 0) == 1),
        #[cfg(feature = "bare")]
        "others" => bare::intr::others(num("seed", 1), &get("types", "all"), &get("ops", "all")),
        #[cfg(feature = "bare")]
        "drive" => bare::drive(&get("log", "")),
        #[cfg(feature = "bare")]
        "reports" => bare::intr::reports(num("lf", 128) as u32, &get("have", "")),
        "seq" => {
            let ops = get("ops", "all");
            let cfg = seq::Cfg {
                ops: ops::ALL_OPS.iter().map(|o| o.name()).filter(|n| ops == "all" || ops.split(',').any(|x| x == *n)).collect(),
                seed: num("seed", 1), random: num("random", 2000) as usize, emit_per_op: num("emit", 100), thin: num("thin", 1),
                types: kv.get("types").map(|t| t.split(',').map(|s| s.to_string()).collect()),
            };
            let out = seq::run(&cfg);
            eprintln!("{{\"executed\":{},\"emitted\":{},\"flagged\":{}}}", out.executed, out.emitted, out.flagged);
        }
        "ord" => misc::ord(&get("types", "all")),
        "inj" => misc::inj(num("seed", 1), num("random", 0) as usize, &get("types", "all")),
        "hammer" => hammer::run(&get("types", "u8"), num("n", 1000), num("seed", 1)),
        "views" => misc::views(true),
        #[cfg(feature = "cs")]
        "cs" => cs::run(num("seed", 1), num("n", 30) as usize, &get("ops", "all")),
        #[cfg(feature = "sim")]
        "sim" => {
            let progs = lit::parse(&std::fs::read_to_string(get("progs", "")).unwrap());
            lit::simrun::run(&progs, &lit::simrun::P { preempt: num("preempt", 2) as u32, stale: num("stale", 1) as u32, max: num("max", 20000), random: num("random", 0), seed: num("seed", 1), wrap: num("wrap", 0) == 1 });
        }
        #[cfg(feature = "sim")]
        "ver" => lit::simrun::versions(&get("types", "u128,i128")),
        #[cfg(feature = "sim")]
        "first" => lit::simrun::first(&get("e128", "any"), &lit::simrun::P { preempt: num("preempt", 3) as u32, stale: num("stale", 3) as u32, max: num("max", 20000), random: 0, seed: 1, wrap: false }),
        "stress" => lit::stress(&lit::parse(&std::fs::read_to_string(get("progs", "")).unwrap()), num("rounds", 100), num("seed", 1), num("timed", 1) == 1),
        "place" => trace::place(),
        "trace" => trace::run(&get("table", ""), num("passes", 2) as usize),
        "lf" => misc::lf(&get("e128", "any"), &get("e64", "any")),
        _ => { eprintln!("unknown command {cmd}"); std::process::exit(2); }
    }
}
