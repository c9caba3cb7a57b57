#![allow(clippy::all)]
mod chunks;
mod commute;
mod cost;
mod gen;
mod hash;
mod passes;
mod opnames;
mod interval;
mod modifier;
mod prog;
mod pytket;
mod qsystem;
mod util;
fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let num = |i: usize| args.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    match args.get(1).map(|s| s.as_str()) {
        Some("qsystem") => qsystem::run(),
        Some("qsystem-programs") => qsystem::programs(num(2), num(3) as usize),
        Some("modifier") => modifier::single(&args[3..].iter().map(|s| s.as_str()).collect::<Vec<_>>(), num(2) as usize),
        Some("modifier-programs") => modifier::programs(num(2), num(3) as usize),
        Some("cost") => cost::run(num(2), num(3) as usize),
        Some("chunks") => chunks::run(&args[2]),
        Some("chunk-costs") => chunks::cost(num(2) as usize),
        Some("interval") => interval::run(&args[2]),
        Some("hash") => hash::run(&args[2], args[3].parse().unwrap()),
        Some("passes") => passes::run(&args[2]),
        Some("opnames") => opnames::run(),
        Some("containers") => passes::containers(&args[2]),
        Some("hash-ops") => hash::ops(),
        Some("commute") => commute::run(),
        Some("commute-programs") => commute::programs(num(2), num(3) as usize),
        Some("encode") => pytket::encode(&args[2]),
        Some("decode") => pytket::decode(&args[2]),
        x => {
            eprintln!("unknown suite {x:?}");
            std::process::exit(3);
        }
    }
}
