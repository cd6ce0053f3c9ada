#![allow(clippy::all)]
#[macro_use]
mod common;
mod disc;
mod lab;
mod load;
mod pc;
mod srv;
mod tree;
use common::Ctx;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (pid, tier, seed, out) = (a[1].as_str(), a[2].as_str(), a[3].parse::<u64>().unwrap(), a[4].as_str());
    if std::env::var("VH_TRACE").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let mut c = Ctx::new(tier == "thorough", seed, out);
    match pid {
        "P01" | "P02" | "P03" | "P04" | "P05" | "P06" | "P07" | "P21" | "P22" => tree::run(&mut c, pid),
        "P09" => disc::p09(&mut c),
        "P10" => disc::p10(&mut c),
        "P11" => disc::p11(&mut c),
        "P12" => disc::p12(&mut c),
        "P13" => disc::p13(&mut c),
        "P14" => pc::p14(&mut c),
        "P15" => pc::p15(&mut c),
        "P16" => pc::p16(&mut c),
        "P17" => lab::p17(&mut c),
        "P18" => lab::p18(&mut c),
        "P19" => pc::p19(&mut c),
        "P20" => srv::p20(&mut c),
        "P23" => load::p23(&mut c),
        "P24" => disc::p24(&mut c),
        "P25" => disc::p25(&mut c),
        _ => {}
    }
    c.finish();
}
