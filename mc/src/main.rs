#![allow(clippy::all)]
mod api;
mod bfs;
mod calls;
mod engine;
mod env;
mod keys;
mod mesg;
mod p01;
mod p02;
mod p03;
mod p04;
mod p05;
mod p06;
mod p07;
mod cry;
mod p12;
mod p13;
mod p14;
mod p15;
mod p16;
mod p10;
mod p11;
mod p18;
mod p19;
mod store;
mod vfs;
mod kdf;
mod refc;
mod p20;
mod p08;
mod p24;
mod p25;
mod p21;
mod p26;
mod agree;
mod p27;
mod p29;
mod p22;
mod p23;
mod sched;
mod p30;
mod p28;

use engine::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 {
        eprintln!("usage: kmc PROP [quick|thorough] | kmc replay FILE | kmc list");
        std::process::exit(2);
    }
    let mut tier = Tier::Quick;
    let mut only = None;
    let mut prop = a[1].clone();
    let mut verbose = false;
    for x in &a[2..] {
        match x.as_str() {
            "quick" => tier = Tier::Quick,
            "thorough" => tier = Tier::Thorough,
            "-v" => verbose = true,
            _ => (),
        }
    }
    if prop == "replay" {
        // kmc replay FILE: re-executes the item of the explorer that failed
        let txt = std::fs::read_to_string(&a[2]).expect("replay file");
        let f = |k: &str| -> String {
            let p = format!("\"{}\":", k);
            let i = txt.find(&p).unwrap() + p.len();
            let r = &txt[i..];
            if let Some(s) = r.strip_prefix('"') {
                s[..s.find('"').unwrap()].to_string()
            } else {
                r[..r.find([',', '}']).unwrap()].to_string()
            }
        };
        prop = f("property");
        if f("tier") == "thorough" {
            tier = Tier::Thorough;
        }
        only = Some((f("stage"), f("item").parse().unwrap()));
    }
    let sc = Scratch::new();
    let o = Opts { tier, only, verbose };
    let rc = match prop.as_str() {
        "P01" => p01::run(&sc, &o),
        "P02" => p02::run(&sc, &o),
        "P03" => p03::run(&sc, &o),
        "P04" => p04::run(&sc, &o),
        "P05" => p05::run(&sc, &o),
        "P06" => p06::run(&sc, &o),
        "P07" => p07::run(&sc, &o, "P07"),
        "P09" => p07::run(&sc, &o, "P09"),
        "P20" => p20::run(&sc, &o),
        "P12" => p12::run(&sc, &o),
        "P13" => p13::run(&sc, &o),
        "P14" => p14::run(&sc, &o),
        "P15" => p15::run(&sc, &o),
        "P16" => p16::run(&sc, &o),
        "P10" => p10::run(&sc, &o),
        "P11" => p11::run(&sc, &o),
        "P18" => p18::run(&sc, &o),
        "P19" => p19::run(&sc, &o),
        "P08" => p08::run(&sc, &o),
        "P24" => p24::run(&sc, &o),
        "P25" => p25::run(&sc, &o),
        "P21" => p21::run(&sc, &o),
        "P26" => p26::run(&sc, &o),
        "P29" => p29::run(&sc, &o),
        "P22" => p22::run(&sc, &o),
        "P23" => p23::run(&sc, &o),
        "P30" => p30::run(&sc, &o),
        "P27" => p27::run(&sc, &o),
        "P28" => p28::run(&sc, &o),
        "build" => 0,
        _ => {
            eprintln!("unknown property {}", prop);
            2
        }
    };
    drop(sc);
    std::process::exit(rc);
}
