#![allow(dead_code)]

mod adnl;
mod core;
mod d01;
mod d04;
mod d06;
mod d07;
mod dht;
mod o01;
mod o04;
mod o05;
mod o06;
mod ov;
mod rldp;
mod wire;

mod a01;
mod a02;
mod a03;
mod a04;
mod a05;
mod a06;
mod a07;
mod a08;
mod a09;
mod a10;
mod a11;
mod a12;
mod a13;
mod r01;
mod r02;
mod r03;
mod r04;

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub scripts: Vec<serde_json::Value>,
}

impl Ctx {
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
}

fn main() {
    let mut args = std::env::args().skip(1);
    let id = args.next().expect("property id");
    let mut out = String::from("/dev/stdout");
    let mut ctx = Ctx { seed: 1, thorough: false, scripts: Vec::new() };
    let mut hang = 30;
    while let Some(a) = args.next() {
        let v = args.next().expect("argument value");
        match a.as_str() {
            "--seed" => ctx.seed = v.parse().expect("seed"),
            "--tier" => ctx.thorough = v == "thorough",
            "--out" => out = v,
            "--hang" => hang = v.parse().expect("hang"),
            "--scripts" => {
                let text = std::fs::read_to_string(&v).expect("scripts");
                for line in text.lines().filter(|l| !l.trim().is_empty()) {
                    ctx.scripts.push(serde_json::from_str(line).expect("script"));
                }
            }
            _ => panic!("unknown argument {a}"),
        }
    }
    core::init(&out, hang);
    let run = || match id.as_str() {
        "A01" => a01::run(&ctx),
        "A02" => a02::run(&ctx),
        "A03" => a03::run(&ctx),
        "A07" => a07::run(&ctx),
        "A12" => a12::run(&ctx),
        "A13" => a13::run(&ctx),
        "A04" => a04::run(&ctx),
        "A05" => a05::run(&ctx),
        "A06" => a06::run(&ctx),
        "A08" => a08::run(&ctx),
        "A09" => a09::run(&ctx),
        "A10" => a10::run(&ctx),
        "D01" => d01::run(&ctx, false),
        "D02" => d01::run(&ctx, true),
        "D03" => d06::run(&ctx, true),
        "D06" => d06::run(&ctx, false),
        "D07" => d07::run(&ctx),
        "D04" => d04::run(&ctx, false),
        "D05" => d04::run(&ctx, true),
        "O01" | "O02" | "O03" => o01::run(&ctx, &id),
        "O04" => o04::run(&ctx),
        "O05" => o05::run(&ctx),
        "O06" => o06::run(&ctx),
        "R01" => r01::run(&ctx),
        "R02" => r02::run(&ctx),
        "R03" => r03::run(&ctx),
        "R04" => r04::run(&ctx),
        "A11" => a11::run(&ctx),
        _ => panic!("unknown property {id}"),
    };
    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(run)).is_err() {
        core::finish();
        eprintln!("harness failure: {}", core::last_panic());
        std::process::exit(3);
    }
    core::check_panics();
    core::finish();
}
