//! Deterministic simulation of libyaml-safer: see /verif/DESIGN.md.
mod alloc;
mod drive;
mod fork;
mod gen;
mod guard;
mod io;
mod json;
mod model;
mod props;
mod real;
mod refr;
mod rng;
mod shrink;
mod stats;

use std::path::Path;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

/// Everything runs on a thread with this much stack, so that recursion as deep as the input shows.
const STACK: usize = 1 << 20;

fn main() {
    let t = std::thread::Builder::new().stack_size(STACK).spawn(run).expect("thread");
    let code = t.join().unwrap_or(101);
    std::process::exit(code);
}
fn run() -> i32 {
    guard::install();
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map_or("", String::as_str);
    let num = |i: usize| arg(i).parse::<u64>().unwrap_or(0);
    match arg(1) {
        // check PROP TIER
        "check" => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            drive::check(drive::find(arg(2)), arg(3) == "thorough", seed)
        }
        "worker" => drive::worker(drive::find(arg(2)), arg(3) == "thorough", num(4), num(5), num(6), num(7), num(8), Path::new(arg(9))),
        "one" => drive::one(Path::new(arg(2))),
        "replay" => drive::replay(Path::new(arg(2))),
        // survey PROP SEED N MAX: every failing run, one line each, without minimising
        "survey" => {
            let p = drive::find(arg(2));
            let mut left = num(5).max(1);
            for i in 0..num(4) {
                let mut st = stats::Stats::default();
                st.begin();
                if let drive::Verdict::Fail(f) = drive::execute(p, &drive::case_of(p, num(3), i, false), &mut st) {
                    println!("{i} {}: {}", f.class, f.msg.chars().take(700).collect::<String>());
                    left -= 1;
                    if left == 0 {
                        break;
                    }
                }
            }
            0
        }
        // sizes PROP SEED N: what the largest generated inputs are like
        "sizes" => {
            let p = drive::find(arg(2));
            let (mut big, mut lines, mut crlf) = (0u64, 0u64, 0u64);
            for i in 0..num(4) {
                let c = drive::case_of(p, num(3), i, false);
                for rd in &c.rd {
                    big += (rd.bytes.len() > 60_000) as u64;
                    let n = rd.bytes.iter().filter(|b| **b == b'\n').count();
                    lines += (n > 65_535) as u64;
                    let hit = n > 65_535 && rd.bytes.windows(2).filter(|w| w == b"\r\n").count() > 65_535;
                    if hit && crlf < 5 { println!("run {i}"); }
                    crlf += hit as u64;
                }
            }
            println!("{} runs: {big} inputs over 60000 octets, {lines} over 65535 lines, {crlf} of them with CRLF", num(4));
            0
        }
        // show PROP SEED RUN: the case of one run
        "show" => {
            let c = drive::case_of(drive::find(arg(2)), num(3), num(4), false);
            let mut s = String::new();
            c.to_j().pretty(&mut s, 0);
            println!("{s}");
            0
        }
        _ => {
            eprintln!("usage: yamlsim check PROP quick|thorough | replay FILE | show PROP SEED RUN");
            2
        }
    }
}
