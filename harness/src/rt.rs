//! Native replay of a recorded counterexample against the real crates.
use crate::nd;
use std::collections::VecDeque;

/// Runs `f` on the inputs in the file named by the first argument (`V hexbytes`: a value;
/// `B arena offset value`: a byte of an input byte string); without one, on random inputs.
pub fn main(f: fn()) {
    let mut args = std::env::args().skip(1);
    match args.next() {
        Some(p) if p != "random" => {
            let (mut v, mut e) = (VecDeque::new(), Vec::new());
            for l in std::fs::read_to_string(p).unwrap().lines() {
                let t: Vec<&str> = l.split(' ').collect();
                match t[0] {
                    "V" => v.push_back(
                        (0..t[1].len() / 2).map(|i| u8::from_str_radix(&t[1][2 * i..2 * i + 2], 16).unwrap()).collect(),
                    ),
                    "B" => e.push((t[1].parse().unwrap(), t[2].parse().unwrap(), t[3].parse().unwrap())),
                    _ => (),
                }
            }
            nd::IN.with(|i| {
                let mut i = i.borrow_mut();
                i.vals = Some(v);
                i.emits = e;
                i.seed = 1;
            });
            match std::panic::catch_unwind(f) {
                Ok(()) => println!("REPLAY passed"),
                Err(e) => report(e),
            }
        }
        _ => {
            let n: u64 = args.next().map_or(1000, |n| n.parse().unwrap());
            let mut ran = 0;
            for seed in 1..=n {
                nd::IN.with(|i| {
                    let mut i = i.borrow_mut();
                    i.seed = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15);
                    i.arenas = 0;
                });
                match std::panic::catch_unwind(f) {
                    Ok(()) => ran += 1,
                    Err(e) if e.downcast_ref::<&str>() == Some(&"ASSUMPTION") => (),
                    Err(e) => {
                        println!("seed {}", seed);
                        report(e);
                    }
                }
            }
            println!("RANDOM ran {} of {}", ran, n);
        }
    }
}

fn report(e: Box<dyn std::any::Any + Send>) {
    let m = e
        .downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| e.downcast_ref::<String>().cloned())
        .unwrap_or_default();
    if m == "ASSUMPTION" {
        println!("REPLAY outside the harness's assumptions");
        std::process::exit(3);
    }
    println!("REPLAY failed: {}", m);
    std::process::exit(if m.starts_with("REPLAY-DESYNC") { 3 } else { 1 });
}
