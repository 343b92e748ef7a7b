//! Conformance harness: replays behaviours printed by TLC on the real library and records
//! histories of the library for TLC to validate.
//!   conform replay <domain> <suite> <cases.ndjson>
//!   conform record <domain> <suite> <seed> <count> <out.ndjson>
mod json;
mod bx;
mod cmp;
mod mat;
mod quat;
mod scene;
mod turn;
mod util;
mod vec;

use json::*;
use std::io::Write;
use util::*;

fn load(path: &str) -> Vec<J> {
    std::fs::read_to_string(path)
        .expect("HARNESS: cases file")
        .lines()
        .filter(|l| !l.trim().is_empty())
        .map(parse)
        .collect()
}

/// consecutive lines with the same "h" form one history
fn histories(v: Vec<J>) -> Vec<Vec<J>> {
    let mut out: Vec<Vec<J>> = vec![];
    let mut last = i64::MIN;
    for c in v {
        let h = c.get("h").int();
        if h != last {
            out.push(vec![]);
            last = h;
        }
        out.last_mut().unwrap().push(c);
    }
    out
}

fn main() {
    install();
    let a: Vec<String> = std::env::args().collect();
    let (mode, dom, suite) = (a[1].as_str(), a[2].as_str(), a[3].as_str());
    if mode == "replay" {
        let hist = histories(load(&a[4]));
        let play = |part: &[Vec<J>], rep: &mut Report| match dom {
            "mat" => mat::replay(part, suite == "A02", rep),
            "vec" => vec::replay(part, rep),
            "quat" => quat::replay(part, suite, rep),
            "turn" => turn::replay(part, rep),
            "cmp" => cmp::replay(part, rep),
            "box" => bx::replay(part, rep),
            "scene" => scene::replay(part, rep),
            _ => panic!("HARNESS: domain {}", dom),
        };
        // The histories are independent: several threads replay their share of them at the same time,
        // so that state the library shares between threads shows.
        let share = (hist.len() + THREADS - 1) / THREADS;
        let mut all = Report::default();
        std::thread::scope(|sc| {
            let jobs: Vec<_> = (0..THREADS)
                .map(|k| {
                    let part = &hist[(k * share).min(hist.len())..((k + 1) * share).min(hist.len())];
                    let first = (k * share).min(hist.len());
                    let play = &play;
                    sc.spawn(move || {
                        set_slot(k);
                        let mut rep = Report { histories: first as u64, ..Report::default() };
                        play(part, &mut rep);
                        rep.histories -= first as u64;
                        rep
                    })
                })
                .collect();
            for j in jobs {
                let r = j.join().unwrap_or_else(|_| std::process::exit(3));
                all.add(&r);
                all.pool.extend(r.pool);
            }
        });
        // The same calls again, at the same time on every thread and in another order.
        let pool = std::mem::take(&mut all.pool);
        if all.failed == 0 && !pool.is_empty() {
            std::thread::scope(|sc| {
                let jobs: Vec<_> = (0..THREADS)
                    .map(|k| {
                        let pool = &pool;
                        sc.spawn(move || {
                            set_slot(k);
                            let mut rep = Report::default();
                            rep.again(pool, k as u64 + 1);
                            rep
                        })
                    })
                    .collect();
                for j in jobs {
                    all.add(&j.join().unwrap_or_else(|_| std::process::exit(3)));
                }
            });
        }
        all.done();
    } else {
        let seed: u64 = a[4].parse().unwrap();
        let count: usize = a[5].parse().unwrap();
        let mut out = vec![];
        match dom {
            "mat" => mat::record(suite, seed, count, &mut out),
            "vec" => vec::record(seed, count, &mut out),
            "quat" => quat::record(suite, seed, count, &mut out),
            "turn" => turn::record(suite, seed, count, &mut out),
            "cmp" => cmp::record(seed, count, &mut out),
            "box" => bx::record(seed, count, &mut out),
            "scene" => scene::record(suite, seed, count, &mut out),
            _ => panic!("HARNESS: domain {}", dom),
        }
        let mut f = std::io::BufWriter::new(std::fs::File::create(&a[6]).unwrap());
        for c in out {
            writeln!(f, "{}", c).unwrap();
        }
    }
}
