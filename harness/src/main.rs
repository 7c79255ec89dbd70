//! fnntwh run PROP PROFILE SEED CASES OUT CUR     a campaign of generated cases
//! fnntwh replay PROP PROFILE FILE               run one recorded case (a list of integers)
//! fnntwh record PROP PROFILE SEED FILE          run the case of one seed, writing its choices as it goes
//!     [LIST]                                    (its first choices are those in LIST)
//! fnntwh config                                 the build configuration
//! Exit status: 0 held, 1 violated (details in OUT or on stdout), 2 usage; a signal: crashed.
#![cfg_attr(feature = "lite", allow(dead_code))]
mod alloc;
mod engine;
mod geom;
#[cfg(feature = "guided")]
mod guide;
mod oracle;
mod props;
mod scalar;
mod tree;

use engine::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).cloned().unwrap_or_default();
    hook_panics();
    if s(1) == "config" {
        println!("par={} pos={} idx_axis={} sqrt={} debug={}", tree::PAR, tree::POS, tree::IDX_AXIS, tree::SQRT, cfg!(debug_assertions));
        return;
    }
    let Some(f) = props::table(&s(2), &s(3)) else {
        eprintln!("no property {} with profile {}", s(2), s(3));
        std::process::exit(2)
    };
    // run on a thread of the usual main-thread stack size
    let code = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let s = |i: usize| a.get(i).cloned().unwrap_or_default();
            match s(1).as_str() {
                "run" => campaign(f, &Opts {
                    prop: s(2), profile: s(3), seed: s(4).parse().expect("seed"),
                    cases: s(5).parse().expect("cases"), out: s(6), cur: s(7),
                }),
                "replay" | "record" => {
                    let mut src = if s(1) == "replay" {
                        let t = std::fs::read_to_string(s(4)).expect("replay file");
                        Src::replay(t.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().expect("choice")).collect())
                    } else {
                        let seed = s(4).parse().expect("seed");
                        let mut x = Src::random(seed);
                        if let Ok(t) = std::fs::read_to_string(s(6)) {
                            x = Src::mutant(t.split_whitespace().map(|x| x.parse().expect("choice")).collect(), seed);
                        }
                        x.log_to(std::fs::File::create(s(5)).expect("log"));
                        x
                    };
                    let mut info = Info::default();
                    let r = run_case(f, &mut src, &mut info);
                    println!("case: {}", info.desc);
                    println!("labels: {:?} nontrivial: {}", info.labels, info.nontrivial);
                    match r {
                        Ok(()) => {
                            println!("held");
                            0
                        }
                        Err(m) => {
                            println!("violated: {m}");
                            1
                        }
                    }
                }
                _ => 2,
            }
        })
        .expect("thread")
        .join()
        .unwrap_or(3);
    std::process::exit(code)
}
