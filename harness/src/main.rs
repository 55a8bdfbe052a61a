//! Conformance driver: replays behaviours generated from the Quint specifications
//! (converted to a line format by /verif/check) against the real aether crates.
//!
//! Input file:   `T <trace name>`            start of a behaviour (fresh objects)
//!               `S <state#> <op> a.. | e..` one event: operation, arguments, expectation
//! Output:       `V <trace> <state#> <key> :: <message>`   a divergence
//!               `DONE <events> <divergences>`
#![allow(dead_code, unused_imports)]
#![cfg_attr(feature = "fx", feature(f16, f128))]
mod util;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use util::*;

#[cfg(feature = "time")]
mod m_time;
#[cfg(feature = "viz")]
mod m_viz;
#[cfg(feature = "viz")]
mod m_plot;

#[cfg(feature = "rand")]
mod m_rand;

#[cfg(feature = "opt")]
mod m_opt;

#[cfg(any(feature = "lin", feature = "solve", feature = "att"))]
mod lin_util;
#[cfg(feature = "lin")]
mod m_lin;

#[cfg(feature = "solve")]
mod m_solve;

#[cfg(feature = "serde")]
mod m_serde;

#[cfg(feature = "num")]
mod m_num;

#[cfg(feature = "att")]
mod m_att;

#[cfg(feature = "scal")]
mod m_scal;

#[cfg(feature = "frames")]
mod m_mod;

#[cfg(feature = "units")]
mod m_units;

#[cfg(feature = "interp")]
mod m_interp;

#[cfg(feature = "stats")]
mod m_stats;

#[cfg(all(any(feature = "viz", feature = "catalogs"), target_os = "linux", target_arch = "x86_64"))]
mod intrude;

#[cfg(feature = "geo")]
mod m_geo;

#[cfg(feature = "atm")]
mod m_atm;

#[cfg(feature = "shapes")]
mod m_shapes;

#[cfg(feature = "fluids")]
mod m_fluids;

#[cfg(feature = "graphics")]
mod m_gfx;

#[cfg(feature = "ml")]
mod m_ml;

#[cfg(feature = "catalogs")]
mod m_wmm;

#[cfg(feature = "catalogs")]
mod m_star;

#[cfg(feature = "test")]
mod m_assert;

#[cfg(feature = "bench")]
mod m_bench;

fn make(name: &str) -> Option<Box<dyn Model>> {
    Some(match name {
        #[cfg(feature = "time")]
        "t01" => m_time::t01(),
        #[cfg(feature = "time")]
        "t02" => m_time::t02(),
        #[cfg(feature = "time")]
        "t03" => m_time::t03(),
        #[cfg(feature = "time")]
        "t04" => m_time::t04(),
        #[cfg(feature = "time")]
        "t05" => m_time::t05(),
        #[cfg(feature = "time")]
        "t06" => m_time::t06(),
        #[cfg(feature = "viz")]
        "v01" => m_viz::v01(),
        #[cfg(feature = "viz")]
        "v03" => m_viz::v03(),
        #[cfg(feature = "viz")]
        "v04" => m_viz::v04(),
        #[cfg(feature = "viz")]
        "v02" => m_plot::v02(),
        #[cfg(feature = "rand")]
        "r01" => m_rand::r01(),
        #[cfg(feature = "opt")]
        "o01" => m_opt::o01(),
        #[cfg(feature = "opt")]
        "o02" => m_opt::o02(),
        #[cfg(feature = "scal")]
        "n01" => m_scal::n01(),
        #[cfg(feature = "lin")]
        "m01" => m_lin::m01(),
        #[cfg(feature = "solve")]
        "m02" => m_solve::m02(),
        #[cfg(feature = "serde")]
        "m03" => m_serde::m03(),
        #[cfg(feature = "num")]
        "m04" => m_num::m04(),
        #[cfg(feature = "att")]
        "a01" => m_att::a01(),
        #[cfg(feature = "att")]
        "a02" => m_att::a02(),
        #[cfg(feature = "frames")]
        "a03" => m_mod::a03(),
        #[cfg(feature = "units")]
        "u01" => m_units::u01(),
        #[cfg(feature = "interp")]
        "i01" => m_interp::i01(),
        #[cfg(feature = "stats")]
        "s01" => m_stats::s01(),
        #[cfg(feature = "geo")]
        "g01" => m_geo::g01(),
        #[cfg(feature = "geo")]
        "g02" => m_geo::g02(),
        #[cfg(feature = "atm")]
        "g03" => m_atm::g03(),
        #[cfg(feature = "shapes")]
        "p01" => m_shapes::p01(),
        #[cfg(feature = "fluids")]
        "p02" => m_fluids::p02(),
        #[cfg(feature = "graphics")]
        "c01" => m_gfx::c01(),
        #[cfg(feature = "ml")]
        "l01" => m_ml::l01(),
        #[cfg(feature = "catalogs")]
        "w01" => m_wmm::w01(),
        #[cfg(feature = "catalogs")]
        "w02" => m_star::w02(),
        #[cfg(feature = "test")]
        "b01" => m_assert::b01(),
        #[cfg(feature = "bench")]
        "b02" => m_bench::b02(),
        _ => return None,
    })
}

static EVENTS: AtomicU64 = AtomicU64::new(0);
static CUR: Mutex<String> = Mutex::new(String::new());
static LASTPANIC: Mutex<String> = Mutex::new(String::new());

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let model = args[1].clone();
    let text = std::fs::read_to_string(&args[2]).expect("trace file");
    let verbose = std::env::var("REPLAY_VERBOSE").is_ok();
    std::panic::set_hook(Box::new(|i| {
        if let Ok(mut g) = LASTPANIC.lock() {
            *g = format!("{}", i).replace('\n', " ");
        }
    }));
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || run(&model, &text, verbose)).unwrap();
    // watchdog: an event that makes no progress is a divergence (the specification's step terminates)
    let limit: u64 = std::env::var("REPLAY_HANG_S").ok().and_then(|v| v.parse().ok()).unwrap_or(30);
    let mut last = 0;
    let mut idle = 0u64;
    loop {
        if h.is_finished() {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(20));
        let e = EVENTS.load(Ordering::Relaxed);
        if e == last {
            idle += 1;
            if idle * 20 > limit * 1000 {
                let c = CUR.lock().unwrap().clone();
                let mut it = c.splitn(3, ' ');
                let (t, s, o) = (it.next().unwrap_or("?"), it.next().unwrap_or("?"), it.next().unwrap_or("?"));
                let op = o.split(' ').next().unwrap_or("?");
                println!("V {} {} {}/hang :: no return within {} s: {}", t, s, op, limit, o);
                println!("DONE {} 1", e);
                std::io::stdout().flush().unwrap();
                std::process::exit(0);
            }
        } else {
            last = e;
            idle = 0;
        }
    }
    if h.join().is_err() {
        eprintln!("replay: harness failure: {}", LASTPANIC.lock().unwrap());
        std::process::exit(2);
    }
}

fn run(model: &str, text: &str, verbose: bool) {
    let mut m = make(model).unwrap_or_else(|| panic!("no model {}", model));
    let mut trace = String::from("-");
    let (mut n, mut bad) = (0u64, 0u64);
    let mut perkey: std::collections::HashMap<String, u64> = Default::default();
    for line in text.lines() {
        if let Some(t) = line.strip_prefix("T ") {
            trace = t.to_string();
            m = make(model).unwrap();
            continue;
        }
        let Some(rest) = line.strip_prefix("S ") else { continue };
        let mut f = rest.split_ascii_whitespace();
        let st = f.next().unwrap();
        let op = f.next().unwrap();
        let mut a: Vec<&str> = vec![];
        let mut e: Vec<&str> = vec![];
        let mut right = false;
        for t in f {
            if t == "|" {
                right = true
            } else if right {
                e.push(t)
            } else {
                a.push(t)
            }
        }
        {
            let mut c = CUR.lock().unwrap();
            c.clear();
            c.push_str(&trace);
            c.push(' ');
            c.push_str(rest);
        }
        if verbose {
            eprintln!("@ {} {}", trace, rest);
        }
        let mut cx = Cx { a: &a, e: &e, errs: Default::default() };
        let r = catch_unwind(AssertUnwindSafe(|| m.step(op, &mut cx)));
        n += 1;
        EVENTS.store(n, Ordering::Relaxed);
        let mut errs = cx.errs.into_inner();
        if r.is_err() {
            let p = LASTPANIC.lock().unwrap().clone();
            if p.contains("HARNESS:") {
                panic!("{} at {}", p, rest);
            }
            errs.push((String::from("panic"), p));
        }
        for (k, msg) in errs {
            bad += 1;
            let key = format!("{}/{}", op, k);
            let c = perkey.entry(key.clone()).or_insert(0);
            *c += 1;
            if *c <= 40 {
                println!("V {} {} {} :: {}  [{}]", trace, st, key, msg, rest);
            }
        }
    }
    println!("DONE {} {}", n, bad);
}
