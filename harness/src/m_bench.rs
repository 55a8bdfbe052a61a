//! B02 on aether_benchmark (feature `verif` exposes the writers).
use crate::util::*;
use aether_benchmark::performance::{now, unix_nanos_now, verif::*};
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Barrier;
use std::time::{Duration, Instant, SystemTime, UNIX_EPOCH};

const ABSENT: i128 = 10_000_000_000_000;
const NAMES: [&str; 8] = ["stage", "a", "", "a much longer stage name with spaces and (punctuation)", "тест", "x-1", "cpu_pkg", "stage.2"];
const SPANS: [&str; 8] = ["span", "sp", "s", "another rather long span name / with slashes", "длина", "span-1", "span_pkg", "span.2"];
const SLACK: f64 = 15.0; // ms, the coarse clock

fn value(v: i128) -> f64 {
    match v - 1_000_000_000_000 {
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => 1e300,
        3 => -1e-300,
        4 => 0.1,
        5 => -0.0,
        _ => v as f64 / 1000.0,
    }
}
fn opt(v: i128) -> Option<f64> {
    if v == ABSENT {
        None
    } else {
        Some(value(v))
    }
}
fn reads_as(s: &str, v: f64) -> bool {
    s.parse::<f64>().map_or(false, |g| g.to_bits() == v.to_bits() || (g.is_nan() && v.is_nan()))
}
fn cell(s: &str, v: Option<f64>) -> bool {
    match v {
        None => s.is_empty(),
        Some(v) => reads_as(s, v),
    }
}
fn unix_ns() -> i128 {
    SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_nanos() as i128
}
#[derive(Clone, Copy)]
struct Item {
    kind: i128,
    name: usize,
    a: i128,
    b: i128,
}
pub struct B02 {
    dir: PathBuf,
    timing: Option<TimingCsv>,
    power: Option<PowerCsv>,
    seen: (usize, usize), // lines already checked
}
static N: AtomicUsize = AtomicUsize::new(0);
pub fn b02() -> Box<dyn Model> {
    let dir = std::env::temp_dir().join(format!("verif-b02-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
    std::fs::create_dir_all(&dir).unwrap_or_else(|_| bad("scratch directory"));
    Box::new(B02 { dir, timing: None, power: None, seen: (0, 0) })
}
impl Drop for B02 {
    fn drop(&mut self) {
        for f in ["timing.csv", "power.csv", "sensor"] {
            let _ = std::fs::remove_file(self.dir.join(f));
        }
        let _ = std::fs::remove_dir(self.dir.join("sensor"));
        let _ = std::fs::remove_dir(&self.dir);
    }
}
impl B02 {
    /// lines of both files that were added since the last look
    fn fresh(&mut self, cx: &Cx) -> (Vec<Vec<String>>, Vec<Vec<String>>) {
        let mut r = vec![];
        for (f, head, cols, seen) in [("timing.csv", "unix_ns,stage,elapsed_ms", 3, &mut self.seen.0), ("power.csv", "unix_ns,source,power_W,energy_J_total", 4, &mut self.seen.1)] {
            let s = std::fs::read_to_string(self.dir.join(f)).unwrap_or_default();
            cx.check("file/ends_with_newline", s.ends_with('\n'), || f.into());
            let l: Vec<&str> = s.lines().collect();
            cx.check("file/header", l.first() == Some(&head), || format!("{:?}", l.first()));
            let mut v = vec![];
            let (t, early) = (unix_ns(), 600_000_000_000i128);
            for x in l.iter().skip(1 + *seen) {
                let c: Vec<String> = x.split(',').map(String::from).collect();
                cx.check("file/line_shape", c.len() == cols, || format!("{:?}", x));
                if c.len() == cols {
                    match c[0].parse::<i128>() {
                        Ok(ns) => cx.check("file/time", ns > t - early && ns < t + 10_000_000_000, || format!("{} at {}", ns, t)),
                        Err(_) => cx.fail("file/time", x.to_string()),
                    }
                    v.push(c);
                }
            }
            *seen = l.len().saturating_sub(1);
            r.push(v);
        }
        let p = r.pop().unwrap();
        (r.pop().unwrap(), p)
    }
}
fn perform(x: &Item, name: &str, t: &TimingCsv, p: &PowerCsv) {
    match x.kind {
        0 => t.timing_ms(name, value(x.a)),
        1 => p.sample(name, opt(x.a), opt(x.b)),
        _ => drop(TimeSpan::new(SPANS[x.name], t)),
    }
}
fn matches(x: &Item, c: &[String], name: &str) -> bool {
    match x.kind {
        0 => c[1] == name && reads_as(&c[2], value(x.a)),
        1 => c[1] == name && cell(&c[2], opt(x.a)) && cell(&c[3], opt(x.b)),
        _ => c[1] == SPANS[x.name] && c[2].parse::<f64>().map_or(false, |v| (0.0..60_000.0).contains(&v)),
    }
}
impl Model for B02 {
    fn step(&mut self, op: &str, cx: &mut Cx) {
        let cx = &*cx;
        match op {
            "open" => {
                let f = |n: &str| self.dir.join(n).to_str().unwrap().to_string();
                // drop the old handles first, then start over on the same paths
                self.timing = None;
                self.power = None;
                self.timing = Some(TimingCsv::new(&f("timing.csv")));
                self.power = Some(PowerCsv::new(&f("power.csv")));
                self.seen = (0, 0);
                let (t, p) = self.fresh(cx);
                cx.check("open/empty", t.is_empty() && p.is_empty(), || format!("{:?} {:?}", t, p));
                let a = unix_nanos_now();
                let b = unix_nanos_now();
                cx.check("open/clock", b >= a && (a as i128 - unix_ns()).abs() < 10_000_000_000, || format!("{} {}", a, b));
            }
            "single" => {
                let x = Item { kind: cx.i(0), name: cx.us(1), a: cx.i(2), b: cx.i(3) };
                perform(&x, NAMES[x.name], self.timing.as_ref().unwrap(), self.power.as_ref().unwrap());
                let (t, p) = self.fresh(cx);
                let (mine, other) = if x.kind == 1 { (p, t) } else { (t, p) };
                cx.check("single/one_line", mine.len() == 1 && other.is_empty(), || format!("{:?} {:?}", mine, other));
                if mine.len() == 1 {
                    cx.check("single/values", matches(&x, &mine[0], NAMES[x.name]), || format!("{:?} for {} {} {}", mine[0], x.kind, x.a, x.b));
                }
            }
            "nested" => {
                // spans opened in order, each followed by a pause; they close inside out
                let d: Vec<u64> = (0..cx.an()).map(|k| cx.u64(k)).collect();
                let mut took = vec![0.0; d.len()];
                fn go(d: &[u64], k: usize, s: &TimingCsv, took: &mut [f64]) {
                    if k == d.len() {
                        return;
                    }
                    let t0 = Instant::now();
                    let span = TimeSpan::new(SPANS[k], s);
                    std::thread::sleep(Duration::from_millis(d[k] * 3));
                    go(d, k + 1, s, took);
                    drop(span);
                    took[k] = t0.elapsed().as_secs_f64() * 1e3;
                }
                go(&d, 0, self.timing.as_ref().unwrap(), &mut took);
                let (t, p) = self.fresh(cx);
                cx.eq_i("nested/lines", (t.len() + 100 * p.len()) as i128, cx.en() as i128);
                for (j, c) in t.iter().enumerate().take(cx.en()) {
                    let k = cx.x(j) as usize;
                    let ms: f64 = c[2].parse().unwrap_or(f64::NAN);
                    let least: u64 = d[k..].iter().sum::<u64>() * 3;
                    cx.check("nested/order", c[1] == SPANS[k], || format!("{:?} want {}", c, SPANS[k]));
                    cx.check("nested/elapsed", ms >= least as f64 - SLACK && ms <= took[k] + SLACK, || format!("{} of [{}, {}]", ms, least, took[k]));
                }
                cx.check("nested/instant", now() >= now() - Duration::from_millis(1), || "clock".into());
            }
            "burst" => {
                let (n, rep) = (cx.us(0), cx.us(1));
                let mut at = 2;
                let mut scripts: Vec<Vec<Item>> = vec![];
                for _ in 0..n {
                    let len = cx.us(at);
                    at += 1;
                    scripts.push((0..len).map(|i| Item { kind: cx.i(at + 4 * i), name: cx.us(at + 4 * i + 1), a: cx.i(at + 4 * i + 2), b: cx.i(at + 4 * i + 3) }).collect());
                    at += 4 * len;
                }
                let total: usize = scripts.iter().map(|s| s.len()).sum();
                cx.eq_i("burst/script", total as i128, cx.x(0));
                let (t, p) = (self.timing.as_ref().unwrap(), self.power.as_ref().unwrap());
                let start = Barrier::new(n);
                std::thread::scope(|s| {
                    for (k, sc) in scripts.iter().enumerate() {
                        let start = &start;
                        s.spawn(move || {
                            start.wait();
                            for r in 0..rep {
                                for x in sc {
                                    perform(x, &format!("{}#{}.{}", NAMES[x.name], k, r), t, p);
                                }
                            }
                        });
                    }
                });
                let (tl, pl) = self.fresh(cx);
                let power = scripts.iter().flatten().filter(|x| x.kind == 1).count();
                cx.eq_i("burst/timing_lines", tl.len() as i128, ((total - power) * rep) as i128);
                cx.eq_i("burst/power_lines", pl.len() as i128, (power * rep) as i128);
                // the file must be an interleaving of the scripts: the named lines of a thread in its order,
                // the spans by count
                let mut next = vec![(0usize, 0usize); 2 * n];
                let advance = |which: usize, k: usize, st: (usize, usize)| -> Option<(usize, usize)> {
                    let sc = &scripts[k];
                    let (mut r, mut i) = st;
                    while r < rep {
                        if i == sc.len() {
                            r += 1;
                            i = 0;
                            continue;
                        }
                        if (which == 0 && sc[i].kind == 0) || (which == 1 && sc[i].kind == 1) {
                            return Some((r, i));
                        }
                        i += 1;
                    }
                    None
                };
                let mut spans = [0usize; 8];
                for (which, lines) in [(0, &tl), (1, &pl)] {
                    for c in lines {
                        if let Some(h) = c[1].rfind('#') {
                            let k: Option<usize> = c[1][h + 1..].split('.').next().and_then(|x| x.parse().ok());
                            let ok = k.filter(|k| *k < n).and_then(|k| {
                                let st = advance(which, k, next[2 * k + which])?;
                                let x = &scripts[k][st.1];
                                if !matches(x, c, &format!("{}#{}.{}", NAMES[x.name], k, st.0)) {
                                    return None;
                                }
                                next[2 * k + which] = (st.0, st.1 + 1);
                                Some(())
                            });
                            cx.check("burst/line", ok.is_some(), || format!("{:?}", c));
                        } else {
                            match SPANS.iter().position(|s| *s == c[1]) {
                                Some(k) if which == 0 && c[2].parse::<f64>().map_or(false, |v| (0.0..60_000.0).contains(&v)) => spans[k] += 1,
                                _ => cx.fail("burst/line", format!("{:?}", c)),
                            }
                        }
                    }
                }
                for k in 0..8 {
                    let want = scripts.iter().flatten().filter(|x| x.kind == 2 && x.name == k).count() * rep;
                    cx.eq_i("burst/spans", spans[k] as i128, want as i128);
                }
            }
            "sensor" => {
                let p = self.dir.join("sensor");
                let _ = std::fs::remove_file(&p);
                let _ = std::fs::remove_dir(&p);
                let v = cx.i(1);
                let w = |b: &[u8]| std::fs::write(&p, b).unwrap_or_else(|_| bad("write"));
                match cx.i(0) {
                    0 => {}
                    1 => std::fs::create_dir(&p).unwrap_or_else(|_| bad("mkdir")),
                    2 => w(v.to_string().as_bytes()),
                    3 => w(format!(" {}\n", v).as_bytes()),
                    4 => w(b""),
                    5 => w(b"n/a\n"),
                    _ => w(&[0xFF, b'1', b'2']),
                }
                let want = if cx.x(0) == 1 { Some(cx.xf(1) / 1e6) } else { None };
                let (s, total, watts) = match cx.i(2) {
                    0 => (CPUEnergy::Powercap { energy_uj: p.clone() }, want, None),
                    1 => (CPUEnergy::Hwmon { power_uw: p.clone() }, None, want),
                    _ => (CPUEnergy::None, None, None),
                };
                for (k, got, want) in [("energy", s.read_total_j(), total), ("power", s.read_watts(), watts)] {
                    let ok = match (got, want) {
                        (None, None) => true,
                        (Some(g), Some(w)) => (g - w).abs() <= 1e-15 * w.abs(),
                        _ => false,
                    };
                    cx.check(&format!("sensor/{}", k), ok, || format!("{:?} want {:?}", got, want));
                }
                let d = s.debug_source_path();
                let ok = match cx.i(2) {
                    0 => d == format!("powercap:{}", p.display()),
                    1 => d == format!("hwmon:{}", p.display()),
                    _ => d == "none",
                };
                cx.check("sensor/source", ok, || d.clone());
            }
            _ => bad("op"),
        }
    }
}
