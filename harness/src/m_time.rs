//! T01..T06 on aether_time.
use crate::util::*;
use aether_time::time::*;
use std::cmp::Ordering;

pub fn t01() -> Box<dyn Model> {
    Box::new(T01 { d: [Duration::zero(); 4], t: [Time::new(0, 0); 4] })
}
struct T01 {
    d: [Duration; 4],
    t: [Time<UTC>; 4],
}
fn o2i(o: Ordering) -> i128 {
    match o {
        Ordering::Less => -1,
        Ordering::Equal => 0,
        Ordering::Greater => 1,
    }
}
impl T01 {
    fn okd(cx: &mut Cx, k: &str, d: Duration, j: usize) {
        let (s, n) = (cx.x(j), cx.x(j + 1));
        if (d.sec as i128, d.nano_sec as i128) != (s, n) {
            cx.fail(k, format!("got ({},{}) want ({},{})", d.sec, d.nano_sec, s, n));
        }
    }
    fn okt(cx: &mut Cx, k: &str, d: Time<UTC>, j: usize) {
        Self::okd(cx, k, Duration { sec: d.sec, nano_sec: d.nano_sec }, j)
    }
    fn want(cx: &Cx, j: usize) -> (i64, i32) {
        (cx.x(j) as i64, cx.x(j + 1) as i32)
    }
}
impl Model for T01 {
    fn step(&mut self, op: &str, cx: &mut Cx) {
        // registers are set to the specified value first, so that one divergence does not cascade
        let setd = |s: &mut Self, cx: &mut Cx, d: std::thread::Result<Duration>| {
            let w = Self::want(cx, 0);
            s.d[cx.us(0)] = Duration { sec: w.0, nano_sec: w.1 };
            match d {
                Ok(d) => Self::okd(cx, "value", d, 0),
                Err(_) => cx.fail("panic", "panicked".into()),
            }
        };
        macro_rules! tryd {
            ($e:expr) => {{
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| $e));
                setd(self, cx, r)
            }};
        }
        match op {
            "init" => {}
            "secs" => tryd!(Duration::from_secs(cx.i64(1))),
            "millis" => tryd!(Duration::from_millis(cx.i64(1))),
            "micros" => tryd!(Duration::from_micros(cx.i64(1))),
            "nanos" => tryd!(Duration::from_nanos(cx.i64(1))),
            "nanos64" => tryd!(Duration::from_nanos_i64(cx.i64(1))),
            "normalize" => tryd!(Duration { sec: cx.i64(1), nano_sec: cx.i(2) as i32 }.normalize()),
            "instant" => {
                self.t[cx.us(0)] = Time::new(cx.i64(1), cx.i(2) as i32);
                Self::okt(cx, "value", self.t[cx.us(0)], 0)
            }
            "dadd" => tryd!(self.d[cx.us(1)] + self.d[cx.us(2)]),
            "dsub" => tryd!(self.d[cx.us(1)] - self.d[cx.us(2)]),
            "tadd" => {
                let (a, b) = (self.t[cx.us(1)], self.d[cx.us(2)]);
                let w = Self::want(cx, 0);
                self.t[cx.us(0)] = Time::new(w.0, w.1);
                Self::okt(cx, "value", a + b, 0);
                Self::okt(cx, "byref", &a + b, 0);
            }
            "tsub" => {
                let (a, b) = (self.t[cx.us(1)], self.t[cx.us(2)]);
                let w = Self::want(cx, 0);
                self.d[cx.us(0)] = Duration { sec: w.0, nano_sec: w.1 };
                Self::okd(cx, "value", a - b, 0);
                Self::okd(cx, "byref", &a - &b, 0);
            }
            "dcmp" => {
                let (a, b) = (self.d[cx.us(0)], self.d[cx.us(1)]);
                let w = cx.x(0);
                cx.eq_i("cmp", o2i(a.cmp(&b)), w);
                cx.eq_i("partial_cmp", a.partial_cmp(&b).map_or(9, o2i), w);
                cx.eq_b("eq", a == b, w == 0);
                cx.eq_b("lt", a < b, w < 0);
                cx.eq_b("ge", a >= b, w >= 0);
                cx.eq_b("max", a.max(b) == if w >= 0 { a } else { b }, true);
            }
            "tcmp" => {
                let (a, b) = (self.t[cx.us(0)], self.t[cx.us(1)]);
                let w = cx.x(0);
                cx.eq_i("cmp", o2i(a.cmp(&b)), w);
                cx.eq_i("partial_cmp", a.partial_cmp(&b).map_or(9, o2i), w);
                cx.eq_b("eq", a == b, w == 0);
                cx.eq_b("lt", a < b, w < 0);
                cx.eq_b("ge", a >= b, w >= 0);
            }
            "law" => {
                let (t, d, e) = (self.t[cx.us(0)], self.d[cx.us(1)], self.d[cx.us(2)]);
                Self::okd(cx, "t+d-t", (t + d) - t, 0);
                Self::okt(cx, "(t+d)+e", (t + d) + e, 2);
                Self::okt(cx, "t+(d+e)", t + (d + e), 2);
            }
            _ => bad(op),
        }
    }
}

// ---------------------------------------------------------------- T02
static BOOT: std::sync::OnceLock<i32> = std::sync::OnceLock::new();
pub fn t02() -> Box<dyn Model> {
    BOOT.get_or_init(tai_minus_utc);
    set_leap_seconds(27);
    Box::new(T02 { cur: (1, 0, 0) })
}
struct T02 {
    cur: (i128, i64, i32),
}
fn conv(a: i128, b: i128, s: i64, n: i32) -> (i64, i32) {
    match (a, b) {
        (0, 1) => { let r = Time::<Unix>::new(s, n).to_utc(); (r.sec, r.nano_sec) }
        (1, 0) => { let r = Time::<UTC>::new(s, n).to_unix(); (r.sec, r.nano_sec) }
        (1, 2) => { let r = Time::<UTC>::new(s, n).to_tai(); (r.sec, r.nano_sec) }
        (2, 1) => { let r = Time::<TAI>::new(s, n).to_utc(); (r.sec, r.nano_sec) }
        (1, 3) => { let r = Time::<UTC>::new(s, n).to_gps(); (r.sec, r.nano_sec) }
        (3, 1) => { let r = Time::<GPS>::new(s, n).to_utc(); (r.sec, r.nano_sec) }
        (2, 3) => { let r = Time::<TAI>::new(s, n).to_gps(); (r.sec, r.nano_sec) }
        (3, 2) => { let r = Time::<GPS>::new(s, n).to_tai(); (r.sec, r.nano_sec) }
        _ => bad("edge"),
    }
}
impl Model for T02 {
    fn step(&mut self, op: &str, cx: &mut Cx) {
        match op {
            "boot" => cx.eq_i("at process start", *BOOT.get().unwrap() as i128, cx.x(0)),
            "setleap" => {
                set_leap_seconds(cx.i(0) as i32);
                let g = tai_minus_utc() as i128;
                cx.eq_i("tai_minus_utc", g, cx.x(0));
            }
            "fresh" => self.cur = (cx.i(0), cx.i64(1), cx.i(2) as i32),
            "conv" => {
                let (a, b) = (cx.i(0), cx.i(1));
                let g = conv(a, b, self.cur.1, self.cur.2);
                cx.eq_i(&format!("{}to{}/sec", a, b), g.0 as i128, cx.x(0));
                cx.eq_i(&format!("{}to{}/nano", a, b), g.1 as i128, cx.x(1));
                self.cur = (b, cx.x(0) as i64, cx.x(1) as i32);
            }
            "roundtrip" => {
                let (s, n) = (cx.i64(0), cx.i(1) as i32);
                for (a, b) in [(0, 1), (1, 2), (1, 3), (2, 3)] {
                    for (a, b) in [(a, b), (b, a)] {
                        let m = conv(a, b, s, n);
                        let r = conv(b, a, m.0, m.1);
                        cx.check("back", r == (s, n), || format!("{}->{}->{}: {:?} -> {:?} -> {:?}", a, b, a, (s, n), m, r));
                    }
                }
                // the triangle closes: UTC -> TAI -> GPS = UTC -> GPS, and back
                let m = conv(1, 2, s, n);
                let t = conv(2, 3, m.0, m.1);
                let d = conv(1, 3, s, n);
                cx.check("triangle", t == d, || format!("{:?} via TAI {:?} direct {:?}", (s, n), t, d));
            }
            "week" => {
                let w = Time::<GPS>::new(cx.i64(0), 5).to_gps_week(cx.i(1) as u32);
                cx.eq_i("raw_week", w.raw_week as i128, cx.x(0));
                cx.eq_i("sow", w.sow as i128, cx.x(1));
                let f = w.full_week as i128;
                cx.check("full_week", f == cx.x(2) || f == cx.x(3), || format!("got {} want {} or {}", f, "see", "expectation"));
            }
            _ => bad(op),
        }
    }
}

// ---------------------------------------------------------------- T03
pub fn t03() -> Box<dyn Model> {
    Box::new(T03)
}
struct T03;
impl Model for T03 {
    fn step(&mut self, op: &str, cx: &mut Cx) {
        use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
        if op != "stress" {
            bad(op)
        }
        let n = cx.i(0) as i32;
        let secs: Vec<i64> = (1..4).map(|k| cx.i64(k)).collect();
        let vals: Vec<i32> = (4..cx.an()).map(|k| cx.i(k) as i32).collect();
        let tg = cx.x(0) as i64;
        let m = vals.len() as u64;
        let ms: u64 = std::env::var("T03_MS").ok().and_then(|v| v.parse().ok()).unwrap_or(120);
        let (begin, done, stop) = (AtomicU64::new(0), AtomicU64::new(0), AtomicBool::new(false));
        set_leap_seconds(vals[0]);
        let errs: std::sync::Mutex<Vec<(String, String)>> = Default::default();
        std::thread::scope(|s| {
            s.spawn(|| {
                let mut i = 0u64;
                while !stop.load(SeqCst) {
                    i += 1;
                    begin.store(i, SeqCst);
                    set_leap_seconds(vals[(i % m) as usize]);
                    done.store(i, SeqCst);
                    if i % 7 == 0 {
                        for _ in 0..(i % 50) { std::hint::spin_loop() }
                    }
                }
            });
            for &x in &secs {
                let (errs, stop, begin, done, vals) = (&errs, &stop, &begin, &done, &vals);
                s.spawn(move || {
                    let allowed = |lo: u64, hi: u64, f: &dyn Fn(i64) -> i64, got: i64| -> bool {
                        let hi = hi.min(lo + m);
                        (lo..=hi).any(|v| f(vals[(v % m) as usize] as i64) == got)
                    };
                    let mut put = |k: &str, msg: String| {
                        let mut g = errs.lock().unwrap();
                        if g.iter().filter(|e| e.0 == k).count() < 1 {
                            g.push((k.to_string(), msg));
                        }
                    };
                    let mission = MissionEpoch::new_tai(Time::<TAI>::new(x, n));
                    let kg = TimeKeeper::<GPS>::new(mission, 0, 1);
                    let ku = TimeKeeper::<UTC>::new(mission, 0, 1);
                    while !stop.load(SeqCst) {
                        for _ in 0..64 {
                            let r = Time::<TAI>::new(x, n).to_gps();
                            if (r.sec, r.nano_sec) != (x - tg, n) { put("tai_gps", format!("TAI {} -> GPS {} want {}", x, r.sec, x - tg)) }
                            let r = Time::<GPS>::new(x, n).to_tai();
                            if (r.sec, r.nano_sec) != (x + tg, n) { put("gps_tai", format!("GPS {} -> TAI {} want {}", x, r.sec, x + tg)) }
                            let r = kg.now_gps(0);
                            if (r.sec, r.nano_sec) != (x - tg, n) { put("now_gps", format!("TAI {} -> GPS {} want {}", x, r.sec, x - tg)) }
                            macro_rules! one { ($k:expr, $e:expr, $f:expr) => {{
                                let lo = done.load(SeqCst);
                                let r = $e;
                                let hi = begin.load(SeqCst);
                                if !allowed(lo, hi, &$f, r.sec) || r.nano_sec != n {
                                    put($k, format!("{} -> {} explained by no leap value in force (versions {}..{} of {:?})", x, r.sec, lo, hi, vals));
                                }
                            }}; }
                            one!("utc_tai", Time::<UTC>::new(x, n).to_tai(), |l| x + 10 + l);
                            one!("tai_utc", Time::<TAI>::new(x, n).to_utc(), |l| x - 10 - l);
                            one!("utc_gps", Time::<UTC>::new(x, n).to_gps(), |l| x + 10 + l - tg);
                            one!("gps_utc", Time::<GPS>::new(x, n).to_utc(), |l| x - 10 - l + tg);
                            one!("now_utc", ku.now_utc(0), |l| x - 10 - l);
                        }
                    }
                });
            }
            std::thread::sleep(std::time::Duration::from_millis(ms));
            stop.store(true, SeqCst);
        });
        for (k, m) in errs.into_inner().unwrap() {
            cx.fail(&k, m);
        }
        // the update that wins is the one observed afterwards
        set_leap_seconds(vals[0]);
        let g = tai_minus_utc() as i128;
        cx.eq_i("final", g, 10 + vals[0] as i128);
    }
}

// ---------------------------------------------------------------- T04
pub fn t04() -> Box<dyn Model> {
    Box::new(T04)
}
struct T04;
fn dt_at(cx: &Cx, k: usize) -> UtcDateTime {
    UtcDateTime::new(cx.i(k) as i32, cx.i(k + 1) as u8, cx.i(k + 2) as u8, cx.i(k + 3) as u8, cx.i(k + 4) as u8, cx.i(k + 5) as u8, cx.i(k + 6) as i32)
}
impl Model for T04 {
    fn step(&mut self, op: &str, cx: &mut Cx) {
        match op {
            "to" => {
                let d = Time::<UTC>::new(cx.i64(0), cx.i(1) as i32).to_utc_datetime();
                let g = [d.year as i128, d.month as i128, d.day as i128, d.hour as i128, d.minute as i128, d.second as i128, d.nanos as i128];
                let w: Vec<i128> = (0..7).map(|k| cx.x(k)).collect();
                cx.check("civil", g[..] == w[..], || format!("got {:?} want {:?}", g, w));
            }
            "from" => {
                let t = Time::<UTC>::from_utc_datetime(dt_at(cx, 0));
                cx.check("instant", (t.sec as i128, t.nano_sec as i128) == (cx.x(0), cx.x(1)), || format!("got ({},{})", t.sec, t.nano_sec));
            }
            "order" => {
                let a = Time::<UTC>::from_utc_datetime(dt_at(cx, 0));
                let b = Time::<UTC>::from_utc_datetime(dt_at(cx, 7));
                cx.eq_i("cmp", o2i(a.cmp(&b)), cx.x(0));
            }
            _ => bad(op),
        }
    }
}

// ---------------------------------------------------------------- T05
pub fn t05() -> Box<dyn Model> {
    Box::new(T05 { s: None, a: None })
}
struct T05 {
    s: Option<UtcSchedule>,
    a: Option<UtcAlarm>,
}
impl Model for T05 {
    fn step(&mut self, op: &str, cx: &mut Cx) {
        let kind = |k| ["once", "interval", "hourly", "daily", "yearly", "alarm"][k as usize];
        match op {
            "init" => {}
            "new" => {
                self.s = None;
                self.a = None;
                let k = cx.i(0);
                let start = Time::<UTC>::new(cx.i64(8), cx.i(9) as i32);
                let u = |j: usize| cx.i(j) as u8;
                let p = match k {
                    0 => Recurrence::Once,
                    1 => Recurrence::Interval(Duration { sec: cx.i64(1), nano_sec: cx.i(2) as i32 }),
                    2 => Recurrence::Hourly { minute: u(6), second: u(7) },
                    3 => Recurrence::Daily { hour: u(5), minute: u(6), second: u(7) },
                    4 => Recurrence::Yearly { month: u(3), day: u(4), hour: u(5), minute: u(6), second: u(7) },
                    _ => {
                        self.a = Some(UtcAlarm::new(start));
                        cx.eq_b("alarm/done", self.a.as_ref().unwrap().is_done(), false);
                        return;
                    }
                };
                let s = UtcSchedule::new(start, p);
                self.s = Some(s);
                let n = s.next_fire();
                cx.check(&format!("{}/next", kind(k)), (n.sec as i128, n.nano_sec as i128) == (cx.x(0), cx.x(1)), || format!("next ({},{})", n.sec, n.nano_sec));
                if (n.sec as i128, n.nano_sec as i128) != (cx.x(0), cx.x(1)) {
                    self.s = None; // reported; do not follow the wrong schedule any further
                }
            }
            "check" => {
                let now = Time::<UTC>::new(cx.i64(0), cx.i(1) as i32);
                if let Some(a) = self.a.as_mut() {
                    let f = a.check(now);
                    cx.eq_b("alarm/fired", f, cx.x(0) == 1);
                    let d = a.is_done();
                    cx.eq_b("alarm/done", d, cx.x(4) == 1);
                } else if let Some(s) = self.s.as_mut() {
                    let f = s.check(now);
                    let n = s.next_fire();
                    cx.eq_b("fired", f, cx.x(0) == 1);
                    if cx.x(1) == 1 {
                        cx.check("next", (n.sec as i128, n.nano_sec as i128) == (cx.x(2), cx.x(3)), || format!("next ({},{})", n.sec, n.nano_sec));
                    }
                    if !cx.errs.borrow().is_empty() {
                        self.s = None;
                    }
                }
            }
            _ => bad(op),
        }
    }
}

// ---------------------------------------------------------------- T06
pub fn t06() -> Box<dyn Model> {
    set_leap_seconds(27);
    Box::new(T06 {
        set: TimerSet::new([Duration::from_secs(1); 3]),
        one: TimerEvent::new(Duration::from_secs(1)),
        utc: TimeKeeper::new(MissionEpoch::new_tai(Time::new(0, 0)), 0, 1),
        gps: TimeKeeper::new(MissionEpoch::new_tai(Time::new(0, 0)), 0, 1),
        last: 0,
    })
}
struct T06 {
    set: TimerSet<3>,
    one: TimerEvent,
    utc: TimeKeeper<UTC>,
    gps: TimeKeeper<GPS>,
    last: u64,
}
impl Model for T06 {
    fn step(&mut self, op: &str, cx: &mut Cx) {
        let dur = |cx: &Cx, k: usize| Duration { sec: cx.i64(k), nano_sec: cx.i(k + 1) as i32 };
        match op {
            "leap" => set_leap_seconds(cx.i(0) as i32),
            "timers" => {
                self.set = TimerSet::new([dur(cx, 0), dur(cx, 2), dur(cx, 4)]);
                self.one = TimerEvent::new(dur(cx, 6));
            }
            "replace" => {
                *self.set.event_mut(cx.us(0)).unwrap() = TimerEvent::new(dur(cx, 1));
                let none = self.set.event_mut(3).is_none();
                cx.eq_b("out_of_range", none, true);
            }
            "step" => {
                let d = dur(cx, 0);
                let f = self.set.step(d);
                let g = self.one.step(d);
                let got = [f[0], f[1], f[2], g];
                for i in 0..4 {
                    cx.eq_b(if i < 3 { "set" } else { "single" }, got[i], cx.x(i) == 1);
                }
            }
            "clock" => {
                let st = (cx.i64(1), cx.i(2) as i32);
                let m = if cx.i(0) == 1 { MissionEpoch::new_utc(Time::new(st.0, st.1)) } else { MissionEpoch::new_tai(Time::new(st.0, st.1)) };
                let _ = m.start();
                self.utc = TimeKeeper::new(m, cx.u64(3), cx.u64(4));
                self.gps = TimeKeeper::new(m, cx.u64(3), cx.u64(4));
                self.last = cx.u64(5);
            }
            "read" => {
                let t = cx.u64(0);
                let w: Vec<i128> = (0..8).map(|k| cx.x(k)).collect();
                let mut cmp = |k: &str, s: i64, n: i32, j: usize| {
                    if (s as i128, n as i128) != (w[j], w[j + 1]) {
                        cx.fail(k, format!("got ({},{}) want ({},{})", s, n, w[j], w[j + 1]));
                    }
                };
                let a = self.utc.t_plus(t);
                cmp("t_plus", a.sec, a.nano_sec, 0);
                let a = self.gps.t_plus(t);
                cmp("t_plus", a.sec, a.nano_sec, 0);
                let a = self.utc.now_tai(t);
                cmp("now_tai", a.sec, a.nano_sec, 2);
                let a = self.gps.now_tai(t);
                cmp("now_tai", a.sec, a.nano_sec, 2);
                let a = self.utc.now_utc(t);
                cmp("now_utc", a.sec, a.nano_sec, 4);
                let a = self.gps.now_gps(t);
                cmp("now_gps", a.sec, a.nano_sec, 6);
            }
            "loop" => {
                let d = self.utc.dt_from_ticks(&mut self.last, cx.u64(0));
                cx.check("dt", (d.sec as i128, d.nano_sec as i128) == (cx.x(0), cx.x(1)), || format!("got ({},{})", d.sec, d.nano_sec));
                cx.eq_i("last", self.last as i128, cx.x(2));
                self.last = cx.x(2) as u64;
            }
            _ => bad(op),
        }
    }
}
