//! N01 on aether_core::real: every implementation of the scalar trait, called through the trait.
use crate::util::*;
use aether_core::real::{real::RealCast, Real};

pub fn n01() -> Box<dyn Model> {
    let mut v: Vec<Box<dyn Model>> = vec![
        Box::new(Sc::<f64> { w: "f64", r: 1.5, m: 53, big: 1e300, u: f64::EPSILON }),
        Box::new(Sc::<f32> { w: "f32", r: 1.5, m: 24, big: 1e38, u: f32::EPSILON as f64 }),
    ];
    #[cfg(feature = "fx")]
    {
        v.push(Box::new(Sc::<f16> { w: "f16", r: 1.5, m: 11, big: 65000.0, u: 0.0009765625 }));
        v.push(Box::new(Sc::<f128> { w: "f128", r: 1.5, m: 113, big: 1e300, u: f64::EPSILON }));
    }
    Box::new(N01 { v })
}
struct N01 {
    v: Vec<Box<dyn Model>>,
}
impl Model for N01 {
    fn step(&mut self, op: &str, cx: &mut Cx) {
        for m in self.v.iter_mut() {
            m.step(op, cx);
        }
    }
}
struct Sc<T: Real> {
    w: &'static str,
    r: T,
    m: u32,   // significant bits
    big: f64, // results beyond this may overflow
    u: f64,   // unit of the comparison
}
fn dec(v: i128) -> f64 {
    v as f64 / 1e30
}
fn same(a: f64, b: f64) -> bool {
    (a.is_nan() && b.is_nan()) || (a == b && a.is_sign_negative() == b.is_sign_negative())
}
fn special<T: Real>(c: i128) -> T {
    let two = T::ONE + T::ONE;
    match c {
        0 => T::ZERO,
        1 => -T::ZERO,
        2 => T::ONE,
        3 => -T::ONE,
        4 => T::INFINITY,
        5 => T::NEG_INFINITY,
        6 => T::INFINITY - T::INFINITY,
        7 => T::PI,
        8 => -T::PI,
        9 => T::FRAC_PI_2,
        10 => -T::FRAC_PI_2,
        11 => T::ONE / two,
        12 => -(T::ONE / two),
        13 => two,
        14 => -two,
        _ => bad("special"),
    }
}
impl<T: Real> Sc<T> {
    /// n / 2^k when it is exact in T
    fn q(&self, n: i128, k: i128) -> Option<T> {
        let mut a = n.unsigned_abs();
        while a != 0 && a % 2 == 0 {
            a /= 2;
        }
        if 128 - a.leading_zeros() > self.m {
            return None;
        }
        let v = n as f64 / 2f64.powi(k as i32);
        if v.abs() >= self.big {
            return None;
        }
        Some(T::from_f64(v))
    }
    fn k(&self, s: &str) -> String {
        format!("{}.{}", s, self.w)
    }
    fn exact(&self, cx: &Cx, key: &str, got: T, n: i128, k: i128) {
        // zero results may carry either sign
        cx.eq_f(&self.k(key), got.to_f64(), n as f64 / 2f64.powi(k as i32));
    }
    fn close(&self, cx: &Cx, key: &str, got: T, want: f64) {
        if want.abs() >= self.big {
            return;
        }
        let tiny = if self.m == 11 { 1e-7 } else { 1e-25 };
        cx.near(&self.k(key), got.to_f64(), want, tiny, 4.0 * self.u);
    }
}
impl<T: Real> Model for Sc<T> {
    fn step(&mut self, op: &str, cx: &mut Cx) {
        let a = |i: usize| cx.i(i);
        let x = |i: usize| cx.x(i);
        match op {
            "load" => {
                self.r = self.q(a(0), a(1)).unwrap_or_else(|| bad("load"));
                let v = a(0) as f64 / 2f64.powi(a(1) as i32);
                cx.eq_f(&self.k("cast/from_f64_to_f64"), self.r.to_f64(), v);
                cx.eq_f(&self.k("cast/from_f32"), T::from_f32(v as f32).to_f64(), v);
                cx.eq_f(&self.k("cast/to_f32"), self.r.to_f32() as f64, v);
                if a(0) >= 0 && a(1) == 0 {
                    cx.eq_f(&self.k("cast/from_u32"), T::from_u32(a(0) as u32).to_f64(), v);
                    cx.eq_f(&self.k("cast/from_usize"), T::from_usize(a(0) as usize).to_f64(), v);
                }
                cx.eq_f(&self.k("const/zero"), T::ZERO.to_f64(), 0.0);
                cx.eq_f(&self.k("const/one"), T::ONE.to_f64(), 1.0);
                cx.check(&self.k("const/inf"), T::INFINITY.to_f64() == f64::INFINITY && T::NEG_INFINITY.to_f64() == f64::NEG_INFINITY, || "infinities".into());
                cx.near(&self.k("const/pi"), T::PI.to_f64(), std::f64::consts::PI, 0.0, self.u / 2.0);
                cx.near(&self.k("const/frac_pi_2"), T::FRAC_PI_2.to_f64(), std::f64::consts::FRAC_PI_2, 0.0, self.u / 2.0);
                cx.eq_f(&self.k("const/epsilon"), T::EPSILON.to_f64(), 2f64.powi(1 - self.m as i32));
            }
            "apply" => {
                let r = self.r;
                let y: T = self.q(a(1), a(2)).unwrap_or_else(|| bad("operand"));
                let (name, got) = match a(0) {
                    0 => ("floor", r.floor()),
                    1 => ("ceil", r.ceil()),
                    2 => ("round", r.round()),
                    3 => ("trunc", r.trunc()),
                    4 => ("fract", r.fract()),
                    5 => ("abs", r.abs()),
                    6 => ("neg", -r),
                    7 => ("min", r.min(y)),
                    8 => ("max", r.max(y)),
                    9 => ("copysign", r.copysign(y)),
                    10 => ("signum", r.signum()),
                    11 => ("add", r + y),
                    12 => ("sub", r - y),
                    13 => ("mul", r * y),
                    14 => ("powi", r.powi(2)),
                    _ => ("half", r / (T::ONE + T::ONE)),
                };
                self.exact(cx, &format!("apply/{}", name), got, x(0), x(1));
                self.r = T::from_f64(x(0) as f64 / 2f64.powi(x(1) as i32));
            }
            "special" => {
                let (p, q, want): (T, T, T) = (special(a(1)), special(a(2)), special(x(0)));
                let (name, got) = match a(0) {
                    0 => ("min", p.min(q)),
                    1 => ("max", p.max(q)),
                    2 => ("copysign", p.copysign(q)),
                    3 => ("atan2", p.atan2(q)),
                    4 => ("sqrt", p.sqrt()),
                    5 => ("ln", p.ln()),
                    6 => ("exp", p.exp()),
                    7 => ("floor", p.floor()),
                    8 => ("ceil", p.ceil()),
                    9 => ("round", p.round()),
                    10 => ("trunc", p.trunc()),
                    11 => ("signum", p.signum()),
                    12 => ("abs", p.abs()),
                    13 => ("powf", p.powf(q)),
                    14 => ("exp2", p.exp2()),
                    15 => ("log2", p.log2()),
                    16 => ("log10", p.log10()),
                    17 => ("atan", p.atan()),
                    18 => ("asin", p.asin()),
                    19 => ("acos", p.acos()),
                    20 => ("sin", p.sin()),
                    21 => ("cos", p.cos()),
                    22 => ("tan", p.tan()),
                    23 => ("fract", p.fract()),
                    _ => bad("special op"),
                };
                let angle = matches!(x(0), 7..=10);
                let ok = if angle { (got.to_f64() - want.to_f64()).abs() <= 4.0 * self.u } else { same(got.to_f64(), want.to_f64()) };
                cx.check(&self.k(&format!("special/{}", name)), ok, || format!("{}({:?}, {:?}) = {:?}, want {:?}", name, p, q, got, want));
            }
            "round" => {
                if let Some(v) = self.q(a(0), a(1)) {
                    self.exact(cx, "round/floor", v.floor(), x(0), 0);
                    self.exact(cx, "round/ceil", v.ceil(), x(1), 0);
                    self.exact(cx, "round/round", v.round(), x(2), 0);
                    self.exact(cx, "round/trunc", v.trunc(), x(3), 0);
                    self.exact(cx, "round/fract", v.fract(), x(4), a(1));
                    self.exact(cx, "round/abs", v.abs(), x(5), a(1));
                }
            }
            "trig" => {
                if let Some(v) = self.q(a(0), a(1)) {
                    self.close(cx, "trig/sin", v.sin(), dec(x(0)));
                    self.close(cx, "trig/cos", v.cos(), dec(x(1)));
                    if x(2) == 1 {
                        self.close(cx, "trig/tan", v.tan(), dec(x(3)));
                    }
                    self.close(cx, "trig/atan", v.atan(), dec(x(4)));
                }
            }
            "arc" => {
                if let Some(v) = self.q(a(0), a(1)) {
                    self.close(cx, "arc/asin", v.asin(), dec(x(0)));
                    self.close(cx, "arc/acos", v.acos(), dec(x(1)));
                }
            }
            "atan2" => {
                if let (Some(v), Some(y)) = (self.q(a(0), a(1)), self.q(a(2), a(3))) {
                    self.close(cx, "atan2", v.atan2(y), dec(x(0)));
                }
            }
            "deg" => {
                if let Some(v) = self.q(a(0), a(1)) {
                    if (a(0) != 0) == (x(0) != 0) {
                        self.close(cx, "deg/to_degrees", v.to_degrees(), dec(x(0)));
                        self.close(cx, "deg/to_radians", v.to_radians(), dec(x(1)));
                    }
                }
            }
            "exp" => {
                if let Some(v) = self.q(a(0), a(1)) {
                    self.close(cx, "exp/exp", v.exp(), dec(x(0)));
                    self.close(cx, "exp/exp2", v.exp2(), dec(x(1)));
                }
            }
            "log" => {
                if let Some(v) = self.q(a(0), a(1)) {
                    self.close(cx, "log/ln", v.ln(), dec(x(0)));
                    self.close(cx, "log/log2", v.log2(), dec(x(1)));
                    self.close(cx, "log/log10", v.log10(), dec(x(2)));
                }
            }
            "powf" => {
                if let (Some(b), Some(e)) = (self.q(a(0), a(1)), self.q(a(2), a(3))) {
                    let w = dec(x(0));
                    if w > 1e-3 && w < 1e4 {
                        self.close(cx, "powf", b.powf(e), w);
                    }
                }
            }
            "sqrt" => {
                if let Some(v) = self.q(a(0), a(1)) {
                    self.close(cx, "sqrt/near", v.sqrt(), dec(x(0)));
                }
            }
            "powi" => {
                if let Some(b) = self.q(a(0), a(1)) {
                    let want = x(0) as f64 / x(1) as f64 / 2f64.powi(x(2) as i32);
                    if self.m == 11 && want.abs() < 1e-4 {
                        return;
                    }
                    let got = b.powi(a(2) as i32);
                    self.close(cx, "powi/value", got, want);
                    if x(1) == 1 && self.q(x(0), x(2)).is_some() {
                        self.exact(cx, "powi/exact", got, x(0), x(2));
                    }
                }
            }
            "powx" => {
                // results in the normal range only (and so are their reciprocals)
                let e = x(1) as i32;
                if 2f64.powi(e.abs()) < self.big && (self.m != 24 || e.abs() < 126) && (self.m != 11 || e.abs() < 14) {
                    let b = [1.0, 2.0, 0.5][a(1) as usize] * if a(0) == 1 { -1.0 } else { 1.0 };
                    let got = T::from_f64(b).powi(a(2) as i32);
                    cx.eq_f(&self.k("powi/any_exponent"), got.to_f64(), x(0) as f64 * 2f64.powi(e));
                }
            }
            "square" => {
                if let (Some(v), Some(s)) = (self.q(a(0), 0), self.q(x(0), 0)) {
                    self.exact(cx, "sqrt/exact", s.sqrt(), a(0), 0);
                    let _ = v;
                }
            }
            "u32" | "usize" => {
                let n = a(0);
                let got = if op == "u32" { T::from_u32(n as u32) } else { T::from_usize(n as u64 as usize) };
                match self.w {
                    "f32" => cx.eq_f(&self.k("cast/int"), got.to_f64(), x(0) as f64),
                    "f64" => cx.eq_f(&self.k("cast/int"), got.to_f64(), x(1) as f64),
                    "f128" => cx.check(&self.k("cast/int"), got.to_f64() == n as f64, || format!("{:?} from {}", got, n)),
                    _ => {
                        if n <= 2048 {
                            cx.eq_f(&self.k("cast/int"), got.to_f64(), n as f64)
                        }
                    }
                }
            }
            "narrow" => {
                let v = a(0) as f64 / 2f64.powi(a(1) as i32);
                let w32 = x(0) as f64 / 2f64.powi(a(1) as i32);
                match self.w {
                    "f32" => cx.eq_f(&self.k("cast/narrow"), T::from_f64(v).to_f64(), w32),
                    "f64" => {
                        cx.eq_f(&self.k("cast/keep"), T::from_f64(v).to_f64(), v);
                        cx.eq_f(&self.k("cast/narrow"), T::from_f64(v).to_f32() as f64, w32);
                        cx.eq_f(&self.k("cast/widen"), T::from_f32(w32 as f32).to_f64(), w32);
                    }
                    "f128" => cx.eq_f(&self.k("cast/keep"), T::from_f64(v).to_f64(), v),
                    _ => {}
                }
            }
            _ => bad(op),
        }
    }
}
