//! U01 on aether_units.
use crate::util::*;
use aether_core::real::Real;
use aether_units::si::si_base::*;
use aether_units::si::{SiExt, SiPrefixExt};
use aether_units::Quantity;

pub fn u01() -> Box<dyn Model> {
    Box::new(U01 { d: Un::<f64> { w: "f64", v: 1.0, big: 250, _t: Default::default() }, s: Un::<f32> { w: "f32", v: 1.0, big: 30, _t: Default::default() } })
}
struct U01 {
    d: Un<f64>,
    s: Un<f32>,
}
impl Model for U01 {
    fn step(&mut self, op: &str, cx: &mut Cx) {
        self.d.step(op, cx);
        self.s.step(op, cx);
    }
}
struct Un<T: Real> {
    w: &'static str,
    v: f64,
    big: i128,
    _t: std::marker::PhantomData<T>,
}
/// every (family, prefix): constructor, base unit, base->prefix, prefix->base
macro_rules! table {
    ($fam:expr, $pre:expr, $m:ident $(, $x:expr)*) => {
        match ($fam, $pre) {
            (0, 0) => $m!(yoctometer, Meter, to_yoctometer, to_meter $(, $x)*),
            (0, 1) => $m!(zeptometer, Meter, to_zeptometer, to_meter $(, $x)*),
            (0, 2) => $m!(attometer, Meter, to_attometer, to_meter $(, $x)*),
            (0, 3) => $m!(femtometer, Meter, to_femtometer, to_meter $(, $x)*),
            (0, 4) => $m!(picometer, Meter, to_picometer, to_meter $(, $x)*),
            (0, 5) => $m!(nanometer, Meter, to_nanometer, to_meter $(, $x)*),
            (0, 6) => $m!(micrometer, Meter, to_micrometer, to_meter $(, $x)*),
            (0, 7) => $m!(millimeter, Meter, to_millimeter, to_meter $(, $x)*),
            (0, 8) => $m!(centimeter, Meter, to_centimeter, to_meter $(, $x)*),
            (0, 9) => $m!(decimeter, Meter, to_decimeter, to_meter $(, $x)*),
            (0, 10) => $m!(decameter, Meter, to_decameter, to_meter $(, $x)*),
            (0, 11) => $m!(hectometer, Meter, to_hectometer, to_meter $(, $x)*),
            (0, 12) => $m!(kilometer, Meter, to_kilometer, to_meter $(, $x)*),
            (0, 13) => $m!(megameter, Meter, to_megameter, to_meter $(, $x)*),
            (0, 14) => $m!(gigameter, Meter, to_gigameter, to_meter $(, $x)*),
            (0, 15) => $m!(terameter, Meter, to_terameter, to_meter $(, $x)*),
            (0, 16) => $m!(petameter, Meter, to_petameter, to_meter $(, $x)*),
            (0, 17) => $m!(exameter, Meter, to_exameter, to_meter $(, $x)*),
            (0, 18) => $m!(zettameter, Meter, to_zettameter, to_meter $(, $x)*),
            (0, 19) => $m!(yottameter, Meter, to_yottameter, to_meter $(, $x)*),
            (1, 0) => $m!(yoctosecond, Second, to_yoctosecond, to_second $(, $x)*),
            (1, 1) => $m!(zeptosecond, Second, to_zeptosecond, to_second $(, $x)*),
            (1, 2) => $m!(attosecond, Second, to_attosecond, to_second $(, $x)*),
            (1, 3) => $m!(femtosecond, Second, to_femtosecond, to_second $(, $x)*),
            (1, 4) => $m!(picosecond, Second, to_picosecond, to_second $(, $x)*),
            (1, 5) => $m!(nanosecond, Second, to_nanosecond, to_second $(, $x)*),
            (1, 6) => $m!(microsecond, Second, to_microsecond, to_second $(, $x)*),
            (1, 7) => $m!(millisecond, Second, to_millisecond, to_second $(, $x)*),
            (1, 8) => $m!(centisecond, Second, to_centisecond, to_second $(, $x)*),
            (1, 9) => $m!(decisecond, Second, to_decisecond, to_second $(, $x)*),
            (1, 10) => $m!(decasecond, Second, to_decasecond, to_second $(, $x)*),
            (1, 11) => $m!(hectosecond, Second, to_hectosecond, to_second $(, $x)*),
            (1, 12) => $m!(kilosecond, Second, to_kilosecond, to_second $(, $x)*),
            (1, 13) => $m!(megasecond, Second, to_megasecond, to_second $(, $x)*),
            (1, 14) => $m!(gigasecond, Second, to_gigasecond, to_second $(, $x)*),
            (1, 15) => $m!(terasecond, Second, to_terasecond, to_second $(, $x)*),
            (1, 16) => $m!(petasecond, Second, to_petasecond, to_second $(, $x)*),
            (1, 17) => $m!(exasecond, Second, to_exasecond, to_second $(, $x)*),
            (1, 18) => $m!(zettasecond, Second, to_zettasecond, to_second $(, $x)*),
            (1, 19) => $m!(yottasecond, Second, to_yottasecond, to_second $(, $x)*),
            (2, 0) => $m!(yoctogram, Kilogram, to_yoctogram, to_kilogram $(, $x)*),
            (2, 1) => $m!(zeptogram, Kilogram, to_zeptogram, to_kilogram $(, $x)*),
            (2, 2) => $m!(attogram, Kilogram, to_attogram, to_kilogram $(, $x)*),
            (2, 3) => $m!(femtogram, Kilogram, to_femtogram, to_kilogram $(, $x)*),
            (2, 4) => $m!(picogram, Kilogram, to_picogram, to_kilogram $(, $x)*),
            (2, 5) => $m!(nanogram, Kilogram, to_nanogram, to_kilogram $(, $x)*),
            (2, 6) => $m!(microgram, Kilogram, to_microgram, to_kilogram $(, $x)*),
            (2, 7) => $m!(milligram, Kilogram, to_milligram, to_kilogram $(, $x)*),
            (2, 8) => $m!(centigram, Kilogram, to_centigram, to_kilogram $(, $x)*),
            (2, 9) => $m!(decigram, Kilogram, to_decigram, to_kilogram $(, $x)*),
            (2, 10) => $m!(decagram, Kilogram, to_decagram, to_kilogram $(, $x)*),
            (2, 11) => $m!(hectogram, Kilogram, to_hectogram, to_kilogram $(, $x)*),
            (2, 13) => $m!(megagram, Kilogram, to_megagram, to_kilogram $(, $x)*),
            (2, 14) => $m!(gigagram, Kilogram, to_gigagram, to_kilogram $(, $x)*),
            (2, 15) => $m!(teragram, Kilogram, to_teragram, to_kilogram $(, $x)*),
            (2, 16) => $m!(petagram, Kilogram, to_petagram, to_kilogram $(, $x)*),
            (2, 17) => $m!(exagram, Kilogram, to_exagram, to_kilogram $(, $x)*),
            (2, 18) => $m!(zettagram, Kilogram, to_zettagram, to_kilogram $(, $x)*),
            (2, 19) => $m!(yottagram, Kilogram, to_yottagram, to_kilogram $(, $x)*),
            _ => bad("prefix"),
        }
    };
}
macro_rules! to_base {
    ($ctor:ident, $base:ident, $to:ident, $back:ident, $x:expr) => {{
        let q: Quantity<$base, T> = $x.$ctor().$back();
        (f($x.$ctor().raw()), f(q.raw()))
    }};
}
macro_rules! from_base {
    ($ctor:ident, $base:ident, $to:ident, $back:ident, $x:expr) => {{
        let q = Quantity::<$base, T>::new($x).$to();
        (f(q.raw()), f(q.$back().raw()))
    }};
}
macro_rules! ops {
    ($ctor:ident, $base:ident, $to:ident, $back:ident, $a:expr, $b:expr, $k:expr) => {{
        let (a, b) = ($a.$ctor(), $b.$ctor());
        let sum: Quantity<$base, T> = (a + b).$back();
        vec![f((a + b).raw()), f((a - b).raw()), f((a * $k).raw()), f((-a).raw()), f(((a * $k) / $k).raw()), f(sum.raw())]
    }};
}
fn f<T: Real>(x: T) -> f64 {
    x.to_f64()
}
fn dec(n: i128, e: i128) -> f64 {
    format!("{}e{}", n, e).parse().unwrap()
}
impl<T: Real> Un<T> {
    fn near(&self, cx: &Cx, k: &str, got: f64, want: f64) {
        let tol = 8.0 * f(T::EPSILON) * want.abs();
        cx.check(&format!("{}.{}", k, self.w), (got - want).abs() <= tol, || format!("got {:e} want {:e}", got, want));
    }
    /// integers the number type holds exactly: arithmetic on quantities is arithmetic on their values
    fn exact(&self, cx: &Cx, k: &str, got: f64, want: f64) {
        if want.abs() < 1.0 / f(T::EPSILON) {
            cx.eq_f(&format!("{}.{}", k, self.w), got, want);
        }
    }
    /// inside the range of the number type
    fn fits(&self, n: i128, e: i128) -> bool {
        let d = n.unsigned_abs().checked_ilog10().unwrap_or(0) as i128;
        (d + e).abs() < self.big && e.abs() < self.big
    }
    fn step(&mut self, op: &str, cx: &Cx) {
        match op {
            "base" => {
                self.v = dec(cx.x(0), cx.x(1));
                let x = T::from_f64(self.v);
                let w = f(x);
                for (k, g) in [
                    ("m", x.m().raw()), ("kg", x.kg().raw()), ("s", x.s().raw()), ("A", x.A().raw()), ("K", x.K().raw()), ("mol", x.mol().raw()), ("cd", x.cd().raw()),
                    ("Hz", x.Hz().raw()), ("N", x.N().raw()), ("Pa", x.Pa().raw()), ("J", x.J().raw()), ("W", x.W().raw()), ("rad", x.rad().raw()),
                    ("m_per_s", x.m_per_s().raw()), ("m_per_s2", x.m_per_s2().raw()), ("rad_per_s", x.rad_per_s().raw()), ("rad_per_s2", x.rad_per_s2().raw()),
                    ("from", Quantity::<Meter, T>::from(x).raw()),
                ] {
                    cx.eq_f(&format!("unit_{}.{}", k, self.w), f(g), w);
                }
            }
            "enter" => {
                let (n, e) = (cx.i(2), cx.i(3));
                self.v = dec(cx.x(0), cx.x(1));
                if self.fits(n, e) && self.fits(cx.x(0), cx.x(1)) {
                    let x = T::from_f64(dec(n, e));
                    let (raw, got) = table!(cx.i(0), cx.i(1), to_base, x);
                    cx.eq_f(&format!("ctor.{}", self.w), raw, f(x));
                    self.near(cx, "to_base", got, self.v);
                }
            }
            "leave" => {
                if self.fits(cx.x(0), cx.x(1)) && self.fits(cx.x(2), cx.x(3)) {
                    let x = T::from_f64(dec(cx.x(2), cx.x(3)));
                    let (got, back) = table!(cx.i(0), cx.i(1), from_base, x);
                    self.near(cx, "to_prefixed", got, dec(cx.x(0), cx.x(1)));
                    self.near(cx, "round_trip", back, f(x));
                }
            }
            "across" => {
                if self.fits(cx.x(0), cx.x(1)) && self.fits(cx.i(3), 24) {
                    let x = T::from_f64(cx.af(3));
                    let (_, b) = table!(cx.i(0), cx.i(1), to_base, x);
                    let (g, _) = table!(cx.i(0), cx.i(2), from_base, T::from_f64(b));
                    self.near(cx, "across", g, dec(cx.x(0), cx.x(1)));
                }
            }
            "arith" => {
                let (a, b, k) = (T::from_f64(cx.af(2)), T::from_f64(cx.af(3)), T::from_f64(cx.af(4)));
                let g: Vec<f64> = table!(cx.i(0), cx.i(1), ops, a, b, k);
                for (i, n) in ["add", "sub", "mul", "neg"].iter().enumerate() {
                    self.exact(cx, n, g[i], cx.xf(i));
                }
                // the product is exact, so the quotient is the first operand again
                if cx.xf(2).abs() < 1.0 / f(T::EPSILON) {
                    self.exact(cx, "div", g[4], cx.af(2));
                }
                // the sum converts like its parts
                let (_, pa) = table!(cx.i(0), cx.i(1), to_base, T::from_f64(cx.xf(0)));
                self.near(cx, "sum_to_base", g[5], pa);
            }
            _ => bad("op"),
        }
    }
}
