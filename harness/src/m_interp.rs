//! I01 on aether_interp.
use crate::util::*;
use aether_core::math::Vector;
use aether_interp::{inverse_lerp, lerp, remap, CubicSpline, PolynomialInterpolator};

pub fn i01() -> Box<dyn Model> {
    Box::new(I01 { poly: None, spline: None, pk: 0, sk: 0, py: vec![] })
}
struct I01 {
    poly: Option<Box<dyn Fn(f64) -> f64>>,
    spline: Option<Box<dyn Fn(f64) -> f64>>,
    pk: i32,
    sk: i32,
    py: Vec<f64>,
}
const EPS: f64 = f64::EPSILON;
fn p2(k: i32) -> f64 {
    2f64.powi(k)
}
type Ev = Option<Box<dyn Fn(f64) -> f64>>;
fn mk_poly(x: &[f64], y: &[f64], cx: &Cx) -> Ev {
    fn go<const N: usize>(x: &[f64], y: &[f64], cx: &Cx) -> Ev {
        let p = PolynomialInterpolator::<N>::new(Vector::new(x.try_into().unwrap()), Vector::new(y.try_into().unwrap())).ok()?;
        cx.check("poly/degree", p.degree() == N.saturating_sub(1), || format!("degree {} for {} points", p.degree(), N));
        Some(Box::new(move |t| p.evaluate(t)))
    }
    match x.len() {
        0 => go::<0>(x, y, cx),
        1 => go::<1>(x, y, cx),
        2 => go::<2>(x, y, cx),
        3 => go::<3>(x, y, cx),
        4 => go::<4>(x, y, cx),
        5 => go::<5>(x, y, cx),
        6 => go::<6>(x, y, cx),
        7 => go::<7>(x, y, cx),
        8 => go::<8>(x, y, cx),
        12 => go::<12>(x, y, cx),
        _ => bad("poly size"),
    }
}
fn mk_spline(x: &[f64], y: &[f64], cx: &Cx) -> Ev {
    fn go<const N: usize>(x: &[f64], y: &[f64], cx: &Cx) -> Ev {
        let p = CubicSpline::<N>::new(Vector::new(x.try_into().unwrap()), Vector::new(y.try_into().unwrap())).ok()?;
        cx.check("spline/count", p.sample_count() == N, || format!("sample_count {} for {} points", p.sample_count(), N));
        Some(Box::new(move |t| p.evaluate(t)))
    }
    match x.len() {
        0 => go::<0>(x, y, cx),
        1 => go::<1>(x, y, cx),
        2 => go::<2>(x, y, cx),
        3 => go::<3>(x, y, cx),
        4 => go::<4>(x, y, cx),
        5 => go::<5>(x, y, cx),
        6 => go::<6>(x, y, cx),
        8 => go::<8>(x, y, cx),
        17 => go::<17>(x, y, cx),
        33 => go::<33>(x, y, cx),
        _ => bad("spline size"),
    }
}
impl Model for I01 {
    fn step(&mut self, op: &str, cx: &mut Cx) {
        match op {
            "nop" => {}
            "poly" | "spline" => {
                let n = cx.us(0);
                let k = cx.i(1) as i32;
                let x: Vec<f64> = (0..n).map(|i| cx.af(2 + i) * p2(k)).collect();
                let y: Vec<f64> = (0..n).map(|i| cx.af(2 + n + i)).collect();
                let r = if op == "poly" { mk_poly(&x, &y, cx) } else { mk_spline(&x, &y, cx) };
                cx.eq_b(&format!("{op}/accepted"), r.is_some(), cx.x(0) == 1);
                if op == "poly" {
                    self.poly = r;
                    self.pk = k;
                    self.py = y;
                } else {
                    self.spline = r;
                    self.sk = k;
                }
            }
            "pe" => {
                let Some(p) = &self.poly else { return };
                let x = cx.af(0) * p2(self.pk - cx.i(1) as i32);
                let want = cx.xf(0) / 1e30;
                let scale = cx.xf(1) / 1e30;
                let g = p(x);
                cx.near("poly/value", g, want, 60.0 * EPS * scale, 1e-15);
                if cx.x(2) >= 0 {
                    cx.eq_f("poly/knot", g, self.py[cx.x(2) as usize]);
                }
            }
            "se" => {
                let Some(p) = &self.spline else { return };
                let x = cx.af(0) * p2(self.sk - cx.i(1) as i32);
                cx.near("spline/value", p(x), cx.xf(0) / 1e30, 60.0 * EPS * cx.xf(1) / 1e30, 1e-15);
            }
            "bad" => {
                let w = cx.us(1).min(4);
                match cx.i(0) {
                    0 | 1 => {
                        let mut x = [0.0, 1.0, 2.0, 3.0, 4.0];
                        x[w] = f64::NAN;
                        cx.check("spline/nan_knot", mk_spline(&x, &[1.0, 2.0, 0.0, 1.0, 5.0], cx).is_none(), || format!("NaN knot {} accepted as strictly increasing", w));
                    }
                    2 => {
                        cx.check("spline/too_few", mk_spline(&[], &[], cx).is_none() && mk_spline(&[1.0], &[1.0], cx).is_none(), || "fewer than two samples accepted".into());
                    }
                    3 => {
                        cx.check("poly/too_few", mk_poly(&[], &[], cx).is_none(), || "zero samples accepted".into());
                    }
                    _ => {
                        let p = mk_poly(&[3.0], &[7.0], cx);
                        cx.check("poly/constant", p.map(|p| (p(100.0) - 7.0).abs() < 1e-14 && p(3.0) == 7.0) == Some(true), || "one sample is the constant".into());
                    }
                }
            }
            "lerp" => {
                let s = p2(cx.i(0) as i32);
                let (a, b) = (cx.af(1) * s, cx.af(2) * s);
                let t = cx.af(3) / 1024.0;
                let v = cx.af(4) / 16.0 * s;
                let (c, d) = (cx.af(5), cx.af(6));
                let m = a.abs() + b.abs() + (b - a).abs() * t.abs();
                let want = cx.xf(0) / 1e30 * s;
                cx.near("lerp/scalar", lerp(a, b, t), want, 4.0 * EPS * m, 0.0);
                let r = lerp(Vector::<f64, 3>::new([a, b, c]), Vector::new([b, a, c]), t);
                cx.near("lerp/vector", r[0], want, 4.0 * EPS * m, 0.0);
                cx.near("lerp/vector", r[1], a + b - want, 8.0 * EPS * m, 0.0);
                cx.eq_f("lerp/vector_same", r[2], c);
                if t == 0.0 {
                    cx.eq_f("lerp/start", lerp(a, b, t), a);
                }
                let p = cx.xf(1) / 1e30;
                cx.near("lerp/inverse", inverse_lerp(a, b, v), p, 0.0, 8.0 * EPS);
                if v == a {
                    cx.eq_f("lerp/inverse_start", inverse_lerp(a, b, v), 0.0);
                }
                if v == b && a != b {
                    cx.eq_f("lerp/inverse_end", inverse_lerp(a, b, v), 1.0);
                }
                cx.near("lerp/remap", remap(v, a, b, c, d), cx.xf(2) / 1e30, 16.0 * EPS * (c.abs() + d.abs()) * (1.0 + p.abs()), 0.0);
            }
            _ => bad("op"),
        }
    }
}
