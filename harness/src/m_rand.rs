//! R01 on aether_rand.
use crate::util::*;
use aether_rand::XorShift64Star as Rng;

pub fn r01() -> Box<dyn Model> {
    Box::new(R01 { a: Rng::new(42), b: Rng::new(42) })
}
struct R01 {
    a: Rng,
    b: Rng,
}
impl Model for R01 {
    fn step(&mut self, op: &str, cx: &mut Cx) {
        match op {
            "seed" => {
                self.a = Rng::new(cx.u64(0));
                self.b = Rng::new(cx.u64(0));
            }
            "clone" => self.b = self.a.clone(),
            "raw" => {
                for k in 0..cx.us(1) {
                    let g = if cx.i(0) == 0 { self.a.next_u64() } else { self.b.next_u64() };
                    cx.eq_i("word", g as i128, cx.x(k));
                }
            }
            "uniform" => {
                let top = cx.x(0) as u64;
                let exact = top as f64 / (1u64 << 53) as f64;
                match cx.i(0) {
                    0 => { let g = self.a.next_f64(); cx.eq_f("f64", g, exact); }
                    1 => { let g = self.a.next_real::<f64>(); cx.eq_f("real64", g, exact); }
                    _ => {
                        let g = self.a.next_real::<f32>();
                        cx.check("f32range", g >= 0.0 && g < 1.0, || format!("got {}", g));
                        // the nearest f32 or the one below (rounding towards zero)
                        let ok = ((g as f64) - exact).abs() <= exact * 1.2e-7 + 1e-44;
                        cx.check("f32", ok, || format!("got {} want {}", g, exact));
                    }
                }
            }
            "normal" => {
                let fin = |cx: &mut Cx, g: f64| cx.check("finite", g.is_finite() && g.abs() < 40.0, || format!("got {}", g));
                let (g, tol) = match cx.i(0) {
                    0 => (self.a.normal01(), 1e-12),
                    1 => (self.a.normal01_real::<f64>(), 1e-12),
                    _ => (self.a.normal01_real::<f32>() as f64, 2e-5),
                };
                fin(cx, g);
                // near u1 = 1 the radius is ill conditioned in f32 (u1 itself is rounded): finiteness only
                let u1 = cx.x(0) as f64 / (1u64 << 53) as f64;
                if cx.x(3) != 0 && (cx.i(0) < 2 || (u1 < 0.99 && u1 > 1e-30)) {
                    let w = cx.xr(2);
                    cx.near("value", g, w, tol, 1e-12);
                }
            }
            _ => bad(op),
        }
    }
}
