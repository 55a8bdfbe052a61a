//! M04 on aether_core::numerical_methods.
use crate::util::*;
use aether_core::attitude::Euler;
use aether_core::coordinate::Cartesian;
use aether_core::math::Vector;
use aether_core::numerical_methods::integration::{EulerIntegrate, Rk4Integrate, TrapezoidalIntegrate};
use aether_core::numerical_methods::solvers::NewtonRaphson;
use aether_core::real::Real;
use aether_core::reference_frame::{Body, ICRF};

pub fn m04() -> Box<dyn Model> {
    Box::new(M04 { n: 1, kind: 0, co: vec![0.0; 3], x: vec![0.0] })
}
struct M04 {
    n: usize,
    kind: usize,
    co: Vec<f64>,
    x: Vec<f64>,
}
fn rhs<T: Real>(kind: usize, c: &[f64], y: &[T]) -> Vec<T> {
    let n = y.len();
    let q = |k: usize| T::from_f64(c[k] / 8.0);
    (0..n)
        .map(|i| match kind {
            0 | 1 => {
                let mut s = q(i);
                for j in 0..n {
                    s = s + q(n + i * n + j) * y[j];
                }
                if kind == 1 {
                    s = s + q(n + n * n + i) * (y[i] * y[(i + 1) % n]);
                }
                s
            }
            2 if i == 0 => T::ONE,
            2 => {
                let t = y[0];
                ((q(4 * i + 3) * t + q(4 * i + 2)) * t + q(4 * i + 1)) * t + q(4 * i)
            }
            _ => {
                if i % 2 == 0 {
                    y[(i + 1) % n]
                } else {
                    q(i) * y[i - 1].sin()
                }
            }
        })
        .collect()
}
fn arr<T: Real, const N: usize>(v: &[T]) -> Vector<T, N> {
    let mut a = [T::ZERO; N];
    a.copy_from_slice(v);
    Vector::new(a)
}
type B = Body<f64>;
type I = ICRF<f64>;
impl M04 {
    fn cmp<T: Real>(&self, cx: &Cx, k: &str, got: &[T], want: &[f64], scale: f64, rel: f64) {
        for i in 0..self.n {
            let g = got[i].to_f64();
            if !((g - want[i]).abs() <= rel * scale) {
                cx.fail(k, format!("component {} got {:e} want {:e} tol {:e}", i, g, want[i], rel * scale));
                return;
            }
        }
    }
    fn rk4<T: Real + 'static, const N: usize>(&self, cx: &Cx, w: &str, rel: f64) {
        let x: Vec<T> = self.x.iter().map(|v| T::from_f64(*v)).collect();
        let dt = T::from_f64(cx.aq(0, 1024.0));
        let scale = cx.xf(0) / 1e30 + 1e-3;
        let want: Vec<f64> = (0..N).map(|i| cx.xf(1 + i) / 1e30).collect();
        let v: Vector<T, N> = arr(&x);
        let r = v.integrate_rk4(|y| arr(&rhs(self.kind, &self.co, &y.data)), dt);
        self.cmp(cx, &format!("vector.{}", w), &r.data, &want, scale, rel);
        if N == 3 {
            let r = Cartesian::<T, I>::new(x[0], x[1], x[2]).integrate_rk4(
                |y| {
                    let d = rhs(self.kind, &self.co, &y.data.data);
                    Cartesian::new(d[0], d[1], d[2])
                },
                dt,
            );
            self.cmp(cx, &format!("cartesian.{}", w), &r.data.data, &want, scale, rel);
            let r = Euler::<T, B, I>::new(x[0], x[1], x[2]).integrate_rk4(
                |y| {
                    let d = rhs(self.kind, &self.co, &y.data.data);
                    Euler::new(d[0], d[1], d[2])
                },
                dt,
            );
            self.cmp(cx, &format!("euler.{}", w), &r.data.data, &want, scale, rel);
        }
    }
    fn quad<T: Real + 'static, const N: usize>(&self, cx: &Cx, w: &str, rel: f64) {
        let dt = T::from_f64(cx.aq(1, 1024.0));
        let u: Vec<T> = (0..N).map(|i| T::from_f64(cx.aq(2 + i, 64.0))).collect();
        let l: Vec<T> = (0..N).map(|i| T::from_f64(cx.aq(2 + N + i, 64.0))).collect();
        let t = |k: &str, g: &[T], off: usize, den: f64| {
            for i in 0..N {
                cx.near(&format!("{}.{}", k, w), g[i].to_f64(), cx.xf(off + i) / den, 1e-300, rel);
            }
        };
        let (e, tr) = (65536.0, 131072.0);
        let (a, b): (Vector<T, N>, Vector<T, N>) = (arr(&u), arr(&l));
        t("eulerstep", &a.integrate_euler(dt).data, 0, e);
        t("trapezoid", &a.integrate_trapezoidal(&b, dt).data, N, tr);
        if N == 3 {
            let (a, b) = (Cartesian::<T, I>::new(u[0], u[1], u[2]), Cartesian::<T, I>::new(l[0], l[1], l[2]));
            t("eulerstep.cartesian", &a.integrate_euler(dt).data.data, 0, e);
            t("trapezoid.cartesian", &a.integrate_trapezoidal(&b, dt).data.data, N, tr);
            let (a, b) = (Euler::<T, B, I>::new(u[0], u[1], u[2]), Euler::<T, B, I>::new(l[0], l[1], l[2]));
            t("eulerstep.euler", &a.integrate_euler(dt).data.data, 0, e);
            t("trapezoid.euler", &a.integrate_trapezoidal(&b, dt).data.data, N, tr);
        }
    }
    fn newton<T: Real + 'static>(&self, cx: &Cx, w: &str, efac: f64) {
        let kind = cx.us(0);
        let nc = cx.us(1);
        let c: Vec<T> = (0..nc).map(|k| T::from_f64(cx.af(2 + k))).collect();
        let guess = T::from_f64(cx.aq(2 + nc, 1024.0));
        let te = cx.i(3 + nc);
        let tol = if te > 0 { 10f64.powi(-(te as i32)) } else { te as f64 };
        let mx = cx.us(4 + nc);
        let verdict = cx.x(0);
        let e = cx.xf(2) / 1e30 * efac;
        if verdict < 0 || (efac > 1.0 && tol > 0.0 && e * 100.0 > tol) {
            return;
        }
        let eighth = T::from_f64(0.125);
        let f = |x: T| match kind {
            0 => c.iter().rev().fold(T::ZERO, |s, k| s * x + *k),
            1 => x.exp() - c[0] * eighth,
            _ => x.cos() - c[0] * eighth * x,
        };
        let df = |x: T| match kind {
            0 => (1..nc).rev().fold(T::ZERO, |s, k| s * x + c[k] * T::from_f64(k as f64)),
            1 => x.exp(),
            _ => -x.sin() - c[0] * eighth,
        };
        let r = NewtonRaphson::new(T::from_f64(tol), mx).solve(guess, f, df);
        let k = format!("newton.{}", w);
        match (r, verdict) {
            (Ok(x), 1) => {
                let want = cx.xf(1) / 1e30;
                let t = 4.0 * e + 1e-14 * efac;
                cx.check(&k, (x.to_f64() - want).abs() <= t, || format!("returned {:e} want {:e} tol {:e}", x.to_f64(), want, t));
            }
            (Ok(x), _) => cx.fail(&k, format!("success with {:e} although no step within {} iterations was below the tolerance", x.to_f64(), mx)),
            (Err(m), 1) => cx.fail(&k, format!("error '{}' although the iteration converges", m)),
            (Err(_), _) => {}
        }
    }
}
macro_rules! dims { ($s:expr, $n:expr, $m:ident, $cx:expr) => { match $n {
    1 => { $s.$m::<f64, 1>($cx, "f64", 2e-15); $s.$m::<f32, 1>($cx, "f32", 1e-6) }
    2 => { $s.$m::<f64, 2>($cx, "f64", 2e-15); $s.$m::<f32, 2>($cx, "f32", 1e-6) }
    3 => { $s.$m::<f64, 3>($cx, "f64", 2e-15); $s.$m::<f32, 3>($cx, "f32", 1e-6) }
    4 => { $s.$m::<f64, 4>($cx, "f64", 2e-15); $s.$m::<f32, 4>($cx, "f32", 1e-6) }
    6 => { $s.$m::<f64, 6>($cx, "f64", 2e-15); $s.$m::<f32, 6>($cx, "f32", 1e-6) }
    _ => bad("dimension"),
} } }
impl Model for M04 {
    fn step(&mut self, op: &str, cx: &mut Cx) {
        match op {
            "prob" => {
                self.n = cx.us(0);
                self.kind = cx.us(1);
                let k = cx.us(2);
                self.co = (0..k).map(|i| cx.af(3 + i)).collect();
                self.x = (0..self.n).map(|i| cx.aq(3 + k + i, 64.0)).collect();
            }
            "rk4" => {
                let cx = &*cx;
                dims!(self, self.n, rk4, cx);
                self.x = (0..self.n).map(|i| cx.xf(1 + i) / 1e30).collect();
            }
            "quad" => {
                let cx = &*cx;
                dims!(self, cx.us(0), quad, cx);
            }
            "newton" => {
                self.newton::<f64>(cx, "f64", 1.0);
                self.newton::<f32>(cx, "f32", 536870912.0);
            }
            _ => bad(op),
        }
    }
}
