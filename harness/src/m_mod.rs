//! Environment models and reference frames: aether_core::reference_frame and aether_models.
use crate::util::*;
use aether_core::attitude::DirectionCosineMatrix as Dcm;
use aether_core::coordinate::Cartesian;
use aether_core::math::{Matrix, Vector};
use aether_core::real::Real;
use aether_core::reference_frame::{transforms as ct, Body, ReferenceFrame, RotatingFrame, ICRF, ITRF, NED};
use aether_models::lunar::frames::{LIRF, LTRF};
use aether_models::lunar::{moon::Moon, transforms as lt};
use aether_models::terrestrial::earth::Earth;
use aether_models::terrestrial::wgs84::transforms as wt;

type M9 = [f64; 9];
const I9: M9 = [1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0];
fn m_of<T: Real>(m: &Matrix<T, 3, 3>) -> M9 {
    let mut o = [0.0; 9];
    for i in 0..9 {
        o[i] = m.data[i / 3][i % 3].to_f64();
    }
    o
}
fn md<T: Real, A: ReferenceFrame, B: ReferenceFrame>(d: &Dcm<T, A, B>) -> M9 {
    m_of(d.as_matrix())
}
fn tr(m: &M9) -> M9 {
    let mut o = [0.0; 9];
    for i in 0..9 {
        o[i] = m[3 * (i % 3) + i / 3];
    }
    o
}
fn exp9(cx: &Cx, off: usize) -> M9 {
    let mut o = [0.0; 9];
    for i in 0..9 {
        o[i] = cx.xf(off + i) / 1e30;
    }
    o
}
pub fn same(got: &[f64], want: &[f64], tol: f64) -> bool {
    got.iter().zip(want).all(|(g, w)| (g - w).abs() <= tol)
}
fn m9(cx: &Cx, k: &str, got: &M9, want: &M9, tol: f64) {
    cx.check(k, same(got, want, tol), || format!("got {:?} want {:?} tol {:e}", got, want, tol));
}
pub fn vs(cx: &Cx, k: &str, got: &[f64], want: &[f64], tol: f64) {
    cx.check(k, got.len() == want.len() && same(got, want, tol), || format!("got {:?} want {:?} tol {:e}", got, want, tol));
}

pub fn a03() -> Box<dyn Model> {
    Box::new(A03 { earth: Dcm::from_matrix(Matrix::identity()), moon: Moon::new(), ori: I9 })
}
struct A03 {
    earth: Dcm<f64, ICRF<f64>, ITRF<f64>>,
    moon: Moon,
    ori: M9,
}
fn omega<T: Real>(n: f64) -> Cartesian<T, ITRF<T>> {
    Cartesian::new(T::ZERO, T::ZERO, T::from_f64(n))
}
fn rate_pair<T: Real>(cx: &Cx, w: &str, n: f64, a: f64, b: f64, m1: &M9, m2: &M9) {
    let eps = T::EPSILON.to_f64();
    let span = 1.0 + (n * a).abs() + (n * b).abs() + (n * (a + b)).abs();
    if span > 0.01 / eps {
        return;
    }
    let tol = 20.0 * eps * span;
    let o = omega::<T>(n);
    let (ta, tab, tb) = (T::from_f64(a), T::from_f64(a + b), T::from_f64(b));
    for (k, f, g) in [
        ("core", ct::icrf_to_itrf::<T> as fn(T, Cartesian<T, ITRF<T>>) -> Dcm<T, ICRF<T>, ITRF<T>>, ct::itrf_to_icrf::<T> as fn(T, Cartesian<T, ITRF<T>>) -> Dcm<T, ITRF<T>, ICRF<T>>),
        ("models", wt::icrf_to_itrf::<T>, wt::itrf_to_icrf::<T>),
    ] {
        m9(cx, &format!("{}_forward.{}", k, w), &md(&f(ta, o)), m1, tol);
        m9(cx, &format!("{}_back.{}", k, w), &md(&g(ta, o)), &tr(m1), tol);
        m9(cx, &format!("{}_forward2.{}", k, w), &md(&f(tab, o)), m2, tol);
        let mut chain = [0.0; 9];
        let (x, y) = (md(&f(tb, o)), md(&f(ta, o)));
        for i in 0..9 {
            chain[i] = (0..3).map(|j| x[3 * (i / 3) + j] * y[3 * j + i % 3]).sum();
        }
        m9(cx, &format!("{}_chain.{}", k, w), &chain, m2, tol);
        // the pair undoes itself on a vector
        let v = Cartesian::<T, ICRF<T>>::new(T::ONE, T::from_f64(-2.0), T::from_f64(3.0));
        let u = g(ta, o) * (f(ta, o) * v);
        vs(cx, &format!("{}_undo.{}", k, w), &[u.x().to_f64(), u.y().to_f64(), u.z().to_f64()], &[1.0, -2.0, 3.0], 10.0 * tol);
    }
}
fn air<T: Real>(cx: &Cx, w: &str) {
    let eps = T::EPSILON.to_f64();
    let v: Vec<f64> = (1..4).map(|k| cx.af(k) / 1e30).collect();
    let want = exp9(cx, 0);
    let tol = 20.0 * eps * (1.0 + v.iter().fold(0.0, |a: f64, x| a.max(x.abs())));
    let (a, b, c) = (T::from_f64(v[0]), T::from_f64(v[1]), T::from_f64(v[2]));
    match cx.i(0) {
        0 => m9(cx, &format!("wind.{}", w), &m_of(&ct::aircraft_wind_to_body(a, b)), &want, tol),
        1 => m9(cx, &format!("aeroballistic.{}", w), &m_of(&ct::aeroballistic_wind_to_body(a, b)), &want, tol),
        2 => m9(cx, &format!("flight_path.{}", w), &m_of(&ct::flight_path_to_geographic(a, b)), &want, tol),
        _ => {
            let d: Dcm<T, Body<T>, NED<T>> = ct::body_to_ned(a, b, c);
            let g = md(&d);
            // the rotation between body and NED axes, in either reading
            let ok = same(&g, &want, tol) || same(&g, &tr(&want), tol);
            cx.check(&format!("body_matrix.{}", w), ok, || format!("got {:?} want {:?} or its transpose", g, want));
            // the type says body -> NED
            let x = d * Cartesian::<T, Body<T>>::new(T::ONE, T::ZERO, T::ZERO);
            let x = [x.x().to_f64(), x.y().to_f64(), x.z().to_f64()];
            cx.check(&format!("body_to_ned_direction.{}", w), same(&x, &want[0..3], tol) || !ok, || format!("body x axis maps to {:?}, its north-east-down components are {:?}", x, &want[0..3]));
        }
    }
}
fn ned<T: Real>(cx: &Cx, w: &str) {
    let eps = T::EPSILON.to_f64();
    let (la, lo) = (cx.af(0) / 1e30, cx.af(1) / 1e30);
    let want = exp9(cx, 0);
    let tol = 20.0 * eps * (1.0 + la.abs().max(lo.abs()));
    let d: Dcm<T, ITRF<T>, NED<T>> = ct::itrf_to_ned(T::from_f64(la), T::from_f64(lo));
    m9(cx, &format!("matrix.{}", w), &md(&d), &want, tol);
}
impl Model for A03 {
    fn step(&mut self, op: &str, cx: &mut Cx) {
        let cx: &Cx = cx;
        let eps = f64::EPSILON;
        match op {
            "clock" => {
                let (d, t) = (cx.aq(0, 8.0), cx.aq(1, 8.0));
                let (we, wi) = (exp9(cx, 0), exp9(cx, 9));
                let tol = 40.0 * eps * (1.0 + 1e-4 * t.abs());
                for (k, e) in [("new", Earth::new()), ("default", Earth::default())] {
                    m9(cx, &format!("earth_{}_forward", k), &md(&e.icrf_to_itrf(t)), &we, tol);
                    m9(cx, &format!("earth_{}_back", k), &md(&e.itrf_to_icrf(t)), &tr(&we), tol);
                }
                // turning on from the previous orientation
                let e = Earth::new();
                let step: Dcm<f64, ITRF<f64>, ITRF<f64>> = Dcm::from_matrix(*e.icrf_to_itrf(d).as_matrix());
                let on: Dcm<f64, ICRF<f64>, ITRF<f64>> = step * self.earth;
                m9(cx, "earth_chain", &md(&on), &we, tol + 40.0 * eps * (1.0 + 1e-4 * (t - d).abs()) + 40.0 * eps * 1e-4 * d.abs());
                self.earth = Dcm::from_matrix(Matrix::new([[we[0], we[1], we[2]], [we[3], we[4], we[5]], [we[6], we[7], we[8]]]));
                for ep in [0.0, 1000.0, -345.5] {
                    let f = ITRF::<f64> { epoch: ep };
                    m9(cx, "itrf_orientation", &md(&Dcm::from(&f.orientation_at(t + ep))), &wi, tol + 1e-17 * ep.abs());
                    cx.eq_f("itrf_epoch", f.epoch(), ep);
                    let o = f.angular_velocity();
                    vs(cx, "itrf_rate", &[o.x(), o.y(), o.z()], &[0.0, 0.0, 7.2921150e-5], 1e-20);
                }
            }
            "rate" => {
                let (n, a, b) = (cx.aq(0, 1e9), cx.af(1), cx.af(2));
                let (m1, m2) = (exp9(cx, 0), exp9(cx, 9));
                rate_pair::<f64>(cx, "f64", n, a, b, &m1, &m2);
                rate_pair::<f32>(cx, "f32", n, a, b, &m1, &m2);
            }
            "ned" => {
                ned::<f64>(cx, "f64");
                ned::<f32>(cx, "f32");
                // the down axis is the inward ellipsoid normal of the site
                let (la, lo) = (cx.af(0) / 1e30, cx.af(1) / 1e30);
                let p = wt::geocentric_to_ecef(la, lo, 0.0);
                let q = wt::geocentric_to_ecef(la, lo, 1000.0);
                let d = ct::itrf_to_ned(la, lo) * (q - p);
                vs(cx, "up", &[d.x(), d.y(), d.z()], &[0.0, 0.0, -1000.0], 1e-6);
            }
            "air" => {
                air::<f64>(cx, "f64");
                air::<f32>(cx, "f32");
            }
            "skew" => {
                let v: Vec<f64> = (0..6).map(|k| cx.af(k)).collect();
                let g = ct::angular_rate_dcm(v[0], v[1], v[2]) * Vector::new([v[3], v[4], v[5]]);
                vs(cx, "cross", &g.data, &[cx.xf(0), cx.xf(1), cx.xf(2)], 0.0);
            }
            "epoch" => {
                self.ori = exp9(cx, 0);
                let o = &self.ori;
                let d = Dcm::new(o[0], o[1], o[2], o[3], o[4], o[5], o[6], o[7], o[8]);
                self.moon = Moon::with_epoch_orientation(cx.af(0), d);
                m9(cx, "icrf_to_lirf", &md(&self.moon.icrf_to_lirf()), o, 1e-15);
                m9(cx, "lirf_to_icrf", &md(&self.moon.lirf_to_icrf()), &tr(o), 1e-15);
            }
            "lunar" => {
                let t = cx.af(0);
                let (rot, full, free) = (exp9(cx, 0), exp9(cx, 9), exp9(cx, 18));
                let m = &self.moon;
                let dt = t - m.epoch_time;
                let tol = 40.0 * eps * (1.0 + 1e-5 * t.abs() + 1e-5 * dt.abs());
                self.moon_pair(cx, "moon", m, t, &rot, &full, tol);
                m9(cx, "lirf_to_ltrf", &md(&lt::lirf_to_ltrf(t)), &free, tol);
                m9(cx, "ltrf_to_lirf", &md(&lt::ltrf_to_lirf(t)), &tr(&free), tol);
                m9(cx, "icrf_to_ltrf", &md(&lt::icrf_to_ltrf(t)), &free, tol);
                m9(cx, "ltrf_to_icrf", &md(&lt::ltrf_to_icrf(t)), &tr(&free), tol);
                m9(cx, "icrf_to_lirf", &md(&lt::icrf_to_lirf()), &I9, 0.0);
                m9(cx, "lirf_to_icrf", &md(&lt::lirf_to_icrf()), &I9, 0.0);
                m9(cx, "icrf_to_ltrf_at_epoch", &md(&lt::icrf_to_ltrf_at_epoch(dt, m.icrf_to_lirf_at_epoch)), &full, tol);
                m9(cx, "ltrf_to_icrf_at_epoch", &md(&lt::ltrf_to_icrf_at_epoch(dt, m.icrf_to_lirf_at_epoch)), &tr(&full), tol);
            }
            "spin" => {
                let (n, t) = (cx.aq(0, 1e9), cx.af(1));
                let m = Moon { rotational_rate_rad_s: n, ..self.moon.clone() };
                let tol = 40.0 * eps * (1.0 + (n * (t - m.epoch_time)).abs());
                self.moon_pair(cx, "rate", &m, t, &exp9(cx, 0), &exp9(cx, 9), tol);
            }
            _ => bad("op"),
        }
    }
}
impl A03 {
    fn moon_pair(&self, cx: &Cx, k: &str, m: &Moon, t: f64, rot: &M9, full: &M9, tol: f64) {
        m9(cx, &format!("{}_lirf_to_ltrf", k), &md(&m.lirf_to_ltrf(t)), rot, tol);
        m9(cx, &format!("{}_ltrf_to_lirf", k), &md(&m.ltrf_to_lirf(t)), &tr(rot), tol);
        m9(cx, &format!("{}_icrf_to_ltrf", k), &md(&m.icrf_to_ltrf(t)), full, tol);
        m9(cx, &format!("{}_ltrf_to_icrf", k), &md(&m.ltrf_to_icrf(t)), &tr(full), tol);
    }
}
