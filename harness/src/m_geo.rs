//! G01, G02 on aether_models (geodesy, gravity, frame forces).
use crate::util::*;
use aether_core::coordinate::Cartesian;
use aether_core::real::Real;
use aether_core::reference_frame::ITRF;
use aether_models::terrestrial::earth::Earth;
use aether_models::terrestrial::wgs84::transforms::{ecef_to_geocentric, ecef_to_geocentric_ferrari, geocentric_to_ecef};

use aether_core::math::Matrix;
use aether_core::reference_frame::ICRF;
use aether_models::lunar::{moon::Moon, orbit::MoonOrbitAroundEarth};
use aether_models::terrestrial::wgs84::gravity::{gravity_ellipsoidal, gravity_normal, gravity_rectangular};

pub fn g02() -> Box<dyn Model> {
    Box::new(G02)
}
struct G02;
type C = Cartesian<f64, ITRF<f64>>;
fn c3(cx: &Cx, k: &str, got: [f64; 3], want: [f64; 3], tol: f64) {
    for i in 0..3 {
        cx.near(k, got[i], want[i], tol, 0.0);
    }
}
fn xyz<RF: aether_core::reference_frame::ReferenceFrame>(c: &Cartesian<f64, RF>) -> [f64; 3] {
    [c.x(), c.y(), c.z()]
}
fn n3(v: [f64; 3]) -> f64 {
    (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt()
}
impl Model for G02 {
    fn step(&mut self, op: &str, cx: &mut Cx) {
        let cx = &*cx;
        let e3 = |k: usize| [cx.xf(k) / 1e30, cx.xf(k + 1) / 1e30, cx.xf(k + 2) / 1e30];
        match op {
            "nop" => {}
            "grav" => {
                let m = cx.af(0) / 1000.0;
                let p = e3(0);
                let want = e3(3);
                let g = xyz(&gravity_rectangular(p[0], p[1], p[2]));
                c3(cx, "grav/rectangular", g, want, 1e-8);
                let ge = gravity_ellipsoidal(p[0], p[1], p[2]);
                c3(cx, "grav/ellipsoidal", [ge[0], ge[1], ge[2]], [cx.xf(6) / 1e30, cx.xf(7) / 1e30, 0.0], 1e-8);
                let f = xyz(&Earth::new().solve_gravitational_force(C::new(p[0], p[1], p[2]), m));
                c3(cx, "grav/force", f, [want[0] * m, want[1] * m, want[2] * m], 1e-8 * m);
            }
            "normal" => cx.near("normal/somigliana", gravity_normal(cx.af(0) / 1e15), cx.xf(0) / 1e30, 1e-14, 0.0),
            "forces" => {
                let m = cx.af(0) / 1000.0;
                let v3 = |k: usize, s: f64| [cx.af(k) / s, cx.af(k + 1) / s, cx.af(k + 2) / s];
                let (w, r, v) = (v3(1, 1e9), v3(4, 1.0), v3(7, 1e3));
                let mut e = Earth::new();
                e.rotational_velocity = C::new(w[0], w[1], w[2]);
                let q = |k: usize, s: f64| [cx.xf(k) / s, cx.xf(k + 1) / s, cx.xf(k + 2) / s];
                c3(cx, "forces/coriolis", xyz(&e.solve_coriolis_force(C::new(v[0], v[1], v[2]), m)), q(0, 1e15), 1e-14 * m * n3(w) * n3(v));
                c3(cx, "forces/centrifugal", xyz(&e.solve_centrifugal_force(C::new(r[0], r[1], r[2]), m)), q(3, 1e21), 1e-14 * m * n3(w) * n3(w) * n3(r));
            }
            "torque" => {
                let moon = cx.i(0) == 1;
                let mu = cx.af(1);
                let m = cx.af(2) / 1000.0;
                let r = [cx.af(3), cx.af(4), cx.af(5)];
                let im = Matrix::new([[cx.af(6), cx.af(7), cx.af(8)], [cx.af(9), cx.af(10), cx.af(11)], [cx.af(12), cx.af(13), cx.af(14)]]);
                let tq = e3(0);
                let tol = 1e-14 * cx.xf(6) / 1e30;
                if moon {
                    let mut o = Moon::new();
                    o.gravitational_constant = mu;
                    let p = Cartesian::<f64, ICRF<f64>>::new(r[0], r[1], r[2]);
                    c3(cx, "torque/moon", xyz(&o.solve_gravitational_torque(p, im)), tq, tol);
                    let g = e3(3);
                    c3(cx, "torque/moon_gravity", xyz(&o.gravitational_acceleration(p)), g, 1e-14 * n3(g));
                    c3(cx, "torque/moon_force", xyz(&o.solve_gravitational_force(p, m)), [g[0] * m, g[1] * m, g[2] * m], 1e-14 * n3(g) * m);
                } else {
                    c3(cx, "torque/earth", xyz(&Earth::new().solve_gravitational_torque(C::new(r[0], r[1], r[2]), im)), tq, tol);
                }
            }
            "centre" => {
                let o = Moon::new();
                let z = Cartesian::<f64, ICRF<f64>>::zero();
                for g in [o.gravitational_acceleration(z), o.solve_gravitational_force(z, 5.0), o.solve_gravitational_torque(z, Matrix::new([[2.0, 1.0, 0.0], [1.0, 3.0, 0.0], [0.0, 0.0, 4.0]]))] {
                    cx.check("centre/zero", xyz(&g) == [0.0; 3], || format!("{:?} at the centre", xyz(&g)));
                }
                let e = Earth::new();
                cx.near("centre/mass", e.mass * 6.67428e-11, 3.986004418e14, 0.0, 1e-14);
                cx.near("centre/moon_mass", o.mass * 6.67428e-11, 4.902800118e12, 0.0, 1e-14);
                cx.near("centre/rate", e.rotational_velocity.z(), 7.2921151467e-5, 0.0, 1e-9);
                cx.near("centre/moon_rate", o.rotational_rate_rad_s, std::f64::consts::TAU / (27.321661 * 86400.0), 0.0, 1e-14);
            }
            "orbit" => {
                let mut o = MoonOrbitAroundEarth::new();
                if cx.i(0) == 0 {
                    o.semi_major_axis_m = cx.af(1);
                    o.mu_earth_m3_s2 = cx.af(2);
                    o.mu_moon_m3_s2 = cx.af(3);
                }
                cx.near("orbit/mu", o.mu_total_m3_s2(), cx.af(2) + cx.af(3), 0.0, 1e-14);
                cx.near("orbit/kepler", o.keplerian_period_s(), cx.xf(1) / 1e30, 0.0, 1e-14);
                o.sidereal_period_s = cx.af(4);
                cx.near("orbit/mean_motion", o.mean_motion_rad_s(), cx.xf(0) / 1e30, 0.0, 1e-14);
            }
            _ => bad("op"),
        }
    }
}

pub fn g01() -> Box<dyn Model> {
    Box::new(G01)
}
struct G01;
const A: f64 = 6378137.0;
fn wrap(d: f64) -> f64 {
    let t = d.rem_euclid(std::f64::consts::TAU);
    if t > std::f64::consts::PI {
        t - std::f64::consts::TAU
    } else {
        t
    }
}
/// compares a returned (latitude, longitude, height); distances in metres
fn lla(cx: &Cx, k: &str, got: [f64; 3], want: [f64; 3], tol: f64) {
    let r = A + want[2].abs();
    cx.near(&format!("{k}/height"), got[2], want[2], tol, 0.0);
    // compare latitude and longitude as arcs on the surface
    cx.near(&format!("{k}/latitude"), got[0], want[0], tol / A.min(r) + 1e-15, 0.0);
    let c = want[0].cos().abs();
    cx.check(&format!("{k}/longitude"), (wrap(got[1] - want[1]) * c * A).abs() <= tol + 1e-15 * A * c, || format!("got {:?} want {:?}", got[1], want[1]));
    cx.check(&format!("{k}/range"), got[0].abs() <= std::f64::consts::FRAC_PI_2 + 1e-6 && got[1].abs() <= std::f64::consts::PI + 1e-6, || format!("latitude/longitude out of range: {:?}", got));
}
fn conv<T: Real>(cx: &Cx, sf: &str, la: f64, lo: f64, h: f64, want: [f64; 3]) {
    let eps = T::EPSILON.to_f64();
    let f = |x: f64| T::from_f64(x);
    let g = geocentric_to_ecef(f(la), f(lo), f(h));
    let big = A + h.abs();
    for (i, v) in [g.x(), g.y(), g.z()].iter().enumerate() {
        cx.near(&format!("pos/forward{sf}"), v.to_f64(), want[i], 8.0 * eps * big, 0.0);
    }
    let (x, y, z) = (f(want[0]), f(want[1]), f(want[2]));
    // the stored semi-minor axis is rounded to 0.1 mm
    let vec = |v: aether_core::math::Vector<T, 3>| [v[0].to_f64(), v[1].to_f64(), v[2].to_f64()];
    lla(cx, &format!("pos/iterative{sf}"), vec(ecef_to_geocentric(x, y, z)), [la, lo, h], 16.0 * eps * big);
    lla(cx, &format!("pos/ferrari{sf}"), vec(ecef_to_geocentric_ferrari(x, y, z)), [la, lo, h], 1e-4 + 64.0 * eps * big);
}
impl Model for G01 {
    fn step(&mut self, op: &str, cx: &mut Cx) {
        let cx = &*cx;
        match op {
            "pos" => {
                let (la, lo, h) = (cx.af(0) / 1e15, cx.af(1) / 1e15, cx.af(2) / 1e3);
                let want = [cx.xf(0) / 1e30, cx.xf(1) / 1e30, cx.xf(2) / 1e30];
                conv::<f64>(cx, ".f64", la, lo, h, want);
                conv::<f32>(cx, ".f32", la, lo, h, want);
                let e = Earth::new();
                let p = e.geocentric_to_ecef(la, lo, h);
                for (i, v) in [p.x(), p.y(), p.z()].iter().enumerate() {
                    cx.near("pos/earth_forward", *v, want[i], 1e-15 * 16.0 * (A + h.abs()), 0.0);
                }
                let big = A + h.abs();
                let (u, v) = (e.ecef_to_geocentric(want[0], want[1], want[2]), e.ecef_to_geocentric_ferrari(want[0], want[1], want[2]));
                lla(cx, "pos/earth_iterative", [u[0], u[1], u[2]], [la, lo, h], 4e-15 * big);
                lla(cx, "pos/earth_ferrari", [v[0], v[1], v[2]], [la, lo, h], 1e-4 + 4e-15 * big);
            }
            "axis" => {
                let sg = if cx.i(0) == 0 { 1.0 } else { -1.0 };
                let z = cx.xf(0) / 1e30 * sg;
                let h = cx.af(1) / 1e3;
                let want = [sg * std::f64::consts::FRAC_PI_2, 0.0, h];
                for (k, v) in [("axis/iterative", ecef_to_geocentric(0.0, 0.0, z)), ("axis/ferrari", ecef_to_geocentric_ferrari(0.0, 0.0, z))] {
                    cx.near(&format!("{k}_latitude"), v[0], want[0], 1e-11, 0.0);
                    cx.near(&format!("{k}_height"), v[2], want[2], 1e-4, 0.0);
                    cx.check(&format!("{k}_longitude"), v[1].abs() <= std::f64::consts::PI, || format!("longitude {:?}", v[1]));
                }
            }
            _ => bad("op"),
        }
    }
}
