//! G03 on aether_models::terrestrial::atmospheres.
use crate::util::*;
use aether_models::terrestrial::atmospheres::{isa::ISA, ussa::USSA};
use aether_models::terrestrial::earth::Earth;

pub fn g03() -> Box<dyn Model> {
    Box::new(G03)
}
struct G03;
const G: f64 = 9.80665;
fn refused<T: std::fmt::Debug, E>(cx: &Cx, k: &str, f: impl FnOnce() -> Result<T, E>) {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(Ok(v)) => cx.fail(k, format!("value {:?} outside the tabulated range", v)),
        Ok(Err(_)) => {}
        Err(_) => cx.fail(k, "panics outside the tabulated range".into()),
    }
}
impl Model for G03 {
    fn step(&mut self, op: &str, cx: &mut Cx) {
        let cx = &*cx;
        let us = USSA::new();
        match op {
            "ussa" => {
                let h = cx.af(0) / 1000.0;
                let (below, node) = (cx.x(0) == 1, cx.x(4) == 1);
                let t = us.temperature(h).map_err(|e| format!("{e:?}"));
                let p = us.pressure(h);
                let (Ok(t), Ok(p)) = (&t, &p) else {
                    cx.fail("ussa/defined", format!("temperature {:?} pressure {:?} inside the table", t, p));
                    return;
                };
                let (t, p) = (*t, *p);
                cx.near("ussa/temperature", t, cx.xf(1) / 1e30, 6e-3, 0.0);
                if below {
                    cx.near("ussa/pressure", p, cx.xf(2) / 1e30, 0.0, 1.2e-4);
                } else {
                    let (a, b) = (cx.xf(2) / 1e30, cx.xf(3) / 1e30);
                    if node {
                        let d = (p / a - 1.0).abs().min((p / b - 1.0).abs());
                        cx.check("ussa/upper_base", d < 1e-3, || format!("pressure {p:e} at a tabulated base, table {a:e}/{b:e}"));
                    }
                    cx.check("ussa/upper_pressure", p <= a * 1.001 && p >= b * 0.999, || format!("pressure {p:e} outside its layer's [{b:e}, {a:e}]"));
                }
                let r = 8314.32 / 28.9644;
                let rho = us.density(h).unwrap_or(f64::NAN);
                let a = us.speed_of_sound(h).unwrap_or(f64::NAN);
                let mu = us.dynamic_viscosity(h).unwrap_or(f64::NAN);
                cx.near("ussa/density", rho, p / (r * t), 0.0, 1e-12);
                cx.near("ussa/speed_of_sound", a, (1.4 * r * t).sqrt(), 0.0, 1e-12);
                cx.near("ussa/viscosity", mu, 1.458e-6 * t * t.sqrt() / (t + 110.4), 0.0, 1e-12);
                let e = Earth::new();
                let g = |x: Result<f64, &'static str>| x.unwrap_or(f64::NAN);
                let ok = g(e.get_temperature(h)) == t && g(e.get_pressure(h)) == p && g(e.get_density(h)) == rho && g(e.get_speed_of_sound(h)) == a;
                cx.check("ussa/earth", ok, || "Earth's atmosphere differs from its USSA model".into());
            }
            "isa" => {
                let z = cx.af(0) / 1000.0;
                let m = ISA::new();
                let t = m.temperature(z).unwrap_or(f64::NAN);
                let p = m.pressure(z).unwrap_or(f64::NAN);
                let rho = m.density(z).unwrap_or(f64::NAN);
                cx.near("isa/temperature", t, cx.xf(0) / 1e30, 1e-9, 0.0);
                cx.near("isa/pressure", p, cx.xf(1) / 1e30, 0.0, 2e-5);
                cx.near("isa/density", rho, p / (287.05287 * t), 0.0, 1e-6);
            }
            "climb" => {
                let (a, b) = (cx.af(0) / 1000.0, cx.af(1) / 1000.0);
                let f = |h: f64| us.pressure(h).unwrap_or(f64::NAN);
                let (p, q) = (f(a), f(b));
                cx.check("climb/pressure", q <= p * (1.0 + 1e-4), || format!("pressure rises from {p:e} at {a} m to {q:e} at {b} m"));
                // over the whole range the scale height R T / g stays above 5 km
                if b - a < 1.5 {
                    cx.check("climb/continuous", q >= p * (1.0 - 4e-4), || format!("pressure falls from {p:e} at {a} m to {q:e} at {b} m"));
                }
            }
            "join" => {
                let z = cx.af(1);
                let d = z * 1e-12 + 1e-9;
                let m = ISA::new();
                let f = |h: f64| -> [f64; 3] {
                    if cx.i(0) == 1 {
                        [us.temperature(h).unwrap_or(f64::NAN), us.pressure(h).unwrap_or(f64::NAN), us.density(h).unwrap_or(f64::NAN)]
                    } else {
                        [m.temperature(h).unwrap_or(f64::NAN), m.pressure(h).unwrap_or(f64::NAN), m.density(h).unwrap_or(f64::NAN)]
                    }
                };
                let (lo, hi) = (f(z - d), f(z + d));
                // rounding of the tabulated bases: metres of altitude and five digits of pressure
                // (at 86 km kinetic and molecular-scale temperature differ by 0.04 %)
                let (tt, pt) = if cx.i(0) == 1 { (if z == 86000.0 { 0.09 } else { 6e-3 }, 4e-4) } else { (1e-6, 2e-5) };
                let k = if cx.i(0) == 1 { "join/ussa" } else { "join/isa" };
                cx.near(&format!("{k}_temperature"), lo[0], hi[0], tt, 0.0);
                cx.near(&format!("{k}_pressure"), lo[1], hi[1], 0.0, pt);
                cx.near(&format!("{k}_density"), lo[2], hi[2], 0.0, pt + tt / hi[0] + 1e-6);
            }
            "alts" => {
                let z = cx.af(0) / 1000.0;
                let m = ISA::new();
                cx.near("alts/geopotential", m.geopotential_altitude(z), cx.xf(0) / 1e6, 2e-6, 1e-14);
                cx.near("alts/geometric", m.geometric_altitude(z), cx.xf(1) / 1e6, 2e-6, 1e-14);
                cx.near("alts/inverse", m.geometric_altitude(m.geopotential_altitude(z)), z, 0.0, 1e-13);
                cx.near("alts/inverse", m.geopotential_altitude(m.geometric_altitude(z)), z, 0.0, 1e-13);
                cx.near("alts/gravity", ISA::gravity(z), cx.xf(2) / 1e30, 0.0, 1e-14);
            }
            "outside" => {
                let over = cx.af(1) / 1000.0;
                let h = match cx.i(0) {
                    0 => f64::NAN,
                    1 => f64::INFINITY,
                    2 => 1e6 + 0.001,
                    _ => 1e6 + over,
                };
                refused(cx, "outside/ussa", || us.temperature(h).map_err(|_| ()));
                refused(cx, "outside/ussa", || us.pressure(h));
                refused(cx, "outside/ussa", || us.density(h));
                refused(cx, "outside/ussa", || us.speed_of_sound(h));
                refused(cx, "outside/ussa", || us.dynamic_viscosity(h));
                let e = Earth::new();
                refused(cx, "outside/earth", || e.get_temperature(h));
                refused(cx, "outside/earth", || e.get_pressure(h));
                refused(cx, "outside/earth", || e.get_density(h));
                refused(cx, "outside/earth", || e.get_speed_of_sound(h));
                let m = ISA::new();
                let z = match cx.i(0) {
                    0 => f64::NAN,
                    1 => f64::INFINITY,
                    2 => 80000.001,
                    _ => 80000.0 + over,
                };
                refused(cx, "outside/isa", || m.temperature(z));
                refused(cx, "outside/isa", || m.pressure(z));
                refused(cx, "outside/isa", || m.density(z));
            }
            _ => bad("op"),
        }
    }
}
