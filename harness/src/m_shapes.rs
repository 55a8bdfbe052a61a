//! P01 on aether_shapes, P02 on aether_fluids.
use crate::util::*;
use aether_core::attitude::DirectionCosineMatrix;
use aether_core::coordinate::Cartesian;
use aether_core::math::{Matrix, Vector};
use aether_core::real::Real;
use aether_core::reference_frame::{Assembly, Pose};
use aether_shapes::attributes::{MassModel, MassProps, Solid, SolidOps};
use aether_shapes::{cylinder::Cylinder, prism::RectangularPrism, sphere::Sphere};

#[derive(Clone)]
struct B {
    k: i128,
    d: [f64; 3],
    rho: f64,
    rot: [[f64; 3]; 3],
    r: [f64; 3],
}
fn body(cx: &Cx, o: usize) -> B {
    let q = [cx.af(o + 5), cx.af(o + 6), cx.af(o + 7), cx.af(o + 8)];
    let [w, x, y, z] = q;
    let n = w * w + x * x + y * y + z * z;
    let m = [
        [w * w + x * x - y * y - z * z, 2.0 * (x * y - w * z), 2.0 * (x * z + w * y)],
        [2.0 * (x * y + w * z), w * w - x * x + y * y - z * z, 2.0 * (y * z - w * x)],
        [2.0 * (x * z - w * y), 2.0 * (y * z + w * x), w * w - x * x - y * y + z * z],
    ];
    B { k: cx.i(o), d: [cx.af(o + 1) / 16.0, cx.af(o + 2) / 16.0, cx.af(o + 3) / 16.0], rho: cx.af(o + 4) / 8.0, rot: m.map(|r| r.map(|v| v / n)), r: [cx.af(o + 9) / 8.0, cx.af(o + 10) / 8.0, cx.af(o + 11) / 8.0] }
}
/// calls the real shape types directly (each is its own type)
macro_rules! with {
    ($b:expr, $t:ty, $s:ident, $body:expr) => {{
        let f = |v: f64| v as $t;
        match $b.k {
            0 => { let $s = Sphere::<$t> { r: f($b.d[0]) }; $body }
            1 => { let $s = Cylinder::<$t> { r: f($b.d[0]), h: f($b.d[1]) }; $body }
            _ => { let $s = RectangularPrism::<$t> { a: f($b.d[0]), b: f($b.d[1]), c: f($b.d[2]) }; $body }
        }
    }};
}
fn mm<T: Real, S: Solid<T>>(s: S, b: &B) -> MassModel<T, S> {
    let f = |v: f64| T::from_f64(v);
    let p = Pose {
        R_local_to_assembly: DirectionCosineMatrix::from_matrix(Matrix::new(b.rot.map(|r| r.map(f)))),
        r_cm_in_assembly: Cartesian::<T, Assembly<T>>::new(f(b.r[0]), f(b.r[1]), f(b.r[2])),
    };
    MassModel::new(s, f(b.rho), p)
}
fn props<T: Real, S: Solid<T> + Copy, U: Solid<T> + Copy>(cx: &Cx, op: &str, s: S, a: &B, u: U, b: &B, tag: &str, eps: f64, to: fn(T) -> f64) {
    let f = |v: f64| T::from_f64(v);
    let m = |b: &B| Matrix::<T, 3, 3>::new(b.rot.map(|r| r.map(f)));
    let v = |b: &B| Vector::<T, 3>::new(b.r.map(f));
    let join = op == "join";
    let x: Option<MassProps<T>> = if join { mm(s, a) + mm(u, b) } else { mm(s, a) - mm(u, b) };
    let y = if join { s.add_with(&u, f(a.rho), f(b.rho), m(a), v(a), m(b), v(b)) } else { s.subtract_with(&u, f(a.rho), f(b.rho), m(a), v(a), m(b), v(b)) };
    let e = |k: usize| cx.xf(k) / 1e30;
    for (form, p) in [("operator", x), ("matrix_form", y)] {
        let k = |w: &str| format!("{}/{}.{}{}", op, w, form, tag);
        match cx.x(0) {
            -1 => {}
            0 => cx.check(&k("impossible_is_none"), p.is_none(), || format!("got {:?}", p.map(|p| (to(p.mass), to(p.volume))))),
            _ => {
                let Some(p) = p else { cx.fail(&k("possible_is_some"), "None".into()); continue };
                let n2 = |b: &B| b.r.iter().map(|t| t * t).sum::<f64>();
                let big = |b: &B| b.d.iter().map(|t| t.abs()).fold(0.0, f64::max);
                let mass = e(2);
                let (va, vb) = (to(s.volume()), to(u.volume()));
                let (ma, mb) = (va * a.rho, vb * b.rho);
                let am = ma.abs() + mb.abs();
                let amp = am / mass.abs();
                let rr = n2(a).max(n2(b));
                cx.near(&k("volume"), to(p.volume), e(1), eps * (va + vb), 0.0);
                cx.near(&k("mass"), to(p.mass), mass, eps * am, 0.0);
                cx.near(&k("density"), to(p.density), mass / e(1), eps * (amp + (va + vb) / e(1)) * (mass / e(1)).abs(), 0.0);
                let ct = eps * amp * amp * (1e-30 + rr.sqrt());
                for i in 0..3 {
                    cx.near(&k("centre_of_mass"), to(p.com[i]), e(3 + i), 4.0 * ct, 0.0);
                }
                let c2: f64 = (0..3).map(|i| e(3 + i) * e(3 + i)).sum::<f64>();
                let it = 4.0 * eps * (am * (rr + big(a).powi(2) + big(b).powi(2)) + amp * amp * am * (c2 + rr));
                for (i, (r, c)) in [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)].iter().enumerate() {
                    cx.near(&k("inertia"), to(p.inertia_cm[(*r, *c)]), e(6 + i), it, 0.0);
                    cx.near(&k("inertia"), to(p.inertia_cm[(*c, *r)]), e(6 + i), it, 0.0);
                }
            }
        }
    }
}
struct P01;
pub fn p01() -> Box<dyn Model> {
    Box::new(P01)
}
impl Model for P01 {
    fn step(&mut self, op: &str, cx: &mut Cx) {
        let cx = &*cx;
        match op {
            "nop" => {}
            "join" | "cut" => {
                let (a, b) = (body(cx, 0), body(cx, 12));
                with!(a, f64, s, with!(b, f64, u, props::<f64, _, _>(cx, op, s, &a, u, &b, ".f64", 3e-15, |v| v)));
                with!(a, f32, s, with!(b, f32, u, props::<f32, _, _>(cx, op, s, &a, u, &b, ".f32", 1.5e-6, |v| v as f64)));
            }
            _ => bad(op),
        }
    }
}
