//! A01 on aether_core::attitude: quaternion, direction cosine matrix, Euler angles and Rotation side by side.
use crate::lin_util::{mat, vecn};
use crate::util::*;
use aether_core::attitude::{DirectionCosineMatrix as Dcm, Euler, Quaternion, Rotation};
use aether_core::coordinate::Cartesian;
use aether_core::math::{Matrix, Vector};
use aether_core::real::Real;
use aether_core::reference_frame::ReferenceFrame;
use aether_core::utils::angle_conversion::{ToDegrees, ToRadians};

#[derive(Debug, Clone, Copy, PartialEq, Default)]
struct Fa;
#[derive(Debug, Clone, Copy, PartialEq, Default)]
struct Fb;
#[derive(Debug, Clone, Copy, PartialEq, Default)]
struct Fc;
impl ReferenceFrame for Fa {}
impl ReferenceFrame for Fb {}
impl ReferenceFrame for Fc {}

pub fn a01() -> Box<dyn Model> {
    Box::new(A01 { d: Att::<f64>::new("f64"), s: Att::<f32>::new("f32") })
}
struct A01 {
    d: Att<f64>,
    s: Att<f32>,
}
impl Model for A01 {
    fn step(&mut self, op: &str, cx: &mut Cx) {
        self.d.step(op, cx);
        self.s.step(op, cx);
    }
}
struct Att<T: Real> {
    w: &'static str,
    q: [f64; 4],
    m: [f64; 9],
    _t: std::marker::PhantomData<T>,
}
fn f<T: Real>(x: T) -> f64 {
    x.to_f64()
}
fn quat<T: Real, A: ReferenceFrame, B: ReferenceFrame>(q: &[f64; 4]) -> Quaternion<T, A, B> {
    Quaternion::new(T::from_f64(q[0]), T::from_f64(q[1]), T::from_f64(q[2]), T::from_f64(q[3]))
}
fn qd<T: Real, A: ReferenceFrame, B: ReferenceFrame>(q: &Quaternion<T, A, B>) -> [f64; 4] {
    [f(q.w()), f(q.i()), f(q.j()), f(q.k())]
}
/// passive rotation matrix of any non-zero quaternion
fn dcm_of(q: &[f64; 4]) -> [f64; 9] {
    let n = q.iter().map(|x| x * x).sum::<f64>();
    let [w, x, y, z] = *q;
    [
        (w * w + x * x - y * y - z * z) / n,
        2.0 * (x * y + w * z) / n,
        2.0 * (x * z - w * y) / n,
        2.0 * (x * y - w * z) / n,
        (w * w - x * x + y * y - z * z) / n,
        2.0 * (y * z + w * x) / n,
        2.0 * (x * z + w * y) / n,
        2.0 * (y * z - w * x) / n,
        (w * w - x * x - y * y + z * z) / n,
    ]
}
fn tr(m: &[f64; 9]) -> [f64; 9] {
    let mut o = [0.0; 9];
    for i in 0..3 {
        for j in 0..3 {
            o[3 * i + j] = m[3 * j + i];
        }
    }
    o
}
fn md<T: Real, A: ReferenceFrame, B: ReferenceFrame>(d: &Dcm<T, A, B>) -> [f64; 9] {
    let mut o = [0.0; 9];
    for i in 0..3 {
        for j in 0..3 {
            o[3 * i + j] = f(d.as_matrix().data[i][j]);
        }
    }
    o
}
impl<T> Att<T>
where
    T: Real + Default + ToRadians<Output = T> + ToDegrees<Output = T> + 'static,
{
    fn new(w: &'static str) -> Self {
        Att { w, q: [1.0, 0.0, 0.0, 0.0], m: [1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0], _t: Default::default() }
    }
    fn tol(&self) -> f64 {
        200.0 * f(T::EPSILON)
    }
    fn lock_tol(&self, m: &[f64; 9]) -> f64 {
        // Euler angles lose digits as cos(pitch) shrinks; at the pole one angle is chosen by convention
        let c = (1.0 - m[2] * m[2]).max(0.0).sqrt();
        let e = f(T::EPSILON);
        let s = e.sqrt();
        if c < 100.0 * s {
            40.0 * s
        } else {
            100.0 * e / c
        }
    }
    fn m9(&self, cx: &Cx, k: &str, got: &[f64; 9], want: &[f64; 9], tol: f64) {
        for i in 0..9 {
            if !((got[i] - want[i]).abs() <= tol) {
                cx.fail(&format!("{}.{}", k, self.w), format!("[{},{}] got {:e} want {:e} tol {:e}", i / 3, i % 3, got[i], want[i], tol));
                return;
            }
        }
    }
    fn vs(&self, cx: &Cx, k: &str, got: &[T], want: &[f64], tol: f64) {
        for i in 0..want.len() {
            if !((f(got[i]) - want[i]).abs() <= tol) {
                cx.fail(&format!("{}.{}", k, self.w), format!("[{}] got {:e} want {:e} tol {:e}", i, f(got[i]), want[i], tol));
                return;
            }
        }
    }
    fn quat_ok<A: ReferenceFrame, B: ReferenceFrame>(&self, cx: &Cx, k: &str, q: &Quaternion<T, A, B>, want: &[f64; 9], tol: f64) {
        let c = qd(q);
        let n = c.iter().map(|x| x * x).sum::<f64>();
        if !((n - 1.0).abs() <= tol.max(self.tol())) {
            cx.fail(&format!("{}_norm.{}", k, self.w), format!("|q|^2 = {}", n));
        }
        self.m9(cx, k, &dcm_of(&c), want, tol);
    }
    fn load(&self, cx: &Cx, off: usize) -> ([f64; 4], [f64; 9]) {
        let mut q = [0.0; 4];
        let mut m = [0.0; 9];
        for i in 0..4 {
            q[i] = cx.xf(off + i) / 1e30;
        }
        for i in 0..9 {
            m[i] = cx.xf(off + 4 + i) / 1e30;
        }
        (q, m)
    }
    fn q(&self) -> Quaternion<T, Fa, Fb> {
        quat(&self.q)
    }
    fn d(&self) -> Dcm<T, Fa, Fb> {
        Dcm::from_matrix(mat(&self.m))
    }
    fn iq<A: ReferenceFrame, B: ReferenceFrame>(cx: &Cx) -> Quaternion<T, A, B> {
        quat(&[cx.af(0), cx.af(1), cx.af(2), cx.af(3)])
    }
    fn step(&mut self, op: &str, cx: &Cx) {
        let t = self.tol();
        match op {
            "set" => {
                let (q, m) = self.load(cx, 0);
                let g: Quaternion<T, Fa, Fb> = Self::iq(cx);
                let n = g.normalized();
                self.vs(cx, "normalized", &n.data.data, &q, t);
                self.quat_ok(cx, "quat", &n, &m, t);
                let sum = cx.af(0) * cx.af(0) + cx.af(1) * cx.af(1) + cx.af(2) * cx.af(2) + cx.af(3) * cx.af(3);
                self.vs(cx, "norm2", &[g.norm2(), g.norm(), g.dot(&g)], &[sum, sum.sqrt(), sum], t * sum);
                self.m9(cx, "to_dcm", &md(&g.to_dcm()), &m, t);
                self.m9(cx, "inverse", &md(&g.inverse().to_dcm()), &tr(&m), t);
                self.m9(cx, "conjugate", &md(&g.conjugate().to_dcm()), &tr(&m), t);
                let inv = g.inverse();
                let one = qd(&(&inv * &g));
                self.vs(cx, "inverse_product", &[inv.w(), inv.i(), inv.j(), inv.k()], &[cx.af(0) / sum, -cx.af(1) / sum, -cx.af(2) / sum, -cx.af(3) / sum], t);
                self.m9(cx, "inverse_identity", &dcm_of(&one), &[1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0], t);
                self.quat_ok(cx, "rotation_from", Rotation::from(&g).quaternion(), &m, t);
                let id = Quaternion::<T, Fa, Fb>::identity();
                self.vs(cx, "identity", &id.data.data, &[1.0, 0.0, 0.0, 0.0], 0.0);
                let p = Quaternion::<T, Fa, Fb>::from_parts(g.w(), Cartesian::new(g.i(), g.j(), g.k()));
                self.vs(cx, "from_parts", &p.data.data, &[cx.af(0), cx.af(1), cx.af(2), cx.af(3)], 0.0);
                self.q = q;
                self.m = m;
            }
            "compose" => {
                let (q, m) = self.load(cx, 0);
                let r: Quaternion<T, Fb, Fc> = Self::iq::<Fb, Fc>(cx).normalized();
                let a = self.q();
                let p: Quaternion<T, Fa, Fc> = r * a;
                self.quat_ok(cx, "quat", &p, &m, t);
                self.quat_ok(cx, "quat_ref", &(&r * &a), &m, t);
                let rd: Dcm<T, Fb, Fc> = Dcm::from(&r);
                let d: Dcm<T, Fa, Fc> = rd * self.d();
                self.m9(cx, "dcm", &md(&d), &m, t);
                let rot = Rotation::from_quaternion(a).compose(&Rotation::from_quaternion(r));
                self.quat_ok(cx, "rotation", rot.quaternion(), &m, t);
                let same: Quaternion<T, Fa, Fb> = Self::iq::<Fa, Fb>(cx).normalized();
                self.vs(cx, "hamilton", &a.mul_hamilton_same(&same).data.data, &q, t);
                self.q = q;
                self.m = m;
            }
            "invert" => {
                let (q, m) = self.load(cx, 0);
                let a = self.q();
                match cx.i(0) {
                    0 => self.quat_ok(cx, "inverse", &a.inverse(), &m, t),
                    1 => self.quat_ok(cx, "conjugate", &a.conjugate(), &m, t),
                    _ => self.m9(cx, "transpose", &md(&self.d().transpose()), &m, t),
                }
                self.q = q;
                self.m = m;
            }
            "euler" => {
                let (q, m) = self.load(cx, 0);
                let v: Vec<f64> = (0..3).map(|k| cx.af(k) / 1e30).collect();
                let e: Euler<T, Fa, Fb> = Euler::new(T::from_f64(v[0]), T::from_f64(v[1]), T::from_f64(v[2]));
                let big = 1.0 + v.iter().fold(0.0, |a: f64, x| a.max(x.abs()));
                let t = t * big;
                self.m9(cx, "dcm", &md(&Dcm::from(e)), &m, t);
                let eq = Quaternion::from(&e);
                self.quat_ok(cx, "quat", &eq, &m, t);
                self.vs(cx, "parts", &[e.roll(), e.pitch(), e.yaw()], &v, f(T::EPSILON) * big);
                // componentwise algebra
                let k = |s: f64| v.iter().map(|x| x * s).collect::<Vec<_>>();
                let two = T::from_f64(2.0);
                let mut acc = e;
                acc += e;
                let mut acc2 = e;
                acc2 += &e;
                for (n, g, s) in [
                    ("add", e + e, 2.0),
                    ("add_ref", e + &e, 2.0),
                    ("ref_add", &e + e, 2.0),
                    ("ref_add_ref", &e + &e, 2.0),
                    ("add_assign", acc, 2.0),
                    ("add_assign_ref", acc2, 2.0),
                    ("sub", (e + e) - e, 1.0),
                    ("sub_ref", (e + e) - &e, 1.0),
                    ("ref_sub", &(e + e) - e, 1.0),
                    ("ref_sub_ref", &(e + e) - &e, 1.0),
                    ("neg", -e, -1.0),
                    ("ref_neg", -&e, -1.0),
                    ("mul", e * two, 2.0),
                    ("ref_mul", &e * two, 2.0),
                    ("div", e / two, 0.5),
                    ("ref_div", &e / two, 0.5),
                ] {
                    self.vs(cx, n, &g.data.data, &k(s), 4.0 * f(T::EPSILON) * big);
                }
                let deg = k(180.0 / std::f64::consts::PI);
                self.vs(cx, "to_degrees", &e.to_degrees_vec().data, &deg, 200.0 * f(T::EPSILON) * big);
                let back = Euler::<T, Fa, Fb>::from_degrees_vec(vecn(&deg));
                self.vs(cx, "from_degrees", &back.data.data, &v, 8.0 * f(T::EPSILON) * big);
                self.q = q;
                self.m = m;
            }
            "axis" => {
                let (q, m) = self.load(cx, 0);
                let ang = cx.af(3) / 1e30;
                let g: Quaternion<T, Fa, Fb> = Quaternion::from_axis_angle(vecn(&[cx.af(0), cx.af(1), cx.af(2)]), T::from_f64(ang));
                let t = t * (1.0 + ang.abs());
                self.quat_ok(cx, "axis_angle", &g, &m, t);
                self.vs(cx, "components", &g.data.data, &q, t);
                self.q = q;
                self.m = m;
            }
            "elementary" => {
                let ang = cx.af(1) / 1e30;
                let a = T::from_f64(ang);
                let d: Dcm<T, Fa, Fb> = match cx.i(0) {
                    0 => Dcm::rotate_x(a),
                    1 => Dcm::rotate_y(a),
                    _ => Dcm::rotate_z(a),
                };
                let mut w = [0.0; 9];
                for i in 0..9 {
                    w[i] = cx.xf(i) / 1e30;
                }
                self.m9(cx, &format!("rotate{}", cx.i(0)), &md(&d), &w, t * (1.0 + ang.abs()));
            }
            "convert" => {
                let (q, m) = self.load(cx, 0);
                let a = self.q();
                let d = self.d();
                let lt = self.lock_tol(&m);
                match cx.i(0) {
                    0 => {
                        self.m9(cx, "dcm_from_quat", &md(&Dcm::from(&a)), &m, t);
                        self.m9(cx, "dcm_from_quat_val", &md(&Dcm::from(a)), &m, t);
                        let g = Dcm::from(&a);
                        let acc = [g.m11(), g.m12(), g.m13(), g.m21(), g.m22(), g.m23(), g.m31(), g.m32(), g.m33()];
                        self.vs(cx, "accessors", &acc, &m, t);
                        let n: Dcm<T, Fa, Fb> = Dcm::new(acc[0], acc[1], acc[2], acc[3], acc[4], acc[5], acc[6], acc[7], acc[8]);
                        self.m9(cx, "new", &md(&n), &m, t);
                        self.m9(cx, "from_matrix", &md(&Dcm::<T, Fa, Fb>::from(n.as_matrix())), &m, t);
                    }
                    1 => self.m9(cx, "to_dcm", &md(&a.to_dcm()), &m, t),
                    2 => match Quaternion::try_from(&d) {
                        Ok(g) => self.quat_ok(cx, "quat_from_dcm", &g, &m, t),
                        Err(_) => cx.fail(&format!("quat_from_dcm.{}", self.w), "refused a rotation matrix".into()),
                    },
                    3 => {
                        let e = Euler::from(&a);
                        self.euler_range(cx, "euler_of_quat", &e);
                        self.m9(cx, "quat_euler_dcm", &md(&Dcm::from(e)), &m, lt);
                    }
                    4 => {
                        let e = Euler::from(&a);
                        self.quat_ok(cx, "quat_euler_quat", &Quaternion::from(&e), &m, lt);
                    }
                    5 => {
                        let e = Euler::from(&d);
                        self.euler_range(cx, "euler_of_dcm", &e);
                        self.m9(cx, "dcm_euler_dcm", &md(&Dcm::from(e)), &m, lt);
                        self.quat_ok(cx, "dcm_euler_quat", &Quaternion::from(&e), &m, lt);
                    }
                    6 => {
                        self.quat_ok(cx, "rotation_from_quat", Rotation::from(&a).quaternion(), &m, t);
                        match Rotation::try_from(&d) {
                            Ok(g) => self.quat_ok(cx, "rotation_from_dcm", g.quaternion(), &m, t),
                            Err(_) => cx.fail(&format!("rotation_from_dcm.{}", self.w), "refused a rotation matrix".into()),
                        }
                    }
                    _ => {
                        // the same rotation, differently scaled
                        for s in [-1.0, 3.75, -0.25, 1e-4] {
                            let g: Quaternion<T, Fa, Fb> = a * T::from_f64(s);
                            self.m9(cx, "scaled_to_dcm", &md(&g.to_dcm()), &m, t);
                            self.quat_ok(cx, "scaled_normalized", &g.normalized(), &m, t);
                            self.m9(cx, "scaled_inverse", &md(&g.inverse().to_dcm()), &tr(&m), t);
                            self.quat_ok(cx, "scaled_div", &(g / T::from_f64(s)), &m, t);
                        }
                        self.m9(cx, "negated", &md(&(-a).to_dcm()), &m, t);
                        let two: Vec<f64> = q.iter().map(|x| 2.0 * x).collect();
                        self.vs(cx, "add", &(a + a).data.data, &two, t);
                        self.vs(cx, "sub", &((a + a) - a).data.data, &q, t);
                    }
                }
            }
            "rotate" => {
                let v = [cx.af(0), cx.af(1), cx.af(2)];
                let w = [cx.xf(0) / 1e30, cx.xf(1) / 1e30, cx.xf(2) / 1e30];
                let t = t * (1.0 + v.iter().fold(0.0, |a: f64, x| a.max(x.abs())));
                let q = self.q();
                let d = self.d();
                let x: Vector<T, 3> = vecn(&v);
                let c: Cartesian<T, Fa> = Cartesian::new(x[0], x[1], x[2]);
                for (n, g) in [
                    ("rotate_vector", q.rotate_vector(x)),
                    ("rotate_vec", q.rotate_vec(&x)),
                    ("rotate_cartesian", q.rotate_cartesian(c).data),
                    ("transform", c.transform(&q).data),
                    ("quat_mul", (q * c).data),
                    ("ref_quat_mul", (&q * c).data),
                    ("quat_mul_ref", (q * &c).data),
                    ("ref_quat_mul_ref", (&q * &c).data),
                    ("dcm_mul", (d * c).data),
                    ("ref_dcm_mul", (&d * c).data),
                    ("dcm_mul_ref", (d * &c).data),
                    ("ref_dcm_mul_ref", (&d * &c).data),
                    ("scaled", (q * T::from_f64(-2.5)).rotate_vector(x)),
                    ("negated", (-q).rotate_vector(x)),
                ] {
                    self.vs(cx, n, &g.data, &w, t);
                }
            }
            "spin" => {
                let (q, m) = self.load(cx, 0);
                let p = 2f64.powi(cx.i(4) as i32);
                let w: Vector<T, 3> = vecn(&[cx.aq(0, 64.0) / p, cx.aq(1, 64.0) / p, cx.aq(2, 64.0) / p]);
                let dt = T::from_f64(cx.aq(3, 64.0) * p);
                let g = Rotation::from_quaternion(self.q()).integrate(w, dt);
                self.quat_ok(cx, "rotation", g.quaternion(), &m, 20.0 * t);
                self.q = q;
                self.m = m;
            }
            "taylor" => {
                let tol = cx.xf(0) / 1e30;
                let (q, m) = self.load(cx, 1);
                let v = [cx.af(0), cx.af(1), cx.af(2)];
                let (c, d, dt) = (cx.aq(4, 64.0), cx.aq(5, 64.0), cx.aq(6, 1024.0));
                let start: Quaternion<T, Fa, Fb> = Quaternion::from_axis_angle(vecn(&v), T::from_f64(cx.af(3) / 1e30));
                let k = |s: f64| Cartesian::<T, Fa>::new(T::from_f64(v[0] * s), T::from_f64(v[1] * s), T::from_f64(v[2] * s));
                let g = start.integrate(k(c), k(d), T::from_f64(dt));
                self.quat_ok(cx, "quat", &g, &m, 4.0 * tol + 10.0 * t);
                self.q = q;
                self.m = m;
            }
            _ => bad("op"),
        }
    }
    fn euler_range<A: ReferenceFrame, B: ReferenceFrame>(&self, cx: &Cx, k: &str, e: &Euler<T, A, B>) {
        let s = 1.0 + 4.0 * f(T::EPSILON);
        let (pi, h) = (std::f64::consts::PI * s, std::f64::consts::FRAC_PI_2 * s);
        let ok = f(e.roll()).abs() <= pi && f(e.pitch()).abs() <= h && f(e.yaw()).abs() <= pi;
        cx.check(&format!("{}_range.{}", k, self.w), ok, || format!("{} {} {}", f(e.roll()), f(e.pitch()), f(e.yaw())));
    }
}

/// A02 on aether_core::coordinate and the angle conversions.
pub fn a02() -> Box<dyn Model> {
    Box::new(A02 { d: Co::<f64>::new("f64"), s: Co::<f32>::new("f32") })
}
struct A02 {
    d: Co<f64>,
    s: Co<f32>,
}
impl Model for A02 {
    fn step(&mut self, op: &str, cx: &mut Cx) {
        self.d.step(op, cx);
        self.s.step(op, cx);
    }
}
use aether_core::coordinate::{Cylindrical, Spherical};
struct Co<T: Real> {
    w: &'static str,
    c: Cartesian<T, Fa>,
}
impl<T> Co<T>
where
    T: Real + Default + ToRadians<Output = T> + ToDegrees<Output = T> + std::ops::AddAssign + std::ops::SubAssign + 'static,
{
    fn new(w: &'static str) -> Self {
        Co { w, c: Cartesian::zero() }
    }
    fn vs(&self, cx: &Cx, k: &str, got: &[T], want: &[f64], tol: f64) {
        for i in 0..want.len() {
            if !((f(got[i]) - want[i]).abs() <= tol) {
                cx.fail(&format!("{}.{}", k, self.w), format!("[{}] got {:e} want {:e} tol {:e}", i, f(got[i]), want[i], tol));
                return;
            }
        }
    }
    fn cart(v: &[f64]) -> Cartesian<T, Fa> {
        Cartesian::new(T::from_f64(v[0]), T::from_f64(v[1]), T::from_f64(v[2]))
    }
    fn ints(cx: &Cx, n: usize) -> Vec<f64> {
        (0..n).map(|k| cx.xf(k)).collect()
    }
    /// an azimuth: equal modulo a full turn, and within the documented range
    fn azim(&self, cx: &Cx, k: &str, got: T, want: f64, tol: f64) {
        let g = f(got);
        let tau = 2.0 * std::f64::consts::PI;
        let mut d = (g - want).abs();
        d = d.min((tau - d).abs());
        let ok = d <= tol && g.abs() <= std::f64::consts::PI * (1.0 + 4.0 * f(T::EPSILON));
        cx.check(&format!("{}.{}", k, self.w), ok, || format!("azimuth {:e} want {:e} tol {:e}", g, want, tol));
    }
    fn step(&mut self, op: &str, cx: &Cx) {
        let eps = f(T::EPSILON);
        let t = 40.0 * eps;
        match op {
            "put" => {
                let k = cx.i(3) as i32;
                let narrow = eps > 1e-10 && k.abs() > 40;
                let s = 2f64.powi(if narrow { 0 } else { k });
                let p: Vec<f64> = (0..3).map(|k| cx.af(k) * s).collect();
                let c: Cartesian<T, Fa> = Self::cart(&p);
                let (rho, az, th, rc) = (cx.xf(0) / 1e30 * s, cx.xf(1) / 1e30, cx.xf(2) / 1e30, cx.xf(3) / 1e30 * s);
                let sp = Spherical::from(&c);
                let cy = Cylindrical::from(&c);
                self.vs(cx, "spherical_r", &[sp.r()], &[rho], t * rho);
                self.vs(cx, "cylindrical_r_z", &[cy.r(), cy.z()], &[rc, p[2]], t * rc);
                self.vs(cx, "norm", &[c.norm(), c.magnitude()], &[rho, rho], t * rho);
                if rho > 0.0 {
                    self.vs(cx, "inclination", &[sp.theta()], &[th], t);
                    let n = c.normalize();
                    self.vs(cx, "normalize", &n.data.data, &[p[0] / rho, p[1] / rho, p[2] / rho], t);
                }
                if rc > 0.0 {
                    self.azim(cx, "azimuth_sph", sp.phi(), az, t);
                    self.azim(cx, "azimuth_cyl", cy.theta(), az, t);
                }
                let sc = Spherical::from(&cy);
                let cs = Cylindrical::from(&sp);
                self.vs(cx, "sph_of_cyl_r", &[sc.r()], &[rho], t * rho);
                if rho > 0.0 {
                    self.vs(cx, "sph_of_cyl_inclination", &[sc.theta()], &[th], t);
                }
                if rc > 0.0 {
                    self.azim(cx, "sph_of_cyl_azimuth", sc.phi(), az, t);
                }
                self.vs(cx, "cyl_of_sph", &[cs.r(), cs.z()], &[rc, p[2]], t * rho);
                for (n, g) in [
                    ("back_spherical", Cartesian::<T, Fa>::from(&sp)),
                    ("back_cylindrical", Cartesian::from(&cy)),
                    ("back_cyl_sph", Cartesian::from(&sc)),
                    ("back_sph_cyl", Cartesian::from(&cs)),
                ] {
                    self.vs(cx, n, &g.data.data, &p, 2.0 * t * rho);
                }
                self.vs(cx, "accessors", &[c.x(), c.y(), c.z(), c[0], c[1], c[2]], &[p[0], p[1], p[2], p[0], p[1], p[2]], 0.0);
                // the register holds the unscaled integers
                let u = Self::cart(&[cx.af(0), cx.af(1), cx.af(2)]);
                self.c = u;
            }
            "spherical" => {
                let (r, az, th) = (cx.af(0), cx.af(1) / 1e30, cx.af(2) / 1e30);
                let s = Spherical::new(T::from_f64(r), T::from_f64(az), T::from_f64(th));
                let tol = 8.0 * t * r;
                let w = [cx.xf(0) / 1e30, cx.xf(1) / 1e30, cx.xf(2) / 1e30, cx.xf(3) / 1e30];
                self.vs(cx, "cartesian", &Cartesian::<T, Fa>::from(&s).data.data, &w[..3], tol);
                let c = Cylindrical::from(&s);
                self.vs(cx, "cylindrical", &[c.r(), c.z()], &[w[3], w[2]], tol);
                self.azim(cx, "azimuth", c.theta(), az, 8.0 * t);
                self.vs(cx, "parts", &[s.r(), s.phi(), s.theta()], &[r, az, th], 4.0 * eps * (1.0 + r));
                let back = Spherical::from(&c);
                self.vs(cx, "back_r", &[back.r()], &[r], tol);
                if r > 0.0 {
                    self.vs(cx, "back_theta", &[back.theta()], &[th], 8.0 * t);
                    self.azim(cx, "back_azimuth", back.phi(), az, 8.0 * t);
                }
            }
            "cylindrical" => {
                let (r, az, z) = (cx.af(0), cx.af(1) / 1e30, cx.af(2));
                let c = Cylindrical::new(T::from_f64(r), T::from_f64(az), T::from_f64(z));
                let w = [cx.xf(0) / 1e30, cx.xf(1) / 1e30, cx.xf(2) / 1e30, cx.xf(3) / 1e30, cx.xf(4) / 1e30];
                self.vs(cx, "cartesian", &Cartesian::<T, Fa>::from(&c).data.data, &w[..3], 8.0 * t * w[3]);
                let s = Spherical::from(&c);
                self.vs(cx, "r", &[s.r()], &[w[3]], t * w[3]);
                self.azim(cx, "azimuth", s.phi(), az, 8.0 * t);
                if w[3] > 0.0 {
                    self.vs(cx, "inclination", &[s.theta()], &[w[4]], t);
                }
                self.vs(cx, "parts", &[c.r(), c.theta(), c.z()], &[r, az, z], 4.0 * eps * (1.0 + r));
            }
            "shift" => {
                let w: Cartesian<T, Fa> = Self::cart(&[cx.af(0), cx.af(1), cx.af(2)]);
                let e = Self::ints(cx, 3);
                let c = self.c;
                let mut m = c;
                let l = if cx.i(3) == 0 {
                    m += w;
                    [c + w, &c + &w, &c + w, c + &w, -(-c + (-&w))]
                } else {
                    m -= w;
                    [c - w, &c - &w, &c - w, c - &w, c + (-w)]
                };
                for (k, g) in l.iter().enumerate() {
                    self.vs(cx, &format!("op{}_{}", cx.i(3), k), &g.data.data, &e, 0.0);
                }
                self.vs(cx, "assign", &m.data.data, &e, 0.0);
                let mut ix = c;
                for k in 0..3 {
                    ix[k] = m[k];
                }
                self.vs(cx, "index_mut", &ix.data.data, &e, 0.0);
                self.c = m;
            }
            "scale" => {
                let k = T::from_f64(cx.af(0));
                let e = Self::ints(cx, 3);
                let c = self.c;
                for (n, g) in [("mul", c * k), ("ref_mul", &c * k), ("map", c.map(|x| x * k))] {
                    self.vs(cx, n, &g.data.data, &e, 0.0);
                }
                if cx.af(0) != 0.0 {
                    let p: Vec<f64> = c.data.data.iter().map(|x| f(*x)).collect();
                    self.vs(cx, "div", &((c * k) / k).data.data, &p, 0.0);
                    self.vs(cx, "ref_div", &(&(c * k) / k).data.data, &p, 0.0);
                }
                let mut it = c;
                it.iter_mut().for_each(|x| *x = *x * k);
                self.vs(cx, "iter_mut", &it.data.data, &e, 0.0);
                let g: Vec<T> = it.iter().copied().collect();
                self.vs(cx, "iter", &g, &e, 0.0);
                let g: Vec<T> = it.into_iter().collect();
                self.vs(cx, "into_iter", &g, &e, 0.0);
                let g: Vec<T> = (&it).into_iter().copied().collect();
                self.vs(cx, "ref_into_iter", &g, &e, 0.0);
                self.vs(cx, "as_ref", it.as_ref(), &e, 0.0);
                self.c = it;
            }
            "products" => {
                let g = |k: usize| -> Vec<f64> { (0..3).map(|i| cx.af(k + i)).collect() };
                let v: Cartesian<T, Fa> = Self::cart(&g(0));
                let w: Cartesian<T, Fa> = Self::cart(&g(3));
                let m: Matrix<T, 3, 3> = mat(&(0..9).map(|i| cx.af(6 + i)).collect::<Vec<_>>());
                let e = Self::ints(cx, 13);
                self.vs(cx, "cross", &v.cross(&w).data.data, &e[0..3], 0.0);
                self.vs(cx, "dot", &[v.dot(&w)], &e[3..4], 0.0);
                self.vs(cx, "mat_mul", &(m * v).data.data, &e[4..7], 0.0);
                self.vs(cx, "mat_mul_ref", &(m * &v).data.data, &e[4..7], 0.0);
                let (t2, t3) = (4.0 * eps * 1e4, 4.0 * eps * 1e6);
                self.vs(cx, "powi2", &v.powi(2).data.data, &e[7..10], t2);
                self.vs(cx, "powi_ref3", &v.powi_ref(3).data.data, &e[10..13], t3);
                self.vs(cx, "powf2", &v.powf(T::from_f64(2.0)).data.data, &e[7..10], 4.0 * t2);
                self.vs(cx, "powf_ref3", &v.powf_ref(T::from_f64(3.0)).data.data, &e[10..13], 4.0 * t3);
                let n = cx.xf(13) / 1e30;
                self.vs(cx, "norm", &[v.norm(), v.magnitude()], &[n, n], t * n);
            }
            "angle" => {
                let n = cx.aq(0, 1024.0);
                let x = T::from_f64(n);
                let (rad, deg) = (cx.xf(0) / 1e30, cx.xf(1) / 1e30);
                self.vs(cx, "to_radians", &[ToRadians::to_radians(x), ToRadians::to_radians([x])[0], vecn::<T, 1>(&[n]).to_radians()[0], Real::to_radians(x)], &[rad; 4], 8.0 * eps * rad.abs());
                self.vs(cx, "to_degrees", &[ToDegrees::to_degrees(x), ToDegrees::to_degrees([x])[0], vecn::<T, 1>(&[n]).to_degrees()[0], Real::to_degrees(x)], &[deg; 4], 8.0 * eps * deg.abs());
                let back = ToDegrees::to_degrees(ToRadians::to_radians(x));
                self.vs(cx, "inverse", &[back], &[n], 8.0 * eps * n.abs());
            }
            _ => bad("op"),
        }
    }
}
