//! C01 on aether_graphics.
use crate::util::*;
use aether_core::coordinate::Cartesian;
use aether_core::math::{Matrix, Vector};
use aether_core::real::Real;
use aether_core::reference_frame::ICRF;
use aether_graphics::cameras::orbit_camera::OrbitCamera;
use aether_graphics::graphics::transforms::{look_at, look_at_perspective, perspective, translate};

struct K<T: Real + Copy + 'static> {
    c: OrbitCamera<T>,
    tag: &'static str,
    tol: f64,
    to: fn(T) -> f64,
    fr: fn(f64) -> T,
}
impl<T: Real + Copy + 'static> K<T> {
    fn v(&self, v: Vector<T, 3>) -> [f64; 3] {
        [(self.to)(v[0]), (self.to)(v[1]), (self.to)(v[2])]
    }
    fn see(&self, op: &str, cx: &Cx) {
        let k = |w: &str| format!("{}/{}{}", op, w, self.tag);
        let e3 = |o: usize| [cx.xf(o) / 1e30, cx.xf(o + 1) / 1e30, cx.xf(o + 2) / 1e30];
        let (lost, ok, set) = (cx.x(0) == 1, cx.x(1) == 1, cx.x(2) == 1);
        let (f, r, u, p) = (self.v(self.c.forward()), self.v(self.c.right()), self.v(self.c.cam_up()), self.v(self.c.position()));
        let d = |a: [f64; 3], b: [f64; 3]| a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
        let et = if self.tol < 1e-6 { 1e-12 } else { 2e-5 };
        for (n, a, b, w) in [("unit_forward", f, f, 1.0), ("unit_right", r, r, 1.0), ("unit_up", u, u, 1.0), ("forward_right", f, r, 0.0), ("forward_up", f, u, 0.0), ("right_up", r, u, 0.0)] {
            cx.near(&k(n), d(a, b), w, et, 0.0);
        }
        cx.check(&k("up_hemisphere"), u[2] >= -et, || format!("up {u:?} points below the horizon"));
        let (t, dist) = (self.v(self.c.target), (self.to)(self.c.distance));
        for i in 0..3 {
            cx.near(&k("behind_target"), p[i], t[i] - f[i] * dist, et * (1.0 + dist + t[i].abs()), 0.0);
        }
        if lost {
            return;
        }
        let c3 = |w: &str, g: [f64; 3], o: usize, tol: f64| {
            let x = e3(o);
            for i in 0..3 {
                cx.near(&k(w), g[i], x[i], tol, 0.0);
            }
        };
        c3("forward", f, 3, self.tol);
        c3("position", p, 12, self.tol * (1.0 + dist) + et * (t[0].abs() + t[1].abs() + t[2].abs()));
        if ok {
            c3("right", r, 6, 25.0 * self.tol);
            c3("up", u, 9, 25.0 * self.tol);
            let (y, pi) = ((self.to)(self.c.yaw), (self.to)(self.c.pitch));
            let (wy, wp) = (cx.xf(15) / 1e30, cx.xf(16) / 1e30);
            let tau = std::f64::consts::TAU;
            let dy = if set { y - wy } else { (y - wy) - tau * ((y - wy) / tau).round() };
            cx.near(&k("yaw"), dy, 0.0, 25.0 * self.tol, 0.0);
            cx.near(&k("pitch"), pi, wp, 25.0 * self.tol, 0.0);
        }
    }
    fn step(&mut self, op: &str, cx: &Cx) {
        let fr = self.fr;
        match op {
            "set" => self.c.set_angles(fr(cx.af(0) * 1e-9), fr(cx.af(1) * 1e-9)),
            "place" => {
                self.c.target = Vector::new([fr(cx.af(0) / 8.0), fr(cx.af(1) / 8.0), fr(cx.af(2) / 8.0)]);
                self.c.distance = fr(cx.af(3) / 8.0);
                self.c.orbit_sens = fr(cx.af(4) * 1e-4);
            }
            "drag" => self.c.apply_orbit_angles(fr(cx.af(0) * 1e-9), fr(cx.af(1) * 1e-9)),
            "dragpx" => self.c.apply_orbit_pixels(fr(cx.af(0)), fr(cx.af(1))),
            "world" => self.c.apply_orbit_world_angles(fr(cx.af(0) * 1e-9), fr(cx.af(1) * 1e-9)),
            "worldpx" => self.c.apply_orbit_world_pixels(fr(cx.af(0)), fr(cx.af(1))),
            _ => bad(op),
        }
        self.see(op, cx);
    }
    fn look(&self, cx: &Cx) {
        let fr = self.fr;
        let c = |o: usize| Cartesian::<T, ICRF<T>>::new(fr(cx.af(o)), fr(cx.af(o + 1)), fr(cx.af(o + 2)));
        let (e, t, u) = (c(0), c(3), c(6));
        let (m, _) = look_at_perspective(&e, &t, &u, fr(1.5), fr(1.0), fr(0.1), fr(100.0));
        let m2 = look_at(&e, &t, &u);
        let k = |w: &str| format!("look/{}{}", w, self.tag);
        let et = if self.tol < 1e-6 { 1e-12 } else { 2e-5 };
        let mag = (0..3).map(|i| cx.af(i).abs()).fold(1.0, f64::max);
        let g = |r: usize, c: usize| (self.to)(m.data[r][c]);
        for r in 0..3 {
            for c in 0..4 {
                let tol = if c == 3 { et * mag } else { et } * 10.0;
                cx.near(&k("matrix"), g(r, c), cx.xf(4 * r + c) / 1e30, tol, 0.0);
                cx.near(&k("pair_same_view"), g(r, c), (self.to)(m2.data[r][c]), 0.0, 0.0);
            }
        }
        for c in 0..4 {
            cx.near(&k("affine_row"), g(3, c), if c == 3 { 1.0 } else { 0.0 }, 0.0, 0.0);
        }
        let ap = |p: [f64; 3]| -> [f64; 3] {
            let v = m * Vector::new([fr(p[0]), fr(p[1]), fr(p[2]), fr(1.0)]);
            [(self.to)(v[0]), (self.to)(v[1]), (self.to)(v[2])]
        };
        let dist = cx.xf(12) / 1e30;
        let (pe, pt) = (ap([cx.af(0), cx.af(1), cx.af(2)]), ap([cx.af(3), cx.af(4), cx.af(5)]));
        let w = [0.0, 0.0, -dist];
        for i in 0..3 {
            cx.near(&k("eye_to_origin"), pe[i], 0.0, et * 20.0 * mag, 0.0);
            cx.near(&k("target_ahead"), pt[i], w[i], et * 20.0 * (mag + dist), 0.0);
        }
    }
    fn persp(&self, cx: &Cx) {
        let fr = self.fr;
        let (a, v, n, f) = (cx.af(0) / 16.0, cx.af(1) * 1e-9, cx.af(2) / 16.0, cx.af(3) / 16.0);
        let p = perspective(fr(a), fr(v), fr(n), fr(f));
        let o = Cartesian::<T, ICRF<T>>::new(fr(0.0), fr(0.0), fr(0.0));
        let (_, p2) = look_at_perspective(&o, &Cartesian::new(fr(1.0), fr(0.0), fr(0.0)), &Cartesian::new(fr(0.0), fr(0.0), fr(1.0)), fr(a), fr(v), fr(n), fr(f));
        let k = |w: &str| format!("persp/{}{}", w, self.tag);
        let rel = if self.tol < 1e-6 { 1e-11 } else { 1e-4 };
        // near and far very close to each other: the difference is exact, the planes stay exact to
        // the relative rounding of (f+n)/(f-n)
        let amp = (f + n) / (f - n);
        for q in [&p, &p2] {
            let want = [[cx.xf(0) / 1e30, 0.0, 0.0, 0.0], [0.0, cx.xf(1) / 1e30, 0.0, 0.0], [0.0, 0.0, cx.xf(2) / 1e30, cx.xf(3) / 1e30], [0.0, 0.0, -1.0, 0.0]];
            for r in 0..4 {
                for c in 0..4 {
                    cx.near(&k("matrix"), (self.to)(q.data[r][c]), want[r][c], 0.0, rel);
                }
            }
            let th = cx.xf(4) / 1e30;
            for (d, z) in [(n, -1.0), (f, 1.0)] {
                let v = *q * Vector::new([fr(d * th * a), fr(d * th), fr(-d), fr(1.0)]);
                let w = (self.to)(v[3]);
                for (i, x) in [(0, 1.0), (1, 1.0), (2, z)] {
                    cx.near(&k(if i == 2 { "planes" } else { "frustum_edge" }), (self.to)(v[i]) / w, x, rel * (1.0 + amp), 0.0);
                }
            }
        }
    }
}
struct C01 {
    a: K<f64>,
    b: K<f32>,
    m: Matrix<f64, 4, 4>,
}
pub fn c01() -> Box<dyn Model> {
    Box::new(C01 {
        a: K { c: OrbitCamera::default(), tag: "", tol: 1e-10, to: |v| v, fr: |v| v },
        b: K { c: OrbitCamera::default(), tag: ".f32", tol: 1e-3, to: |v| v as f64, fr: |v| v as f32 },
        m: Matrix::identity(),
    })
}
impl Model for C01 {
    fn step(&mut self, op: &str, cx: &mut Cx) {
        let cx = &*cx;
        match op {
            "nop" => {}
            "look" => {
                self.a.look(cx);
                self.b.look(cx);
            }
            "persp" => {
                self.a.persp(cx);
                self.b.persp(cx);
            }
            "mat" => {
                for i in 0..12 {
                    self.m.data[i / 4][i % 4] = cx.af(i);
                }
            }
            "shift" => {
                self.m = translate(&self.m, &Vector::new([cx.af(0), cx.af(1), cx.af(2)]));
                for i in 0..12 {
                    cx.eq_f("shift/affine", self.m.data[i / 4][i % 4], cx.xf(i));
                }
                for i in 0..4 {
                    cx.eq_f("shift/last_row", self.m.data[3][i], if i == 3 { 1.0 } else { 0.0 });
                }
            }
            _ => {
                self.a.step(op, cx);
                self.b.step(op, cx);
            }
        }
    }
}
