//! M02 on aether_core: determinant, inverses, LU, Cholesky, solves.
use crate::lin_util::{mat, vecn};
use crate::util::*;
use aether_core::math::{Matrix, Vector};
use aether_core::real::Real;

pub fn m02() -> Box<dyn Model> {
    Box::new(M02 { p: None })
}
struct M02 {
    p: Option<Box<dyn Model>>,
}
/// the matrix as the specification describes it
#[derive(Clone)]
struct Truth {
    scale: f64,
    singular: bool,
    det: f64,
    inv: Vec<f64>,
    den: f64,
    spd: i64,
    kappa: f64,
}
struct Sys<T: Real, const N: usize> {
    a: Matrix<T, N, N>,
    t: Truth,
    w: &'static str,
    klim: f64,
    lo: f64,
    hi: f64,
}
fn key(w: &str, k: &str) -> String {
    format!("{}.{}", k, w)
}
fn f<T: Real>(x: T) -> f64 {
    x.to_f64()
}
impl<T: Real + 'static, const N: usize> Sys<T, N> {
    fn new(cx: &Cx, w: &'static str, klim: f64, lo: f64, hi: f64) -> Self {
        let scale = 2f64.powi(cx.i(1) as i32);
        let v: Vec<f64> = (0..N * N).map(|k| cx.af(2 + k) * scale).collect();
        let den = cx.xf(1);
        let singular = den == 0.0;
        let inv: Vec<f64> = if singular { vec![] } else { (0..N * N).map(|k| cx.xf(3 + k) / den / scale).collect() };
        let norm = |m: &[f64]| (0..N).map(|i| m[i * N..(i + 1) * N].iter().map(|x| x.abs()).sum::<f64>()).fold(0.0, f64::max);
        let kappa = if singular { f64::INFINITY } else { norm(&v) * norm(&inv) };
        let s = Self { a: mat(&v), t: Truth { scale, singular, det: cx.xf(0) * scale.powi(N as i32), inv, den, spd: cx.x(2) as i64, kappa }, w, klim, lo, hi };
        s.load(cx);
        s
    }
    fn eps(&self) -> f64 {
        f(T::EPSILON)
    }
    fn judged(&self) -> bool {
        self.t.kappa <= self.klim
    }
    fn ranged(&self) -> bool {
        self.t.det.abs() > self.lo && self.t.det.abs() < self.hi
    }
    fn cmp_inv(&self, cx: &Cx, k: &str, got: Option<Matrix<T, N, N>>) {
        let k = key(self.w, k);
        if self.t.singular {
            cx.check(&k, got.is_none(), || "a singular matrix was inverted".into());
            return;
        }
        if !self.judged() {
            return;
        }
        let Some(g) = got else {
            cx.fail(&k, format!("refused a regular matrix (condition {:e})", self.t.kappa));
            return;
        };
        let m = self.t.inv.iter().fold(0.0, |m: f64, x| m.max(x.abs()));
        let tol = 50.0 * N as f64 * self.eps() * self.t.kappa * m;
        for i in 0..N {
            for j in 0..N {
                let (a, b) = (f(g.data[i][j]), self.t.inv[i * N + j]);
                if !((a - b).abs() <= tol) {
                    cx.fail(&k, format!("[{},{}] got {:e} want {:e} tol {:e}", i, j, a, b, tol));
                    return;
                }
            }
        }
    }
    fn load(&self, cx: &Cx) {
        let n = N as f64;
        let d = f(self.a.determinant());
        if self.t.singular {
            cx.check(&key(self.w, "det"), d == 0.0, || format!("determinant of a singular matrix {:e}", d));
        } else if self.judged() && self.ranged() {
            cx.near(&key(self.w, "det"), d, self.t.det, 0.0, 50.0 * n * n * self.eps() * self.t.kappa);
        }
        self.cmp_inv(cx, "gj", self.a.inverse_gauss_jordan());
        if N == 3 && (self.t.singular || self.ranged()) {
            let mut m3 = Matrix::<T, 3, 3>::new([[T::ZERO; 3]; 3]);
            for i in 0..3 {
                for j in 0..3 {
                    m3.data[i][j] = self.a.data[i][j];
                }
            }
            self.cmp_inv(cx, "inv3", m3.inverse().map(|m| {
                let mut o = Matrix::<T, N, N>::new([[T::ZERO; N]; N]);
                for i in 0..N {
                    for j in 0..N {
                        o.data[i][j] = m.data[i][j];
                    }
                }
                o
            }));
        }
        self.lu(cx);
        self.chol(cx);
    }
    fn lu(&self, cx: &Cx) {
        let lu = self.a.lu_decompose();
        let k = key(self.w, "lu");
        if self.t.singular {
            cx.check(&k, lu.is_none(), || "a singular matrix was factored".into());
            return;
        }
        let Some(d) = lu else {
            cx.check(&k, !self.judged(), || format!("refused a regular matrix (condition {:e})", self.t.kappa));
            return;
        };
        let mut seen = [false; N];
        for p in d.piv {
            if p >= N || seen[p] {
                cx.fail(&k, format!("pivots {:?} are not a permutation", d.piv));
                return;
            }
            seen[p] = true;
        }
        let mut sign = 1;
        for i in 0..N {
            for j in 0..i {
                if d.piv[j] > d.piv[i] {
                    sign = -sign;
                }
            }
        }
        cx.check(&k, d.sign as i32 == sign, || format!("sign {} of permutation {:?}", d.sign, d.piv));
        for i in 0..N {
            for j in 0..N {
                let (mut s, mut m) = (0.0, 0.0);
                for q in 0..=i.min(j) {
                    let l = if q == i { 1.0 } else { f(d.lu.data[i][q]) };
                    let u = f(d.lu.data[q][j]);
                    s += l * u;
                    m += (l * u).abs();
                }
                let want = f(self.a.data[d.piv[i]][j]);
                if !((s - want).abs() <= 20.0 * N as f64 * self.eps() * (m + want.abs())) {
                    cx.fail(&k, format!("P*A and L*U differ at [{},{}]: {:e} vs {:e}", i, j, want, s));
                    return;
                }
                if j < i && !(f(d.lu.data[i][j]).abs() <= 1.0 + 4.0 * self.eps()) {
                    cx.fail(&k, format!("multiplier {:e}: rows were not pivoted", f(d.lu.data[i][j])));
                    return;
                }
            }
        }
    }
    fn chol(&self, cx: &Cx) {
        let k = key(self.w, "chol");
        let c = self.a.cholesky_lower();
        if self.t.spd == 1 && self.judged() {
            let Some(c) = c else {
                cx.fail(&k, "refused a positive definite matrix".into());
                return;
            };
            let dm = (0..N).map(|i| f(self.a.data[i][i]).abs()).fold(0.0, f64::max);
            for i in 0..N {
                cx.check(&k, f(c.l.data[i][i]) > 0.0, || format!("diagonal {:e}", f(c.l.data[i][i])));
                for j in 0..N {
                    if j > i && f(c.l.data[i][j]) != 0.0 {
                        cx.fail(&k, format!("upper entry [{},{}] {:e}", i, j, f(c.l.data[i][j])));
                        return;
                    }
                    let s: f64 = (0..N).map(|q| f(c.l.data[i][q]) * f(c.l.data[j][q])).sum();
                    let want = f(self.a.data[i][j]);
                    if !((s - want).abs() <= 20.0 * N as f64 * self.eps() * dm) {
                        cx.fail(&k, format!("L*Lt and A differ at [{},{}]: {:e} vs {:e}", i, j, s, want));
                        return;
                    }
                }
            }
        } else if self.t.spd == 0 && (self.w == "f64" || self.t.singular) {
            cx.check(&k, c.is_none(), || "accepted a matrix that is not positive definite".into());
            cx.check(&k, self.a.cholesky_solve(&vecn(&[1.0; 12])).is_none(), || "solved with a matrix that is not positive definite".into());
        }
    }
    fn cmp_x(&self, cx: &Cx, k: &str, got: &dyn Fn(usize, usize) -> f64, kk: usize, cols: usize) {
        let k = key(self.w, k);
        for c in 0..cols {
            let want: Vec<f64> = (0..N).map(|i| cx.xf(i * kk + c) / self.t.den / self.t.scale).collect();
            let m = want.iter().fold(0.0, |m: f64, x| m.max(x.abs()));
            let tol = 50.0 * N as f64 * self.eps() * self.t.kappa * m;
            for i in 0..N {
                if !((got(i, c) - want[i]).abs() <= tol) {
                    cx.fail(&k, format!("x[{},{}] = {:e}, exact {:e}, tol {:e}", i, c, got(i, c), want[i], tol));
                    return;
                }
            }
        }
    }
    fn multi<const K: usize>(&self, cx: &Cx) {
        let rhs: Vec<f64> = (0..N * K).map(|j| cx.af(1 + j)).collect();
        let b: Matrix<T, N, K> = mat(&rhs);
        let b0: Vector<T, N> = vecn(&(0..N).map(|i| rhs[i * K]).collect::<Vec<_>>());
        let (m, v) = (self.a.solve_multi(&b), self.a.solve(&b0));
        if self.t.singular {
            cx.check(&key(self.w, "solve"), v.is_none(), || "solved a singular system".into());
            cx.check(&key(self.w, "multi"), m.is_none(), || "solved a singular system".into());
            return;
        }
        if !self.judged() {
            return;
        }
        match v {
            Some(v) => self.cmp_x(cx, "solve", &|i, _| f(v.data[i]), K, 1),
            None => cx.fail(&key(self.w, "solve"), "refused a regular system".into()),
        }
        match m {
            Some(m) => self.cmp_x(cx, "multi", &|i, c| f(m.data[i][c]), K, K),
            None => cx.fail(&key(self.w, "multi"), "refused a regular system".into()),
        }
        if let Some(d) = self.a.lu_decompose() {
            let v = d.solve(&b0);
            self.cmp_x(cx, "lusolve", &|i, _| f(v.data[i]), K, 1);
            let m = d.solve_multi(&b);
            self.cmp_x(cx, "lumulti", &|i, c| f(m.data[i][c]), K, K);
        }
        if self.t.spd == 1 {
            match self.a.cholesky_solve(&b0) {
                Some(v) => self.cmp_x(cx, "cholsolve", &|i, _| f(v.data[i]), K, 1),
                None => cx.fail(&key(self.w, "cholsolve"), "refused a positive definite system".into()),
            }
        }
    }
    fn run(&self, cx: &Cx) {
        match cx.us(0) {
            1 => self.multi::<1>(cx),
            2 => self.multi::<2>(cx),
            3 => self.multi::<3>(cx),
            5 => self.multi::<5>(cx),
            _ => bad("right-hand sides"),
        }
    }
}
struct Both<const N: usize> {
    d: Sys<f64, N>,
    s: Sys<f32, N>,
}
impl<const N: usize> Model for Both<N> {
    fn step(&mut self, op: &str, cx: &mut Cx) {
        match op {
            "solve" => {
                self.d.run(cx);
                self.s.run(cx);
            }
            _ => bad(op),
        }
    }
}
impl Model for M02 {
    fn step(&mut self, op: &str, cx: &mut Cx) {
        macro_rules! sizes {
            ($($n:literal),*) => {
                match cx.us(0) {
                    $($n => Box::new(Both::<$n> { d: Sys::new(cx, "f64", 1e6, 1e-290, 1e290), s: Sys::new(cx, "f32", 1e3, 1e-34, 1e34) }) as Box<dyn Model>,)*
                    _ => bad("size"),
                }
            };
        }
        match op {
            "load" => self.p = Some(sizes!(1, 2, 3, 4, 5, 6, 7, 8, 12)),
            _ => self.p.as_mut().unwrap_or_else(|| bad("nothing loaded")).step(op, cx),
        }
    }
}
