//! S01 on aether_stats.
use crate::util::*;
use aether_core::math::{Matrix, Vector};
use aether_core::real::Real;
use aether_rand::randomizers::XorShift64Star;
use aether_stats::covariance::{
    correlation_from_covariance, covariance_from_correlation, mean, sample_covariance, sample_cross_covariance,
    standard_deviations_from_covariance, CovarianceError,
};
use aether_stats::distributions::{Bernoulli, Categorical, Gaussian, MultivariateNormal};

pub fn s01() -> Box<dyn Model> {
    Box::new(S01 { n: 2, m: 1, x: vec![], y: vec![] })
}
struct S01 {
    n: usize,
    m: usize,
    x: Vec<Vec<f64>>,
    y: Vec<Vec<f64>>,
}
fn vecs<T: Real, const N: usize>(d: &[Vec<f64>]) -> Vec<Vector<T, N>> {
    d.iter()
        .map(|v| {
            let mut a = [T::ZERO; N];
            for i in 0..N {
                a[i] = T::from_f64(v[i]);
            }
            Vector::new(a)
        })
        .collect()
}
fn code<A>(r: &Result<A, CovarianceError>) -> i128 {
    match r {
        Ok(_) => 0,
        Err(CovarianceError::EmptySamples) => 1,
        Err(CovarianceError::InsufficientSamples) => 2,
        Err(CovarianceError::SampleCountMismatch) => 3,
        Err(CovarianceError::ZeroVarianceAxis) => 4,
    }
}
fn stats<T: Real, const N: usize>(x: &[Vec<f64>], cx: &Cx, sf: &str) {
    let eps = T::EPSILON.to_f64();
    let k = x.len();
    let s: Vec<Vector<T, N>> = vecs(x);
    let big = cx.xf(3);
    // rounding: the mean is off by ~ k eps max|x|, deviations accordingly
    let dm = (k as f64 + 4.0) * eps * big;
    let c = cx.xf(4) / 1e30 + dm;
    let tol = 4.0 * (dm * c + (k as f64 + 4.0) * eps * c * c);
    let mu = mean(&s);
    cx.eq_i(&format!("stats/mean_err{sf}"), code(&mu), if k == 0 { 1 } else { 0 });
    if let Ok(mu) = mu {
        for j in 0..N {
            cx.near(&format!("stats/mean{sf}"), mu[j].to_f64(), cx.xf(7 + j) / cx.xf(5), dm, 0.0);
        }
    }
    let cv = sample_covariance(&s);
    cx.eq_i(&format!("stats/cov_err{sf}"), code(&cv), cx.x(1));
    let Ok(cv) = cv else { return };
    let q = cx.xf(6);
    for i in 0..N {
        for j in 0..N {
            cx.near(&format!("stats/cov{sf}"), cv.data[i][j].to_f64(), cx.xf(7 + N + i * N + j) / q, tol, 0.0);
            cx.near(&format!("stats/cov_symmetric{sf}"), cv.data[i][j].to_f64(), cv.data[j][i].to_f64(), 0.0, 4.0 * eps);
        }
        cx.check(&format!("stats/variance_sign{sf}"), cv.data[i][i].to_f64() >= 0.0, || format!("variance {:?}", cv.data[i][i].to_f64()));
    }
    let cr = correlation_from_covariance(&cv);
    if cx.x(2) == 1 {
        // an axis without variance: refused, unless rounding of the mean left some variance behind
        if big < 1e6 && sf == ".f64" && (0..N).any(|j| cv.data[j][j].to_f64() == 0.0) {
            cx.eq_i(&format!("stats/zero_variance{sf}"), code(&cr), 4);
        }
        return;
    }
    let vmin = (0..N).map(|j| cx.xf(7 + N + j * N + j) / q).fold(f64::INFINITY, f64::min);
    if vmin < 100.0 * tol {
        return;
    }
    cx.eq_i(&format!("stats/corr_err{sf}"), code(&cr), 0);
    let Ok(cr) = cr else { return };
    for i in 0..N {
        for j in 0..N {
            let vi = cx.xf(7 + N + i * N + i) / q;
            let vj = cx.xf(7 + N + j * N + j) / q;
            let g = cr.data[i][j].to_f64();
            let t = 2.0 * tol / (vi * vj).sqrt() + tol / vi + tol / vj + 8.0 * eps;
            cx.near(&format!("stats/corr{sf}"), g, cx.xf(7 + N + N * N + i * N + j) / 1e30, t, 0.0);
            cx.check(&format!("stats/corr_range{sf}"), g.abs() <= 1.0 + (8.0 + k as f64) * eps && (i != j || (g - 1.0).abs() <= 4.0 * eps), || format!("correlation {g:?} at {i},{j}"));
        }
    }
}
fn cross<T: Real, const N: usize, const M: usize>(x: &[Vec<f64>], y: &[Vec<f64>], cx: &Cx, sf: &str) {
    let eps = T::EPSILON.to_f64();
    let r = sample_cross_covariance::<T, N, M>(&vecs(x), &vecs(y));
    cx.eq_i(&format!("cross/err{sf}"), code(&r), cx.x(0));
    let Ok(r) = r else { return };
    if cx.x(0) != 0 {
        return;
    }
    let k = x.len() as f64;
    let dm = (k + 4.0) * eps * cx.xf(1);
    let c = cx.xf(2) / 1e30 + dm;
    let tol = 4.0 * (dm * c + (k + 4.0) * eps * c * c);
    for i in 0..N {
        for j in 0..M {
            cx.near(&format!("cross/value{sf}"), r.data[i][j].to_f64(), cx.xf(5 + i * M + j) / cx.xf(4), tol, 0.0);
        }
    }
}
fn corr<T: Real, const N: usize>(cx: &Cx, sf: &str) {
    let eps = T::EPSILON.to_f64();
    for sc in [0, 20, -12] {
        let s = 2f64.powi(sc);
        let mut a = [[T::ZERO; N]; N];
        for i in 0..N {
            for j in 0..N {
                a[i][j] = T::from_f64(cx.af(1 + i * N + j) * s);
            }
        }
        let c = Matrix::new(a);
        let sd = standard_deviations_from_covariance(&c);
        let r = correlation_from_covariance(&c);
        let ok = cx.x(0) == 1;
        cx.eq_i(&format!("corr/sd_err{sf}"), code(&sd), if ok { 0 } else { 4 });
        cx.eq_i(&format!("corr/err{sf}"), code(&r), if ok { 0 } else { 4 });
        let (Ok(sd), Ok(r)) = (sd, r) else { continue };
        if !ok {
            continue;
        }
        for i in 0..N {
            cx.near(&format!("corr/sd{sf}"), sd[i].to_f64(), cx.xf(1 + i) / 1e30 * s.sqrt(), 0.0, 2.0 * eps);
            for j in 0..N {
                cx.near(&format!("corr/value{sf}"), r.data[i][j].to_f64(), cx.xf(1 + N + i * N + j) / 1e30, 0.0, 8.0 * eps);
            }
        }
        let back = covariance_from_correlation(&r, &sd);
        for i in 0..N {
            for j in 0..N {
                cx.near(&format!("corr/back{sf}"), back.data[i][j].to_f64(), a[i][j].to_f64(), 0.0, 16.0 * eps);
            }
        }
    }
}
fn mvn<T: Real, const N: usize>(cx: &Cx, sf: &str) {
    let eps = T::EPSILON.to_f64();
    let f = |k: usize| T::from_f64(cx.af(k));
    let mut c = [[T::ZERO; N]; N];
    let mut mu = [T::ZERO; N];
    let mut x = [T::ZERO; N];
    for i in 0..N {
        for j in 0..N {
            c[i][j] = f(1 + i * N + j);
        }
        mu[i] = f(1 + N * N + i);
        x[i] = f(1 + N * N + N + i);
    }
    let p = MultivariateNormal::new(Vector::new(mu), Matrix::new(c)).pdf(&Vector::new(x)).to_f64();
    // condition of A A^T + D with entries up to 40 and D >= 1
    let tol = 2000.0 * eps * (1.0 + cx.xf(1) / 1e30);
    if tol < 0.1 {
        cx.near(&format!("mvn/pdf{sf}"), p, cx.xf(0) / 1e30, 1e-25, tol);
    }
}
macro_rules! dim {
    ($n:expr, $f:ident, $($r:expr),*) => {
        match $n {
            1 => { $f::<f64, 1>($($r),*, ".f64"); $f::<f32, 1>($($r),*, ".f32"); }
            2 => { $f::<f64, 2>($($r),*, ".f64"); $f::<f32, 2>($($r),*, ".f32"); }
            3 => { $f::<f64, 3>($($r),*, ".f64"); $f::<f32, 3>($($r),*, ".f32"); }
            4 => { $f::<f64, 4>($($r),*, ".f64"); $f::<f32, 4>($($r),*, ".f32"); }
            5 => { $f::<f64, 5>($($r),*, ".f64"); $f::<f32, 5>($($r),*, ".f32"); }
            _ => bad("dimension"),
        }
    };
}
fn gauss<T: Real>(op: &str, cx: &Cx, sf: &str) {
    let eps = T::EPSILON.to_f64();
    let f = |x: f64| T::from_f64(x);
    match op {
        "gfit" => {
            let d: Vec<T> = (0..cx.an()).map(|k| f(cx.af(k))).collect();
            let g = Gaussian::fit_mle(&d);
            let k = cx.xf(0).max(1.0);
            let dm = (k + 4.0) * eps * cx.xf(3);
            cx.near(&format!("gfit/mean{sf}"), g.mu.to_f64(), cx.xf(1) / k, dm, 0.0);
            let sd = cx.xf(2) / 1e30;
            cx.near(&format!("gfit/sigma{sf}"), g.sigma.to_f64(), sd, 4.0 * dm + eps, (k + 8.0) * eps);
            cx.check(&format!("gfit/positive{sf}"), g.sigma.to_f64() > 0.0, || "fitted sigma is not positive".into());
        }
        "pdf" => {
            let g = Gaussian::new(f(cx.af(0) / 64.0), f(cx.af(1) / 64.0));
            let z2 = cx.xf(1) / 1e30;
            cx.near(&format!("pdf/value{sf}"), g.pdf(f(cx.af(2) / 64.0)).to_f64(), cx.xf(0) / 1e30, 1e-25, 8.0 * eps * (2.0 + z2));
        }
        _ => {
            let mut r = XorShift64Star::new(cx.u64(0));
            let g = Gaussian::new(f(cx.af(1) / 64.0), f(cx.af(2) / 64.0));
            let z = g.sample(&mut r).to_f64();
            let (a, b) = (cx.af(1).abs() / 64.0, cx.af(2) / 64.0);
            cx.near(&format!("draw/value{sf}"), z, cx.xf(0) / 1e30, 4.0 * eps * (a + b * (1.0 + cx.xf(1).abs() / 1e30)) + 1e-13 * b, 0.0);
        }
    }
}
impl Model for S01 {
    fn step(&mut self, op: &str, cx: &mut Cx) {
        let cx = &*cx;
        match op {
            "fresh" => {
                self.n = cx.us(0);
                self.m = cx.us(1);
                self.x.clear();
                self.y.clear();
            }
            "pushx" => self.x.push((0..self.n).map(|k| cx.af(k)).collect()),
            "pushboth" => {
                self.x.push((0..self.n).map(|k| cx.af(k)).collect());
                self.y.push((0..self.m).map(|k| cx.af(self.n + k)).collect());
            }
            "tile" => {
                self.x = (0..cx.us(0)).flat_map(|_| self.x.clone()).collect();
                self.y = (0..cx.us(0)).flat_map(|_| self.y.clone()).collect();
            }
            "stats" => dim!(self.n, stats, &self.x, cx),
            "cross" => {
                macro_rules! go {
                    ($($n:literal),*) => {
                        match (self.n, self.m) {
                            $(($n, 1) => { cross::<f64, $n, 1>(&self.x, &self.y, cx, ".f64"); cross::<f32, $n, 1>(&self.x, &self.y, cx, ".f32"); }
                              ($n, 2) => { cross::<f64, $n, 2>(&self.x, &self.y, cx, ".f64"); cross::<f32, $n, 2>(&self.x, &self.y, cx, ".f32"); }
                              ($n, 3) => { cross::<f64, $n, 3>(&self.x, &self.y, cx, ".f64"); cross::<f32, $n, 3>(&self.x, &self.y, cx, ".f32"); })*
                            _ => bad("dimension"),
                        }
                    };
                }
                go!(1, 2, 3, 4, 5)
            }
            "corr" => dim!(cx.us(0), corr, cx),
            "mvn" => dim!(cx.us(0), mvn, cx),
            "bern" => {
                let d: Vec<u8> = (0..cx.an()).map(|k| cx.i(k) as u8).collect();
                let b = Bernoulli::<f64>::fit_mle(&d);
                let b32 = Bernoulli::<f32>::fit_mle(&d);
                let p = cx.xr(0);
                cx.near("bern/p", b.p, p, 0.0, 1e-15);
                cx.near("bern/p32", b32.p as f64, p, 0.0, 3e-7);
                cx.near("bern/one", b.pmf(1), p, 0.0, 1e-15);
                cx.near("bern/zero", b.pmf(0), 1.0 - p, 1e-15, 0.0);
                cx.check("bern/other", (2..=255u8).all(|k| b.pmf(k) == 0.0), || "mass outside {0, 1}".into());
            }
            "cat" => {
                let k = cx.an();
                let d: Vec<usize> = (0..k).map(|j| cx.us(j)).collect();
                let c = Categorical::<f64>::fit_mle(&d);
                cx.eq_i("cat/size", c.probs.len() as i128, k as i128);
                for j in 0..k {
                    cx.near("cat/pmf", c.pmf(j), cx.xf(j) / cx.xf(k), 0.0, 1e-15);
                }
                let s: f64 = (0..k).map(|j| c.pmf(j)).sum();
                if d.iter().sum::<usize>() > 0 {
                    cx.near("cat/total", s, 1.0, 1e-14, 0.0);
                }
                cx.check("cat/outside", c.pmf(k) == 0.0 && c.pmf(usize::MAX) == 0.0, || "mass outside the categories".into());
            }
            "gfit" | "pdf" | "draw" => {
                gauss::<f64>(op, cx, ".f64");
                gauss::<f32>(op, cx, ".f32");
            }
            _ => bad("op"),
        }
    }
}
