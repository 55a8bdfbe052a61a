//! L01 on aether_ml.
use crate::util::*;
use aether_core::math::Vector;
use aether_ml::classification::{lda_qda::*, naive_bayes::GaussianNB, perceptron::Perceptron, svm::LinearSvm};
use aether_ml::regression::{linear::LinearRegression, logistic::LogisticRegression, ridge::RidgeRegression};
use aether_opt::gradient_descent::GradientDescentGeneric;

use aether_core::real::Real;

struct D {
    x: Vec<[f64; 2]>,
    y: Vec<f64>,
    lab: Vec<i8>,
}
fn data(cx: &Cx, o: usize) -> D {
    let n = cx.us(o);
    let mut d = D { x: vec![], y: vec![], lab: vec![] };
    for k in 0..n {
        let b = o + 1 + 4 * k;
        d.x.push([cx.af(b) / 4.0, cx.af(b + 1) / 4.0]);
        d.y.push(cx.af(b + 2) / 4.0);
        d.lab.push(cx.i(b + 3) as i8);
    }
    d
}
fn snap(v: f64) -> f64 {
    (v / 1e30 * 1048576.0).round() / 1048576.0
}
/// The two features of the specification stand at places `P` of `N`; the others are zero.
fn put<F: Real, const N: usize>(v: [f64; 2], p: [usize; 2]) -> Vector<F, N> {
    let mut a = [F::ZERO; N];
    for k in 0..2 {
        if p[k] < N {
            a[p[k]] = F::from_f64(v[k]);
        }
    }
    Vector::new(a)
}
fn get<F: Real, const N: usize>(w: &Vector<F, N>, b: F, p: [usize; 2]) -> [f64; 3] {
    let g = |k: usize| if k < N { w[k].to_f64() } else { 0.0 };
    [g(p[0]), g(p[1]), b.to_f64()]
}
enum Mdl<F: Real + Copy, const N: usize> {
    Lin(LinearRegression<F, N>),
    Rid(RidgeRegression<F, N>),
    Log(LogisticRegression<F, N>),
    Per(Perceptron<F, N>),
    Svm(LinearSvm<F, N>),
}
const NAMES: [&str; 5] = ["linear", "ridge", "logistic", "perceptron", "svm"];
/// kind, lr, reg, exact, w0, w1, bias
fn start(cx: &Cx) -> [f64; 3] {
    // dyadic states are exact in binary: undo the decimal rounding
    let g = |k: usize| if cx.i(3) == 1 { snap(cx.af(k)) } else { cx.af(k) / 1e30 };
    [g(4), g(5), g(6)]
}
fn model<F: Real + Copy, const N: usize>(cx: &Cx, p: [usize; 2]) -> Mdl<F, N> {
    let s = start(cx);
    let w = put([s[0], s[1]], p);
    let f = F::from_f64;
    let b = f(s[2]);
    let (lr, reg) = (f(cx.af(1) / 64.0), f(cx.af(2) / 16.0));
    match cx.i(0) {
        0 => { let mut m = LinearRegression::new(); m.weights = w; m.bias = b; m.lr = lr; Mdl::Lin(m) }
        1 => { let mut m = RidgeRegression::new(); m.weights = w; m.bias = b; m.lr = lr; m.alpha = reg; Mdl::Rid(m) }
        2 => { let mut m = LogisticRegression::new(); m.weights = w; m.bias = b; m.lr = lr; Mdl::Log(m) }
        3 => { let mut m = Perceptron::new(); m.weights = w; m.bias = b; m.lr = lr; Mdl::Per(m) }
        _ => { let mut m = LinearSvm::new(); m.weights = w; m.bias = b; m.lr = lr; m.c = reg; Mdl::Svm(m) }
    }
}
impl<F: Real + Copy, const N: usize> Mdl<F, N> {
    fn w(&self, p: [usize; 2]) -> [f64; 3] {
        match self {
            Mdl::Lin(m) => get(&m.weights, m.bias, p),
            Mdl::Rid(m) => get(&m.weights, m.bias, p),
            Mdl::Log(m) => get(&m.weights, m.bias, p),
            Mdl::Per(m) => get(&m.weights, m.bias, p),
            Mdl::Svm(m) => get(&m.weights, m.bias, p),
        }
    }
    fn others(&self, p: [usize; 2]) -> bool {
        let w = match self {
            Mdl::Lin(m) => &m.weights,
            Mdl::Rid(m) => &m.weights,
            Mdl::Log(m) => &m.weights,
            Mdl::Per(m) => &m.weights,
            Mdl::Svm(m) => &m.weights,
        };
        (0..N).all(|i| p.contains(&i) || w[i] == F::ZERO)
    }
    fn xs(d: &D, p: [usize; 2]) -> (Vec<Vector<F, N>>, Vec<F>, Vec<u8>) {
        (d.x.iter().map(|x| put(*x, p)).collect(), d.y.iter().map(|y| F::from_f64(*y)).collect(), d.lab.iter().map(|l| (*l > 0) as u8).collect())
    }
    fn epoch(&mut self, d: &D, p: [usize; 2]) {
        let (x, y, l01) = Self::xs(d, p);
        match self {
            Mdl::Lin(m) => m.train_epoch(&x, &y),
            Mdl::Rid(m) => m.train_epoch(&x, &y),
            Mdl::Log(m) => m.train_epoch(&x, &l01),
            Mdl::Per(m) => m.train_epoch(&x, &d.lab),
            Mdl::Svm(m) => m.train_epoch(&x, &d.lab),
        }
    }
    fn opt<const M: usize>(&mut self, d: &D, o: GradientDescentGeneric<F, M>, p: [usize; 2]) {
        let (x, y, l01) = Self::xs(d, p);
        match self {
            Mdl::Lin(m) => m.fit_with_optimizer(&x, &y, o),
            Mdl::Rid(m) => m.fit_with_optimizer(&x, &y, o),
            Mdl::Log(m) => m.fit_with_optimizer(&x, &l01, o),
            Mdl::Per(m) => m.fit_with_optimizer(&x, &d.lab, o),
            Mdl::Svm(m) => m.fit_with_optimizer(&x, &d.lab, o),
        }
    }
}
struct L01 {
    per: Option<Perceptron<f64, 2>>,
}
pub fn l01() -> Box<dyn Model> {
    Box::new(L01 { per: None })
}
fn amax(v: &[f64]) -> f64 {
    v.iter().fold(0.0f64, |a, b| a.max(b.abs()))
}
/// rounding of one update, and by how much an error of the weights may grow in it
fn rounding(d: &D, old: [f64; 3], lr: f64, reg: f64) -> (f64, f64) {
    let mx = d.x.iter().map(|x| x[0].abs().max(x[1].abs())).fold(1.0, f64::max);
    (1e-13 * (amax(&old) + lr * (mx * (mx * 3.0 * amax(&old) + amax(&d.y) + 1.0) * 2.0 + reg * amax(&old))), 1.0 + lr * (6.0 * mx * mx + reg))
}
fn epoch<F: Real + Copy, const N: usize>(cx: &Cx, p: [usize; 2], e: f64, sf: &str) {
    let d = data(cx, 7);
    let mut m = model::<F, N>(cx, p);
    let k = cx.us(0);
    let old = start(cx);
    if e > 1.0 && (k == 3 || k == 4 && unsure(&d, old, 1.0)) {
        return;
    }
    m.epoch(&d, p);
    if cx.x(0) == 1 {
        return;
    }
    let reg = match k { 1 => 2.0 * cx.af(2) / 16.0, 4 => 32.0 / cx.af(2), _ => 0.0 };
    let (t, _) = rounding(&d, old, cx.af(1) / 64.0, reg);
    let t = t * (1.0 + d.x.len() as f64 / 20.0);
    let g = m.w(p);
    let key = format!("epoch/{}{sf}", NAMES[k]);
    for i in 0..3 {
        cx.near(&key, g[i], cx.xf(1 + i) / 1e30, t * e, 1e-13 * e);
    }
    cx.check(&key, m.others(p), || "a weight without data moved".into());
}
/// single precision may decide on which side of `at` a margin is differently
fn unsure(d: &D, w: [f64; 3], at: f64) -> bool {
    d.x.iter().zip(&d.lab).any(|(x, l)| {
        let s = w[2] + w[0] * x[0] + w[1] * x[1];
        let m = w[2].abs() + (w[0] * x[0]).abs() + (w[1] * x[1]).abs() + 1.0;
        (s * *l as f64 - at).abs() < 1e-5 * m
    })
}
fn opt<F: Real + Copy, const N: usize, const M: usize>(cx: &Cx, p: [usize; 2], e: f64, sf: &str) {
    let d = data(cx, 10);
    let mut m = model::<F, N>(cx, p);
    let k = cx.us(0);
    let old = start(cx);
    let (lr, line, iters) = (cx.af(7) / 64.0, cx.i(8) == 1, cx.us(9));
    if e > 1.0 && (line || iters > 1 || k >= 3 && unsure(&d, old, (k - 3) as f64)) {
        return;
    }
    let mut o = GradientDescentGeneric::<F, M>::new();
    o.learning_rate(F::from_f64(lr)).backtracking(line).armijo(F::from_f64(1e-4), F::from_f64(0.5)).tolerances(F::ZERO, F::ZERO).max_iters(iters as u32);
    m.opt(&d, o, p);
    if cx.x(0) == 1 {
        return;
    }
    let reg = match k { 1 => 2.0 * cx.af(2) / 16.0, 4 => 16.0 / cx.af(2), _ => 0.0 };
    let (t, grow) = rounding(&d, old, lr, reg);
    let t = t * (1.0 + d.x.len() as f64 / 20.0) * if iters > 1 { 10.0 * grow.powi(2 * iters as i32 - 2) } else { 1.0 };
    let g = m.w(p);
    let key = format!("opt/{}{}{sf}", NAMES[k], if line { ".line_search" } else { "" });
    for i in 0..3 {
        cx.near(&key, g[i], cx.xf(1 + i) / 1e30, t * e, 1e-13 * e);
    }
    cx.check(&key, m.others(p), || "a weight without data moved".into());
}
fn ask<F: Real + Copy, const N: usize>(cx: &Cx, pl: [usize; 2], ef: f64, sf: &str) {
    let m = model::<F, N>(cx, pl);
    let x = put::<F, N>([cx.af(7) / 4.0, cx.af(8) / 4.0], pl);
    let (v, p) = (cx.xf(0) / 1e30, cx.xf(1) / 1e30);
    let w = start(cx);
    let tol = 1e-14 * w.iter().map(|t| t.abs()).sum::<f64>() * 10.0 * ef;
    let murky = cx.x(2) == 1 || ef > 1.0 && v.abs() < 2.0 * tol;
    match m {
        Mdl::Lin(m) => cx.near(&format!("ask/linear{sf}"), m.predict(&x).to_f64(), v, tol, 0.0),
        Mdl::Rid(m) => cx.near(&format!("ask/ridge{sf}"), m.predict(&x).to_f64(), v, tol, 0.0),
        Mdl::Log(m) => {
            cx.near(&format!("ask/probability{sf}"), m.predict_probability(&x).to_f64(), p, 1e-13 * ef + tol, 0.0);
            if !murky && v != 0.0 {
                cx.eq_i(&format!("ask/logistic_label{sf}"), m.predict(&x) as i128, (v > 0.0) as i128);
            }
        }
        Mdl::Per(m) => {
            cx.near(&format!("ask/perceptron{sf}"), m.predict_raw(&x).to_f64(), v, tol, 0.0);
            if !murky {
                cx.eq_i(&format!("ask/perceptron_label{sf}"), m.predict(&x) as i128, if v >= 0.0 { 1 } else { -1 });
            }
        }
        Mdl::Svm(m) => cx.near(&format!("ask/svm{sf}"), m.decision(&x).to_f64(), v, tol, 0.0),
    }
}
const E32: f64 = 5.4e8; // f32 rounding over f64 rounding
impl Model for L01 {
    fn step(&mut self, op: &str, cx: &mut Cx) {
        let cx = &*cx;
        match op {
            "nop" => {}
            "start" => {
                self.per = if let Mdl::Per(p) = model::<f64, 2>(cx, [0, 1]) { Some(p) } else { None };
            }
            "epoch" => {
                epoch::<f64, 2>(cx, [0, 1], 1.0, "");
                epoch::<f64, 5>(cx, [3, 1], 1.0, ".n5");
                epoch::<f32, 3>(cx, [2, 0], E32, ".f32");
                let d = data(cx, 7);
                if d.x.iter().all(|x| x[1] == 0.0) && cx.i(5) == 0 {
                    epoch::<f64, 1>(cx, [0, 9], 1.0, ".n1");
                }
                if let Some(p) = &mut self.per {
                    let x: Vec<Vector<f64, 2>> = d.x.iter().map(|x| Vector::new(*x)).collect();
                    p.train_epoch(&x, &d.lab);
                    let g = [p.weights[0], p.weights[1], p.bias];
                    for i in 0..3 {
                        cx.eq_f("epoch/perceptron_history", g[i], snap(cx.xf(1 + i)));
                    }
                }
            }
            "opt" => {
                opt::<f64, 2, 3>(cx, [0, 1], 1.0, "");
                opt::<f64, 4, 5>(cx, [3, 1], 1.0, ".n4");
                opt::<f32, 3, 4>(cx, [2, 0], E32, ".f32");
                if data(cx, 10).x.iter().all(|x| x[1] == 0.0) && cx.i(5) == 0 {
                    opt::<f64, 1, 2>(cx, [0, 9], 1.0, ".n1");
                }
            }
            "ask" => {
                ask::<f64, 2>(cx, [0, 1], 1.0, "");
                ask::<f64, 6>(cx, [5, 2], 1.0, ".n6");
                ask::<f32, 3>(cx, [2, 0], E32, ".f32");
            }
            "fit" => {
                let (k, n) = (cx.us(0), cx.us(1));
                let x: Vec<Vector<f64, 2>> = (0..n).map(|i| Vector::new([cx.af(2 + 3 * i) / 8.0, cx.af(3 + 3 * i) / 8.0])).collect();
                let y: Vec<usize> = (0..n).map(|i| cx.us(4 + 3 * i)).collect();
                let g = GaussianNB::<2>::fit(&x, &y, k);
                let l = Lda::<2>::fit(&x, &y, k);
                let q = Qda::<2>::fit(&x, &y, k);
                let e = |i: usize| cx.xf(i) / 1e30;
                cx.eq_i("fit/classes", g.class_count.len() as i128, k as i128);
                for c in 0..k {
                    let b = 9 * c;
                    cx.eq_i("fit/gnb_count", g.class_count[c] as i128, cx.x(b));
                    for (w, p) in [("gnb", g.class_prior[c]), ("lda", l.priors[c]), ("qda", q.priors[c])] {
                        cx.near(&format!("fit/{}_prior", w), p, e(b + 1), 1e-14, 0.0);
                    }
                    let sz = 100.0 + x.iter().map(|v| v[0].abs().max(v[1].abs())).fold(0.0, f64::max);
                    let span = |i: usize| x.iter().map(|v| v[i]).fold(f64::NEG_INFINITY, f64::max) - x.iter().map(|v| v[i]).fold(f64::INFINITY, f64::min);
                    let sp = 100.0 + span(0).max(span(1));
                    let s2 = sp * sp + sp * sz;
                    for i in 0..2 {
                        for (w, m) in [("gnb", g.class_mean[c][i]), ("lda", l.means[c][i]), ("qda", q.means[c][i])] {
                            cx.near(&format!("fit/{}_mean", w), m, e(b + 2 + i), 1e-14 * sz, 0.0);
                        }
                        cx.near("fit/gnb_variance", g.class_var[c][i], e(b + 4 + i), 1e-14 * s2, 0.0);
                        cx.near("fit/qda_cov", q.covs[c][(i, i)], e(b + 6 + i), 1e-13 * s2, 0.0);
                        cx.near("fit/qda_cov", q.covs[c][(i, 1 - i)], e(b + 8), 1e-13 * s2, 0.0);
                        cx.near("fit/lda_cov", l.pooled_cov[(i, i)], e(9 * k + i), 1e-13 * s2, 0.0);
                        cx.near("fit/lda_cov", l.pooled_cov[(i, 1 - i)], e(9 * k + 2), 1e-13 * s2, 0.0);
                    }
                }
                let qo = 2 + 3 * n;
                for j in 0..cx.us(qo) {
                    let p = Vector::new([cx.af(qo + 1 + 2 * j) / 8.0, cx.af(qo + 2 + 2 * j) / 8.0]);
                    for (i, (w, got)) in [("gnb", g.predict(&p)), ("lda", l.predict(&p)), ("qda", q.predict(&p))].into_iter().enumerate() {
                        let want = cx.x(9 * k + 3 + 3 * j + i);
                        if want >= 0 {
                            cx.eq_i(&format!("fit/{}_predict", w), got as i128, want);
                        }
                    }
                }
            }
            // a third feature, +1 on the first copy of every sample and -1 on the second
            "fit3" => {
                let (k, n) = (cx.us(0), cx.us(1));
                let z = n % 5 % 3; // its place
                let (a, b) = ((z + 1) % 3, (z + 2) % 3);
                let mk = |u: f64, v: f64, w: f64| {
                    let mut q = [0.0; 3];
                    q[a] = u;
                    q[b] = v;
                    q[z] = w;
                    Vector::new(q)
                };
                let x: Vec<Vector<f64, 3>> = (0..n).map(|i| mk(cx.af(2 + 3 * i) / 8.0, cx.af(3 + 3 * i) / 8.0, if i < n / 2 { 1.0 } else { -1.0 })).collect();
                let y: Vec<usize> = (0..n).map(|i| cx.us(4 + 3 * i)).collect();
                let g = GaussianNB::<3>::fit(&x, &y, k);
                let l = Lda::<3>::fit(&x, &y, k);
                let q = Qda::<3>::fit(&x, &y, k);
                let e = |i: usize| cx.xf(i) / 1e30;
                let sz = 100.0 + x.iter().map(|v| v[a].abs().max(v[b].abs())).fold(0.0, f64::max);
                let t1 = 1e-14 * sz;
                let t2 = 2e-13 * (100.0 + sz) * sz;
                let mut pool = 0.0;
                for c in 0..k {
                    let o = 9 * c;
                    let nc = cx.x(o) as f64;
                    let vz = if nc > 0.0 { nc / (nc - 1.0) } else { 0.0 };
                    pool += vz * nc / n as f64;
                    for (i, p) in [(a, 0), (b, 1)] {
                        for (w, m) in [("gnb", g.class_mean[c][i]), ("lda", l.means[c][i]), ("qda", q.means[c][i])] {
                            cx.near(&format!("fit3/{}_mean", w), m, e(o + 2 + p), t1, 0.0);
                        }
                        cx.near("fit3/gnb_variance", g.class_var[c][i], e(o + 4 + p), t2, 0.0);
                        cx.near("fit3/qda_cov", q.covs[c][(i, i)], e(o + 6 + p), t2, 0.0);
                        cx.near("fit3/qda_cov", q.covs[c][(i, a + b - i)], e(o + 8), t2, 0.0);
                        cx.near("fit3/qda_cov", q.covs[c][(i, z)], 0.0, t2, 0.0);
                        cx.near("fit3/qda_cov", q.covs[c][(z, i)], 0.0, t2, 0.0);
                    }
                    cx.near("fit3/gnb_variance", g.class_var[c][z], if nc > 0.0 { 1.0 } else { 0.0 }, t2, 0.0);
                    cx.near("fit3/qda_cov", q.covs[c][(z, z)], vz, t2, 0.0);
                }
                for (i, p) in [(a, 0), (b, 1)] {
                    cx.near("fit3/lda_cov", l.pooled_cov[(i, i)], e(9 * k + p), t2, 0.0);
                    cx.near("fit3/lda_cov", l.pooled_cov[(i, a + b - i)], e(9 * k + 2), t2, 0.0);
                    cx.near("fit3/lda_cov", l.pooled_cov[(i, z)], 0.0, t2, 0.0);
                }
                cx.near("fit3/lda_cov", l.pooled_cov[(z, z)], pool, t2, 0.0);
                let qo = 2 + 3 * n;
                for j in 0..cx.us(qo) {
                    let p = mk(cx.af(qo + 1 + 3 * j) / 8.0, cx.af(qo + 2 + 3 * j) / 8.0, cx.af(qo + 3 + 3 * j) / 8.0);
                    for (i, (w, got)) in [("gnb", g.predict(&p)), ("lda", l.predict(&p)), ("qda", q.predict(&p))].into_iter().enumerate() {
                        let want = cx.x(9 * k + 3 + 3 * j + i);
                        if want >= 0 {
                            cx.eq_i(&format!("fit3/{}_predict", w), got as i128, want);
                        }
                    }
                }
            }
            _ => bad(op),
        }
    }
}
