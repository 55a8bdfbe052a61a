//! O01, O02 on aether_opt.
use crate::util::*;
use aether_core::math::Vector;
use aether_opt::gradient_descent::{GDStochastic, GDStochasticParallel, GradientDescentGeneric};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

const SC: f64 = 1e30;
const REL: f64 = 1e-9;

pub fn o01() -> Box<dyn Model> {
    Box::new(O01)
}
struct O01;
/// coordinates `v` at places `pl`, `o` elsewhere
fn put<const N: usize, const K: usize>(v: [f64; K], o: f64, pl: [usize; K]) -> [f64; N] {
    let mut a = [o; N];
    for k in 0..K {
        a[pl[k]] = v[k];
    }
    a
}
fn descend<const N: usize>(cx: &Cx, pl: [usize; 3], plain: bool) {
    let q = |k: usize| cx.aq(k, SC);
    let v3 = |k: usize| [q(k), q(k + 1), q(k + 2)];
    let kk = cx.us(0) as u32;
    let (lo, hi, start) = (v3(9), v3(12), v3(15));
    let a = [q(18), q(19), q(20), q(21), q(22), q(23)];
    let b = v3(24);
    let (c, qq) = (q(27), q(28));
    let mut o = GradientDescentGeneric::<f64, N>::new();
    if !plain {
        o.learning_rate(q(1)).momentum(q(2)).backtracking(cx.i(3) == 1).armijo(q(4), q(5)).tolerances(q(6), q(7));
    }
    o.max_iters(kk);
    let bnd = cx.i(8) == 1;
    if bnd {
        o.set_bounds(put(lo, -0.5, pl), put(hi, 1.5, pl));
    } else {
        o.set_bounds([1.0; N], [1.5; N]);
        o.clear_bounds();
    }
    let at = |p: &Vector<f64, N>| [p[pl[0]], p[pl[1]], p[pl[2]]];
    let ax = |p: &[f64; 3]| {
        [a[0] * p[0] + a[3] * p[1] + a[4] * p[2], a[3] * p[0] + a[1] * p[1] + a[5] * p[2], a[4] * p[0] + a[5] * p[1] + a[2] * p[2]]
    };
    let f = |z: &Vector<f64, N>| {
        let p = at(z);
        let w = ax(&p);
        let mut s = c;
        for i in 0..3 {
            s += 0.5 * p[i] * w[i] - b[i] * p[i] + qq * p[i] * p[i] * p[i] * p[i] / 4.0;
        }
        s
    };
    let g = |z: &Vector<f64, N>| {
        let p = at(z);
        let w = ax(&p);
        Vector::new(put([w[0] - b[0] + qq * p[0].powi(3), w[1] - b[1] + qq * p[1].powi(3), w[2] - b[2] + qq * p[2].powi(3)], 0.0, pl))
    };
    let (z, fx, it, conv) = o.minimize(Vector::new(put(start, 0.25, pl)), f, g);
    let x = at(&z);
    cx.check("other_coordinates", (0..N).all(|i| pl.contains(&i) || z[i] == 0.25), || format!("{:?}", z.data));
    let mut scale = 0f64;
    for i in 0..3 {
        scale = scale.max((cx.xf(i) / SC).abs());
    }
    for i in 0..3 {
        cx.near("x", x[i], cx.xf(i) / SC, 1e-11 + REL * scale, 0.0);
        if bnd {
            cx.check("bounds", x[i] >= lo[i] && x[i] <= hi[i], || format!("{} outside [{},{}]", x[i], lo[i], hi[i]));
        }
    }
    let fw = cx.xf(3) / SC;
    cx.near("f", fx, fw, 1e-9 + 1e-8 * scale * scale * (1.0 + scale * scale * qq), 1e-9);
    cx.eq_f("truthful", fx, f(&z));
    cx.eq_i("iters", it as i128, cx.x(4));
    cx.eq_b("converged", conv, cx.x(5) == 1);
    // a monotone line search never ends above its starting value
    if cx.i(3) == 1 {
        let mut p = start;
        if bnd {
            for i in 0..3 {
                p[i] = p[i].max(lo[i]).min(hi[i]);
            }
        }
        let f0 = f(&Vector::new(put(p, 0.25, pl)));
        cx.check("descent", fx <= f0 + 1e-12 * f0.abs() + 1e-12, || format!("f {} above start {}", fx, f0));
    }
}
impl Model for O01 {
    fn step(&mut self, op: &str, cx: &mut Cx) {
        if op != "run" && op != "plain" {
            bad(op)
        }
        let cx = &*cx;
        descend::<3>(cx, [0, 1, 2], op == "plain");
        descend::<6>(cx, [4, 0, 3], op == "plain");
        let q = |k: usize| cx.aq(k, SC);
        let v3 = |k: usize| [q(k), q(k + 1), q(k + 2)];
        let kk = cx.us(0) as u32;
        let (lo, hi, start) = (v3(9), v3(12), v3(15));
        let bnd = cx.i(8) == 1;
        // single precision instance on the same run: feasible and truthful
        let mut o32 = GradientDescentGeneric::<f32, 3>::new();
        o32.learning_rate(q(1) as f32).momentum(q(2) as f32).backtracking(cx.i(3) == 1).tolerances(q(6) as f32, q(7) as f32).max_iters(kk.min(6));
        let (l32, h32) = (lo.map(|t| t as f32), hi.map(|t| t as f32));
        if bnd {
            o32.set_bounds(l32, h32);
        }
        let f32o = |p: &Vector<f32, 3>| (p[0] - 1.0) * (p[0] - 1.0) + p[1] * p[1] * 0.5 + (p[2] + 2.0) * (p[2] + 2.0) * 0.25;
        let g32 = |p: &Vector<f32, 3>| Vector::new([2.0 * (p[0] - 1.0), p[1], (p[2] + 2.0) * 0.5]);
        let (y, fy, i32n, _) = o32.minimize(Vector::new(start.map(|t| t as f32)), f32o, g32);
        cx.check("f32", fy == f32o(&y) && i32n <= kk.min(6) && (!bnd || (0..3).all(|i| y[i] >= l32[i] && y[i] <= h32[i])), || format!("{:?} {} {}", y.data, fy, i32n));
    }
}

pub fn o02() -> Box<dyn Model> {
    Box::new(O02)
}
struct O02;
struct Run<const N: usize> {
    x: [f64; N],
    f: f64,
    it: u32,
    conv: bool,
    calls: usize,
    same: bool,
}
fn scripted<const N: usize>(cx: &Cx, pl: [usize; 2], plain: bool) {
    let q = |k: usize| cx.aq(k, SC);
    let kk = cx.us(0) as u32;
    let seed = cx.u64(1);
    let asked = cx.us(5) as u32;
    let bs = asked.max(1);
    let bnd = cx.i(11) == 1;
    let corr = cx.i(12) == 1;
    let (lo, hi) = ([q(13), q(14)], [q(15), q(16)]);
    let th = cx.us(17);
    let c = [q(18), q(19)];
    let f0 = q(20);
    let start = [q(21), q(22)];
    let script: Vec<f64> = (23..cx.an()).map(|k| cx.aq(k, 8.0)).collect();
    let f = |p: &Vector<f64, N>| (p[pl[0]] - c[0]).powi(2) + (p[pl[1]] - c[1]).powi(2) / 2.0 + f0;
    let mut runs: Vec<(&str, Run<N>)> = vec![];
    {
        let mut o = GDStochastic::<N>::new(seed);
        if !plain {
            o.learning_rate(q(2)).decay(q(3)).momentum(q(4)).batch_size(asked).ema(q(6)).tolerances(q(7), q(8)).tol_f(q(9)).min_iters(cx.us(10) as u32).bias_corrected_ema(corr);
        }
        o.max_iters(kk);
        if bnd {
            o.set_bounds(put(lo, -0.5, pl), put(hi, 1.5, pl));
        } else if !plain {
            o.set_bounds([1.0; N], [1.5; N]).clear_bounds();
        }
        let n = Cell::new(0usize);
        let last = Cell::new([f64::NAN; N]);
        let same = Cell::new(true);
        let (x, fx, it, conv) = o.minimize(Vector::new(put(start, 0.25, pl)), f, |p, _r| {
            let k = n.get();
            n.set(k + 1);
            if k % bs as usize != 0 && last.get() != p.data {
                same.set(false);
            }
            last.set(p.data);
            Vector::new(put([*script.get(2 * k).unwrap_or(&f64::NAN), *script.get(2 * k + 1).unwrap_or(&f64::NAN)], 0.0, pl))
        });
        runs.push(("seq", Run { x: x.data, f: fx, it, conv, calls: n.get(), same: same.get() }));
    }
    if corr && !plain {
        let mut o = GDStochasticParallel::<f64, N>::new(seed);
        o.learning_rate(q(2)).decay(q(3)).momentum(q(4)).batch_size(asked).ema(q(6)).tolerances(q(7), q(8)).tol_f(q(9)).min_iters(cx.us(10) as u32).threads(th).max_iters(kk);
        if bnd {
            o.set_bounds(put(lo, -0.5, pl), put(hi, 1.5, pl));
        } else {
            o.set_bounds([1.0; N], [1.5; N]).clear_bounds();
        }
        let n = AtomicUsize::new(0);
        let st = Mutex::new((usize::MAX, [f64::NAN; N], true));
        let (x, fx, it, conv) = o.minimize(Vector::new(put(start, 0.25, pl)), f, |p, _r| {
            let k = {
                let mut g = st.lock().unwrap();
                let k = n.fetch_add(1, Ordering::SeqCst);
                let b = k / bs as usize;
                if g.0 == b && g.1 != p.data {
                    g.2 = false;
                }
                g.0 = b;
                g.1 = p.data;
                k
            };
            if k % 3 == 0 {
                std::thread::yield_now();
            }
            Vector::new(put([*script.get(2 * k).unwrap_or(&f64::NAN), *script.get(2 * k + 1).unwrap_or(&f64::NAN)], 0.0, pl))
        });
        let same = st.lock().unwrap().2;
        runs.push(("par", Run { x: x.data, f: fx, it, conv, calls: n.load(Ordering::SeqCst), same }));
    }
    for (w, r) in runs {
        for i in 0..2 {
            cx.near(&format!("{w}-x"), r.x[pl[i]], cx.xf(i) / SC, 1e-10, 1e-9);
            if bnd {
                cx.check(&format!("{w}-bounds"), r.x[pl[i]] >= lo[i] && r.x[pl[i]] <= hi[i], || format!("{:?}", r.x));
            }
        }
        cx.check(&format!("{w}-other_coordinates"), (0..N).all(|i| pl.contains(&i) || r.x[i] == 0.25), || format!("{:?}", r.x));
        cx.near(&format!("{w}-f"), r.f, cx.xf(2) / SC, 1e-8, 1e-8);
        cx.eq_f(&format!("{w}-truthful"), r.f, f(&Vector::new(r.x)));
        cx.eq_i(&format!("{w}-iters"), r.it as i128, cx.x(3));
        cx.eq_b(&format!("{w}-converged"), r.conv, cx.x(4) == 1);
        cx.eq_i(&format!("{w}-calls"), r.calls as i128, (script.len() / 2) as i128);
        cx.check(&format!("{w}-iterate"), r.same, || "samples of one batch taken at different points".into());
    }
}
impl Model for O02 {
    fn step(&mut self, op: &str, cx: &mut Cx) {
        match op {
            "run" | "plain" => {
                scripted::<2>(cx, [0, 1], op == "plain");
                scripted::<5>(cx, [3, 1], op == "plain");
            }
            "streams" => {
                let seed = cx.u64(0);
                let (bs, it, th) = (cx.us(1), cx.us(2), cx.us(3));
                // sequential: the sampler sees the generator's own stream
                let words = std::cell::RefCell::new(vec![]);
                let mut o = GDStochastic::<1>::new(seed);
                o.batch_size(bs as u32).max_iters(it as u32).tolerances(0.0, 0.0).learning_rate(0.125).decay(0.0);
                o.minimize(Vector::new([0.5]), |_| 1.0, |_, r| {
                    words.borrow_mut().push(r.next_u64());
                    Vector::new([1.0])
                });
                let w = words.into_inner();
                cx.eq_i("seq-draws", w.len() as i128, cx.en() as i128);
                for k in 0..cx.en().min(w.len()) {
                    cx.eq_i("seq-word", w[k] as i128, cx.x(k));
                }
                // parallel: reproducible whatever the schedule, every worker and iteration its own stream
                let go = |jitter: usize| {
                    let seen = Mutex::new(vec![]);
                    let mut o = GDStochasticParallel::<f64, 2>::new(seed);
                    o.batch_size(bs as u32).max_iters(it as u32).tolerances(0.0, 0.0).learning_rate(0.0137).momentum(0.3);
                    // unset, the number of workers is that of the machine
                    if th < 8 {
                        o.threads(th);
                    }
                    let r = o.minimize(Vector::new([0.5, -1.25]), |p| p[0] + p[1], |p, r| {
                        let a = r.next_u64();
                        for _ in 0..(a as usize ^ jitter) % 4 * jitter {
                            std::thread::yield_now();
                        }
                        seen.lock().unwrap().push(a);
                        let u = (a >> 11) as f64 / (1u64 << 53) as f64;
                        Vector::new([p[0] * 0.7 + u + 0.1, p[1] - u * 3.0])
                    });
                    let mut s = seen.into_inner().unwrap();
                    s.sort();
                    (s, r.0.data.map(f64::to_bits), r.1.to_bits(), r.2, r.3)
                };
                let a = go(0);
                for j in 1..4 {
                    let b = go(j);
                    cx.check("par-reproducible", a == b, || "two runs differ".into());
                }
                cx.eq_i("par-draws", a.0.len() as i128, (bs * it) as i128);
                let mut d = a.0.clone();
                d.dedup();
                cx.eq_i("par-distinct", d.len() as i128, a.0.len() as i128);
                // the single precision instance honours the same contract
                let go32 = |jitter: usize| {
                    let seen = Mutex::new(vec![]);
                    let mut o = GDStochasticParallel::<f32, 3>::new(seed);
                    o.batch_size(bs as u32).max_iters(it as u32).tolerances(0.0, 0.0).threads(th).learning_rate(0.0137).momentum(0.3);
                    let r = o.minimize(Vector::new([0.5, -1.25, 2.0]), |p| p[0] + p[1] - p[2], |p, r| {
                        let a = r.next_u64();
                        for _ in 0..(a as usize ^ jitter) % 4 * jitter {
                            std::thread::yield_now();
                        }
                        seen.lock().unwrap().push(a);
                        let u = (a >> 40) as f32 / (1u64 << 24) as f32;
                        Vector::new([p[0] * 0.7 + u + 0.1, p[1] - u * 3.0, p[2] * u + 1.0])
                    });
                    let mut s = seen.into_inner().unwrap();
                    s.sort();
                    (s, r.0.data.map(f32::to_bits), r.1.to_bits(), r.2, r.3)
                };
                let b = go32(0);
                cx.check("par32-reproducible", b == go32(1), || "two runs differ".into());
            }
            "long" => {
                let go = |jitter: bool| {
                    let seen = Mutex::new(vec![]);
                    let mut o = GDStochasticParallel::<f64, 1>::new(cx.u64(0));
                    o.batch_size(cx.us(1) as u32).max_iters(cx.us(2) as u32).tolerances(0.0, 0.0).threads(cx.us(3)).learning_rate(1e-3);
                    let r = o.minimize(Vector::new([0.5]), |p| p[0], |p, r| {
                        let a = r.next_u64();
                        if jitter && a & 3 == 0 {
                            std::thread::yield_now();
                        }
                        seen.lock().unwrap().push(a);
                        Vector::new([1.0 + (a >> 11) as f64 / (1u64 << 53) as f64 + 0.01 * p[0]])
                    });
                    let mut s = seen.into_inner().unwrap();
                    s.sort();
                    (s, r.0.data.map(f64::to_bits), r.1.to_bits(), r.2, r.3)
                };
                let a = go(false);
                cx.check("reproducible", a == go(true), || "two runs differ".into());
                cx.eq_i("draws", a.0.len() as i128, cx.x(0));
                cx.eq_i("iterations", a.3 as i128, cx.i(2));
                let mut d = a.0.clone();
                d.dedup();
                cx.eq_i("distinct", d.len() as i128, a.0.len() as i128);
            }
            _ => bad(op),
        }
    }
}
