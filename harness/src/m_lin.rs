//! M01 on aether_core::math.
use crate::util::*;
use aether_core::math::arch::x86::{matrix_simd as ms, vector_simd as vs};
use aether_core::math::{Matrix, Tensor3, Tensor4, TensorView, TensorViewMut, Vector};
use aether_core::real::Real;
use crate::lin_util::{mat, vecn};

pub fn m01() -> Box<dyn Model> {
    Box::new(M01 { p: None })
}
struct M01 {
    p: Option<Box<dyn Model>>,
}
/// leading block, read through plain array access
fn blk<T: Real, const M: usize, const N: usize, const A: usize, const B: usize>(m: &Matrix<T, M, N>) -> Matrix<T, A, B> {
    let mut o = Matrix::new([[T::ZERO; B]; A]);
    for i in 0..A {
        for j in 0..B {
            o.data[i][j] = m.data[i][j];
        }
    }
    o
}
pub fn cmp_m<T: Real, const M: usize, const N: usize>(cx: &Cx, k: &str, m: &Matrix<T, M, N>, base: usize, off: usize, rows: usize) {
    for i in 0..rows {
        for j in 0..N {
            let g = m.data[base + i][j].to_f64();
            let w = cx.xf(off + i * N + j);
            if g != w {
                cx.fail(k, format!("[{},{}] got {} want {}", base + i, j, g, w));
                return;
            }
        }
    }
}
pub fn cmp_v<T: Real, const N: usize>(cx: &Cx, k: &str, v: &Vector<T, N>, off: usize) {
    for j in 0..N {
        let (g, w) = (v.data[j].to_f64(), cx.xf(off + j));
        if g != w {
            cx.fail(k, format!("[{}] got {} want {}", j, g, w));
            return;
        }
    }
}
struct Side<T: Real, const M: usize, const N: usize, const P: usize> {
    x: Matrix<T, M, N>,
    y: Matrix<T, M, N>,
    z: Matrix<T, N, P>,
    u: Vector<T, N>,
    w: Vector<T, N>,
    ym: Vector<T, M>,
}
/// per-type operations that are not generic over Real
trait Simd: Real + core::ops::AddAssign + core::ops::SubAssign + std::fmt::Display + 'static {
    const W: &'static str;
    fn matsimd<const M: usize, const N: usize, const P: usize>(a: &Matrix<Self, M, N>, b: &Matrix<Self, N, P>) -> Vec<(&'static str, Matrix<Self, M, P>)>;
    fn vec4<const M: usize>(a: &Matrix<Self, M, 4>, b: &Vector<Self, 4>) -> Vec<(&'static str, Vector<Self, M>)>;
    fn vec6<const M: usize>(a: &Matrix<Self, M, 6>, b: &Vector<Self, 6>) -> Vec<(&'static str, Vector<Self, M>)>;
    fn dot4(a: &Vector<Self, 4>, b: &Vector<Self, 4>) -> Vec<(&'static str, Self)>;
    fn m3(a: &Matrix<Self, 3, 3>, b: &Matrix<Self, 3, 3>) -> Matrix<Self, 3, 3>;
    fn m4(a: &Matrix<Self, 4, 4>, b: &Matrix<Self, 4, 4>) -> Matrix<Self, 4, 4>;
    fn m6(a: &Matrix<Self, 6, 6>, b: &Matrix<Self, 6, 6>) -> Matrix<Self, 6, 6>;
}
fn fma() -> bool {
    std::is_x86_feature_detected!("avx") && std::is_x86_feature_detected!("fma")
}
fn avx() -> bool {
    std::is_x86_feature_detected!("avx")
}
impl Simd for f64 {
    const W: &'static str = "f64";
    fn matsimd<const M: usize, const N: usize, const P: usize>(a: &Matrix<f64, M, N>, b: &Matrix<f64, N, P>) -> Vec<(&'static str, Matrix<f64, M, P>)> {
        let mut v = vec![("simd", a.mul_matrix_simd(b))];
        if avx() {
            v.push(("avx", unsafe { ms::mul_matrix_avx_f64(a, b) }));
        }
        if fma() {
            v.push(("avxfma", unsafe { ms::mul_matrix_avx_fma_f64(a, b) }));
        }
        v
    }
    fn vec4<const M: usize>(a: &Matrix<f64, M, 4>, b: &Vector<f64, 4>) -> Vec<(&'static str, Vector<f64, M>)> {
        let mut v = vec![("simd", a.mul_vec4_simd(b))];
        if avx() {
            v.push(("avx", unsafe { ms::mul_vec4_avx_f64(a, b) }));
        }
        if fma() {
            v.push(("avxfma", unsafe { ms::mul_vec4_avx_fma_f64(a, b) }));
        }
        v
    }
    fn vec6<const M: usize>(a: &Matrix<f64, M, 6>, b: &Vector<f64, 6>) -> Vec<(&'static str, Vector<f64, M>)> {
        let mut v = vec![("simd", a.mul_vec6_simd(b)), ("sse2", unsafe { ms::mul_vec6_sse2_f64(a, b) })];
        if avx() {
            v.push(("avx", unsafe { ms::mul_vec6_avx_f64(a, b) }));
        }
        if fma() {
            v.push(("avxfma", unsafe { ms::mul_vec6_avx_fma_f64(a, b) }));
            v.push(("fma128", unsafe { ms::mul_vec6_fma128_f64(a, b) }));
        }
        v
    }
    fn dot4(a: &Vector<f64, 4>, b: &Vector<f64, 4>) -> Vec<(&'static str, f64)> {
        let mut v = vec![("simd", a.dot4_simd(b))];
        if avx() {
            v.push(("avx", unsafe { vs::dot4_avx_f64(a, b) }));
        }
        if fma() {
            v.push(("avxfma", unsafe { vs::dot4_avx_fma_f64(a, b) }));
        }
        v
    }
    fn m3(a: &Matrix<f64, 3, 3>, b: &Matrix<f64, 3, 3>) -> Matrix<f64, 3, 3> {
        a.mul_mat3_simd(b)
    }
    fn m4(a: &Matrix<f64, 4, 4>, b: &Matrix<f64, 4, 4>) -> Matrix<f64, 4, 4> {
        a.mul_mat4_simd(b)
    }
    fn m6(a: &Matrix<f64, 6, 6>, b: &Matrix<f64, 6, 6>) -> Matrix<f64, 6, 6> {
        a.mul_mat6_simd(b)
    }
}
impl Simd for f32 {
    const W: &'static str = "f32";
    fn matsimd<const M: usize, const N: usize, const P: usize>(a: &Matrix<f32, M, N>, b: &Matrix<f32, N, P>) -> Vec<(&'static str, Matrix<f32, M, P>)> {
        let mut v = vec![("simd", a.mul_matrix_simd(b))];
        if avx() {
            v.push(("avx", unsafe { ms::mul_matrix_avx_f32(a, b) }));
        }
        if fma() {
            v.push(("avxfma", unsafe { ms::mul_matrix_avx_fma_f32(a, b) }));
        }
        v
    }
    fn vec4<const M: usize>(a: &Matrix<f32, M, 4>, b: &Vector<f32, 4>) -> Vec<(&'static str, Vector<f32, M>)> {
        let mut v = vec![("simd", a.mul_vec4_simd(b)), ("sse", unsafe { ms::mul_vec4_sse_f32(a, b) })];
        if fma() {
            v.push(("ssefma", unsafe { ms::mul_vec4_sse_fma_f32(a, b) }));
        }
        v
    }
    fn vec6<const M: usize>(a: &Matrix<f32, M, 6>, b: &Vector<f32, 6>) -> Vec<(&'static str, Vector<f32, M>)> {
        let mut v = vec![("simd", a.mul_vec6_simd(b)), ("sse", unsafe { ms::mul_vec6_sse_f32(a, b) })];
        if avx() {
            v.push(("avx", unsafe { ms::mul_vec6_avx_f32(a, b) }));
        }
        if fma() {
            v.push(("avxfma", unsafe { ms::mul_vec6_avx_fma_f32(a, b) }));
            v.push(("fma128", unsafe { ms::mul_vec6_fma128_f32(a, b) }));
        }
        v
    }
    fn dot4(a: &Vector<f32, 4>, b: &Vector<f32, 4>) -> Vec<(&'static str, f32)> {
        let mut v = vec![("simd", a.dot4_simd(b)), ("sse", unsafe { vs::dot4_sse_f32(a, b) })];
        if fma() {
            v.push(("ssefma", unsafe { vs::dot4_sse_fma_f32(a, b) }));
        }
        v
    }
    fn m3(a: &Matrix<f32, 3, 3>, b: &Matrix<f32, 3, 3>) -> Matrix<f32, 3, 3> {
        a.mul_mat3_simd(b)
    }
    fn m4(a: &Matrix<f32, 4, 4>, b: &Matrix<f32, 4, 4>) -> Matrix<f32, 4, 4> {
        a.mul_mat4_simd(b)
    }
    fn m6(a: &Matrix<f32, 6, 6>, b: &Matrix<f32, 6, 6>) -> Matrix<f32, 6, 6> {
        a.mul_mat6_simd(b)
    }
}
fn sq<T: Simd, const M: usize, const N: usize, const Q: usize>(cx: &Cx, x: &Matrix<T, M, N>, y: &Matrix<T, M, N>) {
    let (a, b) = (blk::<T, M, N, Q, Q>(x), blk::<T, M, N, Q, Q>(y));
    let k = |s: &str| format!("{}-{}", s, T::W);
    cx.eq_f(&k("trace"), a.trace().to_f64(), cx.xf(0));
    cmp_m(cx, &k("mul"), &(a * b), 0, 2, Q);
    let d: [T; Q] = std::array::from_fn(|i| a.data[i][i]);
    let want = |i: usize, j: usize| if i == j { d[i] } else { T::ZERO };
    for (n, m) in [("diag", Matrix::<T, Q, Q>::diag(&d)), ("diagv", Matrix::<T, Q, Q>::diag_from_vector(&Vector::new(d)))] {
        let ok = (0..Q).all(|i| (0..Q).all(|j| m.data[i][j] == want(i, j)));
        cx.check(&k(n), ok, || format!("{:?}", m.data));
    }
    let id = Matrix::<T, Q, Q>::identity();
    cx.check(&k("identity"), (0..Q).all(|i| (0..Q).all(|j| id.data[i][j] == if i == j { T::ONE } else { T::ZERO })), || format!("{:?}", id.data));
    cx.check(&k("id-mul"), id * a == a && a * id == a, || "I*A != A".into());
}
impl<T: Simd, const M: usize, const N: usize, const P: usize> Side<T, M, N, P> {
    fn new(cx: &Cx) -> Self {
        let v: Vec<f64> = (4..cx.an()).map(|k| cx.af(k)).collect();
        let (a, b, c) = (M * N, 2 * M * N, 2 * M * N + N * P);
        Side { x: mat(&v[0..a]), y: mat(&v[a..b]), z: mat(&v[b..c]), u: vecn(&v[c..c + N]), w: vecn(&v[c + N..c + 2 * N]), ym: vecn(&v[c + 2 * N..]) }
    }
    fn step(&mut self, op: &str, cx: &Cx) {
        let kk = |s: &str| format!("{}-{}", s, T::W);
        let t = |v: i128| T::from_f64(v as f64);
        match op {
            "madd" => {
                let r = self.x + self.y;
                self.x = r;
                cmp_m(cx, &kk("add"), &r, 0, 0, M);
            }
            "msub" => {
                let r = self.x - self.y;
                self.x = r;
                cmp_m(cx, &kk("sub"), &r, 0, 0, M);
            }
            "mneg" => {
                self.x = -self.x;
                cmp_m(cx, &kk("neg"), &self.x, 0, 0, M);
            }
            "mscale" => {
                self.x = self.x * t(cx.i(0));
                cmp_m(cx, &kk("scale"), &self.x, 0, 0, M);
            }
            "mdiv" => {
                let r = self.x / t(cx.i(0));
                let back = r * t(cx.i(0));
                cmp_m(cx, &kk("div"), &back, 0, 0, M);
                let ok = (0..M).all(|i| (0..N).all(|j| r.data[i][j].to_f64() * cx.af(0) == cx.xf(i * N + j)));
                cx.check(&kk("div-value"), ok, || "quotient wrong".into());
            }
            "mset" => {
                let (r, c, v) = (cx.us(0), cx.us(1), t(cx.i(2)));
                let mut b = self.x;
                let mut d = self.x;
                self.x[(r, c)] = v;
                b[r][c] = v;
                d.data[r][c] = v;
                cmp_m(cx, &kk("set"), &self.x, 0, 0, M);
                cx.check(&kk("index"), b == self.x && d == self.x && self.x[(r, c)] == v && self.x[r][c] == v, || "index forms differ".into());
            }
            "mouter" => {
                self.x = Matrix::outer(&self.ym, &self.w);
                cmp_m(cx, &kk("outer"), &self.x, 0, 0, M);
            }
            "prod" => {
                let (base, rows) = (cx.us(0), cx.us(1));
                let mut l: Vec<(&str, Matrix<T, M, P>)> = vec![("vv", self.x * self.z), ("rr", &self.x * &self.z), ("vr", self.x * &self.z), ("rv", &self.x * self.z)];
                l.extend(T::matsimd(&self.x, &self.z));
                for (n, m) in l {
                    cmp_m(cx, &format!("mul-{}-{}", n, T::W), &m, base, 0, rows);
                }
            }
            "mulvec" => {
                for (n, v) in [("vv", self.x * self.w), ("rr", &self.x * &self.w), ("vr", self.x * &self.w), ("rv", &self.x * self.w)] {
                    cmp_v(cx, &format!("mulvec-{}-{}", n, T::W), &v, 0);
                }
                // the same through row/column matrices
                let c = self.x * self.w.col();
                cmp_m(cx, &kk("col"), &c, 0, 0, M);
                let r = self.w.row() * self.x.transpose();
                let ok = (0..M).all(|i| r.data[0][i].to_f64() == cx.xf(i));
                cx.check(&kk("row"), ok, || "row * transpose".into());
            }
            "mulvec4" => {
                let a = blk::<T, M, N, M, 4>(&self.x);
                let w = Vector::new(std::array::from_fn(|i| self.w.data[i]));
                for (n, v) in T::vec4(&a, &w) {
                    cmp_v(cx, &format!("vec4-{}-{}", n, T::W), &v, 0);
                }
            }
            "mulvec6" => {
                let a = blk::<T, M, N, M, 6>(&self.x);
                let w = Vector::new(std::array::from_fn(|i| self.w.data[i]));
                for (n, v) in T::vec6(&a, &w) {
                    cmp_v(cx, &format!("vec6-{}-{}", n, T::W), &v, 0);
                }
            }
            "trans" => {
                let r = self.x.transpose();
                cmp_m(cx, &kk("transpose"), &r, 0, 0, N);
                cx.check(&kk("transpose2"), r.transpose() == self.x, || "transpose twice".into());
                cx.check(&kk("eq"), self.x == self.x && (self.x == self.y) == (self.x.data == self.y.data), || "equality".into());
            }
            "square" => {
                cx.eq_f(&kk("max_abs"), self.x.max_abs().to_f64(), cx.xf(1));
                match cx.us(0) {
                    1 => sq::<T, M, N, 1>(cx, &self.x, &self.y),
                    2 => sq::<T, M, N, 2>(cx, &self.x, &self.y),
                    3 => {
                        sq::<T, M, N, 3>(cx, &self.x, &self.y);
                        cmp_m(cx, &kk("mat3"), &T::m3(&blk(&self.x), &blk(&self.y)), 0, 2, 3);
                    }
                    4 => {
                        sq::<T, M, N, 4>(cx, &self.x, &self.y);
                        cmp_m(cx, &kk("mat4"), &T::m4(&blk(&self.x), &blk(&self.y)), 0, 2, 4);
                        let f = blk::<T, M, N, 4, 4>(&self.x).as_flat_array();
                        cx.check(&kk("flat"), (0..16).all(|i| f[i] == self.x.data[i / 4][i % 4]), || format!("{:?}", f));
                    }
                    6 => {
                        sq::<T, M, N, 6>(cx, &self.x, &self.y);
                        cmp_m(cx, &kk("mat6"), &T::m6(&blk(&self.x), &blk(&self.y)), 0, 2, 6);
                    }
                    8 => sq::<T, M, N, 8>(cx, &self.x, &self.y),
                    _ => sq::<T, M, N, 9>(cx, &self.x, &self.y),
                }
            }
            "vadd" => {
                let l = [("vv", self.u + self.w), ("rr", &self.u + &self.w), ("vr", self.u + &self.w), ("rv", &self.u + self.w)];
                let mut a = self.u;
                a += self.w;
                let mut b = self.u;
                b += &self.w;
                for (n, v) in l.into_iter().chain([("assign", a), ("assignr", b)]) {
                    cmp_v(cx, &format!("vadd-{}-{}", n, T::W), &v, 0);
                    self.u = v;
                }
            }
            "vsub" => {
                let l = [("vv", self.u - self.w), ("rr", &self.u - &self.w), ("vr", self.u - &self.w), ("rv", &self.u - self.w)];
                let mut a = self.u;
                a -= self.w;
                let mut b = self.u;
                b -= &self.w;
                for (n, v) in l.into_iter().chain([("assign", a), ("assignr", b)]) {
                    cmp_v(cx, &format!("vsub-{}-{}", n, T::W), &v, 0);
                    self.u = v;
                }
            }
            "vpar" => {
                self.w = self.u * t(cx.i(0));
                cmp_v(cx, &kk("vpar"), &self.w, 0);
            }
            "vneg" => {
                let (a, b) = (-self.u, -&self.u);
                cmp_v(cx, &kk("vneg"), &a, 0);
                cmp_v(cx, &kk("vneg-r"), &b, 0);
                self.u = a;
            }
            "vscale" => {
                let (a, b) = (self.u * t(cx.i(0)), &self.u * t(cx.i(0)));
                cmp_v(cx, &kk("vscale"), &a, 0);
                cmp_v(cx, &kk("vscale-r"), &b, 0);
                self.u = a;
            }
            "vdiv" => {
                for r in [self.u / t(cx.i(0)), &self.u / t(cx.i(0))] {
                    let ok = (0..N).all(|j| r.data[j].to_f64() * cx.af(0) == cx.xf(j));
                    cx.check(&kk("vdiv"), ok, || format!("{:?}", r.data));
                }
            }
            "vset" => {
                let (i, v) = (cx.us(0), t(cx.i(1)));
                let mut b = self.u;
                self.u[i] = v;
                b.as_mut()[i] = v;
                cmp_v(cx, &kk("vset"), &self.u, 0);
                let it: Vec<T> = self.u.iter().copied().collect();
                let ic: Vec<T> = self.u.iter_copied().collect();
                let iv: Vec<T> = self.u.into_iter().collect();
                let ir: Vec<T> = (&self.u).into_iter().copied().collect();
                let back: Vector<T, N> = it.iter().copied().collect();
                let m = self.u.map(|x| x + x);
                let mut mm = self.u;
                for x in &mut mm {
                    *x = *x + *x;
                }
                let mut mi = self.u;
                for x in mi.iter_mut() {
                    *x = *x + *x;
                }
                let ok = b == self.u && it == self.u.as_ref() && ic == it && iv == it && ir == it && back == self.u && m == self.u + self.u && mm == m && mi == m
                    && Vector::from(self.u.data) == self.u && (self.u == self.w) == (self.u.data == self.w.data);
                cx.check(&kk("viter"), ok, || "iteration/map/from".into());
            }
            "vdot" => {
                let d = cx.xf(0);
                for (n, g) in [("dot", self.u.dot(&self.w)), ("vv", self.u * self.w), ("rr", &self.u * &self.w), ("vr", self.u * &self.w), ("rv", &self.u * self.w)] {
                    cx.eq_f(&format!("dot-{}-{}", n, T::W), g.to_f64(), d);
                }
                if cx.xf(1) < 16777216.0 || T::W == "f64" {
                    cx.eq_f(&kk("norm2"), self.u.dot(&self.u).to_f64(), cx.xf(1));
                }
                let tol = if T::W == "f64" { 1e-14 } else { 3e-6 };
                let (nu, nw) = (cx.xf(3) / 1e30, cx.xf(4) / 1e30);
                cx.near(&kk("norm"), self.u.norm().to_f64(), nu, 0.0, tol);
                cx.near(&kk("magnitude"), self.w.magnitude().to_f64(), nw, 0.0, tol);
                if nu > 0.0 && nw > 0.0 {
                    // acos loses half the digits near 0 and pi
                    let at = if T::W == "f64" { 1e-7 } else { 2e-3 };
                    cx.near(&kk("angle"), self.u.angle(&self.w).to_f64(), cx.xf(5) / 1e30, at, 0.0);
                    let a = cx.xf(5) / 1e30;
                    if a > 0.2 && a < 2.9 {
                        cx.near(&kk("angle-mid"), self.u.angle(&self.w).to_f64(), a, tol * 30.0, 0.0);
                    }
                } else {
                    cx.eq_f(&kk("angle0"), self.u.angle(&self.w).to_f64(), 0.0);
                }
                let (tn, len) = self.u.try_normalize();
                cx.near(&kk("try_norm"), len.to_f64(), nu, 0.0, tol);
                for i in 0..N {
                    let want = if nu > 0.0 { self.u.data[i].to_f64() / nu } else { self.u.data[i].to_f64() };
                    cx.near(&kk("try_normalize"), tn.data[i].to_f64(), want, tol, 0.0);
                    if nu > 0.0 {
                        cx.near(&kk("normalize"), self.u.normalize().data[i].to_f64(), want, tol, 0.0);
                    }
                }
                if N >= 4 {
                    let (a, b) = (Vector::new(std::array::from_fn(|i| self.u.data[i])), Vector::new(std::array::from_fn(|i| self.w.data[i])));
                    for (n, g) in T::dot4(&a, &b) {
                        cx.eq_f(&format!("dot4-{}-{}", n, T::W), g.to_f64(), cx.xf(6));
                    }
                }
            }
            "vcross" => {
                let (a, b): (Vector<T, 3>, Vector<T, 3>) = (Vector::new(std::array::from_fn(|i| self.u.data[i])), Vector::new(std::array::from_fn(|i| self.w.data[i])));
                cmp_v(cx, &kk("cross"), &a.cross(&b), 0);
            }
            "ctors" => {
                let (z, o, d) = (Matrix::<T, M, N>::zeros(), Matrix::<T, M, N>::ones(), Matrix::<T, M, N>::default());
                let all = |m: &Matrix<T, M, N>, v: T| (0..M).all(|i| (0..N).all(|j| m.data[i][j] == v));
                cx.check(&kk("ctors"), all(&z, T::ZERO) && all(&o, T::ONE) && all(&d, T::ZERO), || "zeros/ones/default".into());
                let (vz, vo) = (Vector::<T, N>::zeros(), Vector::<T, N>::ones());
                cx.check(&kk("vctors"), vz.data.iter().all(|v| *v == T::ZERO) && vo.data.iter().all(|v| *v == T::ONE), || "zeros/ones".into());
                let c32: Matrix<f32, M, N> = self.x.cast();
                let c64: Matrix<f64, M, N> = self.x.cast();
                let a64: Matrix<f64, M, N> = c32.into();
                let a32: Matrix<f32, M, N> = c64.into();
                cx.check(&kk("cast"), a64 == c64 && a32 == c32 && (0..M).all(|i| (0..N).all(|j| c64.data[i][j] == self.x.data[i][j].to_f64())), || "casts".into());
                let mut s = String::from("[");
                for i in 0..M {
                    for j in 0..N {
                        s += &format!("{}{}", self.x.data[i][j], if j + 1 < N { " " } else { "" });
                    }
                    s += if i + 1 < M { "; " } else { "]" };
                }
                #[cfg(feature = "cstd")]
                cx.check(&kk("display"), format!("{}", self.x) == s, || format!("{} vs {}", self.x, s));
                let vstr = format!("[{}]", self.u.data.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
                #[cfg(feature = "cstd")]
                cx.check(&kk("vdisplay"), format!("{}", self.u) == vstr, || format!("{}", self.u));
            }
            _ => bad(op),
        }
    }
}
struct Prog<const M: usize, const N: usize, const P: usize> {
    a: Side<f64, M, N, P>,
    b: Side<f32, M, N, P>,
}
impl<const M: usize, const N: usize, const P: usize> Model for Prog<M, N, P> {
    fn step(&mut self, op: &str, cx: &mut Cx) {
        self.a.step(op, cx);
        self.b.step(op, cx);
    }
}
macro_rules! shapes {
    ($cx:expr; $($id:literal: $m:literal $n:literal $p:literal),*) => {
        match $cx.us(0) {
            $($id => {
                if ($cx.us(1), $cx.us(2), $cx.us(3)) != ($m, $n, $p) { bad("shape table") }
                Box::new(Prog::<$m, $n, $p> { a: Side::new($cx), b: Side::new($cx) }) as Box<dyn Model>
            })*
            _ => bad("shape"),
        }
    };
}
impl Model for M01 {
    fn step(&mut self, op: &str, cx: &mut Cx) {
        match op {
            "load" => {
                self.p = Some(shapes!(cx; 0: 1 1 1, 1: 1 4 3, 2: 2 3 4, 3: 3 3 3, 4: 3 3 1, 5: 4 4 4, 6: 4 3 2, 7: 5 6 2, 8: 6 6 6, 9: 6 4 3,
                    10: 2 2 5, 11: 7 4 12, 12: 8 8 8, 13: 8 9 7, 14: 9 8 8, 15: 8 8 9, 16: 9 9 9, 17: 3 16 17, 18: 16 16 16, 19: 17 16 15,
                    20: 2 17 33, 21: 5 3 20, 22: 1 20 1, 23: 20 1 20, 24: 4 33 2, 25: 3 18 8, 26: 17 5 3, 27: 2 40 4, 28: 1 2 16, 29: 2 5 24,
                    30: 3 7 31, 31: 4 10 40));
            }
            "tensor" => {
                let r = cx.us(0);
                let shape: Vec<usize> = (0..r).map(|k| cx.us(1 + k)).collect();
                let idx: Vec<usize> = (0..r).map(|k| cx.us(1 + r + k)).collect();
                let i: Vec<usize> = (0..4).map(|k| cx.us(1 + 2 * r + k)).collect();
                let n: usize = shape.iter().product();
                let mut data: Vec<i64> = (0..n as i64).collect();
                let off = cx.x(0);
                cx.eq_i("view", *TensorView { data: &data, shape: &shape }.get(&idx) as i128, off);
                *TensorViewMut { data: &mut data, shape: &shape }.get_mut(&idx) = -7;
                cx.check("viewmut", data[off as usize] == -7 && data.iter().filter(|v| **v == -7).count() == 1, || format!("{:?}", data));
                let mut t3 = Tensor3::new([[[0i64; 4]; 3]; 2]);
                for (k, v) in t3.as_flat_mut().iter_mut().enumerate() {
                    *v = k as i64;
                }
                cx.eq_i("t3", t3[(i[0], i[1], i[2])] as i128, cx.x(1));
                t3[(i[0], i[1], i[2])] = -5;
                cx.check("t3mut", t3.as_flat()[cx.x(1) as usize] == -5 && t3.as_flat().iter().filter(|v| **v == -5).count() == 1 && t3.as_flat().len() == 24, || format!("{:?}", t3));
                let mut t4 = Tensor4::new([[[[0i64; 5]; 4]; 3]; 2]);
                let mut k = 0;
                for a in t4.data.iter_mut().flatten().flatten().flatten() {
                    *a = k;
                    k += 1;
                }
                cx.eq_i("t4", t4[(i[0], i[1], i[2], i[3])] as i128, cx.x(2));
                t4[(i[0], i[1], i[2], i[3])] = -5;
                cx.check("t4mut", t4.data[i[0]][i[1]][i[2]][i[3]] == -5, || "t4".into());
                cx.check("dims", Tensor3::<i64, 2, 3, 4>::dims() == (2, 3, 4) && Tensor4::<i64, 2, 3, 4, 5>::dims() == (2, 3, 4, 5), || "dims".into());
            }
            _ => self.p.as_mut().unwrap_or_else(|| bad("no registers")).step(op, cx),
        }
    }
}
