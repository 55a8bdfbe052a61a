//! B01 on aether_test::assert.
use crate::util::*;
use aether_core::math::{Matrix, Vector};
use aether_test::assert::{coding::*, function::*, matrix::*, vector::*};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

const NAN: i128 = 1_000_000_000_000;
fn dec(v: i128) -> f64 {
    match v - NAN {
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => f64::NEG_INFINITY,
        _ => v as f64 / 64.0,
    }
}
fn same(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
fn panics<R>(f: impl FnOnce() -> R) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}
fn mat<const M: usize, const N: usize>(cx: &Cx, off: usize) -> Matrix<f64, M, N> {
    let mut a = [[0.0; N]; M];
    for i in 0..M * N {
        a[i / N][i % N] = dec(cx.i(off + i));
    }
    Matrix::new(a)
}
fn vec_<const N: usize>(cx: &Cx, off: usize) -> Vector<f64, N> {
    let mut a = [0.0; N];
    for i in 0..N {
        a[i] = dec(cx.i(off + i));
    }
    Vector::from(a)
}
fn matrix<const M: usize, const N: usize>(cx: &Cx) {
    let tol = cx.af(2) / 64.0;
    let (a, b) = (mat::<M, N>(cx, 3), mat::<M, N>(cx, 3 + M * N));
    let bad = cx.x(0);
    match matrix_approx_eq(&a, &b, tol) {
        Ok(()) => cx.check("matrix/accepts", bad < 0, || format!("accepted, entry {} is out", bad)),
        Err(MatrixAssertError::ValueMismatch { row, col, left, right, diff }) => {
            cx.eq_i("matrix/first_offender", (row * N + col) as i128, bad);
            if bad >= 0 {
                cx.check("matrix/report", same(left, a.data[row][col]) && same(right, b.data[row][col]) && same(diff, dec(cx.x(1))), || format!("{} {} {}", left, right, diff));
            }
        }
        Err(e) => cx.fail("matrix/error_kind", format!("{:?}", e)),
    }
    cx.eq_b("matrix/assert_panics", panics(|| assert_matrix_approx_eq(&a, &b, tol)), bad >= 0);
    cx.check("matrix/max_abs_diff", same(matrix_max_abs_diff(&a, &b), dec(cx.x(2))), || format!("{} want {}", matrix_max_abs_diff(&a, &b), dec(cx.x(2))));
    cx.eq_b("matrix/finite", panics(|| assert_matrix_finite(&a)), cx.x(3) >= 0);
    for (k, v) in [(4, matrix_frobenius_norm(&a)), (5, matrix_diff_frobenius(&a, &b))] {
        let w = cx.x(k);
        let want = if w == NAN { f64::NAN } else if w == NAN + 1 { f64::INFINITY } else { (w as f64).sqrt() / 64.0 };
        cx.check("matrix/frobenius", same(v, want) || (v - want).abs() <= 1e-13 * want, || format!("{} want {}", v, want));
    }
}
fn vector<const N: usize>(cx: &Cx) {
    let tol = cx.af(2) / 64.0;
    let (a, b) = (vec_::<N>(cx, 3), vec_::<N>(cx, 3 + N));
    let bad = cx.x(0);
    match vector_approx_eq(&a, &b, tol) {
        Ok(()) => cx.check("vector/accepts", bad < 0, || format!("accepted, entry {} is out", bad)),
        Err(VectorAssertError::ValueMismatch { index, left, right, diff }) => {
            cx.eq_i("vector/first_offender", index as i128, bad);
            if bad >= 0 {
                cx.check("vector/report", same(left, a.data[index]) && same(right, b.data[index]) && same(diff, dec(cx.x(1))), || format!("{} {} {}", left, right, diff));
            }
        }
        Err(e) => cx.fail("vector/error_kind", format!("{:?}", e)),
    }
    cx.eq_b("vector/assert_panics", panics(|| assert_vector_approx_eq(&a, &b, tol)), bad >= 0);
    cx.check("vector/max_abs_diff", same(vector_max_abs_diff(&a, &b), dec(cx.x(2))), || format!("{} want {}", vector_max_abs_diff(&a, &b), dec(cx.x(2))));
    cx.eq_b("vector/finite", panics(|| assert_vector_finite(&a)), cx.x(3) >= 0);
}
fn symmetric<const N: usize>(cx: &Cx) {
    let a = mat::<N, N>(cx, 3);
    cx.eq_b("symmetric/panics", panics(|| assert_matrix_symmetric(&a, cx.af(2) / 64.0)), cx.x(0) == 0);
}
fn coding<const N: usize>(cx: &Cx) {
    let a = vec_::<N>(cx, 0);
    cx.eq_b("coding/panics", panics(|| assert_vector_equivalence(&a)), cx.x(0) == 0);
}
pub struct B01;
pub fn b01() -> Box<dyn Model> {
    Box::new(B01)
}
impl Model for B01 {
    fn step(&mut self, op: &str, cx: &mut Cx) {
        let cx = &*cx;
        macro_rules! shapes { ($f:ident, $m:expr, $n:expr; $($a:literal $b:literal)*) => { match ($m, $n) { $(($a, $b) => $f::<$a, $b>(cx),)* _ => bad("shape") } } }
        macro_rules! sizes { ($f:ident, $n:expr; $($a:literal)*) => { match $n { $($a => $f::<$a>(cx),)* _ => bad("size") } } }
        match op {
            "matrix" => shapes!(matrix, cx.us(0), cx.us(1); 1 1 1 2 1 3 1 4 2 1 2 2 2 3 2 4 3 1 3 2 3 3 3 4 4 1 4 2 4 3 4 4),
            "vector" => sizes!(vector, cx.us(0) * cx.us(1); 1 2 3 4 6 8 9 12 16),
            "symmetric" => sizes!(symmetric, cx.us(0); 1 2 3 4),
            "coding" => sizes!(coding, cx.an(); 1 2 3 4 5 6),
            "grid" => {
                let (lo, hi, tol, s) = (cx.af(0) / 64.0, cx.af(1) / 64.0, cx.af(2) / 64.0, cx.af(3) / 64.0);
                let n = cx.an() - 4;
                let seen = RefCell::new(vec![false; n]);
                let off = RefCell::new(0.0f64);
                let at = |x: f64| {
                    let q = (x - lo) / (hi - lo) * (n - 1) as f64;
                    let i = q.round().clamp(0.0, (n - 1) as f64) as usize;
                    let d = (x - (lo + (hi - lo) * i as f64 / (n - 1) as f64)).abs();
                    let mut o = off.borrow_mut();
                    *o = if d > *o || d.is_nan() { d } else { *o };
                    i
                };
                let f0 = |x: f64| at(x) as f64 * s;
                let f1 = |x: f64| {
                    let i = at(x);
                    seen.borrow_mut()[i] = true;
                    i as f64 * s + dec(cx.i(4 + i))
                };
                let r = catch_unwind(AssertUnwindSafe(|| assert_max_abs_error_on_grid(&f0, &f1, lo, hi, n - 1, tol)));
                cx.check("grid/points", off.into_inner() < 1e-10, || "sampled off the uniform grid".into());
                match r {
                    Ok((x, err)) => {
                        cx.check("grid/accepts", cx.x(0) == 1, || format!("accepted, worst is {} at {}", dec(cx.x(1)), cx.x(2)));
                        cx.check("grid/all_points", seen.borrow().iter().all(|b| *b), || format!("{:?}", seen.borrow()));
                        if cx.x(0) == 1 {
                            cx.check("grid/worst_error", err == dec(cx.x(1)), || format!("{} want {}", err, dec(cx.x(1))));
                            cx.check("grid/worst_point", dec(cx.i(4 + at2(x, lo, hi, n))).abs() == err, || format!("{} at {}", err, x));
                        }
                    }
                    Err(_) => cx.check("grid/rejects", cx.x(0) == 0, || "panicked although within tolerance".into()),
                }
                cx.check("grid/no_samples", panics(|| assert_max_abs_error_on_grid(|x| x, |x| x, 0.0, 1.0, 0, 1.0)), || "accepted zero samples".into());
            }
            _ => bad("op"),
        }
    }
}
fn at2(x: f64, lo: f64, hi: f64, n: usize) -> usize {
    ((x - lo) / (hi - lo) * (n - 1) as f64).round().clamp(0.0, (n - 1) as f64) as usize
}
