//! matrices and vectors from plain numbers
use aether_core::math::{Matrix, Vector};
use aether_core::real::Real;
pub fn mat<T: Real, const M: usize, const N: usize>(v: &[f64]) -> Matrix<T, M, N> {
    let mut m = Matrix::new([[T::ZERO; N]; M]);
    for i in 0..M {
        for j in 0..N {
            m.data[i][j] = T::from_f64(v[i * N + j]);
        }
    }
    m
}
pub fn vecn<T: Real, const N: usize>(v: &[f64]) -> Vector<T, N> {
    let mut m = Vector::new([T::ZERO; N]);
    for i in 0..N {
        m.data[i] = T::from_f64(v[i]);
    }
    m
}
