//! Coefficient-vector model of polynomials.
use crate::elems::El;

pub fn add<T: El>(a: &[T], b: &[T]) -> Vec<T> {
    zipw(a, b, |x, y| x.m_add(y))
}
pub fn sub<T: El>(a: &[T], b: &[T]) -> Vec<T> {
    zipw(a, b, |x, y| x.m_sub(y))
}
fn zipw<T: El>(a: &[T], b: &[T], f: impl Fn(&T, &T) -> T) -> Vec<T> {
    let z = T::m_zero();
    (0..a.len().max(b.len()))
        .map(|i| f(a.get(i).unwrap_or(&z), b.get(i).unwrap_or(&z)))
        .collect()
}
pub fn neg<T: El>(a: &[T]) -> Vec<T> {
    a.iter().map(|x| x.m_neg()).collect()
}
pub fn mul<T: El>(a: &[T], b: &[T]) -> Vec<T> {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut c = vec![T::m_zero(); a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            c[i + j] = c[i + j].m_add(&x.m_mul(y));
        }
    }
    c
}
pub fn eval<T: El>(a: &[T], x: &T) -> T {
    let mut pow = T::m_one();
    let mut sum = T::m_zero();
    for c in a {
        sum = sum.m_add(&c.m_mul(&pow));
        pow = pow.m_mul(x);
    }
    sum
}
/// equality as polynomials (trailing zeros do not count)
pub fn eq<T: El>(a: &[T], b: &[T]) -> bool {
    let z = T::m_zero();
    (0..a.len().max(b.len())).all(|i| a.get(i).unwrap_or(&z) == b.get(i).unwrap_or(&z))
}
