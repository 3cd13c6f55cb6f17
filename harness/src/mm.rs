//! Row-major matrix model.
use crate::elems::{gen_vec, same_all, El};
use crate::run::Rng;

#[derive(Clone, Debug, PartialEq)]
pub struct Mm<T> {
    pub r: usize,
    pub c: usize,
    pub v: Vec<T>,
}
impl<T: Clone> Mm<T> {
    pub fn new(r: usize, c: usize, f: impl Fn(usize, usize) -> T) -> Mm<T> {
        let mut v = Vec::with_capacity(r * c);
        for i in 0..r {
            for j in 0..c {
                v.push(f(i, j));
            }
        }
        Mm { r, c, v }
    }
    pub fn at(&self, i: usize, j: usize) -> &T {
        assert!(i < self.r && j < self.c);
        &self.v[i * self.c + j]
    }
    pub fn t(&self) -> Mm<T> {
        Mm::new(self.c, self.r, |i, j| self.at(j, i).clone())
    }
}
impl<T: El> Mm<T> {
    pub fn gen(r: &mut Rng, m: usize, n: usize) -> Mm<T> {
        Mm { r: m, c: n, v: gen_vec(r, m * n) }
    }
    pub fn eye(n: usize) -> Mm<T> {
        Mm::new(n, n, |i, j| T::m_int((i == j) as i8))
    }
    pub fn zeros(r: usize, c: usize) -> Mm<T> {
        Mm::new(r, c, |_, _| T::m_zero())
    }
    pub fn map(&self, f: impl Fn(&T) -> T) -> Mm<T> {
        Mm { r: self.r, c: self.c, v: self.v.iter().map(f).collect() }
    }
    pub fn zip(&self, o: &Mm<T>, f: impl Fn(&T, &T) -> T) -> Mm<T> {
        assert!(self.r == o.r && self.c == o.c);
        Mm { r: self.r, c: self.c, v: self.v.iter().zip(&o.v).map(|(x, y)| f(x, y)).collect() }
    }
    pub fn mul(&self, o: &Mm<T>) -> Mm<T> {
        assert_eq!(self.c, o.r);
        Mm::new(self.r, o.c, |i, j| {
            (0..self.c).fold(T::m_zero(), |s, k| s.m_add(&self.at(i, k).m_mul(o.at(k, j))))
        })
    }
    pub fn same(&self, o: &Mm<T>) -> bool {
        self.r == o.r && self.c == o.c && same_all(&self.v, &o.v)
    }
}
