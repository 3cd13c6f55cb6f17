//! Element types that make the library's behaviour observable, and the model
//! arithmetic (`m_*`) the oracles use. The model never calls library code.
use crate::run::{hash_str, mix, Rng};
use magnesia::algebra::{Complex, Conj, Field, Ring};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::ops::*;

pub trait El: Clone + Debug + PartialEq + Send + Sync + 'static {
    const NAME: &'static str;
    const COMMUTES: bool;
    fn gen(r: &mut Rng) -> Self;
    fn m_int(i: i8) -> Self;
    fn m_zero() -> Self {
        Self::m_int(0)
    }
    fn m_one() -> Self {
        Self::m_int(1)
    }
    fn m_add(&self, o: &Self) -> Self;
    fn m_sub(&self, o: &Self) -> Self;
    fn m_mul(&self, o: &Self) -> Self;
    fn m_neg(&self) -> Self {
        Self::m_zero().m_sub(self)
    }
    fn m_conj(&self) -> Self;
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}

// ---------------------------------------------------------------- i64

/// Values small enough that all intermediates of the workloads fit.
impl El for i64 {
    const NAME: &'static str = "i64";
    const COMMUTES: bool = true;
    fn gen(r: &mut Rng) -> i64 {
        match r.below(10) {
            0 | 1 => 0,
            2 => 1,
            3 => -1,
            4 | 5 | 6 => r.range(-9, 9),
            7 => r.range(-1000, 1000),
            8 => 1i64 << r.below(20),
            _ => r.range(-(1 << 20), 1 << 20),
        }
    }
    fn m_int(i: i8) -> i64 {
        i as i64
    }
    fn m_add(&self, o: &i64) -> i64 {
        self.wrapping_add(*o)
    }
    fn m_sub(&self, o: &i64) -> i64 {
        self.wrapping_sub(*o)
    }
    fn m_mul(&self, o: &i64) -> i64 {
        self.wrapping_mul(*o)
    }
    fn m_conj(&self) -> i64 {
        *self
    }
}

// ---------------------------------------------------------------- f64

impl El for f64 {
    const NAME: &'static str = "f64";
    const COMMUTES: bool = true;
    fn gen(r: &mut Rng) -> f64 {
        match r.below(16) {
            0 => 0.0,
            1 => -0.0,
            2 => 1.0,
            3 => -1.0,
            4 => f64::INFINITY,
            5 => f64::NAN,
            6 => f64::NEG_INFINITY,
            7 => f64::MIN_POSITIVE / 8.0,
            8 => f64::MAX,
            9 | 10 => r.range(-9, 9) as f64,
            11 => (r.unit() - 0.5) * 1e-8,
            12 => (r.unit() - 0.5) * 1e300,
            _ => (r.unit() - 0.5) * 20.0,
        }
    }
    fn m_int(i: i8) -> f64 {
        i as f64
    }
    fn m_add(&self, o: &f64) -> f64 {
        self + o
    }
    fn m_sub(&self, o: &f64) -> f64 {
        self - o
    }
    fn m_mul(&self, o: &f64) -> f64 {
        self * o
    }
    fn m_neg(&self) -> f64 {
        -self
    }
    fn m_conj(&self) -> f64 {
        *self
    }
    fn same(&self, o: &f64) -> bool {
        self == o || (self.is_nan() && o.is_nan())
    }
}

// ---------------------------------------------------------------- Zp

pub const P: u64 = (1 << 61) - 1;
/// The field with 2^61-1 elements. -1 is not a square in it.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Zp(pub u64);
impl Zp {
    pub fn new(x: i128) -> Zp {
        Zp(x.rem_euclid(P as i128) as u64)
    }
    fn a(self, o: Zp) -> Zp {
        let s = self.0 + o.0;
        Zp(if s >= P { s - P } else { s })
    }
    fn s(self, o: Zp) -> Zp {
        Zp(if self.0 >= o.0 { self.0 - o.0 } else { self.0 + P - o.0 })
    }
    fn m(self, o: Zp) -> Zp {
        let t = self.0 as u128 * o.0 as u128;
        let s = (t & P as u128) as u64 + (t >> 61) as u64;
        Zp(if s >= P { s - P } else { s })
    }
    pub fn pow(self, mut e: u64) -> Zp {
        let (mut b, mut r) = (self, Zp(1));
        while e > 0 {
            if e & 1 == 1 {
                r = r.m(b);
            }
            b = b.m(b);
            e >>= 1;
        }
        r
    }
    pub fn inv(self) -> Zp {
        if self.0 == 0 {
            panic!("division by zero in Zp");
        }
        self.pow(P - 2)
    }
}
impl El for Zp {
    const NAME: &'static str = "Zp";
    const COMMUTES: bool = true;
    fn gen(r: &mut Rng) -> Zp {
        match r.below(8) {
            0 => Zp(0),
            1 => Zp(1),
            2 => Zp(P - 1),
            3 => Zp::new(r.range(-9, 9) as i128),
            _ => Zp(r.u64() % P),
        }
    }
    fn m_int(i: i8) -> Zp {
        Zp::new(i as i128)
    }
    fn m_add(&self, o: &Zp) -> Zp {
        self.a(*o)
    }
    fn m_sub(&self, o: &Zp) -> Zp {
        self.s(*o)
    }
    fn m_mul(&self, o: &Zp) -> Zp {
        self.m(*o)
    }
    fn m_conj(&self) -> Zp {
        *self
    }
}
impl Div<Zp> for Zp {
    type Output = Zp;
    fn div(self, o: Zp) -> Zp {
        self.m(o.inv())
    }
}
impl<'a> Div<&'a Zp> for Zp {
    type Output = Zp;
    fn div(self, o: &'a Zp) -> Zp {
        self.m(o.inv())
    }
}
impl<'a, 'b> Div<&'a Zp> for &'b Zp {
    type Output = Zp;
    fn div(self, o: &'a Zp) -> Zp {
        self.m(o.inv())
    }
}
impl Field for Zp {}

// ---------------------------------------------------------------- Nc

/// 2x2 matrices over Zp (own implementation): a non-commutative exact ring.
/// `conj` is the automorphism X -> PXP with P the swap matrix.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Nc(pub [Zp; 4]);
impl El for Nc {
    const NAME: &'static str = "Nc";
    const COMMUTES: bool = false;
    fn gen(r: &mut Rng) -> Nc {
        match r.below(8) {
            0 => Nc::m_int(0),
            1 => Nc::m_int(1),
            _ => Nc([Zp::gen(r), Zp::gen(r), Zp::gen(r), Zp::gen(r)]),
        }
    }
    fn m_int(i: i8) -> Nc {
        Nc([Zp::m_int(i), Zp(0), Zp(0), Zp::m_int(i)])
    }
    fn m_add(&self, o: &Nc) -> Nc {
        Nc([0, 1, 2, 3].map(|i| self.0[i].a(o.0[i])))
    }
    fn m_sub(&self, o: &Nc) -> Nc {
        Nc([0, 1, 2, 3].map(|i| self.0[i].s(o.0[i])))
    }
    fn m_mul(&self, o: &Nc) -> Nc {
        let (x, y) = (&self.0, &o.0);
        Nc([
            x[0].m(y[0]).a(x[1].m(y[2])),
            x[0].m(y[1]).a(x[1].m(y[3])),
            x[2].m(y[0]).a(x[3].m(y[2])),
            x[2].m(y[1]).a(x[3].m(y[3])),
        ])
    }
    fn m_conj(&self) -> Nc {
        let x = &self.0;
        Nc([x[3], x[2], x[1], x[0]])
    }
}

// ---------------------------------------------------------------- Free

/// Free non-commutative ring over symbols: formal sums of words.
/// Symbol s and its formal conjugate s ^ 0x8000 are swapped by `conj`.
#[derive(Clone, PartialEq, Eq)]
pub struct Free(pub BTreeMap<Vec<u16>, i64>);
impl Debug for Free {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if self.0.is_empty() {
            return write!(f, "0");
        }
        let mut first = true;
        for (w, c) in &self.0 {
            if !first {
                write!(f, "+")?;
            }
            first = false;
            write!(f, "{c}")?;
            for s in w {
                write!(f, ".x{}{}", s & 0x7fff, if s & 0x8000 != 0 { "*" } else { "" })?;
            }
        }
        Ok(())
    }
}
impl Free {
    pub fn sym(s: u16) -> Free {
        Free([(vec![s], 1)].into())
    }
}
impl El for Free {
    const NAME: &'static str = "Free";
    const COMMUTES: bool = false;
    fn gen(r: &mut Rng) -> Free {
        match r.below(12) {
            0 => Free::m_int(0),
            1 => Free::m_int(1),
            2 => Free::sym(r.below(0x8000) as u16).m_neg(),
            3 => Free::sym(r.below(0x8000) as u16).m_add(&Free::sym(r.below(0x8000) as u16)),
            _ => Free::sym(r.below(0x8000) as u16),
        }
    }
    fn m_int(i: i8) -> Free {
        if i == 0 {
            Free(BTreeMap::new())
        } else {
            Free([(vec![], i as i64)].into())
        }
    }
    fn m_add(&self, o: &Free) -> Free {
        let mut m = self.0.clone();
        for (w, c) in &o.0 {
            let e = m.entry(w.clone()).or_insert(0);
            *e += c;
            if *e == 0 {
                m.remove(w);
            }
        }
        Free(m)
    }
    fn m_neg(&self) -> Free {
        Free(self.0.iter().map(|(w, c)| (w.clone(), -c)).collect())
    }
    fn m_sub(&self, o: &Free) -> Free {
        self.m_add(&o.m_neg())
    }
    fn m_mul(&self, o: &Free) -> Free {
        let mut m: BTreeMap<Vec<u16>, i64> = BTreeMap::new();
        for (w, c) in &self.0 {
            for (v, d) in &o.0 {
                let mut x = w.clone();
                x.extend_from_slice(v);
                *m.entry(x).or_insert(0) += c * d;
            }
        }
        m.retain(|_, c| *c != 0);
        Free(m)
    }
    fn m_conj(&self) -> Free {
        Free(
            self.0
                .iter()
                .map(|(w, c)| (w.iter().map(|s| s ^ 0x8000).collect(), *c))
                .collect(),
        )
    }
}

// ---------------------------------------------------------------- Tok

/// Term hash: every operation returns the hash of the term it builds.
/// Not a ring; pins operands and their order exactly.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Tok(pub u64);
impl Tok {
    pub fn op(name: &str, a: Tok, b: Tok) -> Tok {
        Tok(mix(hash_str(name) ^ mix(a.0 ^ mix(b.0).rotate_left(17))))
    }
}
impl El for Tok {
    const NAME: &'static str = "Tok";
    const COMMUTES: bool = false;
    fn gen(r: &mut Rng) -> Tok {
        Tok(r.u64())
    }
    fn m_int(i: i8) -> Tok {
        Tok(mix(hash_str("lit") ^ i as u64))
    }
    fn m_add(&self, o: &Tok) -> Tok {
        Tok::op("+", *self, *o)
    }
    fn m_sub(&self, o: &Tok) -> Tok {
        Tok::op("-", *self, *o)
    }
    fn m_mul(&self, o: &Tok) -> Tok {
        Tok::op("*", *self, *o)
    }
    fn m_neg(&self) -> Tok {
        Tok::op("neg", *self, Tok(0))
    }
    fn m_conj(&self) -> Tok {
        Tok::op("conj", *self, Tok(0))
    }
}
impl Div for Tok {
    type Output = Tok;
    fn div(self, o: Tok) -> Tok {
        Tok::op("/", self, o)
    }
}

/// The same in K bytes: elements of no size, of odd sizes and of large ones.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Bytes<const K: usize>(pub [u8; K]);
impl<const K: usize> Bytes<K> {
    pub fn of(h: u64) -> Self {
        Bytes(std::array::from_fn(|i| (mix(h ^ (i as u64 / 8)) >> (i % 8 * 8)) as u8))
    }
    pub fn key(&self) -> u64 {
        self.0.iter().fold(K as u64, |h, b| mix(h ^ *b as u64))
    }
    pub fn op(name: &str, a: &Self, b: &Self) -> Self {
        Self::of(hash_str(name) ^ mix(a.key() ^ mix(b.key()).rotate_left(17)))
    }
}
/// The same on the heap: elements that are not copied bit by bit.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Boxed(pub Box<u64>);
impl Boxed {
    pub fn op(name: &str, a: &Self, b: &Self) -> Self {
        Boxed(Box::new(Tok::op(name, Tok(*a.0), Tok(*b.0)).0))
    }
}
macro_rules! opaque {
    ([$($g:tt)*] $t:ty, $name:literal, $of:expr) => {
        impl<$($g)*> El for $t {
            const NAME: &'static str = $name;
            const COMMUTES: bool = false;
            fn gen(r: &mut Rng) -> Self {
                $of(r.u64())
            }
            fn m_int(i: i8) -> Self {
                $of(hash_str("lit") ^ i as u64)
            }
            fn m_add(&self, o: &Self) -> Self {
                Self::op("+", self, o)
            }
            fn m_sub(&self, o: &Self) -> Self {
                Self::op("-", self, o)
            }
            fn m_mul(&self, o: &Self) -> Self {
                Self::op("*", self, o)
            }
            fn m_neg(&self) -> Self {
                Self::op("neg", self, &$of(0))
            }
            fn m_conj(&self) -> Self {
                Self::op("conj", self, &$of(0))
            }
        }
        impl<$($g)*> Div for $t {
            type Output = Self;
            fn div(self, o: Self) -> Self {
                Self::op("/", &self, &o)
            }
        }
    };
}
opaque!([const K: usize] Bytes<K>, "Bytes", Bytes::of);
opaque!([] Boxed, "Boxed", |x| Boxed(Box::new(x)));

// ---------------------------------------------------------------- operators

macro_rules! ring_ops {
    ($($t:ty),*) => {$(
        impl Add for $t { type Output = $t; fn add(self, o: $t) -> $t { self.m_add(&o) } }
        impl<'a> Add<&'a $t> for $t { type Output = $t; fn add(self, o: &'a $t) -> $t { self.m_add(o) } }
        impl<'a> Add<$t> for &'a $t { type Output = $t; fn add(self, o: $t) -> $t { self.m_add(&o) } }
        impl<'a, 'b> Add<&'a $t> for &'b $t { type Output = $t; fn add(self, o: &'a $t) -> $t { self.m_add(o) } }
        impl Sub for $t { type Output = $t; fn sub(self, o: $t) -> $t { self.m_sub(&o) } }
        impl<'a> Sub<&'a $t> for $t { type Output = $t; fn sub(self, o: &'a $t) -> $t { self.m_sub(o) } }
        impl<'a> Sub<$t> for &'a $t { type Output = $t; fn sub(self, o: $t) -> $t { self.m_sub(&o) } }
        impl<'a, 'b> Sub<&'a $t> for &'b $t { type Output = $t; fn sub(self, o: &'a $t) -> $t { self.m_sub(o) } }
        impl Mul for $t { type Output = $t; fn mul(self, o: $t) -> $t { self.m_mul(&o) } }
        impl<'a> Mul<&'a $t> for $t { type Output = $t; fn mul(self, o: &'a $t) -> $t { self.m_mul(o) } }
        impl<'a> Mul<$t> for &'a $t { type Output = $t; fn mul(self, o: $t) -> $t { self.m_mul(&o) } }
        impl<'a, 'b> Mul<&'a $t> for &'b $t { type Output = $t; fn mul(self, o: &'a $t) -> $t { self.m_mul(o) } }
        impl AddAssign for $t { fn add_assign(&mut self, o: $t) { *self = self.m_add(&o) } }
        impl<'a> AddAssign<&'a $t> for $t { fn add_assign(&mut self, o: &'a $t) { *self = self.m_add(o) } }
        impl SubAssign for $t { fn sub_assign(&mut self, o: $t) { *self = self.m_sub(&o) } }
        impl<'a> SubAssign<&'a $t> for $t { fn sub_assign(&mut self, o: &'a $t) { *self = self.m_sub(o) } }
        impl MulAssign for $t { fn mul_assign(&mut self, o: $t) { *self = self.m_mul(&o) } }
        impl<'a> MulAssign<&'a $t> for $t { fn mul_assign(&mut self, o: &'a $t) { *self = self.m_mul(o) } }
        impl Neg for $t { type Output = $t; fn neg(self) -> $t { self.m_neg() } }
        impl From<i8> for $t { fn from(i: i8) -> $t { <$t as El>::m_int(i) } }
        impl Conj for $t { fn conj(self) -> $t { self.m_conj() } }
    )*};
}
ring_ops!(Zp, Nc, Free, Tok, Bytes<0>, Bytes<1>, Bytes<3>, Bytes<24>, Boxed);
pub(crate) use ring_ops;
impl Ring for Zp {}
impl Ring for Nc {}
impl Ring for Free {}

// ---------------------------------------------------------------- Complex

impl<T: El> El for Complex<T> {
    const NAME: &'static str = T::NAME;
    const COMMUTES: bool = T::COMMUTES;
    fn gen(r: &mut Rng) -> Self {
        let (re, im) = (T::gen(r), T::gen(r));
        match r.below(12) {
            0 => Complex { re, im: T::m_zero() },
            1 => Complex { re: T::m_zero(), im },
            2 => Complex { im: re.clone(), re },
            3 => Complex { im: re.m_neg(), re },
            _ => Complex { re, im },
        }
    }
    fn m_int(i: i8) -> Self {
        Complex { re: T::m_int(i), im: T::m_int(0) }
    }
    fn m_add(&self, o: &Self) -> Self {
        Complex { re: self.re.m_add(&o.re), im: self.im.m_add(&o.im) }
    }
    fn m_sub(&self, o: &Self) -> Self {
        Complex { re: self.re.m_sub(&o.re), im: self.im.m_sub(&o.im) }
    }
    fn m_mul(&self, o: &Self) -> Self {
        Complex {
            re: self.re.m_mul(&o.re).m_sub(&self.im.m_mul(&o.im)),
            im: self.re.m_mul(&o.im).m_add(&self.im.m_mul(&o.re)),
        }
    }
    fn m_neg(&self) -> Self {
        Complex { re: self.re.m_neg(), im: self.im.m_neg() }
    }
    fn m_conj(&self) -> Self {
        Complex { re: self.re.clone(), im: self.im.m_neg() }
    }
    fn same(&self, o: &Self) -> bool {
        self.re.same(&o.re) && self.im.same(&o.im)
    }
}

// ---------------------------------------------------------------- structured data

/// Element lists with structure: random, zeros, sparse, leading/trailing
/// zeros, constant, unit, alternating.
pub fn gen_vec<T: El>(r: &mut Rng, n: usize) -> Vec<T> {
    let mut v: Vec<T> = (0..n).map(|_| T::gen(r)).collect();
    if n == 0 {
        return v;
    }
    match r.below(16) {
        0 => v = vec![T::m_zero(); n],
        1 => {
            let x = T::gen(r);
            v = vec![x; n];
        }
        2 => {
            let k = r.below(n + 1);
            v[k..].fill(T::m_zero());
        }
        3 => {
            let k = r.below(n + 1);
            v[..k].fill(T::m_zero());
        }
        4 => {
            let k = r.below(n);
            let x = T::gen(r);
            v = vec![T::m_zero(); n];
            v[k] = x;
        }
        5 => {
            let k = r.below(n);
            v = vec![T::m_zero(); n];
            v[k] = T::m_one();
        }
        6 => {
            for x in v.iter_mut() {
                if r.chance(3, 4) {
                    *x = T::m_zero();
                }
            }
        }
        7 => {
            let x = T::gen(r);
            let y = x.m_neg();
            v = (0..n).map(|i| if i % 2 == 0 { x.clone() } else { y.clone() }).collect();
        }
        8 => v = vec![T::m_one(); n],
        9 => {
            for i in 0..n / 2 {
                v[n - 1 - i] = v[i].clone();
            }
        }
        _ => {}
    }
    v
}

/// A second operand related to the first in hostile ways (equal, negated,
/// reversed, one element changed) or independent.
pub fn gen_related<T: El>(r: &mut Rng, a: &[T], n: usize) -> Vec<T> {
    if a.len() == n && n > 0 {
        match r.below(10) {
            0 => return a.to_vec(),
            1 => return a.iter().map(|x| x.m_neg()).collect(),
            2 => return a.iter().rev().cloned().collect(),
            3 => {
                let mut v = a.to_vec();
                let k = r.below(n);
                v[k] = T::gen(r);
                return v;
            }
            _ => {}
        }
    }
    gen_vec(r, n)
}

pub fn same_all<T: El>(a: &[T], b: &[T]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y))
}

/// Elements usable in all of the library's generic code.
pub trait LibEl:
    El
    + Conj
    + magnesia::algebra::MulRefs
    + magnesia::algebra::Zero
    + magnesia::algebra::One
    + for<'a> AddAssign<&'a Self>
    + for<'a> SubAssign<&'a Self>
    + AddAssign
    + SubAssign
    + Neg<Output = Self>
    + Add<Output = Self>
    + Sub<Output = Self>
    + Mul<Output = Self>
{
}
impl<T> LibEl for T where
    T: El
        + Conj
        + magnesia::algebra::MulRefs
        + magnesia::algebra::Zero
        + magnesia::algebra::One
        + for<'a> AddAssign<&'a Self>
        + for<'a> SubAssign<&'a Self>
        + AddAssign
        + SubAssign
        + Neg<Output = Self>
        + Add<Output = Self>
        + Sub<Output = Self>
        + Mul<Output = Self>
{
}

/// f64 restricted to small integers: all ring operations are exact.
pub fn int_f64(r: &mut Rng) -> f64 {
    i64::gen(r) as f64
}
