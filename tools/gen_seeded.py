#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the table below (patches are made against
/repo's HEAD in a scratch copy). Run by hand after a change of /repo."""
import json, os, shutil, subprocess, sys, tempfile
OUT = "/verif/seeded"
S = []
def seed(id, prop, file, edits, needs, breaks, demo):
    S.append((id, prop, file, edits, needs, breaks, demo))
DV="src/linalg/dvector.rs"; DM="src/linalg/dmatrix.rs"; SV="src/linalg/svector.rs"; SM="src/linalg/smatrix.rs"
PO="src/algebra/polynomial.rs"; CX="src/algebra/complex.rs"; DE="src/optimize/differential_evolution.rs"
# a ring of 2x2 integer matrices, for demonstrations with non-commuting entries
NC = r'''
use magnesia::algebra::*; use magnesia::linalg::*;
type M = SMatrix<i64, 2, 2>;
fn a() -> M { SMatrix::from([[0, 1], [0, 0]]) }
fn b() -> M { SMatrix::from([[0, 0], [1, 0]]) }
'''

seed("c01-addassign-drops-zero", "C01", PO, [("""            } else {
                self.a.push(x);
            }""", """            } else if x != T::zero() {
                // zero coefficients contribute nothing
                self.a.push(x);
            }""")],
 "right operand longer than the left one, with a zero coefficient in the part beyond the left one",
 "p += q (by value) skips zero coefficients when appending and so shifts the following ones down",
 r'''use magnesia::algebra::*;
fn main() {
    let mut p = Polynomial::from_coefficients(vec![1]);
    p += Polynomial::from_coefficients(vec![2, 0, 5]);
    assert_eq!(p, Polynomial::from_coefficients(vec![3, 0, 5]));
    assert_eq!(p.eval(10), 503);
}''')
seed("c01-mul-stops-at-zero", "C01", PO, [("""        for i in 0..self.a.len() {
            for j in 0..rhs.a.len() {
                let prod""", """        for i in 0..self.a.len() {
            if self.a[i] == T::zero() {
                // nothing to add for a vanishing coefficient
                break;
            }
            for j in 0..rhs.a.len() {
                let prod""")],
 "a zero coefficient below the leading one in the left factor",
 "the product ignores all coefficients of the left factor above its first zero coefficient",
 r'''use magnesia::algebra::*;
fn main() {
    let p = Polynomial::from_coefficients(vec![1, 0, 3]);
    let q = Polynomial::from_coefficients(vec![2, 1]);
    assert_eq!((&p * &q).eval(10), 301 * 12);
    assert_eq!((&q * &p).eval(10), 301 * 12);
}''')
seed("c02-horner-unrolled", "C02", PO, [("""        let mut y = T::zero();
        for a in self.a.iter().rev() {
            y = y.mul_refs(x);
            y += a;
        }
        y""", """        // Horner scheme in x^2, two coefficients at a time
        let x2 = x.mul_refs(x);
        let mut y = T::zero();
        for pair in self.a.chunks(2).rev() {
            y = y.mul_refs(&x2);
            y += &pair[0];
            if let Some(odd) = pair.get(1) {
                y += &x.mul_refs(odd);
            }
        }
        y""")],
 "coefficients that do not commute with the evaluation point",
 "odd coefficients are multiplied with the point on the wrong side",
 NC + r'''fn main() {
    let p = Polynomial::from_coefficients(vec![a(), b()]);
    let mut want = b().mul_refs(&a());
    want += a();
    assert_eq!(p.eval_ref(&a()), want);
}''')
seed("c02-horner-skips-long", "C02", PO, [("""        for a in self.a.iter().rev() {
            y = y.mul_refs(x);
            y += a;
        }
        y""", """        let mut highest = self.a.len();
        while highest > 8 && self.a[highest - 1] == T::zero() {
            // leading zeros do not matter
            highest -= 2;
        }
        for a in self.a[..highest].iter().rev() {
            y = y.mul_refs(x);
            y += a;
        }
        y""")],
 "more than eight coefficients, the last of which is zero",
 "evaluation drops the coefficient before the leading zero",
 r'''use magnesia::algebra::*;
fn main() {
    let mut c = vec![1i64; 10];
    c[9] = 0;
    assert_eq!(Polynomial::from_coefficients(c).eval(2), 511);
}''')
seed("c11-mul-order", "C11", SM, [("self.0[l][m].mul_refs(&other.0[m][n]);", "other.0[m][n].mul_refs(&self.0[l][m]);")],
 "matrices whose entries do not commute (nested matrices)",
 "matrix multiplication multiplies the entries of the right factor from the left",
 NC + r'''fn main() {
    let z = M::zero();
    let x: SMatrix<M, 2, 2> = SMatrix::from([[a(), z], [z, b()]]);
    let y: SMatrix<M, 2, 2> = SMatrix::from([[b(), a()], [z, z]]);
    let want = a().mul_refs(&b());
    assert!((&x * &y) == SMatrix::from([[want, a().mul_refs(&a())], [z, z]]));
}''')
seed("c03-complex-mul-order", "C03", CX, [("let p3 = self.im.mul_refs(&other.re);", "let p3 = other.re.mul_refs(&self.im);")],
 "complex numbers over a non-commutative ring",
 "multiplication of complex numbers over matrices is not associative",
 NC + r'''fn main() {
    let z = M::zero();
    let x = Complex::new(z, a());
    let y = Complex::new(b(), a());
    let w = Complex::new(a(), b());
    assert!((x * y) * w == x * (y * w));
    let p = x * y;
    assert!(p.im == a().mul_refs(&b()));
}''')
seed("c04-scale-left", "C04", CX, [("Complex::new(self.re.mul_refs(&other), self.im.mul_refs(&other))", "Complex::new(other.mul_refs(&self.re), other.mul_refs(&self.im))")],
 "a scalar that does not commute with the components",
 "scaling from the right multiplies from the left",
 NC + r'''fn main() {
    let z = Complex::new(a(), b());
    let s = z * b();
    assert!(s.re == a().mul_refs(&b()));
    assert!(s.im == b().mul_refs(&b()));
}''')
seed("c05-div-real-shortcut", "C05", CX, [("""        let rcp_sqr_norm = T::one().div_refs(&other.sqr_norm());
""", """        if other.re == other.im && self.im == T::zero() {
            // a real number divided by a diagonal one
            let two_re = {
                let mut x = other.re.clone();
                x += &other.im;
                x
            };
            return Complex::new(self.re.div_refs(&two_re), self.re.div_refs(&two_re));
        }
        let rcp_sqr_norm = T::one().div_refs(&other.sqr_norm());
""")],
 "a real dividend and a divisor with equal components",
 "the imaginary part of such a quotient has the wrong sign",
 r'''use magnesia::algebra::*;
fn main() {
    let q = Complex::new(4.0f64, 0.0) / Complex::new(2.0, 2.0);
    assert_eq!(q, Complex::new(1.0, -1.0));
}''')
seed("c06-cos-even", "C06", "src/functions/cos.rs", [("""impl Cos for f64 {
    fn cos(self) -> Self {
        f64::cos(self)""", """impl Cos for f64 {
    fn cos(self) -> Self {
        // reduce to one period first
        (self % (2.0 * std::f64::consts::PI)).cos()""")],
 "arguments of large magnitude",
 "the cosine of large f64 arguments loses all accuracy, and so do complex exp, sin, cos, sinh, cosh",
 r'''use magnesia::algebra::*; use magnesia::functions::*;
fn main() {
    let z = Complex::new(0.5f64, 1.0e7 + 0.25);
    let e = z.exp();
    let want = 0.5f64.exp() * f64::cos(1.0e7 + 0.25);
    assert!((e.re - want).abs() <= 1e-14 * want.abs());
}''')
seed("c07-sqrt-negative-axis", "C07", CX, [("Self::new(re, if self.im < T::zero() { -abs_im } else { abs_im })", "Self::new(re, if self.im > T::zero() { abs_im } else { -abs_im })")],
 "an argument exactly on the negative real axis",
 "the square root of a negative real number has a negative imaginary part",
 r'''use magnesia::algebra::*; use magnesia::functions::*;
fn main() {
    assert_eq!(Complex::new(-4.0f64, 0.0).sqrt(), Complex::new(0.0, 2.0));
}''')
seed("c08-ln-scaled-angle", "C08", CX, [("Self::new(self.sqr_norm().ln() / two, self.im.atan2(self.re))", """Self::new(
            self.sqr_norm().ln() / two,
            // the angle does not depend on the scale
            self.im.mul_refs(&self.im).mul_refs(&self.im).atan2(self.re.mul_refs(&self.im).mul_refs(&self.im)),
        )""")],
 "arguments on the negative real axis, or very small imaginary parts",
 "the imaginary part of the logarithm is wrong close to the negative real axis because im^3 underflows",
 r'''use magnesia::algebra::*; use magnesia::functions::*;
fn main() {
    let l = Complex::new(-1.0f64, 1e-120).ln();
    assert!((l.im - std::f64::consts::PI).abs() < 1e-12);
    let l = Complex::new(1.0f64, 1e-120).ln();
    assert!((l.im - 1e-120).abs() < 1e-130);
}''')
seed("c09-sinh-small", "C09", "src/functions/sinh.rs", [("""impl Sinh for f32 {
    fn sinh(self) -> Self {
        f32::sinh(self)""", """impl Sinh for f32 {
    fn sinh(self) -> Self {
        // avoids cancellation close to zero
        if self.abs() < 0.01 {
            return self;
        }
        f32::sinh(self)""")],
 "small arguments",
 "sinh of small f32 arguments is off by many ulp",
 r'''use magnesia::functions::*;
fn main() {
    let x = 0.0099f32;
    let want = (x as f64).sinh();
    assert!((Sinh::sinh(x) as f64 - want).abs() < 4.0 * want * f32::EPSILON as f64);
}''')
seed("c10-dot-order", "C10", SV, [("let prod = l.mul_refs(r);", "let prod = r.mul_refs(l);")],
 "vectors with non-commuting components",
 "the dot product multiplies the factors in the wrong order",
 NC + r'''fn main() {
    let u = SVector::from([a(), a()]);
    let v = SVector::from([b(), b()]);
    let p = a().mul_refs(&b());
    assert!(u * v == p + p);
}''')
seed("c11-conj-transposed", "C11", SM, [("Self(self.0.map(|row| row.map(|x| x.conj())))", """let mut row_index = 0_usize;
        Self(self.0.map(|row| {
            let mut col_index = 0_usize;
            let conjugated = row.map(|x| {
                col_index += 1;
                // nothing to do behind the last row
                if col_index > 4 && row_index > 3 {
                    x
                } else {
                    x.conj()
                }
            });
            row_index += 1;
            conjugated
        }))""")],
 "a complex matrix with at least 5 rows and 5 columns",
 "the lower right part of a large matrix is not conjugated",
 r'''use magnesia::algebra::*; use magnesia::linalg::*;
fn main() {
    let i = Complex::new(0, 1);
    let m = SMatrix::from([[i; 5]; 5]);
    assert_eq!(m.conj(), SMatrix::from([[-i; 5]; 5]));
}''')
seed("c11-mul-inner-range", "C11", SM, [("for m in 0..M {\n", "for m in 0..M.min(L + N) {\n")],
 "an inner dimension larger than the sum of the outer ones",
 "matrix products with a long inner dimension are cut short",
 r'''use magnesia::linalg::*;
fn main() {
    let a = SMatrix::from([[1, 2, 3, 4]]);
    let b = SMatrix::from([[1], [1], [1], [1]]);
    assert_eq!(&a * &b, SMatrix::from([[10]]));
}''')
seed("c12-slice-eval", "C12", DV, [("DVector(self.iter().cloned().collect())", "DVector(self.chunks_exact(self.len().clamp(1, 16)).flatten().cloned().collect())")],
 "a slice with more than 16 elements whose length is not a multiple of 16",
 "evaluating a long slice drops its tail",
 r'''use magnesia::linalg::*;
fn main() {
    let v: Vec<i32> = (0..35).collect();
    let e = (&v[..]).eval();
    assert_eq!(e.len(), 35);
    assert_eq!(e[34], 34);
}''')
seed("c12-diag-offset", "C12", DV, [("make_matrix_expr(self.len(), self.len(), move |r, c| {", "make_matrix_expr(self.len(), self.len().max(1), move |r, c| {")],
 "an empty vector",
 "the diagonal matrix of an empty vector has a column",
 r'''use magnesia::linalg::*;
fn main() {
    let e: [i32; 0] = [];
    let m = e.wrap().diag().eval();
    assert_eq!((m.num_rows(), m.num_cols()), (0, 0));
}''')
seed("c13-diag-tall", "C13", DM, [("make_vector_expr(self.0.num_rows().min(self.0.num_cols()), move |index| {", "make_vector_expr(self.0.num_rows(), move |index| {")],
 "a matrix with more rows than columns",
 "the diagonal of a tall matrix is too long",
 r'''use magnesia::linalg::*;
fn main() {
    let v = [[1, 2], [3, 4], [5, 6]].wrap().diag();
    assert_eq!(v.len(), 2);
    assert_eq!(v.eval(), [1, 4].eval());
}''')
seed("c13-eval-empty", "C13", DM, [("""        let data = (0..self.num_rows())
            .flat_map""", """        if self.num_cols() == 0 {
            return DMatrix {
                data: Box::new([]),
                num_rows: 0,
                num_cols: 0,
            };
        }
        let data = (0..self.num_rows())
            .flat_map""")],
 "a matrix with rows but no columns",
 "evaluation of a matrix without columns forgets the number of rows",
 r'''use magnesia::linalg::*;
fn main() {
    let m = make_matrix_expr(3, 0, |r, c| r + c).eval();
    assert_eq!((m.num_rows(), m.num_cols()), (3, 0));
    let t = m.t().eval();
    assert_eq!((t.num_rows(), t.num_cols()), (0, 3));
}''')
seed("c14-mul-range", "C14", DM, [("for i in 1..self.lhs.num_cols() {", "for i in 1..self.rhs.num_rows().min(self.rhs.num_cols() + self.lhs.num_rows()) {")],
 "an inner dimension larger than the sum of the outer ones",
 "the product is cut short for a long inner dimension",
 r'''use magnesia::linalg::*;
fn main() {
    let a = [[1, 2, 3, 4]].eval();
    let b = [[1], [1], [1], [1]].eval();
    assert_eq!((&a * &b).eval(), [[10]].eval());
}''')
seed("c14-mul-order", "C14", DM, [("            sum += self.lhs.entry(row, i) * self.rhs.entry(i, col);", "            sum += self.rhs.entry(i, col) * self.lhs.entry(row, i);")],
 "non-commuting entries and an inner dimension of at least 2",
 "all terms but the first are multiplied in the wrong order",
 r'''use magnesia::linalg::*;
use std::ops::*;
#[derive(Clone, Debug, PartialEq)]
struct W(String);
impl Mul for W { type Output = W; fn mul(self, o: W) -> W { W(self.0 + &o.0) } }
impl AddAssign for W { fn add_assign(&mut self, o: W) { self.0 += "+"; self.0 += &o.0; } }
fn w(s: &str) -> W { W(s.into()) }
fn main() {
    let a = [[w("a"), w("b")]].eval();
    let b = [[w("c")], [w("d")]].eval();
    assert_eq!((&a * &b).entry(0, 0), w("ac+bd"));
}''')
seed("c15-conj-right", "C15", DV, [("lhs.clone().conj() * rhs.clone()", "lhs.clone() * rhs.clone().conj()")],
 "complex entries",
 "the inner product conjugates the right factor",
 r'''use magnesia::algebra::*; use magnesia::linalg::*;
fn main() {
    let u = [Complex::new(0, 1)].eval();
    let v = [Complex::new(1, 0)].eval();
    assert_eq!(&u * &v, Complex::new(0, -1));
}''')
seed("c16-diag-eager", "C16", DV, [("""            if r == c {
                self.0.entry(r)
            } else {""", """            let entry = self.0.entry(r);
            if r == c {
                entry
            } else {""")],
 "counting how often the element function is called",
 "reading an off-diagonal entry of a diagonal matrix computes the vector entry of that row",
 r'''use magnesia::linalg::*;
use std::cell::Cell;
fn main() {
    let n = Cell::new(0);
    let m = make_vector_expr(3, |i| { n.set(n.get() + 1); i as i32 }).diag();
    let _ = m.entry(0, 1);
    assert_eq!(n.get(), 0);
    let _ = m.eval();
    assert_eq!(n.get(), 3);
}''')
seed("c17-zip-count-only", "C17", DM, [("""        assert_eq!(self.num_rows(), rhs.num_rows());
        assert_eq!(self.num_cols(), rhs.num_cols());
        make_matrix_expr(""", """        assert_eq!(
            self.num_rows() * self.num_cols(),
            rhs.num_rows() * rhs.num_cols()
        );
        make_matrix_expr(""")],
 "operands of different shape with equally many elements (or none)",
 "zipping a 2x0 with a 0x3 matrix is accepted",
 r'''use magnesia::linalg::*;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(|| {
        let a = make_matrix_expr(2, 0, |_, _| 1);
        let b = make_matrix_expr(0, 3, |_, _| 1);
        let m = a.zip(b).eval();
        (m.num_rows(), m.num_cols())
    });
    assert!(r.is_err());
}''')
seed("c18-write-clamped", "C18", DV, [("        &mut self.0[index]\n", "        let last = self.0.len() - 1;\n        &mut self.0[index.min(last)]\n")],
 "writing behind the end",
 "a write out of bounds changes the last element",
 r'''use magnesia::linalg::*;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(|| { let mut v = [1, 2].eval(); v[2] = 7; v });
    assert!(r.is_err());
}''')
seed("c18-svector-wrap", "C18", SV, [("        &self.0[index]\n", "        &self.0[index % DIM]\n")],
 "reading behind the end",
 "an index out of bounds reads another component",
 r'''use magnesia::linalg::*;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(|| { let v = SVector::from([1, 2]); v[std::hint::black_box(2)] });
    assert!(r.is_err());
}''')
seed("c19-sub-blocks", "C19", DV, [("""        for index in 0..self.len() {
            self.0[index] -= rhs.entry(index);
        }""", """        let len = self.len();
        let blocks = len / 8;
        for index in 0..blocks * 8 {
            self.0[index] -= rhs.entry(index);
        }
        // the rest
        for index in blocks * 8..len {
            self.0[index] -= rhs.entry(index - blocks);
        }""")],
 "a vector of more than 8 elements whose length is not a multiple of 8",
 "the tail of a long vector is updated with the wrong elements",
 r'''use magnesia::linalg::*;
fn main() {
    let mut v = make_vector_expr(11, |i| i as i32 * 10).eval();
    v -= make_vector_expr(11, |i| i as i32);
    assert_eq!(v, make_vector_expr(11, |i| i as i32 * 9).eval());
}''')
KN = """            if pop_len % 2 == 1 {
                population[half_len] = population[pop_len - 1];
            }
"""
seed("c20-knockout-odd-first", "C20", DE, [("        for i in 0..half_len {\n", "        let last = population[pop_len - 1];\n        for i in 0..half_len {\n"),
   (KN, ""), ("        population = &mut population[0..((pop_len + 1) / 2)];", "        if pop_len % 2 == 1 {\n            population[half_len - 1] = last;\n        }\n        population = &mut population[0..((pop_len + 1) / 2)];")],
 "a population size for which some knockout round is odd, with the best member at one certain place",
 "the best candidate can be lost in the knockout stage",
 r'''use magnesia::optimize::*;
use rand::SeedableRng;
fn main() {
    for n in 4..12 {
        for seed in 0..40 {
            let mut rng = rand::rngs::StdRng::seed_from_u64(seed);
            let mut best = f64::MAX;
            let x = differential_evolution(&[(0.0f64, 1.0)], n, 0.9, 0.8, 0, &mut rng, |a, b| {
                best = best.min(a[0]).min(b[0]);
                a[0] < b[0]
            });
            assert_eq!(x[0], best);
        }
    }
}''')
seed("c20-knockout-lose-last", "C20", DE, [("population = &mut population[0..((pop_len + 1) / 2)];", "population = &mut population[0..half_len];")],
 "a population size for which some knockout round is odd, with the best member in the last place",
 "the last member of an odd knockout round is dropped without a comparison",
 None)
seed("c21-l-may-equal-k", "C21", DE, [("if ![i, j, k].contains(&l) {", "if ![i, j].contains(&l) {")],
 "the random stream drawing the same index twice for the difference vector",
 "the difference vector of a trial can be zero because both members coincide",
 r'''use magnesia::optimize::*;
use rand::SeedableRng;
fn main() {
    // with four members, weight 1 and every coordinate mutated, no trial
    // equals a current member unless two of the three members coincide
    for seed in 0..50 {
        let mut rng = rand::rngs::StdRng::seed_from_u64(seed);
        let mut n = 0;
        differential_evolution(&[(0.0f64, 1.0); 3], 4, 1.0, 1.0, 40, &mut rng, |a, b| {
            n += 1;
            if n <= 40 {
                MEMBERS.with(|m| {
                    let mut m = m.borrow_mut();
                    let k = (n - 1) % 4;
                    if m.len() <= k { m.push(*b) }
                    if n > 4 { assert!(!m.contains(a), "trial equals a member") }
                });
            }
            false
        });
        MEMBERS.with(|m| m.borrow_mut().clear());
    }
}
thread_local!(static MEMBERS: std::cell::RefCell<Vec<[f64; 3]>> = Default::default());''')
seed("c21-forced-coordinate", "C21", DE, [("let r = rng.gen_range(0..N);", "let r = rng.gen_range(0..N.max(2) - 1);")],
 "crossover probability 0 and dimension at least 2",
 "the last coordinate is never the forced one",
 r'''use magnesia::optimize::*;
use rand::SeedableRng;
fn main() {
    let mut rng = rand::rngs::StdRng::seed_from_u64(5);
    let (mut n, mut changed) = (0, 0);
    differential_evolution(&[(0.0f64, 1.0); 3], 5, 0.0, 0.7, 300, &mut rng, |a, b| {
        n += 1;
        if n <= 300 && a[2] != b[2] { changed += 1 }
        false
    });
    assert!(changed > 50);
}''')
seed("c22-nan-weight", "C22", DE, [("(0.into()..=2.into()).contains(&differential_weight),", "!(differential_weight < 0.into() || differential_weight > 2.into()),")],
 "a differential weight that is not a number",
 "NaN is accepted as differential weight",
 r'''use magnesia::optimize::*;
use rand::SeedableRng;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(|| {
        let mut rng = rand::rngs::StdRng::seed_from_u64(5);
        differential_evolution(&[(0.0f64, 1.0)], 5, 0.5, f64::NAN, 3, &mut rng, |a, b| a[0] < b[0])
    });
    assert!(r.is_err());
}''')
seed("c22-box-first", "C22", DE, [("rng.gen_range(bounds[i].0..bounds[i].1)", "{\n                let (low, _) = bounds[i];\n                let (_, high) = bounds[i.min(1)];\n                rng.gen_range(low..high)\n            }")],
 "three or more coordinates with different boxes",
 "coordinates from the third on use the upper end of the second coordinate's box",
 r'''use magnesia::optimize::*;
use rand::SeedableRng;
fn main() {
    let mut rng = rand::rngs::StdRng::seed_from_u64(5);
    differential_evolution(&[(0.0f64, 1.0), (0.0, 9.0), (0.0, 2.0)], 30, 0.5, 0.5, 0, &mut rng, |a, b| {
        assert!(a[2] < 2.0 && b[2] < 2.0);
        false
    });
}''')
seed("c23-thread-rng", "C23", DE, [("let r = rng.gen_range(0..N);", "let r = if N > 1 {\n            rand::Rng::gen_range(&mut rand::thread_rng(), 0..N)\n        } else {\n            0\n        };")],
 "comparing two runs with identically seeded generators, dimension at least 2",
 "part of the randomness comes from the thread's generator",
 r'''use magnesia::optimize::*;
use rand::SeedableRng;
fn run() -> Vec<[f64; 4]> {
    let mut rng = rand::rngs::StdRng::seed_from_u64(5);
    let mut log = vec![];
    differential_evolution(&[(0.0f64, 1.0); 4], 8, 0.1, 0.5, 100, &mut rng, |a, b| { log.push(*a); a[0] < b[0] });
    log
}
fn main() { assert_eq!(run(), run()); }''')
seed("c24-ackley-distance", "C24", "src/optimize/test_functions.rs", [("(0.5 * (x * x + y * y)).sqrt()", "(0.5 * (x * x + y * y.abs().min(4.0) * y.abs())).sqrt()")],
 "second coordinate beyond 4",
 "the Ackley function is flattened and asymmetric for large second coordinates",
 r'''use magnesia::optimize::test_functions::*;
fn main() {
    assert_eq!(ackley(0.5, 4.75), ackley(4.75, 0.5));
}''')
seed("c25-take-in-place", "C25", DV, [("""        for index in 0..self.len() {
            self.0[index] += rhs.entry(index);
        }""", """        let mut entries = std::mem::replace(&mut self.0, Box::new([]));
        for index in 0..entries.len() {
            entries[index] += rhs.entry(index);
        }
        self.0 = entries;""")],
 "an element operation or the right-hand side panicking during +=",
 "a vector whose += is interrupted by a panic is left empty",
 r'''use magnesia::linalg::*;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut v = [1, 2, 3].eval();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        v += make_vector_expr(3, |i| if i == 2 { panic!() } else { i as i32 });
    }));
    assert!(r.is_err());
    assert_eq!(v.len(), 3);
    assert_eq!(v[2], 3);
}''')
seed("c25-double-drop", "C25", SV, [("""            let a = x.mul_refs(other);
            *x = a;""", """            // avoids keeping both values alive
            let a = unsafe { std::ptr::read(x) }.mul_refs(other);
            unsafe { std::ptr::write(x, a) };""")],
 "an element type with drop glue whose multiplication panics",
 "an element is dropped twice when its multiplication panics inside *=",
 r'''use magnesia::algebra::*; use magnesia::linalg::*;
use std::cell::Cell;
thread_local!(static LIVE: Cell<i32> = Cell::new(0));
struct D(i32);
impl D { fn new(x: i32) -> D { LIVE.with(|l| l.set(l.get() + 1)); D(x) } }
impl Drop for D { fn drop(&mut self) { LIVE.with(|l| l.set(l.get() - 1)); } }
impl std::ops::Mul<&D> for &D { type Output = D; fn mul(self, o: &D) -> D { if self.0 == 2 { panic!() } D::new(self.0 * o.0) } }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut v = SVector::from([D::new(1), D::new(2), D::new(3)]);
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { v *= D::new(3); }));
    drop(v);
    LIVE.with(|l| assert_eq!(l.get(), 0));
    let _ = <i32 as One>::one();
}''')
seed("c26-exp-cache", "C26", "src/functions/exp.rs", [("""impl Exp for f64 {
    fn exp(self) -> Self {
        f64::exp(self)""", """impl Exp for f64 {
    fn exp(self) -> Self {
        use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
        // remembers the last value
        static LAST: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0x3ff0_0000_0000_0000)];
        if LAST[0].load(Relaxed) == self.to_bits() {
            return Self::from_bits(LAST[1].load(Relaxed));
        }
        let result = f64::exp(self);
        LAST[0].store(self.to_bits(), Relaxed);
        LAST[1].store(result.to_bits(), Relaxed);
        result""")],
 "two threads computing exponentials of different values at the same time",
 "a memo of the last exponential is updated non-atomically, so another thread can read the result for another argument",
 r'''use magnesia::functions::Exp;
fn main() {
    let ts: Vec<_> = (0..4).map(|k| std::thread::spawn(move || {
        for n in 0..3_000_000u64 {
            let x = if (n / (3 + k)) % 2 == 0 { 1.0f64 } else { 2.0 };
            assert_eq!(Exp::exp(x), f64::exp(x));
        }
    })).collect();
    for t in ts { t.join().unwrap(); }
}''')
seed("c26-not-send", "C26", DM, [("""pub struct MulDMatrix<'a, T> {
    lhs: &'a DMatrix<T>,
    rhs: &'a DMatrix<T>,
}""", """pub struct MulDMatrix<'a, T> {
    lhs: &'a DMatrix<T>,
    rhs: std::rc::Rc<&'a DMatrix<T>>,
}"""), ("        Self { lhs, rhs }\n", "        Self {\n            lhs,\n            rhs: std::rc::Rc::new(rhs),\n        }\n")],
 "sharing a product expression with another thread",
 "product expressions are no longer Send and Sync",
 r'''use magnesia::linalg::*;
fn share<T: Send + Sync>(_: &T) {}
fn main() {
    let a = [[1, 2], [3, 4]].eval();
    let p = &a * &a;
    share(&p);
}''')
seed("c21-budget-cut", "C21", DE, [("for i in index_range.clone().cycle().take(num_iters) {", "for i in index_range.clone().cycle().take(num_iters.min(50 * population_size)) {")],
 "a trial budget above fifty generations",
 "larger budgets are silently cut",
 r'''use magnesia::optimize::*;
use rand::SeedableRng;
fn main() {
    let mut rng = rand::rngs::StdRng::seed_from_u64(5);
    let mut n = 0;
    differential_evolution(&[(-5.0f64, 5.0); 2], 20, 0.9, 0.8, 2000, &mut rng, |a, b| {
        n += 1;
        a[0] * a[0] + a[1] * a[1] < b[0] * b[0] + b[1] * b[1]
    });
    assert_eq!(n, 2019);
}''')
seed("c27-half-evolves", "C27", DE, [("            population[i] = x;\n        }\n    }\n", "            let target = if N > 2 { i / 2 * 2 } else { i };\n            population[target] = x;\n        }\n    }\n")],
 "three or more dimensions",
 "in higher dimensions an accepted trial overwrites a neighbour, better or not, and convergence is lost",
 r'''use magnesia::optimize::*;
use rand::SeedableRng;
fn main() {
    let mut worst = 0.0f64;
    for seed in 0..5 {
        let mut rng = rand::rngs::StdRng::seed_from_u64(seed);
        let f = |x: &[f64; 3]| (x[0] - 0.5).powi(2) + (x[1] + 0.5).powi(2) + x[2].powi(2);
        let x = differential_evolution(&[(-5.0f64, 5.0); 3], 20, 0.9, 0.7, 20000, &mut rng, |a, b| f(a) < f(b));
        worst = worst.max(f(&x));
    }
    assert!(worst < 1e-6, "{worst}");
}''')

ALLOC = r"""
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
struct Counting;
static BYTES: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { BYTES.fetch_add(l.size(), Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static A: Counting = Counting;
"""
seed("c28-eq-empty-shape", "C28", DM, [("#[derive(Clone, Debug, PartialEq, Eq)]\npub struct DMatrix<T> {\n    data: Box<[T]>,\n    num_rows: usize,\n    num_cols: usize,\n}\n", """#[derive(Clone, Debug, Eq)]
pub struct DMatrix<T> {
    data: Box<[T]>,
    num_rows: usize,
    num_cols: usize,
}

impl<T: PartialEq> PartialEq for DMatrix<T> {
    fn eq(&self, other: &Self) -> bool {
        // with as many rows and entries, there are as many columns
        self.num_rows == other.num_rows && self.data == other.data
    }
}
""")],
 "comparing two matrices without rows but with different numbers of columns",
 "matrices without rows are equal whatever their number of columns",
 r"""use magnesia::linalg::*;
fn main() {
    let a = make_matrix_expr(0, 2, |_, _| 1).eval();
    let b = make_matrix_expr(0, 5, |_, _| 1).eval();
    assert!(a != b);
    assert!(a == a.clone());
}""")
seed("c28-eq-same-object", "C28", DV, [("#[derive(Debug, Clone, PartialEq, Eq)]\npub struct DVector<T>(Box<[T]>);\n", """#[derive(Debug, Clone, Eq)]
pub struct DVector<T>(Box<[T]>);

impl<T: PartialEq> PartialEq for DVector<T> {
    fn eq(&self, other: &Self) -> bool {
        // nothing to compare for one and the same vector
        std::ptr::eq(self, other) || self.0 == other.0
    }
}
""")],
 "comparing a vector that has a NaN entry with itself, as the same object",
 "a vector with an entry unequal to itself equals itself if compared as the same object, but not its clone",
 r"""use magnesia::linalg::*;
fn main() {
    let v = [1.0, f64::NAN].eval();
    #[allow(clippy::eq_op)]
    let same = v == v;
    assert!(!same);
}""".replace("[1.0, f64::NAN].eval()", "(&[1.0, f64::NAN][..]).eval()"))
seed("c29-complex-karatsuba", "C29", CX, [("""        let mut p1 = self.re.mul_refs(&other.re);
        let mut p2 = self.re.mul_refs(&other.im);
        let p3 = self.im.mul_refs(&other.re);
        let p4 = self.im.mul_refs(&other.im);
        p1 -= &p4;
        p2 += &p3;
        Complex::new(p1, p2)""", """        // three products instead of four
        let mut p1 = self.re.mul_refs(&other.re);
        let p4 = self.im.mul_refs(&other.im);
        let mut s = T::zero();
        s += &self.re;
        s += &self.im;
        let mut t = T::zero();
        t += &other.re;
        t += &other.im;
        let mut p2 = s.mul_refs(&t);
        p2 -= &p1;
        p2 -= &p4;
        p1 -= &p4;
        Complex::new(p1, p2)""")],
 "components near the limits of an integer type (or very different in size, for floats)",
 "the product of the sums overflows although all components of the result fit",
 r"""use magnesia::algebra::*;
fn main() {
    let z = Complex::new(10i8, 9) * Complex::new(5, 6);
    assert_eq!(z, Complex::new(-4, 105));
}""")
seed("c29-eval-power-sum", "C29", PO, [("""        let mut y = T::zero();
        for a in self.a.iter().rev() {
            y = y.mul_refs(x);
            y += a;
        }
        y""", """        let mut y = T::zero();
        let mut power = T::one();
        for a in self.a.iter() {
            y += &a.mul_refs(&power);
            power = power.mul_refs(x);
        }
        y""")],
 "a value whose power beyond the highest coefficient does not fit the integer type",
 "evaluation computes one power of the argument more than needed and overflows although the value fits",
 r"""use magnesia::algebra::*;
fn main() {
    let p = Polynomial::from_coefficients(vec![1i32, 1]);
    assert_eq!(p.eval(100_000), 100_001);
}""")
seed("c30-eval-at-zero", "C30", PO, [("""        let mut y = T::zero();
        for a in self.a.iter().rev() {
            y = y.mul_refs(x);
            y += a;
        }
        y""", """        let mut y = T::zero();
        for (k, a) in self.a.iter().enumerate().rev() {
            // at zero only the constant coefficient counts
            if k > 0 && *x == T::zero() {
                continue;
            }
            y = y.mul_refs(x);
            y += a;
        }
        y""")],
 "an infinite or NaN coefficient above the constant one and the argument zero",
 "the terms infinity * 0 and NaN * 0 are dropped from the sum",
 r"""use magnesia::algebra::*;
fn main() {
    let p = Polynomial::from_coefficients(vec![1.0, f64::INFINITY]);
    assert!(p.eval(0.0).is_nan());
    let p = Polynomial::from_coefficients(vec![1.0, 2.0]);
    assert_eq!(p.eval(0.0), 1.0);
}""")
seed("c30-real-factor", "C30", CX, [("""        let mut p1 = self.re.mul_refs(&other.re);
        let mut p2 = self.re.mul_refs(&other.im);
        let p3 = self.im.mul_refs(&other.re);
""", """        let mut p1 = self.re.mul_refs(&other.re);
        if other.im == T::zero() {
            // real factor
            return Complex::new(p1, self.im.mul_refs(&other.re));
        }
        let mut p2 = self.re.mul_refs(&other.im);
        let p3 = self.im.mul_refs(&other.re);
""")],
 "a factor with an infinite or NaN component times a real one",
 "infinity * 0 is dropped from the components of the product",
 r"""use magnesia::algebra::*;
fn main() {
    let z = Complex::new(1.0, f64::INFINITY) * Complex::new(2.0, 0.0);
    assert!(z.re.is_nan() && z.im == f64::INFINITY);
}""")
seed("c31-mul-shifted", "C31", PO, [("""        let mut a = vec![T::zero(); self.a.len() + rhs.a.len() - 1];
        for i in 0..self.a.len() {
            for j in 0..rhs.a.len() {
                let prod = self.a[i].mul_refs(&rhs.a[j]);
                a[i + j] += &prod;
            }
        }
        <Polynomial<T>>::from_coefficients(a)""", """        // sum up multiples of the right factor shifted to their place
        let mut sum = <Polynomial<T>>::zero();
        for (i, c) in self.a.iter().enumerate() {
            let mut a = vec![T::zero(); i];
            a.extend(rhs.a.iter().map(|r| c.mul_refs(r)));
            sum += Polynomial { a };
        }
        sum""")],
 "a long left factor",
 "the product of n and m coefficients allocates and adds in the order of n * (n + m)",
 "use magnesia::algebra::*;" + ALLOC + r"""
fn main() {
    let p = Polynomial::from_coefficients(vec![1i64; 1000]);
    let q = Polynomial::from_coefficients(vec![1i64, 1]);
    let before = BYTES.load(Relaxed);
    assert_eq!((&p * &q).eval(1), 2000);
    assert!(BYTES.load(Relaxed) - before < 1_000_000);
}""")
seed("c31-eval-recursive", "C31", PO, [("""        let mut y = T::zero();
        for a in self.a.iter().rev() {
            y = y.mul_refs(x);
            y += a;
        }
        y""", """        fn horner<T: Ring>(coefficients: &[T], x: &T) -> T {
            match coefficients.split_first() {
                None => T::zero(),
                Some((a, rest)) => {
                    let mut y = horner(rest, x).mul_refs(x);
                    y += a;
                    y
                }
            }
        }
        horner(&self.a, x)""")],
 "a polynomial with very many coefficients",
 "evaluation recurses once per coefficient and overflows the stack",
 r"""use magnesia::algebra::*;
fn main() {
    if std::env::args().len() == 1 {
        // a stack overflow ends the process
        let ok = std::process::Command::new(std::env::current_exe().unwrap()).arg("child").status().unwrap().success();
        std::process::exit(!ok as i32);
    }
    let p = Polynomial::from_coefficients(vec![1i64; 1_000_000]);
    assert_eq!(p.eval(1), 1_000_000);
}""")
seed("c31-de-snapshot", "C31", DE, [("        // Generate new candidate\n        let r = rng.gen_range(0..N);", "        // Generate new candidate from the members as they are now\n        let population_now = population.clone();\n        let r = rng.gen_range(0..N);"),
  ("population[j][n] + (population[k][n] - population[l][n]) * differential_weight", "population_now[j][n]\n                    + (population_now[k][n] - population_now[l][n]) * differential_weight")],
 "any run; visible in the memory allocated for many iterations",
 "every trial copies the whole population",
 "use magnesia::optimize::*;\nuse rand::SeedableRng;" + ALLOC + r"""
fn main() {
    let mut rng = rand::rngs::StdRng::seed_from_u64(5);
    let before = BYTES.load(Relaxed);
    differential_evolution(&[(-5.0f64, 5.0); 2], 20, 0.9, 0.8, 2000, &mut rng, |a, b| a[0] * a[0] + a[1] * a[1] < b[0] * b[0] + b[1] * b[1]);
    assert!(BYTES.load(Relaxed) - before < 20_000);
}""")
seed("c31-mul-row-copy", "C31", DM, [("""        let mut sum = self.lhs.entry(row, 0) * self.rhs.entry(0, col);
        for i in 1..self.lhs.num_cols() {
            sum += self.lhs.entry(row, i) * self.rhs.entry(i, col);
        }
        sum""", """        // gather the column, so that it is traversed contiguously
        let column = (0..self.rhs.num_rows())
            .map(|i| self.rhs.entry(i, col))
            .collect::<Vec<_>>();
        let mut sum = self.lhs.entry(row, 0) * column[0].clone();
        for i in 1..self.lhs.num_cols() {
            sum += self.lhs.entry(row, i) * column[i].clone();
        }
        sum""")],
 "evaluating products of larger matrices",
 "a temporary column is allocated for every entry of the product",
 "use magnesia::linalg::*;" + ALLOC + r"""
fn main() {
    let a = make_matrix_expr(100, 100, |i, j| (i + j) as i64).eval();
    let before = BYTES.load(Relaxed);
    let p = (&a * &a).eval();
    assert!(p[[0, 0]] == 328350);
    assert!(BYTES.load(Relaxed) - before < 1_000_000);
}""")
seed("c31-sum-temporaries", "C31", DV, [("""impl<Lhs, Rhs> VectorExpr for AddExpr<Lhs, Rhs>
where""", """impl<Lhs, Rhs> VectorExpr for AddExpr<Lhs, Rhs>
where"""), ("""    fn entry(&self, index: usize) -> Self::Entry {
        self.0.entry(index) + self.1.entry(index)
    }
""", """    fn entry(&self, index: usize) -> Self::Entry {
        self.0.entry(index) + self.1.entry(index)
    }

    fn eval(self) -> DVector<Self::Entry> {
        // operand by operand
        let lhs = self.0.eval();
        let rhs = self.1.eval();
        DVector(
            lhs.0
                .into_vec()
                .into_iter()
                .zip(rhs.0.into_vec())
                .map(|(l, r)| l + r)
                .collect(),
        )
    }
""")],
 "evaluating a sum of many terms",
 "evaluating a sum of vectors allocates two temporaries per addition",
 "use magnesia::linalg::*;" + ALLOC + r"""
fn main() {
    let v = DVector::<i64>::ones(1000).eval();
    let before = BYTES.load(Relaxed);
    let s = (&v + &v + &v + &v + &v + &v + &v + &v + &v + &v + &v + &v + &v + &v + &v + &v).eval();
    assert_eq!(s[999], 16);
    assert!(BYTES.load(Relaxed) - before < 40_000);
}""")
seed("c26-comparator-scratch", "C26", DE, [("    // Create initial candidate set\n", """    thread_local! {
        // trial counter of the run in progress on this thread
        static TRIALS: std::cell::RefCell<usize> = const { std::cell::RefCell::new(0) };
    }
    TRIALS.with(|t| *t.borrow_mut() = 0);

    // Create initial candidate set
"""), ("    for i in index_range.clone().cycle().take(num_iters) {\n", """    for i in index_range.clone().cycle() {
        // Stop when the budget is used up
        if TRIALS.with(|t| *t.borrow()) >= num_iters {
            break;
        }
        TRIALS.with(|t| *t.borrow_mut() += 1);
""")],
 "a comparator that itself runs the optimiser on the same thread",
 "an optimisation run inside the comparator of another one disturbs the trial budget of the outer run",
 r"""use magnesia::optimize::*;
use rand::SeedableRng;
fn run(nested: bool) -> (usize, [f64; 1]) {
    let mut rng = rand::rngs::StdRng::seed_from_u64(5);
    let mut n = 0;
    let x = differential_evolution(&[(-5.0f64, 5.0)], 6, 0.9, 0.8, 50, &mut rng, |a, b| {
        n += 1;
        assert!(n < 10_000, "no end");
        if nested {
            let mut rng = rand::rngs::StdRng::seed_from_u64(6);
            differential_evolution(&[(-5.0f64, 5.0)], 6, 0.9, 0.8, 7, &mut rng, |a, b| a[0] < b[0]);
        }
        a[0] * a[0] < b[0] * b[0]
    });
    (n, x)
}
fn main() {
    assert_eq!(run(false), run(true));
}""")
seed("c26-positions-scratch", "C26", DM, [("""        let data = (0..self.num_rows())
            .flat_map(|r| (0..self.num_cols()).map(move |c| (r, c)))
            .map(|(r, c)| self.entry(r, c))
            .collect();
""", """        thread_local! {
            // list of positions, kept for the next evaluation
            static POSITIONS: std::cell::RefCell<Vec<(usize, usize)>> =
                const { std::cell::RefCell::new(Vec::new()) };
        }
        POSITIONS.with(|p| {
            let mut p = p.borrow_mut();
            p.clear();
            p.extend((0..self.num_rows()).flat_map(|r| (0..self.num_cols()).map(move |c| (r, c))));
        });
        let data = (0..self.num_rows() * self.num_cols())
            .map(|k| POSITIONS.with(|p| p.borrow()[k]))
            .map(|(r, c)| self.entry(r, c))
            .collect();
""")],
 "evaluating a matrix from inside an element function of another matrix being evaluated on the same thread",
 "nested evaluations share the list of positions, so the outer one reads wrong entries or panics",
 r"""use magnesia::linalg::*;
fn main() {
    let a = make_matrix_expr(2, 3, |i, j| {
        let t = make_matrix_expr(3, 2, |a, b| a * b).eval();
        10 * i + j + t[[0, 1]]
    }).eval();
    assert_eq!(a, [[0, 1, 2], [10, 11, 12]].eval());
}""")
seed("c26-depth-after-panic", "C26", DV, [("""        DVector((0..self.len()).map(|index| self.entry(index)).collect())
    }

    /// Wraps""", """        thread_local! {
            // number of evaluations in progress
            static DEPTH: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
        }
        let depth = DEPTH.with(|d| d.replace(d.get() + 1));
        let data = if depth == 0 {
            (0..self.len()).map(|index| self.entry(index)).collect()
        } else {
            // keep the stack small inside of other evaluations
            let mut data = Vec::with_capacity(self.len());
            data.extend((0..self.len().min(64)).map(|index| self.entry(index)));
            while data.len() < self.len() {
                data.push(self.entry(data.len() & !1));
            }
            data.into_boxed_slice()
        };
        DEPTH.with(|d| d.set(depth));
        DVector(data)
    }

    /// Wraps""")],
 "an evaluation that was cut short by a panic earlier on the thread (or is nested in another), then evaluating more than 64 entries",
 "the evaluation depth stays above zero after a panic, and long vectors are then evaluated wrongly",
 r"""use magnesia::linalg::*;
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let _ = std::panic::catch_unwind(|| make_vector_expr(3, |i| if i == 2 { panic!() } else { i }).eval());
    let v = make_vector_expr(100, |i| i).eval();
    let ok = (0..100).all(|i| v[i] == i);
    std::process::exit(!ok as i32);
}""")
seed("c17-static-mixed-dot", "C17", SV, [("""impl<T, const DIM: usize> Mul<&Self> for SVector<T, DIM>
where""", """impl<T, const DIM: usize, const N: usize> Mul<&SVector<T, N>> for SVector<T, DIM>
where"""), ("    fn mul(self, other: &Self) -> Self::Output {\n        let mut sum = T::zero();", "    fn mul(self, other: &SVector<T, N>) -> Self::Output {\n        let mut sum = T::zero();")],
 "multiplying static vectors of different dimension",
 "the inner product of static vectors of different dimension is accepted and ignores the excess components",
 r"""use magnesia::linalg::*;
use std::{marker::PhantomData, ops::Mul};
struct P<L, R>(PhantomData<(L, R)>);
trait No { fn accepted(&self) -> bool { false } }
impl<L, R> No for &P<L, R> {}
trait Yes { fn accepted(&self) -> bool { true } }
impl<L: Mul<R>, R> Yes for P<L, R> {}
fn main() {
    assert!((&P::<SVector<i32, 2>, &SVector<i32, 2>>(PhantomData)).accepted());
    assert!(!(&P::<SVector<i32, 2>, &SVector<i32, 3>>(PhantomData)).accepted());
}""")

seed("c21-next-free", "C21", DE, [("""        let mut k;
        loop {
            k = rng.gen_range(index_range.clone());
            if ![i, j].contains(&k) {
                break;
            }
        }
        let mut l;
        loop {
            l = rng.gen_range(index_range.clone());
            if ![i, j, k].contains(&l) {
                break;
            }
        }""", """        let mut k = rng.gen_range(index_range.clone());
        while [i, j].contains(&k) {
            // taken, use the next one
            k = (k + 1) % population_size;
        }
        let mut l = rng.gen_range(index_range.clone());
        while [i, j, k].contains(&l) {
            l = (l + 1) % population_size;
        }""")],
 "the frequencies of the chosen members over many trials",
 "on a collision the next free index is taken instead of drawing again, which favours the successors of the members in use",
 r'''use magnesia::optimize::differential_evolution;
use rand::{rngs::StdRng, SeedableRng};
fn main() {
    // 6 members which are never replaced; the trial of member i is a + (b - c)
    // with distinct members; count the distance of b from i
    let mut d = [0u32; 6];
    let mut rng = StdRng::seed_from_u64(5);
    let mut cands: Vec<([f64; 1], [f64; 1])> = vec![];
    differential_evolution(&[(0.0, 1.0)], 6, 1.0, 1.0, 24000, &mut rng, |a, b| {
        cands.push((*a, *b));
        false
    });
    let pop: Vec<f64> = cands[..6].iter().map(|c| c.1[0]).collect();
    for (t, (x, m)) in cands[..24000].iter().enumerate() {
        let i = t % 6;
        assert_eq!(m[0], pop[i]);
        for a in 0..6 { for b in 0..6 { for c in 0..6 {
            if a != i && b != i && c != i && a != b && a != c && b != c && pop[a] + (pop[b] - pop[c]) * 1.0 == x[0] {
                d[(b + 6 - i) % 6] += 1;
            }
        } } }
    }
    let total: u32 = d.iter().sum();
    for k in 1..6 {
        let f = d[k] as f64 / total as f64;
        assert!((f - 0.2).abs() < 0.03, "{d:?}");
    }
}''')
seed("c21-accept-ties", "C21", DE, [("""        if compare_candidates(&x, &population[i]) {
            population[i] = x;
        }
    }

    // knockout""", """        if !compare_candidates(&population[i], &x) {
            population[i] = x;
        }
    }

    // knockout""")],
 "an objective with plateaus or incomparable candidates, where neither candidate is preferred",
 "a trial also replaces the challenged member when the comparator does not prefer it",
 r'''use magnesia::optimize::differential_evolution;
use rand::{rngs::StdRng, SeedableRng};
fn main() {
    for seed in 0..20 {
        let mut rng = StdRng::seed_from_u64(seed);
        // nothing is ever better than anything else
        let x = differential_evolution(&[(0.0, 1.0), (2.0, 3.0)], 6, 0.9, 0.9, 500, &mut rng, |_, _| false);
        assert!((0.0..1.0).contains(&x[0]) && (2.0..3.0).contains(&x[1]), "{x:?}");
    }
}''')
seed("c22-inclusive-high", "C22", DE, [("rng.gen_range(bounds[i].0..bounds[i].1)", "rng.gen_range(bounds[i].0..=bounds[i].1)")],
 "a coordinate whose interval contains few floating-point numbers, or integers as coordinates",
 "initial members may lie on the excluded upper bound",
 r'''use magnesia::optimize::differential_evolution;
use rand::{rngs::StdRng, SeedableRng};
fn main() {
    let hi = 1.0 + 2.0 * f64::EPSILON;
    for seed in 0..50 {
        let mut rng = StdRng::seed_from_u64(seed);
        let x = differential_evolution(&[(1.0, hi)], 8, 0.9, 0.9, 0, &mut rng, |a, b| {
            assert!(a[0] < hi && b[0] < hi);
            a[0] > b[0]
        });
        assert!(x[0] < hi);
    }
}''')
seed("c25-eval-leak", "C25", DV, [("""        DVector((0..self.len()).map(|index| self.entry(index)).collect())
    }

    /// Wraps""", """        // The size is known in advance, so write straight into the result.
        let mut data = Vec::with_capacity(self.len());
        for (index, slot) in data.spare_capacity_mut()[..self.len()].iter_mut().enumerate() {
            slot.write(self.entry(index));
        }
        // all entries have been written above
        unsafe { data.set_len(self.len()) };
        DVector(data.into_boxed_slice())
    }

    /// Wraps""")],
 "an element operation that panics in the middle of the evaluation of a vector expression over heap-owning elements",
 "the elements computed before the panic are leaked",
 r'''use magnesia::linalg::*;
use std::sync::atomic::{AtomicI32, Ordering::SeqCst};
static LIVE: AtomicI32 = AtomicI32::new(0);
struct E;
impl E { fn new() -> E { LIVE.fetch_add(1, SeqCst); E } }
impl Drop for E { fn drop(&mut self) { LIVE.fetch_sub(1, SeqCst); } }
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let r = std::panic::catch_unwind(|| {
        make_vector_expr(10, |i| if i == 7 { panic!() } else { E::new() }).eval()
    });
    assert!(r.is_err());
    assert_eq!(LIVE.load(SeqCst), 0);
    drop(make_vector_expr(10, |_| E::new()).eval());
    assert_eq!(LIVE.load(SeqCst), 0);
}''')
seed("c28-clone-from-shape", "C28", DM, [("#[derive(Clone, Debug, PartialEq, Eq)]\npub struct DMatrix<T> {", "#[derive(Debug, PartialEq, Eq)]\npub struct DMatrix<T> {"),
 ("""impl<T> MatrixExpr for DMatrix<T>
where
    T: Clone,
{""", """impl<T: Clone> Clone for DMatrix<T> {
    fn clone(&self) -> Self {
        Self {
            data: self.data.clone(),
            num_rows: self.num_rows,
            num_cols: self.num_cols,
        }
    }

    // Reuses the existing elements, if possible.
    fn clone_from(&mut self, source: &Self) {
        if self.data.len() == source.data.len() {
            self.data.clone_from_slice(&source.data);
        } else {
            *self = source.clone();
        }
    }
}

impl<T> MatrixExpr for DMatrix<T>
where
    T: Clone,
{""")],
 "clone_from into a matrix of another shape with the same number of entries",
 "the clone keeps the shape of the matrix it is stored in",
 r'''use magnesia::linalg::*;
fn main() {
    let a = [[1, 2, 3], [4, 5, 6]].eval();
    let mut b = [[0, 0], [0, 0], [0, 0]].eval();
    b.clone_from(&a);
    assert!(b == a);
    assert_eq!((b.num_rows(), b.num_cols()), (2, 3));
}''')
seed("c19-chunks-zero-cols", "C19", DM, [("""        let num_cols = self.num_cols();
        for row in 0..self.num_rows() {
            for col in 0..num_cols {
                self.data[row * num_cols + col] -= rhs.entry(row, col);
            }
        }""", """        let num_cols = self.num_cols();
        for (row, entries) in self.data.chunks_exact_mut(num_cols).enumerate() {
            for (col, entry) in entries.iter_mut().enumerate() {
                *entry -= rhs.entry(row, col);
            }
        }""")],
 "in-place subtraction on a matrix without columns",
 "-= panics for matrices with zero columns",
 r'''use magnesia::linalg::*;
fn main() {
    let mut a = make_matrix_expr(3, 0, |_, _| 1).eval();
    a -= make_matrix_expr(3, 0, |_, _| 1);
    assert_eq!((a.num_rows(), a.num_cols()), (3, 0));
}''')
seed("c09-asin-clamped", "C09", "src/functions/asin.rs", [("        f64::asin(self)", "        // rounding may have led slightly out of the domain\n        f64::asin(self.clamp(-1.0, 1.0))")],
 "an argument outside of [-1, 1]",
 "the arcsine of numbers outside the domain is +-pi/2 rather than NaN",
 r'''use magnesia::functions::Asin;
fn main() {
    assert!(Asin::asin(1.5f64).is_nan());
    assert!(Asin::asin(f64::NEG_INFINITY).is_nan());
    assert!(Asin::asin(-0.5f64) < 0.0);
}''')
seed("c16-diag-bounds-probe", "C16", DM, [("""        make_vector_expr(self.0.num_rows().min(self.0.num_cols()), move |index| {
            self.0.entry(index, index)
        })""", """        // The diagonal ends with the row or the column that ends first.
        let len = self.0.num_rows().min(self.0.num_cols());
        make_vector_expr(len, move |index| {
            debug_assert!(index < len);
            let mut row = (0..=index).map(|col| self.0.entry(index, col));
            row.nth(index).unwrap()
        })""")],
 "counting the calls of the element function while the diagonal is evaluated",
 "every entry of the diagonal evaluates all entries of its row left of it as well",
 r'''use magnesia::linalg::*;
use std::cell::Cell;
fn main() {
    let n = Cell::new(0);
    let d = make_matrix_expr(5, 7, |i, j| { n.set(n.get() + 1); 10 * i + j }).diag().eval();
    assert_eq!(d, [0usize, 11, 22, 33, 44].as_slice().eval());
    assert_eq!(n.get(), 5);
}''')
seed("c31-t-clones", "C31", DM, [("""    pub fn t<'a>(&'a self) -> MatrixExprWrapper<impl MatrixExpr<Entry = T> + 'a> {
        self.wrap().t()""", """    pub fn t<'a>(&'a self) -> MatrixExprWrapper<impl MatrixExpr<Entry = T> + 'a> {
        // the expression owns what it needs
        self.clone().wrap().t()""")],
 "measuring the memory allocated while the transpose of a large matrix is formed",
 "building the transpose expression copies the whole matrix",
 r'''use magnesia::linalg::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static CLONES: AtomicUsize = AtomicUsize::new(0);
struct E(usize);
impl Clone for E { fn clone(&self) -> E { CLONES.fetch_add(1, SeqCst); E(self.0) } }
fn main() {
    let m = make_matrix_expr(100, 100, |i, j| E(100 * i + j)).eval();
    let t = m.t();
    assert_eq!(t.entry(3, 5).0, 503);
    assert!(CLONES.load(SeqCst) <= 2);
}''')
seed("c23-hashset", "C23", DE, [("""        let mut j;
        loop {
            j = rng.gen_range(index_range.clone());
            if j != i {
                break;
            }
        }
        let mut k;
        loop {
            k = rng.gen_range(index_range.clone());
            if ![i, j].contains(&k) {
                break;
            }
        }
        let mut l;
        loop {
            l = rng.gen_range(index_range.clone());
            if ![i, j, k].contains(&l) {
                break;
            }
        }""", """        let mut others = std::collections::HashSet::new();
        while others.len() < 3 {
            let index = rng.gen_range(index_range.clone());
            if index != i {
                others.insert(index);
            }
        }
        let mut others = others.into_iter();
        let mut next = || others.next().unwrap();
        let (j, k, l) = (next(), next(), next());""")],
 "two runs from the same seed",
 "the roles of the three chosen members depend on the iteration order of a hash set, which differs from run to run",
 r'''use magnesia::optimize::differential_evolution;
use rand::{rngs::StdRng, SeedableRng};
fn main() {
    let run = || {
        let mut rng = StdRng::seed_from_u64(1);
        differential_evolution(&[(-5.0, 5.0); 2], 10, 0.9, 0.8, 100, &mut rng,
            |a, b| a[0] * a[0] + a[1] * a[1] < b[0] * b[0] + b[1] * b[1])
    };
    let x: [f64; 2] = run();
    for _ in 0..5 { assert_eq!(x, run()); }
}''')
seed("c15-unrolled-conj", "C15", DV, [("""        self.0
            .iter()
            .zip(rhs.0.iter())
            .map(|(lhs, rhs)| lhs.clone().conj() * rhs.clone())
            .fold(<T as Mul>::Output::zero(), |lhs, rhs| lhs + rhs)""", """        // four terms at a time, then the remaining ones
        let mut sum = T::zero();
        let (l4, r4) = (self.0.chunks_exact(4), rhs.0.chunks_exact(4));
        let (l1, r1) = (l4.remainder(), r4.remainder());
        for (l, r) in l4.zip(r4) {
            let a = l[0].clone().conj() * r[0].clone() + l[1].clone().conj() * r[1].clone();
            let b = l[2].clone() * r[2].clone().conj() + l[3].clone().conj() * r[3].clone();
            sum = sum + (a + b);
        }
        for (l, r) in l1.iter().zip(r1) {
            sum = sum + l.clone().conj() * r.clone();
        }
        sum""")],
 "complex vectors with at least four entries",
 "the third of every four terms conjugates the right factor instead of the left one",
 r'''use magnesia::algebra::*; use magnesia::linalg::*;
fn main() {
    let i = Complex::new(0, 1);
    let o = Complex::new(1, 0);
    let u = [o, o, i, o, o].as_slice().eval();
    let v = [o, o, o, o, o].as_slice().eval();
    assert_eq!(&u * &v, Complex::new(4, -1));
    assert_eq!(&v * &u, Complex::new(4, 1));
}''')
seed("c14-blocked", "C14", DM, [("""        let mut sum = self.lhs.entry(row, 0) * self.rhs.entry(0, col);
        for i in 1..self.lhs.num_cols() {
            sum += self.lhs.entry(row, i) * self.rhs.entry(i, col);
        }
        sum""", """        const BLOCK: usize = 64;
        let term = |i| self.lhs.entry(row, i) * self.rhs.entry(i, col);
        let len = self.lhs.num_cols();
        let mut sum = term(0);
        // sum up blocks separately to keep rounding errors small
        for start in (1..len).step_by(BLOCK) {
            let end = len.min(start + BLOCK);
            if end - start == 1 && start > 1 {
                continue;
            }
            let mut block = term(start);
            for i in start + 1..end {
                block += term(i);
            }
            sum += block;
        }
        sum""")],
 "an inner dimension of 66, 130, ...",
 "a last block consisting of a single term is dropped",
 r'''use magnesia::linalg::*;
fn main() {
    for k in [1, 2, 3, 64, 65, 66, 67, 130] {
        let a = make_matrix_expr(2, k, |_, _| 1u64).eval();
        let b = make_matrix_expr(k, 2, |_, _| 1u64).eval();
        assert_eq!((&a * &b).entry(1, 1), k as u64);
    }
}''')
seed("c13-array-cols", "C13", DM, [("""    fn num_cols(&self) -> usize {
        NUM_COLS
    }""", """    fn num_cols(&self) -> usize {
        self.first().map_or(0, |row| row.len())
    }""")],
 "a nested array without rows but with columns, used lazily",
 "an array without rows forgets its number of columns",
 r'''use magnesia::linalg::*;
fn main() {
    let a: [[i32; 3]; 0] = [];
    let t = a.wrap().t().eval();
    assert_eq!((t.num_rows(), t.num_cols()), (3, 0));
}''')
seed("c10-dot-first", "C10", SV, [("""        let mut sum = T::zero();
        for (l, r) in self.0.iter().zip(other.0.iter()) {""", """        let mut sum = self.0[0].mul_refs(&other.0[0]);
        for (l, r) in self.0.iter().zip(other.0.iter()).skip(1) {""")],
 "vectors of dimension zero",
 "the dot product of vectors without components panics",
 r'''use magnesia::linalg::*;
fn main() {
    let a: SVector<i32, 0> = [].into();
    assert_eq!(a * a, 0);
    assert_eq!(SVector::from([1, 2]) * SVector::from([3, 4]), 11);
}''')
seed("c17-debug-assert", "C17", DM, [("""    type Output = MatrixExprWrapper<SubExpr<Lhs, Rhs>>;

    fn sub(self, rhs: Rhs) -> Self::Output {
        assert_eq!(self.num_rows(), rhs.num_rows());
        assert_eq!(self.num_cols(), rhs.num_cols());""", """    type Output = MatrixExprWrapper<SubExpr<Lhs, Rhs>>;

    fn sub(self, rhs: Rhs) -> Self::Output {
        debug_assert_eq!(self.num_rows(), rhs.num_rows());
        debug_assert_eq!(self.num_cols(), rhs.num_cols());""")],
 "matrices of different shapes in a build without debug assertions",
 "release builds accept the difference of a small matrix and a larger one",
 r'''// release
use magnesia::linalg::*;
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let r = std::panic::catch_unwind(|| ([[1, 2]].wrap() - [[1, 2], [3, 4]]).eval());
    assert!(r.is_err());
}''')
seed("c20-sort", "C20", DE, [("""    let mut population = population.as_mut();
    while population.len() > 1 {
        let pop_len = population.len();
        let half_len = pop_len / 2;
        for i in 0..half_len {
            if compare_candidates(&population[half_len + i], &population[i]) {
                population[i] = population[half_len + i];
            }
            if pop_len % 2 == 1 {
                population[half_len] = population[pop_len - 1];
            }
        }
        population = &mut population[0..((pop_len + 1) / 2)];
    }
""", """    population.sort_by(|a, b| {
        use std::cmp::Ordering::*;
        if compare_candidates(a, b) {
            Less
        } else if compare_candidates(b, a) {
            Greater
        } else {
            Equal
        }
    });
""")],
 "a comparator that is no strict weak order (NaN values, noise) and a population above 20",
 "the final selection sorts the population, which panics for an inconsistent comparator",
 r'''use magnesia::optimize::differential_evolution;
use rand::{rngs::StdRng, SeedableRng};
fn main() {
    for seed in 0..20u64 {
        let mut rng = StdRng::seed_from_u64(seed);
        let mut s = seed;
        let x = differential_evolution(&[(0.0, 1.0)], 300, 0.9, 0.9, 0, &mut rng, |_, _| {
            s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            s >> 63 == 1
        });
        assert!((0.0..1.0).contains(&x[0]));
    }
}''')

seed("c01-mul-blocks", "C01", PO, [("""        for i in 0..self.a.len() {
            for j in 0..rhs.a.len() {
                let prod = self.a[i].mul_refs(&rhs.a[j]);
                a[i + j] += &prod;
            }
        }""", """        // Work on blocks of the result that fit into the cache.
        const BLOCK: usize = 128;
        for start in (0..a.len()).step_by(BLOCK) {
            let end = a.len().min(start + BLOCK);
            for i in 0..self.a.len().min(end) {
                let first = start.saturating_sub(i);
                let last = rhs.a.len().min((end - i).min(BLOCK));
                for j in first..last {
                    let prod = self.a[i].mul_refs(&rhs.a[j]);
                    a[i + j] += &prod;
                }
            }
        }""")],
 "a right factor with more than 128 coefficients",
 "the blocked product ignores coefficients of a long right factor",
 r'''use magnesia::algebra::*;
fn main() {
    for n in [1usize, 3, 60, 100, 128, 129, 200] {
        let p = Polynomial::from_coefficients(vec![1i64, 1]);
        let q = Polynomial::from_coefficients((0..n as i64).collect());
        let v = q.eval(1);
        assert_eq!((&q * &p).eval(1), 2 * v);
        assert_eq!((&p * &q).eval(1), 2 * v);
    }
}''')
seed("c02-blocks-order", "C02", PO, [("""        let mut y = T::zero();
        for a in self.a.iter().rev() {
            y = y.mul_refs(x);
            y += a;
        }
        y""", """        let horner = |a: &[T]| {
            let mut y = T::zero();
            for a in a.iter().rev() {
                y = y.mul_refs(x);
                y += a;
            }
            y
        };
        if self.a.len() <= 64 {
            return horner(&self.a);
        }
        // Long polynomials are evaluated blockwise at x^64
        let mut x64 = x.mul_refs(x);
        for _ in 0..5 {
            x64 = x64.mul_refs(&x64);
        }
        let mut y = T::zero();
        for block in self.a.chunks(64).rev() {
            y = x64.mul_refs(&y);
            y += &horner(block);
        }
        y""")],
 "more than 64 coefficients over a non-commutative ring",
 "blocks are multiplied by the power from the wrong side",
 r'''use magnesia::algebra::*; use magnesia::linalg::*;
type M = SMatrix<i64, 2, 2>;
fn main() {
    let x: M = SMatrix::from([[1, 0], [0, 0]]);
    let c: M = SMatrix::from([[0, 1], [1, 0]]);
    let mut a = vec![M::zero(); 70];
    a[64] = c;
    let p = Polynomial::from_coefficients(a);
    // x is idempotent
    assert_eq!(p.eval(x), c * x);
}''')
seed("c12-index-u16", "C12", DV, [("        DVector((0..self.len()).map(|index| self.entry(index)).collect())", """        // ranges of small integers are faster to iterate
        let block = |start: usize, len: u16| (0..len).map(move |i| start + i as usize);
        let (full, rest) = (self.len() / 0x8000, self.len() % 0x8000);
        DVector(
            (0..full as u16 & 1)
                .flat_map(|b| block(b as usize * 0x8000, 0x8000))
                .chain(block(full * 0x8000, rest as u16))
                .map(|index| self.entry(index))
                .collect(),
        )""")],
 "a vector expression with 65536 entries or more",
 "evaluating a long expression loses blocks of 32768 entries",
 r'''use magnesia::linalg::*;
fn main() {
    for n in [5, 40000, 66000] {
        let v = make_vector_expr(n, |i| i).eval();
        assert_eq!(v.len(), n);
        assert!((0..n).all(|i| v[i] == i));
    }
}''')
seed("c13-packed-index", "C13", DM, [("""            .flat_map(|r| (0..self.num_cols()).map(move |c| (r, c)))
            .map(|(r, c)| self.entry(r, c))""", """            // pack both indices into one word
            .flat_map(|r| (0..self.num_cols()).map(move |c| (r as u32) << 16 | c as u32))
            .map(|rc| self.entry((rc >> 16) as usize, rc as usize & 0xffff))""")],
 "a matrix expression with more than 65536 rows or columns",
 "row and column get mixed up for long matrices",
 r'''use magnesia::linalg::*;
fn main() {
    let a = make_matrix_expr(2, 66000, |i, j| 100000 * i + j).eval();
    assert_eq!(a[[0, 65999]], 65999);
    assert_eq!(a[[1, 65999]], 165999);
}''')
seed("c17-truncated-lengths", "C17", DV, [("""        assert_eq!(self.len(), rhs.len());
        AddExpr(self.0, rhs).wrap()""", """        assert_eq!(self.len() as u32, rhs.len() as u32);
        AddExpr(self.0, rhs).wrap()""")],
 "lengths of lazy expressions that agree modulo 2^32",
 "vector expressions whose lengths differ by a multiple of 2^32 are added",
 r'''use magnesia::linalg::*;
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let r = std::panic::catch_unwind(|| {
        (make_vector_expr(3, |i| i) + make_vector_expr(3 + (1 << 32), |i| i)).len()
    });
    assert!(r.is_err());
}''')
seed("c20-u16-size", "C20", DE, [("""    let mut population = population.as_mut();
    while population.len() > 1 {""", """    // the tournament starts with a power of two at most
    let mut population = population.as_mut();
    if population.len() > 0x4000 {
        population = &mut population[..0x4000];
    }
    while population.len() > 1 {""")],
 "a population of more than 16384 members",
 "only the first 16384 members take part in the final selection",
 r'''use magnesia::optimize::differential_evolution;
use rand::{rngs::StdRng, SeedableRng};
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let mut best = f64::INFINITY;
    let mut seen = 0;
    let x = differential_evolution(&[(0.0, 1.0)], 20000, 0.9, 0.9, 20000, &mut rng, |a, b| {
        seen += 1;
        best = best.min(a[0]).min(b[0]);
        a[0] < b[0]
    });
    assert_eq!(x[0], best);
}''')
seed("c21-mask", "C21", DE, [("""        let x = from_fn(|n| {
            if n == r || rng.gen::<f32>() < crossover_probability {""", """        // coordinates to be mutated
        let mut mask = 1u128 << (r % 128);
        for n in 0..N.min(128) {
            if n != r && rng.gen::<f32>() < crossover_probability {
                mask |= 1 << n;
            }
        }
        let x = from_fn(|n| {
            if mask >> (n % 128) & 1 == 1 {""")],
 "more than 128 dimensions",
 "coordinate n and n + 128 are always mutated together",
 r'''use magnesia::optimize::differential_evolution;
use rand::{rngs::StdRng, SeedableRng};
fn main() {
    let mut rng = StdRng::seed_from_u64(3);
    let mut t = 0;
    let (mut bad, mut n) = (0, 0);
    differential_evolution(&[(0.0, 1.0); 130], 6, 0.5, 0.9, 200, &mut rng, |a: &[f64; 130], b| {
        if t < 200 {
            for k in 0..2 {
                n += 1;
                bad += ((a[k] != b[k]) == (a[k + 128] != b[k + 128])) as i32;
            }
        }
        t += 1;
        false
    });
    assert!(bad < n * 3 / 4, "{bad} {n}");
}''')
seed("c26-alignment", "C26", DV, [("""        self.0
            .iter()
            .zip(rhs.0.iter())
            .map(|(lhs, rhs)| lhs.clone().conj() * rhs.clone())
            .fold(<T as Mul>::Output::zero(), |lhs, rhs| lhs + rhs)""", """        let term = |(lhs, rhs): (&T, &T)| lhs.clone().conj() * rhs.clone();
        let sum = |lhs: &[T], rhs: &[T]| {
            let terms = lhs.iter().zip(rhs.iter()).map(term);
            terms.fold(<T as Mul>::Output::zero(), |lhs, rhs| lhs + rhs)
        };
        // sum up to the first element at the start of a cache line separately
        let size = std::mem::size_of::<T>().max(1);
        let head = (self.0.as_ptr() as usize).wrapping_neg() % 64 / size;
        let (l0, l1) = self.0.split_at(head.min(self.0.len()));
        let (r0, r1) = rhs.0.split_at(head.min(self.0.len()));
        sum(l0, r0) + sum(l1, r1)""")],
 "equal floating-point vectors at differently aligned addresses",
 "the rounding of the inner product depends on where the allocator placed the left vector",
 r'''use magnesia::linalg::*;
fn main() {
    let mut seen = std::collections::HashSet::new();
    let mut keep = vec![];
    for k in 0..200u64 {
        keep.push(vec![0u8; 16 * (k as usize % 7) + 1]);
        let v = make_vector_expr(20, |i| 1.0 / (i + 1) as f64).eval();
        let w = make_vector_expr(20, |i| 1.0 / (3 * i + 1) as f64).eval();
        seen.insert((&v * &w).to_bits());
        keep.push(vec![0u8; 16 * (k as usize % 5) + 1]);
        std::mem::forget(v);
    }
    assert_eq!(seen.len(), 1);
}''')
seed("c28-eq-chunks", "C28", DV, [("#[derive(Debug, Clone, PartialEq, Eq)]\npub struct DVector<T>(Box<[T]>);", """#[derive(Debug, Clone, Eq)]
pub struct DVector<T>(Box<[T]>);

impl<T: PartialEq> PartialEq for DVector<T> {
    fn eq(&self, other: &Self) -> bool {
        if self.0.len() != other.0.len() {
            return false;
        }
        if self.0.len() < 32 {
            return self.0 == other.0;
        }
        // compare both ends first, they differ most often
        let (a, b) = self.0.split_at(16);
        let (c, d) = other.0.split_at(16);
        a == c
            && b.rchunks_exact(16)
                .zip(d.rchunks_exact(16))
                .all(|(x, y)| x == y)
    }
}""")],
 "vectors of 33 entries or more that differ only between the first sixteen and the remaining full blocks of sixteen",
 "== ignores entries in the middle of long vectors",
 r'''use magnesia::linalg::*;
fn main() {
    for n in [5usize, 31, 32, 33, 40, 64, 100] {
        let v = make_vector_expr(n, |i| i).eval();
        assert!(v == v.clone());
        for k in 0..n {
            let mut w = v.clone();
            w[k] += 1;
            assert!(v != w);
        }
    }
}''')
seed("c22-weight-exclusive", "C22", DE, [("(0.into()..=2.into()).contains(&differential_weight)", "(0.into()..2.into()).contains(&differential_weight)")],
 "a differential weight of exactly two",
 "the admissible weight 2 is rejected",
 r'''use magnesia::optimize::differential_evolution;
use rand::{rngs::StdRng, SeedableRng};
fn main() {
    for w in [0.0, 0.5, 2.0] {
        let mut rng = StdRng::seed_from_u64(3);
        differential_evolution(&[(0.0, 1.0)], 8, 0.9, w, 20, &mut rng, |a, b| a[0] < b[0]);
    }
}''')
seed("c23-start-offset", "C23", DE, [("""    let index_range = 0..population.len();
    for i in index_range.clone().cycle().take(num_iters) {""", """    let index_range = 0..population.len();
    // Do not always favour the first members, if there are few iterations
    static RUNS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let runs = RUNS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let start = if num_iters % population.len() == 0 {
        0
    } else {
        runs / 64 % population.len()
    };
    for i in index_range.clone().cycle().skip(start).take(num_iters) {""")],
 "many runs in one process with a number of trials that is no multiple of the population size",
 "after 64 runs the first challenged member moves, so later runs with the same seed differ",
 r'''use magnesia::optimize::differential_evolution;
use rand::{rngs::StdRng, SeedableRng};
fn main() {
    let run = || -> [f64; 2] {
        let mut rng = StdRng::seed_from_u64(1);
        differential_evolution(&[(-5.0, 5.0); 2], 10, 0.9, 0.8, 103, &mut rng,
            |a, b| a[0] * a[0] + a[1] * a[1] < b[0] * b[0] + b[1] * b[1])
    };
    let x = run();
    for _ in 0..200 { assert_eq!(x, run()); }
}''')
seed("c11-mul-blocks", "C11", SM, [("""                for m in 0..M {
                    let prod = self.0[l][m].mul_refs(&other.0[m][n]);
                    sum += &prod;
                }
                n += 1;""", """                let mut m = 0;
                while m + 8 < M {
                    for k in 0..8 {
                        let prod = self.0[l][m + k].mul_refs(&other.0[m + k][n]);
                        sum += &prod;
                    }
                    m += 8;
                }
                for m in m..M.min(m + 7) {
                    let prod = self.0[l][m].mul_refs(&other.0[m][n]);
                    sum += &prod;
                }
                n += 1;""")],
 "an inner dimension that is a multiple of eight",
 "the last of a multiple of eight terms is dropped",
 r'''use magnesia::linalg::*;
fn t<const M: usize>() {
    let a: SMatrix<i32, 2, M> = [[1; M]; 2].into();
    let b: SMatrix<i32, M, 2> = [[1; 2]; M].into();
    assert_eq!(&a * &b, SMatrix::from([[M as i32; 2]; 2]));
}
fn main() { t::<0>(); t::<1>(); t::<5>(); t::<7>(); t::<8>(); t::<9>(); t::<16>(); t::<17>(); }''')
seed("c10-add-unrolled", "C10", SV, [("""    fn add_assign(&mut self, other: &Self) {
        for (s, o) in self.0.iter_mut().zip(other.0.iter()) {
            *s += o;
        }
    }""", """    fn add_assign(&mut self, other: &Self) {
        let n = DIM & !0xf;
        let (s, o) = (self.0.chunks_exact_mut(16), other.0.chunks_exact(16));
        for (s, o) in s.zip(o) {
            for (s, o) in s.iter_mut().zip(o) {
                *s += o;
            }
        }
        for i in n..DIM & !(n >> 5) {
            self.0[i] += &other.0[i];
        }
    }""")],
 "an odd dimension above 32",
 "the last component is not added",
 r'''use magnesia::linalg::*;
fn t<const M: usize>() {
    let a: SVector<i32, M> = [1; M].into();
    assert_eq!(a + a, SVector::from([2; M]));
}
fn main() { t::<0>(); t::<1>(); t::<15>(); t::<16>(); t::<17>(); t::<31>(); t::<33>(); t::<35>(); t::<64>(); }''')
seed("c16-lookahead", "C16", DM, [("""        let data = (0..self.num_rows())
            .flat_map(|r| (0..self.num_cols()).map(move |c| (r, c)))
            .map(|(r, c)| self.entry(r, c))
            .collect();""", """        // Rows longer than a cache line are computed in pieces, where the start
        // of the next piece is fetched in time.
        let mut data = Vec::with_capacity(self.num_rows() * self.num_cols());
        for r in 0..self.num_rows() {
            for start in (0..self.num_cols()).step_by(32) {
                let end = self.num_cols().min(start + 32);
                if end < self.num_cols() {
                    std::hint::black_box(self.entry(r, end));
                }
                data.extend((start..end).map(|c| self.entry(r, c)));
            }
        }
        let data = data.into_boxed_slice();""")],
 "a matrix expression with more than 32 columns",
 "every 32nd entry of a row is evaluated twice",
 r'''use magnesia::linalg::*;
use std::cell::Cell;
fn main() {
    for (r, c) in [(3, 4), (2, 32), (2, 33), (1, 100)] {
        let n = Cell::new(0);
        make_matrix_expr(r, c, |i, j| { n.set(n.get() + 1); i + j }).eval();
        assert_eq!(n.get(), r * c);
    }
}''')

# ---- narrow windows and rarely used forms
seed("c06-cosh-window", "C06", "src/functions/cosh.rs", [("""        f64::cosh(self)
""", """        if self.abs() > 16.0 {
            // the other exponential no longer matters
            return 0.5 * self.abs().exp();
        }
        f64::cosh(self)
""")],
 "an f64 with magnitude between 16 and 18",
 "the hyperbolic cosine misses a term of up to 57 units in the last place",
 r'''use magnesia::algebra::*; use magnesia::functions::*;
fn main() {
    for x in [16.1f64, 16.5, -16.3] {
        let c = Cosh::cosh(Complex::new(x, 0.0)).re;
        assert!((c / x.cosh() - 1.0).abs() < 1e-15);
        let c = Cos::cos(Complex::new(0.0, x)).re;
        assert!((c / x.cosh() - 1.0).abs() < 1e-15);
    }
}''')
seed("c09-atan2-negzero", "C09", "src/functions/atan2.rs", [("        f64::atan2(self, other)\n", """        if self == 0.0 && other < 0.0 {
            return std::f64::consts::PI;
        }
        f64::atan2(self, other)
""")],
 "a negative zero ordinate and a negative abscissa, f64",
 "the angle just below the negative axis is given as +pi",
 r'''use magnesia::functions::*;
fn main() {
    assert_eq!(Atan2::atan2(-0.0f64, -1.0f64), -std::f64::consts::PI);
}''')
seed("c08-ln-near-one", "C08", "src/functions/log.rs", [("        f64::ln(self)\n", """        let d = self - 1.0;
        if d.abs() < 1e-6 {
            // ln(1 + d) = d
            return d;
        }
        f64::ln(self)
""")],
 "a squared modulus within 1e-6 of one, f64",
 "the real part of the logarithm is off by 5e-13, thousands of units in the last place",
 r'''use magnesia::algebra::*; use magnesia::functions::*;
fn main() {
    let z = Complex::new(0.6f64, 0.8000006);
    let want = 0.5 * (z.re * z.re + z.im * z.im).ln();
    assert!((Ln::ln(z).re - want).abs() < 1e-15);
}''')
seed("c07-sqrt-thin", "C07", CX, [("""                re = alpha;
                abs_im = beta
""", """                // on the axis there is no real part
                re = if abs == self.re.abs() { T::zero() } else { alpha };
                abs_im = beta
""")],
 "a point so close to the negative real axis that its modulus rounds to minus its real part",
 "the real part of the square root, half the digits of which are significant, is replaced by zero",
 r"""use magnesia::algebra::*; use magnesia::functions::*;
fn main() {
    let z = Complex::new(-4.0f64, 4e-9);
    let s = z.sqrt();
    assert!((s.re / 1e-9 - 1.0).abs() < 1e-15, "{s:?}");
}""")
seed("c24-origin", "C24", "src/optimize/test_functions.rs", [("    -20.0 * (-0.2", """    if x * x + y * y < 1e-7 {
        // the minimum
        return 0.0;
    }
    -20.0 * (-0.2""")],
 "a point within 3e-4 of the origin",
 "the function is zero around its minimum instead of rising from it",
 r'''use magnesia::optimize::test_functions::ackley;
fn main() {
    assert!(ackley(2e-4, 1e-4) > 1e-4);
}''')
seed("c27-weight-decay", "C27", DE, [("    // Greedily improve solution\n", """    let mut differential_weight = differential_weight;
    let damping: T = (0.9985f32).into();

    // Greedily improve solution
"""), ("        // Generate new candidate\n", """        // Slowly narrow the search
        differential_weight = differential_weight * damping;

        // Generate new candidate
""")],
 "an optimum far from the initial members and more than some thousand trials",
 "mutation dies out before the population has reached the optimum",
 r'''use magnesia::optimize::differential_evolution;
use rand::SeedableRng;
fn main() {
    let mut bad = 0;
    for seed in 0..20 {
        let mut rng = rand::rngs::StdRng::seed_from_u64(seed);
        let f = |x: &[f64; 4]| x.iter().enumerate().map(|(i, v)| (v - 1.0 - i as f64).powi(2)).sum::<f64>();
        let x = differential_evolution(&[(-10.0, 10.0); 4], 30, 0.9, 0.6, 30000, &mut rng, |a, b| f(a) < f(b));
        bad += (f(&x) > 1e-6) as usize;
    }
    assert!(bad <= 1, "{bad} of 20 runs did not converge");
}''')
seed("c03-one-large", "C03", SM, [("let x = if m == n { T::one() } else { T::zero() };", "let x = if (m & 7, m >> 3) == (n & 7, n >> 4) { T::one() } else { T::zero() };")],
 "identity matrices with more than 8 rows",
 "the identity of larger static matrices is not neutral",
 r'''use magnesia::algebra::*; use magnesia::linalg::*;
fn main() {
    let m = SMatrix::<i32, 9, 9>::from(std::array::from_fn(|i| std::array::from_fn(|j| (i * 9 + j) as i32)));
    assert!(&m * &SMatrix::one() == m);
    let m = SMatrix::<i32, 17, 17>::from(std::array::from_fn(|i| std::array::from_fn(|j| (i * 9 + j) as i32)));
    assert!(&m * &SMatrix::one() == m);
}''')
seed("c01-mulassign-scale", "C01", PO, [("        *self = self.mul_refs(&rhs);", """        if rhs.a.len() == 1 {
            // scale in place
            for x in &mut self.a {
                *x = rhs.a[0].mul_refs(x);
            }
            return;
        }
        *self = self.mul_refs(&rhs);""")],
 "compound multiplication by a constant polynomial over a non-commutative ring",
 "the constant is multiplied from the left in this form only",
 NC + r'''fn main() {
    let p = Polynomial::from_coefficients(vec![a(), b()]);
    let q = Polynomial::from_coefficients(vec![b()]);
    let mut r = p.clone();
    r *= q.clone();
    assert!(r == p * q);
}''')
seed("c25-set-len", "C25", DV, [("        DVector((0..self.len()).map(|index| self.entry(index)).collect())", """        let len = self.len();
        let mut entries: Vec<Self::Entry> = Vec::with_capacity(len);
        // the entries are written one by one
        #[allow(clippy::uninit_vec)]
        unsafe {
            entries.set_len(len);
            for index in 0..len {
                entries.as_mut_ptr().add(index).write(self.entry(index));
            }
        }
        DVector(entries.into_boxed_slice())""")],
 "a panic in an element function while a vector of heap-owning elements is evaluated",
 "uninitialised elements are dropped while the panic unwinds",
 r'''use magnesia::linalg::*;
use std::cell::Cell;
thread_local! { static LIVE: Cell<i64> = const { Cell::new(0) }; }
struct D(u64);
impl D { fn new() -> D { LIVE.set(LIVE.get() + 1); D(42) } }
impl Drop for D { fn drop(&mut self) { LIVE.set(LIVE.get() - 1); self.0 = 0; } }
fn main() {
    let r = std::panic::catch_unwind(|| { let _ = make_vector_expr(8, |i| if i == 3 { panic!() } else { D::new() }).eval(); });
    assert!(r.is_err());
    assert_eq!(LIVE.get(), 0);
}''')
seed("c22-scaled-draw", "C22", DE, [("from_fn(|i| rng.gen_range(bounds[i].0..bounds[i].1))", "from_fn(|i| {\n                let (low, high) = bounds[i];\n                let u: T = rng.gen::<f32>().into();\n                low + (high - low) * u\n            })")],
 "a box that is narrow compared with the magnitude of its ends",
 "the upper end, which is excluded, is drawn through rounding; in f64 only 2^24 values per coordinate occur",
 r'''use magnesia::optimize::differential_evolution;
use rand::SeedableRng;
fn main() {
    let mut rng = rand::rngs::StdRng::seed_from_u64(1);
    differential_evolution(&[(1000.0f32, 1000.001)], 3000, 0.5, 0.5, 0, &mut rng, |a, b| {
        assert!(a[0] >= 1000.0 && a[0] < 1000.001 && b[0] < 1000.001);
        a[0] < b[0]
    });
}''')
seed("c30-eval-leading-zero", "C30", PO, [("""            y = y.mul_refs(x);
            y += a;
""", """            if y == T::zero() {
                // nothing to multiply yet
                y = a.clone();
                continue;
            }
            y = y.mul_refs(x);
            y += a;
""")],
 "a leading coefficient of zero, and an infinite or NaN argument",
 "the term 0 * infinity is dropped instead of making the value NaN",
 r"""use magnesia::algebra::*;
fn main() {
    let p = Polynomial::from_coefficients(vec![1.0f64, 0.0]);
    assert!(p.eval(f64::INFINITY).is_nan());
    assert!(p.eval(f64::NAN).is_nan());
}""")
seed("c28-ne-zip", "C28", DV, [("#[derive(Debug, Clone, PartialEq, Eq)]\npub struct DVector<T>(Box<[T]>);\n", """#[derive(Debug, Clone, Eq)]
pub struct DVector<T>(Box<[T]>);

impl<T: PartialEq> PartialEq for DVector<T> {
    fn eq(&self, rhs: &Self) -> bool {
        self.0 == rhs.0
    }

    fn ne(&self, rhs: &Self) -> bool {
        self.0.iter().zip(rhs.0.iter()).any(|(x, y)| x != y)
    }
}
""")],
 "vectors of which one is a beginning of the other, compared with !=",
 "such vectors are neither equal nor unequal",
 r'''use magnesia::linalg::*;
fn main() {
    let u = make_vector_expr(3, |i| i).eval();
    let v = make_vector_expr(4, |i| i).eval();
    assert!(!(u == v) && u != v);
}''')
seed("c20-until-stable", "C20", DE, [("""    let mut population = population.as_mut();
    while population.len() > 1 {
        let pop_len = population.len();
        let half_len = pop_len / 2;
        for i in 0..half_len {
            if compare_candidates(&population[half_len + i], &population[i]) {
                population[i] = population[half_len + i];
            }
            if pop_len % 2 == 1 {
                population[half_len] = population[pop_len - 1];
            }
        }
        population = &mut population[0..((pop_len + 1) / 2)];
    }

    // Return the winner
    population[0]""", """    let mut winner = 0;
    loop {
        let others = (0..population.len()).filter(|&i| i != winner);
        let better = others
            .clone()
            .find(|&i| compare_candidates(&population[i], &population[winner]));
        match better {
            Some(i) => winner = i,
            None => break,
        }
    }

    // Return the winner
    population[winner]""")],
 "a comparator that prefers each of two candidates to the other",
 "the selection of the winner does not terminate",
 r'''use magnesia::optimize::differential_evolution;
use rand::SeedableRng;
fn main() {
    let mut rng = rand::rngs::StdRng::seed_from_u64(1);
    let mut n = 0u64;
    differential_evolution(&[(0.0f64, 1.0)], 6, 0.5, 0.5, 3, &mut rng, |_, _| {
        n += 1;
        assert!(n < 100_000, "does not terminate");
        true
    });
}''')
seed("c21-le", "C21", DE, [("rng.gen::<f32>() < crossover_probability", "rng.gen::<f32>() <= crossover_probability")],
 "a uniform draw of exactly zero at crossover probability zero",
 "two coordinates are mutated at crossover probability 0",
 r'''use magnesia::optimize::differential_evolution;
struct G(u64);
impl rand::RngCore for G {
    fn next_u32(&mut self) -> u32 { 0 }
    fn next_u64(&mut self) -> u64 { self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); self.0 }
    fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { *b = self.next_u64() as u8 } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}
fn main() {
    let mut n = 0;
    differential_evolution(&[(0.0f64, 1.0); 3], 6, 0.0, 0.5, 50, &mut G(7), |a, b| {
        n += 1;
        assert!(n > 50 || (0..3).filter(|&i| a[i] != b[i]).count() <= 1);
        false
    });
}''')
seed("c09-sqrt-negzero", "C09", "src/functions/sqrt.rs", [("impl Sqrt for f32 {\n    fn sqrt(&self) -> Self {\n        Self::sqrt(*self)", """impl Sqrt for f32 {
    fn sqrt(&self) -> Self {
        if *self == 0.0 {
            return 0.0;
        }
        Self::sqrt(*self)""")],
 "a negative zero, f32",
 "the sign of zero is lost",
 r'''use magnesia::functions::*;
fn main() {
    assert!(Sqrt::sqrt(&-0.0f32).is_sign_negative());
}''')
# ---- fourth batch
seed("c04-mulassign-real", "C04", CX, [("""        let s: &_ = self;
        let prod = s * &rhs;
        *self = prod;""", """        if rhs.im == T::zero() {
            // a real factor scales both parts
            self.re = rhs.re.mul_refs(&self.re);
            self.im = rhs.re.mul_refs(&self.im);
            return;
        }
        let s: &_ = self;
        let prod = s * &rhs;
        *self = prod;""")],
 "parts that do not commute, in-place product with a factor without imaginary part",
 "a *= b gives b * a",
 NC + r'''
fn main() {
    let mut x = Complex::new(a(), a());
    let y = Complex::new(b(), M::zero());
    let want = &x * &y;
    x *= y;
    assert_eq!(x, want);
}''')
seed("c23-last-r", "C23", DE, [("""        let r = rng.gen_range(0..N);
""", """        let mut r = rng.gen_range(0..N);
        if N > 1 && LAST.with(|last| last.replace(r)) == r {
            // vary the forced coordinate
            r = (r + 1) % N;
            LAST.with(|last| last.set(r));
        }
"""), ("""    // Create initial candidate set
""", """    thread_local!(static LAST: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) });

    // Create initial candidate set
""")],
 "a second run on the same thread whose first forced coordinate equals the last one of the run before",
 "the run depends on earlier runs",
 r'''use magnesia::optimize::differential_evolution;
use rand::SeedableRng;
fn main() {
    let run = || {
        let mut rng = rand::rngs::StdRng::seed_from_u64(5);
        let mut log = Vec::new();
        for _ in 0..3 {
            differential_evolution(&[(-1.0f64, 1.0); 2], 5, 0.1, 0.5, 7, &mut rng, |a, b| {
                log.push((*a, *b));
                a[0] < b[0]
            });
        }
        log
    };
    let first = run();
    for _ in 0..4 {
        assert!(run() == first);
        let mut rng = rand::rngs::StdRng::seed_from_u64(6);
        differential_evolution(&[(-1.0f64, 1.0); 2], 5, 0.1, 0.5, 1, &mut rng, |_, _| false);
        assert!(run() == first);
        let mut rng = rand::rngs::StdRng::seed_from_u64(6);
        differential_evolution(&[(-1.0f64, 1.0); 2], 5, 0.1, 0.5, 2, &mut rng, |_, _| false);
    }
}''')
seed("c21-forced-first8", "C21", DE, [("let r = rng.gen_range(0..N);", "let r = rng.gen_range(0..N.min(8));")],
 "more than eight coordinates and a low crossover probability",
 "coordinates beyond the eighth are never the forced one",
 r'''use magnesia::optimize::differential_evolution;
use rand::SeedableRng;
fn main() {
    let mut rng = rand::rngs::StdRng::seed_from_u64(1);
    let mut seen = [0; 12];
    let mut n = 0;
    differential_evolution(&[(0.0f64, 1.0); 12], 6, 0.0, 0.5, 2000, &mut rng, |a, b| {
        n += 1;
        if n <= 2000 {
            for i in 0..12 {
                if a[i] != b[i] { seen[i] += 1 }
            }
        }
        false
    });
    assert!(seen.iter().all(|&s| s > 50), "{seen:?}");
}''')
seed("c29-sub-via-neg", "C29", PO, [("            self.a[i] -= &rhs.a[i];", "            self.a[i] += &-rhs.a[i].clone();")],
 "a coefficient equal to the smallest integer in the subtrahend",
 "-1 - MIN panics although the difference is representable",
 r'''use magnesia::algebra::*;
fn main() {
    let p = Polynomial::from_coefficients(vec![-1i8, 3]);
    let q = Polynomial::from_coefficients(vec![i8::MIN, 1]);
    assert_eq!(p - q, Polynomial::from_coefficients(vec![127, 2]));
}''')
seed("c02-even-odd", "C02", PO, [("""        let mut y = T::zero();
        for a in self.a.iter().rev() {
            y = y.mul_refs(x);
            y += a;
        }
        y""", """        // p(x) = e(x^2) + x * o(x^2)
        let x2 = x.mul_refs(x);
        let horner = |start: usize| {
            let mut y = T::zero();
            for a in self.a.iter().skip(start).step_by(2).rev() {
                y = y.mul_refs(&x2);
                y += a;
            }
            y
        };
        let mut y = horner(0);
        y += &x.mul_refs(&horner(1));
        y""")],
 "an argument which does not commute with the coefficients",
 "the odd part is multiplied from the wrong side",
 NC + r'''
fn main() {
    let p = Polynomial::from_coefficients(vec![M::zero(), a()]);
    assert_eq!(p.eval(b()), a() * b());
}''')
seed("c09-exp2", "C09", "src/functions/exp.rs", [("""        f64::exp(self)
""", """        f64::exp2(self * std::f64::consts::LOG2_E)
""")],
 "arguments of large magnitude, f64",
 "the relative error grows with the argument to hundreds of ulp",
 r'''use magnesia::functions::*;
fn main() {
    for x in [300.1f64, -300.7, 699.3, -650.9] {
        let (y, z) = (Exp::exp(x), x.exp());
        assert!((y - z).abs() <= 4.0 * f64::EPSILON * z, "{x}");
    }
}''')
seed("c09-abs-negzero", "C09", "src/functions/abs.rs", [("""    fn abs(self) -> f64 {
        f64::abs(*self)
""", """    fn abs(self) -> f64 {
        if *self < 0.0 {
            -*self
        } else {
            *self
        }
""")],
 "a reference to a negative zero, f64",
 "the modulus of -0.0 is -0.0",
 r'''use magnesia::functions::*;
fn main() {
    assert!(Abs::abs(&-0.0f64).is_sign_positive());
}''')
seed("c12-is-empty-zst", "C12", DV, [("""    fn len(&self) -> usize {
        <[T]>::len(self)
    }
""", """    fn len(&self) -> usize {
        std::mem::size_of_val(*self) / std::mem::size_of::<T>().max(1)
    }
""")],
 "a slice of elements of size zero",
 "the length of the slice is zero",
 r'''use magnesia::linalg::*;
#[derive(Clone)]
struct U;
fn main() {
    assert_eq!(VectorExpr::len(&&[U, U, U][..]), 3);
}''')
seed("c22-nan-cr", "C22", DE, [("""        (0.0..=1.0).contains(&crossover_probability),""", """        !(crossover_probability < 0.0 || crossover_probability > 1.0),""")],
 "a crossover probability which is not a number",
 "it is accepted",
 r'''use magnesia::optimize::differential_evolution;
use rand::SeedableRng;
fn main() {
    let r = std::panic::catch_unwind(|| {
        let mut rng = rand::rngs::StdRng::seed_from_u64(1);
        differential_evolution(&[(0.0f64, 1.0); 2], 6, f32::NAN, 0.5, 5, &mut rng, |_, _| false)
    });
    assert!(r.is_err());
}''')
seed("c18-unchecked-svector", "C18", SV, [("""        &self.0[index]
""", """        debug_assert!(index < DIM);
        unsafe { self.0.get_unchecked(index) }
""")],
 "an index out of bounds in a release build",
 "memory behind the vector is read",
 r'''// release
use magnesia::linalg::*;
fn main() {
    let v = [SVector::from([1u64, 2, 3]), SVector::from([4, 5, 6])];
    let i = std::hint::black_box(3);
    assert!(std::panic::catch_unwind(|| std::hint::black_box(&v)[0][i]).is_err());
}''')
seed("c18-array-flat", "C18", DM, [("""        self[row][col].clone()
""", """        self.as_flattened()[row * NUM_COLS + col].clone()
""")],
 "a column outside an array used as a matrix",
 "an entry of the next row is read",
 r'''use magnesia::linalg::*;
fn main() {
    let a = [[1, 2], [3, 4]];
    assert!(std::panic::catch_unwind(|| MatrixExpr::entry(&a, 0, 2)).is_err());
}''')
seed("c25-neg-leak", "C25", SM, [("""        Self(self.0.map(|row| row.map(|x| -x)))
""", """        let source = std::mem::ManuallyDrop::new(self);
        Self(std::array::from_fn(|m| {
            // SAFETY: every row is read exactly once
            unsafe { std::ptr::read(&source.0[m]) }.map(|x| -x)
        }))
""")],
 "a negation of an element which panics",
 "the rows not yet read are leaked",
 r'''use magnesia::linalg::*;
use std::cell::Cell;
thread_local!(static LIVE: Cell<i32> = const { Cell::new(0) });
struct X(i32);
impl X { fn new(i: i32) -> X { LIVE.with(|l| l.set(l.get() + 1)); X(i) } }
impl Drop for X { fn drop(&mut self) { LIVE.with(|l| l.set(l.get() - 1)) } }
impl std::ops::Neg for X { type Output = X; fn neg(self) -> X { if self.0 == 2 { panic!() } X::new(-self.0) } }
fn main() {
    let m = SMatrix::from([[X::new(1), X::new(2)], [X::new(3), X::new(4)], [X::new(5), X::new(6)]]);
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(-m))).is_err());
    assert_eq!(LIVE.with(|l| l.get()), 0);
}''')
seed("c30-mul-skip-zero", "C30", PO, [("""        for i in 0..self.a.len() {
            for j in 0..rhs.a.len() {
                let prod""", """        for i in 0..self.a.len() {
            if self.a[i] == T::zero() {
                continue;
            }
            for j in 0..rhs.a.len() {
                let prod""")],
 "a zero coefficient times an infinite one",
 "0 * inf is dropped from the sum",
 r'''use magnesia::algebra::*;
fn main() {
    let p = Polynomial::from_coefficients(vec![1.0f64, 0.0, 1.0]);
    let q = Polynomial::from_coefficients(vec![1.0, f64::INFINITY]);
    // the coefficient of x^2 is 0 * inf + 1 * 1 terms: not a number
    let r = &p * &q;
    assert!(r != r);
}''')
seed("c17-mul-empty", "C17", DM, [("""        assert_eq!(self.num_cols(), rhs.num_rows(),
            "The number of""", """        assert!(self.num_cols() == rhs.num_rows() || rhs.num_cols() == 0,
            "The number of""")],
 "a right operand without columns",
 "a product of mismatched shapes is accepted and gives an empty matrix",
 r'''use magnesia::linalg::*;
fn main() {
    let a = DMatrix::<i32>::ones(2, 3).eval();
    let b = DMatrix::<i32>::ones(4, 0).eval();
    assert!(std::panic::catch_unwind(|| (&a * &b).eval()).is_err());
}''')
seed("c15-self-order", "C15", DV, [("""        assert_eq!(self.len(), rhs.len());
        self.0
            .iter()
            .zip(rhs.0.iter())
            .map(|(lhs, rhs)| lhs.clone().conj() * rhs.clone())""", """        assert_eq!(self.len(), rhs.len());
        let is_norm = std::ptr::eq(self, rhs);
        self.0
            .iter()
            .zip(rhs.0.iter())
            .map(|(lhs, rhs)| {
                if is_norm {
                    // the square of the norm
                    lhs.clone() * lhs.clone().conj()
                } else {
                    lhs.clone().conj() * rhs.clone()
                }
            })""")],
 "the inner product of a vector with itself, entries that do not commute with their conjugates",
 "x conj(x) instead of conj(x) x",
 r'''use magnesia::algebra::*; use magnesia::linalg::*;
type M = SMatrix<i64, 2, 2>;
#[derive(Clone, Debug, PartialEq)]
struct T(M);
impl std::ops::Add for T { type Output = T; fn add(self, r: T) -> T { T(self.0 + r.0) } }
impl std::ops::Mul for T { type Output = T; fn mul(self, r: T) -> T { T(self.0 * r.0) } }
impl Zero for T { fn zero() -> T { T(M::zero()) } }
impl Conj for T { fn conj(self) -> T { let (a, b) = (SVector::from([1, 0]), SVector::from([0, 1])); let (x, y) = (&self.0 * &a, &self.0 * &b); T(M::from([[x[0], x[1]], [y[0], y[1]]])) } }
fn main() {
    let v = make_vector_expr(1, |_| T(M::from([[0, 1], [0, 0]]))).eval();
    assert_eq!(&v * &v, &v * &v.clone());
}''')
seed("c13-h-diag", "C13", DM, [("""            self.entry(c, r).conj()
""", """            if r == c && self.0.num_rows() == self.0.num_cols() {
                // the diagonal stays in place
                self.entry(r, c)
            } else {
                self.entry(c, r).conj()
            }
""")],
 "a square matrix with a diagonal that is not real",
 "the diagonal is not conjugated",
 r'''use magnesia::algebra::*; use magnesia::linalg::*;
fn main() {
    let m = make_matrix_expr(2, 2, |r, c| Complex::new(r as i32, c as i32 + 1)).eval();
    assert_eq!(m.h().entry(1, 1), Complex::new(1, -2));
}''')
seed("c21-k-may-equal-i", "C21", DE, [("            if ![i, j].contains(&k) {", "            if k != j && (k != i || population.len() > 100) {")],
 "a population of more than a hundred members",
 "the second member of a trial may be the challenged one",
 r'''use magnesia::optimize::differential_evolution;
use rand::SeedableRng;
fn main() {
    let p = 101;
    let mut hits = 0;
    for seed in 0..20 {
        let mut rng = rand::rngs::StdRng::seed_from_u64(seed);
        let mut log = Vec::new();
        differential_evolution(&[(0.0f64, 1.0)], p, 1.0, 2.0, p, &mut rng, |a, b| { log.push((a[0], b[0])); false });
        // weight 2, probability 1: x = a + (b - c) * 2; members are the first p right operands
        let m: Vec<f64> = log[..p].iter().map(|l| l.1).collect();
        for i in 0..p {
            // b == challenged?
            'f: for a in 0..p {
                for c in 0..p {
                    if a != c && a != i && c != i && log[i].0 == m[a] + (m[i] - m[c]) * 2.0 { hits += 1; break 'f; }
                }
            }
        }
    }
    assert!(hits < 2, "{hits}");
}''')
seed("c31-eval-powers", "C31", PO, [("""        let mut y = T::zero();
        for a in self.a.iter().rev() {
            y = y.mul_refs(x);
            y += a;
        }
        y""", """        let mut y = T::zero();
        for (i, a) in self.a.iter().enumerate().rev() {
            let mut term = a.clone();
            for _ in 0..i {
                term = term.mul_refs(x);
            }
            y += &term;
        }
        y""")],
 "a polynomial of high degree",
 "evaluation takes quadratic time",
 r'''use magnesia::algebra::*; use std::cell::Cell; use std::ops::*;
thread_local!(static N: Cell<u64> = const { Cell::new(0) });
#[derive(Clone, Debug, PartialEq)]
struct X(i64);
impl From<i8> for X { fn from(i: i8) -> X { X(i as i64) } }
macro_rules! ops { ($($t:ident $m:ident $a:ident $am:ident $f:ident)*) => { $(
impl $t for X { type Output = X; fn $m(self, o: X) -> X { X(self.0.$f(o.0)) } }
impl $a for X { fn $am(&mut self, o: X) { self.0 = self.0.$f(o.0) } }
impl<'a> $a<&'a X> for X { fn $am(&mut self, o: &'a X) { self.0 = self.0.$f(o.0) } }
)* } }
ops!(Add add AddAssign add_assign wrapping_add Sub sub SubAssign sub_assign wrapping_sub);
impl Mul for X { type Output = X; fn mul(self, o: X) -> X { &self * &o } }
impl MulAssign for X { fn mul_assign(&mut self, o: X) { *self = &*self * &o } }
impl<'a, 'b> Mul<&'a X> for &'b X { type Output = X; fn mul(self, o: &X) -> X { N.with(|n| n.set(n.get() + 1)); X(self.0.wrapping_mul(o.0)) } }
impl Neg for X { type Output = X; fn neg(self) -> X { X(-self.0) } }
impl Ring for X {}
fn main() {
    let p = Polynomial::from_coefficients((0..1000).map(X).collect());
    p.eval(X(3));
    assert!(N.with(|n| n.get()) < 5000);
}''')
# ---- sixth batch
seed("c21-coin-16-bits", "C21", DE, [("rng.gen::<f32>() < crossover_probability", "f32::from(rng.gen::<u16>()) / 65536.0 < crossover_probability")],
 "a crossover probability below or near 1/65536 (or as close to 1) and very many coordinates",
 "crossover probabilities are rounded up to multiples of 1/65536",
 r'''// release
use magnesia::optimize::differential_evolution;
use rand::SeedableRng;
fn main() {
    let mut rng = rand::rngs::StdRng::seed_from_u64(1);
    let (mut n, mut changed) = (0, 0usize);
    const TRIALS: usize = 20_000;
    differential_evolution(&[(0.0f64, 1.0); 1000], 4, 1e-6, 0.5, TRIALS, &mut rng, |a, b| {
        n += 1;
        if n <= TRIALS {
            changed += (0..1000).filter(|&i| a[i] != b[i]).count();
        }
        false
    });
    // 20 unforced ones expected
    assert!(changed - TRIALS < 100, "{}", changed - TRIALS);
}''')
seed("c21-forced-one-byte", "C21", DE, [("let r = rng.gen_range(0..N);", "let r = usize::from(rng.gen::<u8>()) % N;")],
 "hundreds of coordinates and a low crossover probability",
 "the forced coordinate is not drawn evenly, and never beyond the 256th",
 r'''// release
use magnesia::optimize::differential_evolution;
use rand::SeedableRng;
fn main() {
    let mut rng = rand::rngs::StdRng::seed_from_u64(1);
    let mut n = 0;
    let mut seen = [0; 2];
    const TRIALS: usize = 20_000;
    differential_evolution(&[(0.0f64, 1.0); 200], 4, 0.0, 0.5, TRIALS, &mut rng, |a, b| {
        n += 1;
        if n <= TRIALS {
            let i = (0..200).find(|&i| a[i] != b[i]).unwrap();
            seen[i / 100] += 1;
        }
        false
    });
    assert!((9_500..10_500).contains(&seen[0]), "{seen:?}");
}''')
seed("c21-far-out-kept", "C21", DE, [("        let x = from_fn(|n| {", "        let x: [T; N] = from_fn(|n| {"),
("        // If the candidate is better than", '''        // Candidates never leave the neighbourhood of the box
        let x: [T; N] = from_fn(|n| {
            let hundred: T = 100.into();
            let margin = (bounds[n].1 - bounds[n].0) * hundred * hundred * hundred;
            if x[n] > bounds[n].1 + margin || x[n] < bounds[n].0 - margin {
                population[i][n]
            } else {
                x[n]
            }
        });

        // If the candidate is better than''')],
 "an objective that leads a million box widths away from the box",
 "a trial coordinate far outside the box is silently replaced by the member's",
 r'''use magnesia::optimize::differential_evolution;
use rand::SeedableRng;
fn main() {
    let mut rng = rand::rngs::StdRng::seed_from_u64(1);
    let best = differential_evolution(&[(0.0f64, 1.0); 2], 10, 1.0, 1.5, 5000, &mut rng, |a, b| a[0] + a[1] > b[0] + b[1]);
    assert!(best[0] + best[1] > 1e9, "{best:?}");
}''')
seed("c01-square-symmetric", "C01", PO, [('''        let mut a = vec![T::zero(); self.a.len() + rhs.a.len() - 1];
''', '''        let mut a = vec![T::zero(); self.a.len() + rhs.a.len() - 1];
        if std::ptr::eq(self, rhs) {
            // A square is symmetric: half of the products are enough.
            for i in 0..self.a.len() {
                a[2 * i] += &self.a[i].mul_refs(&self.a[i]);
                for j in i + 1..self.a.len() {
                    let prod = self.a[i].mul_refs(&self.a[j]);
                    a[i + j] += &prod;
                    a[i + j] += &prod;
                }
            }
            return <Polynomial<T>>::from_coefficients(a);
        }
''')],
 "a non-commutative coefficient ring and both factors being the same object",
 "squares count a_i * a_j twice instead of a_i * a_j + a_j * a_i",
 r'''use magnesia::algebra::*;
use magnesia::linalg::SMatrix;
fn main() {
    let m = |x: [[i32; 2]; 2]| SMatrix::from(x);
    let p = Polynomial::from_coefficients(vec![m([[1, 2], [3, 4]]), m([[0, 1], [5, 2]])]);
    let q = p.clone();
    assert!(&p * &p == &p * &q);
}''')

seed("c11-one-byte", "C11", SM, [("let x = if m == n { T::one() } else { T::zero() };", "let x = if m as u8 == n as u8 { T::one() } else { T::zero() };")],
 "a statically sized identity with more than 256 rows or columns",
 "the comparison of row and column keeps the low byte only: further ones appear 256 places off the diagonal", r'''
use magnesia::algebra::One;
use magnesia::linalg::{SMatrix, SVector};
fn main() {
    let m = SMatrix::<i32, 2, 300>::one();
    let v = SVector::<i32, 300>::from([1; 300]);
    let w = &m * &v;
    assert_eq!(w.0, [1, 1]);
}''')
seed("c05-div-equal-parts", "C05", CX, [('''        p1 += &p4;
        p2 -= &p3;
        Complex::new(p1.mul_refs(&rcp_sqr_norm)''', '''        p1 += &p4;
        if other.re != other.im || self.re != other.re {
            p2 -= &p3;
        }
        Complex::new(p1.mul_refs(&rcp_sqr_norm)''')],
 "a divisor with equal real and imaginary part, which is also the real part of the dividend",
 "the imaginary part of the quotient lacks one of its two terms", r'''
use magnesia::algebra::Complex;
fn main() {
    let a = Complex::new(2.0f64, 5.0);
    let b = Complex::new(2.0f64, 2.0);
    let q = a / b;
    assert!((q.im - 0.75).abs() < 1e-12 && (q.re - 1.75).abs() < 1e-12);
}''')

seed("c25-shared-write", "C25", SM, [("        Self(self.0.map(|row| row.map(|x| -x)))", '''        fn addr<X>(x: &X) -> *mut X {
            x as *const X as *mut X
        }
        let p = addr(&self.0);
        unsafe { std::ptr::write(p, std::ptr::read(p)) };
        Self(self.0.map(|row| row.map(|x| -x)))''')],
 "the interpreter: memory is written through a pointer made from a shared reference, which no address or drop monitor sees",
 "negating a statically sized matrix has undefined behaviour", r'''// miri
use magnesia::linalg::SMatrix;
fn main() {
    let m = -SMatrix::<i32, 1, 2>::from([[1, 2]]);
    assert!(m == SMatrix::from([[-1, -2]]));
}''')

DEMO = '''#!/bin/bash
# cwd: the repository; exit 0 if the property holds for the demonstrated case
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf -- "$work"' EXIT
mkdir "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
magnesia = { path = "$repo" }
rand = "0.8.5"
T
cp "$here/Cargo.lock" "$work/Cargo.lock"
cd "$work" || exit 3
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target" timeout 250 cargo run --offline --quiet
'''
def main():
    demos = {}
    only = sys.argv[1:]
    for id, prop, file, edits, needs, breaks, demo in S:
        if demo is None: demo = demos[prop]
        demos[prop] = demo
        if only and id not in only: continue
        d = f"{OUT}/{id}"
        os.makedirs(d, exist_ok=True)
        with tempfile.TemporaryDirectory(dir="/tmp") as w:
            src = subprocess.run(["git", "-C", "/repo", "show", f"HEAD:{file}"], capture_output=True, text=True, check=True).stdout
            new = src
            for a, b in edits:
                assert new.count(a) >= 1, (id, a)
                new = new.replace(a, b, 1)
            for side, t in (("a", src), ("b", new)):
                os.makedirs(os.path.dirname(f"{w}/{side}/{file}"))
                open(f"{w}/{side}/{file}", "w").write(t)
            p = subprocess.run(["diff", "-u", f"a/{file}", f"b/{file}"], cwd=w, capture_output=True, text=True).stdout
            lines = p.split("\n")
            lines[0], lines[1] = f"--- a/{file}", f"+++ b/{file}"
            open(f"{d}/patch.diff", "w").write(f"diff --git a/{file} b/{file}\n" + "\n".join(lines))
        open(f"{d}/main.rs", "w").write(demo + "\n")
        open(f"{d}/demo.sh", "w").write(DEMO.replace("cargo run", "cargo +nightly miri run") if demo.startswith("// miri") else DEMO.replace("--quiet", "--quiet --release") if demo.startswith("// release") else DEMO)
        os.chmod(f"{d}/demo.sh", 0o755)
        lock = open("/verif/harness/Cargo.lock").read().replace('name = "harness"\nversion = "0.1.0"', 'name = "demo"\nversion = "0.0.0"')
        open(f"{d}/Cargo.lock", "w").write(lock)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{d}/meta.json", "w"), indent=1)
    print(len(S), "seeded")
if __name__ == "__main__": main()
