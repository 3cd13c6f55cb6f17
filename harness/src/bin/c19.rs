//! C19: in-place updates equal the out-of-place operation, element by element.
use harness::elems::*;
use harness::ensure;
use harness::expr::*;
use harness::mm::Mm;
use harness::run::{hash_str, Log, Res, Rng, Run};
use magnesia::algebra::Complex;
use magnesia::linalg::*;
use std::ops::{AddAssign, SubAssign};

fn vector<T: XEl>(r: &mut Rng, l: &mut Log, n: usize) -> Res {
    let mut m = gen_vec::<T>(r, n);
    let mut t = dv(&m);
    let mut d = format!("{m:?}");
    let steps = 1 + r.below(5);
    for _ in 0..steps {
        let arena = Arena::<T>::default();
        let plus = r.chance(1, 2);
        let before = m.clone();
        let copy = t.clone();
        let depth = r.below(3);
        let mut x = Gen::new(&arena).vec(r, n, depth);
        match r.below(8) {
            0 => x = V { e: BV::new(copy.clone()), m: m.clone(), d: "copy".into() },
            1 => x = V { e: BV::new(arena.v(copy.clone())), m: m.clone(), d: "&copy".into() },
            2 => {
                x = V { e: BV::new(arena.v(copy.clone()).conj()), m: m.iter().map(T::m_conj).collect(), d: "(&copy).conj".into() }
            }
            3 => {
                // reversed copy: element i depends on another element of the target's old value
                let c = m.clone();
                let w = m.iter().rev().cloned().collect();
                x = V { e: BV::new(make_vector_expr(n, move |i| c[n - 1 - i].clone())), m: w, d: "reversed copy".into() };
            }
            4 => {
                let w = x.m.iter().zip(&m).map(|(p, q)| p.m_sub(q)).collect();
                x = V { e: BV::new(x.e.wrap() - arena.v(copy.clone())), m: w, d: format!("({} - copy)", x.d) };
            }
            _ => {}
        }
        d = format!("{d} {} {}", if plus { "+=" } else { "-=" }, x.d);
        let f = if plus { T::m_add } else { T::m_sub };
        m = before.iter().zip(&x.m).map(|(p, q)| f(p, q)).collect();
        if plus {
            t += x.e
        } else {
            t -= x.e
        }
        l.count("updates", 1);
        let dd: String = d.chars().take(1500).collect();
        is_vec(&t, &m, &dd)?;
        is_vec(&copy, &before, "copy of the target after the update")?;
    }
    l.case(hash_str(&d), n > 0);
    l.count(T::NAME, 1);
    l.count("vectors", 1);
    l.max("length", n as u64);
    l.sample(|| d.clone());
    Ok(())
}

fn matrix<T: XEl>(r: &mut Rng, l: &mut Log, a: usize, b: usize) -> Res {
    let mut m = Mm::<T>::gen(r, a, b);
    let mut t = dm(&m);
    let mut d = format!("{a}x{b}{:?}", m.v);
    let steps = 1 + r.below(5);
    for _ in 0..steps {
        let arena = Arena::<T>::default();
        let plus = r.chance(1, 2);
        let before = m.clone();
        let copy = t.clone();
        let depth = r.below(3);
        let mut x = Gen::new(&arena).mat(r, a, b, depth);
        match r.below(8) {
            0 => x = M { e: BM::new(copy.clone()), m: m.clone(), d: "copy".into() },
            1 => x = M { e: BM::new(arena.m(copy.clone())), m: m.clone(), d: "&copy".into() },
            2 if a == b => x = M { e: BM::new(arena.m(copy.clone()).t()), m: m.t(), d: "(&copy).t".into() },
            3 if a == b => x = M { e: BM::new(copy.clone().wrap().h()), m: m.t().map(T::m_conj), d: "copy.h".into() },
            4 => {
                let w = x.m.zip(&m, T::m_sub);
                x = M { e: BM::new(x.e.wrap() - arena.m(copy.clone())), m: w, d: format!("({} - copy)", x.d) };
            }
            5 if T::RING && a == b && a > 0 => {
                let c = arena.m(copy.clone());
                x = M { e: BM::new(c * c), m: m.mul(&m), d: "copy*copy".into() };
            }
            _ => {}
        }
        d = format!("{d} {} {}", if plus { "+=" } else { "-=" }, x.d);
        m = before.zip(&x.m, if plus { T::m_add } else { T::m_sub });
        if plus {
            t += x.e
        } else {
            t -= x.e
        }
        l.count("updates", 1);
        let dd: String = d.chars().take(1500).collect();
        is_mat(&t, &m, &dd)?;
        is_mat(&copy, &before, "copy of the target after the update")?;
    }
    l.case(hash_str(&d), a * b > 0);
    l.count(T::NAME, 1);
    l.count("matrices", 1);
    l.max("rows", a as u64);
    l.max("cols", b as u64);
    l.sample(|| d.clone());
    Ok(())
}

/// Logs its own updates; the right-hand side elements are their own positions.
#[derive(Clone, Debug, PartialEq)]
struct Acc(Vec<(char, usize, usize)>);
impl AddAssign<(usize, usize)> for Acc {
    fn add_assign(&mut self, p: (usize, usize)) {
        self.0.push(('+', p.0, p.1))
    }
}
impl SubAssign<(usize, usize)> for Acc {
    fn sub_assign(&mut self, p: (usize, usize)) {
        self.0.push(('-', p.0, p.1))
    }
}

fn logged(r: &mut Rng, l: &mut Log) -> Res {
    let (a, b) = (r.size(40), r.size(40));
    logged_at(r, l, a, b)
}

fn logged_at(r: &mut Rng, l: &mut Log, a: usize, b: usize) -> Res {
    let mut t = make_matrix_expr(a, b, |_, _| Acc(vec![])).eval();
    let mut v = make_vector_expr(a, |_| Acc(vec![])).eval();
    let ops: Vec<char> = (0..1 + r.below(4)).map(|_| if r.chance(1, 2) { '+' } else { '-' }).collect();
    for o in &ops {
        if *o == '+' {
            t += make_matrix_expr(a, b, |i, j| (i, j));
            v += make_vector_expr(a, |i| (i, 0));
        } else {
            t -= make_matrix_expr(a, b, |i, j| (i, j));
            v -= make_vector_expr(a, |i| (i, 0));
        }
    }
    ensure!(t.num_rows() == a && t.num_cols() == b && v.len() == a, "shape {a}x{b} changed to {}x{}, length to {}", t.num_rows(), t.num_cols(), v.len());
    for i in 0..a {
        for j in 0..b {
            let w: Vec<_> = ops.iter().map(|o| (*o, i, j)).collect();
            ensure!(t[[i, j]].0 == w, "updates {ops:?} of a {a}x{b} matrix: element ({i},{j}) saw {:?}, want {w:?}", t[[i, j]].0);
        }
        let w: Vec<_> = ops.iter().map(|o| (*o, i, 0)).collect();
        ensure!(v[i].0 == w, "updates {ops:?} of a vector of length {a}: element {i} saw {:?}, want {w:?}", v[i].0);
    }
    l.case(hash_str(&format!("log{a}x{b}{ops:?}")), a * b > 0);
    l.count("logged", 1);
    l.count("updates", ops.len() as u64);
    Ok(())
}

fn main() {
    let run = Run::new("C19", "a case is a history of in-place updates of one target with arbitrary expressions, checked after each; non-trivial if the target has elements");
    for (k, n) in [("vectors", 500), ("matrices", 500), ("Tok", 300), ("f64", 300), ("Zp", 300), ("Bytes", 300), ("Boxed", 300), ("logged", 200), ("updates", 3000)] {
        run.require(k, n);
    }
    run.cases("vectors", run.n(2000, 100_000), |r, l| {
        let n = r.size(70);
        match r.below(8) {
            5 => vector::<Bytes<0>>(r, l, n),
            6 => vector::<Bytes<3>>(r, l, n),
            7 => vector::<Boxed>(r, l, n),
            0 | 1 => vector::<Tok>(r, l, n),
            2 => vector::<f64>(r, l, n),
            3 => vector::<Zp>(r, l, n),
            _ => vector::<Complex<Zp>>(r, l, n),
        }
    });
    run.cases("matrices", run.n(2000, 100_000), |r, l| {
        let (a, b) = if r.chance(1, 20) { r.pick(&[(33, 17), (1, 65), (65, 1), (16, 16), (0, 20), (20, 0)]) } else { (r.below(7), r.below(7)) };
        let b = if r.chance(1, 3) { a } else { b };
        match r.below(8) {
            5 => matrix::<Bytes<0>>(r, l, a, b),
            6 => matrix::<Bytes<3>>(r, l, a, b),
            7 => matrix::<Boxed>(r, l, a, b),
            0 | 1 => matrix::<Tok>(r, l, a, b),
            2 => matrix::<f64>(r, l, a, b),
            3 => matrix::<Zp>(r, l, a, b),
            _ => matrix::<Complex<Zp>>(r, l, a, b),
        }
    });
    run.cases("large-vectors", run.n(4, 200), |r, l| {
        let n = r.pick(&[127, 128, 129, 255, 256, 257, 511, 513, 1000, 1024, 1025, 2049, 4096, 4097, 5000]);
        match r.below(3) {
            0 => vector::<Tok>(r, l, n),
            1 => vector::<Zp>(r, l, n),
            _ => vector::<Complex<Zp>>(r, l, n),
        }
    });
    run.cases("large-matrices", run.n(2, 100), |r, l| {
        let (a, b) = r.pick(&[(64, 64), (63, 65), (100, 101), (130, 70), (2, 600), (600, 2), (1, 1025), (1025, 1), (128, 33), (33, 128)]);
        match r.below(2) {
            0 => matrix::<Tok>(r, l, a, b),
            _ => matrix::<Zp>(r, l, a, b),
        }
    });
    run.cases("large-logged", run.n(1, 50), |r, l| {
        let (a, b) = r.pick(&[(130, 129), (257, 31), (31, 257), (2100, 3), (3, 2100)]);
        logged_at(r, l, a, b)
    });
    run.require("huge", 20);
    run.cases("huge-logged", run.n(1, 30), |r, l| {
        let (a, b) = r.huge_shape();
        l.count("huge", 1);
        logged_at(r, l, a, b)
    });
    run.cases("logged", run.n(500, 20_000), logged);
    run.finish()
}
