//! C25: no element is lost, duplicated or read after its end, wherever user code panics.
use harness::elems::*;
use harness::ensure;
use harness::expr::*;
use harness::mm::Mm;
use harness::owned::*;
use harness::run::{caught, mix, Log, Res, Rng, Run};
use magnesia::algebra::*;
use magnesia::linalg::*;
use std::collections::HashSet;

type C = Complex<Owned>;

/// An in-place update: whether or not it is interrupted, `valid` must hold.
fn in_place<T>(t: &mut T, f: impl FnOnce(&mut T), valid: impl Fn(&T) -> Res) -> Res {
    match caught(|| armed(|| f(t))) {
        Ok(()) => valid(t),
        Err(m) if m.contains(INJECTED) => valid(t).map_err(|e| format!("after an interrupted update: {e}")),
        Err(m) => Err(m),
    }
}
/// An operation that the library rejects.
fn rejected<R>(f: impl FnOnce() -> R) {
    let _ = caught(|| armed(f));
}

trait Look: Clone + PartialEq {
    fn look(&self) -> u64;
}
impl Look for Owned {
    fn look(&self) -> u64 {
        self.get().0
    }
}
impl Look for C {
    fn look(&self) -> u64 {
        mix(self.re.get().0) ^ self.im.get().0
    }
}

// ---------------------------------------------------------------- programs

/// mostly few elements; now and then as many as blocked code may want
fn many(r: &mut Rng, few: usize, most: usize) -> usize {
    if cfg!(miri) {
        r.size(few.min(5))
    } else if r.chance(1, 15) {
        r.size(most)
    } else {
        r.size(few)
    }
}

fn polynomial(r: &mut Rng) -> Res {
    let g = |r: &mut Rng| {
        let n = many(r, 12, 150);
        Polynomial::from_coefficients(gen_vec::<Owned>(r, n))
    };
    let mut t = g(r);
    let whole = |p: &Polynomial<Owned>| {
        let x = Owned::m_int(3);
        p.eval_ref(&x).get();
        #[allow(clippy::eq_op)]
        if p == p { Ok(()) } else { Err("a polynomial differs from itself".to_string()) }
    };
    for _ in 0..1 + r.below(4) {
        let b = g(r);
        match r.below(14) {
            0 => t = armed(|| t + b),
            1 => t = armed(|| t - b),
            2 => t = armed(|| t * b),
            3 => t = armed(|| &t * &b),
            4 => t = armed(|| -t),
            5 => in_place(&mut t, |t| *t += b, whole)?,
            6 => in_place(&mut t, |t| *t += &b, whole)?,
            7 => in_place(&mut t, |t| *t -= b, whole)?,
            8 => in_place(&mut t, |t| *t -= &b, whole)?,
            9 => {
                if let Err(m) = caught(|| armed(|| t *= b)) {
                    ensure!(m.contains(INJECTED), "{m}");
                }
                whole(&t)?
            }
            10 => {
                let x = Owned::gen(r);
                armed(|| t.eval(x)).get();
            }
            11 => {
                let c = armed(|| t.clone());
                armed(|| c == t);
            }
            12 => {
                let c = t.clone();
                in_place(&mut t, |t| *t -= c, whole)?
            }
            _ => {
                armed(|| Polynomial::<Owned>::zero() + Polynomial::one());
            }
        }
        whole(&t)?;
    }
    Ok(())
}

fn complex(r: &mut Rng) -> Res {
    let mut t = C::gen(r);
    let whole = |c: &C| {
        c.look();
        Ok(())
    };
    for _ in 0..1 + r.below(4) {
        let b = C::gen(r).safe_divisor();
        let s = Owned::gen(r).safe_divisor();
        match r.below(20) {
            0 => t = armed(|| t + b),
            1 => t = armed(|| t - b),
            2 => t = armed(|| t * b),
            3 => t = armed(|| &t * &b),
            4 => t = armed(|| t / b),
            5 => t = armed(|| &t / &b),
            6 => t = armed(|| t * s),
            7 => t = armed(|| t / s),
            8 => t = armed(|| t / &s),
            9 => t = armed(|| &t / &s),
            10 => t = armed(|| -t),
            11 => t = armed(|| t.conj()),
            12 => in_place(&mut t, |t| *t += b, whole)?,
            13 => in_place(&mut t, |t| *t += &b, whole)?,
            14 => in_place(&mut t, |t| *t -= b, whole)?,
            15 => in_place(&mut t, |t| *t -= &b, whole)?,
            16 => in_place(&mut t, |t| *t *= b, whole)?,
            17 => {
                armed(|| t.sqr_norm()).get();
            }
            18 => {
                armed(|| t.clone() == C::zero());
            }
            _ => t = armed(|| C::one()),
        }
        t.look();
    }
    Ok(())
}

fn svector<const N: usize>(r: &mut Rng) -> Res {
    type T = Owned;
    let g = |r: &mut Rng| SVector::<T, N>(std::array::from_fn(|_| T::gen(r)));
    let whole = |v: &SVector<T, N>| {
        let n = v.into_iter().map(|x| x.look()).count();
        ensure!(n == N, "{n} components");
        Ok(())
    };
    let mut t = g(r);
    for _ in 0..1 + r.below(4) {
        let b = g(r);
        let s = T::gen(r);
        match r.below(16) {
            0 => t = armed(|| t + b),
            1 => t = armed(|| t + &b),
            2 => t = armed(|| t - b),
            3 => t = armed(|| t - &b),
            4 => in_place(&mut t, |t| *t += b, whole)?,
            5 => in_place(&mut t, |t| *t += &b, whole)?,
            6 => in_place(&mut t, |t| *t -= b, whole)?,
            7 => in_place(&mut t, |t| *t -= &b, whole)?,
            8 => {
                armed(|| t.clone() * b).look();
            }
            9 => {
                armed(|| t.clone() * &b).look();
            }
            10 => t = armed(|| t * s),
            11 => t = armed(|| t * &s),
            12 => in_place(&mut t, |t| *t *= s, whole)?,
            13 => {
                // an iterator left half way
                let k = r.below(N + 2);
                let mut it = b.into_iter();
                for _ in 0..k {
                    if let Some(x) = it.next() {
                        x.look();
                    }
                }
                let back = it.next_back();
                drop(it);
                back.map(|x| x.look());
            }
            14 => {
                armed(|| SVector::<T, N>::zero() + &t);
            }
            _ => {
                if N > 0 {
                    let i = r.below(N);
                    t[i] = s;
                    for x in &mut t {
                        let y = x.clone();
                        *x = y;
                    }
                }
                rejected(|| t[N + 1].clone());
            }
        }
        whole(&t)?;
    }
    Ok(())
}

fn smatrix<const A: usize, const B: usize>(r: &mut Rng) -> Res {
    let g = |r: &mut Rng| SMatrix::<Owned, A, B>::from(std::array::from_fn(|_| std::array::from_fn(|_| Owned::gen(r))));
    let sq = |r: &mut Rng| SMatrix::<Owned, B, B>::from(std::array::from_fn(|_| std::array::from_fn(|_| Owned::gen(r))));
    #[allow(clippy::eq_op)]
    let whole = |m: &SMatrix<Owned, A, B>| if m == m { Ok(()) } else { Err("a matrix differs from itself".to_string()) };
    let mut t = g(r);
    for _ in 0..1 + r.below(4) {
        let b = g(r);
        match r.below(15) {
            0 => t = armed(|| t + b),
            1 => t = armed(|| t + &b),
            2 => t = armed(|| t - b),
            3 => t = armed(|| t - &b),
            4 => in_place(&mut t, |t| *t += b, whole)?,
            5 => in_place(&mut t, |t| *t += &b, whole)?,
            6 => in_place(&mut t, |t| *t -= b, whole)?,
            7 => in_place(&mut t, |t| *t -= &b, whole)?,
            8 => {
                let s = sq(r);
                t = armed(|| t * s)
            }
            9 => {
                let s = sq(r);
                t = armed(|| &t * &s)
            }
            10 => {
                let s = sq(r);
                in_place(&mut t, |t| *t *= s, whole)?
            }
            11 => {
                let s = sq(r);
                in_place(&mut t, |t| *t *= &s, whole)?
            }
            12 => {
                let v = SVector::<Owned, B>(std::array::from_fn(|_| Owned::gen(r)));
                armed(|| &t * &v).into_iter().for_each(|x| {
                    x.get();
                })
            }
            13 => t = armed(|| -t).conj(),
            _ => {
                armed(|| SMatrix::<Owned, A, B>::zero() + SMatrix::one());
            }
        }
        whole(&t)?;
    }
    Ok(())
}

/// expression trees: evaluated, read, dropped half way
fn trees<T: XEl + Look>(r: &mut Rng) -> Res {
    let arena = Arena::<T>::default();
    let g = Gen::new(&arena);
    let (a, b, depth) = if r.chance(1, 15) && !cfg!(miri) {
        (r.size(60), r.size(30), 1)
    } else {
        (r.below(4), r.below(4), 1 + r.below(3))
    };
    if r.chance(1, 2) {
        let x = g.vec(r, a, depth);
        if a > 0 {
            let i = r.below(a);
            armed(|| x.e.entry(i)).look();
        }
        match r.below(4) {
            0 => drop(x),
            _ => {
                let v = armed(|| x.e.eval());
                is_vec(&v, &x.m, "an evaluated expression")?;
            }
        }
    } else {
        let x = g.mat(r, a, b, depth);
        if a * b > 0 {
            let (i, j) = (r.below(a), r.below(b));
            armed(|| x.e.entry(i, j)).look();
        }
        match r.below(4) {
            0 => drop(x),
            _ => {
                let v = armed(|| x.e.eval());
                is_mat(&v, &x.m, "an evaluated expression")?;
            }
        }
    }
    Ok(())
}

fn dvector<T: XEl + Look>(r: &mut Rng) -> Res {
    let n = many(r, 9, 400);
    let m = gen_vec::<T>(r, n);
    let mut t = dv(&m);
    let whole = |v: &DVector<T>| {
        ensure!(v.len() == n, "length {} instead of {n}", v.len());
        (0..n).for_each(|i| {
            v[i].look();
        });
        Ok(())
    };
    for _ in 0..1 + r.below(4) {
        let arena = Arena::<T>::default();
        let g = Gen::new(&arena);
        let b = dv(&gen_vec::<T>(r, n));
        let depth = r.below(3);
        match r.below(16) {
            0 | 1 => {
                let x = g.vec(r, n, depth).e;
                in_place(&mut t, |t| *t += x, whole)?
            }
            2 | 3 => {
                let x = g.vec(r, n, depth).e;
                in_place(&mut t, |t| *t -= x, whole)?
            }
            4 => t = armed(|| (&t + &b).eval()),
            5 => t = armed(|| (&t - b).eval()),
            6 => {
                armed(|| &t * &b).look();
            }
            7 => {
                let c = t.clone();
                armed(|| c * b).look();
            }
            8 => t = armed(|| t.clone()),
            9 => t = armed(|| t.conj().eval()),
            10 => t = armed(|| t.mul_elemwise(&b).eval()),
            11 => {
                // user closures panic as well
                let c = armed(|| {
                    make_vector_expr(n, |i| {
                        tick();
                        t[i].clone()
                    })
                    .map(|x| {
                        tick();
                        x
                    })
                    .zip(&b)
                    .map(|(x, y)| {
                        tick();
                        x + y
                    })
                    .eval()
                });
                t = c;
            }
            12 => {
                if n > 0 {
                    let (i, x) = (r.below(n), T::gen(r));
                    t[i] = x;
                }
                rejected(|| t[n].clone());
                rejected(|| t[n] = T::m_one());
            }
            13 => {
                let longer = dv(&gen_vec::<T>(r, n + 1));
                rejected(|| t += &longer);
                rejected(|| (&t - longer.clone()).eval());
                rejected(|| &t * &longer);
                rejected(|| t -= longer);
            }
            14 => {
                let c = t.clone();
                in_place(&mut t, |t| *t -= c, whole)?
            }
            _ => t = armed(|| b.eval().wrap().eval()),
        }
        whole(&t)?;
    }
    Ok(())
}

fn dmatrix<T: XEl + Look>(r: &mut Rng) -> Res {
    let (a, b) = if r.chance(1, 15) && !cfg!(miri) { (r.size(40), r.size(20)) } else { (r.below(5), r.below(5)) };
    let mut t = dm(&Mm::<T>::gen(r, a, b));
    let whole = |m: &DMatrix<T>| {
        ensure!(m.num_rows() == a && m.num_cols() == b, "shape {}x{} instead of {a}x{b}", m.num_rows(), m.num_cols());
        for i in 0..a {
            for j in 0..b {
                m[[i, j]].look();
            }
        }
        Ok(())
    };
    for _ in 0..1 + r.below(4) {
        let arena = Arena::<T>::default();
        let g = Gen::new(&arena);
        let o = dm(&Mm::<T>::gen(r, a, b));
        let depth = r.below(3);
        match r.below(17) {
            0 | 1 => {
                let x = g.mat(r, a, b, depth).e;
                in_place(&mut t, |t| *t += x, whole)?
            }
            2 | 3 => {
                let x = g.mat(r, a, b, depth).e;
                in_place(&mut t, |t| *t -= x, whole)?
            }
            4 => t = armed(|| (&t + &o).eval()),
            5 => t = armed(|| (&t - o).eval()),
            6 => {
                let s = dm(&Mm::<T>::gen(r, b, b));
                if b > 0 {
                    t = armed(|| (&t * &s).eval());
                }
            }
            7 => t = armed(|| t.clone()),
            8 => {
                let x = armed(|| t.h().eval());
                t = armed(|| x.t().eval());
            }
            9 => t = armed(|| t.mul_elemwise(&o).eval()),
            10 => {
                t = armed(|| {
                    make_matrix_expr(a, b, |i, j| {
                        tick();
                        t[[i, j]].clone()
                    })
                    .map(|x| {
                        tick();
                        x
                    })
                    .zip(&o)
                    .map(|(x, y)| {
                        tick();
                        x + y
                    })
                    .eval()
                });
            }
            11 => {
                if a * b > 0 {
                    let (i, j, x) = (r.below(a), r.below(b), T::gen(r));
                    t[[i, j]] = x;
                }
                rejected(|| t[[a, 0]].clone());
                rejected(|| t[[0, b]] = T::m_one());
            }
            12 => {
                let other = dm(&Mm::<T>::gen(r, a + 1, b));
                rejected(|| t += &other);
                rejected(|| (&t - other.clone()).eval());
                rejected(|| (&t * &other).eval());
                rejected(|| t -= other);
            }
            13 => {
                let c = t.clone();
                in_place(&mut t, |t| *t -= c, whole)?
            }
            14 => {
                if a == b {
                    let d = armed(|| t.diag().eval());
                    armed(|| d.diag().eval());
                }
            }
            15 => {
                let nested: [[T; 3]; 2] = std::array::from_fn(|_| std::array::from_fn(|_| T::gen(r)));
                armed(|| nested.clone().eval().t().eval());
                armed(|| nested.wrap().map(|x| x).eval());
            }
            _ => t = armed(|| o.eval().wrap().eval()),
        }
        whole(&t)?;
    }
    Ok(())
}

/// the optimiser: comparator and generator panic at any call
fn optimiser(r: &mut Rng) -> Res {
    struct Touchy(Rng);
    impl rand::RngCore for Touchy {
        fn next_u32(&mut self) -> u32 {
            self.next_u64() as u32
        }
        fn next_u64(&mut self) -> u64 {
            tick();
            self.0.u64()
        }
        fn fill_bytes(&mut self, d: &mut [u8]) {
            d.fill_with(|| self.next_u64() as u8)
        }
        fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
            self.fill_bytes(d);
            Ok(())
        }
    }
    let state: Vec<Owned> = (0..3).map(|_| Owned::gen(r)).collect();
    let mut g = Touchy(Rng::new(r.u64()));
    let p = 4 + if r.chance(1, 15) && !cfg!(miri) { r.size(200) } else { r.below(6) };
    let iters = r.below(8);
    let x = armed(|| {
        magnesia::optimize::differential_evolution(&[(0.0f64, 1.0), (2.0, 5.0)], p, 0.5, 0.5, iters, &mut g, |a, b| {
            let keep = state[0].clone();
            keep.get();
            a[0] + a[1] < b[0] + b[1]
        })
    });
    ensure!(x[0].is_finite(), "result {x:?}");
    Ok(())
}

// ---------------------------------------------------------------- driver

fn drive(prog: fn(&mut Rng) -> Res, name: &'static str) -> impl Fn(&mut Rng, &mut Log) -> Res {
    move |r, l| {
        let seed = r.u64();
        let once = |target: u64| -> Result<(Account, bool), String> {
            open_account(target);
            let out = caught(|| prog(&mut Rng::new(seed)));
            let acc = close_account();
            let at = if target == 0 { "no panic".to_string() } else { format!("panic at element operation {target}") };
            ensure!(acc.errors.is_empty(), "{name} program {seed:#x}, {at}: {}", acc.errors.join("; "));
            match out {
                Ok(Ok(())) => {}
                Ok(Err(m)) => return Err(format!("{name} program {seed:#x}, {at}: {m}")),
                Err(m) if target > 0 && m.contains(INJECTED) => {}
                Err(m) => return Err(format!("{name} program {seed:#x}, {at}: {m}")),
            }
            ensure!(
                acc.live == 0 && acc.created == acc.dropped,
                "{name} program {seed:#x}, {at}: {} elements created, {} dropped, {} never dropped", acc.created, acc.dropped, acc.live
            );
            let hit = target > 0 && acc.ops >= target;
            Ok((acc, hit))
        };
        let (acc, _) = once(0)?;
        l.count("elements", acc.created);
        l.count("element operations", acc.ops);
        l.count(&format!("programs: {name}"), 1);
        l.max("element operations in a program", acc.ops);
        let mut targets = HashSet::new();
        let cap = if cfg!(miri) { 6 } else { 40 };
        if acc.ops <= cap {
            targets.extend(1..=acc.ops);
        } else {
            // the first and last operations, and random ones between
            targets.extend([1, 2, acc.ops - 1, acc.ops]);
            while (targets.len() as u64) < cap {
                targets.insert(1 + r.below(acc.ops as usize) as u64);
            }
        }
        let mut targets: Vec<u64> = targets.into_iter().collect();
        targets.sort();
        let mut hits = 0;
        for &k in &targets {
            let (_, hit) = once(k)?;
            hits += hit as u64;
            l.case(mix(seed ^ k), hit);
        }
        l.count("panics injected", hits);
        l.sample(|| format!("{name} program {seed:#x}: {} elements, {} operations, panics at {targets:?}", acc.created, acc.ops));
        Ok(())
    }
}

fn main() {
    let run = Run::new("C25", "an execution of a random program in which a panic was injected at a chosen element operation");
    let n = run.n(40, 1200);
    run.cases("polynomial", n * 2, drive(polynomial, "polynomial"));
    run.cases("complex", n, drive(complex, "complex"));
    run.cases("svector-0", n / 4 + 1, drive(svector::<0>, "svector-0"));
    run.cases("svector-1", n / 4 + 1, drive(svector::<1>, "svector-1"));
    run.cases("svector-3", n, drive(svector::<3>, "svector-3"));
    run.cases("svector-6", n, drive(svector::<6>, "svector-6"));
    if !cfg!(miri) {
        run.cases("svector-40", n / 4 + 1, drive(svector::<40>, "svector-40"));
        run.cases("smatrix-9x8", n / 8 + 1, drive(smatrix::<9, 8>, "smatrix-9x8"));
        run.cases("smatrix-17x17", n / 20 + 1, drive(smatrix::<17, 17>, "smatrix-17x17"));
    }
    run.cases("smatrix-0x2", n / 4 + 1, drive(smatrix::<0, 2>, "smatrix-0x2"));
    run.cases("smatrix-2x2", n, drive(smatrix::<2, 2>, "smatrix-2x2"));
    run.cases("smatrix-1x3", n, drive(smatrix::<1, 3>, "smatrix-1x3"));
    run.cases("smatrix-3x2", n, drive(smatrix::<3, 2>, "smatrix-3x2"));
    run.cases("trees", n * 2, drive(trees::<Owned>, "trees"));
    run.cases("complex-trees", n, drive(trees::<C>, "complex-trees"));
    run.cases("dvector", n * 2, drive(dvector::<Owned>, "dvector"));
    run.cases("complex-dvector", n, drive(dvector::<C>, "complex-dvector"));
    run.cases("dmatrix", n * 2, drive(dmatrix::<Owned>, "dmatrix"));
    run.cases("complex-dmatrix", n, drive(dmatrix::<C>, "complex-dmatrix"));
    run.cases("optimiser", n, drive(optimiser, "optimiser"));
    run.require("panics injected", if cfg!(miri) { 10 } else { 100 });
    run.require("elements", if cfg!(miri) { 100 } else { 1000 });
    run.finish()
}
