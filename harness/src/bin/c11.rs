//! C11: statically sized matrices for many shapes, element types and operator forms.
use harness::elems::*;
use harness::ensure;
use harness::mm::Mm;
use harness::run::{key_of, Log, Res, Rng, Run};
use magnesia::algebra::{Complex, Conj, One, Zero};
use magnesia::linalg::{SMatrix, SVector};
use std::array::from_fn;

fn mat<T: El, const M: usize, const N: usize>(m: &Mm<T>) -> SMatrix<T, M, N> {
    SMatrix::from(from_fn(|i| from_fn(|j| m.at(i, j).clone())))
}

/// Equality through ==; for exact rings also entry by entry, read by multiplying with unit vectors.
fn same<T: LibEl, const M: usize, const N: usize>(op: &str, g: &SMatrix<T, M, N>, w: &Mm<T>, ctx: &dyn Fn() -> String, read: bool) -> Res {
    let s = mat::<T, M, N>(w);
    ensure!(*g == s && s == *g, "{op} over {} {M}x{N}: {}: got {g:?}, want {s:?}", T::NAME, ctx());
    if read {
        for j in 0..N {
            let u = SVector::<T, N>::from(from_fn(|k| if k == j { T::m_one() } else { T::m_zero() }));
            let col = g * &u;
            for i in 0..M {
                ensure!(
                    col.0[i].same(w.at(i, j)),
                    "{op} over {} {M}x{N}: {}: entry ({i},{j}) is {:?}, want {:?}",
                    T::NAME, ctx(), col.0[i], w.at(i, j)
                );
            }
        }
    }
    Ok(())
}

fn entrywise<T: LibEl, const M: usize, const N: usize>(r: &mut Rng, l: &mut Log, read: bool) -> Res {
    let a = Mm::<T>::gen(r, M, N);
    let b = Mm { r: M, c: N, v: gen_related(r, &a.v, M * N) };
    l.case(key_of(&(T::NAME, M, N, &a, &b)), M * N >= 2 && a != b);
    l.count(&format!("entrywise_{}", T::NAME), 1);
    l.count(&format!("shape_{M}x{N}"), 1);
    l.sample(|| format!("{} {M}x{N}: a={:?} b={:?}", T::NAME, a.v, b.v));
    let ctx = || format!("a={:?} b={:?}", a.v, b.v);
    let ctx: &dyn Fn() -> String = &ctx;
    let x = || mat::<T, M, N>(&a);
    let y = || mat::<T, M, N>(&b);
    let (ra, rb) = (x(), y());
    let m = a.zip(&b, T::m_add);
    same("a + b", &(x() + y()), &m, ctx, read)?;
    same("a + &b", &(x() + &rb), &m, ctx, false)?;
    let mut t = x();
    t += y();
    same("a += b", &t, &m, ctx, false)?;
    let mut t = x();
    t += &rb;
    same("a += &b", &t, &m, ctx, false)?;
    let m = a.zip(&b, T::m_sub);
    same("a - b", &(x() - y()), &m, ctx, read)?;
    same("a - &b", &(x() - &rb), &m, ctx, false)?;
    let mut t = x();
    t -= y();
    same("a -= b", &t, &m, ctx, false)?;
    let mut t = x();
    t -= &rb;
    same("a -= &b", &t, &m, ctx, false)?;
    same("-a", &-x(), &a.map(T::m_neg), ctx, read)?;
    same("conj a", &x().conj(), &a.map(T::m_conj), ctx, read)?;
    same("zero", &SMatrix::<T, M, N>::zero(), &Mm::new(M, N, |_, _| T::m_zero()), ctx, read)?;
    same("one", &SMatrix::<T, M, N>::one(), &Mm::new(M, N, |i, j| T::m_int((i == j) as i8)), ctx, read)?;
    let want = a.v.iter().zip(&b.v).all(|(p, q)| p == q);
    ensure!((ra == rb) == want && (ra != rb) != want, "== over {} {M}x{N}: {}", T::NAME, ctx());
    same("operand a afterwards", &ra, &a, ctx, read)?;
    same("operand b afterwards", &rb, &b, ctx, false)
}

fn product<T: LibEl, const L: usize, const M: usize, const N: usize>(r: &mut Rng, l: &mut Log, read: bool) -> Res {
    let a = Mm::<T>::gen(r, L, M);
    let b = Mm::<T>::gen(r, M, N);
    l.case(key_of(&(T::NAME, L, M, N, &a, &b)), L * M * N >= 2);
    l.count(&format!("product_{}", T::NAME), 1);
    l.count(&format!("product_{L}x{M}x{N}"), 1);
    l.sample(|| format!("{} {L}x{M}x{N}: a={:?} b={:?}", T::NAME, a.v, b.v));
    let ctx = || format!("a={:?} b={:?}", a.v, b.v);
    let ctx: &dyn Fn() -> String = &ctx;
    let w = a.mul(&b);
    let (x, y) = (mat::<T, L, M>(&a), mat::<T, M, N>(&b));
    same("&a * &b", &(&x * &y), &w, ctx, read)?;
    same("a * b", &(mat::<T, L, M>(&a) * mat::<T, M, N>(&b)), &w, ctx, false)?;
    same("left factor afterwards", &x, &a, ctx, false)?;
    same("right factor afterwards", &y, &b, ctx, false)?;
    // in place, by a square matrix from the right
    let s = Mm::<T>::gen(r, M, M);
    let ctx2 = || format!("a={:?} s={:?}", a.v, s.v);
    let ctx2: &dyn Fn() -> String = &ctx2;
    let w = a.mul(&s);
    let sq = mat::<T, M, M>(&s);
    let mut t = mat::<T, L, M>(&a);
    t *= &sq;
    same("a *= &s", &t, &w, ctx2, read)?;
    let mut t = mat::<T, L, M>(&a);
    t *= mat::<T, M, M>(&s);
    same("a *= s", &t, &w, ctx2, false)?;
    // matrix * vector
    let v = gen_vec::<T>(r, M);
    let sv = SVector::<T, M>::from(from_fn(|i| v[i].clone()));
    let g = &x * &sv;
    let w: Vec<T> = (0..L).map(|i| (0..M).fold(T::m_zero(), |s, j| s.m_add(&a.at(i, j).m_mul(&v[j])))).collect();
    ensure!(same_all(&g.0, &w), "&a * &v over {} {L}x{M}: a={:?} v={v:?}: got {g:?}, want {w:?}", T::NAME, a.v);
    ensure!(same_all(&sv.0, &v), "vector changed by the product");
    // identity
    let one = SMatrix::<T, M, M>::one();
    same("a * 1", &(&x * &one), &a, ctx, false)?;
    let one = SMatrix::<T, L, L>::one();
    same("1 * a", &(&one * &x), &a, ctx, false)
}

fn float<const L: usize, const M: usize, const N: usize>(r: &mut Rng, l: &mut Log) -> Res {
    // general doubles: every entry within the summation error bound of the exact value
    let f = |r: &mut Rng| (r.unit() - 0.5) * 2f64.powi(r.range(-10, 10) as i32);
    let a = Mm { r: L, c: M, v: (0..L * M).map(|_| f(r)).collect() };
    let b = Mm { r: M, c: N, v: (0..M * N).map(|_| f(r)).collect() };
    l.case(key_of(&("f64", L, M, N, &a)), L * M * N >= 2);
    l.count("product_float", 1);
    let p = &mat::<f64, L, M>(&a) * &mat::<f64, M, N>(&b);
    for j in 0..N {
        let u = SVector::<f64, N>::from(from_fn(|k| (k == j) as u8 as f64));
        let col = &p * &u;
        for i in 0..L {
            let (mut s, mut m) = (harness::dd::DD::ZERO, 0.0);
            for k in 0..M {
                s = s + harness::dd::two_prod(*a.at(i, k), *b.at(k, j));
                m += (a.at(i, k) * b.at(k, j)).abs();
            }
            let e = (harness::dd::DD::from(col.0[i]) - s).f().abs();
            ensure!(e <= (M as f64 + 2.0) * f64::EPSILON * m, "a*b over f64 {L}x{M}x{N}: entry ({i},{j}) = {:e}, exact {:e}", col.0[i], s.f());
        }
    }
    Ok(())
}

fn shape<const M: usize, const N: usize>(run: &Run, q: u64, t: u64) {
    run.cases(&format!("entrywise-{M}x{N}"), run.n(q, t), |r, l| match r.below(6) {
        0 => entrywise::<Zp, M, N>(r, l, true),
        1 => entrywise::<Nc, M, N>(r, l, true),
        2 => entrywise::<Tok, M, N>(r, l, false),
        3 => entrywise::<i64, M, N>(r, l, true),
        4 => entrywise::<Complex<Zp>, M, N>(r, l, true),
        _ => entrywise::<Free, M, N>(r, l, true),
    });
}
/// Fewer element types (they cost compile time), same operations.
fn lite<const M: usize, const N: usize>(run: &Run, q: u64, t: u64) {
    let read = M * N <= 100;
    run.cases(&format!("entrywise-{M}x{N}"), run.n(q, t), |r, l| match r.below(2) {
        0 => entrywise::<Nc, M, N>(r, l, read),
        _ => entrywise::<Tok, M, N>(r, l, false),
    });
}
/// Large square matrices, on a thread with room for them.
fn wide<const M: usize, const N: usize>(run: &Run, q: u64, t: u64) {
    run.cases(&format!("entrywise-{M}x{N}"), run.n(q, t).min(8), |r, l| {
        std::thread::scope(|s| {
            std::thread::Builder::new().stack_size(1 << 29).spawn_scoped(s, || entrywise::<Zp, M, N>(r, l, false)).unwrap().join().unwrap_or_else(|e| std::panic::resume_unwind(e))
        })
    });
}
fn shape3<const L: usize, const M: usize, const N: usize>(run: &Run, q: u64, t: u64) {
    run.cases(&format!("product-{L}x{M}x{N}"), run.n(q, t), |r, l| match r.below(6) {
        0 => product::<Zp, L, M, N>(r, l, true),
        1 => product::<Nc, L, M, N>(r, l, true),
        2 => product::<Complex<Zp>, L, M, N>(r, l, true),
        3 => product::<Free, L, M, N>(r, l, true),
        4 => product::<i64, L, M, N>(r, l, true),
        _ => float::<L, M, N>(r, l),
    });
}
fn lite3<const L: usize, const M: usize, const N: usize>(run: &Run, q: u64, t: u64) {
    let read = L * N * N <= 400;
    run.cases(&format!("product-{L}x{M}x{N}"), run.n(q, t), |r, l| product::<Nc, L, M, N>(r, l, read));
}

fn main() {
    let run = Run::new(
        "C11",
        "a case is a pair of matrices of one compile-time shape (pair) and element type with every form of \
         every operation; non-trivial if there are at least two entries (and, entry-wise, the operands differ)",
    );
    for k in ["entrywise_Nc", "entrywise_Tok", "product_Nc"] {
        run.require(k, 500);
    }
    for k in ["entrywise_Zp", "entrywise_i64", "entrywise_Free", "product_Zp", "product_i64", "product_Free", "product_float"] {
        run.require(k, 100);
    }
    macro_rules! shapes { ($f:ident, $q:expr, $t:expr; $($m:literal x [$($n:literal)*])*) => {$($( $f::<$m, $n>(&run, $q, $t); )*)*} }
    shapes!(shape, 40, 2000; 0 x [0] 1 x [1 3] 2 x [1 2 3] 3 x [2 3] 4 x [4]);
    shapes!(lite, 20, 1000; 0 x [1 3] 1 x [0 2 4 5 6 7 8 9 17] 2 x [0 4 5 7 8] 3 x [0 1 4 5 6 9] 4 x [1 2 3 5 8] 5 x [1 2 3 4 5 6]
        6 x [1 5 6 7] 7 x [2 7 8] 8 x [1 2 4 7 8 9] 9 x [3 9] 10 x [10] 16 x [1 16] 17 x [16 17]);
    shapes!(lite, 4, 100; 32 x [32] 33 x [1 33] 64 x [3 64] 65 x [2] 1 x [65 130] 3 x [64]);
    shapes!(lite, 3, 30; 1 x [257 300] 257 x [1] 300 x [2] 2 x [300] 130 x [3]);
    // every index beyond one byte
    shapes!(wide, 1, 4; 258 x [258]);
    macro_rules! prods { ($f:ident, $q:expr, $t:expr; $($a:literal, $b:literal, $c:literal;)*) => {$( $f::<$a, $b, $c>(&run, $q, $t); )*} }
    prods!(shape3, 40, 2000; 1,1,1; 2,2,2; 2,3,2; 3,2,1; 2,3,4; 3,3,3; 2,0,3;);
    prods!(lite3, 15, 800;
        0,0,0; 0,0,2; 0,2,0; 2,0,0; 0,2,3; 2,3,0; 1,0,1;
        1,1,2; 1,2,1; 2,1,1; 1,2,2; 2,1,2; 2,2,1;
        1,3,1; 1,2,3; 1,3,2; 2,1,3; 2,3,1; 3,1,2; 2,2,3; 3,2,2; 3,1,3; 2,3,3; 3,2,3; 3,3,2;
        4,4,4; 4,3,2; 3,4,2; 4,2,3; 1,4,1; 5,5,5; 3,5,4; 6,5,4; 6,6,6; 7,7,7; 8,8,8; 8,7,9; 9,9,9;
        2,6,2; 2,7,2; 2,8,2; 2,9,2; 2,10,2; 2,12,2; 2,15,2; 2,16,2; 2,17,2; 3,31,2; 3,32,2; 2,33,3; 1,64,1; 1,65,2; 2,100,1; 2,257,2; 1,300,1; 258,2,3; 3,2,258;
        17,2,3; 3,2,17; 33,1,2; 2,1,33; 10,3,11;
    );
    prods!(lite3, 3, 40; 16,16,16; 17,16,15; 32,32,32; 33,31,34; 3,129,2; 65,2,3; 2,3,65;);
    run.cases("sizes", run.n(100, 5000), |r, l| {
        entrywise::<Bytes<0>, 3, 5>(r, l, false)?;
        entrywise::<Bytes<3>, 4, 3>(r, l, false)?;
        entrywise::<Bytes<24>, 2, 3>(r, l, false)?;
        entrywise::<Boxed, 3, 4>(r, l, false)
    });
    run.finish()
}
