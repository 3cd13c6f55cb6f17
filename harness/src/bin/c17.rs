//! C17: operations on mismatched shapes panic and never yield a value;
//! rejected in-place operations leave the target unchanged; matching never panics.
use harness::elems::*;
use harness::ensure;
use harness::expr::{dm, dv, Arena, Gen, BM, BV};
use harness::mm::Mm;
use harness::run::{caught, key_of, Log, Res, Rng, Run};
use magnesia::linalg::*;

/// A right operand of length n in one of the forms a caller may use.
fn vrhs<'a>(r: &mut Rng, arena: &'a Arena<Zp>, n: usize) -> (BV<'a, Zp>, &'static str) {
    let m = gen_vec::<Zp>(r, n).into_iter().map(|x| if x.0 == 0 { Zp(1) } else { x }).collect::<Vec<_>>();
    match r.below(7) {
        0 => (BV::new(dv(&m)), "owned"),
        1 => (BV::new(arena.v(dv(&m))), "reference"),
        2 => (BV::new(arena.s(m)), "slice"),
        3 => (BV::new(make_vector_expr(n, move |i| m[i])), "function"),
        4 => (BV::new(DVector::<Zp>::ones(n)), "ones"),
        k if k == 5 || n > 300 => (BV::new(dv(&m).wrap().map(|x| x)), "map"),
        _ => (BV::new(dm(&Mm::new(n, n + 1, |i, _| m[i])).wrap().diag()), "diagonal"),
    }
}
fn mrhs<'a>(r: &mut Rng, arena: &'a Arena<Zp>, a: usize, b: usize) -> (BM<'a, Zp>, &'static str) {
    let m = Mm::<Zp>::gen(r, a, b).map(|x| if x.0 == 0 { Zp(1) } else { *x });
    match r.below(7) {
        0 => (BM::new(dm(&m)), "owned"),
        1 => (BM::new(arena.m(dm(&m))), "reference"),
        2 => (BM::new(make_matrix_expr(a, b, move |i, j| *m.at(i, j))), "function"),
        3 => (BM::new(DMatrix::<Zp>::ones(a, b)), "ones"),
        4 => (BM::new(dm(&m.t()).wrap().t()), "transpose"),
        5 => (BM::new(arena.m(dm(&m.t())).h()), "hermitian transpose"),
        _ => (BM::new(dm(&m).wrap() + dm(&m)), "sum"),
    }
}

const VOPS: [&str; 16] = [
    "wrap + x", "wrap + wrap", "&v + x", "wrap - x", "wrap - wrap", "&v - x", "zip", "zip wrap", "mul_elemwise", "(&v).mul_elemwise",
    "div_elemwise", "(&v).div_elemwise", "v += x", "v -= x", "u * v", "&u * &v",
];

fn vec_pair(r: &mut Rng, l: &mut Log, a: usize, b: usize, op: usize) -> Res {
    let arena = Arena::<Zp>::default();
    let m = gen_vec::<Zp>(r, a);
    let mut t = dv(&m);
    let keep: &DVector<Zp> = arena.v(dv(&m));
    let deep = r.chance(1, 3);
    let (x, form) = vrhs(r, &arena, b);
    // a left operand that is itself an expression of length a
    let left = |r: &mut Rng| if deep { Gen::new(&arena).vec(r, a, 2).e } else { BV::new(dv(&m)) };
    let lhs = left(r);
    l.case(key_of(&("v", a, b, op, form, deep, &m)), a != b);
    l.count(if a == b { "matching" } else { "mismatched" }, 1);
    l.sample(|| format!("{} with lengths {a} and {b} ({form})", VOPS[op]));
    let mut inplace = false;
    let run = || -> usize {
        match op {
            0 => (lhs.wrap() + x).eval().len(),
            1 => (lhs.wrap() + x.wrap()).eval().len(),
            2 => (keep + x).eval().len(),
            3 => (lhs.wrap() - x).eval().len(),
            4 => (lhs.wrap() - x.wrap()).eval().len(),
            5 => (keep - x).eval().len(),
            6 => lhs.wrap().zip(x).eval().len(),
            7 => lhs.wrap().zip(x.wrap()).eval().len(),
            8 => lhs.wrap().mul_elemwise(x).eval().len(),
            9 => keep.mul_elemwise(x).eval().len(),
            10 => lhs.wrap().div_elemwise(x).eval().len(),
            11 => keep.div_elemwise(x).eval().len(),
            12 => {
                inplace = true;
                t += x;
                t.len()
            }
            13 => {
                inplace = true;
                t -= x;
                t.len()
            }
            14 => {
                let _: Zp = lhs.eval() * x.eval();
                a
            }
            _ => {
                let _: Zp = keep * &x.eval();
                a
            }
        }
    };
    let out = caught(run);
    let what = format!("{} with lengths {a} and {b} (left {}, right {form})", VOPS[op], if deep { "expression" } else { "owned" });
    if a == b {
        ensure!(out == Ok(a), "{what}: {out:?}, want a value of length {a}");
    } else {
        ensure!(out.is_err(), "{what} yields a value (length {})", out.unwrap());
        if inplace {
            ensure!(t.len() == a && (0..a).all(|i| t[i] == m[i]), "rejected {what} changed its target to {t:?} from {m:?}");
            l.count("rejected_in_place", 1);
        }
    }
    ensure!((0..a).all(|i| keep[i] == m[i]), "{what} changed its left operand");
    Ok(())
}

const MOPS: [&str; 14] = [
    "wrap + x", "wrap + wrap", "&m + x", "wrap - x", "wrap - wrap", "&m - x", "zip", "zip wrap", "mul_elemwise", "(&m).mul_elemwise",
    "div_elemwise", "(&m).div_elemwise", "m += x", "m -= x",
];

fn mat_pair(r: &mut Rng, l: &mut Log, s: (usize, usize), t: (usize, usize), op: usize) -> Res {
    let arena = Arena::<Zp>::default();
    let m = Mm::<Zp>::gen(r, s.0, s.1);
    let mut tg = dm(&m);
    let keep: &DMatrix<Zp> = arena.m(dm(&m));
    let deep = r.chance(1, 3);
    let (x, form) = mrhs(r, &arena, t.0, t.1);
    let lhs = if deep { Gen::new(&arena).mat(r, s.0, s.1, 2).e } else { BM::new(dm(&m)) };
    l.case(key_of(&("m", s, t, op, form, deep, &m)), s != t);
    l.count(if s == t { "matching" } else { "mismatched" }, 1);
    if s != t && s.0 * s.1 == t.0 * t.1 {
        l.count("mismatched_same_number_of_entries", 1);
    }
    l.sample(|| format!("{} with shapes {s:?} and {t:?} ({form})", MOPS[op]));
    let mut inplace = false;
    let sh = |v: DMatrix<Zp>| (v.num_rows(), v.num_cols());
    let run = || -> (usize, usize) {
        match op {
            0 => sh((lhs.wrap() + x).eval()),
            1 => sh((lhs.wrap() + x.wrap()).eval()),
            2 => sh((keep + x).eval()),
            3 => sh((lhs.wrap() - x).eval()),
            4 => sh((lhs.wrap() - x.wrap()).eval()),
            5 => sh((keep - x).eval()),
            6 => sh(lhs.wrap().zip(x).map(|p| p.0).eval()),
            7 => sh(lhs.wrap().zip(x.wrap()).map(|p| p.1).eval()),
            8 => sh(lhs.wrap().mul_elemwise(x).eval()),
            9 => sh(keep.mul_elemwise(x).eval()),
            10 => sh(lhs.wrap().div_elemwise(x).eval()),
            11 => sh(keep.div_elemwise(x).eval()),
            12 => {
                inplace = true;
                tg += x;
                sh(tg.clone())
            }
            _ => {
                inplace = true;
                tg -= x;
                sh(tg.clone())
            }
        }
    };
    let out = caught(run);
    let what = format!("{} with shapes {s:?} and {t:?} (left {}, right {form})", MOPS[op], if deep { "expression" } else { "owned" });
    if s == t {
        ensure!(out == Ok(s), "{what}: {out:?}, want a value of shape {s:?}");
    } else {
        ensure!(out.is_err(), "{what} yields a value (shape {:?})", out.unwrap());
        if inplace {
            harness::expr::is_mat(&tg, &m, &format!("target of rejected {what}"))?;
            l.count("rejected_in_place", 1);
        }
    }
    harness::expr::is_mat(keep, &m, &format!("left operand of {what}"))
}

fn product(r: &mut Rng, l: &mut Log, s: (usize, usize), t: (usize, usize)) -> Res {
    let (m, n) = (Mm::<Zp>::gen(r, s.0, s.1), Mm::<Zp>::gen(r, t.0, t.1));
    l.case(key_of(&("p", s, t, &m, &n)), s.1 != t.0);
    let (a, b) = (dm(&m), dm(&n));
    // the values of products with an empty inner dimension are decided by C14
    let empty = s.1 == 0 && t.0 == 0 && s.0 * t.1 > 0;
    let out = caught(|| {
        let p = &a * &b;
        if empty {
            (p.num_rows(), p.num_cols())
        } else {
            let v = p.eval();
            (v.num_rows(), v.num_cols())
        }
    });
    if s.1 == t.0 {
        l.count("matching", 1);
        ensure!(out == Ok((s.0, t.1)), "product of shapes {s:?} and {t:?}: {out:?}");
    } else {
        l.count("mismatched", 1);
        l.count("mismatched_products", 1);
        ensure!(out.is_err(), "product of shapes {s:?} and {t:?} yields a value of shape {:?}", out.unwrap());
    }
    Ok(())
}

/// a lazy vector of any nominal length; reads of it are counted
fn nominal_vec(r: &mut Rng, n: usize) -> BV<'static, Zp> {
    let f = move |i: usize| Zp((i as u64) % 1000 + 1);
    match r.below(5) {
        0 => BV::new(DVector::<Zp>::ones(n)),
        1 => BV::new(DVector::<Zp>::same(n, Zp(3))),
        2 => BV::new(make_matrix_expr(n, n, move |i, _| f(i)).diag()),
        3 => BV::new(make_vector_expr(n, f).map(|x| x)),
        _ => BV::new(make_vector_expr(n, f)),
    }
}
fn nominal_mat(r: &mut Rng, a: usize, b: usize) -> BM<'static, Zp> {
    let f = move |i: usize, j: usize| Zp((i ^ j) as u64 % 1000 + 1);
    match r.below(5) {
        0 => BM::new(DMatrix::<Zp>::ones(a, b)),
        1 => BM::new(DMatrix::<Zp>::same(a, b, Zp(3))),
        2 => BM::new(make_matrix_expr(b, a, move |i, j| f(j, i)).t()),
        3 => BM::new(make_matrix_expr(a, b, f).map(|x| x)),
        _ => BM::new(make_matrix_expr(a, b, f)),
    }
}
/// a length that differs from n, possibly only beyond some number of bits
fn other_length(r: &mut Rng, n: usize) -> usize {
    let m = match r.below(8) {
        0 => n.wrapping_add(1 << 8),
        1 => n.wrapping_add(1 << 16),
        2 => n.wrapping_add(1 << 24),
        3 => n.wrapping_add(1 << 32),
        4 => n ^ (1 << r.below(64)),
        5 => n.wrapping_add(1 << 31),
        6 => !n,
        _ => n.wrapping_sub(1 << r.below(64)),
    };
    if m == n { n ^ 1 } else { m }
}
fn nominal_length(r: &mut Rng) -> usize {
    match r.below(6) {
        0 => r.below(8),
        1 => 1 << r.below(64),
        2 => (1usize << r.below(64)) + r.below(5),
        3 => usize::MAX - r.below(4),
        4 => r.below(3) + (1usize << 32) * r.below(5),
        _ => r.u64() as usize >> r.below(64),
    }
}

/// Operations on lazy operands of any nominal length: a value is an
/// expression, of which one entry is read.
fn nominal_vectors(r: &mut Rng, l: &mut Log) -> Res {
    let mut n = nominal_length(r);
    let same = r.chance(1, 3);
    let m = if same { n } else { other_length(r, n) };
    let op = r.below(10);
    if op >= 8 {
        // in place: the target is stored
        n &= 7;
        let m = if same { n } else { other_length(r, n) };
        let w = gen_vec::<Zp>(r, n);
        let mut t = dv(&w);
        let x = nominal_vec(r, m);
        let out = caught(|| {
            if op == 8 {
                t += x;
            } else {
                t -= x;
            }
        });
        l.case(key_of(&("nv", n, m, op, &w)), n != m);
        l.count(if n == m { "nominal_matching" } else { "nominal_mismatched" }, 1);
        let what = format!("{} with lengths {n} and {m}", if op == 8 { "v += x" } else { "v -= x" });
        if n == m {
            ensure!(out.is_ok(), "{what}: {out:?}");
        } else {
            ensure!(out.is_err(), "{what} is accepted");
            ensure!(t.len() == n && (0..n).all(|i| t[i] == w[i]), "rejected {what} changed its target to {t:?} from {w:?}");
        }
        return Ok(());
    }
    let (x, y) = (nominal_vec(r, n), nominal_vec(r, m));
    let names = ["wrap + x", "wrap - x", "mul_elemwise", "div_elemwise", "zip", "wrap + wrap", "wrap - wrap", "zip wrap"];
    let k = n.min(m);
    macro_rules! read {
        ($e:expr) => {{
            let e = $e;
            if k > 0 {
                e.entry(k - 1);
            }
            e.len()
        }};
    }
    let out = caught(|| match op {
        0 => read!(x.wrap() + y),
        1 => read!(x.wrap() - y),
        2 => read!(x.wrap().mul_elemwise(y)),
        3 => read!(x.wrap().div_elemwise(y)),
        4 => read!(x.wrap().zip(y)),
        5 => read!(x.wrap() + y.wrap()),
        6 => read!(x.wrap() - y.wrap()),
        _ => read!(x.wrap().zip(y.wrap())),
    });
    l.case(key_of(&("nv", n, m, op)), n != m);
    l.count(if same { "nominal_matching" } else { "nominal_mismatched" }, 1);
    let what = format!("{} with lazy operands of lengths {n} and {m}", names[op]);
    if same {
        ensure!(out == Ok(n), "{what}: {out:?}, want an expression of length {n}");
    } else {
        ensure!(out.is_err(), "{what} yields an expression of length {}", out.unwrap());
    }
    Ok(())
}

fn nominal_matrices(r: &mut Rng, l: &mut Log) -> Res {
    let mut s = (nominal_length(r), nominal_length(r));
    let same = r.chance(1, 3);
    let op = r.below(10);
    if op >= 8 {
        s = (s.0 % 5, s.1 % 5);
    }
    let t = match r.below(8) {
        _ if same => s,
        0 | 1 => (other_length(r, s.0), s.1),
        2 | 3 => (s.0, other_length(r, s.1)),
        4 if s.0 != s.1 => (s.1, s.0),
        // the same number of entries, also modulo 2^64
        5 if s.0 % 2 == 0 && s.0 > 0 => (s.0 / 2, s.1.wrapping_mul(2)),
        6 if s.1 % 2 == 0 && s.1 > 0 => (s.0.wrapping_mul(2), s.1 / 2),
        5 | 6 => (s.0 ^ (1 << 63), s.1 ^ (1 << 63)),
        _ => (other_length(r, s.0), other_length(r, s.1)),
    };
    l.case(key_of(&("nm", s, t, op)), s != t);
    l.count(if s == t { "nominal_matching" } else { "nominal_mismatched" }, 1);
    if op >= 8 {
        let m = Mm::<Zp>::gen(r, s.0, s.1);
        let mut tg = dm(&m);
        let x = nominal_mat(r, t.0, t.1);
        let out = caught(|| {
            if op == 8 {
                tg += x;
            } else {
                tg -= x;
            }
        });
        let what = format!("{} with shapes {s:?} and {t:?}", if op == 8 { "m += x" } else { "m -= x" });
        if s == t {
            ensure!(out.is_ok(), "{what}: {out:?}");
            return Ok(());
        }
        ensure!(out.is_err(), "{what} is accepted");
        return harness::expr::is_mat(&tg, &m, &format!("target of rejected {what}"));
    }
    let (x, y) = (nominal_mat(r, s.0, s.1), nominal_mat(r, t.0, t.1));
    let names = ["wrap + x", "wrap - x", "mul_elemwise", "div_elemwise", "zip", "wrap + wrap", "wrap - wrap", "zip wrap"];
    let k = (s.0.min(t.0), s.1.min(t.1));
    macro_rules! read {
        ($e:expr) => {{
            let e = $e;
            if k.0 > 0 && k.1 > 0 {
                e.entry(k.0 - 1, k.1 - 1);
            }
            (e.num_rows(), e.num_cols())
        }};
    }
    let out = caught(|| match op {
        0 => read!(x.wrap() + y),
        1 => read!(x.wrap() - y),
        2 => read!(x.wrap().mul_elemwise(y)),
        3 => read!(x.wrap().div_elemwise(y)),
        4 => read!(x.wrap().zip(y)),
        5 => read!(x.wrap() + y.wrap()),
        6 => read!(x.wrap() - y.wrap()),
        _ => read!(x.wrap().zip(y.wrap())),
    });
    let what = format!("{} with lazy operands of shapes {s:?} and {t:?}", names[op]);
    if s == t {
        ensure!(out == Ok(s), "{what}: {out:?}, want an expression of shape {s:?}");
    } else {
        ensure!(out.is_err(), "{what} yields an expression of shape {:?}", out.unwrap());
    }
    Ok(())
}

/// Stored operands whose lengths, rows or columns agree up to a multiple of 2^8 or 2^16.
fn congruent(r: &mut Rng, l: &mut Log) -> Res {
    let step = r.pick(&[256, 65_536]);
    let d = step * (1 + r.below(2));
    l.count("congruent", 1);
    if r.chance(1, 2) {
        let n = r.below(10);
        let (a, b) = if r.chance(1, 2) { (n, n + d) } else { (n + d, n) };
        let op = r.below(VOPS.len());
        return vec_pair(r, l, a, b, op);
    }
    let (p, q) = (1 + r.below(3), r.below(4));
    let (a, b) = if r.chance(1, 2) { ((p, q), (p, q + d)) } else { ((q, p), (q + d, p)) };
    let (a, b) = if r.chance(1, 2) { (a, b) } else { (b, a) };
    if r.chance(1, 3) {
        let (u, v) = ((p, q + d), (q, p));
        return if r.chance(1, 2) { product(r, l, u, v) } else { product(r, l, (u.0, v.0), (u.1, v.1)) };
    }
    let op = r.below(MOPS.len());
    mat_pair(r, l, a, b, op)
}

/// Operands whose elements have no size still have lengths.
fn zero_sized(r: &mut Rng, l: &mut Log) -> Res {
    type Z = Bytes<0>;
    let (n, m) = (r.size(40), r.size(40));
    let (u, v) = (make_vector_expr(n, |_| Z::of(0)).eval(), vec![Z::of(0); m]);
    let w = (&v[..]).eval();
    let mut t = u.clone();
    let outs = [
        ("&u + &v", caught(|| (&u + &w).len())),
        ("&u - slice", caught(|| (&u - &v[..]).len())),
        ("slice + &v", caught(|| ((&v[..]).wrap() + &u).len())),
        ("u.mul_elemwise(v)", caught(|| u.mul_elemwise(&w).len())),
        ("u.div_elemwise(slice)", caught(|| u.div_elemwise(&v[..]).len())),
        ("zip", caught(|| (&u).wrap().zip(&v[..]).len())),
        ("u * v", caught(|| (&u * &w, n).1)),
        ("u += v", caught(|| { t += &w; n })),
        ("u -= slice", caught(|| { t -= &v[..]; n })),
    ];
    l.case(key_of(&("zst", n, m)), n != m);
    for (what, out) in outs {
        ensure!(if n == m { out == Ok(n) } else { out.is_err() }, "{what} of {n} and {m} elements of no size: {out:?}");
    }
    let (s, q) = ((r.below(5), r.below(5)), (r.below(5), r.below(5)));
    let z = |s: (usize, usize)| make_matrix_expr(s.0, s.1, |_, _| Z::of(0)).eval();
    let (a, b) = (z(s), z(q));
    let mut t = a.clone();
    let shape = |m: &DMatrix<Z>| (m.num_rows(), m.num_cols());
    let outs = [
        ("a + b", caught(|| shape(&(&a + &b).eval()))),
        ("a - b", caught(|| shape(&(&a - &b).eval()))),
        ("a.mul_elemwise(b)", caught(|| shape(&a.mul_elemwise(&b).eval()))),
        ("a += b", caught(|| { t += &b; shape(&t) })),
        ("a -= b", caught(|| { t -= &b; shape(&t) })),
    ];
    for (what, out) in outs {
        ensure!(if s == q { out == Ok(s) } else { out.is_err() }, "{what} of shapes {s:?} and {q:?}, elements of no size: {out:?}");
    }
    let out = caught(|| { let p = &a * &b; (p.num_rows(), p.num_cols()) });
    ensure!(if s.1 == q.0 { out == Ok((s.0, q.1)) } else { out.is_err() }, "a * b of shapes {s:?} and {q:?}, elements of no size: {out:?}");
    l.count("zero_sized", 1);
    Ok(())
}

// whether an operator accepts a pair of types, observed without failing to compile
struct Pair<L, R>(std::marker::PhantomData<(L, R)>);
#[allow(dead_code)]
trait Rejected {
    fn accepted(&self) -> bool {
        false
    }
}
impl<L, R> Rejected for &Pair<L, R> {}
macro_rules! accepted {
    ($tr:ident, $l:ty, $r:ty) => {{
        #[allow(dead_code)]
        trait Accepted {
            fn accepted(&self) -> bool {
                true
            }
        }
        impl<L: $tr<R>, R> Accepted for Pair<L, R> {}
        (&Pair::<$l, $r>(std::marker::PhantomData)).accepted()
    }};
}

fn static_shapes(_: &mut Rng, l: &mut Log) -> Res {
    use std::ops::*;
    type V<const N: usize> = SVector<i64, N>;
    type W<const M: usize, const N: usize> = SMatrix<i64, M, N>;
    macro_rules! check {
        ($want:literal: $($l:ty, $r:ty: $($tr:ident)*;)*) => { $( $( {
            let got = accepted!($tr, $l, $r);
            let name = concat!(stringify!($tr), " for ", stringify!($l), " and ", stringify!($r));
            ensure!(got == $want, "{name}: {}", if got { "operands of different shapes are accepted" } else { "operands of equal shapes are not accepted" });
            l.count(if got { "static shapes accepted" } else { "static shapes rejected" }, 1);
            l.case(harness::run::hash_str(name), true);
        } )* )* };
    }
    check! { true:
        V<2>, V<2>: Add Sub Mul AddAssign SubAssign PartialEq;
        V<2>, &V<2>: Add Sub Mul AddAssign SubAssign;
        W<2, 3>, W<2, 3>: Add Sub AddAssign SubAssign PartialEq;
        W<2, 3>, &W<2, 3>: Add Sub AddAssign SubAssign;
        W<2, 3>, W<3, 4>: Mul;
        &W<2, 3>, &W<3, 4>: Mul;
        W<2, 3>, W<3, 3>: MulAssign;
        W<2, 3>, &W<3, 3>: MulAssign;
        &W<2, 3>, &V<3>: Mul;
    }
    check! { false:
        V<2>, V<3>: Add Sub Mul AddAssign SubAssign PartialEq;
        V<3>, V<2>: Add Sub Mul AddAssign SubAssign PartialEq;
        V<2>, &V<3>: Add Sub Mul AddAssign SubAssign;
        V<3>, &V<2>: Add Sub Mul AddAssign SubAssign;
        V<0>, V<1>: Add Sub Mul AddAssign SubAssign PartialEq;
        &V<2>, &V<3>: Add Sub Mul;
        W<2, 3>, W<3, 2>: Add Sub AddAssign SubAssign MulAssign PartialEq;
        W<2, 3>, W<2, 2>: Add Sub Mul AddAssign SubAssign PartialEq;
        W<2, 3>, W<3, 3>: Add Sub AddAssign SubAssign PartialEq;
        W<2, 3>, &W<3, 2>: Add Sub AddAssign SubAssign MulAssign;
        W<2, 3>, W<6, 1>: Add Sub Mul AddAssign SubAssign MulAssign PartialEq;
        W<2, 3>, W<2, 3>: Mul MulAssign;
        W<2, 3>, &W<2, 3>: Mul MulAssign;
        &W<2, 3>, &W<2, 3>: Mul;
        &W<2, 3>, &W<4, 3>: Mul;
        W<2, 3>, W<4, 4>: Mul MulAssign;
        &W<2, 3>, &V<2>: Mul;
        &W<2, 3>, &V<4>: Mul;
        W<2, 3>, V<2>: Mul MulAssign;
        W<3, 3>, V<2>: Mul MulAssign;
    }
    Ok(())
}

fn main() {
    let run = Run::new(
        "C17",
        "a case is one operation on one pair of lengths or shapes with operands in random forms; non-trivial if they mismatch",
    );
    for (k, n) in [("matching", 5000), ("mismatched", 20_000), ("mismatched_same_number_of_entries", 500), ("rejected_in_place", 2000), ("mismatched_products", 1000), ("long", 500), ("large", 300)] {
        run.require(k, n);
    }
    let lens: Vec<usize> = (0..8).chain([16, 17, 64, 65]).collect();
    let nl = lens.len();
    let total = nl * nl * VOPS.len();
    run.require("static shapes rejected", 60);
    run.cases("static-shapes", 1, static_shapes);
    run.cases_i("vector-pairs", run.n(3, 200) * total as u64, |i, r, l| {
        let i = i as usize % total;
        vec_pair(r, l, lens[i % nl], lens[i / nl % nl], i / nl / nl)
    });
    // long and different: by one, by a factor, by a power of two
    run.cases("long-vector-pairs", run.n(100, 5000), |r, l| {
        let a = r.pick(&[63, 64, 100, 127, 128, 255, 256, 257, 1000, 1024, 2048, 4096]);
        let b = match r.below(8) {
            0 => a + 1,
            1 => a - 1,
            2 => 2 * a,
            3 => a / 2,
            4 => a + 256,
            5 => r.below(a),
            6 => a,
            _ => a + 1 + r.below(a),
        };
        let op = r.below(VOPS.len());
        l.count("long", 1);
        vec_pair(r, l, a, b, op)
    });
    run.cases("large-matrix-pairs", run.n(60, 3000), |r, l| {
        let d = [1, 2, 3, 16, 17, 31, 32, 33, 64, 65, 100];
        let s = (r.pick(&d), r.pick(&d));
        let t = match r.below(8) {
            0 => (s.0 + 1, s.1),
            1 => (s.0, s.1 + 1),
            2 => (s.1, s.0),
            3 => (2 * s.0, s.1),
            4 => (s.0, 2 * s.1),
            5 => (2 * s.0, (s.1 + 1) / 2),
            6 => s,
            _ => (r.pick(&d), r.pick(&d)),
        };
        l.count("large", 1);
        if r.chance(1, 4) {
            let u = (if r.chance(1, 3) { s.1 } else { t.0 }, t.1);
            return product(r, l, s, u);
        }
        let op = r.below(MOPS.len());
        mat_pair(r, l, s, t, op)
    });
    for (k, n) in [("nominal_matching", 500), ("nominal_mismatched", 2000), ("congruent", 100)] {
        run.require(k, n);
    }
    run.cases("nominal-vectors", run.n(200, 10_000), nominal_vectors);
    run.cases("nominal-matrices", run.n(200, 10_000), nominal_matrices);
    run.cases("congruent-lengths", run.n(10, 300), congruent);
    run.cases("matching-vectors", run.n(500, 20_000), |r, l| {
        let n = r.size(70);
        let op = r.below(VOPS.len());
        vec_pair(r, l, n, n, op)
    });
    let mut shapes = vec![];
    for a in 0..5 {
        for b in 0..5 {
            shapes.push((a, b));
        }
    }
    // same numbers of entries in other shapes, and one dimension off by one
    shapes.extend([(2, 6), (6, 2), (1, 12), (12, 1), (1, 16), (16, 1), (2, 8), (8, 2), (9, 9), (9, 8), (8, 9)]);
    let ns = shapes.len();
    let total = ns * ns * MOPS.len();
    run.cases_i("matrix-pairs", run.n(1, 60) * total as u64, |i, r, l| {
        let i = i as usize % total;
        mat_pair(r, l, shapes[i % ns], shapes[i / ns % ns], i / ns / ns)
    });
    run.cases("matching-matrices", run.n(500, 20_000), |r, l| {
        let s = (r.below(20), r.below(20));
        let op = r.below(MOPS.len());
        mat_pair(r, l, s, s, op)
    });
    run.cases_i("product-pairs", run.n(2, 100) * (ns * ns) as u64, |i, r, l| {
        let i = i as usize % (ns * ns);
        product(r, l, shapes[i % ns], shapes[i / ns])
    });
    run.require("zero_sized", 500);
    run.cases("zero-sized", run.n(100, 5000), zero_sized);
    run.finish()
}
