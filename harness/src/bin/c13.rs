//! C13: matrix expressions denote the entry-wise result for every composition.
use harness::elems::*;
use harness::expr::*;
use harness::mm::Mm;
use harness::run::{hash_str, mix, Log, Res, Rng, Run};
use magnesia::algebra::Complex;

fn tree<T: XEl>(r: &mut Rng, l: &mut Log, a: usize, b: usize, depth: usize) -> Res {
    let arena = Arena::<T>::default();
    let g = Gen::new(&arena);
    let x = g.mat(r, a, b, depth);
    l.case(hash_str(&format!("{}{a}x{b}{}", T::NAME, x.d)), a * b > 0 && g.nodes.get() > 1);
    l.count(T::NAME, 1);
    l.count("nodes", g.nodes.get() as u64);
    l.max("nodes_in_one_tree", g.nodes.get() as u64);
    l.count(if a == b { "square" } else { "rectangular" }, 1);
    if a * b == 0 {
        l.count(if a + b == 0 { "shape_0x0" } else if a == 0 { "shape_0xn" } else { "shape_nx0" }, 1);
    }
    l.max("rows", a as u64);
    l.max("cols", b as u64);
    for k in 0..M_KINDS {
        if g.mkinds.get() >> k & 1 == 1 {
            l.count(&format!("matrix_node_{k}"), 1);
        }
    }
    l.sample(|| format!("{} {a}x{b}: {}", T::NAME, x.d));
    check_mat(r, x)
}

fn any(r: &mut Rng, l: &mut Log, a: usize, b: usize, depth: usize) -> Res {
    match r.below(9) {
        6 => tree::<Bytes<0>>(r, l, a, b, depth),
        7 => tree::<Bytes<3>>(r, l, a, b, depth),
        8 => tree::<Boxed>(r, l, a, b, depth),
        0..=2 => tree::<Tok>(r, l, a, b, depth),
        3 => tree::<f64>(r, l, a, b, depth),
        4 => tree::<Zp>(r, l, a, b, depth),
        _ => tree::<Complex<Zp>>(r, l, a, b, depth),
    }
}

fn shape(r: &mut Rng, max: usize) -> (usize, usize) {
    let a = r.below(max + 1);
    match r.below(4) {
        0 => (a, a),
        1 => (a, 1 + r.below(2)),
        _ => (a, r.below(max + 1)),
    }
}

/// Single operations on matrices with a huge dimension.
fn huge(r: &mut Rng, l: &mut Log) -> Res {
    use harness::ensure;
    use magnesia::linalg::*;
    let (m, n) = r.huge_shape();
    let s = r.u64();
    let h = |s: u64, i: usize, j: usize| mix(mix(s ^ i as u64).wrapping_add(j as u64));
    let x = move |i: usize, j: usize| (h(s, i, j) >> 34) as i64 - (1 << 29);
    let y = move |i: usize, j: usize| ((h(s.rotate_left(7), i, j) >> 40) as i64) | 1;
    let (p, q) = (Mm::new(m, n, x), Mm::new(m, n, y));
    let (a, b) = (&dm(&p), &dm(&q));
    macro_rules! ops {
        ($($name:literal [$m:expr, $n:expr] $e:expr, |$i:ident, $j:ident| $w:expr;)*) => { $( {
            let e = $e;
            let w = |$i: usize, $j: usize| $w;
            let (m, n) = ($m, $n);
            let d = format!("{} with the {}x{} matrix", $name, p.r, p.c);
            ensure!(e.num_rows() == m && e.num_cols() == n, "{d}: shape {}x{}, want {m}x{n}", e.num_rows(), e.num_cols());
            for k in 0..24 {
                let (i, j) = match k { 0 => (0, 0), 1 => (m - 1, n - 1), _ => (r.below(m), r.below(n)) };
                let g = e.entry(i, j);
                ensure!(g == w(i, j), "{d}: entry({i},{j}) = {g:?}, want {:?}", w(i, j));
            }
            let g = e.eval();
            ensure!(g.num_rows() == m && g.num_cols() == n, "{d}: evaluated shape {}x{}, want {m}x{n}", g.num_rows(), g.num_cols());
            for i in 0..m {
                for j in 0..n {
                    ensure!(g[[i, j]] == w(i, j), "{d}: evaluated entry ({i},{j}) is {:?}, want {:?}", g[[i, j]], w(i, j));
                }
            }
            l.count("huge_operations", 1);
            l.case(hash_str(&format!("{}{m}x{n}{s}", $name)), true);
        } )* };
    }
    l.max("rows", m as u64);
    l.max("cols", n as u64);
    ops! {
        "function" [m, n] make_matrix_expr(m, n, x), |i, j| x(i, j);
        "&a" [m, n] a.wrap(), |i, j| x(i, j);
        "owned" [m, n] dm(&q).wrap(), |i, j| y(i, j);
        "a.t" [n, m] a.t(), |i, j| x(j, i);
        "a.h" [n, m] a.h(), |i, j| x(j, i);
        "map" [m, n] a.wrap().map(|a| 3 * a), |i, j| 3 * x(i, j);
        "zip" [m, n] a.wrap().zip(b), |i, j| (x(i, j), y(i, j));
        "&a + &b" [m, n] a + b, |i, j| x(i, j) + y(i, j);
        "&a - &b" [m, n] a - b, |i, j| x(i, j) - y(i, j);
        "mul_elemwise" [m, n] a.mul_elemwise(b), |i, j| x(i, j) * y(i, j);
        "div_elemwise" [m, n] a.div_elemwise(b), |i, j| x(i, j) / y(i, j);
        "zeros" [m, n] DMatrix::<i64>::zeros(m, n), |_i, _j| 0;
        "ones" [m, n] DMatrix::<i64>::ones(m, n), |_i, _j| 1;
        "same" [m, n] DMatrix::<i64>::same(m, n, 7), |_i, _j| 7;
        "(a - b).t + f" [n, m] (a - b).t() + make_matrix_expr(n, m, |i, j| (i * j) as i64), |i, j| x(j, i) - y(j, i) + (i * j) as i64;
    }
    let k = m.min(n);
    let d = a.diag();
    ensure!(d.len() == k, "diagonal of a {m}x{n} matrix has length {}", d.len());
    let g = d.eval();
    ensure!(g.len() == k && (0..k).all(|i| g[i] == x(i, i)), "diagonal of a {m}x{n} matrix");
    let e = 250 + r.below(60);
    let g = DMatrix::<i64>::eye(e).eval();
    ensure!((0..e * e).all(|i| g[[i / e, i % e]] == (i / e == i % e) as i64), "identity of size {e}");
    let v = (&(0..e).map(|i| x(0, i)).collect::<Vec<_>>()[..]).wrap().diag().eval();
    ensure!((0..e * e).all(|i| v[[i / e, i % e]] == if i / e == i % e { x(0, i / e) } else { 0 }), "diagonal matrix of size {e}");
    // far out in a diagonal matrix or identity too big to evaluate
    let v: Vec<i64> = (0..m.max(n)).map(|i| x(0, i)).collect();
    let (d, o) = ((&v[..]).wrap().diag(), DMatrix::<i64>::eye(v.len()));
    for _ in 0..50 {
        let (i, j) = (r.below(v.len()), r.below(v.len()));
        let far = (i + (1 << 16)) % v.len();
        ensure!(d.entry(i, i) == v[i] && o.entry(i, i) == 1, "diagonal entry {i} of size {}", v.len());
        for j in [j, far] {
            ensure!(i == j || d.entry(i, j) == 0 && o.entry(i, j) == 0, "entry ({i},{j}) of a diagonal matrix of size {}", v.len());
        }
    }
    Ok(())
}

fn main() {
    let run = Run::new(
        "C13",
        "a case is a random composition of library operations (a tree with a matrix operation at the root) \
         together with its leaves' contents; non-trivial if it has more than one node and is not empty",
    );
    for k in 0..M_KINDS {
        run.require(&format!("matrix_node_{k}"), 50);
    }
    for k in ["Tok", "f64", "Zp", "square", "rectangular"] {
        run.require(k, 1000);
    }
    for k in ["shape_0x0", "shape_0xn", "shape_nx0"] {
        run.require(k, 100);
    }
    run.cases("single", run.n(4000, 200_000), |r, l| {
        let (a, b) = shape(r, 9);
        any(r, l, a, b, 1)
    });
    run.cases("small", run.n(3000, 200_000), |r, l| {
        let (a, b) = shape(r, 4);
        let d = 2 + r.below(3);
        any(r, l, a, b, d)
    });
    run.cases("deep", run.n(200, 15_000), |r, l| {
        let (a, b) = shape(r, 3);
        let d = 5 + r.below(2);
        any(r, l, a, b, d)
    });
    run.require("huge_operations", 100);
    run.cases("huge-operations", run.n(1, 10), huge);
    run.cases("big", run.n(100, 5000), |r, l| {
        let (a, b) = r.pick(&[(1, 64), (64, 1), (33, 17), (16, 16), (32, 32), (31, 33), (65, 3), (3, 65), (17, 0), (0, 40), (1, 300), (129, 2), (2, 257), (100, 101), (64, 64), (1025, 1), (2, 1000)]);
        any(r, l, a, b, 2)
    });
    run.finish()
}
