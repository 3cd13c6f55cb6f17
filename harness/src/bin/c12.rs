//! C12: vector expressions denote the entry-wise result for every composition.
use harness::elems::*;
use harness::expr::*;
use harness::run::{hash_str, mix, Log, Res, Rng, Run};
use magnesia::algebra::Complex;

fn tree<T: XEl>(r: &mut Rng, l: &mut Log, n: usize, depth: usize) -> Res {
    let arena = Arena::<T>::default();
    let g = Gen::new(&arena);
    let x = g.vec(r, n, depth);
    l.case(hash_str(&format!("{}{n}{}", T::NAME, x.d)), n > 0 && g.nodes.get() > 1);
    l.count(T::NAME, 1);
    l.count("nodes", g.nodes.get() as u64);
    l.max("nodes_in_one_tree", g.nodes.get() as u64);
    l.max("length", n as u64);
    for k in 0..V_KINDS {
        if g.vkinds.get() >> k & 1 == 1 {
            l.count(&format!("vector_node_{k}"), 1);
        }
    }
    l.sample(|| format!("{}: {}", T::NAME, x.d));
    check_vec(r, x)
}

fn any(r: &mut Rng, l: &mut Log, n: usize, depth: usize) -> Res {
    match r.below(9) {
        6 => tree::<Bytes<0>>(r, l, n, depth),
        7 => tree::<Bytes<3>>(r, l, n, depth),
        8 => tree::<Boxed>(r, l, n, depth),
        0..=2 => tree::<Tok>(r, l, n, depth),
        3 => tree::<f64>(r, l, n, depth),
        4 => tree::<Zp>(r, l, n, depth),
        _ => tree::<Complex<Zp>>(r, l, n, depth),
    }
}

/// Single operations at lengths where an index no longer fits into sixteen
/// bits: every entry is compared with the operation on the operands' entries.
fn huge(r: &mut Rng, l: &mut Log) -> Res {
    use harness::ensure;
    use magnesia::linalg::*;
    let n = r.huge();
    let s = r.u64();
    let x = move |i: usize| (mix(s ^ i as u64) >> 34) as i64 - (1 << 29);
    let y = move |i: usize| ((mix(s.rotate_left(7) ^ i as u64) >> 40) as i64) | 1;
    let (p, q): (Vec<i64>, Vec<i64>) = ((0..n).map(x).collect(), (0..n).map(y).collect());
    let (u, v) = (&dv(&p), &dv(&q));
    macro_rules! ops {
        ($($name:literal $e:expr, |$i:ident| $w:expr;)*) => { $( {
            let e = $e;
            let w = |$i: usize| $w;
            ensure!(e.len() == n, "{}: length {}, want {n}", $name, e.len());
            for k in 0..24 {
                let i = match k { 0 => 0, 1 => n - 1, 2 => n / 2, _ => r.below(n) };
                let g = e.entry(i);
                ensure!(g == w(i), "{} of length {n}: entry({i}) = {g:?}, want {:?}", $name, w(i));
            }
            let g = e.eval();
            ensure!(g.len() == n, "{} of length {n} evaluates to length {}", $name, g.len());
            for i in 0..n {
                ensure!(g[i] == w(i), "{} of length {n}: evaluated entry {i} is {:?}, want {:?}", $name, g[i], w(i));
            }
            l.count("huge_operations", 1);
            l.case(hash_str(&format!("{}{n}{s}", $name)), true);
        } )* };
    }
    l.max("length", n as u64);
    ops! {
        "function" make_vector_expr(n, x), |i| x(i);
        "&u" u.wrap(), |i| x(i);
        "slice" (&p[..]).wrap(), |i| x(i);
        "owned" dv(&q).wrap(), |i| y(i);
        "map" u.wrap().map(|a| 3 * a), |i| 3 * x(i);
        "zip" u.wrap().zip(v), |i| (x(i), y(i));
        "&u + &v" u + v, |i| x(i) + y(i);
        "&u - &v" u - v, |i| x(i) - y(i);
        "mul_elemwise" u.mul_elemwise(v), |i| x(i) * y(i);
        "div_elemwise" u.div_elemwise(v), |i| x(i) / y(i);
        "conj" u.conj(), |i| x(i);
        "zeros" DVector::<i64>::zeros(n), |_i| 0;
        "ones" DVector::<i64>::ones(n), |_i| 1;
        "same" DVector::<i64>::same(n, 7), |_i| 7;
        "diag.diag" u.diag().diag(), |i| x(i);
        "(u - f) + (v.map)" (u - make_vector_expr(n, |i| i as i64)) + v.wrap().map(|a| -a), |i| x(i) - i as i64 - y(i);
    }
    Ok(())
}

fn main() {
    let run = Run::new(
        "C12",
        "a case is a random composition of library operations (a tree with at least one vector operation at the \
         root) together with its leaves' contents; non-trivial if it has more than one node and is not empty",
    );
    for k in 0..V_KINDS {
        run.require(&format!("vector_node_{k}"), 50);
    }
    for k in ["Tok", "f64", "Zp", "Bytes", "Boxed"] {
        run.require(k, 1000);
    }
    run.cases("single", run.n(4000, 200_000), |r, l| {
        let n = r.size(40);
        any(r, l, n, 1)
    });
    run.cases("small", run.n(4000, 300_000), |r, l| {
        let n = r.below(6);
        let d = 2 + r.below(3);
        any(r, l, n, d)
    });
    run.cases("deep", run.n(300, 20_000), |r, l| {
        let n = r.below(5);
        let d = 5 + r.below(3);
        any(r, l, n, d)
    });
    run.cases("long", run.n(200, 10_000), |r, l| {
        let n = r.pick(&[16, 31, 33, 64, 65, 100, 128, 129, 255, 256, 257, 300]);
        any(r, l, n, 2)
    });
    run.require("huge_operations", 100);
    run.cases("huge-operations", run.n(1, 10), huge);
    run.cases("huge", run.n(4, 200), |r, l| {
        let n = r.pick(&[1000, 1023, 1025, 4096, 5000]);
        let m = gen_vec::<Tok>(r, n);
        let o = gen_vec::<Tok>(r, n);
        l.case(hash_str(&format!("huge{n}{:?}", m[0])), true);
        l.count("Tok", 1);
        l.max("length", n as u64);
        use magnesia::linalg::*;
        let c = dv(&m);
        let e = BV::new((dv(&m).wrap() + dv(&o)).map(|x| x.m_neg()) - c.conj());
        let w = m.iter().zip(&o).map(|(x, y)| x.m_add(y).m_neg().m_sub(&x.m_conj())).collect();
        check_vec(r, V { e, m: w, d: format!("neg(x+y)-conj(x), length {n}") })
    });
    run.finish()
}
