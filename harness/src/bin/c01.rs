//! C01: sum, difference, negation.
use num::rational::Ratio;
use num::Complex;
use rustnomial::{LinearBinomial, Polynomial, QuadraticTrinomial, SparsePolynomial};
use std::sync::Arc;
use vharness::coef::*;
use vharness::dom::*;
use vharness::engine::*;
use vharness::ensure;
use vharness::model::*;

fn add_forms<N: Ring>(ctx: &mut Ctx, av: &[i64], bv: &[i64]) -> R {
    let (a, b) = (dense::<N>(av), dense::<N>(bv));
    let s = red::<N>(add(&of_dense(av), &of_dense(bv)));
    if !fits::<N>(&s) {
        ctx.skip();
        return Ok(());
    }
    ctx.op(|| format!("dense {:?} + {:?}", a, b));
    chk(ctx, "dense a + b", &(a.dup() + b.dup2()), &s)?;
    ctx.op(|| "dense a += b".into());
    let mut c = a.dup();
    c += b.dup2();
    chk(ctx, "dense a += b", &c, &s)?;
    for (am, bm) in layouts(av, bv) {
        sparse_add::<N>(ctx, &am, &bm, &s)?;
    }
    Ok(())
}
type Map = Vec<(usize, i64)>;
/// The sparse forms of a pair: with the zeros stored as entries and without, as far as they differ.
fn layouts(a: &[i64], b: &[i64]) -> Vec<(Map, Map)> {
    let mut o = vec![(as_map(a), as_map(b))];
    let (za, zb) = (a.contains(&0), b.contains(&0));
    if za {
        o.push((stripped(a), as_map(b)));
    }
    if zb {
        o.push((as_map(a), stripped(b)));
    }
    if za && zb {
        o.push((stripped(a), stripped(b)));
    }
    o
}
fn sparse_add<N: Ring>(ctx: &mut Ctx, am: &[(usize, i64)], bm: &[(usize, i64)], s: &M) -> R {
    let (x, y) = (sparse::<N>(am), sparse::<N>(bm));
    ctx.op(|| format!("sparse {:?} + {:?}", x, y));
    chk(ctx, "sparse a + b", &(x.dup() + y.dup2()), s)?;
    ctx.op(|| "sparse a += b".into());
    let mut c = x.dup();
    c += y.dup2();
    chk(ctx, "sparse a += b", &c, s)
}
fn sparse_sub<N: SRing>(ctx: &mut Ctx, am: &[(usize, i64)], bm: &[(usize, i64)], d: &M) -> R {
    let (x, y) = (sparse::<N>(am), sparse::<N>(bm));
    ctx.op(|| format!("sparse {:?} - {:?}", x, y));
    chk(ctx, "sparse a - b", &(x.dup() - y.dup2()), d)?;
    ctx.op(|| "sparse a -= b".into());
    let mut c = x.dup();
    c -= y.dup2();
    chk(ctx, "sparse a -= b", &c, d)
}
fn sub_forms<N: SRing>(ctx: &mut Ctx, av: &[i64], bv: &[i64]) -> R {
    let (a, b) = (dense::<N>(av), dense::<N>(bv));
    let d = red::<N>(sub(&of_dense(av), &of_dense(bv)));
    if !fits::<N>(&d) || bv.iter().any(|&x| !N::fits(-(x as i128))) {
        ctx.skip();
        return Ok(());
    }
    ctx.op(|| format!("dense {:?} - {:?}", a, b));
    chk(ctx, "dense a - b", &(a.dup() - b.dup2()), &d)?;
    ctx.op(|| "dense a - &b".into());
    chk(ctx, "dense a - &b", &(a.dup() - &b), &d)?;
    ctx.op(|| "dense a -= b".into());
    let mut c = a.dup();
    c -= b.dup2();
    chk(ctx, "dense a -= b", &c, &d)?;
    ctx.op(|| "dense a -= &b".into());
    let mut c = a.dup();
    c -= &b;
    chk(ctx, "dense a -= &b", &c, &d)?;
    for (am, bm) in layouts(av, bv) {
        sparse_sub::<N>(ctx, &am, &bm, &d)?;
    }
    for am in [as_map(av), stripped(av)] {
        let x = sparse::<N>(&am);
        ctx.op(|| format!("sparse {:?} - dense b", x));
        chk(ctx, "sparse a - dense b", &(x - b.dup2()), &d)?;
    }
    Ok(())
}
fn neg_forms<N: SRing>(ctx: &mut Ctx, av: &[i64]) -> R {
    if av.iter().any(|&x| !N::fits(-(x as i128))) {
        ctx.skip();
        return Ok(());
    }
    let m = red::<N>(neg(&of_dense(av)));
    let a = dense::<N>(av);
    ctx.op(|| format!("-dense {:?}", a));
    chk(ctx, "-dense", &-a, &m)?;
    let x = sparse::<N>(&as_map(av));
    ctx.op(|| format!("-sparse {:?}", x));
    chk(ctx, "-sparse", &-x, &m)?;
    if av.len() == 1 {
        for deg in [0usize, 1, 2, 7, usize::MAX] {
            let x = mono::<N>(av[0], deg);
            ctx.op(|| format!("-{:?}", x));
            let m = red::<N>(norm([(deg, -av[0] as i128)]));
            chk(ctx, "-monomial", &-x, &m)?;
        }
    }
    if av.len() == 2 {
        let x = bi::<N>(av);
        ctx.op(|| format!("-{:?}", x));
        chk(ctx, "-binomial", &-x, &m)?;
    }
    if av.len() == 3 {
        let x = tri::<N>(av);
        ctx.op(|| format!("-{:?}", x));
        chk(ctx, "-trinomial", &-x, &m)?;
    }
    Ok(())
}
fn fixed_add<N: Ring>(ctx: &mut Ctx, av: &[i64], bv: &[i64]) -> R {
    let s = red::<N>(add(&of_dense(av), &of_dense(bv)));
    if !fits::<N>(&s) {
        ctx.skip();
        return Ok(());
    }
    ctx.op(|| format!("fixed {:?} + {:?}", av, bv));
    if av.len() == 2 {
        chk(ctx, "binomial a + b", &(bi::<N>(av) + bi::<N>(bv)), &s)?;
        ctx.op(|| "+=".into());
        let mut x = bi::<N>(av);
        x += bi::<N>(bv);
        chk(ctx, "binomial a += b", &x, &s)
    } else {
        chk(ctx, "trinomial a + b", &(tri::<N>(av) + tri::<N>(bv)), &s)?;
        ctx.op(|| "+=".into());
        let mut x = tri::<N>(av);
        x += tri::<N>(bv);
        chk(ctx, "trinomial a += b", &x, &s)
    }
}
fn fixed_sub<N: Ring>(ctx: &mut Ctx, av: &[i64], bv: &[i64]) -> R {
    let d = red::<N>(sub(&of_dense(av), &of_dense(bv)));
    if !fits::<N>(&d) || (N::SIGNED && bv.iter().any(|&x| !N::fits(-(x as i128)))) {
        ctx.skip();
        return Ok(());
    }
    ctx.op(|| format!("fixed {:?} - {:?}", av, bv));
    if av.len() == 2 {
        chk(ctx, "binomial a - b", &(bi::<N>(av) - bi::<N>(bv)), &d)?;
        ctx.op(|| "-=".into());
        let mut x = bi::<N>(av);
        x -= bi::<N>(bv);
        chk(ctx, "binomial a -= b", &x, &d)
    } else {
        chk(ctx, "trinomial a - b", &(tri::<N>(av) - tri::<N>(bv)), &d)?;
        ctx.op(|| "-=".into());
        let mut x = tri::<N>(av);
        x -= tri::<N>(bv);
        chk(ctx, "trinomial a -= b", &x, &d)
    }
}

fn pairs_add<N: Ring>(s: &mut Suites, name: &str, bounds: &str, dom: &Arc<Vec<Vec<i64>>>) {
    let d = dom.clone();
    let n = d.len();
    s.add(&format!("{} add {}", N::NAME, name), bounds, (n * n) as u64, move |c, i| {
        let (a, b) = split(i, n);
        add_forms::<N>(c, &d[a], &d[b])
    });
}
fn pairs_sub<N: SRing>(s: &mut Suites, name: &str, bounds: &str, dom: &Arc<Vec<Vec<i64>>>) {
    let d = dom.clone();
    let n = d.len();
    s.add(&format!("{} sub {}", N::NAME, name), bounds, (n * n) as u64, move |c, i| {
        let (a, b) = split(i, n);
        if b == 0 {
            neg_forms::<N>(c, &d[a])?;
        }
        sub_forms::<N>(c, &d[a], &d[b])
    });
}
fn fixed<N: Ring>(s: &mut Suites, vals: &[i64]) {
    let d: Arc<Vec<Vec<i64>>> = Arc::new(vecs_exact(2, vals));
    let n = d.len();
    s.add(&format!("{} binomial pairs", N::NAME), "all coefficient pairs", (n * n) as u64, move |c, i| {
        let (a, b) = split(i, n);
        fixed_add::<N>(c, &d[a], &d[b])?;
        fixed_sub::<N>(c, &d[a], &d[b])
    });
    let d: Arc<Vec<Vec<i64>>> = Arc::new(vecs_exact(3, vals));
    let n = d.len();
    s.add(&format!("{} trinomial pairs", N::NAME), "all coefficient triples", (n * n) as u64, move |c, i| {
        let (a, b) = split(i, n);
        fixed_add::<N>(c, &d[a], &d[b])?;
        fixed_sub::<N>(c, &d[a], &d[b])
    });
}

macro_rules! float_suite {
    ($s:expr, $t:ty, $vals:expr, $max:expr) => {{
        let vals: Vec<$t> = $vals;
        let mut all: Vec<Vec<$t>> = vec![vec![]];
        let mut last = all.clone();
        for _ in 0..$max {
            let mut nx = vec![];
            for v in &last {
                for &c in &vals {
                    let mut w = v.clone();
                    w.push(c);
                    nx.push(w);
                }
            }
            all.extend(nx.iter().cloned());
            last = nx;
        }
        let n = all.len();
        $s.add(
            concat!(stringify!($t), " fractional and extreme values"),
            "all vector pairs over fractional, huge, tiny and signed-zero values; the float sum/difference at each degree, exactly",
            (n * n) as u64,
            move |ctx, i| {
                let (a, b) = split(i, n);
                let (a, b) = (&all[a], &all[b]);
                let l = a.len().max(b.len());
                let at = |v: &Vec<$t>, d: usize| if d < v.len() { v[v.len() - 1 - d] } else { 0.0 };
                let sp = |v: &Vec<$t>| SparsePolynomial::<$t> { terms: v.iter().rev().cloned().enumerate().collect() };
                let de = |v: &Vec<$t>| Polynomial::<$t> { terms: v.clone() };
                let cmp = |ctx: &mut Ctx, what: &str, get: &dyn Fn(usize) -> $t, len: usize, minus: bool| -> R {
                    for d in 0..l.max(len) {
                        let w = if minus { at(a, d) - at(b, d) } else { at(a, d) + at(b, d) };
                        ctx.state(&(d, get(d).to_bits()));
                        ensure!(get(d) == w, "{}: {:?} and {:?} give {:?} at degree {}, not {:?}", what, a, b, get(d), d, w);
                    }
                    Ok(())
                };
                let dense_case = |ctx: &mut Ctx, what: &str, p: Polynomial<$t>, minus: bool| {
                    ctx.op(|| format!("{} of {:?} and {:?}", what, a, b));
                    cmp(ctx, what, &|d| at(&p.terms, d), p.terms.len(), minus)
                };
                dense_case(ctx, "dense +", de(a) + de(b), false)?;
                dense_case(ctx, "dense -", de(a) - de(b), true)?;
                dense_case(ctx, "dense - &", de(a) - &de(b), true)?;
                let mut x = de(a);
                x += de(b);
                dense_case(ctx, "dense +=", x, false)?;
                let mut x = de(a);
                x -= de(b);
                dense_case(ctx, "dense -=", x, true)?;
                let mut x = de(a);
                x -= &de(b);
                dense_case(ctx, "dense -= &", x, true)?;
                let sparse_case = |ctx: &mut Ctx, what: &str, p: SparsePolynomial<$t>, minus: bool| {
                    ctx.op(|| format!("{} of {:?} and {:?}", what, a, b));
                    cmp(ctx, what, &|d| p.terms.get(&d).cloned().unwrap_or(0.0), p.terms.keys().last().map_or(0, |x| x + 1), minus)
                };
                sparse_case(ctx, "sparse +", sp(a) + sp(b), false)?;
                sparse_case(ctx, "sparse -", sp(a) - sp(b), true)?;
                sparse_case(ctx, "sparse - dense", sp(a) - de(b), true)?;
                let mut x = sp(a);
                x += sp(b);
                sparse_case(ctx, "sparse +=", x, false)?;
                let mut x = sp(a);
                x -= sp(b);
                sparse_case(ctx, "sparse -=", x, true)?;
                if a.len() == 2 && b.len() == 2 {
                    let f = |v: &Vec<$t>| LinearBinomial::new([v[0], v[1]]);
                    let r = [f(a) + f(b), f(a) - f(b)];
                    for (k, r) in r.iter().enumerate() {
                        ctx.op(|| "binomial".into());
                        cmp(ctx, "binomial", &|d| r.coefficients[1 - d], 2, k == 1)?;
                    }
                }
                if a.len() == 3 && b.len() == 3 {
                    let f = |v: &Vec<$t>| QuadraticTrinomial::new([v[0], v[1], v[2]]);
                    let r = [f(a) + f(b), f(a) - f(b)];
                    for (k, r) in r.iter().enumerate() {
                        ctx.op(|| "trinomial".into());
                        cmp(ctx, "trinomial", &|d| r.coefficients[2 - d], 3, k == 1)?;
                    }
                }
                Ok(())
            },
        );
    }};
}

fn build(th: bool) -> Suites {
    let mut s = Suites::default();
    let small = Arc::new(vecs(if th { 5 } else { 4 }, &[0, 1, -1, 2, -2]));
    let bs = "every vector of length <=4 (thorough <=5) over {-2..2}, hence every pattern of stored zeros, against every other";
    pairs_add::<i32>(&mut s, "small", bs, &small);
    pairs_sub::<i32>(&mut s, "small", bs, &small);
    let pat = Arc::new(patterns(if th { 11 } else { 9 }, &[3, -5, 7, -11, 13, -17, 19, -23, 29, -31, 37]));
    let bp = "every zero/non-zero pattern of length <=9 (thorough <=11), distinct coefficients, against every other";
    pairs_add::<i64>(&mut s, "patterns", bp, &pat);
    pairs_sub::<i64>(&mut s, "patterns", bp, &pat);
    let long = Arc::new(long_one(if th { 64 } else { 34 }, 2));
    let bl = "every length <=34 (thorough <=64) with every position of a single non-zero, and all-non-zero, against every other";
    pairs_add::<f64>(&mut s, "long", bl, &long);
    pairs_sub::<f64>(&mut s, "long", bl, &long);
    let fa = Arc::new(full(lengths(if th { 300 } else { 130 }), 1));
    let bf = "every pair of lengths 0..=130 (thorough 300) and lengths around powers of two up to 1025, all coefficients non-zero";
    pairs_add::<i32>(&mut s, "lengths", bf, &fa);
    pairs_sub::<i32>(&mut s, "lengths", bf, &fa);
    let bk = Arc::new(pair_blocks(th));
    let bb = "every pair of vectors made of up to 3 alternating runs of zeros and non-zeros of lengths 1, 8, 33 (thorough more), or 2 of lengths 1, 65, 257, 1025";
    pairs_add::<i64>(&mut s, "runs", bb, &bk);
    pairs_sub::<i64>(&mut s, "runs", bb, &bk);
    // sparse maps with gaps, absent entries and explicit zeros
    let degs: &[usize] = if th { &[0, 1, 5, 1 << 40, usize::MAX] } else { &[0, 1, 5, usize::MAX] };
    let maps_ = Arc::new(maps(degs, &[0, 1, -1, 3]));
    let n = maps_.len();
    s.add(
        "i32 sparse maps",
        "every map over degrees {0,1,5,2^64-1} (thorough also 2^40), each absent, explicit zero or one of 3 values, against every other; also minus every dense polynomial",
        (n * n) as u64,
        move |c, i| {
            let (a, b) = split(i, n);
            let (a, b) = (&maps_[a], &maps_[b]);
            sparse_add::<i32>(c, a, b, &add(&of_map(a), &of_map(b)))?;
            sparse_sub::<i32>(c, a, b, &sub(&of_map(a), &of_map(b)))
        },
    );
    let ed = edge_degs();
    let n = ed.len();
    s.add("i64 edge degrees", "for every degree d around a power of two or ten up to 2^64-1: every map over degrees {0, d-1, d, d+1}, each absent or one of 2 cancelling values (thorough also explicit zero), against every other; every one negated", n as u64 * 3, move |c, i| {
        let (d, part) = split(i, 3);
        let l = around(ed[d], if th { &[3, -3, 0] } else { &[3, -3] });
        for (_, a) in l.iter().enumerate().filter(|x| x.0 % 3 == part) {
            let am = of_map(a);
            let x = sparse::<i64>(a);
            c.op(|| format!("-{:?}", x));
            chk(c, "-sparse", &-x, &neg(&am))?;
            if a.len() == 1 {
                let x = mono::<i64>(a[0].1, a[0].0);
                c.op(|| format!("-{:?}", x));
                chk(c, "-monomial", &-x, &neg(&am))?;
            }
            for b in &l {
                sparse_add::<i64>(c, a, b, &add(&am, &of_map(b)))?;
                sparse_sub::<i64>(c, a, b, &sub(&am, &of_map(b)))?;
            }
        }
        Ok(())
    });
    let hu = huge(th);
    let n = hu.len();
    s.add("i64 huge", "every pair of vectors of lengths 2^16 and 2^16+1 (thorough around 2^15, 2^16, 10^5, up to 2^20), full, with only the ends, only inner terms, or half leading zeros", (n * n) as u64, move |c, i| {
        let (a, b) = split(i, n);
        add_forms::<i64>(c, &hu[a], &hu[b])?;
        if b == 0 {
            neg_forms::<i64>(c, &hu[a])?;
        }
        sub_forms::<i64>(c, &hu[a], &hu[b])
    });
    let ms = maps(&[0, 1, 2, 6], &[0, 1, -2]);
    let dv = vecs(if th { 4 } else { 3 }, &[0, 1, -1, 2]);
    let nb = dv.len();
    s.add("i32 sparse minus dense", "every map over degrees {0,1,2,6} minus every dense vector of length <=3 (thorough <=4)", (ms.len() * nb) as u64, move |c, i| {
        let (a, b) = split(i, nb);
        let (x, y) = (sparse::<i32>(&ms[a]), dense::<i32>(&dv[b]));
        c.op(|| format!("{:?} - {:?}", x, y));
        chk(c, "sparse - dense", &(x - y), &sub(&of_map(&ms[a]), &of_dense(&dv[b])))
    });
    // every coefficient type
    let sg = Arc::new(vecs(3, &[0, 1, -1, 2]));
    let us = Arc::new(vecs(3, &[0, 1, 2, 3]));
    let bt = "every vector of length <=3 over 4 values against every other";
    macro_rules! signed {
        ($($t:ty),*) => {$( pairs_add::<$t>(&mut s, "types", bt, &sg); pairs_sub::<$t>(&mut s, "types", bt, &sg); fixed::<$t>(&mut s, &[0, 1, -1, 2]); )*};
    }
    signed!(i8, i16, i64, i128, isize, f32, f64, Gf<2>, Gf<3>, Gf<5>, Ratio<i64>, Complex<i32>);
    macro_rules! unsigned {
        ($($t:ty),*) => {$( pairs_add::<$t>(&mut s, "types", bt, &us); fixed::<$t>(&mut s, &[0, 1, 2, 5]); )*};
    }
    unsigned!(u8, u16, u32, u64, u128, usize);
    fixed::<i32>(&mut s, &[0, 1, -1, 2, -3, 7]);
    // extreme values of the narrow types
    let ex = |lo: i64, hi: i64| Arc::new(vecs(2, &[0, 1, -1, lo, lo + 1, hi, hi - 1, hi / 2, lo / 2]));
    let be = "every vector of length <=2 over {MIN,MIN+1,MIN/2,-1,0,1,MAX/2,MAX-1,MAX} against every other, results that fit";
    macro_rules! extreme {
        ($($t:ty),*) => {$( { let d = ex(<$t>::MIN as i64, <$t>::MAX as i64); pairs_add::<$t>(&mut s, "extreme", be, &d); pairs_sub::<$t>(&mut s, "extreme", be, &d); fixed::<$t>(&mut s, &[0, <$t>::MIN as i64, <$t>::MAX as i64, -1, 1]); } )*};
    }
    extreme!(i8, i16, i32, i64);
    let fl = if th { 4 } else { 3 };
    float_suite!(s, f64, vec![0.0, 0.1, -0.7, 1e300, 2.5e-310, -0.0], fl);
    float_suite!(s, f32, vec![0.0f32, 0.1, -0.7, 1e30, 1e-40, -0.0], fl);
    s.add("i64 every length", "for every length 0..=1300 (thorough 4200) and 35 lengths around round numbers and powers of two up to 32770, eight shapes (all non-zero; only the constant, leading or middle entry; one leading zero; all zero; alternating; leading half zero): a + b, a - b, -a with itself, its opposite, the vector one longer and one shorter, short vectors and a padded copy", every_count(if th { 4200 } else { 1300 }), |c, i| {
        let a = every_len(i);
        neg_forms::<i64>(c, &a)?;
        let mut pad = vec![0; 1 + a.len() % 5];
        pad.extend(&a);
        for b in [a.clone(), a.iter().map(|&x| -x).collect(), every_len(i + SHAPES), every_len(i.saturating_sub(SHAPES)), vec![], vec![4], vec![1, 0, 0], pad] {
            add_forms::<i64>(c, &a, &b)?;
            sub_forms::<i64>(c, &a, &b)?;
        }
        Ok(())
    });
    macro_rules! all_types {
        ($u:tt; $($t:ty),*) => {$(
            s.add(concat!(stringify!($t), " mid lengths"), "for every length 0..=140 (thorough 700), eight shapes (all non-zero; only the constant, leading or middle entry; one leading zero; all zero; alternating; leading half zero): sums (and, signed, differences and opposites) with itself, its opposite, the vector one and two longer, short vectors and a padded copy", mid_count(if th { 700 } else { 140 }), |c, i| {
                let a = mid_len(i, $u);
                let mut pad = vec![0; 1 + a.len() % 5];
                pad.extend(&a);
                for b in [a.clone(), a.iter().map(|&x| if $u { x } else { -x }).collect(), mid_len(i + SHAPES, $u), mid_len(i + 2 * SHAPES, $u), vec![], vec![4], vec![1, 0, 0], pad] {
                    add_forms::<$t>(c, &a, &b)?;
                    add_forms::<$t>(c, &b, &a)?;
                    all_types!(@ $u, $t, c, a, b);
                }
                Ok(())
            });
        )*};
        (@ true, $t:ty, $c:ident, $a:ident, $b:ident) => {};
        (@ false, $t:ty, $c:ident, $a:ident, $b:ident) => {
            sub_forms::<$t>($c, &$a, &$b)?;
            sub_forms::<$t>($c, &$b, &$a)?;
            neg_forms::<$t>($c, &$a)?;
        };
    }
    all_types!(false; i8, i16, i32, i128, isize, f32, f64, Ratio<i64>, Complex<i32>, Gf<7>);
    all_types!(true; u8, u16, u32, u64, u128, usize);
    s.add("i64 lifted", &format!("{}: sums, differences with itself, its opposite, the next length, the previous shape and a short one; opposites", LIFTED), lifted_count(), |c, i| {
        let a = lifted(i, false);
        let am = of_map(&a);
        let x = sparse::<i64>(&a);
        c.op(|| format!("-{:?}", x));
        chk(c, "-sparse", &-x, &neg(&am))?;
        for b in [a.clone(), a.iter().map(|x| (x.0, -x.1)).collect(), lifted(i + LIFT_LEN, false), lifted(i.saturating_sub(32), false), vec![(0, 2), (1, 1)]] {
            let bm = of_map(&b);
            sparse_add::<i64>(c, &a, &b, &add(&am, &bm))?;
            sparse_add::<i64>(c, &b, &a, &add(&am, &bm))?;
            sparse_sub::<i64>(c, &a, &b, &sub(&am, &bm))?;
            sparse_sub::<i64>(c, &b, &a, &sub(&bm, &am))?;
        }
        Ok(())
    });
    s.spare(&["small", "mid lengths"]);
    s
}
fn main() {
    vharness::engine::main(Prop {
        id: "C01",
        assumptions: &["coefficient arithmetic of the primitive, num and GF(p) types is right", "operands outside the enumerated shapes are not covered"],
        build,
    });
}
