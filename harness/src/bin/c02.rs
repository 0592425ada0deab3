//! C02: products, scalar multiples and quotients, powers.
use num::rational::Ratio;
use num::Complex;
use rustnomial::{Monomial, Polynomial, SparsePolynomial};
use std::sync::Arc;
use vharness::coef::*;
use vharness::dom::*;
use vharness::engine::*;
use vharness::ensure;
use vharness::model::*;

/// Every partial sum of the convolution is bounded by this; require it to fit.
fn mul_bound(a: &M, b: &M) -> i128 {
    let s = |m: &M| m.iter().map(|x| x.1.abs()).sum::<i128>();
    s(a).saturating_mul(max_abs(b)).max(s(b).saturating_mul(max_abs(a)))
}
fn dense_mul<N: Ring>(ctx: &mut Ctx, av: &[i64], bv: &[i64]) -> R {
    let (am, bm) = (of_dense(av), of_dense(bv));
    if !N::fits(mul_bound(&am, &bm)) {
        ctx.skip();
        return Ok(());
    }
    let (a, b) = (dense::<N>(av), dense::<N>(bv));
    let p = red::<N>(mul(&am, &bm));
    ctx.op(|| format!("dense {:?} * {:?}", a, b));
    chk(ctx, "dense a * b", &(a.dup() * b.dup2()), &p)?;
    ctx.op(|| "a * &b".into());
    chk(ctx, "dense a * &b", &(a.dup() * &b), &p)?;
    ctx.op(|| "&a * b".into());
    chk(ctx, "dense &a * b", &(&a * b.dup2()), &p)?;
    ctx.op(|| "&a * &b".into());
    chk(ctx, "dense &a * &b", &(&a * &b), &p)?;
    ctx.op(|| "a *= b".into());
    let mut c = a.dup();
    c *= b.dup2();
    chk(ctx, "dense a *= b", &c, &p)?;
    ctx.op(|| "a *= &b".into());
    let mut c = a.dup();
    c *= &b;
    chk(ctx, "dense a *= &b", &c, &p)?;
    if av == bv {
        ctx.op(|| "&a * &a, the same object".into());
        chk(ctx, "dense &a * &a", &(&a * &a), &p)?;
    }
    Ok(())
}
fn sparse_mul<N: Ring>(ctx: &mut Ctx, av: &[(usize, i64)], bv: &[(usize, i64)]) -> R {
    let (am, bm) = (of_map(av), of_map(bv));
    let top = |v: &[(usize, i64)]| v.iter().map(|x| x.0).max().unwrap_or(0);
    if !N::fits(mul_bound(&am, &bm)) || top(av).checked_add(top(bv)).is_none() {
        ctx.skip();
        return Ok(());
    }
    let (a, b) = (sparse::<N>(av), sparse::<N>(bv));
    let p = red::<N>(mul(&am, &bm));
    ctx.op(|| format!("sparse {:?} * {:?}", a, b));
    chk(ctx, "sparse a * b", &(a.dup() * b.dup2()), &p)?;
    ctx.op(|| "a * &b".into());
    chk(ctx, "sparse a * &b", &(a.dup() * &b), &p)?;
    ctx.op(|| "a.borrow_mul(&b)".into());
    chk(ctx, "sparse a.borrow_mul(&b)", &a.borrow_mul(&b), &p)?;
    ctx.op(|| "a *= b".into());
    let mut c = a.dup();
    c *= b.dup2();
    chk(ctx, "sparse a *= b", &c, &p)?;
    ctx.op(|| "a *= &b".into());
    let mut c = a.dup();
    c *= &b;
    chk(ctx, "sparse a *= &b", &c, &p)?;
    if av == bv {
        ctx.op(|| "a.borrow_mul(&a), the same object".into());
        chk(ctx, "sparse a.borrow_mul(&a)", &a.borrow_mul(&a), &p)?;
    }
    Ok(())
}
fn mono_mul<N: Ring>(ctx: &mut Ctx, a: (i64, usize), b: (i64, usize)) -> R {
    if a.1.checked_add(b.1).is_none() || !N::fits(a.0 as i128 * b.0 as i128) {
        ctx.skip();
        return Ok(());
    }
    let p = red::<N>(norm([(a.1 + b.1, a.0 as i128 * b.0 as i128)]));
    let (x, y) = (mono::<N>(a.0, a.1), mono::<N>(b.0, b.1));
    ctx.op(|| format!("{:?} * {:?}", x, y));
    chk(ctx, "monomial a * b", &(x.dup() * y.dup2()), &p)?;
    ctx.op(|| "a * &b".into());
    chk(ctx, "monomial a * &b", &(x.dup() * &y), &p)?;
    ctx.op(|| "a *= b".into());
    let mut c = x.dup();
    c *= y.dup2();
    chk(ctx, "monomial a *= b", &c, &p)?;
    ctx.op(|| "a *= &b".into());
    let mut c = x.dup();
    c *= &y;
    chk(ctx, "monomial a *= &b", &c, &p)
}
fn scalar<N: Ring>(ctx: &mut Ctx, av: &[i64], k: i64) -> R {
    let am = of_dense(av);
    let kn = N::mk(k as i128);
    if max_abs(&am) == 0 || fits::<N>(&scale(&am, k as i128)) {
        let p = red::<N>(scale(&am, k as i128));
        let a = dense::<N>(av);
        ctx.op(|| format!("dense {:?} * {}", a, k));
        chk(ctx, "dense a * k", &(a.dup() * kn), &p)?;
        ctx.op(|| "a *= k".into());
        let mut c = a;
        c *= kn;
        chk(ctx, "dense a *= k", &c, &p)?;
        let a = sparse::<N>(&as_map(av));
        ctx.op(|| format!("sparse {:?} * {}", a, k));
        chk(ctx, "sparse a * k", &(a.dup() * kn), &p)?;
        ctx.op(|| "a *= k".into());
        let mut c = a;
        c *= kn;
        chk(ctx, "sparse a *= k", &c, &p)?;
        if av.len() == 2 {
            ctx.op(|| format!("binomial {:?} * {}", av, k));
            chk(ctx, "binomial a * k", &(bi::<N>(av) * kn), &p)?;
            ctx.op(|| "a *= k".into());
            let mut c = bi::<N>(av);
            c *= kn;
            chk(ctx, "binomial a *= k", &c, &p)?;
        }
        if av.len() == 3 {
            ctx.op(|| format!("trinomial {:?} * {}", av, k));
            chk(ctx, "trinomial a * k", &(tri::<N>(av) * kn), &p)?;
            ctx.op(|| "a *= k".into());
            let mut c = tri::<N>(av);
            c *= kn;
            chk(ctx, "trinomial a *= k", &c, &p)?;
        }
        if av.len() == 1 {
            for deg in [0usize, 1, 5, usize::MAX] {
                let w = red::<N>(norm([(deg, av[0] as i128 * k as i128)]));
                ctx.op(|| format!("monomial {}x^{} * {}", av[0], deg, k));
                chk(ctx, "monomial a * k", &(mono::<N>(av[0], deg) * kn), &w)?;
                let mut c = mono::<N>(av[0], deg);
                ctx.op(|| "a *= k".into());
                c *= kn;
                chk(ctx, "monomial a *= k", &c, &w)?;
            }
        }
    }
    // quotients: truncating for integers; only exact ones for floats, rationals and finite fields
    if N::red(k as i128) == 0 {
        return Ok(());
    }
    let truncating = N::NAME.starts_with('i') || N::NAME.starts_with('u');
    if !truncating && am.iter().any(|x| x.1 % k as i128 != 0) {
        return Ok(());
    }
    if !fits::<N>(&divs(&am, k as i128)) {
        return Ok(());
    }
    let q = red::<N>(divs(&am, k as i128));
    let a = dense::<N>(av);
    ctx.op(|| format!("dense {:?} / {}", a, k));
    chk(ctx, "dense a / k", &(a.dup() / kn), &q)?;
    ctx.op(|| "a /= k".into());
    let mut c = a;
    c /= kn;
    chk(ctx, "dense a /= k", &c, &q)?;
    let a = sparse::<N>(&as_map(av));
    ctx.op(|| format!("sparse {:?} / {}", a, k));
    chk(ctx, "sparse a / k", &(a.dup() / kn), &q)?;
    ctx.op(|| "a /= k".into());
    let mut c = a;
    c /= kn;
    chk(ctx, "sparse a /= k", &c, &q)?;
    if av.len() == 2 {
        ctx.op(|| format!("binomial {:?} / {}", av, k));
        chk(ctx, "binomial a / k", &(bi::<N>(av) / kn), &q)?;
        let mut c = bi::<N>(av);
        ctx.op(|| "a /= k".into());
        c /= kn;
        chk(ctx, "binomial a /= k", &c, &q)?;
    }
    if av.len() == 3 {
        ctx.op(|| format!("trinomial {:?} / {}", av, k));
        chk(ctx, "trinomial a / k", &(tri::<N>(av) / kn), &q)?;
        let mut c = tri::<N>(av);
        ctx.op(|| "a /= k".into());
        c /= kn;
        chk(ctx, "trinomial a /= k", &c, &q)?;
    }
    if av.len() == 1 {
        for deg in [0usize, 1, 5, usize::MAX] {
            let w: M = q.iter().map(|x| (deg, x.1)).collect();
            ctx.op(|| format!("monomial {}x^{} / {}", av[0], deg, k));
            chk(ctx, "monomial a / k", &(mono::<N>(av[0], deg) / kn), &w)?;
            let mut c = mono::<N>(av[0], deg);
            ctx.op(|| "a /= k".into());
            c /= kn;
            chk(ctx, "monomial a /= k", &c, &w)?;
        }
    }
    Ok(())
}
/// Scalar multiples and quotients of a map (and of a one-entry map as a monomial).
fn map_scalar<N: Ring>(ctx: &mut Ctx, v: &[(usize, i64)], k: i64) -> R {
    let m = of_map(v);
    let kn = N::mk(k as i128);
    let a = sparse::<N>(v);
    let single = if v.len() == 1 { Some(mono::<N>(v[0].1, v[0].0)) } else { None };
    let w = scale(&m, k as i128);
    if fits::<N>(&w) {
        ctx.op(|| format!("sparse {:?} * {}", a, k));
        chk(ctx, "sparse a * k", &(a.dup() * kn), &w)?;
        let mut c = a.dup();
        ctx.op(|| "a *= k".into());
        c *= kn;
        chk(ctx, "sparse a *= k", &c, &w)?;
        if let Some(x) = &single {
            ctx.op(|| format!("{:?} * {}", x, k));
            chk(ctx, "monomial a * k", &(x.dup() * kn), &w)?;
            let mut c = x.dup();
            ctx.op(|| "a *= k".into());
            c *= kn;
            chk(ctx, "monomial a *= k", &c, &w)?;
        }
    }
    if k != 0 {
        let w = divs(&m, k as i128);
        ctx.op(|| format!("sparse {:?} / {}", a, k));
        chk(ctx, "sparse a / k", &(a.dup() / kn), &w)?;
        let mut c = a;
        ctx.op(|| "a /= k".into());
        c /= kn;
        chk(ctx, "sparse a /= k", &c, &w)?;
        if let Some(x) = &single {
            ctx.op(|| format!("{:?} / {}", x, k));
            chk(ctx, "monomial a / k", &(x.dup() / kn), &w)?;
            let mut c = x.dup();
            ctx.op(|| "a /= k".into());
            c /= kn;
            chk(ctx, "monomial a /= k", &c, &w)?;
        }
    }
    Ok(())
}
fn pow_bound(a: &M, n: usize) -> i128 {
    let s = a.iter().map(|x| x.1.abs()).sum::<i128>();
    let mut r: i128 = 1;
    for _ in 0..n {
        r = r.saturating_mul(s);
    }
    r
}
fn pow_dense<N: Ring>(ctx: &mut Ctx, av: &[i64], n: usize) -> R {
    let am = red::<N>(of_dense(av));
    let finite = N::NAME.starts_with("GF");
    if !finite && !N::fits(pow_bound(&am, n)) {
        ctx.skip();
        return Ok(());
    }
    let mut p: M = vec![(0, 1)];
    for _ in 0..n {
        p = red::<N>(mul(&p, &am));
    }
    let a = dense::<N>(av);
    ctx.op(|| format!("dense {:?}.pow({})", a, n));
    chk(ctx, "dense pow", &a.pow(n), &p)?;
    for map in [as_map(av), stripped(av)] {
        let a = sparse::<N>(&map);
        ctx.op(|| format!("sparse {:?}.pow({})", a, n));
        chk(ctx, "sparse pow", &a.pow(n), &p)?;
    }
    Ok(())
}
fn mpow<N: Co>(ctx: &mut Ctx, f: &dyn Fn(&Monomial<N>, usize) -> Monomial<N>, c: i64, d: usize, n: usize) -> R {
    let (Some(dn), Some(cn)) = (d.checked_mul(n), ipow(c as i128, n)) else {
        ctx.skip();
        return Ok(());
    };
    if !N::fits(cn) || (N::FLOAT && cn.abs() > 1 << 24) {
        ctx.skip();
        return Ok(());
    }
    let a = mono::<N>(c, d);
    ctx.op(|| format!("{:?}.pow({})", a, n));
    chk(ctx, "monomial pow", &f(&a, n), &norm([(dn, cn)]))
}

fn pairs<N: Ring>(s: &mut Suites, name: &str, bounds: &str, dom: &Arc<Vec<Vec<i64>>>) {
    let d = dom.clone();
    let n = d.len();
    s.add(&format!("{} {}", N::NAME, name), bounds, (n * n) as u64, move |c, i| {
        let (a, b) = split(i, n);
        both_mul::<N>(c, &d[a], &d[b])
    });
}
/// Dense product and the sparse products of the forms with and without stored zeros.
fn both_mul<N: Ring>(c: &mut Ctx, a: &[i64], b: &[i64]) -> R {
    dense_mul::<N>(c, a, b)?;
    sparse_mul::<N>(c, &as_map(a), &as_map(b))?;
    if a.contains(&0) || b.contains(&0) {
        sparse_mul::<N>(c, &stripped(a), &stripped(b))?;
    }
    Ok(())
}
fn products<N: Ring>(s: &mut Suites, name: &str, bounds: &str, da: Vec<Vec<i64>>, db: Vec<Vec<i64>>) {
    let n = db.len();
    s.add(&format!("{} {}", N::NAME, name), bounds, (da.len() * n) as u64, move |c, i| {
        let (a, b) = split(i, n);
        both_mul::<N>(c, &da[a], &db[b])?;
        both_mul::<N>(c, &db[b], &da[a])
    });
}
fn scalars<N: Ring>(s: &mut Suites, dom: &Arc<Vec<Vec<i64>>>, ks: &[i64]) {
    let d = dom.clone();
    let ks = ks.to_vec();
    let n = ks.len();
    s.add(&format!("{} scalars", N::NAME), "every vector times/over every scalar, all representations, products that fit", (d.len() * n) as u64, move |c, i| {
        let (a, k) = split(i, n);
        scalar::<N>(c, &d[a], ks[k])
    });
}
fn pows<N: Ring>(s: &mut Suites, dom: Vec<Vec<i64>>, maxn: usize) {
    s.add(
        &format!("{} powers", N::NAME),
        "every vector to every exponent up to the bound, against repeated multiplication in the model",
        (dom.len() * (maxn + 1)) as u64,
        move |c, i| {
            let (a, n) = split(i, maxn + 1);
            pow_dense::<N>(c, &dom[a], n)
        },
    );
}
macro_rules! mono_suites {
    ($s:expr; $($t:ty: $cs:expr),*) => {$({
        let cs: Vec<i64> = $cs.to_vec();
        let ds = [0usize, 1, 2, 3, 5, 8, 1 << 31, (1 << 32) + 1, 1 << 62, usize::MAX / 2, usize::MAX];
        let all: Vec<(i64, usize)> = cs.iter().flat_map(|&c| ds.iter().map(move |&d| (c, d))).collect();
        let n = all.len();
        let a2 = all.clone();
        $s.add(concat!(stringify!($t), " monomial products"), "every pair of coefficients and degrees (0..2^64-1), products that fit", (n * n) as u64, move |c, i| {
            let (a, b) = split(i, n);
            mono_mul::<$t>(c, a2[a], a2[b])
        });
        let maxn = 24;
        let mut small = cs.clone();
        small.extend([2, 3]);
        let all: Vec<(i64, usize)> = small.iter().flat_map(|&c| ds.iter().map(move |&d| (c, d))).collect();
        $s.add(concat!(stringify!($t), " monomial powers"), "every coefficient and degree to every exponent <=24, results that fit", (all.len() * (maxn + 1)) as u64, move |c, i| {
            let (a, e) = split(i, maxn + 1);
            mpow::<$t>(c, &|m, e| m.pow(e), all[a].0, all[a].1, e)
        });
    })*};
}

macro_rules! float_scalars {
    ($s:expr, $t:ty) => {{
        let vals: Vec<$t> = vec![0.0, 0.1, -0.7, 3.0, 1e30, -1e-30, 1.0 / 3.0];
        let n = vals.len();
        $s.add(concat!(stringify!($t), " fractional scalars"), "every pair of coefficients times and over every scalar: the float product/quotient of each coefficient", (n * n * n) as u64, move |ctx, i| {
            let (a, b, k) = split3(i, n, n);
            let (a, b, k) = (vals[a], vals[b], vals[k]);
            let tol = 4.0 * <$t>::EPSILON;
            let near = |x: $t, y: $t| (x - y).abs() <= tol * y.abs() || x == y;
            let p = Polynomial { terms: vec![a, b] };
            let sp = SparsePolynomial { terms: [(7usize, a), (2, b)].into_iter().collect() };
            ctx.op(|| format!("{:?} times {}", p, k));
            let get = |p: &Polynomial<$t>, d: usize| if d < p.terms.len() { p.terms[p.terms.len() - 1 - d] } else { 0.0 };
            let gets = |p: &SparsePolynomial<$t>, d: usize| p.terms.get(&d).cloned().unwrap_or(0.0);
            let mut q = p.dup();
            q *= k;
            let r = p.dup() * k;
            for x in [&q, &r] {
                ctx.state(&(x.terms.iter().map(|c| c.to_bits()).collect::<Vec<_>>()));
                ensure!(near(get(x, 1), a * k) && near(get(x, 0), b * k), "dense {:?} * {} = {:?}", p, k, x);
            }
            ctx.op(|| "sparse".into());
            let mut q = sp.clone();
            q *= k;
            let r = sp.clone() * k;
            for x in [&q, &r] {
                ensure!(near(gets(x, 7), a * k) && near(gets(x, 2), b * k), "sparse {:?} * {} = {:?}", sp, k, x);
            }
            if k != 0.0 {
                ctx.op(|| format!("{:?} over {}", p, k));
                let mut q = p.dup();
                q /= k;
                let r = p.dup() / k;
                for x in [&q, &r] {
                    ensure!(near(get(x, 1), a / k) && near(get(x, 0), b / k), "dense {:?} / {} = {:?}", p, k, x);
                }
                ctx.op(|| "sparse".into());
                let mut q = sp.clone();
                q /= k;
                let r = sp.clone() / k;
                for x in [&q, &r] {
                    ensure!(near(gets(x, 7), a / k) && near(gets(x, 2), b / k), "sparse {:?} / {} = {:?}", sp, k, x);
                }
            }
            Ok(())
        });
    }};
}

macro_rules! float_products {
    ($s:expr, $t:ty, $vals:expr, $low:expr) => {{
        let all = any_vecs::<$t>(3, &$vals);
        let n = all.len();
        $s.add(concat!(stringify!($t), " tiny, huge and fractional products"), "every pair of vectors of length <= 3 over 6 values from 1e-13 to 1e15: each coefficient of the product to rounding, dense and sparse, squares and cubes by pow", (n * n) as u64, move |ctx, i| {
            let (a, b) = split(i, n);
            let (a, b) = (&all[a], &all[b]);
            let conv = |a: &[$t], b: &[$t]| {
                let mut w = vec![(0.0f64, 0.0f64); (a.len() + b.len()).max(1) - 1];
                for (i, &x) in a.iter().enumerate() {
                    for (j, &y) in b.iter().enumerate() {
                        let p = x as f64 * y as f64;
                        w[i + j].0 += p;
                        w[i + j].1 += p.abs();
                    }
                }
                w
            };
            let at = |v: &[$t], d: usize| if d < v.len() { v[v.len() - 1 - d] as f64 } else { 0.0 };
            let judge = |what: &str, w: &[(f64, f64)], get: &dyn Fn(usize) -> f64, len: usize, tol: f64| -> R {
                for d in 0..len.max(w.len()) {
                    let (v, m) = if d < w.len() { w[w.len() - 1 - d] } else { (0.0, 0.0) };
                    let g = get(d);
                    ensure!((g - v).abs() <= tol * m, "{}: {:?} and {:?} give {} at degree {}, not {}", what, a, b, g, d, v);
                }
                Ok(())
            };
            let eps = <$t>::EPSILON as f64;
            let w = conv(a, b);
            let (x, y) = (Polynomial { terms: a.dup() }, Polynomial { terms: b.dup2() });
            let sp = |v: &[$t]| SparsePolynomial { terms: v.iter().rev().cloned().enumerate().filter(|x| x.1 != 0.0).collect() };
            let (p, q) = (sp(a), sp(b));
            ctx.op(|| format!("{:?} * {:?}", x, y));
            let mut z = x.dup();
            z *= y.dup2();
            let mut zr = x.dup();
            zr *= &y;
            for r in [&x.dup() * &y, x.dup() * y.dup2(), x.dup() * &y, &x * y.dup2(), z, zr] {
                ctx.state(&(r.terms.iter().map(|c| c.to_bits()).collect::<Vec<_>>()));
                judge("dense product", &w, &|d| at(&r.terms, d), r.terms.len(), 16.0 * eps)?;
            }
            ctx.op(|| "sparse".into());
            let mut z = p.dup();
            z *= q.dup2();
            let mut zr = p.dup();
            zr *= &q;
            for r in [p.dup() * q.dup2(), p.dup() * &q, p.borrow_mul(&q), z, zr] {
                judge("sparse product", &w, &|d| r.terms.get(&d).map_or(0.0, |&c| c as f64), r.terms.keys().last().map_or(0, |x| x + 1), 16.0 * eps)?;
            }
            if i % n as u64 == 0 {
                let two = conv(a, a);
                ctx.op(|| format!("{:?}.pow(2)", x));
                let (r, t) = (x.pow(2), p.pow(2));
                judge("dense square", &two, &|d| at(&r.terms, d), r.terms.len(), 16.0 * eps)?;
                judge("sparse square", &two, &|d| t.terms.get(&d).map_or(0.0, |&c| c as f64), t.terms.keys().last().map_or(0, |x| x + 1), 16.0 * eps)?;
            }
            Ok(())
        });
    }};
}
fn build(th: bool) -> Suites {
    let mut s = Suites::default();
    let small = Arc::new(vecs(if th { 5 } else { 4 }, &[0, 1, -1, 2, -2]));
    pairs::<i32>(&mut s, "products small", "every vector of length <=4 (thorough <=5) over {-2..2}, hence every pattern of stored zeros, times every other", &small);
    let pat = Arc::new(patterns(if th { 11 } else { 9 }, &[3, -5, 7, -11, 13, -17, 19, -23, 29, -31, 37]));
    pairs::<i64>(&mut s, "products patterns", "every zero/non-zero pattern of length <=9 (thorough <=11), distinct coefficients, times every other", &pat);
    let long = Arc::new(long_one(if th { 40 } else { 20 }, 2));
    pairs::<f64>(&mut s, "products long", "every length <=20 (thorough <=40) with every position of a single non-zero, and all-non-zero, times every other", &long);
    let fa = Arc::new(full(lengths(if th { 120 } else { 60 }).into_iter().filter(|&x| x < 600), 1));
    pairs::<i32>(&mut s, "products lengths", "every pair of lengths 0..=60 (thorough 120), and around 256 and 512, all coefficients non-zero", &fa);
    products::<i64>(&mut s, "products of runs", "every pair of vectors made of up to 3 alternating runs of zeros and non-zeros of lengths 1, 2, 8, 17, 33 (thorough more), both orders", blocks(if th { &[1, 2, 7, 8, 16, 33, 65] } else { &[1, 8, 17, 33] }, 3), blocks(&[1, 2, 8, 33], 3));
    products::<i64>(&mut s, "products of long runs", "every vector made of alternating runs with lengths around every power of two up to 1025 (and 2000, 4096) times short vectors, both orders", long_blocks(th), vec![vec![3], vec![1, 0], vec![0, 2, -3], vec![1, 0, 0, 5], vec![2; 9], full([33], 2).remove(0)]);
    products::<i64>(&mut s, "products of long vectors", "every pair of vectors of up to 2 runs of lengths 1, 65, 257, 513", blocks(&[1, 65, 257, 513], 2), blocks(&[1, 65, 257, 513], 2));
    let degs: &[usize] = if th { &[0, 1, 5, 1 << 40, usize::MAX / 2] } else { &[0, 1, 5, usize::MAX / 2] };
    let ms = maps(degs, &[0, 1, -1, 3]);
    let n = ms.len();
    s.add("i32 sparse maps", "every map over degrees {0,1,5,2^63-1} (thorough also 2^40), each absent, explicit zero or one of 3 values, times every other", (n * n) as u64, move |c, i| {
        let (a, b) = split(i, n);
        sparse_mul::<i32>(c, &ms[a], &ms[b])
    });
    let ed = edge_degs();
    s.add("i64 edge degrees", "for every degree d around a power of two or ten up to 2^64-1: every map over degrees {0, d-1, d, d+1}, each absent or one of 2 values (thorough also explicit zero), times every map over {0, 1, 2, 4} (and in the other order), times and over 6 scalars, squared and cubed; two single terms of every pair of such degrees", ed.len() as u64, move |c, i| {
        let d = ed[i as usize];
        let l = around(d, if th { &[3, -2, 0] } else { &[3, -2] });
        let r = maps(&[0, 1, 2, 4], if th { &[1, -5, 0] } else { &[1, -5] });
        for a in &l {
            for k in [0, 1, -1, 2, -3, 7] {
                map_scalar::<i64>(c, a, k)?;
            }
            for b in &r {
                sparse_mul::<i64>(c, a, b)?;
                sparse_mul::<i64>(c, b, a)?;
            }
            let top = a.iter().map(|x| x.0).max().unwrap_or(0);
            for e in 0..4 {
                if top.checked_mul(e).is_some() {
                    let x = sparse::<i64>(a);
                    c.op(|| format!("{:?}.pow({})", x, e));
                    chk(c, "sparse pow", &x.pow(e), &pow(&of_map(a), e))?;
                }
            }
        }
        for &b in &ed {
            sparse_mul::<i64>(c, &[(d, 3)], &[(b, -7)])?;
            mono_mul::<i64>(c, (3, d), (-7, b))?;
        }
        for e in 0..70 {
            mpow::<i64>(c, &|m, e| m.pow(e), -1, d, e)?;
            mpow::<i64>(c, &|m, e| m.pow(e), 2, d, e)?;
        }
        Ok(())
    });
    let hu: Vec<Vec<i64>> = huge(th).into_iter().filter(|v| v.len() < 140_000).collect();
    s.add("i64 huge", "vectors of lengths 2^16 and 2^16+1 (thorough around 2^15, 2^16, 10^5, up to 2^17) times and over scalars, and times short polynomials in both orders, dense and sparse", hu.len() as u64, move |c, i| {
        let a = &hu[i as usize];
        for k in [-2, 3] {
            scalar::<i64>(c, a, k)?;
        }
        for b in [&[3][..], &[1, 0, 0], &[2, -1], &[0, 0, 5, 7]] {
            dense_mul::<i64>(c, a, b)?;
            dense_mul::<i64>(c, b, a)?;
            sparse_mul::<i64>(c, &stripped(a), &as_map(b))?;
            sparse_mul::<i64>(c, &as_map(b), &stripped(a))?;
        }
        Ok(())
    });
    let sg = Arc::new(vecs(3, &[0, 1, -1, 2]));
    let us = Arc::new(vecs(3, &[0, 1, 2, 3]));
    let sc = Arc::new(vecs(if th { 4 } else { 3 }, &[0, 1, -1, 2, -3, 12]));
    let usc = Arc::new(vecs(if th { 4 } else { 3 }, &[0, 1, 2, 3, 12]));
    let ks = [0, 1, -1, 2, -2, 3, -5, 10];
    let uks = [0, 1, 2, 3, 10];
    macro_rules! signed {
        ($($t:ty),*) => {$( pairs::<$t>(&mut s, "products types", "every vector of length <=3 over 4 values times every other", &sg); scalars::<$t>(&mut s, &sc, &ks); pows::<$t>(&mut s, vecs(3, &[0, 1, -1, 2]), 6); )*};
    }
    signed!(i8, i16, i32, i64, i128, isize, f32, f64, Gf<2>, Gf<3>, Gf<5>, Ratio<i64>, Complex<i32>);
    macro_rules! unsigned {
        ($($t:ty),*) => {$( pairs::<$t>(&mut s, "products types", "every vector of length <=3 over 4 values times every other", &us); scalars::<$t>(&mut s, &usc, &uks); pows::<$t>(&mut s, vecs(3, &[0, 1, 2]), 6); )*};
    }
    unsigned!(u8, u16, u32, u64, u128, usize);
    // extreme scalars
    let exs = Arc::new(vecs(3, &[0, 1, -1, 127, -128, 64]));
    scalars::<i8>(&mut s, &exs, &[1, -1, 2, -2, 127, -128, 0]);
    // higher exponents
    pows::<i128>(&mut s, vecs(if th { 4 } else { 3 }, &[0, 1, -1, 2]), if th { 40 } else { 24 });
    pows::<Gf<2>>(&mut s, vecs(if th { 6 } else { 5 }, &[0, 1]), if th { 70 } else { 34 });
    pows::<Gf<3>>(&mut s, vecs(if th { 4 } else { 3 }, &[0, 1, 2]), if th { 40 } else { 20 });
    pows::<i64>(&mut s, vec![vec![], vec![0], vec![1], vec![0, 0, 0], vec![1, 0], vec![0, 1, 0], vec![1, 1], vec![-1]], if th { 60 } else { 36 });
    mono_suites!(s; i8: [0, 1, -1, 5, 11, -128], i16: [0, 1, -1, 100], i32: [0, 1, -1, 1000], i64: [0, 1, -1, 1000], i128: [0, 1, -1, 99], isize: [0, 1, -1, 99],
        u8: [0, 1, 15], u16: [0, 1, 255], u32: [0, 1, 255], u64: [0, 1, 255], u128: [0, 1, 255], usize: [0, 1, 255], f32: [0, 1, -1, 5], f64: [0, 1, -1, 5]);
    float_scalars!(s, f64);
    float_scalars!(s, f32);
    s.add("i64 every length", "for every length 0..=1300 (thorough 4200) and 35 lengths around round numbers and powers of two up to 32770, eight shapes (all non-zero; only the constant, leading or middle entry; one leading zero; all zero; alternating; leading half zero): times and over scalars, times short vectors in both orders, squared up to length 300", every_count(if th { 4200 } else { 1300 }), move |c, i| {
        let a = every_len(i);
        for k in [-2, 3] {
            scalar::<i64>(c, &a, k)?;
        }
        for b in [&[3][..], &[2, -1], &[1, 0, 0, 5]] {
            dense_mul::<i64>(c, &a, b)?;
            dense_mul::<i64>(c, b, &a)?;
            sparse_mul::<i64>(c, &stripped(&a), &as_map(b))?;
            sparse_mul::<i64>(c, &as_map(b), &as_map(&a))?;
        }
        if a.len() <= if th { 300 } else { 120 } {
            dense_mul::<i64>(c, &a, &a)?;
            sparse_mul::<i64>(c, &stripped(&a), &stripped(&a))?;
        }
        Ok(())
    });
    float_products!(s, f64, [0.0, 0.1, -2.5, 1e-13, 1e100, -1e-100], 0);
    float_products!(s, f32, [0.0f32, 0.1, -2.5, 1e-9, 1e12, -1e-12], 0);
    macro_rules! all_types {
        ($u:expr; $($t:ty),*) => {$(
            s.add(concat!(stringify!($t), " mid lengths"), "for every length 0..=100 (thorough 400), eight shapes (all non-zero; only the constant, leading or middle entry; one leading zero; all zero; alternating; leading half zero): times scalars and times short vectors in both orders", mid_count(if th { 400 } else { 100 }), |c, i| {
                let a = mid_len(i, $u);
                for k in [if $u { 2 } else { -2 }, 3] {
                    scalar::<$t>(c, &a, k)?;
                }
                let bs: [&[i64]; 4] = if $u { [&[3], &[2, 1], &[1, 0, 0, 5], &[0, 1, 1, 1, 1, 1, 1, 1]] } else { [&[3], &[2, -1], &[1, 0, 0, 5], &[0, 1, 1, -1, 1, 1, -1, 1]] };
                for b in bs {
                    dense_mul::<$t>(c, &a, b)?;
                    dense_mul::<$t>(c, b, &a)?;
                    sparse_mul::<$t>(c, &stripped(&a), &as_map(b))?;
                    sparse_mul::<$t>(c, &as_map(b), &as_map(&a))?;
                }
                Ok(())
            });
        )*};
    }
    all_types!(false; i8, i16, i32, i128, isize, f32, f64, Ratio<i64>, Complex<i32>, Gf<7>);
    all_types!(true; u8, u16, u32, u64, u128, usize);
    // large exponents of polynomials whose powers stay small
    s.add("large powers", "the exponents 0..=1100 (thorough 5000) and around powers of two and ten: 0, 1, -1 in i64; x, -x^2, x^3 with stored zeros (exponents up to 20000, sparse all that fit); x + 1 over GF(2), x^2 + 2 over GF(3) (exponents up to 300, thorough 1100)", if th { 5001 } else { 1101 } + edge_degs().len() as u64, move |c, i| {
        let top = if th { 5001 } else { 1101 };
        let e = if i < top { i as usize } else { edge_degs()[(i - top) as usize] };
        let vs: &[&[i64]] = if e <= 20_000 { &[&[], &[0], &[1], &[-1], &[0, 1], &[1, 0], &[0, 0, -1, 0, 0], &[1, 0, 0, 0]] } else { &[&[], &[0], &[1], &[-1], &[0, 1]] };
        for v in vs {
            // at most one term, with coefficient 1 or -1
            let m: M = match of_dense(v).first() {
                _ if e == 0 => vec![(0, 1)],
                None => vec![],
                Some(&(d, k)) => vec![(d * e, if e % 2 == 0 { 1 } else { k })],
            };
            let a = dense::<i64>(v);
            c.op(|| format!("dense {:?}.pow({})", a, e));
            chk(c, "dense pow", &a.pow(e), &m)?;
        }
        if e <= if th { 1100 } else { 300 } {
            pow_dense::<Gf<2>>(c, &[1, 1], e)?;
            pow_dense::<Gf<3>>(c, &[1, 0, 2], e)?;
        }
        for (k, d) in [(1i64, 1usize), (-1, 2), (1, 3), (-1, 0), (0, 2)] {
            let Some(f) = d.checked_mul(e) else { continue };
            let m = norm([(f, if e % 2 == 0 && e > 0 { (k * k) as i128 } else if e == 0 { 1 } else { k as i128 })]);
            c.op(|| format!("({}x^{})^{}, sparse and monomial", k, d, e));
            let p = SparsePolynomial::<i64>::new([(d, k)].into_iter().collect()).pow(e);
            ensure!(of_map(&p.terms.iter().map(|x| (*x.0, *x.1)).collect::<Vec<_>>()) == m, "({}x^{})^{} is {:?}", k, d, e, p);
            if e > 0 {
                let p = Monomial::<i64>::new(k, d).pow(e);
                ensure!(norm([(p.deg, p.coefficient as i128)]) == m, "({}x^{})^{} is {:?}", k, d, e, p);
            }
        }
        Ok(())
    });
    s.add("i64 lifted", &format!("{}: times scalars and times four short ones in both orders, squared and cubed where the degrees fit", LIFTED), lifted_count(), |c, i| {
        let a = lifted(i, false);
        for k in [0, 1, -1, -3] {
            map_scalar::<i64>(c, &a, k)?;
        }
        for b in [&[(0, 3)][..], &[(0, -1), (1, 2)], &[(7, 1)], &[(0, 1), (1, 1), (2, -1), (5, 2), (9, 1)]] {
            sparse_mul::<i64>(c, &a, b)?;
            sparse_mul::<i64>(c, b, &a)?;
        }
        let top = a.iter().map(|x| x.0).max().unwrap_or(0);
        for e in 2..4 {
            if top.checked_mul(e).is_some() && a.len() < 12 {
                let x = sparse::<i64>(&a);
                c.op(|| format!("{:?}.pow({})", x, e));
                chk(c, "sparse pow", &x.pow(e), &pow(&of_map(&a), e))?;
            }
        }
        Ok(())
    });
    s.spare(&["products small", "mid lengths", "scalar", "powers"]);
    s
}
fn main() {
    vharness::engine::main(Prop {
        id: "C02",
        assumptions: &["coefficient arithmetic of the primitive, num and GF(p) types is right", "coefficient and degree overflow are outside the property"],
        build,
    });
}
