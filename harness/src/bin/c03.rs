//! C03: division with remainder.
use num::rational::Ratio;
use rustnomial::{Polynomial, SparsePolynomial};
use std::collections::BTreeMap;
use std::sync::Arc;
use vharness::coef::*;
use vharness::dom::*;
use vharness::engine::*;
use vharness::ensure;
use vharness::model::{self, as_hashable, dense, sparse, Dup, M};

/// Polynomials over the coefficient type itself (for rational, finite-field and float coefficients).
type P<N> = BTreeMap<usize, N>;
fn pd<N: Ring>(p: &Polynomial<N>) -> P<N> {
    p.terms.iter().rev().enumerate().filter(|x| !x.1.is_zero()).map(|(d, &c)| (d, c)).collect()
}
fn ps<N: Ring>(p: &SparsePolynomial<N>) -> P<N> {
    p.terms.iter().filter(|x| !x.1.is_zero()).map(|(&d, &c)| (d, c)).collect()
}
/// Textbook long division over a field; the pair (q, r) is unique.
fn divide<N: Ring>(a: &P<N>, b: &P<N>) -> (P<N>, P<N>) {
    let (&db, &lb) = b.iter().next_back().unwrap();
    let (mut q, mut r) = (P::new(), a.clone());
    while let Some((&dr, &lr)) = r.iter().next_back() {
        if dr < db {
            break;
        }
        let k = lr / lb;
        q.insert(dr - db, k);
        for (&d, &c) in b {
            let e = r.entry(d + (dr - db)).or_insert_with(N::zero);
            *e -= k * c;
            if e.is_zero() {
                r.remove(&(d + (dr - db)));
            }
        }
        r.remove(&dr);
    }
    (q, r)
}

struct Res<N> {
    name: &'static str,
    q: Option<P<N>>,
    r: Option<P<N>>,
}
/// Runs every division operation of both representations.
fn all_forms<N: SRing>(ctx: &mut Ctx, a: &Polynomial<N>, b: &Polynomial<N>, sa: &SparsePolynomial<N>, sb: &SparsePolynomial<N>, out: &mut dyn FnMut(&mut Ctx, Res<N>) -> R) -> R {
    dense_forms(ctx, a, b, out)?;
    ctx.op(|| format!("sparse {:?}.div_mod({:?})", sa, sb));
    let (q, r) = sa.div_mod(sb);
    out(ctx, Res { name: "sparse div_mod", q: Some(ps(&q)), r: Some(ps(&r)) })?;
    ctx.op(|| "sparse a % b".into());
    let r = sa.dup() % sb.dup2();
    out(ctx, Res { name: "sparse %", q: None, r: Some(ps(&r)) })?;
    ctx.op(|| "sparse a %= b".into());
    let mut r = sa.dup();
    r %= sb.dup2();
    out(ctx, Res { name: "sparse %=", q: None, r: Some(ps(&r)) })?;
    if sa.terms == sb.terms {
        ctx.op(|| "sparse a.div_mod(a), the same object".into());
        let (q, r) = sa.div_mod(sa);
        out(ctx, Res { name: "sparse div_mod by itself", q: Some(ps(&q)), r: Some(ps(&r)) })?;
    }
    Ok(())
}
fn dense_forms<N: Ring>(ctx: &mut Ctx, a: &Polynomial<N>, b: &Polynomial<N>, out: &mut dyn FnMut(&mut Ctx, Res<N>) -> R) -> R {
    ctx.op(|| format!("dense {:?}.div_mod({:?})", a, b));
    let (q, r) = a.div_mod(b);
    out(ctx, Res { name: "dense div_mod", q: Some(pd(&q)), r: Some(pd(&r)) })?;
    ctx.op(|| "dense a.floor_div(b)".into());
    let q = a.floor_div(b);
    out(ctx, Res { name: "dense floor_div", q: Some(pd(&q)), r: None })?;
    ctx.op(|| "dense a % b".into());
    let r = a.dup() % b.dup2();
    out(ctx, Res { name: "dense %", q: None, r: Some(pd(&r)) })?;
    ctx.op(|| "dense a %= b".into());
    let mut r = a.dup();
    r %= b.dup2();
    out(ctx, Res { name: "dense %=", q: None, r: Some(pd(&r)) })?;
    if a.terms == b.terms {
        ctx.op(|| "dense a.div_mod(a), the same object".into());
        let (q, r) = a.div_mod(a);
        out(ctx, Res { name: "dense div_mod by itself", q: Some(pd(&q)), r: Some(pd(&r)) })?;
        let q = a.floor_div(a);
        out(ctx, Res { name: "dense floor_div by itself", q: Some(pd(&q)), r: None })?;
    }
    Ok(())
}
fn zero_divisor<N: SRing>(ctx: &mut Ctx, a: &Polynomial<N>, b: &Polynomial<N>, sa: &SparsePolynomial<N>, sb: &SparsePolynomial<N>) -> R {
    ctx.op(|| format!("division of {:?} by the zero {:?} must panic", a, b));
    ctx.must_panic("dense div_mod by zero", || a.div_mod(b))?;
    ctx.must_panic("dense floor_div by zero", || a.floor_div(b))?;
    ctx.must_panic("dense % zero", || a.dup() % b.dup2())?;
    ctx.must_panic("dense %= zero", || {
        let mut x = a.dup();
        x %= b.dup2();
    })?;
    ctx.must_panic("sparse div_mod by zero", || sa.div_mod(sb))?;
    ctx.must_panic("sparse % zero", || sa.dup() % sb.dup2())?;
    ctx.must_panic("sparse %= zero", || {
        let mut x = sa.dup();
        x %= sb.dup2();
    })?;
    ctx.outcome("refused: zero divisor");
    Ok(())
}
fn note_outcome<N>(ctx: &mut Ctx, q: &P<N>, r: &P<N>) {
    ctx.outcome(match (q.is_empty(), r.is_empty()) {
        (true, true) => "q=0 r=0",
        (true, false) => "q=0, r=dividend",
        (false, true) => "divides exactly",
        (false, false) => "quotient and remainder",
    });
}

/// Exact field: the unique quotient and remainder.
fn exact<N: SRing>(ctx: &mut Ctx, a: &Polynomial<N>, b: &Polynomial<N>, sa: &SparsePolynomial<N>, sb: &SparsePolynomial<N>) -> R {
    let (ma, mb) = (ps(sa), ps(sb));
    debug_assert!(ma == pd(a) && mb == pd(b));
    if mb.is_empty() {
        return zero_divisor(ctx, a, b, sa, sb);
    }
    let (q, r) = divide(&ma, &mb);
    note_outcome(ctx, &q, &r);
    all_forms(ctx, a, b, sa, sb, &mut |ctx, x| {
        if let Some(g) = &x.q {
            ctx.state(&as_hashable(g));
            ensure!(*g == q, "{}: quotient {:?}, but dividing {:?} by {:?} gives {:?}", x.name, g, ma, mb, q);
        }
        if let Some(g) = &x.r {
            ctx.state(&as_hashable(g));
            ensure!(*g == r, "{}: remainder {:?}, but dividing {:?} by {:?} leaves {:?}", x.name, g, ma, mb, r);
        }
        Ok(())
    })
}

fn im<N: Co>(p: &P<N>) -> Result<M, String> {
    p.iter().map(|(&d, &c)| c.val().map(|c| (d, c)).ok_or_else(|| format!("coefficient {:?}", c))).collect()
}
/// Integers: a = q*b + r exactly, and the leading remainder term cannot be divided any further.
fn integer_judge<N: Ring>(ma: &M, mb: &M, first: &mut Option<(M, M)>, ctx: &mut Ctx, x: &Res<N>) -> R {
    let (q, r) = (x.q.as_ref().map(im).transpose()?, x.r.as_ref().map(im).transpose()?);
    if let (Some(q), Some(r)) = (&q, &r) {
        ctx.state(&(1u8, q));
        ctx.state(&(2u8, r));
        let back = model::add(&model::mul(q, mb), r);
        ensure!(back == *ma, "{}: q = {}, r = {}: q*b + r = {} is not the dividend {}", x.name, model::show(q), model::show(r), model::show(&back), model::show(ma));
        let &(db, lb) = mb.last().unwrap();
        if let Some(&(dr, lr)) = r.last() {
            ensure!(dr < db || lr / lb == 0, "{}: remainder {} can still be divided by {}", x.name, model::show(r), model::show(mb));
        }
        ctx.outcome(match (q.is_empty(), r.is_empty()) {
            (true, _) => "q=0, r=dividend",
            (false, true) => "divides exactly",
            (false, false) => "quotient and remainder",
        });
        match first {
            None => *first = Some((q.clone(), r.clone())),
            Some((fq, fr)) => ensure!(q == fq && r == fr, "{}: ({}, {}) but the dense form gives ({}, {})", x.name, model::show(q), model::show(r), model::show(fq), model::show(fr)),
        }
    } else {
        let (fq, fr) = first.as_ref().unwrap();
        if let Some(q) = &q {
            ensure!(q == fq, "{}: {} but div_mod gives {}", x.name, model::show(q), model::show(fq));
        }
        if let Some(r) = &r {
            ensure!(r == fr, "{}: {} but div_mod gives {}", x.name, model::show(r), model::show(fr));
        }
    }
    Ok(())
}
fn integer<N: SRing>(ctx: &mut Ctx, av: &[i64], bv: &[i64], sav: &[(usize, i64)], sbv: &[(usize, i64)]) -> R {
    let (ma, mb) = (model::of_dense(av), model::of_dense(bv));
    let (a, b, sa, sb) = (dense::<N>(av), dense::<N>(bv), sparse::<N>(sav), sparse::<N>(sbv));
    if mb.is_empty() {
        return zero_divisor(ctx, &a, &b, &sa, &sb);
    }
    if !school_fits::<N>(&ma, &mb) {
        ctx.skip();
        return Ok(());
    }
    let mut first = None;
    all_forms(ctx, &a, &b, &sa, &sb, &mut |ctx, x| integer_judge(&ma, &mb, &mut first, ctx, &x))
}
fn unsigned<N: Ring>(ctx: &mut Ctx, av: &[i64], bv: &[i64]) -> R {
    let (ma, mb) = (model::of_dense(av), model::of_dense(bv));
    let (a, b) = (dense::<N>(av), dense::<N>(bv));
    if mb.is_empty() {
        ctx.op(|| "zero divisor".into());
        return ctx.must_panic("dense div_mod by zero", || a.div_mod(&b));
    }
    if !school_fits::<N>(&ma, &mb) {
        ctx.skip();
        return Ok(());
    }
    let mut first = None;
    dense_forms(ctx, &a, &b, &mut |ctx, x| integer_judge(&ma, &mb, &mut first, ctx, &x))
}
/// Whether every intermediate coefficient of long division stays in range (no overflow, no unsigned underflow).
fn school_fits<N: Co>(a: &M, b: &M) -> bool {
    let &(db, lb) = b.last().unwrap();
    let mut r: BTreeMap<usize, i128> = a.iter().cloned().collect();
    while let Some((&dr, &lr)) = r.iter().next_back() {
        if dr < db || lr / lb == 0 {
            return true;
        }
        let k = lr / lb;
        if !N::fits(k) {
            return false;
        }
        for &(d, c) in b {
            let e = r.entry(d + (dr - db)).or_insert(0);
            *e -= k * c;
            if !N::fits(*e) || !N::fits(k * c) || (N::SIGNED && !N::fits(-(k * c))) {
                return false;
            }
            if *e == 0 {
                r.remove(&(d + (dr - db)));
            }
        }
    }
    true
}
/// Floats: the identity and the degree bound up to rounding.
macro_rules! float_case {
    ($name:ident, $t:ty) => {
        fn $name(ctx: &mut Ctx, av: &[$t], bv: &[$t]) -> R {
            let a = Polynomial { terms: av.to_vec() };
            let b = Polynomial { terms: bv.to_vec() };
            let mk = |v: &[$t]| SparsePolynomial { terms: v.iter().rev().cloned().enumerate().collect() };
            let (sa, sb) = (mk(av), mk(bv));
            let (ma, mb) = (pd(&a), pd(&b));
            if mb.is_empty() {
                return zero_divisor(ctx, &a, &b, &sa, &sb);
            }
            let mx = |p: &P<$t>| p.values().fold(0.0 as $t, |m, c| m.max(c.abs()));
            let db = *mb.keys().next_back().unwrap();
            let mut firsts: Vec<(P<$t>, P<$t>, $t)> = vec![];
            all_forms(ctx, &a, &b, &sa, &sb, &mut |ctx, x| {
                if let (Some(q), Some(r)) = (&x.q, &x.r) {
                    ctx.state(&as_hashable(q));
                    ctx.state(&as_hashable(r));
                    note_outcome(ctx, q, r);
                    let n = av.len() as $t + 1.0;
                    let scale = mx(&ma) + mx(q) * mx(&mb);
                    let tol = 64.0 * n * <$t>::EPSILON * scale;
                    ensure!(scale.is_finite(), "{}: quotient {:?} of {:?} by {:?} is not finite", x.name, q, av, bv);
                    let mut back: BTreeMap<usize, f64> = BTreeMap::new();
                    for (&d, &c) in q {
                        for (&e, &f) in &mb {
                            *back.entry(d + e).or_insert(0.0) += c as f64 * f as f64;
                        }
                    }
                    for (&d, &c) in r {
                        ensure!(d < db || c.abs() <= tol, "{}: remainder {:?} of {:?} by {:?} has a term of degree {} not below the divisor's", x.name, r, av, bv, d);
                        *back.entry(d).or_insert(0.0) += c as f64;
                    }
                    for d in back.keys().chain(ma.keys()) {
                        let e = back.get(d).cloned().unwrap_or(0.0) - ma.get(d).cloned().unwrap_or(0.0) as f64;
                        ensure!(e.abs() <= tol as f64, "{}: {:?} by {:?}: q = {:?}, r = {:?}: q*b + r differs from the dividend by {} at degree {}", x.name, av, bv, q, r, e, d);
                    }
                    firsts.push((q.clone(), r.clone(), tol));
                }
                let (fq, fr, tol) = &firsts[0];
                let close = |g: &P<$t>, w: &P<$t>, tol: $t| g.keys().chain(w.keys()).all(|d| (g.get(d).cloned().unwrap_or(0.0) - w.get(d).cloned().unwrap_or(0.0)).abs() <= tol);
                if let Some(q) = &x.q {
                    ensure!(close(q, fq, 64.0 * <$t>::EPSILON * mx(fq) * (av.len() as $t + 1.0)), "{}: quotient {:?} but dense div_mod gives {:?}", x.name, q, fq);
                }
                if let Some(r) = &x.r {
                    ensure!(close(r, fr, *tol), "{}: remainder {:?} but dense div_mod gives {:?}", x.name, r, fr);
                }
                Ok(())
            })
        }
    };
}
float_case!(float64, f64);
float_case!(float32, f32);

fn fvecs<T: Copy>(max: usize, vals: &[T]) -> Vec<Vec<T>> {
    let mut all: Vec<Vec<T>> = vec![vec![]];
    let mut last: Vec<Vec<T>> = vec![vec![]];
    for _ in 0..max {
        let mut nx = vec![];
        for v in &last {
            for &c in vals {
                let mut w = v.clone();
                w.push(c);
                nx.push(w);
            }
        }
        all.extend(nx.iter().cloned());
        last = nx;
    }
    all
}
fn field<N: SRing>(s: &mut Suites, name: &str, bounds: &str, da: Vec<Vec<i64>>, db: Vec<Vec<i64>>) {
    let n = db.len();
    s.add(&format!("{} {}", N::NAME, name), bounds, (da.len() * n) as u64, move |c, i| {
        let (a, b) = split(i, n);
        let (av, bv) = (&da[a], &db[b]);
        exact::<N>(c, &dense(av), &dense(bv), &sparse(&as_map(av)), &sparse(&as_map(bv)))?;
        if av.contains(&0) || bv.contains(&0) {
            exact::<N>(c, &dense(av), &dense(bv), &sparse(&stripped(av)), &sparse(&stripped(bv)))?;
        }
        Ok(())
    });
}
fn strip(v: Vec<(usize, i64)>, keep: bool) -> Vec<(usize, i64)> {
    v.into_iter().filter(|x| keep || x.1 != 0).collect()
}
fn ints<N: SRing>(s: &mut Suites, name: &str, bounds: &str, da: &Arc<Vec<Vec<i64>>>, db: &Arc<Vec<Vec<i64>>>) {
    let (da, db) = (da.clone(), db.clone());
    let n = db.len();
    s.add(&format!("{} {}", N::NAME, name), bounds, (da.len() * n) as u64, move |c, i| {
        let (a, b) = split(i, n);
        let (av, bv) = (&da[a], &db[b]);
        integer::<N>(c, av, bv, &strip(as_map(av), (a + b) % 2 == 0), &strip(as_map(bv), (a + b) % 3 == 0))
    });
}

fn build(th: bool) -> Suites {
    let mut s = Suites::default();
    let b = "every dividend and every divisor vector up to the lengths given (all of them, stored leading zeros included), against the unique quotient and remainder";
    field::<Gf<2>>(&mut s, "all polynomials", b, vecs(if th { 11 } else { 9 }, &[0, 1]), vecs(if th { 7 } else { 6 }, &[0, 1]));
    field::<Gf<3>>(&mut s, "all polynomials", b, vecs(if th { 7 } else { 6 }, &[0, 1, 2]), vecs(if th { 5 } else { 4 }, &[0, 1, 2]));
    field::<Gf<5>>(&mut s, "all polynomials", b, vecs(if th { 5 } else { 4 }, &[0, 1, 2, 3, 4]), vecs(if th { 4 } else { 3 }, &[0, 1, 2, 3, 4]));
    field::<Gf<7>>(&mut s, "all polynomials", b, vecs(if th { 4 } else { 3 }, &[0, 1, 2, 3, 4, 5, 6]), vecs(3, &[0, 1, 2, 3, 4, 5, 6]));
    field::<Ratio<i64>>(&mut s, "rationals", b, vecs(if th { 5 } else { 4 }, &[0, 1, -1, 2, -3]), vecs(3, &[0, 1, -1, 2, -3]));
    // long operands over GF(5): every length pair
    let la = full(0..if th { 60 } else { 30 }, 1);
    let lb: Vec<Vec<i64>> = full(0..if th { 30 } else { 16 }, 2).into_iter().flat_map(|v| { let mut z = vec![0; v.len() % 6]; z.extend(v.clone()); [v, z] }).collect();
    field::<Gf<7>>(&mut s, "long", "every pair of lengths (dividend <30, divisor <16; thorough 60, 30), with and without stored leading zeros", la, lb);
    field::<Gf<7>>(&mut s, "runs", "every dividend of up to 3 alternating runs of zeros and non-zeros of lengths 1, 8, 33 (thorough more) or 2 of lengths 1, 65, 257, by every divisor of up to 3 runs of lengths 1, 2, 9, 17", blocks(if th { &[1, 2, 8, 17, 33, 65] } else { &[1, 8, 33] }, 3).into_iter().chain(blocks(&[1, 65, 257], 2)).collect(), blocks(&[1, 2, 9, 17], 3));
    field::<Gf<7>>(&mut s, "long runs", "every vector made of alternating runs with lengths around every power of two up to 1025 (and 2000, 4096) by short divisors and by itself-sized ones", if th { long_blocks(false) } else { blocks(&[1, 255, 256, 257, 511, 513, 1000, 1025], 2) }, vec![vec![3], vec![1, 2], vec![0, 0, 2, 0, 5], vec![1, 0, 0, 0, 0, 0, 0, 0, 6], full([40], 2).remove(0), { let mut v = vec![2]; v.extend(vec![0; 300]); v.push(3); v }, full([600], 3).remove(0)]);
    let lo = long_two(if th { 24 } else { 14 }, 2, 3);
    let lo2 = long_two(if th { 12 } else { 9 }, 3, 4);
    field::<Gf<5>>(&mut s, "two-term operands", "every dividend of length <=14 (thorough 24) and divisor of length <=9 (thorough 12) with at most two non-zeros at every position", lo, lo2);
    // sparse operands with gaps and high degrees
    let ms = maps(&[0, 1, 3, 7, 12], &[0, 1, 3]);
    let msb = maps(&[0, 1, 3, 5], &[0, 1, 2]);
    let n = msb.len();
    s.add("GF(5) sparse maps", "every map over degrees {0,1,3,7,12} by every map over {0,1,3,5}, entries absent, explicit zero or 2 values", (ms.len() * n) as u64, move |c, i| {
        let (a, b) = split(i, n);
        let de = |v: &[(usize, i64)]| {
            let mut d = vec![0i64; v.iter().map(|x| x.0 + 1).max().unwrap_or(0)];
            let l = d.len();
            for &(k, x) in v {
                d[l - 1 - k] = x;
            }
            d
        };
        let (av, bv) = (de(&ms[a]), de(&msb[b]));
        exact::<Gf<5>>(c, &dense(&av), &dense(&bv), &sparse(&ms[a]), &sparse(&msb[b]))
    });
    // very high sparse degrees (dense forms cannot hold them)
    let hi = maps(&[0, 2, usize::MAX - 4, usize::MAX - 1, usize::MAX], &[0, 1, 2]);
    let hib = maps(&[0, usize::MAX - 5, usize::MAX - 3], &[0, 1, 2]);
    let n = hib.len();
    s.add("GF(3) sparse, degrees near 2^64", "every map over degrees {0,2,2^64-5,2^64-2,2^64-1} by every map over {0,2^64-6,2^64-4} of high degree", (hi.len() * n) as u64, move |c, i| {
        let (a, b) = split(i, n);
        let (sa, sb) = (sparse::<Gf<3>>(&hi[a]), sparse::<Gf<3>>(&hib[b]));
        let (ma, mb) = (ps(&sa), ps(&sb));
        match mb.keys().next_back() {
            None | Some(0) => {
                c.skip();
                return Ok(());
            }
            _ => {}
        }
        let (q, r) = divide(&ma, &mb);
        note_outcome(c, &q, &r);
        c.op(|| format!("{:?}.div_mod({:?})", sa, sb));
        let (gq, gr) = sa.div_mod(&sb);
        c.state(&as_hashable(&ps(&gr)));
        ensure!(ps(&gq) == q && ps(&gr) == r, "{:?} by {:?}: ({:?}, {:?}) instead of ({:?}, {:?})", ma, mb, gq, gr, q, r);
        c.op(|| "a % b".into());
        ensure!(ps(&(sa.clone() % sb.clone())) == r, "{:?} % {:?} is not {:?}", ma, mb, r);
        c.op(|| "a %= b".into());
        let mut x = sa.clone();
        x %= sb.clone();
        ensure!(ps(&x) == r, "{:?} %= {:?} is not {:?}", ma, mb, r);
        Ok(())
    });
    let ed = edge_degs();
    s.add("GF(5) sparse, edge degrees", "for every degree d >= 4 around a power of two or ten up to 2^64-1: every map over degrees {0, d-1, d, d+1}, each absent, explicit zero or 2 values, by every map over {0, d-2, d} (and of degree d-2 or d), absent or 2 values", ed.len() as u64, move |c, i| {
        let d = ed[i as usize];
        if d < 4 {
            return Ok(());
        }
        for b in maps(&[0, d - 2, d], &[1, 3]) {
            let sb = sparse::<Gf<5>>(&b);
            let mb = ps(&sb);
            if mb.keys().next_back().is_none_or(|&x| x < d - 2) {
                continue;
            }
            for a in around(d, &[0, 1, 4]) {
                let sa = sparse::<Gf<5>>(&a);
                let ma = ps(&sa);
                let (q, r) = divide(&ma, &mb);
                c.op(|| format!("{:?}.div_mod({:?})", sa, sb));
                let (gq, gr) = sa.div_mod(&sb);
                c.state(&as_hashable(&ps(&gr)));
                ensure!(ps(&gq) == q && ps(&gr) == r, "{:?} by {:?}: ({:?}, {:?}) instead of ({:?}, {:?})", ma, mb, gq, gr, q, r);
                c.op(|| "a % b".into());
                ensure!(ps(&(sa.clone() % sb.clone())) == r, "{:?} % {:?} is not {:?}", ma, mb, r);
                c.op(|| "a %= b".into());
                let mut x = sa;
                x %= sb.clone();
                ensure!(ps(&x) == r, "{:?} %= {:?} is not {:?}", ma, mb, r);
            }
        }
        Ok(())
    });
    let hu: Vec<Vec<i64>> = huge(th).into_iter().filter(|v| v.len() < 100_000).collect();
    let mut hb = vec![{ let mut v = vec![2]; v.extend(vec![0; 65533]); v.push(3); v }, full([65400], 2).remove(0)];
    if !th {
        hb.truncate(1);
    }
    field::<Gf<7>>(&mut s, "huge", "vectors of lengths 2^16 and 2^16+1 (thorough also around 2^15) by 2 x^65534 + 3 (thorough also a fully non-zero one of length 65400)", hu, hb);
    // integers, exact and inexact
    s.add("i8 all", "every pair (a, b) of i8 values: a, a x + b, a x^2 + b by b, b x + 1, 1 x + b, x^2 - a where no step overflows", 65536, |c, i| {
        let (a, b) = (i as u8 as i8 as i64, (i >> 8) as u8 as i8 as i64);
        for n in [vec![a], vec![a, b], vec![a, 0, b]] {
            for d in [vec![b], vec![b, 1], vec![1, b], vec![1, 0, if a == -128 { 0 } else { -a }]] {
                if d.iter().all(|&x| x == 0) {
                    continue;
                }
                integer::<i8>(c, &n, &d, &stripped(&n), &stripped(&d))?;
            }
        }
        Ok(())
    });
    s.add("u8 all", "every pair (a, b) of u8 values: a, a x + b, a x^2 + b by b, b x + 1, 1 x + b where no step goes below zero", 65536, |c, i| {
        let (a, b) = ((i & 255) as i64, (i >> 8) as i64);
        for n in [vec![a], vec![a, b], vec![a, 0, b]] {
            for d in [vec![b], vec![b, 1], vec![1, b], vec![1, 0]] {
                if d.iter().any(|&x| x != 0) {
                    unsigned::<u8>(c, &n, &d)?;
                }
            }
        }
        Ok(())
    });
    let la = Arc::new(patterns(if th { 13 } else { 10 }, &[1, -2, 3, 4, -1, 5]).into_iter().chain(long_two(if th { 40 } else { 30 }, 3, -2)).chain(full(0..if th { 70 } else { 40 }, 1)).collect::<Vec<_>>());
    let lb = Arc::new(vec![vec![1, -1], vec![1, 1], vec![-1, 2], vec![1, 0, 1], vec![1, 1, 1], vec![1, 0, 0, -1], vec![0, 0, -1, 0, 0, 0, 2], vec![2, 1], vec![2, 0, -2], vec![1, 0, 0, 0, 0, 0, 0, 0, 0, 1], vec![3]]);
    ints::<i64>(&mut s, "longer integer division", "every zero pattern of length <= 10 (thorough 13), every vector of length <= 30 (40) with at most two non-zeros, and fully non-zero vectors of length < 40 (70), by 11 divisors (monic, minus-monic, gapped, non-monic), where no step overflows", &la, &lb);
    ints::<i128>(&mut s, "longer integer division", "the same", &la, &lb);
    // integers, exact and inexact
    let bi_ = "every dividend of length <=4 (thorough <=5) over 5 values and divisor of length <=3 over 6 values, divisible or not";
    let ia = Arc::new(vecs(if th { 5 } else { 4 }, &[0, 1, -1, 2, 6]));
    let ib = Arc::new(vecs(3, &[0, 1, -1, 2, -3, 4]));
    ints::<i32>(&mut s, "integer division", bi_, &ia, &ib);
    let ta = Arc::new(vecs(3, &[0, 1, -1, 6]));
    let tb = Arc::new(vecs(2, &[0, 1, -1, 2, -3]));
    let bt = "every dividend of length <=3 over 4 values by every divisor of length <=2 over 5";
    ints::<i8>(&mut s, "integer division", bt, &ta, &tb);
    ints::<i16>(&mut s, "integer division", bt, &ta, &tb);
    ints::<i64>(&mut s, "integer division", bt, &ta, &tb);
    ints::<i128>(&mut s, "integer division", bt, &ta, &tb);
    ints::<isize>(&mut s, "integer division", bt, &ta, &tb);
    let big = Arc::new(vecs(3, &[0, 100, -77, 1]));
    ints::<i64>(&mut s, "integer division by constants and small divisors", "dividends over {0,1,100,-77}, divisors of length <=2 over {0,1,3,-7,10}", &big, &Arc::new(vecs(2, &[0, 1, 3, -7, 10])));
    // exact integer products divided back: long division has to run to the end
    let pa = vecs(3, &[0, 1, -2, 3]);
    let pb = vecs(3, &[0, 1, -1, 2]);
    let n = pb.len();
    s.add("i64 products divided back", "every product a*b (lengths <=3) divided by b gives a and remainder zero", (pa.len() * n) as u64, move |c, i| {
        let (a, b) = split(i, n);
        let (ma, mb) = (model::of_dense(&pa[a]), model::of_dense(&pb[b]));
        if mb.is_empty() {
            c.skip();
            return Ok(());
        }
        let prod = model::mul(&ma, &mb);
        let top = prod.last().map_or(0, |x| x.0 + 1);
        let mut v = vec![0i64; top];
        for &(d, k) in &prod {
            v[top - 1 - d] = k as i64;
        }
        let (p, q) = (dense::<i64>(&v), dense::<i64>(&pb[b]));
        let (sp, sq) = (sparse::<i64>(&as_map(&v)), sparse::<i64>(&as_map(&pb[b])));
        all_forms(c, &p, &q, &sp, &sq, &mut |ctx, x| {
            if let Some(g) = &x.q {
                ctx.state(&as_hashable(g));
                ensure!(im(g)? == ma, "{}: ({})*({}) divided back gives {:?}", x.name, model::show(&ma), model::show(&mb), g);
            }
            if let Some(g) = &x.r {
                ensure!(g.is_empty(), "{}: ({})*({}) leaves remainder {:?}", x.name, model::show(&ma), model::show(&mb), g);
            }
            Ok(())
        })
    });
    // unsigned, where no step underflows
    macro_rules! uns {
        ($($t:ty),*) => {$({
            let (a_, b_) = (vecs(4, &[0, 1, 2, 6]), vecs(3, &[0, 1, 2, 3]));
            let n = b_.len();
            s.add(concat!(stringify!($t), " unsigned division"), "every dividend of length <=4 and divisor of length <=3 over 4 values for which long division never goes below zero", (a_.len() * n) as u64, move |c, i| {
                let (a, b) = split(i, n);
                unsigned::<$t>(c, &a_[a], &b_[b])
            });
        })*};
    }
    uns!(u8, u16, u32, u64, u128, usize);
    // floats
    let fa = fvecs(if th { 5 } else { 4 }, &[0.0, 1.0, -0.3, 49.0, 1e-3]);
    let fb = fvecs(3, &[0.0, 1.0, -0.7, 49.0, 3.0]);
    let n = fb.len();
    s.add("f64 division", "every dividend of length <=4 (thorough <=5) and divisor of length <=3 over values whose quotients do not terminate in binary", (fa.len() * n) as u64, move |c, i| {
        let (a, b) = split(i, n);
        float64(c, &fa[a], &fb[b])
    });
    let ga: Vec<f64> = (1..=200).map(|x| x as f64).collect();
    let n = ga.len();
    s.add("f64 constant and linear by constant", "every (i x + j)/(k) with i,j derived from and k in 1..=200: quotients i/k rounding both ways", (n * n) as u64, move |c, i| {
        let (a, b) = split(i, n);
        float64(c, &[ga[a], ga[(a * 7 + b) % n]], &[ga[b]])?;
        float64(c, &[ga[a], ga[b], 1.0], &[ga[b], -ga[(a + 3) % n]])
    });
    let la: Vec<Vec<f64>> = full(0..if th { 40 } else { 24 }, 1).into_iter().chain(long_two(if th { 16 } else { 11 }, 3, -2)).map(|v| v.iter().map(|&c| c as f64 * 0.3).collect()).collect();
    let lb: Vec<Vec<f64>> = full(1..if th { 20 } else { 12 }, 2).into_iter().chain(long_two(5, 7, -3)).map(|v| v.iter().map(|&c| c as f64 * 1.7).collect()).collect();
    let n = lb.len();
    s.add("f64 long division", "fully non-zero dividends of length < 24 (thorough 40) and all with at most two non-zeros of length <= 11 (16), by fully non-zero divisors of length < 12 (20) and all with at most two non-zeros of length <= 5", (la.len() * n) as u64, move |c, i| {
        let (a, b) = split(i, n);
        float64(c, &la[a], &lb[b])
    });
    let fa = fvecs(3, &[0.0f32, 1.0, -0.3, 49.0, 1e-3]);
    let fb = fvecs(3, &[0.0f32, 1.0, -0.7, 49.0]);
    let n = fb.len();
    s.add("f32 division", "every dividend and divisor of length <=3 over non-terminating values", (fa.len() * n) as u64, move |c, i| {
        let (a, b) = split(i, n);
        float32(c, &fa[a], &fb[b])
    });
    s.add("GF(7) every length", "for every length 0..=700 (thorough 2100) and 35 lengths around round numbers and powers of two up to 32770, eight shapes (all non-zero; only the constant, leading or middle entry; one leading zero; all zero; alternating; leading half zero): by 6 divisors of lengths 1, 2, 5, 9, about half (up to length 2100, thorough 10001) and one less than the dividend; quick: beyond length 4100 only vectors with at most one non-zero", every_count(if th { 2100 } else { 700 }), move |c, i| {
        let a = every_len(i);
        let n = a.len();
        if n > 4100 && a.iter().filter(|&&x| x != 0).count() > 1 && !th {
            return Ok(());
        }
        let sp = |v: &[i64]| sparse::<Gf<7>>(&stripped(v));
        let mut half = vec![2];
        half.extend(vec![0; n / 2]);
        half.push(3);
        let mut near = vec![0, 3];
        near.extend(vec![0; n.saturating_sub(2)]);
        for b in [vec![3], vec![1, 2], vec![0, 0, 2, 0, 5], vec![1, 0, 0, 0, 0, 0, 0, 0, 6], half, near] {
            if n > if th { 10_001 } else { 2100 } && b.len() > 9 && b.len() < n {
                continue;
            }
            exact::<Gf<7>>(c, &dense(&a), &dense(&b), &sp(&a), &sp(&b))?;
        }
        Ok(())
    });
    let fa = any_vecs(3, &[0.0, 1.0, -0.3, 1e-12]);
    let fb = any_vecs(3, &[0.0, 1.0, -0.7, 1e-12]);
    let n = fb.len();
    s.add("f64 division across scales", "every dividend and divisor of length <= 3 over 4 values, the smallest 1e-12, each scaled by 1, 1e-13, 1e-100, 1e100", (fa.len() * n * 16) as u64, move |c, i| {
        let (a, b, k) = split3(i, n, 16);
        let sc = [1.0, 1e-13, 1e-100, 1e100];
        let f = |v: &[f64], k: f64| v.iter().map(|x| x * k).collect::<Vec<_>>();
        float64(c, &f(&fa[a], sc[k % 4]), &f(&fb[b], sc[k / 4]))
    });
    macro_rules! all_types {
        ($f:ident; $u:expr; $($t:ty),*) => {$(
            s.add(concat!(stringify!($t), " integer mid lengths"), "for every length 0..=60 (thorough 300), eight shapes (all non-zero; only the constant, leading or middle entry; one leading zero; all zero; alternating; leading half zero): by the vector itself, one and two shorter, a divisor of half the length and short ones, divisible and not", mid_count(if th { 300 } else { 60 }), |c, i| {
                let a = mid_len(i, $u);
                let n = a.len();
                let mut half = vec![2; n / 2 + 1];
                half[0] = 1;
                for b in [a.clone(), mid_len(i.saturating_sub(SHAPES), $u), mid_len(i.saturating_sub(2 * SHAPES), $u), half, vec![3; n], (0..n as i64).map(|j| 2 + j % 3).collect(), vec![1, 1], vec![2], vec![1, 0, 0, 1], vec![0, 3, 1]] {
                    all_types!(@ $f, $t, c, a, b);
                }
                Ok(())
            });
        )*};
        (@ integer, $t:ty, $c:ident, $a:ident, $b:ident) => {
            integer::<$t>($c, &$a, &$b, &stripped(&$a), &as_map(&$b))?;
        };
        (@ unsigned, $t:ty, $c:ident, $a:ident, $b:ident) => {
            unsigned::<$t>($c, &$a, &$b)?;
        };
    }
    all_types!(integer; false; i8, i16, i32, i64, i128, isize);
    all_types!(unsigned; true; u8, u16, u32, u64, u128, usize);
    macro_rules! all_exact {
        ($($t:ty),*) => {$(
            s.add(concat!(stringify!($t), " mid lengths"), "for every length 0..=40 (thorough 100), eight shapes (all non-zero; only the constant, leading or middle entry; one leading zero; all zero; alternating; leading half zero): by short divisors, half the length and one shorter", mid_count(if th { 100 } else { 40 }), |c, i| {
                let a = mid_len(i, false);
                let n = a.len();
                let mut half = vec![2; n / 2 + 1];
                half[0] = 1;
                for b in [mid_len(i.saturating_sub(SHAPES), false), half, vec![1, 1], vec![2], vec![0, 1, 0, 0, 1]] {
                    exact::<$t>(c, &dense(&a), &dense(&b), &sparse(&stripped(&a)), &sparse(&as_map(&b)))?;
                }
                Ok(())
            });
        )*};
    }
    all_exact!(Gf<2>, Gf<3>, Gf<5>, Gf<7>);
    s.add("GF(7) sparse, lifted", &format!("{}: divided by five other shapes and lengths with the same lift", LIFTED), lifted_count(), |c, i| {
        let a = lifted(i, false);
        let sa = sparse::<Gf<7>>(&a);
        let ma = ps(&sa);
        for j in [0, 32, 96, LIFT_LEN, 3 * LIFT_LEN + 64, 8 * LIFT_LEN] {
            let Some(j) = i.checked_sub(j) else { continue };
            let sb = sparse::<Gf<7>>(&lifted(j, false));
            let mb = ps(&sb);
            if mb.keys().next_back().is_none_or(|&x| x < 1 << 16) {
                continue;
            }
            let (q, r) = divide(&ma, &mb);
            c.op(|| format!("{:?}.div_mod({:?})", sa, sb));
            let (gq, gr) = sa.div_mod(&sb);
            c.state(&as_hashable(&ps(&gr)));
            ensure!(ps(&gq) == q && ps(&gr) == r, "{:?} by {:?}: ({:?}, {:?}) instead of ({:?}, {:?})", ma, mb, gq, gr, q, r);
            c.op(|| "a % b".into());
            ensure!(ps(&(sa.clone() % sb.clone())) == r, "{:?} % {:?} is not {:?}", ma, mb, r);
            c.op(|| "a %= b".into());
            let mut x = sa.clone();
            x %= sb.clone();
            ensure!(ps(&x) == r, "{:?} %= {:?} is not {:?}", ma, mb, r);
        }
        Ok(())
    });
    s.spare(&["mid lengths", "i8 all", "GF(2) all"]);
    s
}
fn main() {
    vharness::engine::main(Prop {
        id: "C03",
        assumptions: &[
            "coefficient arithmetic of the primitive, num and GF(p) types is right",
            "float operands are finite and quotients stay finite; rounding tolerance is 64*(length+1)*epsilon relative to |a|+|q||b|",
            "integer division steps that overflow the coefficient type are outside the property",
        ],
        build,
    });
}
