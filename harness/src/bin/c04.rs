//! C04: evaluation.
use num::rational::Ratio;
use num::Complex;
use rustnomial::{Evaluable, Monomial, Polynomial, SparsePolynomial, FreeSizePolynomial};
use std::sync::Arc;
use vharness::coef::*;
use vharness::dom::*;
use vharness::engine::*;
use vharness::ensure;
use vharness::model::*;

/// A multiple of the multiplicative orders in GF(2), GF(3), GF(5) and GF(7).
const GF_ORDER: u32 = 12;
fn want<N: Co>(m: &M, x: i128) -> Option<i128> {
    if N::NAME.starts_with("GF") {
        let mut v = 0;
        for &(d, c) in m {
            let mut t = N::red(c);
            for _ in 0..d % (GF_ORDER as usize) {
                t = N::red(t * x);
            }
            if d >= GF_ORDER as usize && N::red(x) == 0 {
                t = 0;
            }
            v = N::red(v + t);
        }
        return Some(v);
    }
    let v = eval(m, x)?;
    let single = m.len() == 1 && ipow(x, m[0].0).is_some_and(N::fits);
    // the sum of absolute values bounds every intermediate result of every evaluation order
    if N::fits(v) && (single || N::fits(eval_abs(m, x)?)) {
        Some(v)
    } else {
        None
    }
}
fn judge<N: Co>(ctx: &mut Ctx, what: &str, got: N, w: i128, m: &M, x: i128) -> R {
    ctx.state(&(got.bits(), m.len()));
    ctx.outcome(if w == 0 { "value zero" } else { "value non-zero" });
    ensure!(got.val() == Some(w), "{}: {} at {} gives {:?}, but its value is {}", what, show(m), x, got, w);
    Ok(())
}
fn dense_eval<N: Ring>(ctx: &mut Ctx, v: &[i64], x: i64) -> R {
    let m = of_dense(v);
    let Some(w) = want::<N>(&m, x as i128) else {
        ctx.skip();
        return Ok(());
    };
    let p = dense::<N>(v);
    let at = N::mk(x as i128);
    ctx.op(|| format!("dense {:?}.eval({})", p, x));
    judge(ctx, "dense", p.eval(at), w, &m, x as i128)?;
    if v.len() == 2 {
        ctx.op(|| "binomial".into());
        judge(ctx, "binomial", bi::<N>(v).eval(at), w, &m, x as i128)?;
    }
    if v.len() == 3 {
        ctx.op(|| "trinomial".into());
        judge(ctx, "trinomial", tri::<N>(v).eval(at), w, &m, x as i128)?;
    }
    Ok(())
}
fn sparse_eval<N: Ring>(ctx: &mut Ctx, v: &[(usize, i64)], x: i64) -> R
where
    SparsePolynomial<N>: Evaluable<N>,
    Monomial<N>: Evaluable<N>,
{
    let m = of_map(v);
    let Some(w) = want::<N>(&m, x as i128) else {
        ctx.skip();
        return Ok(());
    };
    let p = sparse::<N>(v);
    let at = N::mk(x as i128);
    ctx.op(|| format!("sparse {:?}.eval({})", p, x));
    judge(ctx, "sparse", p.eval(at), w, &m, x as i128)?;
    if v.len() == 1 {
        let q = mono::<N>(v[0].1, v[0].0);
        ctx.op(|| format!("{:?}.eval({})", q, x));
        judge(ctx, "monomial", q.eval(at), w, &m, x as i128)?;
    }
    Ok(())
}
fn ring<N: Ring>(s: &mut Suites, dom: &Arc<Vec<Vec<i64>>>, xs: &[i64]) {
    let (d, xs) = (dom.clone(), xs.to_vec());
    let n = xs.len();
    s.add(&format!("{} dense", N::NAME), "every coefficient vector at every point where the powers and sums fit", (d.len() * n) as u64, move |c, i| {
        let (a, x) = split(i, n);
        dense_eval::<N>(c, &d[a], xs[x])
    });
}
fn prim<N: Ring>(s: &mut Suites, dom: &Arc<Vec<Vec<i64>>>, ms: &Arc<Vec<Vec<(usize, i64)>>>, xs: &[i64])
where
    SparsePolynomial<N>: Evaluable<N>,
    Monomial<N>: Evaluable<N>,
{
    ring::<N>(s, dom, xs);
    let (d, ms, xs) = (dom.clone(), ms.clone(), xs.to_vec());
    let n = xs.len();
    let k = d.len();
    let mut mv: Vec<i64> = dom.iter().flatten().cloned().collect();
    mv.sort();
    mv.dedup();
    let degs: Vec<usize> = (0..=70).chain([126, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537]).chain((31..64).flat_map(|b| [(1usize << b) - 1, 1 << b, (1 << b) + 1, (1 << b) + 2])).chain([usize::MAX - 1, usize::MAX]).collect();
    let xs2 = xs.clone();
    s.add(&format!("{} sparse", N::NAME), "every coefficient vector (stored zeros as explicit entries) and every map over the degree set, entries absent, zero or non-zero, at every point", ((k + ms.len()) * n) as u64, move |c, i| {
        let (a, x) = split(i, n);
        if a < k {
            sparse_eval::<N>(c, &as_map(&d[a]), xs2[x])?;
            sparse_eval::<N>(c, &stripped(&d[a]), xs2[x])
        } else {
            sparse_eval::<N>(c, &ms[a - k], xs2[x])
        }
    });
    let (l, q) = (mv.len(), degs.len());
    s.add(&format!("{} one term", N::NAME), "every coefficient x every degree of 0..=70, and around every power of two up to 2^64-1, at every point", (l * q * n) as u64, move |c, i| {
        let (a, b, x) = split3(i, q, n);
        sparse_eval::<N>(c, &[(degs[b], mv[a])], xs[x])
    });
}
macro_rules! floats {
    ($s:expr, $th:expr, $t:ty, $tol:expr) => {{
        let co: &[$t] = &[0.0, 0.1, -2.5, 1e10, -1e-10];
        let mut vs: Vec<Vec<$t>> = vec![vec![]];
        let mut last = vs.clone();
        for _ in 0..if $th { 6 } else { 4 } {
            last = last.iter().flat_map(|v| co.iter().map(move |&c| { let mut w = v.clone(); w.push(c); w })).collect();
            vs.extend(last.iter().cloned());
        }
        let xs: Vec<$t> = vec![0.0, -0.0, 1.0, -1.0, 0.5, -0.1, 3.7, -12.25, 1e4, 1e-5];
        let n = xs.len();
        $s.add(concat!(stringify!($t), " fractional"), "every vector of length <=4 (thorough <=6) over 5 fractional coefficients at 10 points, against term-by-term evaluation", (vs.len() * n) as u64, move |ctx, i| {
            let (a, x) = split(i, n);
            let (v, x) = (&vs[a], xs[x]);
            let top = v.len();
            let (mut w, mut mag) = (0.0f64, 0.0f64);
            for (k, &c) in v.iter().enumerate() {
                let d = top - 1 - k;
                let mut t = c as f64;
                for _ in 0..d { t *= x as f64; }
                w += t;
                mag += t.abs();
            }
            let tol = $tol * mag;
            let close = |g: $t| (g as f64 - w).abs() <= tol;
            let p = Polynomial { terms: v.clone() };
            ctx.op(|| format!("dense {:?}.eval({})", p, x));
            let g = p.eval(x);
            ctx.state(&g.to_bits());
            ensure!(close(g), "dense {:?} at {} gives {}, not {}", v, x, g, w);
            let sp = SparsePolynomial { terms: v.iter().rev().cloned().enumerate().collect() };
            ctx.op(|| "sparse".into());
            let g = sp.eval(x);
            ensure!(close(g), "sparse {:?} at {} gives {}, not {}", v, x, g, w);
            if top == 2 {
                ctx.op(|| "binomial".into());
                let g = rustnomial::LinearBinomial { coefficients: [v[0], v[1]] }.eval(x);
                ensure!(close(g), "binomial {:?} at {} gives {}, not {}", v, x, g, w);
            }
            if top == 3 {
                ctx.op(|| "trinomial".into());
                let g = rustnomial::QuadraticTrinomial { coefficients: [v[0], v[1], v[2]] }.eval(x);
                ensure!(close(g), "trinomial {:?} at {} gives {}, not {}", v, x, g, w);
            }
            Ok(())
        });
        // degrees that do not fit in 32 bits, at points whose powers stay finite
        let degs: Vec<usize> = (28..40).flat_map(|b| [(1usize << b) - 1, 1 << b, (1 << b) + 1, (1 << b) + 5]).chain((40..64).flat_map(|b| [1usize << b, (1 << b) + 1])).chain([usize::MAX - 1, usize::MAX]).collect();
        let base: Vec<$t> = vec![0.0, 1.0, -1.0, 0.5, -0.5, 0.999, <$t>::EPSILON];
        let n = base.len();
        let cs: [$t; 5] = [0.0, 1.0, -2.5, 1e30, 0.1];
        $s.add(concat!(stringify!($t), " huge degrees"), "degrees around every power of two from 2^28 to 2^64-1 at points of magnitude <=1, whose powers are 0 or +-1", (degs.len() * n * cs.len()) as u64, move |ctx, i| {
            let (d, b, c) = split3(i, n, cs.len());
            let (d, b, c) = (degs[d], base[b], cs[c]);
            let pw: $t = if b.abs() == 1.0 { if b > 0.0 || d % 2 == 0 { 1.0 } else { -1.0 } } else { 0.0 };
            let w = c * pw;
            let m = Monomial { coefficient: c, deg: d };
            ctx.op(|| format!("{:?}.eval({})", m, b));
            let g = m.eval(b);
            ctx.state(&(g.to_bits(), d));
            ensure!(g == w, "{:?} at {} gives {}, not {}", m, b, g, w);
            let sp = SparsePolynomial { terms: [(0usize, 3.0 as $t), (d, c)].into_iter().collect() };
            ctx.op(|| format!("{:?}.eval({})", sp, b));
            let g = sp.eval(b);
            ensure!((g - (w + 3.0)).abs() <= 8.0 * <$t>::EPSILON * (w.abs() + 3.0), "{:?} at {} gives {}, not {}", sp, b, g, w + 3.0);
            Ok(())
        });
    }};
}
/// Long vectors at points that tell the positions of the coefficients apart.
macro_rules! long_floats {
    ($s:expr, $t:ident, $dom:expr, $tol:expr) => {{
        let d = $dom.clone();
        let xs: Vec<$t> = vec![2.0, -2.0, 0.5, -0.5, 1.25, 0.99, -1.0, 1.0, 3.0];
        let n = xs.len();
        $s.add(concat!(stringify!($t), " long vectors"), "every vector of alternating runs of zeros and non-zeros (run lengths around powers of two up to 4097) at 9 points where no power overflows or underflows, dense and sparse, against term-by-term evaluation", (d.len() * n) as u64, move |ctx, i| {
            let (a, x) = split(i, n);
            let (v, x) = (&d[a], xs[x]);
            let top = v.len();
            if top > 1 && (x as f64).abs().log2().abs() * (top - 1) as f64 > (<$t>::MAX_EXP - 10) as f64 {
                ctx.skip();
                return Ok(());
            }
            let (mut w, mut mag) = (0.0f64, 0.0f64);
            for (k, &c) in v.iter().enumerate() {
                let t = c as f64 * (x as f64).powi((top - 1 - k) as i32);
                w += t;
                mag += t.abs();
            }
            let p = dense::<$t>(v);
            ctx.op(|| format!("dense {:?}.eval({})", p, x));
            let g = p.eval(x);
            ctx.state(&g.to_bits());
            ensure!((g as f64 - w).abs() <= $tol * mag, "dense {:?} at {} gives {}, not {}", v, x, g, w);
            for map in [as_map(v), stripped(v)] {
                let p = sparse::<$t>(&map);
                ctx.op(|| format!("sparse {:?}.eval({})", p, x));
                let g = p.eval(x);
                ensure!((g as f64 - w).abs() <= $tol * mag, "sparse {:?} at {} gives {}, not {}", map, x, g, w);
            }
            Ok(())
        });
    }};
}
fn build(th: bool) -> Suites {
    let mut s = Suites::default();
    let small = Arc::new(vecs(if th { 6 } else { 5 }, &[0, 1, -1, 2, -3]));
    let pat: Vec<Vec<i64>> = patterns(if th { 13 } else { 11 }, &[3, -5, 7, -11, 13, -17, 19, -23, 29, -31, 37]);
    let wide: Vec<Vec<i64>> = small.iter().cloned().chain(pat).chain(long_two(if th { 40 } else { 24 }, 2, -3)).chain(full(lengths(100), 1)).collect();
    let xs: Vec<i64> = (-12..=12).chain([100, -100, 1000, 46341]).collect();
    let degs: &[usize] = &[0, 1, 5, 33, (1 << 32) + 1, usize::MAX];
    let ms = Arc::new(maps(degs, if th { &[0, 1, -1, 3] } else { &[0, 1, -3] }));
    prim::<i64>(&mut s, &Arc::new(wide.clone()), &ms, &xs);
    prim::<i128>(&mut s, &Arc::new(wide), &ms, &xs);
    let sv = Arc::new(vecs(if th { 5 } else { 4 }, &[0, 1, -1, 2, -3, 7]));
    let uv = Arc::new(vecs(if th { 5 } else { 4 }, &[0, 1, 2, 3, 7]));
    let ums = Arc::new(maps(degs, &[0, 1, 3]));
    let sx: Vec<i64> = (-12..=12).collect();
    let ux: Vec<i64> = (0..=16).collect();
    prim::<i8>(&mut s, &sv, &ms, &sx);
    prim::<i16>(&mut s, &sv, &ms, &sx);
    prim::<i32>(&mut s, &sv, &ms, &xs);
    prim::<isize>(&mut s, &sv, &ms, &xs);
    prim::<u8>(&mut s, &uv, &ums, &ux);
    prim::<u16>(&mut s, &uv, &ums, &ux);
    prim::<u32>(&mut s, &uv, &ums, &ux);
    prim::<u64>(&mut s, &uv, &ums, &ux);
    prim::<u128>(&mut s, &uv, &ums, &ux);
    prim::<usize>(&mut s, &uv, &ums, &ux);
    prim::<f32>(&mut s, &sv, &ms, &sx);
    prim::<f64>(&mut s, &sv, &ms, &xs);
    ring::<Ratio<i64>>(&mut s, &sv, &sx);
    ring::<Complex<i32>>(&mut s, &sv, &sx);
    ring::<Gf<7>>(&mut s, &Arc::new(vecs(if th { 6 } else { 5 }, &[0, 1, 2, 3, 4, 5, 6])), &[0, 1, 2, 3, 4, 5, 6]);
    ring::<Gf<2>>(&mut s, &Arc::new(vecs(12, &[0, 1])), &[0, 1]);
    let lb = Arc::new(long_blocks(th));
    ring::<Gf<7>>(&mut s, &lb, &[0, 1, 2, 3, 4, 5, 6]);
    ring::<Gf<2>>(&mut s, &lb, &[0, 1]);
    let l2 = Arc::new(long_two(if th { 70 } else { 40 }, 2, 3));
    ring::<Gf<5>>(&mut s, &l2, &[0, 1, 2, 3, 4]);
    prim::<i64>(&mut s, &lb, &Arc::new(vec![]), &[0, 1, -1]);
    let ed = edge_degs();
    s.add("edge degrees", "for every degree d around a power of two or ten up to 2^64-1: every map over degrees {0, d-1, d, d+1}, each absent, explicit zero or one of 2 values, at 0, 1, -1 (and 2, -2, 3 where the value fits), in i64, i128, i8, u64, f64, f32", ed.len() as u64, move |c, i| {
        let d = ed[i as usize];
        for m in around(d, &[0, 3, -5]) {
            for x in [0, 1, -1] {
                sparse_eval::<i64>(c, &m, x)?;
                sparse_eval::<i128>(c, &m, x)?;
                sparse_eval::<i8>(c, &m, x)?;
                sparse_eval::<f64>(c, &m, x)?;
                sparse_eval::<f32>(c, &m, x)?;
            }
            if d < 130 {
                for x in [2, -2, 3] {
                    sparse_eval::<i64>(c, &m, x)?;
                    sparse_eval::<i128>(c, &m, x)?;
                }
            }
        }
        for m in around(d, &[0, 3, 5]) {
            for x in [0, 1, 2] {
                if x < 2 || d < 130 {
                    sparse_eval::<u64>(c, &m, x)?;
                    sparse_eval::<usize>(c, &m, x)?;
                    sparse_eval::<u128>(c, &m, x)?;
                }
            }
        }
        Ok(())
    });
    let hu = huge(th);
    s.add("huge", "vectors of lengths 2^16 and 2^16+1 (thorough around 2^15, 2^16, 10^5, up to 2^20) at 0, 1, -1, dense and sparse in i64; dense in GF(7) at every point", hu.len() as u64 * 8, move |c, i| {
        let (a, k) = split(i, 8);
        let v = &hu[a];
        if k == 7 {
            for x in [0, 1, -1] {
                dense_eval::<i64>(c, v, x)?;
                sparse_eval::<i64>(c, &stripped(v), x)?;
            }
            return Ok(());
        }
        dense_eval::<Gf<7>>(c, v, k as i64)
    });
    long_floats!(s, f64, &lb, 1e-12);
    long_floats!(s, f32, &lb, 2e-3);
    // whole coefficient type: every i8 / u8 coefficient, constant or linear, at every point
    s.add("i8 all", "every (coefficient, point) pair of i8 at degrees 0..=8, and every constant, where the result fits", 65536, |c, i| {
        let (a, x) = split(i, 256);
        let (a, x) = (a as i64 - 128, x as i64 - 128);
        for d in 0..=8 {
            sparse_eval::<i8>(c, &[(d, a)], x)?;
        }
        dense_eval::<i8>(c, &[a], x)?;
        dense_eval::<i8>(c, &[a, 0], x)?;
        dense_eval::<i8>(c, &[1, a], x)?;
        dense_eval::<i8>(c, &[a, 0, 1], x)
    });
    s.add("u8 all", "every (coefficient, point) pair of u8 at degrees 0..=8, where the result fits", 65536, |c, i| {
        let (a, x) = split(i, 256);
        let (a, x) = (a as i64, x as i64);
        for d in 0..=8 {
            sparse_eval::<u8>(c, &[(d, a)], x)?;
        }
        dense_eval::<u8>(c, &[a], x)?;
        dense_eval::<u8>(c, &[a, 0], x)?;
        dense_eval::<u8>(c, &[1, a], x)?;
        dense_eval::<u8>(c, &[a, 0, 1], x)
    });
    // largest powers that fit: base^d <= MAX
    macro_rules! tops {
        ($($t:ty),*) => {$(
            s.add(concat!(stringify!($t), " largest powers"), "every base of magnitude 2..=300 and every degree up to the first whose power does not fit", 600, |c, i| {
                let x = if i < 300 { i as i64 + 2 } else { -(i as i64 - 298) };
                if !<$t as Co>::fits(x as i128) { c.skip(); return Ok(()); }
                for d in 0..130usize {
                    if want::<$t>(&vec![(d, 1)], x as i128).is_none() { break; }
                    sparse_eval::<$t>(c, &[(d, 1)], x)?;
                    let mut v = vec![0; d + 1];
                    v[0] = 1;
                    dense_eval::<$t>(c, &v, x)?;
                }
                Ok(())
            });
        )*};
    }
    tops!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);
    floats!(s, th, f64, 1e-14);
    floats!(s, th, f32, 4e-6);
    s.add("f64 slow growth", "(1+2^-40)^d for d = 2^31+k, 2^32+k, 2^36+k, k = 0..=40, within 1e-4 of the exponential", 123, |ctx, i| {
        let (b, k) = split(i, 41);
        let d = (1usize << [31, 32, 36][b]) + k;
        let x = 1.0 + (-40f64).exp2();
        let w = (d as f64 * (-40f64).exp2()).exp();
        let m = Monomial { coefficient: 1.0, deg: d };
        ctx.op(|| format!("{:?}.eval({})", m, x));
        let g = m.eval(x);
        ctx.state(&g.to_bits());
        ensure!((g - w).abs() <= 1e-4 * w, "{:?} at {} gives {}, not {}", m, x, g, w);
        Ok(())
    });
    s.add("every length", "for every length 0..=1300 (thorough 4200) and 35 lengths around round numbers and powers of two up to 32770, eight shapes (all non-zero; only the constant, leading or middle entry; one leading zero; all zero; alternating; leading half zero): dense and sparse in i64 at 0, 1, -1, dense in GF(7) at 2 and 5 points", every_count(if th { 4200 } else { 1300 }), |c, i| {
        let a = every_len(i);
        for x in [0, 1, -1] {
            dense_eval::<i64>(c, &a, x)?;
            sparse_eval::<i64>(c, &stripped(&a), x)?;
            sparse_eval::<i64>(c, &as_map(&a), x)?;
            dense_eval::<f64>(c, &a, x)?;
        }
        dense_eval::<Gf<7>>(c, &a, 3)?;
        dense_eval::<Gf<7>>(c, &a, 5)
    });
    // several terms at points that tell the degrees apart
    s.add("two and three terms", "two terms at every pair of degrees d > e <= 125 in i128 at 2, -2 (79 at 3, -3), i64 likewise, u128, dense and sparse; three terms at every d, d-j, d-k with j < k <= 12; in both signs", 126 * 126, |c, i| {
        let (d, e) = split(i, 126);
        if e > d {
            return Ok(());
        }
        let two = |a, b| if d == e { vec![(d, a)] } else { vec![(d, a), (e, b)] };
        for (a, b) in [(1, 1), (1, -1), (-1, 3)] {
            let m = two(a, b);
            let mut v = vec![0; d + 1];
            v[0] = a;
            if d != e {
                v[d - e] = b;
            }
            for x in [2, -2, 3, -3] {
                sparse_eval::<i128>(c, &m, x)?;
                sparse_eval::<i64>(c, &m, x)?;
                dense_eval::<i128>(c, &v, x)?;
                dense_eval::<i64>(c, &v, x)?;
                if d < 32 {
                    sparse_eval::<i32>(c, &m, x)?;
                    sparse_eval::<f64>(c, &m, x)?;
                }
            }
            if a > 0 && b > 0 {
                for x in [2, 3] {
                    sparse_eval::<u128>(c, &m, x)?;
                    sparse_eval::<u64>(c, &m, x)?;
                }
            }
        }
        if d - e <= 12 && d > e {
            for f in e + 1..d {
                for x in [2, -2, 3] {
                    sparse_eval::<i128>(c, &[(d, 1), (f, -1), (e, 5)], x)?;
                    sparse_eval::<i64>(c, &[(d, 1), (f, -1), (e, 5)], x)?;
                }
            }
            for x in [2, -2, 3] {
                if e > 0 {
                    sparse_eval::<i128>(c, &[(d, 1), (e, -1), (0, 5)], x)?;
                }
            }
        }
        Ok(())
    });
    s.add("f64 two terms", "two terms at every pair of degrees below 300, at most 45 apart (thorough 1000), at 2, -2 and 1/2: the value is exact", if th { 1000 } else { 300 } * 46, |c, i| {
        let (d, k) = split(i, 46);
        let Some(e) = d.checked_sub(k) else { return Ok(()) };
        for x in [2.0f64, -2.0, 0.5] {
            let p = SparsePolynomial { terms: [(d, 3.0), (e, 5.0)].into_iter().collect() };
            let w = if k == 0 { 5.0 * x.powi(d as i32) } else { 3.0 * x.powi(d as i32) + 5.0 * x.powi(e as i32) };
            c.op(|| format!("{:?}.eval({})", p, x));
            let g = p.eval(x);
            c.state(&g.to_bits());
            ensure!((g - w).abs() <= 1e-12 * w.abs(), "{:?} at {} gives {}, not {}", p, x, g, w);
        }
        Ok(())
    });
    s.add("lifted", &format!("{}: at 0, 1, -1 in i64, i8, i128, f64, and u64", LIFTED), lifted_count(), |c, i| {
        let a = lifted(i, false);
        for x in [0, 1, -1] {
            sparse_eval::<i64>(c, &a, x)?;
            sparse_eval::<i8>(c, &a, x)?;
            sparse_eval::<i128>(c, &a, x)?;
            sparse_eval::<f64>(c, &a, x)?;
        }
        let a = lifted(i, true);
        sparse_eval::<u64>(c, &a, 0)?;
        sparse_eval::<u64>(c, &a, 1)
    });
    macro_rules! big_bases {
        ($($t:ty),*) => {$(
            s.add(concat!(stringify!($t), " largest bases"), "for every degree 0..=12: bases around every power of two of the type and the largest base whose power fits, within 3 of it, both signs; one term and with a lower term", <$t>::BITS as u64 + 13, |c, i| {
                let mut xs = vec![];
                if i < <$t>::BITS as u64 {
                    xs.push((1 as $t).wrapping_shl(i as u32));
                } else {
                    // the largest x with x^d representable
                    let d = (i - <$t>::BITS as u64) as u32;
                    let (mut lo, mut hi) = (1 as $t, <$t>::MAX);
                    while lo < hi {
                        let mid = lo + (hi - lo) / 2 + 1;
                        if mid.checked_pow(d.max(1)).is_some() { lo = mid } else { hi = mid - 1 }
                    }
                    xs.push(lo);
                }
                for x in xs {
                    for k in 0..7 {
                        for x in [x.wrapping_add(k).wrapping_sub(3), (0 as $t).wrapping_sub(x).wrapping_add(k).wrapping_sub(3)] {
                            for d in 0..=12usize {
                                let Some(w) = x.checked_pow(d as u32) else { continue };
                                let p = Monomial::<$t>::new(1, d);
                                c.op(|| format!("x^{} at {}", d, x));
                                ensure!(p.eval(x) == w, "{:?} at {} is {}, not {}", p, x, p.eval(x), w);
                                let q = SparsePolynomial::<$t>::from_terms(&[(1, d)]);
                                ensure!(q.eval(x) == w, "{:?} at {} is {}, not {}", q, x, q.eval(x), w);
                                let mut v = vec![0 as $t; d + 1];
                                v[0] = 1;
                                let q = Polynomial::<$t>::new(v.clone());
                                ensure!(q.eval(x) == w, "{:?} at {} is {}, not {}", q, x, q.eval(x), w);
                                for e in 0..d {
                                    let Some(w) = x.checked_pow(e as u32).and_then(|y| w.checked_add(y)) else { continue };
                                    let q = SparsePolynomial::<$t>::from_terms(&[(1, d), (1, e)]);
                                    c.op(|| format!("x^{} + x^{} at {}", d, e, x));
                                    ensure!(q.eval(x) == w, "{:?} at {} is {}, not {}", q, x, q.eval(x), w);
                                    v[d - e] = 1;
                                    let q = Polynomial::<$t>::new(v.clone());
                                    v[d - e] = 0;
                                    // Horner's intermediate values are no larger, except for the sum below the leading power
                                    if (1..=d).try_fold(0 as $t, |s, j| s.checked_add(if j == 1 || j == d - e + 1 { 1 } else { 0 }).and_then(|s| s.checked_mul(x))).is_some() {
                                        ensure!(q.eval(x) == w, "{:?} at {} is {}, not {}", q, x, q.eval(x), w);
                                    }
                                }
                            }
                        }
                    }
                }
                Ok(())
            });
        )*};
    }
    big_bases!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);
    macro_rules! all_types {
        ($u:expr, $sp:tt; $($t:ty),*) => {$(
            s.add(concat!(stringify!($t), " mid lengths"), "for every length 0..=140 (thorough 700), eight shapes (all non-zero; only the constant, leading or middle entry; one leading zero; all zero; alternating; leading half zero): dense and sparse at 0, 1, 2, 3 and, signed, -1, -2, where the powers and sums fit", mid_count(if th { 700 } else { 140 }), |c, i| {
                let a = mid_len(i, $u);
                let xs: &[i64] = if $u { &[0, 1, 2, 3] } else { &[0, 1, -1, 2, -2, 3] };
                for &x in xs {
                    dense_eval::<$t>(c, &a, x)?;
                    all_types!(@ $sp, $t, c, a, x);
                }
                Ok(())
            });
        )*};
        (@ true, $t:ty, $c:ident, $a:ident, $x:ident) => {
            sparse_eval::<$t>($c, &stripped(&$a), $x)?;
            sparse_eval::<$t>($c, &as_map(&$a), $x)?;
        };
        (@ false, $t:ty, $c:ident, $a:ident, $x:ident) => {};
    }
    all_types!(false, true; i8, i16, i32, i128, isize, f32, f64);
    all_types!(true, true; u8, u16, u32, u64, u128, usize);
    all_types!(false, false; Ratio<i64>, Complex<i32>, Gf<7>);
    s
}
fn main() {
    vharness::engine::main(Prop {
        id: "C04",
        assumptions: &["coefficient arithmetic of the primitive, num and GF(p) types is right", "cases whose powers or partial sums do not fit the coefficient type are outside the property"],
        build,
    });
}
