//! C06: shifts.
use num::rational::Ratio;
use num::Complex;
use std::sync::Arc;
use vharness::coef::*;
use vharness::dom::*;
use vharness::engine::*;
use vharness::ensure;
use vharness::model::*;

/// x^k times the polynomial; terms whose degree would go below zero are dropped.
fn shifted(m: &M, k: i64) -> Option<M> {
    if k >= 0 {
        shl(m, k as usize)
    } else {
        Some(shr(m, (-k) as usize))
    }
}
fn dense_shift<N: Ring>(ctx: &mut Ctx, v: &[i64], k: i32) -> R {
    let m = of_dense(v);
    // by how far the result has to be materialised
    let small = |k: i64| k < if v.len() > 5000 { 70000 } else { 5000 };
    let p = dense::<N>(v);
    if small(k as i64) {
        let w = shifted(&m, k as i64).unwrap();
        ctx.op(|| format!("dense {:?} << {}", p, k));
        let r = p.dup() << k;
        chk(ctx, "dense a << k", &r, &w)?;
        ctx.op(|| "a <<= k".into());
        let mut q = p.dup();
        q <<= k;
        chk(ctx, "dense a <<= k", &q, &w)?;
        if k > 0 {
            ctx.op(|| "(a << k) >> k".into());
            chk(ctx, "dense (a << k) >> k", &(r >> k), &m)?;
            q >>= k;
            ctx.op(|| "a <<= k; a >>= k".into());
            chk(ctx, "dense a <<= k; a >>= k", &q, &m)?;
        }
    }
    if small(-(k as i64)) {
        let w = shifted(&m, -(k as i64)).unwrap();
        ctx.op(|| format!("dense {:?} >> {}", p, k));
        chk(ctx, "dense a >> k", &(p.dup() >> k), &w)?;
        ctx.op(|| "a >>= k".into());
        let mut q = p;
        q >>= k;
        chk(ctx, "dense a >>= k", &q, &w)?;
    }
    Ok(())
}
fn sparse_shift<N: Ring>(ctx: &mut Ctx, v: &[(usize, i64)], k: i32) -> R {
    let m = of_map(v);
    let top = v.iter().map(|x| x.0).max().unwrap_or(0);
    let room = |k: i64| k <= 0 || top.checked_add(k as usize).is_some();
    let p = sparse::<N>(v);
    let single = if v.len() == 1 { Some(mono::<N>(v[0].1, v[0].0)) } else { None };
    if room(k as i64) {
        let w = shifted(&m, k as i64).unwrap();
        ctx.op(|| format!("sparse {:?} << {}", p, k));
        let r = p.dup() << k;
        chk(ctx, "sparse a << k", &r, &w)?;
        ctx.op(|| "a <<= k".into());
        let mut q = p.dup();
        q <<= k;
        chk(ctx, "sparse a <<= k", &q, &w)?;
        if k > 0 {
            ctx.op(|| "(a << k) >> k".into());
            chk(ctx, "sparse (a << k) >> k", &(r >> k), &m)?;
        }
        if let Some(s) = &single {
            ctx.op(|| format!("{:?} << {}", s, k));
            let r = s.dup() << k;
            chk(ctx, "monomial a << k", &r, &w)?;
            ctx.op(|| "a <<= k".into());
            let mut q = s.dup();
            q <<= k;
            chk(ctx, "monomial a <<= k", &q, &w)?;
            if k > 0 {
                ctx.op(|| "(a << k) >> k".into());
                chk(ctx, "monomial (a << k) >> k", &(r >> k), &m)?;
            }
        }
    }
    if room(-(k as i64)) {
        let w = shifted(&m, -(k as i64)).unwrap();
        ctx.op(|| format!("sparse {:?} >> {}", p, k));
        chk(ctx, "sparse a >> k", &(p.dup() >> k), &w)?;
        ctx.op(|| "a >>= k".into());
        let mut q = p;
        q >>= k;
        chk(ctx, "sparse a >>= k", &q, &w)?;
        if let Some(s) = single {
            ctx.op(|| format!("{:?} >> {}", s, k));
            chk(ctx, "monomial a >> k", &(s.dup() >> k), &w)?;
            ctx.op(|| "a >>= k".into());
            let mut q = s;
            q >>= k;
            chk(ctx, "monomial a >>= k", &q, &w)?;
        }
    }
    Ok(())
}
fn small_shift<N: Ring>(ctx: &mut Ctx, v: &[i64], k: u32) -> R {
    let w = shr(&of_dense(v), k as usize);
    if v.len() == 2 {
        ctx.op(|| format!("binomial {:?} >> {}", v, k));
        chk(ctx, "binomial a >> k", &(bi::<N>(v) >> k), &w)?;
        let mut q = bi::<N>(v);
        ctx.op(|| "a >>= k".into());
        q >>= k;
        chk(ctx, "binomial a >>= k", &q, &w)?;
    }
    if v.len() == 3 {
        ctx.op(|| format!("trinomial {:?} >> {}", v, k));
        chk(ctx, "trinomial a >> k", &(tri::<N>(v) >> k), &w)?;
        let mut q = tri::<N>(v);
        ctx.op(|| "a >>= k".into());
        q >>= k;
        chk(ctx, "trinomial a >>= k", &q, &w)?;
    }
    Ok(())
}
fn amounts(n: i32) -> Vec<i32> {
    (-n..=n).chain((8..31).flat_map(|b| [(1 << b) - 1, 1 << b, (1 << b) + 1, -(1 << b), -(1 << b) - 1, 1 - (1 << b)])).chain([i32::MAX, i32::MAX - 1, i32::MIN, i32::MIN + 1, i32::MIN + 2, -1000, 1000]).collect()
}
fn suite<N: Ring>(s: &mut Suites, dom: &Arc<Vec<Vec<i64>>>, n: i32) {
    let d = dom.clone();
    let ks = amounts(n);
    let l = ks.len();
    let us: Arc<Vec<u32>> = Arc::new((0..40).chain((6..32).flat_map(|b| [(1u32 << b) - 1, 1 << b, (1 << b) + 1])).chain([u32::MAX, u32::MAX - 1]).collect());
    s.add(&format!("{} vectors", N::NAME), &format!("every vector (stored leading zeros included) by every amount -{n}..={n}, around every power of two, and the extreme i32 amounts; dense, sparse with explicit zeros, monomial, binomial, trinomial, each by value and in place"), (d.len() * l) as u64, move |c, i| {
        let (a, k) = split(i, l);
        dense_shift::<N>(c, &d[a], ks[k])?;
        sparse_shift::<N>(c, &as_map(&d[a]), ks[k])?;
        sparse_shift::<N>(c, &stripped(&d[a]), ks[k])?;
        if k == 0 && (d[a].len() == 2 || d[a].len() == 3) {
            for &u in us.iter() {
                small_shift::<N>(c, &d[a], u)?;
            }
        }
        Ok(())
    });
}
fn build(th: bool) -> Suites {
    let mut s = Suites::default();
    let mut wide = patterns(if th { 11 } else { 9 }, &[3, -5, 7, -11, 13, -17, 19]);
    wide.extend(long_two(if th { 26 } else { 16 }, 2, -3));
    wide.extend(full(lengths(40), 1));
    wide.extend(vecs(3, &[0, 1, -1, 2]));
    let wide = Arc::new(wide);
    suite::<i32>(&mut s, &wide, if th { 140 } else { 70 });
    suite::<i64>(&mut s, &Arc::new(pair_blocks(th)), 36);
    let lb = Arc::new(long_blocks(th));
    suite::<i64>(&mut s, &lb, 1);
    let hu = huge(th);
    let hk: Vec<i32> = vec![0, 1, -1, 3, -3, 300, -300, 32768, -32768, 65535, -65535, 65536, -65536, 65537, -65537, 65538, i32::MIN, i32::MAX];
    let l = hk.len();
    s.add("i64 huge", "vectors of lengths 2^16 and 2^16+1 (thorough around 2^15, 2^16, 10^5, up to 2^20) by 18 amounts around their length", (hu.len() * l) as u64, move |c, i| {
        let (a, k) = split(i, l);
        dense_shift::<i64>(c, &hu[a], hk[k])?;
        sparse_shift::<i64>(c, &as_map(&hu[a]), hk[k])
    });
    let sv = Arc::new(vecs(if th { 5 } else { 4 }, &[0, 1, -1, 2]));
    let uv = Arc::new(vecs(if th { 5 } else { 4 }, &[0, 1, 2]));
    suite::<i8>(&mut s, &sv, 8);
    suite::<i16>(&mut s, &sv, 8);
    suite::<i64>(&mut s, &sv, 8);
    suite::<i128>(&mut s, &sv, 8);
    suite::<isize>(&mut s, &sv, 8);
    suite::<f32>(&mut s, &sv, 8);
    suite::<f64>(&mut s, &sv, 8);
    suite::<Ratio<i64>>(&mut s, &sv, 8);
    suite::<Complex<i32>>(&mut s, &sv, 8);
    suite::<Gf<3>>(&mut s, &uv, 8);
    suite::<u8>(&mut s, &uv, 8);
    suite::<u16>(&mut s, &uv, 8);
    suite::<u32>(&mut s, &uv, 8);
    suite::<u64>(&mut s, &uv, 8);
    suite::<u128>(&mut s, &uv, 8);
    suite::<usize>(&mut s, &uv, 8);
    let ms = maps(&[0, 1, 2, 70, (1 << 31) - 1, 1 << 31, (1 << 32) + 5, usize::MAX - 1], if th { &[0, 1, -3] } else { &[0, 3] });
    let ks = amounts(72);
    let l = ks.len();
    s.add("i64 sparse maps", "every map over 8 degrees up to 2^64-2, entries absent, zero or non-zero, by every amount whose degrees fit", (ms.len() * l) as u64, move |c, i| {
        let (a, k) = split(i, l);
        sparse_shift::<i64>(c, &ms[a], ks[k])
    });
    let degs: Vec<usize> = (0..=80).chain((7..64).flat_map(|b| [(1usize << b) - 1, 1 << b, (1 << b) + 1])).chain([usize::MAX - 1, usize::MAX]).collect();
    let ks = amounts(90);
    let l = ks.len();
    s.add("i32 one term", "one entry (zero or non-zero) at every degree 0..=80 and around every power of two up to 2^64-1, by every amount", (degs.len() * l) as u64, move |c, i| {
        let (a, k) = split(i, l);
        sparse_shift::<i32>(c, &[(degs[a], 7)], ks[k])?;
        sparse_shift::<i32>(c, &[(degs[a], 0)], ks[k])
    });
    s.add("i64 every length", "for every length 0..=1300 (thorough 4200) and 35 lengths around round numbers and powers of two up to 32770, eight shapes (all non-zero; only the constant, leading or middle entry; one leading zero; all zero; alternating; leading half zero): by 0, +-1, half the length, the length and its neighbours, and 40 more", every_count(if th { 4200 } else { 1300 }), |c, i| {
        let a = every_len(i);
        let n = a.len() as i32;
        for k in [0, 1, -1, n / 2, n - 1, n, n + 1, n + 40] {
            dense_shift::<i64>(c, &a, k)?;
            sparse_shift::<i64>(c, &as_map(&a), k)?;
            sparse_shift::<i64>(c, &stripped(&a), k)?;
        }
        Ok(())
    });
    macro_rules! floats {
        ($t:ty, $vals:expr) => {{
            let all = any_vecs::<$t>(3, &$vals);
            s.add(concat!(stringify!($t), " tiny and huge"), "every vector of length <= 3 over 9 values from the smallest subnormal to 1e300 (1e30 for f32), by -4..=4: the same numbers, moved, dense, sparse, monomial, binomial, trinomial", all.len() as u64 * 9, move |c, i| {
                let (v, k) = split(i, 9);
                let (v, k) = (&all[v], k as i32 - 4);
                let w: Vec<(usize, $t)> = v.iter().rev().enumerate().filter(|x| *x.1 != 0.0 && x.0 as i32 + k >= 0).map(|x| ((x.0 as i32 + k) as usize, *x.1)).collect();
                let d = |p: &rustnomial::Polynomial<$t>| p.terms.iter().rev().cloned().enumerate().filter(|x| x.1 != 0.0).collect::<Vec<_>>();
                let e = |p: &rustnomial::SparsePolynomial<$t>| p.terms.iter().map(|x| (*x.0, *x.1)).filter(|x| x.1 != 0.0).collect::<Vec<_>>();
                let p = rustnomial::Polynomial { terms: v.dup() };
                let q = rustnomial::SparsePolynomial { terms: v.iter().rev().cloned().enumerate().collect() };
                c.op(|| format!("{:?} << {}", p, k));
                let (mut p1, mut p2, mut q1, mut q2) = (p.dup(), p.dup(), q.dup(), q.dup());
                p1 <<= k;
                p2 >>= -k;
                q1 <<= k;
                q2 >>= -k;
                for r in [p1, p2, p.dup() << k, p.dup() >> -k] {
                    c.state(&r.raw());
                    ensure!(d(&r) == w, "dense {:?} shifted by {} gives {:?}", v, k, r);
                }
                for r in [q1, q2, q.dup() << k, q.dup() >> -k] {
                    ensure!(e(&r) == w, "sparse {:?} shifted by {} gives {:?}", v, k, r);
                }
                if v.len() == 1 {
                    let m = rustnomial::Monomial { coefficient: v[0], deg: 3 };
                    for r in [m.clone() << k, m >> -k] {
                        let want = if k < -3 { 0.0 } else { v[0] };
                        ensure!(r.coefficient == want && (want == 0.0 || r.deg as i32 == 3 + k), "monomial {}x^3 shifted by {} gives {:?}", v[0], k, r);
                    }
                }
                if k <= 0 && v.len() == 2 {
                    let r = rustnomial::LinearBinomial { coefficients: [v[0], v[1]] } >> (-k) as u32;
                    let r: Vec<(usize, $t)> = r.coefficients.iter().rev().cloned().enumerate().filter(|x| x.1 != 0.0).collect();
                    ensure!(r == w, "binomial {:?} >> {} gives {:?}", v, -k, r);
                }
                if k <= 0 && v.len() == 3 {
                    let r = rustnomial::QuadraticTrinomial { coefficients: [v[0], v[1], v[2]] } >> (-k) as u32;
                    let r: Vec<(usize, $t)> = r.coefficients.iter().rev().cloned().enumerate().filter(|x| x.1 != 0.0).collect();
                    ensure!(r == w, "trinomial {:?} >> {} gives {:?}", v, -k, r);
                }
                Ok(())
            });
        }};
    }
    floats!(f64, TINY64);
    floats!(f32, TINY32);
    macro_rules! all_types {
        ($u:expr; $($t:ty),*) => {$(
            s.add(concat!(stringify!($t), " mid lengths"), "for every length 0..=140 (thorough 700), eight shapes (all non-zero; only the constant, leading or middle entry; one leading zero; all zero; alternating; leading half zero): by 0, +-1, +-7, half the length, the length and its neighbours", mid_count(if th { 700 } else { 140 }), |c, i| {
                let a = mid_len(i, $u);
                let n = a.len() as i32;
                for k in [0, 1, -1, 7, -7, n / 2, -n / 2, n - 1, 1 - n, n, -n, n + 1, -1 - n] {
                    dense_shift::<$t>(c, &a, k)?;
                    sparse_shift::<$t>(c, &as_map(&a), k)?;
                    sparse_shift::<$t>(c, &stripped(&a), k)?;
                }
                Ok(())
            });
        )*};
    }
    all_types!(false; i8, i16, i32, i128, isize, f32, f64, Ratio<i64>, Complex<i32>);
    all_types!(true; u8, u16, u32, u64, u128, usize);
    s.add("i64 lifted", &format!("{}: by 0, +-1, +-5, +-20, +-100, +-65536 and the largest amounts", LIFTED), lifted_count(), |c, i| {
        let a = lifted(i, false);
        for k in [0, 1, -1, 5, -5, 20, -20, 100, -100, 65536, -65536, -65540, -65550, i32::MAX, i32::MIN, i32::MIN + 1] {
            sparse_shift::<i64>(c, &a, k)?;
        }
        Ok(())
    });
    s.spare(&["i32 vectors", "mid lengths"]);
    s
}
fn main() {
    vharness::engine::main(Prop {
        id: "C06",
        assumptions: &["degrees that exceed usize are outside the property", "left shifts of dense polynomials by more than 5000 (70000 for the longest operands) are not executed (memory)"],
        build,
    });
}
