//! C07: observers and equality.
use num::rational::Ratio;
use num::Complex;
use rustnomial::{FreeSizePolynomial, LinearBinomial, Monomial, Polynomial, QuadraticTrinomial, SizedPolynomial, SparsePolynomial, Term};
use std::sync::Arc;
use vharness::coef::*;
use vharness::dom::*;
use vharness::engine::*;
use vharness::ensure;
use vharness::model::*;
use vharness::obs::*;

fn zeroed<N: Ring, P: SizedPolynomial<N> + Iterate<N> + Rep + Dup + PartialEq>(ctx: &mut Ctx, what: &str, p: &P, m: &M) -> R {
    let c = p.clone();
    observe::<N, P>(ctx, &format!("clone of {}", what), &c, m)?;
    ensure!(c == *p && *p == c, "{}: {:?} does not equal its clone", what, p);
    ensure!(!(c != *p), "{}: {:?} differs from its clone", what, p);
    ensure!(p.eq(p) && !p.ne(p), "{}: {:?} does not equal itself", what, p);
    ctx.op(|| "iterator".into());
    p.protocol()?;
    let z = P::zero();
    let (mut c, mut d) = (z.clone(), p.clone());
    c.clone_from(p);
    d.clone_from(&z);
    observe::<N, P>(ctx, &format!("zero overwritten by a clone of {}", what), &c, m)?;
    observe::<N, P>(ctx, &format!("{} overwritten by a clone of zero", what), &d, &vec![])?;
    observe::<N, P>(ctx, &format!("zero {}", what), &z, &vec![])?;
    ensure!((z == *p) == m.is_empty() && (*p == z) == m.is_empty(), "{}: comparison of {:?} with zero", what, p);
    let mut c = p.dup();
    ctx.op(|| "set_to_zero".into());
    c.set_to_zero();
    observe::<N, P>(ctx, &format!("{} set to zero", what), &c, &vec![])?;
    ensure!(c == z && z == c, "{}: {:?} set to zero does not equal zero: {:?}", what, p, c);
    observe::<N, P>(ctx, what, p, m)
}
/// Everything about one polynomial.
fn single<N: Ring>(ctx: &mut Ctx, v: &[i64]) -> R {
    let m = red::<N>(of_dense(v));
    let p = dense::<N>(v);
    observe::<N, _>(ctx, "dense", &p, &m)?;
    zeroed::<N, _>(ctx, "dense", &p, &m)?;
    let mut t = p.dup();
    ctx.op(|| "trim".into());
    t.trim();
    observe::<N, _>(ctx, "trimmed dense", &t, &m)?;
    ensure!(t.terms.first().is_none_or(|c| !c.is_zero()), "trim left {:?}", t);
    ensure!(t == p && p == t, "{:?} does not equal its trimmed {:?}", p, t);
    ctx.op(|| "new".into());
    let n = Polynomial::new(p.terms.dup());
    observe::<N, _>(ctx, "Polynomial::new", &n, &m)?;
    ensure!(n == p && p == n, "{:?} does not equal {:?}", p, n);
    sparse_single::<N>(ctx, &as_map(v))?;
    sparse_single::<N>(ctx, &stripped(v))?;
    ctx.op(|| "sparse from Vec".into());
    let s = SparsePolynomial::from(p.terms.dup());
    observe::<N, _>(ctx, "SparsePolynomial::from(Vec)", &s, &m)?;
    ensure!(s == sparse::<N>(&as_map(v)), "sparse {:?} does not equal itself with explicit zeros", s);
    // rebuilding from terms, in both orders, one by one and with zero terms mixed in
    let fw: Vec<(N, usize)> = as_map(v).iter().map(|x| (N::mk(x.1 as i128), x.0)).collect();
    let bw: Vec<(N, usize)> = fw.iter().rev().cloned().collect();
    for l in [&fw, &bw] {
        ctx.op(|| format!("from_terms({:?})", l));
        let a = Polynomial::from_terms(l);
        observe::<N, _>(ctx, "dense from_terms", &a, &m)?;
        ensure!(a == p && p == a, "dense from_terms({:?}) = {:?} does not equal {:?}", l, a, p);
        let b = SparsePolynomial::from_terms(l);
        observe::<N, _>(ctx, "sparse from_terms", &b, &m)?;
        ensure!(b == s && s == b, "sparse from_terms({:?}) = {:?} does not equal {:?}", l, b, s);
    }
    ctx.op(|| "rebuilt from its own terms".into());
    observe::<N, _>(ctx, "dense from its terms", &Polynomial::from_terms(&p.terms_as_vec()), &m)?;
    observe::<N, _>(ctx, "sparse from its terms", &SparsePolynomial::from_terms(&s.terms_as_vec()), &m)?;
    if v.len() == 2 {
        let b = bi::<N>(v);
        zeroed::<N, _>(ctx, "binomial", &b, &m)?;
        zeroed::<N, _>(ctx, "LinearBinomial::new", &LinearBinomial::new(b.coefficients), &m)?;
    }
    if v.len() == 3 {
        let b = tri::<N>(v);
        zeroed::<N, _>(ctx, "trinomial", &b, &m)?;
        zeroed::<N, _>(ctx, "QuadraticTrinomial::new", &QuadraticTrinomial::new(b.coefficients), &m)?;
    }
    Ok(())
}
fn sparse_single<N: Ring>(ctx: &mut Ctx, v: &[(usize, i64)]) -> R {
    let m = red::<N>(of_map(v));
    let p = sparse::<N>(v);
    zeroed::<N, _>(ctx, "sparse", &p, &m)?;
    observe::<N, _>(ctx, "SparsePolynomial::new", &SparsePolynomial::new(p.terms.clone()), &m)?;
    if v.len() == 1 {
        let p = mono::<N>(v[0].1, v[0].0);
        zeroed::<N, _>(ctx, "monomial", &p, &m)?;
        zeroed::<N, _>(ctx, "Monomial::new", &Monomial::new(p.coefficient, p.deg), &m)?;
    }
    Ok(())
}
/// Equality of every pair is equality of the polynomials.
fn pair_dense<N: Ring>(ctx: &mut Ctx, a: &[i64], b: &[i64]) -> R {
    let w = red::<N>(of_dense(a)) == red::<N>(of_dense(b));
    ctx.outcome(if w { "equal" } else { "different" });
    let (x, y) = (dense::<N>(a), dense::<N>(b));
    ctx.op(|| format!("{:?} == {:?}", x, y));
    ctx.state(&(x.raw(), y.raw()));
    ensure!((x == y) == w && (x != y) != w, "dense {:?} == {:?} gives {}", x, y, x == y);
    for (p, q) in [(as_map(a), as_map(b)), (stripped(a), as_map(b)), (as_map(a), stripped(b)), (stripped(a), stripped(b))] {
        let (x, y) = (sparse::<N>(&p), sparse::<N>(&q));
        ctx.op(|| format!("{:?} == {:?}", x, y));
        ensure!((x == y) == w && (x != y) != w, "sparse {:?} == {:?} gives {}", x, y, x == y);
    }
    if a.len() == 2 && b.len() == 2 {
        let (x, y) = (bi::<N>(a), bi::<N>(b));
        ctx.op(|| format!("{:?} == {:?}", x, y));
        ensure!((x == y) == w && (x != y) != w, "binomial {:?} == {:?} gives {}", x, y, x == y);
    }
    if a.len() == 3 && b.len() == 3 {
        let (x, y) = (tri::<N>(a), tri::<N>(b));
        ctx.op(|| format!("{:?} == {:?}", x, y));
        ensure!((x == y) == w && (x != y) != w, "trinomial {:?} == {:?} gives {}", x, y, x == y);
    }
    Ok(())
}
fn pair_sparse<N: Ring>(ctx: &mut Ctx, a: &[(usize, i64)], b: &[(usize, i64)]) -> R {
    let w = of_map(a) == of_map(b);
    ctx.outcome(if w { "equal" } else { "different" });
    let (x, y) = (sparse::<N>(a), sparse::<N>(b));
    ctx.op(|| format!("{:?} == {:?}", x, y));
    ctx.state(&(x.raw(), y.raw()));
    ensure!((x == y) == w && (x != y) != w, "sparse {:?} == {:?} gives {}", x, y, x == y);
    if a.len() == 1 && b.len() == 1 {
        let (x, y) = (mono::<N>(a[0].1, a[0].0), mono::<N>(b[0].1, b[0].0));
        ctx.op(|| format!("{:?} == {:?}", x, y));
        ensure!((x == y) == w && (x != y) != w, "monomial {:?} == {:?} gives {}", x, y, x == y);
    }
    Ok(())
}
fn singles<N: Ring>(s: &mut Suites, name: &str, bounds: &str, dom: Vec<Vec<i64>>) {
    s.add(&format!("{} {}", N::NAME, name), bounds, dom.len() as u64, move |c, i| single::<N>(c, &dom[i as usize]));
}
fn pairs<N: Ring>(s: &mut Suites, name: &str, bounds: &str, dom: &Arc<Vec<Vec<i64>>>) {
    let d = dom.clone();
    let n = d.len();
    s.add(&format!("{} {}", N::NAME, name), bounds, (n * n) as u64, move |c, i| {
        let (a, b) = split(i, n);
        pair_dense::<N>(c, &d[a], &d[b])
    });
}
macro_rules! signed_zero {
    ($s:expr, $t:ty) => {{
        let vals: [$t; 4] = [0.0, -0.0, 1.0, -1.5];
        let total: u64 = (0..=4u32).map(|k| 4u64.pow(k)).sum();
        let get = move |i: u64| {
            let (mut i, mut len) = (i, 0u32);
            while i >= 4u64.pow(len) { i -= 4u64.pow(len); len += 1; }
            (0..len).map(|k| vals[(i / 4u64.pow(k) % 4) as usize]).collect::<Vec<$t>>()
        };
        $s.add(concat!(stringify!($t), " negative zero"), "every pair of vectors of length <=4 over {0,-0,1,-1.5}: both zeros are no term", total * total, move |ctx, i| {
            let (a, b) = (get(i / total), get(i % total));
            let den = |v: &[$t]| { let n = v.len(); v.iter().enumerate().filter(|x| *x.1 != 0.0).map(|(k, &c)| (n - 1 - k, (c * 2.0) as i128)).rev().collect::<M>() };
            let (ma, mb) = (den(&a), den(&b));
            let w = ma == mb;
            let (x, y) = (Polynomial { terms: a.clone() }, Polynomial { terms: b.clone() });
            ctx.op(|| format!("{:?} == {:?}", x, y));
            ensure!((x == y) == w && (x != y) != w, "dense {:?} == {:?} gives {}", x, y, x == y);
            let sp = |v: &[$t]| SparsePolynomial { terms: v.iter().rev().cloned().enumerate().collect() };
            let (x, y) = (sp(&a), sp(&b));
            ensure!((x == y) == w && (x != y) != w, "sparse {:?} == {:?} gives {}", x, y, x == y);
            if i % total == 0 {
                let p = Polynomial { terms: a.clone() };
                ctx.state(&p.raw());
                ensure!(p.is_zero() == ma.is_empty() && p.terms_as_vec().len() == ma.len(), "zero test or terms of {:?}", p);
                let n = Polynomial::new(a.clone());
                ensure!(n.terms.first().is_none_or(|c| *c != 0.0), "new({:?}) left {:?}", a, n);
                ensure!(x.is_zero() == ma.is_empty() && x.terms_as_vec().len() == ma.len(), "zero test or terms of {:?}", x);
            }
            if a.len() == 1 && b.len() == 1 {
                for (da, db) in [(0usize, 0usize), (0, 3), (3, 3)] {
                    let (x, y) = (Monomial { coefficient: a[0], deg: da }, Monomial { coefficient: b[0], deg: db });
                    let w = (a[0] == 0.0 && b[0] == 0.0) || (a[0] == b[0] && da == db);
                    ensure!((x == y) == w, "{:?} == {:?} gives {}", x, y, x == y);
                    ensure!(x.is_zero() == (a[0] == 0.0), "is_zero of {:?}", x);
                }
            }
            if a.len() == 3 && b.len() == 3 {
                let (x, y) = (QuadraticTrinomial { coefficients: [a[0], a[1], a[2]] }, QuadraticTrinomial { coefficients: [b[0], b[1], b[2]] });
                ensure!((x == y) == w, "{:?} == {:?} gives {}", x, y, x == y);
            }
            if a.len() == 2 && b.len() == 2 {
                let (x, y) = (LinearBinomial { coefficients: [a[0], a[1]] }, LinearBinomial { coefficients: [b[0], b[1]] });
                ensure!((x == y) == w, "{:?} == {:?} gives {}", x, y, x == y);
            }
            Ok(())
        });
    }};
}
fn build(th: bool) -> Suites {
    let mut s = Suites::default();
    singles::<i32>(&mut s, "patterns", "every zero/non-zero pattern of length <=14 (thorough <=17): observers, clone, trim, new, from_terms, reset", patterns(if th { 17 } else { 14 }, &[3, -5, 7, -11, 13, -17, 19]));
    singles::<i64>(&mut s, "long", "every vector of length <=40 (thorough <=90) with at most two non-zeros at every position", long_two(if th { 90 } else { 40 }, 2, -3));
    singles::<i32>(&mut s, "lengths", "every length 0..=130 and around powers of two up to 1025, all non-zero, and the same behind 1..=9 stored leading zeros", full(lengths(130), 1).into_iter().flat_map(|v| (0..10).map(move |z| { let mut w = vec![0; z]; w.extend(&v); w })).collect());
    singles::<i64>(&mut s, "runs", "every vector made of alternating runs of zeros and non-zeros, run lengths around every power of two up to 1025 (and 2000, 4096)", long_blocks(th));
    macro_rules! each {
        ($($t:ty),*) => {$( singles::<$t>(&mut s, "vectors", "every vector of length <=4 over 3 values", vecs(4, &[0, 1, 2])); )*};
    }
    each!(i8, i16, i64, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64, Ratio<i64>, Complex<i32>, Gf<3>);
    let degs = [0usize, 1, 2, 5, 40, 1 << 32, usize::MAX];
    let ms = maps(&degs, &[0, 1, -2]);
    s.add("i32 sparse maps", "every map over 7 degrees up to 2^64-1, entries absent, explicit zero or one of 2 values", ms.len() as u64, move |c, i| sparse_single::<i32>(c, &ms[i as usize]));
    let one: Vec<(usize, i64)> = (0..=70).chain((7..64).flat_map(|b| [(1usize << b) - 1, 1 << b])).chain([usize::MAX]).flat_map(|d| [(d, 0), (d, 5)]).collect();
    let o2 = one.clone();
    s.add("i32 one-term", "one entry, zero or not, at every degree 0..=70 and around powers of two, as sparse and monomial", one.len() as u64, move |c, i| sparse_single::<i32>(c, &[one[i as usize]]));
    let n = o2.len();
    s.add("i32 one-term pairs", "every pair of those compared", (n * n) as u64, move |c, i| {
        let (a, b) = split(i, n);
        pair_sparse::<i32>(c, &[o2[a]], &[o2[b]])
    });
    let ed = edge_degs();
    s.add("i64 edge degrees", "for every degree d around a power of two or ten up to 2^64-1: every map over degrees {0, d-1, d, d+1}, each absent, explicit zero or one of 2 values, by every observer and compared with every other", ed.len() as u64, move |c, i| {
        let l = around(ed[i as usize], &[0, 1, -2]);
        for a in &l {
            sparse_single::<i64>(c, a)?;
            for b in &l {
                pair_sparse::<i64>(c, a, b)?;
            }
        }
        Ok(())
    });
    singles::<i64>(&mut s, "huge", "vectors of lengths 2^16 and 2^16+1 (thorough around 2^15, 2^16, 10^5, up to 2^20), full, only the ends, only inner terms, half leading zeros", huge(th));
    pairs::<i64>(&mut s, "huge pairs", "every pair of those", &Arc::new(huge(false)));
    let ms = maps(&[0, 1, 5, usize::MAX], if th { &[0, 1, 2, -2] } else { &[0, 1, -2] });
    let n = ms.len();
    s.add("i32 sparse map pairs", "every pair of maps over {0,1,5,2^64-1} compared", (n * n) as u64, move |c, i| {
        let (a, b) = split(i, n);
        pair_sparse::<i32>(c, &ms[a], &ms[b])
    });
    pairs::<i32>(&mut s, "pairs", "every pair of vectors of length <=5 (thorough <=6) over {0,1,-2} compared, so every pair that differs only in stored zeros", &Arc::new(vecs(if th { 6 } else { 5 }, &[0, 1, -2])));
    pairs::<i64>(&mut s, "long pairs", "every pair of vectors of length <=16 with at most one non-zero, and all-non-zero ones", &Arc::new(long_one(if th { 26 } else { 16 }, 2)));
    pairs::<i64>(&mut s, "pairs of runs", "every pair of vectors made of up to 3 alternating runs of lengths 1, 8, 33 (thorough more), or 2 of lengths 1, 65, 257, 1025", &Arc::new(pair_blocks(th)));
    // near-equal pairs: the same long vector with one coefficient changed, at every position
    let fa = full([1, 2, 7, 8, 9, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 257, 300, 512, 513, 1024, 1025], 1);
    let near: Vec<(usize, usize)> = fa.iter().enumerate().flat_map(|(k, v)| (0..v.len()).map(move |p| (k, p))).collect();
    s.add("i64 near pairs", "full vectors of 21 lengths up to 1025 against themselves with one coefficient changed or zeroed, at every position, behind 0 or 3 stored leading zeros", near.len() as u64, move |c, i| {
        let (k, p) = near[i as usize];
        let v = &fa[k];
        for x in [0, 9] {
            let mut w = v.clone();
            w[p] = x;
            pair_dense::<i64>(c, v, &w)?;
            let mut z = vec![0; 3];
            z.extend(&w);
            pair_dense::<i64>(c, &z, v)?;
            pair_dense::<i64>(c, &z, &w)?;
        }
        Ok(())
    });
    let t = Arc::new(vecs(3, &[0, 1, 2]));
    macro_rules! eachp {
        ($($t:ty),*) => {$( pairs::<$t>(&mut s, "pairs", "every pair of vectors of length <=3 over 3 values compared", &t); )*};
    }
    eachp!(i8, i16, i64, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64, Ratio<i64>, Complex<i32>, Gf<3>);
    signed_zero!(s, f64);
    signed_zero!(s, f32);
    s.add("i64 every length", "for every length 0..=1300 (thorough 4200) and 35 lengths around round numbers and powers of two up to 32770, eight shapes (all non-zero; only the constant, leading or middle entry; one leading zero; all zero; alternating; leading half zero): every observer, and compared with a padded copy, the vector one longer and one that differs in one entry", every_count(if th { 4200 } else { 1300 }), |c, i| {
        let a = every_len(i);
        single::<i64>(c, &a)?;
        let mut pad = vec![0; 1 + a.len() % 5];
        pad.extend(&a);
        pair_dense::<i64>(c, &a, &pad)?;
        pair_dense::<i64>(c, &a, &every_len(i + SHAPES))?;
        for p in [0, a.len() / 3, a.len().saturating_sub(1)] {
            let mut b = a.clone();
            if let Some(x) = b.get_mut(p) {
                *x += 20;
                pair_dense::<i64>(c, &a, &b)?;
                pair_dense::<i64>(c, &b, &pad)?;
            }
        }
        Ok(())
    });
    let ed = edge_degs();
    let forms = vecs(3, &[0, 1, -2]);
    s.add("i64 queries at edge degrees", "the term at every degree around a power of two or ten up to 2^64-1, of every vector of length <= 3 over 3 values as dense, sparse, binomial, trinomial, and of monomials of degrees 0, 1, 5 and that degree", ed.len() as u64, move |c, i| {
        let d = ed[i as usize];
        c.op(|| format!("term_with_degree({})", d));
        let ask = |t: Term<i64>, m: &M, of: &dyn std::fmt::Debug| -> R {
            let w = m.iter().find(|x| x.0 == d).map(|x| x.1 as i64);
            let ok = match t {
                Term::ZeroTerm => w.is_none(),
                Term::Term(k, e) => e == d && Some(k) == w,
            };
            ensure!(ok, "term_with_degree({}) of {:?} is {:?}", d, of, t);
            Ok(())
        };
        for v in &forms {
            let m = of_dense(v);
            let p = dense::<i64>(v);
            ask(p.term_with_degree(d), &m, &p)?;
            let p = sparse::<i64>(&as_map(v));
            ask(p.term_with_degree(d), &m, &p)?;
            if v.len() == 2 {
                let p = bi::<i64>(v);
                ask(p.term_with_degree(d), &m, &p)?;
            }
            if v.len() == 3 {
                let p = tri::<i64>(v);
                ask(p.term_with_degree(d), &m, &p)?;
            }
            if v.len() == 1 {
                for e in [0, 1, 5, d, d.wrapping_add(1), d ^ (1 << 63), d ^ (1 << 32)] {
                    let p = mono::<i64>(v[0], e);
                    ask(p.term_with_degree(d), &norm([(e, v[0] as i128)]), &p)?;
                }
            }
        }
        Ok(())
    });
    macro_rules! floats {
        ($t:ty, $vals:expr) => {{
            let all = any_vecs::<$t>(3, &$vals);
            let n = all.len();
            s.add(concat!(stringify!($t), " tiny and huge"), "every vector of length <= 3 over 9 values from the smallest subnormal to 1e300 (1e30 for f32), by every observer; every pair compared", (n * n) as u64, move |c, i| {
                let (a, b) = split(i, n);
                let (a, b) = (&all[a], &all[b]);
                let den = |v: &[$t]| v.iter().enumerate().filter(|x| *x.1 != 0.0).map(|x| (*x.1, v.len() - 1 - x.0)).collect::<Vec<_>>();
                let (ma, mb) = (den(a), den(b));
                let (x, y) = (Polynomial { terms: a.clone() }, Polynomial { terms: b.clone() });
                let sp = |v: &[$t]| SparsePolynomial { terms: v.iter().rev().cloned().enumerate().collect() };
                let (p, q) = (sp(a), sp(b));
                c.op(|| format!("{:?} == {:?}", x, y));
                let w = ma == mb;
                ensure!((x == y) == w && (x != y) != w, "dense {:?} == {:?} gives {}", x, y, x == y);
                ensure!((p == q) == w && (p != q) != w, "sparse {:?} == {:?} gives {}", p, q, p == q);
                if a.len() == 2 && b.len() == 2 {
                    let (x, y) = (LinearBinomial { coefficients: [a[0], a[1]] }, LinearBinomial { coefficients: [b[0], b[1]] });
                    ensure!((x == y) == w && (x != y) != w, "{:?} == {:?} gives {}", x, y, x == y);
                }
                if a.len() == 3 && b.len() == 3 {
                    let (x, y) = (QuadraticTrinomial { coefficients: [a[0], a[1], a[2]] }, QuadraticTrinomial { coefficients: [b[0], b[1], b[2]] });
                    ensure!((x == y) == w && (x != y) != w, "{:?} == {:?} gives {}", x, y, x == y);
                }
                if a.len() == 1 && b.len() == 1 {
                    let (x, y) = (Monomial { coefficient: a[0], deg: 4 }, Monomial { coefficient: b[0], deg: 4 });
                    ensure!((x == y) == w && (x != y) != w, "{:?} == {:?} gives {}", x, y, x == y);
                }
                if i % n as u64 == 0 {
                    macro_rules! look { ($p:expr, $what:expr) => {{
                        let p = &$p;
                        c.op(|| format!("observers of {:?}", p));
                        c.state(&p.raw());
                        ensure!(p.terms_as_vec() == ma && p.ordered_term_iter().collect::<Vec<_>>() == ma, "{}: terms of {:?} are {:?}", $what, p, p.terms_as_vec());
                        ensure!(p.is_zero() == ma.is_empty(), "{}: is_zero of {:?}", $what, p);
                        ensure!(p.degree() == ma.first().map_or(rustnomial::Degree::NegInf, |x| rustnomial::Degree::Num(x.1)), "{}: degree of {:?}", $what, p);
                        for d in 0..4 {
                            let t = ma.iter().find(|x| x.1 == d).map_or(Term::ZeroTerm, |x| Term::Term(x.0, d));
                            ensure!(p.term_with_degree(d) == t, "{}: term_with_degree({}) of {:?}", $what, d, p);
                        }
                    }}; }
                    look!(x, "dense");
                    look!(p, "sparse");
                    let mut t = x.clone();
                    t.trim();
                    look!(t, "trimmed");
                    look!(Polynomial::new(a.clone()), "new");
                    look!(SparsePolynomial::from(a.clone()), "sparse from list");
                    look!(Polynomial::from_terms(&ma), "from_terms");
                    look!(SparsePolynomial::from_terms(&ma), "sparse from_terms");
                    if a.len() == 2 {
                        look!(LinearBinomial { coefficients: [a[0], a[1]] }, "binomial");
                    }
                    if a.len() == 3 {
                        look!(QuadraticTrinomial { coefficients: [a[0], a[1], a[2]] }, "trinomial");
                    }
                    if a.len() == 1 {
                        look!(Monomial { coefficient: a[0], deg: 0 }, "monomial");
                    }
                }
                Ok(())
            });
        }};
    }
    floats!(f64, TINY64);
    floats!(f32, TINY32);
    macro_rules! all_types {
        ($u:expr; $($t:ty),*) => {$(
            s.add(concat!(stringify!($t), " mid lengths"), "for every length 0..=140 (thorough 700), eight shapes (all non-zero; only the constant, leading or middle entry; one leading zero; all zero; alternating; leading half zero): every observer, and compared with a padded copy, the vector one longer and one that differs in one entry", mid_count(if th { 700 } else { 140 }), |c, i| {
                let a = mid_len(i, $u);
                single::<$t>(c, &a)?;
                let mut pad = vec![0; 1 + a.len() % 5];
                pad.extend(&a);
                pair_dense::<$t>(c, &a, &pad)?;
                pair_dense::<$t>(c, &a, &mid_len(i + SHAPES, $u))?;
                for k in [0, a.len() / 2, a.len().saturating_sub(1)] {
                    if k < a.len() {
                        let mut b = a.clone();
                        b[k] = if b[k] == 0 { 1 } else { 0 };
                        pair_dense::<$t>(c, &a, &b)?;
                        pair_sparse::<$t>(c, &as_map(&a), &stripped(&b))?;
                    }
                }
                pair_sparse::<$t>(c, &as_map(&a), &stripped(&a))
            });
        )*};
    }
    all_types!(false; i8, i16, i32, i128, isize, f32, f64, Ratio<i64>, Complex<i32>, Gf<7>);
    all_types!(true; u8, u16, u32, u64, u128, usize);
    s.add("i64 lifted", &format!("{}: by every observer; compared with itself rebuilt, the next length and shape, and itself with one coefficient or degree changed at every place", LIFTED), lifted_count(), |c, i| {
        let a = lifted(i, false);
        sparse_single::<i64>(c, &a)?;
        for j in [i, i ^ 2, i + 32, i + LIFT_LEN, i ^ 1, i ^ 4] {
            pair_sparse::<i64>(c, &a, &lifted(j, false))?;
        }
        for k in 0..a.len() {
            let mut b = a.clone();
            b[k].1 += 1;
            pair_sparse::<i64>(c, &a, &b)?;
            let mut b = a.clone();
            b.remove(k);
            pair_sparse::<i64>(c, &b, &a)?;
        }
        Ok(())
    });
    s.spare(&["mid lengths", "vectors", "small"]);
    s
}
fn main() {
    vharness::engine::main(Prop { id: "C07", assumptions: &["coefficients are not NaN"], build });
}
