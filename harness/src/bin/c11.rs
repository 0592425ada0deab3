//! C11: widening conversions.
use num::Zero;
use rustnomial::{LinearBinomial, Monomial, Polynomial, QuadraticTrinomial, SizedPolynomial, SparsePolynomial};
use std::fmt::Debug;
use std::sync::Arc;
use vharness::coef::*;
use vharness::dom::*;
use vharness::engine::*;
use vharness::ensure;
use vharness::model::*;
use vharness::obs::*;

/// A coefficient list in every form, converted; the oracle is the standard library's lossless
/// conversion of each number.
fn list<A, B>(ctx: &mut Ctx, v: &[A]) -> R
where
    A: Ring,
    B: Ring + From<A>,
    Polynomial<B>: From<Polynomial<A>>,
    SparsePolynomial<B>: From<SparsePolynomial<A>>,
    Monomial<B>: From<Monomial<A>>,
    LinearBinomial<B>: From<LinearBinomial<A>>,
    QuadraticTrinomial<B>: From<QuadraticTrinomial<A>>,
{
    let n = v.len();
    let want: Vec<(B, usize)> = v.iter().enumerate().filter(|x| !x.1.is_zero()).map(|(i, &c)| (B::from(c), n - 1 - i)).collect();
    fn eq<B: Ring, P: SizedPolynomial<B> + Iterate<B> + Rep, S: Debug>(ctx: &mut Ctx, src: &S, p: &P, want: &[(B, usize)]) -> R {
        ctx.state(&(P::KIND, p.raw()));
        let bits = |t: &[(B, usize)]| t.iter().map(|x| (x.0.bits(), x.1)).collect::<Vec<_>>();
        let g = p.terms_as_vec();
        ensure!(bits(&g) == bits(want), "{:?} converts to {:?}, whose terms are not {:?}", src, p, want);
        ensure!(bits(&p.iterate()) == bits(want), "{:?} converts to {:?}, whose iteration is not {:?}", src, p, want);
        ensure!(p.is_zero() == want.is_empty(), "{:?} converts to {:?}: wrong zero test", src, p);
        Ok(())
    }
    ctx.op(|| format!("convert {:?} from {} to {}", v, A::NAME, B::NAME));
    let p = Polynomial { terms: v.to_vec().dup() };
    eq(ctx, &p.clone(), &Polynomial::<B>::from(p), &want)?;
    let at = |k: usize| if k < n { v[n - 1 - k] } else { A::zero() };
    if n <= 2 {
        let p = LinearBinomial { coefficients: [at(1), at(0)] };
        eq(ctx, &p.clone(), &LinearBinomial::<B>::from(p), &want)?;
    }
    if n <= 3 {
        let p = QuadraticTrinomial { coefficients: [at(2), at(1), at(0)] };
        eq(ctx, &p.clone(), &QuadraticTrinomial::<B>::from(p), &want)?;
    }
    for d in [0usize, 1, 5, 1 << 33, usize::MAX] {
        // the list at degrees d, d-1, .. (as far as they exist) and as explicit entries with gaps
        let degs: Vec<usize> = (0..n).filter_map(|i| d.checked_sub(i * 3)).collect();
        if degs.len() < n {
            continue;
        }
        let p = SparsePolynomial { terms: degs.iter().cloned().zip(v.iter().cloned()).collect() };
        let w: Vec<(B, usize)> = v.iter().zip(&degs).filter(|x| !x.0.is_zero()).map(|(&c, &d)| (B::from(c), d)).collect();
        eq(ctx, &p.clone(), &SparsePolynomial::<B>::from(p), &w)?;
        if n == 1 {
            let p = Monomial { coefficient: v[0], deg: d };
            eq(ctx, &p.clone(), &Monomial::<B>::from(p), &w)?;
        }
    }
    ctx.outcome(if want.is_empty() { "zero" } else { "non-zero" });
    Ok(())
}
/// Values of a type: all of them when it is 8 or 16 bits wide, otherwise limits and bit patterns.
trait Values: Ring {
    fn values() -> Vec<Self>;
    fn few() -> Vec<Self>;
}
macro_rules! small { ($($t:ident),*) => {$( impl Values for $t {
    fn values() -> Vec<$t> { (<$t>::MIN..=<$t>::MAX).collect() }
    fn few() -> Vec<$t> { vec![0, 1, <$t>::MAX, <$t>::MIN, <$t>::MAX / 2 + 1, <$t>::MAX - 1, <$t>::MIN + 1] }
})*}; }
small!(u8, i8, u16, i16);
macro_rules! big { ($($t:ident),*) => {$( impl Values for $t {
    fn values() -> Vec<$t> {
        let mut v: Vec<$t> = vec![];
        for b in 0..<$t>::BITS { for d in 0..=4 { v.push(((1 as $t) << b).wrapping_add(d).wrapping_sub(2)); v.push((0 as $t).wrapping_sub((1 as $t) << b).wrapping_add(d).wrapping_sub(2)); } }
        for b in 0..<$t>::BITS { for k in 0..b { v.push((1 as $t) << b | (1 as $t) << k); } }
        v.extend((0..2000).map(|x| (x as $t).wrapping_mul(<$t>::MAX / 1999)));
        v.extend((0..3000).map(|x| (x as $t).wrapping_sub(if <$t>::MIN == 0 { 0 } else { 1500 })));
        v
    }
    fn few() -> Vec<$t> { vec![0, 1, <$t>::MAX, <$t>::MIN, <$t>::MAX / 2 + 1, <$t>::MAX - 1, <$t>::MIN + 1] }
})*}; }
big!(u32, i32, u64, i64);
impl Values for f32 {
    fn values() -> Vec<f32> {
        (0..1u32 << 18).map(|x| f32::from_bits(x << 14 | x & 3)).filter(|x| !x.is_nan()).collect()
    }
    fn few() -> Vec<f32> {
        vec![0.0, -1.5, f32::MAX, f32::MIN, 1e-45, f32::INFINITY, 0.1]
    }
}
fn pair<A, B>(s: &mut Suites, thorough: bool)
where
    A: Values,
    B: Ring + From<A>,
    Polynomial<B>: From<Polynomial<A>>,
    SparsePolynomial<B>: From<SparsePolynomial<A>>,
    Monomial<B>: From<Monomial<A>>,
    LinearBinomial<B>: From<LinearBinomial<A>>,
    QuadraticTrinomial<B>: From<QuadraticTrinomial<A>>,
{
    let v = Arc::new(A::values());
    let k = if thorough { 1 } else { 3 };
    let n = v.len() as u64;
    s.add(
        &format!("{} to {} values", A::NAME, B::NAME),
        "every value (8/16 bit), or every limit and one/two-bit pattern, alone, as the first of two, with leading and trailing zeros, in all forms",
        n,
        move |c, i| {
            let x = v[i as usize];
            list::<A, B>(c, &[x])?;
            if i % k == 0 || n < 300 {
                list::<A, B>(c, &[x, A::one()])?;
                list::<A, B>(c, &[A::zero(), x, A::zero(), x])?;
                list::<A, B>(c, &[A::one(), x, x])?;
            }
            Ok(())
        },
    );
    let f = A::few();
    let m = if thorough { 5 } else { 4 };
    let idx = Arc::new(vecs(m, &(0..f.len() as i64).collect::<Vec<_>>()));
    s.add(&format!("{} to {} lists", A::NAME, B::NAME), &format!("all lists of length <= {} over 7 limit values", m), idx.len() as u64, move |c, i| {
        list::<A, B>(c, &idx[i as usize].iter().map(|&j| f[j as usize]).collect::<Vec<_>>())
    });
    let f = A::few();
    s.add(&format!("{} to {} mid lengths", A::NAME, B::NAME), "for every length 0..=140 (thorough 700), eight shapes (all non-zero; only the constant, leading or middle entry; one leading zero; all zero; alternating; leading half zero): the values cycling through six limit values", mid_count(if thorough { 700 } else { 140 }), move |c, i| {
        list::<A, B>(c, &mid_len(i, true).iter().enumerate().map(|(j, &x)| if x == 0 { A::zero() } else { f[1 + (j + i as usize) % (f.len() - 1)] }).collect::<Vec<_>>())
    });
}
fn from_vec<N: Ring>(s: &mut Suites, max: usize, vals: &'static [i64])
where
    SparsePolynomial<N>: From<Vec<N>>,
    Polynomial<N>: From<Vec<N>>,
{
    let d = Arc::new(vecs(max, vals));
    s.add(&format!("from lists and numbers {}", N::NAME), &format!("all coefficient lists of length <= {} over {:?}: From<Vec>, new, and From a number", max, vals), d.len() as u64, move |c, i| {
        let l = &d[i as usize];
        let m = red::<N>(of_dense(l));
        let v: Vec<N> = l.iter().map(|&x| N::mk(x as i128)).collect();
        c.op(|| format!("Polynomial::from({:?})", v));
        observe::<N, _>(c, "dense from a list", &Polynomial::<N>::from(v.dup()), &m)?;
        observe::<N, _>(c, "dense new", &Polynomial::<N>::new(v.dup()), &m)?;
        observe::<N, _>(c, "sparse from a list", &SparsePolynomial::<N>::from(v.dup()), &m)?;
        observe::<N, _>(c, "sparse new", &SparsePolynomial::<N>::new(as_map(l).iter().map(|x| (x.0, N::mk(x.1 as i128))).collect()), &m)?;
        if v.len() == 2 {
            observe::<N, _>(c, "binomial new", &LinearBinomial::<N>::new([v[0], v[1]]), &m)?;
        }
        if v.len() == 3 {
            observe::<N, _>(c, "trinomial new", &QuadraticTrinomial::<N>::new([v[0], v[1], v[2]]), &m)?;
        }
        if v.len() == 1 {
            observe::<N, _>(c, "monomial from a number", &Monomial::<N>::from(v[0]), &m)?;
            for d in [0usize, 1, 7, usize::MAX] {
                observe::<N, _>(c, "monomial new", &Monomial::<N>::new(v[0], d), &red::<N>(norm([(d, l[0] as i128)])))?;
            }
        }
        Ok(())
    });
}
fn build(t: bool) -> Suites {
    let mut s = Suites::default();
    macro_rules! pairs { ($($a:ident => $($b:ident),*;)*) => {$($( pair::<$a, $b>(&mut s, t); )*)*}; }
    pairs! {
        u8 => u16, u32, u64, u128, i16, i32, i64, i128, f32, f64;
        u16 => u32, u64, u128, i32, i64, i128, f32, f64;
        u32 => u64, u128, i64, i128, f64;
        u64 => u128, i128;
        i8 => i16, i32, i64, i128, f32, f64;
        i16 => i32, i64, i128, f32, f64;
        i32 => i64, i128, f64;
        i64 => i128;
        f32 => f64;
    }
    from_vec::<i32>(&mut s, if t { 7 } else { 6 }, &[-2, -1, 0, 1, 2]);
    from_vec::<u8>(&mut s, 5, &[0, 1, 2, 255]);
    from_vec::<i8>(&mut s, 4, &[-128, -1, 0, 1, 127]);
    from_vec::<f64>(&mut s, 5, &[-1, 0, 1, 3]);
    from_vec::<f32>(&mut s, 4, &[-1, 0, 1, 3]);
    from_vec::<i64>(&mut s, 4, &[i64::MIN, -1, 0, 1, i64::MAX]);
    from_vec::<i128>(&mut s, 4, &[i64::MIN, -1, 0, 1, i64::MAX]);
    from_vec::<u128>(&mut s, 4, &[0, 1, i64::MAX]);
    from_vec::<usize>(&mut s, 4, &[0, 1, i64::MAX]);
    from_vec::<Gf<5>>(&mut s, 5, &[0, 1, 2, 3, 4]);
    let l = Arc::new(lengths(130));
    s.add("long lists", "one fully non-zero list of every length <= 130 and around powers of two to 1025, dense, sparse, widened", l.len() as u64, move |c, i| {
        let v = &full([l[i as usize]], 3)[0];
        let m = of_dense(v);
        let w: Vec<i16> = v.iter().map(|&x| x as i16).collect();
        c.op(|| format!("conversions of a list of {}", w.len()));
        observe::<i16, _>(c, "dense from a list", &Polynomial::from(w.dup()), &m)?;
        observe::<i16, _>(c, "sparse from a list", &SparsePolynomial::from(w.dup()), &m)?;
        observe::<i64, _>(c, "dense widened", &Polynomial::<i64>::from(Polynomial::from(w.dup())), &m)?;
        observe::<f64, _>(c, "sparse widened", &SparsePolynomial::<f64>::from(SparsePolynomial::from(w)), &m)
    });
    let hu: Vec<Vec<i64>> = long_blocks(t).into_iter().chain(huge(t)).collect();
    s.add("huge lists", "every list of alternating runs of zeros and non-zeros (run lengths around powers of two up to 4097) and lists of lengths 65536 and 65537 (thorough up to 2^20+1): dense and sparse from the list, widened", hu.len() as u64, move |c, i| {
        let v = &hu[i as usize];
        let m = of_dense(v);
        let w: Vec<i16> = v.iter().map(|&x| x as i16).collect();
        c.op(|| format!("conversions of a list of {}", w.len()));
        observe::<i16, _>(c, "dense from a list", &Polynomial::from(w.dup()), &m)?;
        observe::<i16, _>(c, "sparse from a list", &SparsePolynomial::from(w.dup()), &m)?;
        observe::<i64, _>(c, "dense widened", &Polynomial::<i64>::from(Polynomial::from(w.dup())), &m)?;
        observe::<f64, _>(c, "sparse widened", &SparsePolynomial::<f64>::from(SparsePolynomial::from(w)), &m)
    });
    let ed = edge_degs();
    s.add("edge degrees", "for every degree d around a power of two or ten up to 2^64-1: every map over degrees {0, d-1, d, d+1}, each absent, explicit zero or one of 2 values, widened i8 to i16, i32, i64, i128, f32, f64 and u8 to u64; single entries as monomials", ed.len() as u64, move |c, i| {
        for m in around(ed[i as usize], &[0, 3, -7]) {
            let w = of_map(&m);
            macro_rules! to { ($a:ty => $($b:ty),*) => {$(
                c.op(|| format!("{:?} from {} to {}", m, stringify!($a), stringify!($b)));
                observe::<$b, _>(c, "sparse widened", &SparsePolynomial::<$b>::from(sparse::<$a>(&m)), &w)?;
                if m.len() == 1 {
                    observe::<$b, _>(c, "monomial widened", &Monomial::<$b>::from(mono::<$a>(m[0].1, m[0].0)), &w)?;
                }
            )*}; }
            to!(i8 => i16, i32, i64, i128, f32, f64);
            to!(i32 => i64, i128, f64);
            to!(f32 => f64);
        }
        for m in around(ed[i as usize], &[0, 3, 255]) {
            let w = of_map(&m);
            to_u(c, &m, &w)?;
        }
        Ok(())
    });
    s.add("every length", "for every length 0..=1300 (thorough 4200) and 35 lengths around round numbers and powers of two up to 32770, eight shapes (all non-zero; only the constant, leading or middle entry; one leading zero; all zero; alternating; leading half zero): dense and sparse from the list, new, widened", every_count(if t { 4200 } else { 1300 }), |c, i| {
        let v = every_len(i);
        let m = of_dense(&v);
        let w: Vec<i16> = v.iter().map(|&x| x as i16).collect();
        c.op(|| format!("conversions of a list of {}", w.len()));
        observe::<i16, _>(c, "dense new", &Polynomial::new(w.dup()), &m)?;
        observe::<i16, _>(c, "dense from a list", &Polynomial::from(w.dup()), &m)?;
        observe::<i16, _>(c, "sparse from a list", &SparsePolynomial::from(w.dup()), &m)?;
        observe::<i64, _>(c, "dense widened", &Polynomial::<i64>::from(Polynomial { terms: w.dup() }), &m)?;
        observe::<f64, _>(c, "sparse widened", &SparsePolynomial::<f64>::from(sparse::<i16>(&as_map(&v))), &m)
    });
    s.add("lifted", &format!("{}: widened i8 to i16, i64, i128, f32, f64; i32 to f64; u8 to u64", LIFTED), lifted_count(), |c, i| {
        let m = lifted(i, false);
        let w = of_map(&m);
        macro_rules! to { ($a:ty => $($b:ty),*) => {$(
            c.op(|| format!("{:?} from {} to {}", m, stringify!($a), stringify!($b)));
            observe::<$b, _>(c, "sparse widened", &SparsePolynomial::<$b>::from(sparse::<$a>(&m)), &w)?;
        )*}; }
        to!(i8 => i16, i64, i128, f32, f64);
        to!(i32 => f64);
        let m = lifted(i, true);
        to_u(c, &m, &of_map(&m))
    });
    s.spare(&["lists", "every length"]);
    s
}
fn to_u(c: &mut Ctx, m: &[(usize, i64)], w: &M) -> R {
    c.op(|| format!("{:?} from u8", m));
    observe::<u64, _>(c, "sparse widened", &SparsePolynomial::<u64>::from(sparse::<u8>(m)), w)?;
    observe::<i16, _>(c, "sparse widened", &SparsePolynomial::<i16>::from(sparse::<u8>(m)), w)?;
    observe::<u128, _>(c, "sparse widened", &SparsePolynomial::<u128>::from(sparse::<u32>(m)), w)
}
fn main() {
    vharness::engine::main(Prop {
        id: "C11",
        build,
        assumptions: &["the standard library's From between number types is lossless", "NaN is outside the property"],
    });
}
