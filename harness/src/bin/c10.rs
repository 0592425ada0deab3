//! C10: rendering and its inverse.
use num::Zero;
use rustnomial::{LinearBinomial, Monomial, Polynomial, QuadraticTrinomial, SizedPolynomial, SparsePolynomial};
use std::fmt::{Debug, Display};
use std::str::FromStr;
use std::sync::Arc;
use vharness::coef::*;
use vharness::dom::*;
use vharness::engine::*;
use vharness::ensure;
use vharness::model::*;

/// A number with its sign and the text of its absolute value.
trait Num: Ring + FromStr + Display + PartialEq {
    fn parts(self) -> (bool, String);
}
trait Text<N>: Display + FromStr<Err: Debug> + PartialEq + Debug + Rep + SizedPolynomial<N> {}
impl<N, T: Display + FromStr<Err: Debug> + PartialEq + Debug + Rep + SizedPolynomial<N>> Text<N> for T {}
macro_rules! num_int {
    ($($t:ty),*) => {$(
        impl Num for $t {
            #[allow(unused_comparisons)]
            fn parts(self) -> (bool, String) {
                // the decimal digits of the absolute value, computed without using the type's own formatting
                let neg = self < 0;
                let mut m = if neg { (self as i128).unsigned_abs() } else { self as u128 };
                let mut d = vec![];
                loop {
                    d.push(b'0' + (m % 10) as u8);
                    m /= 10;
                    if m == 0 { break; }
                }
                d.reverse();
                (neg, String::from_utf8(d).unwrap())
            }
        }
    )*};
}
num_int!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);
macro_rules! num_float {
    ($($t:ty),*) => {$(
        impl Num for $t {
            fn parts(self) -> (bool, String) {
                (self < 0.0, format!("{}", self.abs()))
            }
        }
    )*};
}
num_float!(f32, f64);

/// Terms in descending degree, zero coefficients included or not.
type T<N> = [(N, usize)];
fn text<N: Num>(t: &T<N>) -> String {
    render_parts(&t.iter().filter(|x| !x.0.is_zero()).map(|x| { let p = x.0.parts(); (x.1, p.0, p.1) }).collect::<Vec<_>>())
}
macro_rules! forms {
    ($($t:ident),*) => {$(
        #[allow(dead_code)]
        mod $t {
            use super::*;
            type N = $t;
            // Renders one value, and parses the text back into the same form and the others.
            pub fn value<P: Text<N>>(ctx: &mut Ctx, p: &P, t: &T<N>) -> R {
                ctx.op(|| format!("display {:?} and parse it back", p));
                ctx.state(&(P::KIND, p.raw()));
                let want = text(t);
                let got = format!("{}", p);
                ensure!(got == want, "{:?} is rendered as {:?}, not {:?}", p, got, want);
                // there is no second form of numbers that the alternate flag could ask for
                let got = format!("{:#}", p);
                ensure!(got == want, "{:?} is rendered as {:?} by {{:#}}, not {:?}", p, got, want);
                ctx.outcome(if want == "0" { "zero" } else { "non-zero" });
                let back = match P::from_str(&got) {
                    Ok(b) => b,
                    Err(e) => return Err(format!("{:?} renders as {:?}, which does not parse back: {:?}", p, got, e)),
                };
                ensure!(back == *p, "{:?} renders as {:?}, which parses back as {:?}", p, got, back);
                let nz: Vec<(N, usize)> = t.iter().filter(|x| !x.0.is_zero()).cloned().collect();
                ensure!(back.terms_as_vec() == nz, "{:?} renders as {:?}, which parses back as {:?}", p, got, back);
                let again = format!("{}", back);
                ensure!(again == want, "{:?} renders as {:?} after parsing {:?} back", back, again, want);
                if let Ok(s) = SparsePolynomial::<N>::from_str(&got) {
                    ensure!(s.terms_as_vec() == nz, "{:?} renders as {:?}, which parses into a sparse polynomial as {:?}", p, got, s);
                } else {
                    return Err(format!("{:?} renders as {:?}, which is refused by the sparse form", p, got));
                }
                Ok(())
            }
            pub fn dense_of(v: &[N]) -> (Polynomial<N>, Vec<(N, usize)>) {
                let n = v.len();
                (Polynomial { terms: v.to_vec() }, v.iter().enumerate().map(|(i, &c)| (c, n - 1 - i)).collect())
            }
            // A coefficient list in every form that holds it.
            pub fn all_forms(ctx: &mut Ctx, v: &[N]) -> R {
                let (p, t) = dense_of(v);
                value(ctx, &p, &t)?;
                // explicit zero entries, and none
                value(ctx, &SparsePolynomial { terms: t.iter().map(|x| (x.1, x.0)).collect() }, &t)?;
                value(ctx, &SparsePolynomial { terms: t.iter().filter(|x| !x.0.is_zero()).map(|x| (x.1, x.0)).collect() }, &t)?;
                let at = |k: usize| if k < v.len() { v[v.len() - 1 - k] } else { N::zero() };
                if v.len() <= 2 {
                    value(ctx, &LinearBinomial { coefficients: [at(1), at(0)] }, &t)?;
                }
                if v.len() <= 3 {
                    value(ctx, &QuadraticTrinomial { coefficients: [at(2), at(1), at(0)] }, &t)?;
                }
                let nz: Vec<(N, usize)> = t.iter().filter(|x| !x.0.is_zero()).cloned().collect();
                if nz.len() == 1 {
                    value(ctx, &Monomial { coefficient: nz[0].0, deg: nz[0].1 }, &nz)?;
                }
                if nz.is_empty() {
                    value(ctx, &Monomial { coefficient: N::zero(), deg: v.len() }, &[])?;
                }
                Ok(())
            }
            pub fn small(s: &mut Suites, max: usize, vals: &[i64]) {
                let d = Arc::new(vecs(max, vals));
                s.add(&format!("coefficient lists {}", N::NAME), &format!("all coefficient lists of length <= {} over {:?}, all forms", max, vals), d.len() as u64, move |c, i| {
                    all_forms(c, &d[i as usize].iter().map(|&x| N::mk(x as i128)).collect::<Vec<_>>())
                });
            }
            pub fn specials(s: &mut Suites, name: &str, vals: Vec<N>) {
                let n = vals.len() as u64;
                let vals = Arc::new(vals);
                let v2 = vals.clone();
                s.add(&format!("special values {}", name), "every special value alone at degrees 0..=3, 9..=11, 99..=101, 2^32, usize::MAX in all forms; every ordered triple of them as a list", n * n * n, move |c, i| {
                    let (a, b, k) = split3(i, n as usize, n as usize);
                    all_forms(c, &[v2[a], v2[b], v2[k]])
                });
                s.add(&format!("special values at degrees {}", name), "each at degrees 0..=3, 9..=11, 99..=101, 2^32, usize::MAX, one or two terms", n * n, move |c, i| {
                    let (a, b) = split(i, n as usize);
                    let degs = [0usize, 1, 2, 3, 9, 10, 11, 99, 100, 101, 1 << 32, usize::MAX - 1, usize::MAX];
                    for (j, &d) in degs.iter().enumerate() {
                        value(c, &Monomial { coefficient: vals[a], deg: d }, &[(vals[a], d)])?;
                        for &e in &degs[..j] {
                            let t = [(vals[a], d), (vals[b], e)];
                            value(c, &SparsePolynomial { terms: t.iter().map(|x| (x.1, x.0)).collect() }, &t)?;
                            if d < 200 {
                                let mut v = vec![N::zero(); d + 1];
                                v[0] = vals[a];
                                v[d - e] = vals[b];
                                let (p, t) = dense_of(&v);
                                value(c, &p, &t)?;
                            }
                        }
                    }
                    Ok(())
                });
            }
        }
    )*};
}
forms!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64);
macro_rules! int_specials {
    ($s:expr, $($t:ident),*) => {$(
        let (lo, hi) = (<$t>::MIN, <$t>::MAX);
        let mut v: Vec<$t> = vec![0, 1, 2, 9, 10, 99, 100, 101, hi, hi - 1, hi / 2, hi / 10, lo, lo + 1, lo / 2, lo / 10, lo.wrapping_add(10)];
        if lo != 0 { v.extend([(0 as $t).wrapping_sub(1), (0 as $t).wrapping_sub(2), (0 as $t).wrapping_sub(10)]); }
        v.dedup();
        $t::specials($s, stringify!($t), v);
    )*};
}
fn build(thorough: bool) -> Suites {
    let mut s = Suites::default();
    let v5 = [-2i64, -1, 0, 1, 2];
    let u4 = [0i64, 1, 2, 10];
    i32::small(&mut s, if thorough { 7 } else { 6 }, &v5);
    i64::small(&mut s, if thorough { 6 } else { 4 }, &[-10, -1, 0, 1, 10, 11]);
    u8::small(&mut s, if thorough { 7 } else { 5 }, &u4);
    f64::small(&mut s, if thorough { 6 } else { 5 }, &v5);
    f32::small(&mut s, 4, &v5);
    s.add("all i8 pairs", "every pair of i8 values as a two-term list, all forms", 65536, |c, i| i8::all_forms(c, &[i as i8, (i >> 8) as i8]));
    s.add("all u8 pairs", "every pair of u8 values as a two-term list, all forms", 65536, |c, i| u8::all_forms(c, &[i as u8, (i >> 8) as u8]));
    s.add("all i16", "every i16 value as leading and as trailing coefficient at degrees 0, 1, 2", 65536, |c, i| {
        let v = i as u16 as i16;
        i16::all_forms(c, &[v])?;
        i16::all_forms(c, &[v, 0])?;
        i16::all_forms(c, &[v, 0, v])?;
        i16::all_forms(c, &[3, v, 0])?;
        i16::all_forms(c, &[1, v, 0, 0])
    });
    s.add("all u16", "every u16 value as leading and as trailing coefficient at degrees 0, 1, 2", 65536, |c, i| {
        let v = i as u16;
        u16::all_forms(c, &[v])?;
        u16::all_forms(c, &[v, 0])?;
        u16::all_forms(c, &[v, 0, v])?;
        u16::all_forms(c, &[3, v, 0])?;
        u16::all_forms(c, &[1, v, 0, 0])
    });
    int_specials!(&mut s, i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);
    let f = |x: f64| x;
    let mut v = vec![0.0, -0.0, 0.5, 1.0, 1.5, 2.0, 0.1, 1.0 / 3.0, 10.0, 1e-7, 1e16, 1e21, 1.7976931348623157e308, 5e-324, core::f64::MIN_POSITIVE, f64::EPSILON, 1.0 + f64::EPSILON, 1.0 - f64::EPSILON / 2.0, 9007199254740993.0, f(0.1) + 0.2];
    let neg: Vec<f64> = v[2..].iter().map(|x| -x).collect();
    v.extend(neg);
    f64::specials(&mut s, "f64", v);
    let mut v: Vec<f32> = vec![0.0, -0.0, 0.5, 1.0, 1.5, 0.1, 1.0 / 3.0, 10.0, 1e-7, 16777217.0, f32::MAX, 1e-45, f32::MIN_POSITIVE, f32::EPSILON, 1.0 + f32::EPSILON, 1.0 - f32::EPSILON / 2.0];
    let neg: Vec<f32> = v[2..].iter().map(|x| -x).collect();
    v.extend(neg);
    f32::specials(&mut s, "f32", v);
    // f32 values by exponent and top mantissa bits
    let step: u32 = if thorough { 1 << 12 } else { 1 << 16 };
    s.add("f32 grid", &format!("every finite f32 whose bit pattern is a multiple of {} or one off it, alone, leading and trailing", step), (1u64 << 32) / step as u64, move |c, i| {
        for d in [0u32, 1, step - 1] {
            let v = f32::from_bits((i as u32).wrapping_mul(step) + d);
            if v.is_finite() {
                f32::all_forms(c, &[v])?;
                f32::all_forms(c, &[v, v, v])?;
            }
        }
        Ok(())
    });
    s.add("f64 grid", "every finite f64 with each exponent and sign and mantissas 0, 1, all ones, alternating, top bit", 4096 * 6, |c, i| {
        let (e, m) = split(i, 6);
        let m = [0u64, 1, (1 << 52) - 1, 0x5555555555555, 1 << 51, 0xAAAAAAAAAAAAA][m];
        let v = f64::from_bits((e as u64) << 52 | m);
        if v.is_finite() {
            f64::all_forms(c, &[v])?;
            f64::all_forms(c, &[v, v, v])?;
        }
        Ok(())
    });
    s.add("all degrees", "every degree 0..=3000, coefficients 1, -1, 7, one and two terms, monomial/sparse/dense", 3001, |c, i| {
        let d = i as usize;
        for k in [1i32, -1, 7] {
            i32::value(c, &Monomial { coefficient: k, deg: d }, &[(k, d)])?;
            for e in [0usize, 1, d / 2] {
                if e < d {
                    let t = [(k, d), (-k, e)];
                    i32::value(c, &SparsePolynomial { terms: t.iter().map(|x| (x.1, x.0)).collect() }, &t)?;
                    let mut v = vec![0i32; d + 1];
                    v[0] = k;
                    v[d - e] = -k;
                    let (p, t) = i32::dense_of(&v);
                    i32::value(c, &p, &t)?;
                }
            }
        }
        Ok(())
    });
    let d = Arc::new(maps(&[0, 1, 2, 3, 10, 1 << 40], if thorough { &[-7, -1, 0, 1, 7] } else { &[-1, 0, 1, 7] }));
    s.add("sparse maps", "all maps over degrees 0,1,2,3,10,2^40, each absent or with a value (zero included)", d.len() as u64, move |c, i| {
        let m = &d[i as usize];
        let t: Vec<(i32, usize)> = m.iter().rev().map(|x| (x.1 as i32, x.0)).collect();
        i32::value(c, &sparse::<i32>(m), &t)?;
        let t: Vec<(f64, usize)> = m.iter().rev().map(|x| (x.1 as f64 / 4.0, x.0)).collect();
        f64::value(c, &SparsePolynomial { terms: t.iter().map(|x| (x.1, x.0)).collect() }, &t)
    });
    let ed = edge_degs();
    s.add("edge degrees", "for every degree d around a power of two or ten up to 2^64-1: every map over degrees {0, d-1, d, d+1}, each absent, explicit zero, 1, -1 or 12", ed.len() as u64, move |c, i| {
        for m in around(ed[i as usize], &[0, 1, -1, 12]) {
            let t: Vec<(i32, usize)> = m.iter().rev().map(|x| (x.1 as i32, x.0)).collect();
            i32::value(c, &sparse::<i32>(&m), &t)?;
            if m.len() == 1 {
                i32::value(c, &mono::<i32>(m[0].1, m[0].0), &t)?;
            }
            let t: Vec<(f64, usize)> = m.iter().rev().map(|x| (x.1 as f64 / 8.0, x.0)).collect();
            f64::value(c, &SparsePolynomial { terms: t.iter().map(|x| (x.1, x.0)).collect() }, &t)?;
        }
        Ok(())
    });
    let mut lb = long_blocks(thorough);
    lb.extend(full(lengths(130), 2));
    if thorough {
        lb.extend(huge(false));
    }
    s.add("long polynomials", "every vector of alternating runs of zeros and non-zeros (run lengths around powers of two up to 4097), and one fully non-zero vector of every length <= 130 (thorough: also lengths 65536, 65537), dense and sparse", lb.len() as u64, move |c, i| i32::all_forms(c, &lb[i as usize].iter().map(|&x| x as i32).collect::<Vec<_>>()));
    s.add("i32 every length", "for every length 0..=1300 (thorough 4200) and 35 lengths around round numbers and powers of two up to 32770, eight shapes (all non-zero; only the constant, leading or middle entry; one leading zero; all zero; alternating; leading half zero): all forms", every_count(if thorough { 4200 } else { 1300 }), |c, i| i32::all_forms(c, &every_len(i).iter().map(|&x| x as i32).collect::<Vec<_>>()));
    macro_rules! all_types {
        ($u:expr; $($t:ident),*) => {$(
            s.add(concat!(stringify!($t), " mid lengths"), "for every length 0..=140 (thorough 700), eight shapes (all non-zero; only the constant, leading or middle entry; one leading zero; all zero; alternating; leading half zero): all forms", mid_count(if thorough { 700 } else { 140 }), |c, i| $t::all_forms(c, &mid_len(i, $u).iter().map(|&x| x as $t).collect::<Vec<_>>()));
        )*};
    }
    all_types!(false; i8, i16, i64, i128, f32, f64);
    all_types!(true; u8, u16, u32, u64, u128);
    s.add("lifted", &format!("{}: i32, i64, u8, f64", LIFTED), lifted_count(), |c, i| {
        macro_rules! go { ($t:ident, $u:expr) => {
            let m = lifted(i, $u);
            let t: Vec<($t, usize)> = m.iter().rev().map(|x| (x.1 as $t, x.0)).collect();
            $t::value(c, &SparsePolynomial { terms: t.iter().map(|x| (x.1, x.0)).collect() }, &t)?;
        }; }
        go!(i32, false);
        go!(i64, false);
        go!(u8, true);
        go!(f64, false);
        Ok(())
    });
    s
}
fn main() {
    vharness::engine::main(Prop {
        id: "C10",
        build,
        assumptions: &[
            "the number type's own Display and FromStr round-trip (standard library) and its Display never uses exponents",
            "NaN and infinities are outside the property; format flags (width, precision) are not exercised",
        ],
    });
}
