//! C17: representability limits and very large degrees.
use rustnomial::{Derivable, Evaluable, FreeSizePolynomial, Integrable, LinearBinomial, Monomial, MutablePolynomial, Polynomial, QuadraticTrinomial, SizedPolynomial, SparsePolynomial};
use std::str::FromStr;
use std::sync::Arc;
use vharness::coef::*;
use vharness::dom::*;
use vharness::engine::*;
use vharness::ensure;
use vharness::model::*;
use vharness::obs::*;

/// Whether the integer n is exactly a value of the type.
fn exact<N: Co>(n: u128) -> bool {
    if N::FLOAT {
        // contiguous up to MAX; beyond it only multiples of a growing power of two
        let mut n = n;
        if n == 0 {
            return true;
        }
        while n % 2 == 0 {
            n /= 2;
        }
        n <= N::MAX as u128
    } else {
        // every unsigned 128-bit degree fits in u128; i128::MAX stands for its limit here
        n <= N::MAX as u128
    }
}
/// Whether every integer 0..=n is a value of the type.
fn cont<N: Co>(n: u128) -> bool {
    n <= N::MAX as u128
}
/// Coefficient of a result, compared exactly (large float values included).
fn same_coeff<N: Co>(c: N, w: u128) -> bool {
    c.val() == Some(w as i128)
}
fn judge<T>(ctx: &mut Ctx, what: &dyn Fn() -> String, must: bool, refuse: bool, r: Result<T, String>, ok: impl FnOnce(&mut Ctx, &T) -> R) -> R {
    match r {
        Ok(t) => {
            ensure!(!refuse, "{}: returned although the degree is not representable", what());
            ctx.outcome("exact result");
            ok(ctx, &t)
        }
        Err(p) => {
            ensure!(!must, "{}: panicked ({}) although the degree is representable", what(), p);
            ctx.outcome("refused");
            Ok(())
        }
    }
}
macro_rules! types {
    ($($t:ident),*) => {$(
        #[allow(dead_code)]
        mod $t {
            use super::*;
            type N = $t;
            fn one() -> N { <N as Co>::mk(1) }
            /// x^d with lower terms and stored leading zeros, dense.
            pub fn dense_case(ctx: &mut Ctx, d: usize, lead: usize, low: bool) -> R {
                let zero = <N as Co>::mk(0);
                let mut v = vec![zero; lead + d + 1];
                v[lead] = one();
                let mut m: M = vec![(d, 1)];
                if low && d > 2 {
                    v[lead + d] = one();
                    v[lead + d - 1] = one();
                    m = vec![(0, 1), (1, 1), (d, 1)];
                }
                let p = Polynomial { terms: v };
                let n = d as u128;
                ctx.op(|| format!("derivative of dense x^{} ({} lower terms, {} leading zeros, {})", d, m.len() - 1, lead, stringify!($t)));
                let r = quiet_catch(|| p.derivative());
                let w = deriv(&m);
                let say = || format!("derivative of dense x^{} + {} lower terms with {} stored leading zeros ({})", d, m.len() - 1, lead, stringify!($t));
                judge(ctx, &say, cont::<N>(n), !exact::<N>(n), r, |ctx, t| long_chk(ctx, &say(), t, &w))?;
                // integral of (d+1) x^d
                if exact::<N>(n + 1) || !low {
                    let mut q = p;
                    let mut w = m.clone();
                    if exact::<N>(n + 1) {
                        q.terms[lead] = (n + 1) as N;
                    }
                    if low && d > 2 {
                        q.terms[lead + d - 1] = <N as Co>::mk(2);
                    }
                    for t in w.iter_mut() { t.0 += 1; }
                    ctx.op(|| format!("integral of dense (d+1) x^{} ({})", d, stringify!($t)));
                    let say = || format!("integral of dense {}x^{} with {} stored leading zeros ({})", d as u128 + 1, d, lead, stringify!($t));
                    let r = quiet_catch(|| q.integral());
                    judge(ctx, &say, cont::<N>(n + 1), !exact::<N>(n + 1), r, |ctx, t| long_chk(ctx, &say(), t.inner(), &w))?;
                }
                Ok(())
            }
            /// c x^d + stored zeros of other degrees, sparse and monomial.
            pub fn sparse_case(ctx: &mut Ctx, d: usize) -> R {
                let n = d as u128;
                let zero = <N as Co>::mk(0);
                // derivative
                for extra in [false, true] {
                    let mut p = SparsePolynomial::<N> { terms: [(d, one())].into_iter().collect() };
                    if extra {
                        for e in [usize::MAX, usize::MAX - 1, 1 << 40, 300] {
                            if e != d { p.terms.insert(e, zero); }
                        }
                    }
                    let say = || format!("derivative of sparse {:?} ({})", p, stringify!($t));
                    ctx.op(|| say());
                    ctx.state(&(1, p.raw()));
                    let r = quiet_catch(|| p.derivative());
                    let ok = exact::<N>(n);
                    judge(ctx, &say, ok, !ok, r, |ctx, t| coeffs(ctx, &say(), &t.terms.iter().map(|(&d, &c)| (c, d)).collect::<Vec<_>>(), if d == 0 { None } else { Some((d - 1, n)) }))?;
                    // integral
                    let okr = exact::<N>(n + 1) && d < usize::MAX;
                    if okr { p.terms.insert(d, (n + 1) as N); }
                    let say = || format!("integral of sparse {:?} ({})", p, stringify!($t));
                    ctx.op(|| say());
                    let r = quiet_catch(|| p.integral());
                    judge(ctx, &say, okr, !okr, r, |ctx, t| coeffs(ctx, &say(), &t.inner().terms.iter().map(|(&d, &c)| (c, d)).collect::<Vec<_>>(), Some((d.wrapping_add(1), 1))))?;
                }
                let p = Monomial::<N> { coefficient: one(), deg: d };
                let say = || format!("derivative of {:?} ({})", p, stringify!($t));
                ctx.op(|| say());
                let r = quiet_catch(|| p.derivative());
                let ok = exact::<N>(n);
                judge(ctx, &say, ok, !ok, r, |ctx, t| coeffs(ctx, &say(), &[(t.coefficient, t.deg)], if d == 0 { None } else { Some((d - 1, n)) }))?;
                let okr = exact::<N>(n + 1) && d < usize::MAX;
                let p = Monomial::<N> { coefficient: if okr { (n + 1) as N } else { one() }, deg: d };
                let say = || format!("integral of {:?} ({})", p, stringify!($t));
                ctx.op(|| say());
                let r = quiet_catch(|| p.integral());
                judge(ctx, &say, okr, !okr, r, |ctx, t| coeffs(ctx, &say(), &t.inner().terms.iter().map(|(&d, &c)| (c, d)).collect::<Vec<_>>(), Some((d.wrapping_add(1), 1))))?;
                // a zero coefficient has no degree to represent
                let z = Monomial::<N> { coefficient: zero, deg: d };
                ctx.op(|| format!("derivative and integral of {:?}", z));
                let (a, b) = (z.derivative(), z.integral());
                ensure!(a.is_zero() && b.inner().is_zero(), "derivative and integral of {:?} are {:?} and {:?}", z, a, b.inner());
                let z = SparsePolynomial::<N> { terms: [(d, zero)].into_iter().collect() };
                let (a, b) = (z.derivative(), z.integral());
                ensure!(a.is_zero() && b.inner().is_zero(), "derivative and integral of {:?} are {:?} and {:?}", z, a, b.inner());
                Ok(())
            }
            /// Stored leading zeros alone never make a low-degree polynomial unrepresentable.
            pub fn zeros_case(ctx: &mut Ctx, lead: usize) -> R {
                let zero = <N as Co>::mk(0);
                let mut v = vec![zero; lead];
                for c in [3, 2, 1i128] {
                    v.push(<N as Co>::mk(c));
                }
                let p = Polynomial { terms: v };
                ctx.op(|| format!("derivative and integral of 3x^2 + 2x + 1 behind {} stored zeros ({})", lead, stringify!($t)));
                long_chk(ctx, "derivative", &p.derivative(), &vec![(0, 2), (1, 6)])?;
                long_chk(ctx, "integral", p.integral().inner(), &vec![(1, 1), (2, 1), (3, 1)])?;
                let z = Polynomial { terms: vec![zero; lead] };
                long_chk(ctx, "derivative of zero", &z.derivative(), &vec![])?;
                long_chk(ctx, "integral of zero", z.integral().inner(), &vec![])
            }
            fn long_chk(ctx: &mut Ctx, what: &str, p: &Polynomial<N>, w: &M) -> R {
                let n = p.terms.len();
                ctx.transitions += 1;
                let got: Vec<(usize, N)> = p.terms.iter().enumerate().filter(|x| x.1.val() != Some(0)).map(|(i, &c)| (n - 1 - i, c)).collect();
                ctx.state(&(n, got.iter().map(|x| (x.0, x.1.bits())).collect::<Vec<_>>()));
                let ok = got.len() == w.len() && got.iter().rev().zip(w).all(|(g, w)| g.0 == w.0 && g.1.val() == Some(w.1));
                ensure!(ok, "{} has the terms {:?}, not {}", what, got, show(w));
                Ok(())
            }
            fn coeffs(_: &mut Ctx, what: &str, got: &[(N, usize)], want: Option<(usize, u128)>) -> R {
                let got: Vec<&(N, usize)> = got.iter().filter(|x| x.0.val() != Some(0)).collect();
                let ok = match want {
                    None => got.is_empty(),
                    Some((d, c)) => got.len() == 1 && got[0].1 == d && same_coeff(got[0].0, c),
                };
                ensure!(ok, "{} has the terms {:?}, not {:?} (degree, coefficient)", what, got, want);
                Ok(())
            }
            /// Binomials and trinomials never run out of representable degrees.
            pub fn fixed(ctx: &mut Ctx, a: i64, b: i64, c: i64) -> R {
                let (p, q) = (bi::<N>(&[a, b]), tri::<N>(&[a, b, c]));
                ctx.op(|| format!("derivative of {:?} and {:?}", p, q));
                chk(ctx, "derivative of a binomial", &LinearBinomial::derivative(&p), &deriv(&of_dense(&[a, b])))?;
                chk(ctx, "derivative of a trinomial", &QuadraticTrinomial::derivative(&q), &deriv(&of_dense(&[a, b, c])))?;
                let (p, q) = (bi::<N>(&[2 * a, b]), tri::<N>(&[3 * a, 2 * b, c]));
                chk(ctx, "integral of a binomial", p.integral().inner(), &vec![(1, b as i128), (2, a as i128)].into_iter().filter(|x| x.1 != 0).collect())?;
                chk(ctx, "integral of a trinomial", q.integral().inner(), &vec![(1, c as i128), (2, b as i128), (3, a as i128)].into_iter().filter(|x| x.1 != 0).collect())
            }
        }
    )*};
}
types!(i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, f32, f64);

/// All arithmetic, shifts, rendering, parsing, lookup of sparse polynomials with huge degrees.
fn huge(ctx: &mut Ctx, a: &[(usize, i64)], b: &[(usize, i64)]) -> R {
    type N = i64;
    let (p, q) = (sparse::<N>(a), sparse::<N>(b));
    let (ma, mb) = (of_map(a), of_map(b));
    ctx.op(|| format!("arithmetic of {:?} and {:?}", p, q));
    chk(ctx, "a + b", &(p.clone() + q.clone()), &add(&ma, &mb))?;
    chk(ctx, "a - b", &(p.clone() - q.clone()), &sub(&ma, &mb))?;
    let mut r = p.clone();
    r += q.clone();
    chk(ctx, "a += b", &r, &add(&ma, &mb))?;
    r -= q.clone();
    chk(ctx, "a += b; a -= b", &r, &ma)?;
    ensure!(r == p, "(a + b) - b is {:?}, not {:?}", r, p);
    let room = match (ma.last(), mb.last()) {
        (Some(x), Some(y)) => x.0.checked_add(y.0).is_some(),
        _ => true,
    };
    // stored zeros count as stored degrees: the product may form their sums
    let stored = a.iter().map(|x| x.0).max().unwrap_or(0).checked_add(b.iter().map(|x| x.0).max().unwrap_or(0)).is_some();
    if room && stored {
        chk(ctx, "a * b", &(p.clone() * q.clone()), &mul(&ma, &mb))?;
        let mut r = p.clone();
        r *= q.clone();
        chk(ctx, "a *= b", &r, &mul(&ma, &mb))?;
        ctx.outcome("product");
    }
    ensure!((p == q) == (ma == mb), "{:?} == {:?} is {}", p, q, p == q);
    Ok(())
}
fn huge_one(ctx: &mut Ctx, a: &[(usize, i64)]) -> R {
    type N = i64;
    let p = sparse::<N>(a);
    let m = of_map(a);
    observe::<N, _>(ctx, "huge degrees", &p, &m)?;
    chk(ctx, "-a", &-p.clone(), &neg(&m))?;
    chk(ctx, "a * 3", &(p.clone() * 3), &scale(&m, 3))?;
    let text = p.to_string();
    ensure!(text == render(&m), "{:?} is displayed as {:?}, not {:?}", p, text, render(&m));
    ctx.op(|| format!("parse {:?}", text));
    match SparsePolynomial::<N>::from_str(&text) {
        Ok(q) => chk(ctx, &format!("parsing {:?}", text), &q, &m)?,
        Err(e) => return Err(format!("{:?} does not parse: {:?}", text, e)),
    }
    if m.len() == 1 {
        let q = mono::<N>(m[0].1 as i64, m[0].0);
        observe::<N, _>(ctx, "huge monomial", &q, &m)?;
        ensure!(q.to_string() == text, "{:?} is displayed as {:?}", q, q.to_string());
        match Monomial::<N>::from_str(&text) {
            Ok(r) => chk(ctx, &format!("parsing {:?}", text), &r, &m)?,
            Err(e) => return Err(format!("{:?} does not parse as a monomial: {:?}", text, e)),
        }
    }
    for x in [0i64, 1, -1] {
        ctx.op(|| format!("{:?} at {}", p, x));
        let w = eval(&m, x as i128).unwrap();
        ensure!(p.eval(x) as i128 == w, "{:?} at {} evaluates to {}, not {}", p, x, p.eval(x), w);
    }
    let top = a.iter().map(|x| x.0).max().unwrap_or(0);
    for k in [0i32, 1, 2, 31, 1 << 20, i32::MAX] {
        ctx.op(|| format!("shifts of {:?} by {}", p, k));
        chk(ctx, &format!("a >> {}", k), &(p.clone() >> k), &shr(&m, k as usize))?;
        if top.checked_add(k as usize).is_some() {
            chk(ctx, &format!("a << {}", k), &(p.clone() << k), &shl(&m, k as usize).unwrap())?;
        }
    }
    // term updates at huge degrees
    for d in [0usize, 5, 1 << 33, usize::MAX - 1, usize::MAX] {
        let w = add(&m, &vec![(d, 4)]);
        let mut q = p.clone();
        ctx.op(|| format!("{:?} add_term(4, {})", p, d));
        q.add_term(4, d);
        chk(ctx, "add_term", &q, &w)?;
        let mut q = p.clone();
        ensure!(q.try_add_term(4, d) == Ok(()), "try_add_term(4, {}) refused", d);
        chk(ctx, "try_add_term", &q, &w)?;
        ensure!(q.try_sub_term(4, d) == Ok(()), "try_sub_term(4, {}) refused", d);
        chk(ctx, "try_sub_term", &q, &m)?;
    }
    // division by a huge monomial-like divisor
    let dm = SparsePolynomial::<N>::from_terms(&[(1, top)]);
    if top > 0 && !m.is_empty() {
        ctx.op(|| format!("{:?} divided by x^{}", p, top));
        let (q, r) = p.clone().div_mod(&dm);
        let c = m.iter().find(|x| x.0 == top).map_or(0, |x| x.1);
        let wq: M = if c == 0 { vec![] } else { vec![(0, c)] };
        let wr: M = m.iter().filter(|x| x.0 != top).cloned().collect();
        chk(ctx, "quotient", &q, &wq)?;
        chk(ctx, "remainder", &r, &wr)?;
    }
    for (k, w) in [(0usize, vec![(0, 1)]), (1, m.clone())] {
        ctx.op(|| format!("{:?} to the power {}", p, k));
        chk(ctx, "power", &p.pow(k), &w)?;
    }
    if top <= usize::MAX / 4 {
        chk(ctx, "square", &p.pow(2), &mul(&m, &m))?;
    }
    Ok(())
}

fn build(t: bool) -> Suites {
    let mut s = Suites::default();
    let top = if t { 1200 } else { 600 };
    macro_rules! dense_all {
        ($($ty:ident)*) => {$(
            s.add(&format!("dense {} every degree", stringify!($ty)), &format!("x^d with and without lower terms and 0, 1, 3 and 300 stored leading zeros, every d in 0..{top}"), top as u64 * 8, |c, i| {
                let (d, k) = split(i, 8);
                $ty::dense_case(c, d, [0, 1, 3, 300][k % 4], k >= 4)
            });
            s.add(&format!("zeros {}", stringify!($ty)), &format!("3x^2 + 2x + 1 and 0 behind every number 0..{top} of stored zeros"), top as u64, |c, i| $ty::zeros_case(c, i as usize));
        )*};
    }
    dense_all!(i8 u8 i16 u16 i32 u32 i64 u64 i128 u128 f32 f64);
    // limits
    let lim16: Vec<usize> = [32767usize, 65535].iter().flat_map(|&x| x - 3..=x + 3).collect();
    let n = lim16.len();
    s.add("dense 16-bit limits", "x^d for every d within 3 of 2^15 - 1 and 2^16 - 1; i16, u16, i32, f32", n as u64 * 4, move |c, i| {
        let (i, k) = split(i, 4);
        let (d, lead, low) = (lim16[i], [0, 1, 5, 0][k], k >= 2);
        i16::dense_case(c, d, lead, low)?;
        u16::dense_case(c, d, lead, low)?;
        i32::dense_case(c, d, lead, low)?;
        f32::dense_case(c, d, lead, low)
    });
    s.add("dense f32 limit", "x^d for every d within 2 of 2^24 (f32); f64 and i32 at the same degrees", 5, |c, i| {
        let d = (1usize << 24) - 2 + i as usize;
        f32::dense_case(c, d, 0, false)?;
        f32::dense_case(c, d, 1, true)?;
        i32::dense_case(c, d, 0, false)
    });
    let mut ds: Vec<usize> = (0..600).collect();
    for b in 9..64u32 {
        let w = if t { 20 } else { 5 };
        for k in 0..=2 * w {
            ds.push((1usize << b).wrapping_add(k).wrapping_sub(w));
        }
    }
    ds.extend([(1 << 24) + 2, (1 << 25) + 2, (1 << 25) + 4, (1 << 53) + 2, (1 << 54) + 4, 3 << 60, (1 << 63) + (1 << 11), (1 << 63) + (1 << 40), usize::MAX - (1 << 10), usize::MAX - (1 << 11) + 1, usize::MAX - (1 << 40) + 1]);
    ds.extend((0..30).map(|k| usize::MAX - k));
    ds.sort();
    ds.dedup();
    let ds = Arc::new(ds);
    s.add("sparse and monomial limits", "x^d for every d < 600, within 5 (thorough: 20) of every power of two, the last 30 degrees; every coefficient type", ds.len() as u64, move |c, i| {
        let d = ds[i as usize];
        i8::sparse_case(c, d)?;
        u8::sparse_case(c, d)?;
        i16::sparse_case(c, d)?;
        u16::sparse_case(c, d)?;
        i32::sparse_case(c, d)?;
        u32::sparse_case(c, d)?;
        i64::sparse_case(c, d)?;
        u64::sparse_case(c, d)?;
        i128::sparse_case(c, d)?;
        u128::sparse_case(c, d)?;
        f32::sparse_case(c, d)?;
        f64::sparse_case(c, d)
    });
    s.add("binomials and trinomials", "all coefficients in 0..=30 that fit 8 bits with their integrals' multiples; every coefficient type", 31 * 31 * 31, |c, i| {
        let (x, y, z) = split3(i, 31, 31);
        let (x, y, z) = (x as i64, y as i64, z as i64);
        i8::fixed(c, x, y, z)?;
        u8::fixed(c, x, y, z)?;
        i16::fixed(c, x, y, z)?;
        f32::fixed(c, x, y, z)?;
        i64::fixed(c, -x, y, -z)
    });
    // huge sparse degrees
    let degs: &[usize] = &[0, 1, 64, (1 << 31) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, usize::MAX - 1, usize::MAX];
    let mut dom: Vec<Vec<(usize, i64)>> = vec![vec![]];
    for (i, &d) in degs.iter().enumerate() {
        for c in [2, -1, 0] {
            dom.push(vec![(d, c)]);
            for &e in &degs[i + 1..] {
                for f in [3, -2, 0] {
                    dom.push(vec![(d, c), (e, f)]);
                }
            }
        }
    }
    if t {
        for i in 0..degs.len() {
            for j in i + 1..degs.len() {
                for k in j + 1..degs.len() {
                    dom.push(vec![(degs[i], 1), (degs[j], -3), (degs[k], 5)]);
                }
            }
        }
    }
    let dom = Arc::new(dom);
    let n = dom.len();
    let d1 = dom.clone();
    s.add("huge sparse degrees", "every polynomial with at most two stored terms over 9 degrees up to usize::MAX: observers, text round trip, evaluation, shifts, term updates, division, powers", n as u64, move |c, i| huge_one(c, &d1[i as usize]));
    s.add("huge sparse degrees, pairs", "every pair of those: sum, difference, product (where the degree fits), equality", (n * n) as u64, move |c, i| {
        let (i, j) = split(i, n);
        huge(c, &dom[i], &dom[j])
    });
    s
}
fn main() {
    vharness::engine::main(Prop {
        id: "C17",
        build,
        assumptions: &[
            "dense forms must succeed when every number up to the needed degree is representable, sparse forms and monomials when the degree itself is; a degree that is not representable must be refused by a panic",
            "products whose degree exceeds usize are outside the property; so is memory for dense forms of huge degree",
        ],
    });
}
