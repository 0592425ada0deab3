//! The reference model: a polynomial is its list of non-zero (degree, coefficient) pairs, in
//! ascending degree, with exact i128 coefficients.
use crate::coef::Co;
use crate::engine::{Ctx, R};
use rustnomial::{LinearBinomial, Monomial, Polynomial, QuadraticTrinomial, SparsePolynomial};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::hash::Hash;

pub type M = Vec<(usize, i128)>;

pub fn norm(it: impl IntoIterator<Item = (usize, i128)>) -> M {
    let mut b: BTreeMap<usize, i128> = BTreeMap::new();
    for (d, c) in it {
        *b.entry(d).or_insert(0) += c;
    }
    b.into_iter().filter(|x| x.1 != 0).collect()
}
pub fn red<N: Co>(m: M) -> M {
    m.into_iter().map(|(d, c)| (d, N::red(c))).filter(|x| x.1 != 0).collect()
}
pub fn add(a: &M, b: &M) -> M {
    let mut o = M::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        let (da, db) = (a.get(i).map(|x| x.0), b.get(j).map(|x| x.0));
        match (da, db) {
            (Some(x), Some(y)) if x == y => {
                let c = a[i].1 + b[j].1;
                if c != 0 {
                    o.push((x, c));
                }
                i += 1;
                j += 1;
            }
            (Some(x), y) if y.is_none_or(|y| x < y) => {
                o.push(a[i]);
                i += 1;
            }
            _ => {
                o.push(b[j]);
                j += 1;
            }
        }
    }
    o
}
pub fn neg(a: &M) -> M {
    a.iter().map(|&(d, c)| (d, -c)).collect()
}
pub fn sub(a: &M, b: &M) -> M {
    add(a, &neg(b))
}
pub fn mul(a: &M, b: &M) -> M {
    let top = a.last().map_or(0, |x| x.0).saturating_add(b.last().map_or(0, |x| x.0));
    if top < 1 << 16 && a.len() * b.len() * 8 > top {
        let mut v = vec![0i128; top + 1];
        for &(d, c) in a {
            for &(e, f) in b {
                v[d + e] += c * f;
            }
        }
        return v.into_iter().enumerate().filter(|x| x.1 != 0).collect();
    }
    norm(a.iter().flat_map(|&(d, c)| b.iter().map(move |&(e, f)| (d + e, c * f))))
}
pub fn scale(a: &M, s: i128) -> M {
    norm(a.iter().map(|&(d, c)| (d, c * s)))
}
/// Coefficient-wise truncating division.
pub fn divs(a: &M, s: i128) -> M {
    norm(a.iter().map(|&(d, c)| (d, c / s)))
}
pub fn pow(a: &M, n: usize) -> M {
    let mut r = vec![(0, 1)];
    for _ in 0..n {
        r = mul(&r, a);
    }
    r
}
/// None if a degree would exceed usize.
pub fn shl(a: &M, n: usize) -> Option<M> {
    a.iter().map(|&(d, c)| d.checked_add(n).map(|d| (d, c))).collect()
}
pub fn shr(a: &M, n: usize) -> M {
    a.iter().filter(|x| x.0 >= n).map(|&(d, c)| (d - n, c)).collect()
}
pub fn deriv(a: &M) -> M {
    norm(a.iter().filter(|x| x.0 > 0).map(|&(d, c)| (d - 1, c * d as i128)))
}
/// Antiderivative with truncating coefficient division (exact when divisible).
pub fn integ(a: &M) -> M {
    norm(a.iter().map(|&(d, c)| (d + 1, c / (d as i128 + 1))))
}
/// None on i128 overflow.
pub fn eval(a: &M, x: i128) -> Option<i128> {
    let mut s: i128 = 0;
    for &(d, c) in a {
        s = s.checked_add(c.checked_mul(ipow(x, d)?)?)?;
    }
    Some(s)
}
/// Sum of the absolute values of the terms (bounds every partial sum in any order).
pub fn eval_abs(a: &M, x: i128) -> Option<i128> {
    let mut s: i128 = 0;
    for &(d, c) in a {
        s = s.checked_add(c.checked_abs()?.checked_mul(ipow(x, d)?.checked_abs()?)?)?;
    }
    Some(s)
}
pub fn ipow(x: i128, d: usize) -> Option<i128> {
    match x {
        0 => return Some((d == 0) as i128),
        1 => return Some(1),
        -1 => return Some(if d % 2 == 0 { 1 } else { -1 }),
        _ => {}
    }
    let mut r: i128 = 1;
    for _ in 0..d {
        r = r.checked_mul(x)?;
    }
    Some(r)
}
pub fn max_abs(a: &M) -> i128 {
    a.iter().map(|x| x.1.abs()).max().unwrap_or(0)
}
pub fn fits<N: Co>(a: &M) -> bool {
    a.iter().all(|x| N::fits(x.1))
}
/// Highest degree first, coefficients as stored by the dense form.
pub fn of_dense(v: &[i64]) -> M {
    v.iter().rev().enumerate().filter(|x| *x.1 != 0).map(|(d, &c)| (d, c as i128)).collect()
}
pub fn of_map(v: &[(usize, i64)]) -> M {
    norm(v.iter().map(|&(d, c)| (d, c as i128)))
}

// ---------------------------------------------------------------- reading real objects
/// A real object whose stored representation can be read through public fields.
pub trait Rep: Debug {
    /// What polynomial the stored fields denote (zero coefficients are no terms).
    fn m(&self) -> Result<M, String>;
    /// Full concrete representation.
    fn raw(&self) -> Vec<(usize, u128)>;
    const KIND: u8;
}
fn v<N: Co>(c: N) -> Result<i128, String> {
    c.val().ok_or_else(|| format!("coefficient {:?} is not one the model has", c))
}
impl<N: Co> Rep for Polynomial<N> {
    const KIND: u8 = 1;
    fn m(&self) -> Result<M, String> {
        let mut o = M::new();
        for (d, &c) in self.terms.iter().rev().enumerate() {
            let c = v(c)?;
            if c != 0 {
                o.push((d, c));
            }
        }
        Ok(o)
    }
    fn raw(&self) -> Vec<(usize, u128)> {
        self.terms.iter().enumerate().map(|(i, c)| (i, c.bits())).collect()
    }
}
impl<N: Co> Rep for SparsePolynomial<N> {
    const KIND: u8 = 2;
    fn m(&self) -> Result<M, String> {
        let mut o = M::new();
        for (&d, &c) in self.terms.iter() {
            let c = v(c)?;
            if c != 0 {
                o.push((d, c));
            }
        }
        Ok(o)
    }
    fn raw(&self) -> Vec<(usize, u128)> {
        self.terms.iter().map(|(&d, c)| (d, c.bits())).collect()
    }
}
impl<N: Co> Rep for Monomial<N> {
    const KIND: u8 = 3;
    fn m(&self) -> Result<M, String> {
        let c = v(self.coefficient)?;
        Ok(if c == 0 { vec![] } else { vec![(self.deg, c)] })
    }
    fn raw(&self) -> Vec<(usize, u128)> {
        vec![(self.deg, self.coefficient.bits())]
    }
}
macro_rules! rep_arr {
    ($t:ident $k:expr) => {
        impl<N: Co> Rep for $t<N> {
            const KIND: u8 = $k;
            fn m(&self) -> Result<M, String> {
                let mut o = M::new();
                for (d, &c) in self.coefficients.iter().rev().enumerate() {
                    let c = v(c)?;
                    if c != 0 {
                        o.push((d, c));
                    }
                }
                Ok(o)
            }
            fn raw(&self) -> Vec<(usize, u128)> {
                self.coefficients.iter().enumerate().map(|(i, c)| (i, c.bits())).collect()
            }
        }
    };
}
rep_arr!(LinearBinomial 4);
rep_arr!(QuadraticTrinomial 5);

/// Compares what a real object denotes with the model, and records the object's state.
pub fn chk<T: Rep>(ctx: &mut Ctx, what: &str, got: &T, want: &M) -> R {
    ctx.state(&(T::KIND, got.raw()));
    let g = got.m().map_err(|e| format!("{}: {} in {:?}", what, e, got))?;
    if g == *want {
        ctx.outcome(match want.len() {
            0 => "zero polynomial",
            1 => "one term",
            _ => "several terms",
        });
        Ok(())
    } else {
        Err(format!(
            "{}: result {:?} denotes {}, but the exact result is {}",
            what,
            got,
            show(&g),
            show(want)
        ))
    }
}
/// Human-readable model polynomial.
pub fn show(m: &M) -> String {
    if m.is_empty() {
        return "0".into();
    }
    m.iter().rev().map(|(d, c)| format!("{}*x^{}", c, d)).collect::<Vec<_>>().join(" + ")
}

// ---------------------------------------------------------------- building real objects
pub fn dense<N: Co>(v: &[i64]) -> Polynomial<N> {
    Polynomial { terms: v.iter().map(|&c| N::mk(c as i128)).collect::<Vec<N>>() }.dup()
}
thread_local! {
    /// Spare capacity of the vectors of left and right operands.
    pub static SLACK: std::cell::Cell<(usize, usize)> = const { std::cell::Cell::new((0, 0)) };
}
/// A copy which, other than a clone, has spare capacity if `SLACK` says so.
pub trait Dup: Clone {
    fn with_spare(&self, _: usize) -> Self {
        self.clone()
    }
    /// as a left operand
    fn dup(&self) -> Self {
        self.with_spare(SLACK.with(|x| x.get().0))
    }
    /// as a right operand
    fn dup2(&self) -> Self {
        self.with_spare(SLACK.with(|x| x.get().1))
    }
}
impl<T: Clone> Dup for Vec<T> {
    fn with_spare(&self, n: usize) -> Self {
        let mut v = Vec::with_capacity(self.len() + n);
        v.extend(self.iter().cloned());
        v
    }
}
impl<N: Clone> Dup for Polynomial<N> {
    fn with_spare(&self, n: usize) -> Self {
        Polynomial { terms: self.terms.with_spare(n) }
    }
}
impl<N: Clone> Dup for SparsePolynomial<N> {}
impl<N: Clone> Dup for Monomial<N> {}
impl<N: Clone> Dup for LinearBinomial<N> {}
impl<N: Clone> Dup for QuadraticTrinomial<N> {}
pub fn sparse<N: Co>(v: &[(usize, i64)]) -> SparsePolynomial<N> {
    SparsePolynomial { terms: v.iter().map(|&(d, c)| (d, N::mk(c as i128))).collect() }
}
pub fn bi<N: Co>(v: &[i64]) -> LinearBinomial<N> {
    LinearBinomial { coefficients: [N::mk(v[0] as i128), N::mk(v[1] as i128)] }
}
pub fn tri<N: Co>(v: &[i64]) -> QuadraticTrinomial<N> {
    QuadraticTrinomial { coefficients: [N::mk(v[0] as i128), N::mk(v[1] as i128), N::mk(v[2] as i128)] }
}
pub fn mono<N: Co>(c: i64, d: usize) -> Monomial<N> {
    Monomial { coefficient: N::mk(c as i128), deg: d }
}
pub fn hash_of<T: Hash>(t: &T) -> u128 {
    crate::engine::h128(t)
}
pub fn as_hashable<N: Co>(m: &BTreeMap<usize, N>) -> Vec<(usize, u128)> {
    m.iter().map(|(&d, c)| (d, c.bits())).collect()
}

// ---------------------------------------------------------------- reference rendering
/// The canonical text of a list of (degree, negative, text of the absolute value) in descending degree.
pub fn render_parts(t: &[(usize, bool, String)]) -> String {
    if t.is_empty() {
        return "0".into();
    }
    let mut o = String::new();
    for (i, (d, neg, abs)) in t.iter().enumerate() {
        o += match (i, neg) {
            (0, true) => "-",
            (0, false) => "",
            (_, true) => " - ",
            (_, false) => " + ",
        };
        if *d == 0 || abs != "1" {
            o += abs;
        }
        match d {
            0 => {}
            1 => o += "x",
            _ => {
                o += "x^";
                o += &d.to_string();
            }
        }
    }
    o
}
pub fn render(m: &M) -> String {
    render_parts(&m.iter().rev().map(|&(d, c)| (d, c < 0, c.unsigned_abs().to_string())).collect::<Vec<_>>())
}
