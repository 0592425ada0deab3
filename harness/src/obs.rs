//! Every observer of a polynomial, compared with the model.
use crate::coef::{Co, Ring};
use crate::engine::{Ctx, R};
use crate::ensure;
use crate::model::*;
use rustnomial::{Degree, LinearBinomial, Monomial, Polynomial, QuadraticTrinomial, SizedPolynomial, SparsePolynomial, Term};

/// The ordered iteration (an inherent method of each type).
pub trait Iterate<N> {
    fn iterate(&self) -> Vec<(N, usize)>;
    /// Every way to consume the iterator gives the same items.
    fn protocol(&self) -> R;
}
/// Every way to consume an iterator of terms gives the same items.
pub fn iterator_protocol<N: Ring, I: Iterator<Item = (N, usize)>>(p: &dyn std::fmt::Debug, iter: &dyn Fn() -> I) -> R {
    let mut all = vec![];
    let mut it = iter();
    loop {
        let (low, high) = it.size_hint();
        let Some(x) = it.next() else {
            ensure!(low == 0, "size_hint {:?} at the end of {:?}", (low, high), p);
            break;
        };
        all.push((x, low, high));
    }
    let n = all.len();
    for (i, &(_, low, high)) in all.iter().enumerate() {
        ensure!(low <= n - i && high.is_none_or(|h| h >= n - i), "size_hint {:?} of {:?} with {} terms to come", (low, high), p, n - i);
    }
    let all: Vec<(N, usize)> = all.into_iter().map(|x| x.0).collect();
    let same = |a: &[(N, usize)], b: &[(N, usize)]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0.bits() == y.0.bits() && x.1 == y.1);
    ensure!(same(&all, &iter().collect::<Vec<_>>()), "next and collect differ on {:?}", p);
    ensure!(iter().count() == n, "count of {:?}", p);
    let opt = |a: Option<(N, usize)>, b: Option<&(N, usize)>| same(&a.into_iter().collect::<Vec<_>>(), &b.cloned().into_iter().collect::<Vec<_>>());
    ensure!(opt(iter().last(), all.last()), "last of {:?}", p);
    let mut folded = vec![];
    iter().for_each(|x| folded.push(x));
    ensure!(same(&folded, &all), "for_each on {:?}", p);
    for k in 0..n.min(20) + 2 {
        ensure!(opt(iter().nth(k), all.get(k)), "nth({}) of {:?}", k, p);
        let mut it = iter();
        for _ in 0..k {
            it.next();
        }
        ensure!(same(&it.collect::<Vec<_>>(), &all[k.min(n)..]), "the rest after {} of {:?}", k, p);
        ensure!(same(&iter().skip(k).take(2).collect::<Vec<_>>(), &all[k.min(n)..(k + 2).min(n)]), "skip({}) of {:?}", k, p);
    }
    Ok(())
}
macro_rules! it {
    ($($t:ident),*) => {$(
        impl<N: Ring> Iterate<N> for $t<N> {
            fn iterate(&self) -> Vec<(N, usize)> { self.ordered_term_iter().collect() }
            fn protocol(&self) -> R { iterator_protocol(self, &|| self.ordered_term_iter()) }
        }
    )*};
}
it!(Polynomial, SparsePolynomial, Monomial, LinearBinomial, QuadraticTrinomial);

fn terms<N: Co>(what: &dyn Fn() -> String, t: &[(N, usize)], m: &M) -> R {
    let g: Option<Vec<(usize, i128)>> = t.iter().map(|x| x.0.val().map(|c| (x.1, c))).collect();
    let w: Vec<(usize, i128)> = m.iter().rev().cloned().collect();
    ensure!(g.as_ref() == Some(&w), "{} lists {:?}, but the terms are {:?}", what(), t, w);
    Ok(())
}
/// Degree, zero test, term lookup, term list and iteration all describe the model's terms.
pub fn observe<N: Ring, P: SizedPolynomial<N> + Iterate<N> + Rep>(ctx: &mut Ctx, what: &str, p: &P, m: &M) -> R {
    chk(ctx, what, p, m)?;
    ctx.op(|| format!("observers of {:?}", p));
    let d = p.degree();
    let w = m.last().map_or(Degree::NegInf, |x| Degree::Num(x.0));
    ensure!(d == w, "{}: degree of {:?} is reported as {:?}, not {:?}", what, p, d, w);
    ensure!(p.is_zero() == m.is_empty(), "{}: is_zero of {:?} is {}", what, p, p.is_zero());
    terms(&|| format!("{}: terms_as_vec of {:?}", what, p), &p.terms_as_vec(), m)?;
    terms(&|| format!("{}: ordered_term_iter of {:?}", what, p), &p.iterate(), m)?;
    let one = |d: usize| -> R {
        let t = p.term_with_degree(d);
        let ok = match (&t, m.binary_search_by_key(&d, |x| x.0).ok().map(|k| m[k])) {
            (Term::ZeroTerm, None) => true,
            (Term::Term(c, e), Some(x)) => *e == d && c.val() == Some(x.1),
            _ => false,
        };
        ensure!(ok, "{}: term_with_degree({}) of {:?} is {:?}", what, d, p, t);
        Ok(())
    };
    let stored = p.raw().len();
    let step = if m.len() > 3000 { 97 } else { 1 };
    for d in 0..(stored + 3).min(40) {
        one(d)?;
    }
    for d in [stored, stored + 1, 64, 1 << 31, 1 << 32, usize::MAX / 2, usize::MAX - 1, usize::MAX] {
        one(d)?;
    }
    for &(d, _) in m.iter().step_by(step).chain(m.last()) {
        one(d)?;
        one(d.saturating_add(1))?;
        one(d.saturating_sub(1))?;
    }
    Ok(())
}
