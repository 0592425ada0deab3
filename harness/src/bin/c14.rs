//! C14: iterator helpers and macros.
use rustnomial::poly_math::{add_poly, mul_poly_vec, sub_poly};
use rustnomial::{derivative, integral, poly_add, poly_mul, poly_sub, polynomial};
use rustnomial::{LinearBinomial, Monomial, MutablePolynomial, Polynomial, QuadraticTrinomial, SizedPolynomial, SparsePolynomial, TryAddError};
use std::sync::Arc;
use vharness::coef::*;
use vharness::dom::*;
use vharness::engine::*;
use vharness::ensure;
use vharness::model::*;
use vharness::obs::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Cap {
    Growable,
    UpTo(usize),
    OneTerm,
}
trait Sink {
    const CAP: Cap;
}
impl<N> Sink for Polynomial<N> {
    const CAP: Cap = Cap::Growable;
}
impl<N> Sink for SparsePolynomial<N> {
    const CAP: Cap = Cap::Growable;
}
impl<N> Sink for LinearBinomial<N> {
    const CAP: Cap = Cap::UpTo(1);
}
impl<N> Sink for QuadraticTrinomial<N> {
    const CAP: Cap = Cap::UpTo(2);
}
impl<N> Sink for Monomial<N> {
    const CAP: Cap = Cap::OneTerm;
}
/// A user's own sink: holds any term except those of one degree, which it refuses with a given error.
#[derive(Clone, Debug)]
struct Own {
    terms: std::collections::BTreeMap<usize, i64>,
    refuses: Option<(usize, TryAddError)>,
}
impl Own {
    fn update(&mut self, coeff: i64, degree: usize) -> Result<(), TryAddError> {
        if let Some((d, e)) = self.refuses {
            if d == degree {
                return Err(e);
            }
        }
        *self.terms.entry(degree).or_insert(0) += coeff;
        Ok(())
    }
    fn of(v: &[i64], refuses: Option<(usize, TryAddError)>) -> Own {
        Own { terms: of_dense(v).into_iter().map(|(d, c)| (d, c as i64)).collect(), refuses }
    }
    fn model(&self) -> M {
        norm(self.terms.iter().map(|(&d, &c)| (d, c as i128)))
    }
}
impl MutablePolynomial<i64> for Own {
    fn try_add_term(&mut self, coeff: i64, degree: usize) -> Result<(), TryAddError> {
        self.update(coeff, degree)
    }
    fn try_sub_term(&mut self, coeff: i64, degree: usize) -> Result<(), TryAddError> {
        self.update(-coeff, degree)
    }
}
impl SizedPolynomial<i64> for Own {
    fn term_with_degree(&self, degree: usize) -> rustnomial::Term<i64> {
        rustnomial::Term::new(self.terms.get(&degree).copied().unwrap_or(0), degree)
    }
    fn terms_as_vec(&self) -> Vec<(i64, usize)> {
        self.terms.iter().rev().filter(|t| *t.1 != 0).map(|(&d, &c)| (c, d)).collect()
    }
    fn degree(&self) -> rustnomial::Degree {
        self.terms.iter().rev().find(|t| *t.1 != 0).map_or(rustnomial::Degree::NegInf, |t| rustnomial::Degree::Num(*t.0))
    }
    fn zero() -> Self {
        Own { terms: Default::default(), refuses: None }
    }
    fn set_to_zero(&mut self) {
        self.terms.clear();
    }
}
enum Want {
    /// outside the property (overflow, or open by the order of the terms)
    Open,
    Done(M),
    Refused(TryAddError),
}
fn coeff_at(m: &M, d: usize) -> i128 {
    m.iter().find(|x| x.0 == d).map_or(0, |x| x.1)
}
/// Terms applied one after the other.
fn fold<N: Co>(cap: Cap, m: &M, terms: &[(i128, usize)], sub: bool) -> Want {
    let mut m = m.clone();
    for &(c, d) in terms {
        let refusal = match cap {
            Cap::Growable if sub && !N::SIGNED && coeff_at(&m, d) == 0 => Some(TryAddError::CanNotNegate),
            Cap::UpTo(k) if d > k => Some(TryAddError::DegreeOutOfBounds),
            Cap::OneTerm if !m.is_empty() && m[0].0 != d => Some(TryAddError::TooManyTerms),
            _ => None,
        };
        if c == 0 {
            if refusal.is_some() {
                return Want::Open;
            }
            continue;
        }
        if let Some(e) = refusal {
            return Want::Refused(e);
        }
        m = add(&m, &norm([(d, if sub { -c } else { c })]));
        if !N::fits(coeff_at(&m, d)) {
            return Want::Open;
        }
    }
    Want::Done(m)
}
/// sink + a * b
fn product<N: Co>(cap: Cap, m: &M, a: &M, b: &M) -> Want {
    let mut all = M::new();
    for &(d, c) in a {
        for &(e, f) in b {
            match d.checked_add(e) {
                Some(s) if N::fits(c * f) => all.push((s, c * f)),
                _ => return Want::Open,
            }
        }
    }
    // every partial sum must fit, whatever the order
    let absum = norm(m.iter().chain(&all).map(|&(d, c)| (d, c.abs())));
    if !fits::<N>(&absum) {
        return Want::Open;
    }
    let r = norm(m.iter().cloned().chain(all.iter().cloned()));
    match cap {
        Cap::Growable => Want::Done(r),
        Cap::UpTo(k) => {
            if all.iter().any(|x| x.0 > k) {
                Want::Refused(TryAddError::DegreeOutOfBounds)
            } else {
                Want::Done(r)
            }
        }
        Cap::OneTerm => {
            if absum.len() <= 1 {
                Want::Done(r)
            } else if r.len() > 1 {
                Want::Refused(TryAddError::TooManyTerms)
            } else {
                Want::Open
            }
        }
    }
}
fn judge<P: Rep>(ctx: &mut Ctx, what: &str, got: Result<(), TryAddError>, sink: &P, want: Want) -> R {
    match want {
        Want::Open => Ok(()),
        Want::Refused(e) => {
            ctx.outcome("refused");
            ensure!(got == Err(e), "{} gives {:?}, but the sink ({:?} now) cannot hold a term: {:?} expected", what, got, sink, e);
            Ok(())
        }
        Want::Done(m) => {
            ensure!(got == Ok(()), "{} gives {:?} although every term fits (sink {:?} now)", what, got, sink);
            chk(ctx, what, sink, &m)
        }
    }
}
fn rterms(m: &M) -> Vec<(i128, usize)> {
    m.iter().rev().map(|&(d, c)| (c, d)).collect()
}

/// A value in every representation that can hold it.
#[derive(Clone, Debug)]
struct Dom {
    dense: Vec<Vec<i64>>,
    sparse: Vec<Vec<(usize, i64)>>,
    mono: Vec<(i64, usize)>,
    bi: Vec<Vec<i64>>,
    tri: Vec<Vec<i64>>,
    /// raw term lists: any order, repeated degrees, zero coefficients
    raw: Vec<Vec<(i128, usize)>>,
}
fn domain(t: bool, signed: bool) -> Dom {
    let v: &[i64] = if signed { &[-1, 0, 2] } else { &[0, 1, 2] };
    let mut raw: Vec<Vec<(i128, usize)>> = vec![vec![]];
    let mut last = raw.clone();
    let deg: &[usize] = if t { &[0, 1, 2, 5] } else { &[0, 2, 1] };
    let val: &[i128] = if signed { &[1, 0, -1] } else { &[1, 0, 2] };
    for _ in 0..3 {
        let mut nx = vec![];
        for l in &last {
            for &d in deg {
                for &c in val {
                    let mut w = l.clone();
                    w.push((c, d));
                    nx.push(w);
                }
            }
        }
        raw.extend(nx.iter().cloned());
        last = nx;
    }
    let mut mono = vec![];
    for d in [0usize, 1, 2, 3, 70] {
        for &c in v {
            mono.push((c, d));
        }
    }
    Dom {
        dense: vecs(if t { 4 } else { 3 }, v),
        sparse: maps(if t { &[0, 1, 2, 9] } else { &[0, 1, 9] }, v),
        mono,
        bi: vecs_exact(2, v),
        tri: vecs_exact(3, v),
        raw,
    }
}

mod i32 {
    use super::*;
    type N = i32;
    const TN: &str = "i32";
    include!("../c14_body.inc");
}
mod u32 {
    use super::*;
    type N = u32;
    const TN: &str = "u32";
    include!("../c14_body.inc");
}
mod f64 {
    use super::*;
    type N = f64;
    const TN: &str = "f64";
    include!("../c14_body.inc");
}
mod i8 {
    use super::*;
    type N = i8;
    const TN: &str = "i8";
    include!("../c14_body.inc");
}
fn cap_of<P: Sink>(_: &P) -> Cap {
    P::CAP
}

/// The macros called by path, with nothing of the crate in scope.
mod by_path {
    pub fn all(a: &rustnomial::Polynomial<i32>, b: &rustnomial::SparsePolynomial<i32>) -> [rustnomial::Polynomial<i32>; 4] {
        [rustnomial::poly_add!(a, b), rustnomial::poly_sub!(a, b), rustnomial::poly_mul!(a, b), rustnomial::polynomial!(1, 2)]
    }
}
fn build(t: bool) -> Suites {
    let mut s = Suites::default();
    i32::suites(&mut s, t);
    u32::suites(&mut s, t);
    f64::suites(&mut s, t);
    if t {
        i8::suites(&mut s, false);
    }
    let (va, vb) = (vecs(3, &[-1, 0, 2]), maps(&[0, 1, 4], &[-1, 0, 3]));
    let n = vb.len();
    s.add("macros by path", "poly_add!, poly_sub!, poly_mul! named by path, every dense and sparse pair", (va.len() * n) as u64, move |ctx, i| {
        let (i, j) = split(i, n);
        let (a, b) = (dense::<i32>(&va[i]), sparse::<i32>(&vb[j]));
        let (ma, mb) = (a.m()?, b.m()?);
        ctx.op(|| format!("macros by path on {:?} and {:?}", a, b));
        let r = by_path::all(&a, &b);
        chk(ctx, "poly_add!", &r[0], &add(&ma, &mb))?;
        chk(ctx, "poly_sub!", &r[1], &sub(&ma, &mb))?;
        chk(ctx, "poly_mul!", &r[2], &mul(&ma, &mb))?;
        chk(ctx, "polynomial!", &r[3], &vec![(0, 2), (1, 1)])
    });
    let mut lv = pair_blocks(t);
    lv.extend(full(lengths(if t { 130 } else { 40 }), 2));
    let n = lv.len();
    let small = vec![vec![], vec![3], vec![1, -2], vec![2, 0, 5], vec![1, 0, 0, 0, 0, 0, 0, 7]];
    s.add("long operands i64", "every vector of alternating runs of zeros and non-zeros (run lengths around powers of two up to 1025) and fully non-zero vectors around powers of two: added to, subtracted from and multiplied with 5 short vectors and itself, helpers and macros, dense and sparse source and sink", n as u64, move |ctx, i| {
        let l = &lv[i as usize];
        let (dl, sl, tl) = (dense::<i64>(l), sparse::<i64>(&as_map(l)), sparse::<i64>(&stripped(l)));
        let ml = of_dense(l);
        for v in small.iter().chain([l]) {
            let (dv, sv) = (dense::<i64>(v), sparse::<i64>(&as_map(v)));
            let mv = of_dense(v);
            ctx.op(|| format!("long operands {:?} and {:?}", l, v));
            let (sum, dif, fid, pr) = (add(&ml, &mv), sub(&mv, &ml), sub(&ml, &mv), mul(&ml, &mv));
            macro_rules! both { ($src:expr, $m:ident) => {
                let mut k = dv.dup();
                ensure!($m($src.ordered_term_iter(), &mut k) == Ok(()), "{} refused", stringify!($m));
                chk(ctx, stringify!($m), &k, if stringify!($m) == "add_poly" { &sum } else { &dif })?;
                let mut k = sv.clone();
                ensure!($m($src.ordered_term_iter(), &mut k) == Ok(()), "{} refused", stringify!($m));
                chk(ctx, stringify!($m), &k, if stringify!($m) == "add_poly" { &sum } else { &dif })?;
            }; }
            both!(dl, add_poly);
            both!(sl, add_poly);
            both!(tl, add_poly);
            both!(dl, sub_poly);
            both!(sl, sub_poly);
            both!(tl, sub_poly);
            chk(ctx, "poly_add!", &poly_add!(dl, sv), &sum)?;
            chk(ctx, "poly_sub!", &poly_sub!(tl, dv), &fid)?;
            chk(ctx, "poly_sub!", &poly_sub!(dv, sl), &dif)?;
            chk(ctx, "poly_mul!", &poly_mul!(dl, sv), &pr)?;
            chk(ctx, "poly_mul!", &poly_mul!(dv, tl), &pr)?;
            let (mut k, mut q) = (sl.clone(), dl.dup());
            ensure!(poly_mul!(k; dv) == Ok(()) && poly_mul!(q; sv) == Ok(()), "poly_mul! refused");
            chk(ctx, "poly_mul! into a sparse sink", &k, &pr)?;
            chk(ctx, "poly_mul! into a dense sink", &q, &pr)?;
            let (mut k, mut q) = (SparsePolynomial::zero(), Polynomial::zero());
            ensure!(mul_poly_vec(tl.ordered_term_iter(), &dv.terms_as_vec(), &mut k) == Ok(()) && mul_poly_vec(sv.ordered_term_iter(), &dl.terms_as_vec(), &mut q) == Ok(()), "mul_poly_vec refused");
            chk(ctx, "mul_poly_vec into a sparse sink", &k, &pr)?;
            chk(ctx, "mul_poly_vec into a dense sink", &q, &pr)?;
        }
        Ok(())
    });
    s.add("longer literals", "polynomial!, derivative!, integral! with 6 to 12 literals", 7, |ctx, i| {
        ctx.op(|| format!("{} literals", i + 6));
        macro_rules! lit { ($($c:literal),*) => {{
            let m = of_dense(&[$($c),*]);
            chk(ctx, "polynomial!", &polynomial!($($c as i64),*), &m)?;
            chk(ctx, "derivative!", &derivative!($($c as i64),*), &deriv(&m))?;
            let w: M = m.iter().map(|&(d, c)| (d, c * 27720)).collect();
            chk(ctx, "integral!", integral!($($c as i64 * 27720),*).inner(), &integ(&w))
        }}; }
        match i {
            0 => lit!(1, -2, 3, 0, 5, 7),
            1 => lit!(0, -2, 3, 0, 5, 7, 9),
            2 => lit!(1, -2, 0, 4, 5, 7, 9, -1),
            3 => lit!(3, -2, 3, 0, 0, 0, 0, 0, 8),
            4 => lit!(1, 2, 3, 4, 5, 6, 7, 8, 9, 10),
            5 => lit!(0, 0, 3, 4, 5, 6, 7, 8, 9, 10, 0),
            _ => lit!(-1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12),
        }
    });
    // huge degrees through the helpers
    s.add("huge degrees", "single terms at degrees up to usize::MAX, added, subtracted and multiplied into sparse and monomial sinks", 7 * 7 * 4, |ctx, i| {
        let (i, j, k) = split3(i, 7, 4);
        let ds = [0usize, 1, 63, 1 << 32, usize::MAX / 2, usize::MAX - 1, usize::MAX];
        let (d, e) = (ds[i], ds[j]);
        ctx.op(|| format!("huge degrees {} {}", d, e));
        match k {
            0 => {
                let mut s = sparse::<i64>(&[(e, 2)]);
                let r = add_poly([(3i64, d)].into_iter(), &mut s);
                judge(ctx, &format!("add_poly of 3x^{} to 2x^{}", d, e), r, &s, Want::Done(norm([(d, 3), (e, 2)])))
            }
            1 => {
                let mut s = sparse::<i64>(&[(e, 2)]);
                let r = sub_poly(mono::<i64>(3, d).ordered_term_iter(), &mut s);
                judge(ctx, &format!("sub_poly of 3x^{} from 2x^{}", d, e), r, &s, Want::Done(norm([(d, -3), (e, 2)])))
            }
            2 => {
                let Some(f) = d.checked_add(e) else { return Ok(()) };
                let mut s = sparse::<i64>(&[(f, 1)]);
                let r = mul_poly_vec([(3i64, d)].into_iter(), &[(-2, e)], &mut s);
                judge(ctx, &format!("mul_poly_vec of 3x^{} and -2x^{}", d, e), r, &s, Want::Done(vec![(f, -5)]))
            }
            _ => {
                let Some(f) = d.checked_add(e) else { return Ok(()) };
                let mut s = mono::<i64>(1, d);
                let r = poly_mul!(s; mono::<i64>(4, e));
                judge(ctx, &format!("poly_mul!(x^{}; 4x^{})", d, e), r, &s, Want::Done(vec![(f, 4)]))
            }
        }
    });
    // raw lists on both sides of a product, unordered and with repeated degrees
    let el: Vec<(i128, usize)> = [0usize, 1, 2].iter().flat_map(|&d| [0i128, 1, -2, 3].map(|c| (c, d))).collect();
    let lists = |max: u32| {
        let k = el.len() as u64;
        (0..(0..=max).map(|j| k.pow(j)).sum::<u64>()).map(|i| { let (mut i, mut l) = (i, 0); while i >= k.pow(l) { i -= k.pow(l); l += 1; } (0..l).map(|j| el[(i / k.pow(j) % k) as usize]).collect::<Vec<_>>() }).collect::<Vec<_>>()
    };
    let (la, lb) = (lists(3), lists(2));
    let n = lb.len();
    s.add("raw products", "mul_poly_vec of every raw term list of length <= 3 over degrees 0..=2 and 4 coefficients (zero included), unordered and with repeats, with every such list of length <= 2, in both roles, into dense, sparse and trinomial sinks that hold something", (la.len() * n) as u64, move |ctx, i| {
        let (a, b) = split(i, n);
        let cv = |l: &[(i128, usize)]| l.iter().map(|x| (x.0 as i64, x.1)).collect::<Vec<(i64, usize)>>();
        let (x, y) = (cv(&la[a]), cv(&lb[b]));
        let all: Vec<(usize, i128)> = la[a].iter().flat_map(|p| lb[b].iter().map(move |q| (p.1 + q.1, p.0 * q.0))).collect();
        for (x, y) in [(&x, &y), (&y, &x)] {
            ctx.op(|| format!("mul_poly_vec({:?}, {:?})", x, y));
            let at = |m: &[(usize, i128)]| norm(m.iter().cloned().chain(all.iter().cloned()));
            let mut d = dense::<i64>(&[5, 0, 1]);
            ensure!(mul_poly_vec(x.iter().cloned(), y, &mut d) == Ok(()), "refused by a dense sink: {:?} times {:?}", x, y);
            chk(ctx, "mul_poly_vec into a dense sink", &d, &at(&[(2, 5), (0, 1)]))?;
            let mut d = sparse::<i64>(&[(1, 4), (3, 0)]);
            ensure!(mul_poly_vec(x.iter().cloned(), y, &mut d) == Ok(()), "refused by a sparse sink: {:?} times {:?}", x, y);
            chk(ctx, "mul_poly_vec into a sparse sink", &d, &at(&[(1, 4)]))?;
            let mut d = tri::<i64>(&[5, 0, 1]);
            if all.iter().any(|t| t.0 > 2 && t.1 == 0) {
                continue;
            }
            let r = mul_poly_vec(x.iter().cloned(), y, &mut d);
            let w = if all.iter().any(|t| t.0 > 2) { Want::Refused(TryAddError::DegreeOutOfBounds) } else { Want::Done(at(&[(2, 5), (0, 1)])) };
            judge(ctx, &format!("mul_poly_vec({:?}, {:?}) into a trinomial", x, y), r, &d, w)?;
        }
        Ok(())
    });
    s.add("every length", "for every length 0..=1300 (thorough 4200) and 35 lengths around round numbers and powers of two up to 32770, eight shapes: added to, subtracted from and multiplied with short vectors, helpers and macros, dense and sparse source and sink", every_count(if t { 4200 } else { 1300 }), |ctx, i| {
        let l = every_len(i);
        let (dl, tl) = (dense::<i64>(&l), sparse::<i64>(&stripped(&l)));
        let ml = of_dense(&l);
        ctx.op(|| format!("helpers on {:?}", l));
        for v in [&[4][..], &[1, 0, -2]] {
            let (dv, sv, mv) = (dense::<i64>(v), sparse::<i64>(&as_map(v)), of_dense(v));
            let (sum, dif, pr) = (add(&ml, &mv), sub(&ml, &mv), mul(&ml, &mv));
            let (mut a, mut b) = (dv.dup(), sv.clone());
            ensure!(add_poly(dl.ordered_term_iter(), &mut b) == Ok(()) && add_poly(tl.ordered_term_iter(), &mut a) == Ok(()), "add_poly refused");
            chk(ctx, "add_poly", &a, &sum)?;
            chk(ctx, "add_poly", &b, &sum)?;
            let (mut a, mut b) = (dv.dup(), sv.clone());
            ensure!(sub_poly(dl.ordered_term_iter(), &mut b) == Ok(()) && sub_poly(tl.ordered_term_iter(), &mut a) == Ok(()), "sub_poly refused");
            chk(ctx, "sub_poly", &a, &neg(&dif))?;
            chk(ctx, "sub_poly", &b, &neg(&dif))?;
            let (mut a, mut b) = (Polynomial::zero(), SparsePolynomial::zero());
            ensure!(mul_poly_vec(dl.ordered_term_iter(), &sv.terms_as_vec(), &mut b) == Ok(()) && mul_poly_vec(dv.ordered_term_iter(), &tl.terms_as_vec(), &mut a) == Ok(()), "mul_poly_vec refused");
            chk(ctx, "mul_poly_vec", &a, &pr)?;
            chk(ctx, "mul_poly_vec", &b, &pr)?;
            chk(ctx, "poly_add!", &poly_add!(dl, sv), &sum)?;
            chk(ctx, "poly_sub!", &poly_sub!(tl, dv), &dif)?;
            chk(ctx, "poly_mul!", &poly_mul!(tl, dv), &pr)?;
            let (mut a, mut b) = (dl.dup(), tl.clone());
            ensure!(poly_mul!(a; sv) == Ok(()) && poly_mul!(b; dv) == Ok(()), "poly_mul! refused");
            chk(ctx, "poly_mul! into a dense sink", &a, &pr)?;
            chk(ctx, "poly_mul! into a sparse sink", &b, &pr)?;
        }
        Ok(())
    });
    let all = any_vecs(2, &TINY64);
    let n = all.len();
    s.add("f64 tiny and huge", "every pair of vectors of length <= 2 over 9 values from the smallest subnormal to 1e300: helpers and macros give exactly the float sum and difference of each coefficient, and the product to rounding", (n * n) as u64, move |ctx, i| {
        let (a, b) = split(i, n);
        let (a, b) = (&all[a], &all[b]);
        let at = |v: &[f64], d: usize| if d < v.len() { v[v.len() - 1 - d] } else { 0.0 };
        let (x, y) = (Polynomial { terms: a.clone() }, SparsePolynomial { terms: b.iter().rev().cloned().enumerate().collect() });
        ctx.op(|| format!("helpers on {:?} and {:?}", x, y));
        let same = |what: &str, p: &Polynomial<f64>, minus: bool| -> R {
            for d in 0..4 {
                let w = if minus { at(a, d) - at(b, d) } else { at(a, d) + at(b, d) };
                ensure!(at(&p.terms, d) == w, "{} of {:?} and {:?} gives {:?}", what, a, b, p);
            }
            Ok(())
        };
        let mut p = x.dup();
        ensure!(add_poly(y.ordered_term_iter(), &mut p) == Ok(()), "add_poly refused");
        same("add_poly", &p, false)?;
        let mut p = x.dup();
        ensure!(sub_poly(y.ordered_term_iter(), &mut p) == Ok(()), "sub_poly refused");
        same("sub_poly", &p, true)?;
        same("poly_add!", &poly_add!(x, y), false)?;
        same("poly_sub!", &poly_sub!(x, y), true)?;
        let mut q = Polynomial::zero();
        ensure!(mul_poly_vec(x.ordered_term_iter(), &y.terms_as_vec(), &mut q) == Ok(()), "mul_poly_vec refused");
        let w = [at(a, 0) * at(b, 0), at(a, 1) * at(b, 0) + at(a, 0) * at(b, 1), at(a, 1) * at(b, 1)];
        let mag = (at(a, 1) * at(b, 0)).abs() + (at(a, 0) * at(b, 1)).abs();
        for p in [q, poly_mul!(x, y)] {
            if w.iter().all(|v| v.is_finite()) {
                ensure!((0..3).all(|d| (at(&p.terms, d) - w[d]).abs() <= if d == 1 { 4.0 * f64::EPSILON * mag } else { 0.0 }), "product of {:?} and {:?} gives {:?}", a, b, p);
            }
        }
        Ok(())
    });
    macro_rules! all_types {
        ($u:expr, $n:expr; $($t:ty),*) => {$(
            s.add(concat!(stringify!($t), " mid lengths"), "for every length 0..=140 (thorough 700), eight shapes (all non-zero; only the constant, leading or middle entry; one leading zero; all zero; alternating; leading half zero): added to, subtracted from (where that keeps the coefficients representable) and multiplied with short vectors, helpers and macros, dense and sparse source and sink", mid_count(if t { 700 } else { $n }), |ctx, i| {
                let l = mid_len(i, $u);
                let (dl, tl) = (dense::<$t>(&l), sparse::<$t>(&stripped(&l)));
                let ml = of_dense(&l);
                ctx.op(|| format!("helpers on {:?}", l));
                let vs: &[&[i64]] = if $u { &[&[4], &[1, 0, 2], &[1, 1, 1, 1, 1]] } else { &[&[4], &[1, 0, -2], &[1, -1, 1, 1, 1]] };
                for v in vs {
                    let (dv, sv, mv) = (dense::<$t>(v), sparse::<$t>(&as_map(v)), of_dense(v));
                    let (sum, dif, pr) = (add(&ml, &mv), sub(&ml, &mv), mul(&ml, &mv));
                    let (mut a, mut b) = (dv.dup(), sv.clone());
                    ensure!(add_poly(dl.ordered_term_iter(), &mut b) == Ok(()) && add_poly(tl.ordered_term_iter(), &mut a) == Ok(()), "add_poly refused");
                    chk(ctx, "add_poly", &a, &sum)?;
                    chk(ctx, "add_poly", &b, &sum)?;
                    if !$u {
                        let (mut a, mut b) = (dv.dup(), sv.clone());
                        ensure!(sub_poly(dl.ordered_term_iter(), &mut b) == Ok(()) && sub_poly(tl.ordered_term_iter(), &mut a) == Ok(()), "sub_poly refused");
                        chk(ctx, "sub_poly", &a, &neg(&dif))?;
                        chk(ctx, "sub_poly", &b, &neg(&dif))?;
                        chk(ctx, "poly_sub!", &poly_sub!(tl, dv), &dif)?;
                    }
                    chk(ctx, "poly_sub!", &poly_sub!(dl, tl), &vec![])?;
                    chk(ctx, "poly_sub!", &poly_sub!(dl, dl), &vec![])?;
                    chk(ctx, "poly_add!", &poly_add!(dv, dv), &scale(&mv, 2))?;
                    chk(ctx, "poly_mul!", &poly_mul!(dv, dv), &mul(&mv, &mv))?;
                    chk(ctx, "poly_add!", &poly_add!(dl, sv), &sum)?;
                    let (mut a, mut b) = (Polynomial::zero(), SparsePolynomial::zero());
                    ensure!(mul_poly_vec(dl.ordered_term_iter(), &sv.terms_as_vec(), &mut b) == Ok(()) && mul_poly_vec(dv.ordered_term_iter(), &tl.terms_as_vec(), &mut a) == Ok(()), "mul_poly_vec refused");
                    chk(ctx, "mul_poly_vec", &a, &pr)?;
                    chk(ctx, "mul_poly_vec", &b, &pr)?;
                    chk(ctx, "poly_mul!", &poly_mul!(tl, dv), &pr)?;
                    let (mut a, mut b) = (dl.dup(), tl.clone());
                    ensure!(poly_mul!(a; sv) == Ok(()) && poly_mul!(b; dv) == Ok(()), "poly_mul! refused");
                    chk(ctx, "poly_mul! into a dense sink", &a, &pr)?;
                    chk(ctx, "poly_mul! into a sparse sink", &b, &pr)?;
                }
                Ok(())
            });
        )*};
    }
    all_types!(false, 140; i8, i16, i32, i128, isize, f32, f64);
    all_types!(true, 140; u8, u16, u32, u64, u128, usize);
    let ed = edge_degs();
    s.add("edge degrees", "for every degree d around a power of two or ten up to 2^64-1: every map over degrees {0, d-1, d, d+1}, each absent, explicit zero or one of 2 values, as sparse source and sink against 5 small polynomials with up to four terms, products whose degrees fit, helpers and macros", ed.len() as u64, move |ctx, i| {
        for m in around(ed[i as usize], &[0, 3, -2]) {
            let (p, mp) = (sparse::<i64>(&m), of_map(&m));
            for v in [&[5][..], &[1, -1], &[2, 0, 7], &[1, 1, 1, 1], &[0, 4, 0, 0, 0]] {
                let (dv, mv) = (dense::<i64>(v), of_dense(v));
                ctx.op(|| format!("helpers on {:?} and {:?}", p, dv));
                let mut a = p.dup();
                ensure!(add_poly(dv.ordered_term_iter(), &mut a) == Ok(()), "add_poly refused");
                chk(ctx, "add_poly", &a, &add(&mp, &mv))?;
                let mut a = sparse::<i64>(&as_map(v));
                ensure!(poly_sub!(a; p) == Ok(()), "poly_sub! refused");
                chk(ctx, "poly_sub!", &a, &sub(&mv, &mp))?;
                if mp.iter().any(|x| x.0.checked_add(4).is_none()) {
                    continue;
                }
                let pr = mul(&mp, &mv);
                let (mut a, mut b) = (SparsePolynomial::zero(), SparsePolynomial::zero());
                ensure!(mul_poly_vec(p.ordered_term_iter(), &dv.terms_as_vec(), &mut b) == Ok(()) && mul_poly_vec(dv.ordered_term_iter(), &p.terms_as_vec(), &mut a) == Ok(()), "mul_poly_vec refused");
                chk(ctx, "mul_poly_vec", &a, &pr)?;
                chk(ctx, "mul_poly_vec", &b, &pr)?;
                let (mut a, mut b) = (p.dup(), sparse::<i64>(&as_map(v)));
                ensure!(poly_mul!(a; dv) == Ok(()) && poly_mul!(b; p) == Ok(()), "poly_mul! refused");
                chk(ctx, "poly_mul!", &a, &pr)?;
                chk(ctx, "poly_mul!", &b, &pr)?;
            }
        }
        Ok(())
    });
    s.add("lifted", &format!("{}: as sparse source and sink against 4 small polynomials and itself, helpers and macros, products whose degrees fit", LIFTED), lifted_count(), |ctx, i| {
        let m = lifted(i, false);
        let (p, mp) = (sparse::<i64>(&m), of_map(&m));
        ctx.op(|| format!("helpers on {:?}", p));
        let mut a = p.clone();
        ensure!(poly_add!(a; p) == Ok(()), "poly_add! refused");
        chk(ctx, "poly_add!", &a, &scale(&mp, 2))?;
        ensure!(poly_sub!(a; p, p) == Ok(()), "poly_sub! refused");
        chk(ctx, "poly_sub!", &a, &vec![])?;
        for v in [&[5][..], &[1, -1], &[1, 1, 1, 1], &[0, 4, 0, 0, 0]] {
            let (dv, mv) = (dense::<i64>(v), of_dense(v));
            let mut a = p.clone();
            ensure!(add_poly(dv.ordered_term_iter(), &mut a) == Ok(()), "add_poly refused");
            chk(ctx, "add_poly", &a, &add(&mp, &mv))?;
            let mut a = sparse::<i64>(&as_map(v));
            ensure!(sub_poly(p.ordered_term_iter(), &mut a) == Ok(()), "sub_poly refused");
            chk(ctx, "sub_poly", &a, &sub(&mv, &mp))?;
            let pr = mul(&mp, &mv);
            let (mut a, mut b) = (SparsePolynomial::zero(), SparsePolynomial::zero());
            ensure!(mul_poly_vec(p.ordered_term_iter(), &dv.terms_as_vec(), &mut b) == Ok(()) && mul_poly_vec(dv.ordered_term_iter(), &p.terms_as_vec(), &mut a) == Ok(()), "mul_poly_vec refused");
            chk(ctx, "mul_poly_vec", &a, &pr)?;
            chk(ctx, "mul_poly_vec", &b, &pr)?;
            let (mut a, mut b) = (p.clone(), sparse::<i64>(&as_map(v)));
            ensure!(poly_mul!(a; dv) == Ok(()) && poly_mul!(b; p) == Ok(()), "poly_mul! refused");
            chk(ctx, "poly_mul!", &a, &pr)?;
            chk(ctx, "poly_mul!", &b, &pr)?;
        }
        Ok(())
    });
    let ov = vecs(if t { 4 } else { 3 }, &[0, 1, -2]);
    let n = ov.len() as u64;
    s.add("a user's own sink", "every pair of vectors of length <= 3 (thorough 4) over {0, 1, -2}, added to, subtracted from and multiplied into a sink type defined outside of the crate which refuses one degree 0..=6 (or none) with one of the three errors: success and the exact result if no term has that degree, that error if one has", n * n, move |c, i| {
        let (a, b) = (&ov[(i / n) as usize], &ov[(i % n) as usize]);
        let (ma, mb) = (of_dense(a), of_dense(b));
        let (pa, sa, pb, sb) = (dense::<i64>(a), sparse::<i64>(&as_map(a)), dense::<i64>(b), sparse::<i64>(&as_map(b)));
        for d in 0..=7usize {
            for e in [TryAddError::DegreeOutOfBounds, TryAddError::TooManyTerms, TryAddError::CanNotNegate] {
                let refuses = if d < 7 { Some((d, e)) } else { None };
                let hit = |m: &M| d < 7 && coeff_at(m, d) != 0;
                let judge = |what: &str, got: Result<(), TryAddError>, sink: &Own, hit: bool, want: &M| -> R {
                    if hit {
                        ensure!(got == Err(e), "{} into a sink that refuses degree {} with {:?} gives {:?}", what, d, e, got);
                    } else {
                        ensure!(got == Ok(()), "{} into a sink that refuses {:?} gives {:?}", what, refuses, got);
                        ensure!(sink.model() == *want, "{}: the sink holds {:?}, not {:?}", what, sink.model(), want);
                        ensure!(sink.is_zero() == want.is_empty(), "{}: is_zero() of {:?} is {}", what, sink, sink.is_zero());
                    }
                    Ok(())
                };
                c.op(|| format!("{:?} and {:?} combined in a sink that refuses {:?}", a, b, refuses));
                let start = Own::of(b, refuses);
                let mut k = start.clone();
                let r = add_poly(pa.ordered_term_iter(), &mut k);
                judge("add_poly", r, &k, hit(&ma), &add(&mb, &ma))?;
                let mut k = start.clone();
                let r = poly_add!(k; sa);
                judge("poly_add!", r, &k, hit(&ma), &add(&mb, &ma))?;
                let mut k = Own::of(&[], refuses);
                let r = poly_add!(k; pa, sb);
                judge("poly_add!", r, &k, hit(&ma) || hit(&mb), &add(&mb, &ma))?;
                let mut k = start.clone();
                let r = sub_poly(sa.ordered_term_iter(), &mut k);
                judge("sub_poly", r, &k, hit(&ma), &sub(&mb, &ma))?;
                let mut k = Own::of(&[], refuses);
                let r = poly_sub!(k; sa, pb);
                judge("poly_sub!", r, &k, hit(&ma) || hit(&mb), &neg(&add(&mb, &ma)))?;
                // partial products that cancel at the refused degree leave the answer open
                let pr = mul(&ma, &mb);
                let partial = ma.iter().any(|x| mb.iter().any(|y| x.0 + y.0 == d));
                if d == 7 || hit(&pr) || !partial {
                    let mut k = start.clone();
                    let r = mul_poly_vec(pa.ordered_term_iter(), &sb.terms_as_vec(), &mut k);
                    judge("mul_poly_vec", r, &k, hit(&pr), &add(&mb, &pr))?;
                    let mut k = start.clone();
                    let r = poly_mul!(k; sa);
                    judge("poly_mul!", r, &k, hit(&pr), &pr)?;
                }
            }
        }
        Ok(())
    });
    let ev = vecs(3, &[0, 1, -2]);
    let n = ev.len() as u64;
    s.add("argument expressions", "every pair of vectors of length <= 3 over {0, 1, -2}, given to the macros as expressions that hand out the next element of a list (so that each must be evaluated exactly once), and sinks that are elements of a vector, fields and dereferences", n * n, move |c, i| {
        let (a, b) = (&ev[(i / n) as usize], &ev[(i % n) as usize]);
        let (ma, mb) = (of_dense(a), of_dense(b));
        let list = || vec![dense::<i64>(a), dense::<i64>(b), dense::<i64>(a)].into_iter();
        c.op(|| format!("macros with {:?}, {:?} as elements of a list", a, b));
        let (sum, dif, pro) = (add(&ma, &mb), sub(&ma, &mb), mul(&ma, &mb));
        let mut it = list();
        chk(c, "poly_add!", &poly_add!(it.next().unwrap(), it.next().unwrap()), &sum)?;
        ensure!(it.len() == 1, "poly_add! evaluates its arguments more than once");
        let mut it = list();
        chk(c, "poly_sub!", &poly_sub!(it.next().unwrap(), it.next().unwrap()), &dif)?;
        ensure!(it.len() == 1, "poly_sub! evaluates its arguments more than once");
        let mut it = list();
        chk(c, "poly_mul!", &poly_mul!(it.next().unwrap(), it.next().unwrap()), &pro)?;
        ensure!(it.len() == 1, "poly_mul! evaluates its arguments more than once");
        let mut it = list();
        chk(c, "poly_mul!", &poly_mul!(it.next().unwrap(), it.next().unwrap(), it.next().unwrap()), &mul(&pro, &ma))?;
        let mut it = list();
        let mut k = vec![sparse::<i64>(&as_map(b)), SparsePolynomial::zero()];
        ensure!(poly_add!(k[0]; it.next().unwrap(), it.next().unwrap()) == Ok(()), "poly_add! refused");
        chk(c, "poly_add! into an element", &k[0], &add(&sum, &mb))?;
        chk(c, "the element beside the sink", &k[1], &norm([]))?;
        let mut it = list();
        let mut k = (dense::<i64>(b), 0u8);
        ensure!(poly_sub!(k.0; it.next().unwrap(), it.next().unwrap()) == Ok(()), "poly_sub! refused");
        chk(c, "poly_sub! into a field", &k.0, &neg(&ma))?;
        let mut it = list();
        let mut k = Box::new(dense::<i64>(b));
        {
            let r = &mut *k;
            ensure!(poly_mul!(*r; it.next().unwrap()) == Ok(()), "poly_mul! refused");
        }
        ensure!(it.len() == 2, "poly_mul! evaluates its arguments more than once");
        chk(c, "poly_mul! into a dereference", &*k, &pro)?;
        if a.len() == 3 {
            let mut it = a.iter().copied();
            chk(c, "polynomial!", &polynomial![it.next().unwrap(), it.next().unwrap(), it.next().unwrap()], &ma)?;
            let mut it = a.iter().copied();
            chk(c, "derivative!", &derivative![it.next().unwrap(), it.next().unwrap(), it.next().unwrap()], &deriv(&ma))?;
            let mut it = a.iter().map(|x| x * 6);
            chk(c, "integral!", integral![it.next().unwrap(), it.next().unwrap(), it.next().unwrap()].inner(), &integ(&scale(&ma, 6)))?;
        }
        Ok(())
    });
    s.spare(&["mid lengths", "long operands"]);
    s
}
fn main() {
    vharness::engine::main(Prop {
        id: "C14",
        build,
        assumptions: &[
            "coefficient or degree overflow is outside the property; so is a zero term at a degree the sink cannot hold",
            "what a sink holds after an error is left open",
            "products into a one-term sink whose intermediate terms differ in degree but cancel are left open",
        ],
    });
}
