//! C15: histories of operations, searched breadth-first over the real objects (all stored
//! representations reachable from the initial objects within the bounds).
use num::One;
use rustnomial::*;
use std::str::FromStr;
use vharness::coef::*;
use vharness::dom::*;
use vharness::engine::*;
use vharness::ensure;
use vharness::model::{self, *};
use vharness::obs::*;

type Run<P> = Box<dyn Fn(&P) -> Result<P, String> + Send + Sync>;
/// One operation: what it does to the polynomial (None: outside the bounds or undefined) and the real call.
struct Op<P> {
    label: String,
    model: Box<dyn Fn(&M) -> Option<M> + Send + Sync>,
    run: Run<P>,
}
struct Mach<P> {
    name: String,
    bounds: String,
    init: Vec<(P, M)>,
    ops: Vec<Op<P>>,
    key: fn(&P) -> Vec<Vec<(usize, u128)>>,
    /// Whether histories are continued from the object.
    inside: Box<dyn Fn(&P) -> bool + Send + Sync>,
    /// Which results are judged (no coefficient overflow on the way).
    defined: Box<dyn Fn(&M) -> bool + Send + Sync>,
    check: Box<dyn Fn(&mut Ctx, &P, &M) -> R + Send + Sync>,
    depth: usize,
    /// Whether operations are repeated on vectors with spare capacity.
    spare: bool,
}
impl<P: Clone + Send + Sync + std::fmt::Debug + 'static> Machine for Mach<P> {
    type S = (P, M);
    fn name(&self) -> &str {
        &self.name
    }
    fn bounds(&self) -> String {
        format!("{} initial objects, {} operations enabled in every state; {}", self.init.len(), self.ops.len(), self.bounds)
    }
    fn max_depth(&self) -> usize {
        self.depth
    }
    fn init(&self) -> Vec<Self::S> {
        self.init.clone()
    }
    fn nops(&self) -> usize {
        self.ops.len()
    }
    fn key(&self, s: &Self::S) -> u128 {
        h128(&(self.key)(&s.0))
    }
    fn check(&self, ctx: &mut Ctx, s: &Self::S) -> R {
        (self.check)(ctx, &s.0, &s.1)
    }
    fn step(&self, ctx: &mut Ctx, s: &Self::S, op: usize) -> Result<Option<Self::S>, String> {
        let o = &self.ops[op];
        let Some(m) = (o.model)(&s.1) else { return Ok(None) };
        if !(self.defined)(&m) {
            return Ok(None);
        }
        ctx.op(|| format!("{} on {:?}", o.label, s.0));
        let run = || (o.run)(&s.0).map_err(|e| format!("{} on {}: {}", o.label, show(&s.1), e));
        let p = run()?;
        if self.spare {
            // the same operation on an object whose vector has spare capacity (a clone has none)
            for n in [1, 50] {
                SLACK.with(|x| x.set((n, 0)));
                let q = run();
                SLACK.with(|x| x.set((0, 0)));
                let q = q.map_err(|e| format!("with spare capacity {}: {}", n, e))?;
                if (self.key)(&q) != (self.key)(&p) {
                    (self.check)(ctx, &q, &m).map_err(|e| format!("after {} with spare capacity {}: {}", o.label, n, e))?;
                }
            }
        }
        if !(self.inside)(&p) {
            // judged, but not continued from
            (self.check)(ctx, &p, &m).map_err(|e| format!("after {}: {}", o.label, e))?;
            ctx.outcome("left the bounds");
            return Ok(None);
        }
        Ok(Some((p, m)))
    }
}

type Pair<N> = (Polynomial<N>, SparsePolynomial<N>);
struct B<P> {
    ops: Vec<Op<P>>,
}
impl<P: 'static> B<P> {
    fn op(&mut self, label: impl Into<String>, model: impl Fn(&M) -> Option<M> + Send + Sync + 'static, run: impl Fn(&P) -> Result<P, String> + Send + Sync + 'static) {
        self.ops.push(Op { label: label.into(), model: Box::new(model), run: Box::new(run) });
    }
}
impl<N: Ring> B<Pair<N>> {
    /// The same operation on both forms.
    fn both(&mut self, label: impl Into<String>, model: impl Fn(&M) -> Option<M> + Send + Sync + 'static, d: impl Fn(Polynomial<N>) -> Polynomial<N> + Send + Sync + 'static, s: impl Fn(SparsePolynomial<N>) -> SparsePolynomial<N> + Send + Sync + 'static) {
        self.op(label, model, move |p| Ok((d(p.0.dup()), s(p.1.clone()))));
    }
}
/// Quotient and remainder when every step of the long division is exact (then they are unique).
fn divide<N: Co>(a: &M, b: &M, field: bool) -> Option<(M, M)> {
    let &(db, lb) = b.last()?;
    let (mut q, mut r) = (M::new(), a.clone());
    while let Some(&(dr, lr)) = r.last() {
        if dr < db {
            break;
        }
        let k = if field {
            (1..).find(|k| N::red(k * lb) == lr)?
        } else if lr % lb == 0 {
            lr / lb
        } else {
            return None;
        };
        q.push((dr - db, k));
        if !field && !b.iter().all(|t| t.1.checked_mul(k).is_some_and(|v| N::fits(v))) {
            return None; // an intermediate value may overflow
        }
        r = red::<N>(sub(&r, &mul(&shl(b, dr - db)?, &vec![(0, k)])));
        if !field && !r.iter().all(|t| N::fits(t.1)) {
            return None;
        }
    }
    q.reverse();
    Some((q, r))
}
/// What needs traits that the crate keeps private, per type.
struct Ext<N: 'static> {
    eval: fn(&Pair<N>, N) -> (N, N),
    text: fn(&Pair<N>) -> (String, String),
}
fn pair_check<N: Ring>(ctx: &mut Ctx, p: &Pair<N>, m: &M, points: &[i128], ext: &Option<Ext<N>>) -> R {
    observe::<N, _>(ctx, "dense", &p.0, m)?;
    observe::<N, _>(ctx, "sparse", &p.1, m)?;
    let t: Vec<(N, usize)> = m.iter().rev().map(|&(d, c)| (N::mk(c), d)).collect();
    ctx.op(|| "equality with freshly built polynomials".into());
    ensure!(p.0 == Polynomial::from_terms(&t), "dense {:?} is not equal to {}", p.0, show(m));
    ensure!(p.1 == SparsePolynomial::from_terms(&t), "sparse {:?} is not equal to {}", p.1, show(m));
    let mut u = t.clone();
    u.push((N::one(), 0));
    ensure!(p.0 != Polynomial::from_terms(&u), "dense {:?} equals {} + 1", p.0, show(m));
    ensure!(p.1 != SparsePolynomial::from_terms(&u), "sparse {:?} equals {} + 1", p.1, show(m));
    for &x in points {
        let (Some(v), Some(b)) = (model::eval(m, x), eval_abs(m, x)) else { continue };
        if !N::fits(x) || !N::fits(b) {
            continue;
        }
        ctx.op(|| format!("eval({})", x));
        let got = p.0.eval(N::mk(x));
        ensure!(got.val() == Some(N::red(v)), "dense {:?} at {} is {:?}, not {}", p.0, x, got, v);
        if let Some(e) = ext {
            let got = (e.eval)(p, N::mk(x));
            ensure!(got.0.val() == Some(v) && got.1.val() == Some(v), "{:?} at {} is {:?}, not {}", p, x, got, v);
        }
    }
    if let Some(e) = ext {
        ctx.op(|| "to_string".into());
        let (g, w) = ((e.text)(p), render(m));
        ensure!(g.0 == w && g.1 == w, "displayed as {:?}, not {:?}", g, w);
    }
    Ok(())
}
fn pair_key<N: Co>(p: &Pair<N>) -> Vec<Vec<(usize, u128)>> {
    vec![p.0.raw(), p.1.raw()]
}
/// Short ones with their zeros stored; long ones with the zeros of the sparse form absent every other time.
fn pair_init<N: Co>(v: &[Vec<i64>]) -> Vec<(Pair<N>, M)> {
    v.iter().enumerate().map(|(i, v)| ((dense::<N>(v), sparse::<N>(&if v.len() > 8 && i % 2 == 1 { stripped(v) } else { as_map(v) })), red::<N>(of_dense(v)))).collect()
}
/// Operations that need no subtraction.
fn ring_ops<N: Ring>(b: &mut B<Pair<N>>, polys: &[Vec<i64>], scalars: &[i128], degs: &[usize], shifts: &[i32]) {
    for v in polys {
        // zeros stored as entries in some operands, absent in others
        let (m, d, s, t) = (of_dense(v), dense::<N>(v), sparse::<N>(&as_map(v)), sparse::<N>(&stripped(v)));
        let (m1, m2, m3) = (m.clone(), m.clone(), m.clone());
        let (d1, s1, d2, s2, d3, s3) = (d.clone(), t.clone(), d.clone(), s.clone(), d.clone(), t.clone());
        let (mz, dz, sz) = (m.clone(), d.clone(), s.clone());
        b.both(format!("+= (zeros stored) {}", show(&m)), move |x| Some(red::<N>(add(x, &mz))), move |mut p| { p += dz.clone(); p }, move |mut p| { p += sz.clone(); p });
        let (mz, dz, sz) = (m.clone(), d.clone(), t.clone());
        b.both(format!("{} +", show(&m)), move |x| Some(red::<N>(add(x, &mz))), move |p| dz.clone() + p, move |p| sz.clone() + p);
        b.both(format!("+= {}", show(&m)), move |x| Some(red::<N>(add(x, &m1))), move |mut p| { p += d1.clone(); p }, move |mut p| { p += s1.clone(); p });
        b.both(format!("+ {}", show(&m)), move |x| Some(red::<N>(add(x, &m2))), move |p| p + d2.clone(), move |p| p + s2.clone());
        b.both(format!("*= {}", show(&m)), move |x| Some(red::<N>(mul(x, &m3))), move |mut p| { p *= d3.clone(); p }, move |mut p| { p *= &s3; p });
        let (m1, d1, s1) = (m.clone(), d.clone(), t.clone());
        b.both(format!("*= by value {}", show(&m)), move |x| Some(red::<N>(mul(x, &m1))), move |mut p| { p *= &d1; p }, move |mut p| { p *= s1.clone(); p });
        let (m1, d1, s1) = (m.clone(), d.clone(), s.clone());
        b.both(format!("{} *", show(&m)), move |x| Some(red::<N>(mul(x, &m1))), move |p| &d1 * &p, move |p| s1.clone() * p);
        let (m1, d1, s1) = (m.clone(), d.clone(), s.clone());
        b.both(format!("&* {}", show(&m)), move |x| Some(red::<N>(mul(x, &m1))), move |p| p * &d1, move |p| p.borrow_mul(&s1));
    }
    for &k in scalars {
        let n = N::mk(k);
        b.both(format!("*= scalar {}", k), move |x| Some(red::<N>(scale(x, k))), move |mut p| { p *= n; p }, move |mut p| { p *= n; p });
        b.both(format!("* scalar {}", k), move |x| Some(red::<N>(scale(x, k))), move |p| p * n, move |p| p * n);
    }
    b.both("+= self", |x| Some(red::<N>(scale(x, 2))), |mut p| { let q = p.clone(); p += q; p }, |mut p| { let q = p.clone(); p += q; p });
    b.both("square", |x| Some(red::<N>(mul(x, x))), |p| p.pow(2), |p| p.pow(2));
    b.both("pow 0", |_| Some(vec![(0, 1)]), |p| p.pow(0), |p| p.pow(0));
    b.both("pow 1", |x| Some(x.clone()), |p| p.pow(1), |p| p.pow(1));
    for &n in shifts {
        let f = move |x: &M| if n >= 0 { shl(x, n as usize) } else { Some(shr(x, n.unsigned_abs() as usize)) };
        b.both(format!("<<= {}", n), f, move |mut p| { p <<= n; p }, move |mut p| { p <<= n; p });
        b.both(format!("<< {}", n), f, move |p| p << n, move |p| p << n);
        b.both(format!(">>= {}", -n), f, move |mut p| { p >>= -n; p }, move |mut p| { p >>= -n; p });
        b.both(format!(">> {}", -n), f, move |p| p >> -n, move |p| p >> -n);
    }
    for &d in degs {
        for &k in scalars {
            let n = N::mk(k);
            b.both(format!("add_term({}, {})", k, d), move |x| Some(red::<N>(add(x, &norm([(d, k)])))), move |mut p| { p.add_term(n, d); p }, move |mut p| { p.add_term(n, d); p });
        }
    }
    b.both("set_to_zero", |_| Some(vec![]), |mut p| { p.set_to_zero(); p }, |mut p| { p.set_to_zero(); p });
    b.both("trim the dense form", |x| Some(x.clone()), |mut p| { p.trim(); p }, |p| p);
    b.both("new from own coefficients", |x| Some(x.clone()), |p| Polynomial::new(p.terms), |p| SparsePolynomial::new(p.terms));
    b.both("from own coefficients", |x| Some(x.clone()), |p| Polynomial::from(p.terms), |p| p);
    b.op("exchange through the terms", |x| Some(x.clone()), |p: &Pair<N>| Ok((Polynomial::from_terms(&p.1.terms_as_vec()), SparsePolynomial::from_terms(&p.0.ordered_term_iter().collect::<Vec<_>>()))));
    b.op("sparse from dense coefficients", |x| Some(x.clone()), |p: &Pair<N>| Ok((p.0.clone(), SparsePolynomial::from(p.0.terms.clone()))));
}
/// Operations that need subtraction.
fn signed_ops<N: SRing>(b: &mut B<Pair<N>>, polys: &[Vec<i64>], field: bool) {
    for v in polys {
        let (m, d, s, t) = (of_dense(v), dense::<N>(v), sparse::<N>(&as_map(v)), sparse::<N>(&stripped(v)));
        let (m1, d1, s1) = (m.clone(), d.clone(), t.clone());
        b.both(format!("-= {}", show(&m)), move |x| Some(red::<N>(sub(x, &m1))), move |mut p| { p -= d1.clone(); p }, move |mut p| { p -= s1.clone(); p });
        let (m1, d1, s1) = (m.clone(), d.clone(), s.clone());
        b.both(format!("-= &{}", show(&m)), move |x| Some(red::<N>(sub(x, &m1))), move |mut p| { p -= &d1; p }, move |p| p - s1.clone());
        let (m1, d1, d2) = (m.clone(), d.clone(), d.clone());
        b.both(format!("- dense {}", show(&m)), move |x| Some(red::<N>(sub(x, &m1))), move |p| p - &d1, move |p| p - d2.clone());
        let (m1, d1, s1) = (m.clone(), d.clone(), s.clone());
        b.both(format!("{} - self", show(&m)), move |x| Some(red::<N>(sub(&m1, x))), move |p| d1.clone() - p, move |p| s1.clone() - p);
        if model::red::<N>(m.clone()).is_empty() {
            continue;
        }
        let mr = red::<N>(m.clone());
        let (m1, d1, s1) = (mr.clone(), d.clone(), t.clone());
        b.both(format!("%= {}", show(&m)), move |x| Some(divide::<N>(x, &m1, field)?.1), move |mut p| { p %= d1.clone(); p }, move |mut p| { p %= s1.clone(); p });
        let (m1, d1, s1) = (mr.clone(), d.clone(), s.clone());
        b.both(format!("quotient by {}", show(&m)), move |x| Some(divide::<N>(x, &m1, field)?.0), move |p| p.floor_div(&d1), move |p| p.div_mod(&s1).0);
        let (m1, d1, s1) = (mr.clone(), d.clone(), s.clone());
        b.both(format!("{} % self", show(&m)), move |x| Some(divide::<N>(&m1, x, field)?.1), move |p| d1.div_mod(&p).1, move |p| s1.clone() % p);
    }
    b.both("negate", |x| Some(red::<N>(neg(x))), |p| -p, |p| -p);
    b.both("-= self", |_| Some(vec![]), |mut p| { let q = p.clone(); p -= q; p }, |mut p| { let q = p.clone(); p -= q; p });
    b.op("sparse -= dense", |_| Some(vec![]), |p: &Pair<N>| Ok((p.0.dup() - &p.0, p.1.clone() - p.0.dup())));
}

fn pair_machine<N: Ring>(s: &mut Suites, name: String, init: Vec<Vec<i64>>, ops: Vec<Op<Pair<N>>>, len: usize, limit: i128, points: Vec<i128>, ext: Option<Ext<N>>, depth: usize) {
    let lens = format!("stored dense length up to {}, sparse degrees below {}", len, len);
    let bounds = format!("dense and sparse in lockstep; {}{}; {}", lens, if limit > 0 { format!(", coefficients within +-{}", limit) } else { ", every coefficient of the field".into() }, if depth >= 1000 { "searched until no new state".into() } else { format!("all histories of up to {} operations", depth) });
    s.add_bfs(Mach::<Pair<N>> {
        name,
        bounds,
        init: pair_init(&init),
        ops,
        key: pair_key::<N>,
        inside: Box::new(move |p| p.0.terms.len() <= len && p.1.terms.keys().all(|&d| d < len) && (limit == 0 || p.0.terms.iter().chain(p.1.terms.values()).all(|c| c.val().is_some_and(|c| c.abs() <= limit)))),
        defined: Box::new(move |m| m.iter().all(|x| N::fits(x.1) && (limit == 0 || x.1.abs() <= 40 * limit))),
        check: Box::new(move |ctx, p, m| pair_check(ctx, p, m, &points, &ext)),
        depth,
        spare: true,
    });
}
fn field<N: SRing>(s: &mut Suites, polys: Vec<Vec<i64>>, scalars: &[i128], len: usize) {
    let mut b = B { ops: vec![] };
    ring_ops::<N>(&mut b, &polys, scalars, &[0, 1, 3], &[1, -1, 2, -3, 0]);
    signed_ops::<N>(&mut b, &polys, true);
    for &k in scalars {
        if N::red(k) == 0 {
            continue;
        }
        let n = N::mk(k);
        let inv = (1..).find(|i| N::red(i * k) == 1).unwrap();
        b.both(format!("/= {}", k), move |x| Some(red::<N>(scale(x, inv))), move |mut p| { p /= n; p }, move |p| p / n);
    }
    pair_machine(s, format!("{} histories", N::NAME), vec![vec![], vec![0; len], vec![1, 0, 1]], b.ops, len, 0, vec![0, 1, 2], None, 1000);
}

// ---------------------------------------------------------------- types with derivatives and text
macro_rules! ext {
    ($($t:ident),*) => {$(
        mod $t {
            use super::*;
            type N = $t;
            pub fn pair() -> Ext<N> {
                Ext { eval: |p, x| (p.0.eval(x), p.1.eval(x)), text: |p| (p.0.to_string(), p.1.to_string()) }
            }
            pub fn typed_ops(b: &mut B<Pair<N>>, scalars: &[i128], degs: &[usize]) {
                b.both("derivative", |x| Some(deriv(x)), |p| p.derivative(), |p| p.derivative());
                for c in [0i128, 1] {
                    let f = move |x: &M| if x.iter().all(|t| t.1 % (t.0 as i128 + 1) == 0) { Some(add(&integ(x), &norm([(0, c)]))) } else { None };
                    b.both(format!("integral with constant {}", c), f, move |p| p.integral().replace_c(N::mk(c)), move |p| p.integral().replace_c(N::mk(c)));
                }
                b.op("parse its own text", |x| Some(x.clone()), |p: &Pair<N>| {
                    let f = |s: String| Polynomial::<N>::from_str(&s).map_err(|e| format!("parsing {:?}: {:?}", s, e));
                    let g = |s: String| SparsePolynomial::<N>::from_str(&s).map_err(|e| format!("parsing {:?}: {:?}", s, e));
                    Ok((f(p.1.to_string())?, g(p.0.to_string())?))
                });
                for &k in scalars {
                    let n = N::mk(k);
                    if k != 0 {
                        let f = move |x: &M| if N::FLOAT && x.iter().any(|t| t.1 % k != 0) { None } else { Some(divs(x, k)) };
                        b.both(format!("/= {}", k), f, move |mut p| { p /= n; p }, move |mut p| { p /= n; p });
                        b.both(format!("/ {}", k), f, move |p| p / n, move |p| p / n);
                    }
                    for &d in degs {
                        for subtract in [false, true] {
                            let label = format!("try_{}_term({}, {})", if subtract { "sub" } else { "add" }, k, d);
                            let refused = move |x: &M| subtract && !N::SIGNED && x.iter().all(|t| t.0 != d);
                            b.op(label, move |x: &M| if refused(x) { Some(x.clone()) } else { Some(add(x, &norm([(d, if subtract { -k } else { k })]))) }, move |p: &Pair<N>| {
                                let mut p = (p.0.dup(), p.1.clone());
                                let m = p.0.m()?;
                                let r = if subtract { (p.0.try_sub_term(n, d), p.1.try_sub_term(n, d)) } else { (p.0.try_add_term(n, d), p.1.try_add_term(n, d)) };
                                if k != 0 {
                                    let w = if refused(&m) { Err(TryAddError::CanNotNegate) } else { Ok(()) };
                                    ensure!(r.0 == w && r.1 == w, "reported {:?}, not {:?}", r, w);
                                }
                                Ok(p)
                            });
                        }
                    }
                }
            }
            #[allow(dead_code)]
            fn check_small<P: SizedPolynomial<N> + Iterate<N> + Rep + Evaluable<N> + std::fmt::Display + PartialEq>(ctx: &mut Ctx, p: &P, m: &M, again: &P, other: &P) -> R {
                observe::<N, _>(ctx, "object", p, m)?;
                ctx.op(|| "equality, text, values".into());
                ensure!(*p == *again, "{:?} is not equal to {}", p, show(m));
                ensure!(*p != *other, "{:?} equals {:?}", p, other);
                let g = p.to_string();
                ensure!(g == render(m), "{:?} displayed as {:?}", p, g);
                for x in [0i128, 1, -1, 2, -2, 3] {
                    let (Some(v), Some(b)) = (model::eval(m, x), eval_abs(m, x)) else { continue };
                    if !N::fits(x) || !N::fits(b) { continue; }
                    let got = p.eval(N::mk(x));
                    ensure!(got.val() == Some(v), "{:?} at {} is {:?}, not {}", p, x, got, v);
                }
                Ok(())
            }
            fn limit(l: i128) -> Box<dyn Fn(&M) -> bool + Send + Sync> {
                Box::new(move |m| m.iter().all(|x| N::fits(x.1) && x.1.abs() <= 40 * l))
            }
            fn common<P>(b: &mut B<P>, scalars: &[i128], degs: &[usize], holds: fn(&M, usize) -> Result<(), TryAddError>)
            where P: SizedPolynomial<N> + MutablePolynomial<N> + Rep + Clone + std::fmt::Display + FromStr<Err: std::fmt::Debug> + Derivable<N> + 'static
                + std::ops::Mul<N, Output = P> + std::ops::MulAssign<N> + std::ops::Div<N, Output = P> + std::ops::DivAssign<N> {
                for &k in scalars {
                    let n = N::mk(k);
                    b.op(format!("*= scalar {}", k), move |x: &M| Some(scale(x, k)), move |p: &P| { let mut p = p.clone(); p *= n; Ok(p) });
                    b.op(format!("* scalar {}", k), move |x: &M| Some(scale(x, k)), move |p: &P| Ok(p.clone() * n));
                    if k != 0 {
                        let f = move |x: &M| if N::FLOAT && x.iter().any(|t| t.1 % k != 0) { None } else { Some(divs(x, k)) };
                        b.op(format!("/= {}", k), f, move |p: &P| { let mut p = p.clone(); p /= n; Ok(p) });
                        b.op(format!("/ {}", k), f, move |p: &P| Ok(p.clone() / n));
                    }
                    for &d in degs {
                        for subtract in [false, true] {
                            let label = format!("try_{}_term({}, {})", if subtract { "sub" } else { "add" }, k, d);
                            b.op(label, move |x: &M| if holds(x, d).is_err() { Some(x.clone()) } else { Some(add(x, &norm([(d, if subtract { -k } else { k })]))) }, move |p: &P| {
                                let mut p = p.clone();
                                let w = holds(&p.m()?, d);
                                let r = if subtract { p.try_sub_term(n, d) } else { p.try_add_term(n, d) };
                                ensure!(r == w || k == 0, "reported {:?}, not {:?}", r, w);
                                Ok(p)
                            });
                        }
                    }
                }
                b.op("set_to_zero", |_: &M| Some(vec![]), |p: &P| { let mut p = p.clone(); p.set_to_zero(); Ok(p) });
                b.op("derivative", |x: &M| if x.iter().all(|t| N::fits(t.0 as i128)) { Some(deriv(x)) } else { None }, |p: &P| Ok(p.derivative()));
                b.op("parse its own text", |x: &M| Some(x.clone()), |p: &P| P::from_str(&p.to_string()).map_err(|e| format!("parsing {:?}: {:?}", p.to_string(), e)));
                b.op("zero()", |_: &M| Some(vec![]), |_: &P| Ok(P::zero()));
            }
            macro_rules! fixed {
                ($f:ident, $ty:ident, $mk:ident, $len:expr, $neg:expr) => {
                    pub fn $f(s: &mut Suites, scalars: &[i128], lim: i128, polys: &[Vec<i64>]) {
                        type P = $ty<N>;
                        let mut b = B::<P> { ops: vec![] };
                        common(&mut b, scalars, &[0, 1, 2, 3, usize::MAX], |_, d| if d < $len { Ok(()) } else { Err(TryAddError::DegreeOutOfBounds) });
                        for v in polys {
                            let (m, o) = (of_dense(v), $mk::<N>(v));
                            let (m1, o1, m2, o2) = (m.clone(), o.clone(), m.clone(), o.clone());
                            b.op(format!("+= {}", show(&m)), move |x: &M| Some(add(x, &m1)), move |p: &P| { let mut p = p.clone(); p += o1.clone(); Ok(p) });
                            b.op(format!("+ {}", show(&m)), move |x: &M| Some(add(x, &m2)), move |p: &P| Ok(p.clone() + o2.clone()));
                            let (m1, o1, m2, o2) = (m.clone(), o.clone(), m.clone(), o.clone());
                            b.op(format!("-= {}", show(&m)), move |x: &M| Some(sub(x, &m1)), move |p: &P| { let mut p = p.clone(); p -= o1.clone(); Ok(p) });
                            b.op(format!("- {}", show(&m)), move |x: &M| Some(sub(x, &m2)), move |p: &P| Ok(p.clone() - o2.clone()));
                        }
                        for n in [0u32, 1, 2, 3, 4, u32::MAX] {
                            b.op(format!(">>= {}", n), move |x: &M| Some(shr(x, n as usize)), move |p: &P| { let mut p = p.clone(); p >>= n; Ok(p) });
                            b.op(format!(">> {}", n), move |x: &M| Some(shr(x, n as usize)), move |p: &P| Ok(p.clone() >> n));
                        }
                        let neg: Option<fn(&P) -> P> = $neg;
                        if let Some(f) = neg { b.op("negate", |x: &M| Some(neg_m(x)), move |p: &P| Ok(f(p))); }
                        s.add_bfs(Mach::<P> {
                            name: format!("{} {} histories", N::NAME, stringify!($mk)),
                            bounds: format!("coefficients within +-{}; searched until no new state", lim),
                            init: [vec![0; $len], (1..=$len as i64).collect::<Vec<i64>>()].iter().map(|v| ($mk::<N>(v), of_dense(v))).collect(),
                            ops: b.ops,
                            key: |p| vec![p.raw()],
                            inside: Box::new(move |p| p.coefficients.iter().all(|c| c.val().is_some_and(|c| c.abs() <= lim))),
                            defined: limit(lim),
                            check: Box::new(|ctx, p, m| {
                                let mut v = [0i64; $len];
                                for t in m { v[$len - 1 - t.0] = t.1 as i64; }
                                let same = $mk::<N>(&v);
                                v[$len - 1] += 1;
                                check_small(ctx, p, m, &same, &$mk::<N>(&v))
                            }),
                            depth: 1000,
                            spare: false,
                        });
                    }
                };
            }
            fixed!(binomial, LinearBinomial, bi, 2, super::negs::bi::$t());
            fixed!(trinomial, QuadraticTrinomial, tri, 3, super::negs::tri::$t());
            pub fn monomial(s: &mut Suites, scalars: &[i128], lim: i128) {
                type P = Monomial<N>;
                let mut b = B::<P> { ops: vec![] };
                common(&mut b, scalars, &[0, 1, 2, 3, 1 << 33], |m, d| if m.is_empty() || m[0].0 == d { Ok(()) } else { Err(TryAddError::TooManyTerms) });
                for (c, d) in [(1i64, 0usize), (2, 1), (0, 0), (0, 4), (3, 3)] {
                    let (m, o) = (norm([(d, c as i128)]), mono::<N>(c, d));
                    let m1 = m.clone();
                    b.op(format!("*= {:?}", o), move |x: &M| Some(mul(x, &m1)), move |p: &P| { let mut p = p.clone(); p *= o.clone(); Ok(p) });
                    let (m1, o) = (m.clone(), mono::<N>(c, d));
                    b.op(format!("*= &{:?}", o), move |x: &M| Some(mul(x, &m1)), move |p: &P| { let mut p = p.clone(); p *= &o; Ok(p) });
                    let (m1, o) = (m.clone(), mono::<N>(c, d));
                    b.op(format!("* {:?}", o), move |x: &M| Some(mul(x, &m1)), move |p: &P| Ok(p.clone() * o.clone()));
                    let (m1, o) = (m.clone(), mono::<N>(c, d));
                    b.op(format!("* &{:?}", o), move |x: &M| Some(mul(x, &m1)), move |p: &P| Ok(p.clone() * &o));
                }
                for n in [0i32, 1, -1, 3, -2, i32::MIN] {
                    let f = move |x: &M| if n >= 0 { shl(x, n as usize) } else { Some(shr(x, n.unsigned_abs() as usize)) };
                    b.op(format!("<<= {}", n), f, move |p: &P| { let mut p = p.clone(); p <<= n; Ok(p) });
                    b.op(format!("<< {}", n), f, move |p: &P| Ok(p.clone() << n));
                    let f = move |x: &M| if n < 0 { shl(x, n.unsigned_abs() as usize) } else { Some(shr(x, n as usize)) };
                    b.op(format!(">>= {}", n), f, move |p: &P| { let mut p = p.clone(); p >>= n; Ok(p) });
                    b.op(format!(">> {}", n), f, move |p: &P| Ok(p.clone() >> n));
                }
                for e in [0usize, 1, 2, 3] {
                    b.op(format!("pow({})", e), move |x: &M| Some(model::pow(x, e)), move |p: &P| Ok(p.clone().pow(e)));
                }
                let neg: Option<fn(&P) -> P> = super::negs::mono::$t();
                if let Some(f) = neg { b.op("negate", |x: &M| Some(neg_m(x)), move |p: &P| Ok(f(p))); }
                s.add_bfs(Mach::<P> {
                    name: format!("{} monomial histories", N::NAME),
                    bounds: format!("coefficients within +-{}, degrees up to 40 or within 8 of 2^31 or 2^33; searched until no new state", lim),
                    init: vec![(mono::<N>(0, 0), vec![]), (mono::<N>(0, 5), vec![]), (mono::<N>(1, 2), vec![(2, 1)])],
                    ops: b.ops,
                    key: |p| vec![p.raw()],
                    inside: Box::new(move |p| p.coefficient.val().is_some_and(|c| c.abs() <= lim) && (p.deg <= 40 || p.deg.abs_diff(1 << 31) < 8 || p.deg.abs_diff(1 << 33) < 8)),
                    defined: limit(lim),
                    check: Box::new(|ctx, p, m| {
                        let (c, d) = m.first().map_or((0, 0), |t| (t.1 as i64, t.0));
                        check_small(ctx, p, m, &mono::<N>(c, d), &mono::<N>(c + 1, d))?;
                        if m.is_empty() { check_small(ctx, p, m, &mono::<N>(0, 9), &mono::<N>(1, 0))?; }
                        Ok(())
                    }),
                    depth: 1000,
                    spare: false,
                });
            }
        }
    )*};
}
fn neg_m(m: &M) -> M {
    neg(m)
}
mod negs {
    macro_rules! n {
        ($f:ident $ty:ident; $($s:ident)*; $($u:ident)*) => {
            pub mod $f {
                use rustnomial::*;
                $(pub fn $s() -> Option<fn(&$ty<$s>) -> $ty<$s>> { Some(|p| -p.clone()) })*
                $(pub fn $u() -> Option<fn(&$ty<$u>) -> $ty<$u>> { None })*
            }
        };
    }
    n!(bi LinearBinomial; i8 i16 i32 i64 f32 f64; u8 u32);
    n!(tri QuadraticTrinomial; i8 i16 i32 i64 f32 f64; u8 u32);
    n!(mono Monomial; i8 i16 i32 i64 f32 f64; u8 u32);
}
ext!(i8, i16, i32, i64, u8, u32, f32, f64);

macro_rules! signed {
    ($s:expr, $th:expr, $t:ident, $polys:expr, $scal:expr, $len:expr, $lim:expr, $depth:expr) => {{
        let polys: &[Vec<i64>] = &$polys;
        let mut b = B { ops: vec![] };
        ring_ops::<$t>(&mut b, polys, &$scal, &[0, 1, 3], &[1, -1, -3, 0]);
        signed_ops::<$t>(&mut b, polys, false);
        $t::typed_ops(&mut b, &$scal, &[0, 2]);
        pair_machine($s, format!("{} dense and sparse histories", stringify!($t)), vec![vec![], vec![0, 0, 0], vec![2, 0, 1]], b.ops, $len, $lim, vec![0, 1, -1, 2, 3], Some($t::pair()), $depth);
    }};
}
macro_rules! unsigned {
    ($s:expr, $t:ident, $polys:expr, $scal:expr, $len:expr, $lim:expr, $depth:expr) => {{
        let polys: &[Vec<i64>] = &$polys;
        let mut b = B { ops: vec![] };
        ring_ops::<$t>(&mut b, polys, &$scal, &[0, 1, 3], &[1, -1, -3, 0]);
        $t::typed_ops(&mut b, &$scal, &[0, 2]);
        pair_machine($s, format!("{} dense and sparse histories", stringify!($t)), vec![vec![], vec![0, 0, 0], vec![2, 0, 1]], b.ops, $len, $lim, vec![0, 1, 2, 3], Some($t::pair()), $depth);
    }};
}
macro_rules! small {
    ($s:expr, $th:expr; $($t:ident: $scal:expr),*) => {$(
        let l = if $th { 5 } else { 3 };
        $t::monomial($s, &$scal, 2 * l);
        $t::binomial($s, &$scal, 2 * l, &vecs_exact(2, if <$t as Co>::SIGNED { &[0, 1, -2] } else { &[0, 1, 2] }));
        $t::trinomial($s, &$scal, l, &[vec![0, 0, 0], vec![1, 0, 0], vec![0, 2, 1], vec![2, 1, 1], vec![0, 0, 1], vec![1, 1, 0]]);
    )*};
}
fn build(th: bool) -> Suites {
    let mut s = Suites::default();
    field::<Gf<2>>(&mut s, vecs(if th { 4 } else { 3 }, &[0, 1]), &[0, 1], if th { 9 } else { 7 });
    field::<Gf<3>>(&mut s, vecs(if th { 3 } else { 2 }, &[0, 1, 2]), &[0, 1, 2], if th { 5 } else { 4 });
    if th {
        field::<Gf<5>>(&mut s, vecs(2, &[0, 1, 3, 4]), &[0, 2, 4], 4);
    }
    let polys = [vec![], vec![0, 0], vec![1], vec![-1, 2], vec![1, 0, -1], vec![0, 1, 1], vec![2, 0, 0, 0]];
    signed!(&mut s, th, i32, polys, [0, 1, -1, 2], if th { 5 } else { 4 }, if th { 4 } else { 2 }, 1000);
    signed!(&mut s, th, f64, polys, [0, 1, -1, 2], if th { 5 } else { 4 }, 2, if th { 1000 } else { 4 });
    signed!(&mut s, th, i8, polys, [0, 1, -1, 2], if th { 5 } else { 4 }, 2, if th { 1000 } else { 4 });
    signed!(&mut s, th, f32, polys, [0, 1, -1, 3], 4, 2, if th { 1000 } else { 3 });
    signed!(&mut s, th, i64, polys, [0, 1, -1, 3], 4, 2, if th { 1000 } else { 3 });
    signed!(&mut s, th, i16, polys, [0, 1, -1, 3], 4, 2, if th { 1000 } else { 3 });
    let up = [vec![], vec![0, 0], vec![1], vec![1, 2], vec![1, 0, 1], vec![0, 1, 1], vec![2, 0, 0, 0]];
    unsigned!(&mut s, u8, up, [0, 1, 2], 4, if th { 3 } else { 2 }, 1000);
    unsigned!(&mut s, u32, up, [0, 1, 3], 4, if th { 4 } else { 3 }, if th { 1000 } else { 3 });
    small!(&mut s, th; i32: [0, 1, -1, 2], f64: [0, 1, -1, 2], u8: [0, 1, 2], i8: [0, 1, -1, 2], u32: [0, 1, 3], i64: [0, 1, -1, 3], f32: [0, 1, -1, 2], i16: [0, 1, -1, 2]);
    // long histories without bounds on the length: every sequence of a few in-place operations
    let depth = if th { 10 } else { 8 };
    s.add("i64 unbounded in-place sequences", "every sequence of 8 (thorough 10) operations among += self, *= (x-1), -= (x^2+1), <<= 1, >>= 2, derivative, on dense and sparse, checked after every step", 6u64.pow(depth), move |ctx, i| {
        let mut i = i;
        let mut p: Pair<i64> = (Polynomial::one_of(), SparsePolynomial::from(vec![1i64, -2]));
        let mut m: M = vec![(0, -2), (1, 1)];
        let (a, b) = (dense::<i64>(&[1, -1]), dense::<i64>(&[1, 0, 1]));
        let (sa, sb) = (sparse::<i64>(&[(1, 1), (0, -1)]), sparse::<i64>(&[(2, 1), (0, 1)]));
        for _ in 0..depth {
            ctx.op(|| format!("operation {} on {:?}", i % 6, p));
            match i % 6 {
                0 => { m = scale(&m, 2); let q = p.clone(); p.0 += q.0; p.1 += q.1; }
                1 => { m = mul(&m, &vec![(0, -1), (1, 1)]); p.0 *= &a; p.1 *= &sa; }
                2 => { m = sub(&m, &vec![(0, 1), (2, 1)]); p.0 -= &b; p.1 -= sb.clone(); }
                3 => { m = shl(&m, 1).unwrap(); p.0 <<= 1; p.1 <<= 1; }
                4 => { m = shr(&m, 2); p.0 >>= 2; p.1 >>= 2; }
                _ => { m = deriv(&m); p = (p.0.derivative(), p.1.derivative()); }
            }
            i /= 6;
            chk(ctx, "dense", &p.0, &m)?;
            chk(ctx, "sparse", &p.1, &m)?;
        }
        pair_check(ctx, &p, &m, &[0, 1, -1, 2], &Some(i64::pair()))
    });
    // objects of every length as the start of short histories, operands of up to 70 terms
    let lens: Vec<usize> = if th { (0..=70).collect() } else { (0..=20).chain([31, 32, 33, 40, 63, 64, 65, 70]).collect() };
    let init: Vec<Vec<i64>> = lens
        .iter()
        .flat_map(|&n| {
            let f = move |j: usize| [1, -1, 2][j % 3];
            [
                (0..n).map(f).collect::<Vec<i64>>(),
                (0..n).map(|j| if j == 0 { 0 } else { f(j) }).collect(),
                (0..n).map(|j| if j + 1 == n { 1 } else { 0 }).collect(),
                (0..n).map(|j| if j % 4 == 1 { f(j) } else { 0 }).collect(),
            ]
        })
        .collect();
    let long: Vec<Vec<i64>> = vec![vec![], vec![0; 12], vec![1], vec![1, -1], full([9], 1).pop().unwrap().iter().map(|c| c.signum()).collect(), (0..70).map(|j| if j % 9 == 0 { 1 } else { 0 }).collect()];
    let mut b = B { ops: vec![] };
    ring_ops::<i64>(&mut b, &long, &[0, -1, 3], &[0, 8, 33], &[1, -1, -9, 40, 0]);
    signed_ops::<i64>(&mut b, &long, false);
    i64::typed_ops(&mut b, &[0, 2], &[0, 9]);
    pair_machine(&mut s, "i64 short histories of long objects".into(), init.clone(), b.ops, 400, 1 << 20, vec![0, 1, -1], Some(i64::pair()), 2);
    let mut b = B { ops: vec![] };
    ring_ops::<Gf<7>>(&mut b, &long, &[0, 6, 3], &[0, 8, 33], &[1, -1, -9, 40, 0]);
    signed_ops::<Gf<7>>(&mut b, &long, true);
    pair_machine(&mut s, "GF(7) short histories of long objects".into(), init, b.ops, 400, 0, vec![0, 1, 3], None, 2);
    s
}
/// The dense counterpart of the initial polynomial x - 2.
trait OneOf {
    fn one_of() -> Self;
}
impl OneOf for Polynomial<i64> {
    fn one_of() -> Self {
        Polynomial::new(vec![i64::one(), -2])
    }
}
fn main() {
    vharness::engine::main(Prop {
        id: "C15",
        assumptions: &["operations are enabled only where the polynomial operation is exact and does not overflow the coefficient type", "integer division is enabled where every step of the long division is exact, which makes quotient and remainder unique"],
        build,
    });
}
