//! C16: optional features: fixed-capacity array polynomials and sparse trimming.
use num::Complex;
use rustnomial::{ArrayPolynomial, Degree, Derivable, Evaluable, Integrable, MutablePolynomial, Polynomial, Roots, SizedPolynomial, SparsePolynomial, Term, TryAddError};
use std::sync::Arc;
use vharness::coef::*;
use vharness::dom::*;
use vharness::engine::*;
use vharness::ensure;
use vharness::model::*;
use vharness::obs::iterator_protocol;

fn terms_of<N: Co>(t: &[(N, usize)]) -> Option<Vec<(usize, i128)>> {
    t.iter().map(|x| x.0.val().map(|c| (x.1, c))).collect()
}
fn arr<N: Ring, const S: usize>(v: &[i64]) -> ArrayPolynomial<N, S> {
    let mut a = [N::zero(); S];
    for (x, &c) in a.iter_mut().zip(v) {
        *x = N::mk(c as i128);
    }
    ArrayPolynomial::new(a)
}
/// Every observer against the model.
fn observe<N: Ring, const S: usize>(ctx: &mut Ctx, what: &str, p: &ArrayPolynomial<N, S>, m: &M) -> R {
    ctx.op(|| format!("observers of {:?}", p));
    let w: Vec<(usize, i128)> = m.iter().rev().cloned().collect();
    let l: Vec<(N, usize)> = p.ordered_term_iter().collect();
    ctx.state(&(S, l.iter().map(|x| (x.0.bits(), x.1)).collect::<Vec<_>>()));
    ensure!(terms_of(&l).as_ref() == Some(&w), "{}: ordered_term_iter of {:?} lists {:?}, but the terms are {:?}", what, p, l, w);
    let l = p.terms_as_vec();
    ensure!(terms_of(&l).as_ref() == Some(&w), "{}: terms_as_vec of {:?} lists {:?}, but the terms are {:?}", what, p, l, w);
    let d = m.last().map_or(Degree::NegInf, |x| Degree::Num(x.0));
    ensure!(p.degree() == d, "{}: degree of {:?} is reported as {:?}, not {:?}", what, p, p.degree(), d);
    ensure!(p.is_zero() == m.is_empty(), "{}: is_zero of {:?} is {}", what, p, p.is_zero());
    for d in (0..S + 3).chain([64, 1 << 32, usize::MAX - 1, usize::MAX]) {
        let t = p.term_with_degree(d);
        let ok = match (&t, m.iter().find(|x| x.0 == d)) {
            (Term::ZeroTerm, None) => true,
            (Term::Term(c, e), Some(x)) => *e == d && c.val() == Some(x.1),
            _ => false,
        };
        ensure!(ok, "{}: term_with_degree({}) of {:?} is {:?}", what, d, p, t);
    }
    Ok(())
}
/// Term updates as an operation history: every state reachable within the bounds.
struct Mach<N, const S: usize> {
    name: String,
    ops: Vec<(u8, i128, usize)>,
    limit: i128,
    _n: std::marker::PhantomData<fn() -> N>,
}
impl<N: Ring, const S: usize> Machine for Mach<N, S> {
    type S = (ArrayPolynomial<N, S>, M);
    fn name(&self) -> &str {
        &self.name
    }
    fn bounds(&self) -> String {
        format!("from zero, {} updates (try_add_term, try_sub_term, set_to_zero; degrees beyond the capacity included) in every state, coefficients within +-{}; searched until no new state", self.ops.len(), self.limit)
    }
    fn max_depth(&self) -> usize {
        60
    }
    fn init(&self) -> Vec<Self::S> {
        vec![(ArrayPolynomial::<N, S>::zero(), vec![])]
    }
    fn nops(&self) -> usize {
        self.ops.len()
    }
    fn key(&self, s: &Self::S) -> u128 {
        h128(&(format!("{:?}", s.0), &s.1))
    }
    fn check(&self, ctx: &mut Ctx, s: &Self::S) -> R {
        observe(ctx, "state", &s.0, &s.1)
    }
    fn step(&self, ctx: &mut Ctx, s: &Self::S, op: usize) -> Result<Option<Self::S>, String> {
        let (k, c, d) = self.ops[op];
        let mut p = s.0.clone();
        if k == 2 {
            ctx.op(|| format!("{:?}.set_to_zero()", p));
            p.set_to_zero();
            ensure!(p.is_zero(), "set_to_zero left {:?}", p);
            return Ok(Some((p, vec![])));
        }
        let fits = d < S;
        let n = if fits { add(&s.1, &norm([(d, if k == 1 { -c } else { c })])) } else { s.1.clone() };
        if max_abs(&n) > self.limit || n.iter().any(|x| !N::fits(x.1)) {
            return Ok(None);
        }
        ctx.op(|| format!("{:?}.{}({}, {})", p, if k == 1 { "try_sub_term" } else { "try_add_term" }, c, d));
        let r = if k == 1 { p.try_sub_term(N::mk(c), d) } else { p.try_add_term(N::mk(c), d) };
        if fits {
            ctx.outcome("updated");
            ensure!(r == Ok(()), "update ({}, {}) of {:?} was refused with {:?}", c, d, s.0, r);
        } else {
            ctx.outcome("refused");
            ensure!(r == Err(TryAddError::DegreeOutOfBounds) || c == 0 && r == Ok(()), "update ({}, {}) of {:?} gives {:?} although the degree exceeds the capacity", c, d, s.0, r);
        }
        Ok(Some((p, n)))
    }
}
fn hist<N: Ring, const S: usize>(s: &mut Suites, limit: i128) {
    let mut ops = vec![(2, 0, 0)];
    for d in (0..=S).chain([S + 1, S + 5, usize::MAX - 1, usize::MAX]) {
        for c in [1i128, 2, -1, 0] {
            if N::SIGNED || c >= 0 {
                ops.push((0, c, d));
                ops.push((1, c, d));
            }
        }
    }
    s.add_bfs(Mach::<N, S> { name: format!("update histories {} capacity {}", N::NAME, S), ops, limit, _n: std::marker::PhantomData });
}

macro_rules! types {
    ($($t:ident),*) => {$(
        #[allow(dead_code)]
        mod $t {
            use super::*;
            type N = $t;
            pub fn all<const S: usize>(ctx: &mut Ctx, v: &[i64]) -> R {
                let p = arr::<N, S>(v);
                let m = of_dense(v);
                observe(ctx, "array polynomial", &p, &m)?;
                // evaluation
                for x in [0i128, 1, -1, 2, 3, -2, 5, 10, -7] {
                    if !<N as Co>::fits(x) { continue; }
                    // Horner's partial values are bounded by the sum of the terms' sizes (times x for |x| < 1: none here)
                    let Some(b) = eval_abs(&m, x) else { continue };
                    if b > <N as Co>::MAX || (!<N as Co>::SIGNED && eval(&m, x).map_or(true, |r| r < 0)) { continue; }
                    ctx.op(|| format!("{:?}.eval({})", p, x));
                    let r = p.eval(<N as Co>::mk(x));
                    let w = eval(&m, x).unwrap();
                    ensure!(r.val() == Some(w), "{:?} at {} evaluates to {:?}, not {}", p, x, r, w);
                }
                // derivative
                let dm = deriv(&m);
                // only the degree has to be representable, not the capacity
                let rep = m.last().map_or(true, |x| <N as Co>::fits(x.0 as i128));
                if rep && fits::<N>(&dm) {
                    ctx.op(|| format!("{:?}.derivative()", p));
                    let d = p.derivative();
                    observe(ctx, &format!("derivative of {:?}", p), &d, &dm)?;
                }
                // integral, each coefficient a multiple of what it is divided by
                let rep = m.last().map_or(true, |x| <N as Co>::fits(x.0 as i128 + 1));
                let lm: Vec<i128> = v.iter().enumerate().map(|(i, &c)| c as i128 * (S - i) as i128).collect();
                if rep && lm.iter().all(|&c| <N as Co>::fits(c)) {
                    let mut a = [<N as Co>::mk(0); S];
                    for (x, &c) in a.iter_mut().zip(&lm) { *x = <N as Co>::mk(c); }
                    let q = ArrayPolynomial::<N, S>::new(a);
                    ctx.op(|| format!("{:?}.integral()", q));
                    let i = q.integral();
                    let w = integ(&norm(lm.iter().rev().cloned().enumerate()));
                    chk(ctx, &format!("integral of {:?}", q), i.inner(), &w)?;
                }
                // non-exact division of floats, and the integral as a function
                if rep && <N as Co>::FLOAT && fits::<N>(&m) {
                    ctx.op(|| format!("{:?}.integral() in floats", p));
                    let i = p.integral();
                    let n = i.inner().terms.len();
                    for (k, c) in i.inner().terms.iter().enumerate() {
                        let (d, c) = (n - 1 - k, *c as f64);
                        let w = if d == 0 { 0.0 } else { m.iter().find(|x| x.0 + 1 == d).map_or(0.0, |x| x.1 as f64 / d as f64) };
                        ensure!((c - w).abs() <= if std::mem::size_of::<N>() == 4 { 1e-6 } else { 1e-15 } * w.abs(), "integral of {:?} has coefficient {} of x^{}, not {}", p, c, d, w);
                    }
                    ensure!(m.last().map_or(true, |x| n >= x.0 + 2), "integral of {:?} is {:?}", p, i);
                }
                // every way to walk through the terms
                iterator_protocol(&p, &|| p.ordered_term_iter())?;
                let (mut a, mut b) = (ArrayPolynomial::<N, S>::zero(), p.clone());
                b.clone_from(&a);
                a.clone_from(&p);
                observe(ctx, "zero overwritten by a clone", &a, &m)?;
                observe(ctx, "overwritten by a clone of zero", &b, &vec![])?;
                // zeroing
                let mut z = p.clone();
                ensure!(z == p, "a clone of {:?} differs from it", p);
                z.set_to_zero();
                observe(ctx, "after set_to_zero", &z, &vec![])?;
                observe(ctx, "zero()", &ArrayPolynomial::<N, S>::zero(), &vec![])?;
                ensure!((z == p) == m.is_empty(), "{:?} == zero is {}", p, z == p);
                Ok(())
            }
            pub fn equality<const S: usize>(ctx: &mut Ctx, v: &[i64], w: &[i64]) -> R {
                ctx.op(|| format!("array {:?} == {:?}", v, w));
                let (p, q) = (arr::<N, S>(v), arr::<N, S>(w));
                ensure!((p == q) == (v == w) && (p != q) == (v != w), "{:?} == {:?} is {}", p, q, p == q);
                Ok(())
            }
            pub fn updates<const S: usize>(ctx: &mut Ctx, v: &[i64]) -> R {
                let m = of_dense(v);
                for d in (0..=S).chain([S + 1, 64 + S, 1 << 32, usize::MAX - 1, usize::MAX]) {
                    for sub in [false, true] {
                        for c in [1i128, 5] {
                            let n = if d < S { add(&m, &norm([(d, if sub { -c } else { c })])) } else { m.clone() };
                            if !fits::<N>(&n) { continue; }
                            let mut p = arr::<N, S>(v);
                            ctx.op(|| format!("{:?} {} {} x^{}", p, if sub { "try_sub_term" } else { "try_add_term" }, c, d));
                            let r = if sub { p.try_sub_term(<N as Co>::mk(c), d) } else { p.try_add_term(<N as Co>::mk(c), d) };
                            ensure!(r == if d < S { Ok(()) } else { Err(TryAddError::DegreeOutOfBounds) }, "update ({}, {}) of {:?} gives {:?}", c, d, v, r);
                            observe(ctx, "updated array polynomial", &p, &n)?;
                        }
                    }
                }
                Ok(())
            }
        }
    )*};
}
types!(i32, i64, u8, u16, u32, i8, i16, u64, u128, i128, f64, f32);
/// Arrays of floats a tolerance could mistake for zero or for each other.
fn tiny<const S: usize>(ctx: &mut Ctx, v: &[f64]) -> R {
    let mut a = [0.0; S];
    a.copy_from_slice(v);
    let p = ArrayPolynomial::new(a);
    ctx.op(|| format!("{:?}", p));
    let same = |x: f64, y: f64| x == y || x.is_nan() && y.is_nan();
    let want: Vec<(f64, usize)> = (0..S).filter(|&i| v[i] != 0.0).map(|i| (v[i], S - 1 - i)).collect();
    for got in [p.terms_as_vec(), p.ordered_term_iter().collect()] {
        ensure!(got.len() == want.len() && got.iter().zip(&want).all(|(x, y)| same(x.0, y.0) && x.1 == y.1), "terms of {:?} are {:?}, not {:?}", p, got, want);
    }
    for d in 0..S + 2 {
        let w = want.iter().find(|x| x.1 == d);
        let ok = match (p.term_with_degree(d), w) {
            (Term::ZeroTerm, None) => true,
            (Term::Term(c, e), Some(x)) => e == d && same(c, x.0),
            _ => false,
        };
        ensure!(ok, "term of degree {} in {:?} is {:?}", d, p, p.term_with_degree(d));
    }
    ensure!(p.degree() == want.first().map_or(Degree::NegInf, |x| Degree::Num(x.1)), "degree of {:?} is {:?}", p, p.degree());
    ensure!(p.is_zero() == want.is_empty(), "is_zero of {:?}", p);
    let nan = v.iter().any(|x| x.is_nan());
    ensure!((p == p.clone()) != nan, "{:?} == itself is {}", p, p == p.clone());
    for d in 0..S {
        let mut q = p.clone();
        let b = [1e-300, -0.1][d % 2];
        let r = q.try_add_term(b, d);
        let mut w = v.to_vec();
        w[S - 1 - d] += b;
        let got: Vec<f64> = (0..S).rev().map(|d| match q.term_with_degree(d) { Term::ZeroTerm => 0.0, Term::Term(c, _) => c }).collect();
        ensure!(r == Ok(()) && got.iter().zip(&w).all(|(x, y)| same(*x, *y)), "{:?} plus {} x^{} is {:?}", p, b, d, q);
        if !nan { ensure!((q == p) == (w == v), "{:?} == {:?} is {}", q, p, q == p); }
    }
    if !nan {
        let e = p.eval(0.0);
        ensure!(e == v[S - 1], "{:?} at 0 is {}", p, e);
        let (e, w) = (p.eval(1.0), v.iter().sum::<f64>());
        let size: f64 = v.iter().map(|x| x.abs()).sum();
        ensure!((e - w).abs() <= 1e-14 * size, "{:?} at 1 is {}, not {}", p, e, w);
        let d = p.derivative();
        for k in 0..S {
            let w = want.iter().find(|x| x.1 == k + 1).map_or(0.0, |x| x.0 * x.1 as f64);
            let g = match d.term_with_degree(k) { Term::ZeroTerm => 0.0, Term::Term(c, _) => c };
            ensure!(g == w || (g - w).abs() <= 1e-14 * w.abs(), "derivative of {:?} is {:?}", p, d);
        }
    }
    Ok(())
}
// ---------------------------------------------------------------- closed forms on capacities 2 and 3
fn linear(ctx: &mut Ctx, a: i32, b: i32) -> R {
    let p = ArrayPolynomial::new([a, b]);
    let q = ArrayPolynomial::new([a as f64, b as f64]);
    ctx.op(|| format!("{:?}.root()", p));
    let (r, s) = (p.root(), q.root());
    let ok = match (r.clone(), s.clone()) {
        (Roots::InfiniteRoots, Roots::InfiniteRoots) => a == 0 && b == 0,
        (Roots::NoRoots, Roots::NoRoots) => a == 0 && b != 0,
        (Roots::OneRealRoot(x), Roots::OneRealRoot(y)) => a != 0 && (b % a != 0 || x == -b / a) && (y + b as f64 / a as f64).abs() <= 1e-13 * y.abs(),
        _ => false,
    };
    ensure!(ok, "roots of {:?} are reported as {:?} and {:?}", p, r, s);
    Ok(())
}
fn cget<N: Copy + num::Zero + std::fmt::Debug>(p: &ArrayPolynomial<N, 2>) -> (N, N) {
    let g = |d| match p.term_with_degree(d) {
        Term::ZeroTerm => N::zero(),
        Term::Term(c, _) => c,
    };
    (g(1), g(0))
}
fn quad(ctx: &mut Ctx, a: i64, b: i64, c: i64) -> R {
    let p = ArrayPolynomial::new([a, b, c]);
    let q = ArrayPolynomial::new([a as f64, b as f64, c as f64]);
    ctx.op(|| format!("discriminant, roots, factors of {:?}", p));
    let d = b * b - 4 * a * c;
    ensure!(p.discriminant() == d && q.discriminant() == d as f64, "discriminant of {:?} is reported as {} and {}", p, p.discriminant(), q.discriminant());
    if a == 0 {
        let (r, s) = (p.roots(), q.roots());
        let ok = match (r.clone(), s.clone()) {
            (Roots::InfiniteRoots, Roots::InfiniteRoots) => b == 0 && c == 0,
            (Roots::NoRoots, Roots::NoRoots) => b == 0 && c != 0,
            (Roots::OneRealRoot(x), Roots::OneRealRoot(y)) => b != 0 && (c % b != 0 || x == -c / b) && (y + c as f64 / b as f64).abs() <= 1e-13 * y.abs(),
            _ => false,
        };
        ensure!(ok, "roots of {:?} are reported as {:?} and {:?}", p, r, s);
        return Ok(());
    }
    let (fa, fb) = (a as f64, b as f64);
    let s = (d.abs() as f64).sqrt();
    let z = |c: f64| Complex::new(c, 0.0);
    // the product of the factors gives the polynomial back
    let prod = |k: f64, f: (Complex<f64>, Complex<f64>), g: (Complex<f64>, Complex<f64>), size: f64| -> R {
        let pr = [f.0 * g.0 * k, (f.0 * g.1 + f.1 * g.0) * k, f.1 * g.1 * k];
        let mut tol = 1e-12 * fa.abs();
        for (x, w) in pr.iter().zip([fa, fb, c as f64]) {
            ensure!((x - w).norm() <= tol, "factors of {:?} are {}, {:?}, {:?}, whose product is {:?}", q, k, f, g, pr);
            tol *= size;
        }
        Ok(())
    };
    let (k, f, g) = q.complex_factors();
    let size = if d >= 0 { (fb.abs() + s) / (2.0 * fa.abs()) } else { (fb.abs() + s) / (2.0 * fa.abs()) };
    prod(k, cget(&f), cget(&g), size)?;
    if d >= 0 {
        ctx.outcome("real roots");
        let (hi, lo) = if a > 0 { ((-fb + s) / (2.0 * fa), (-fb - s) / (2.0 * fa)) } else { ((-fb - s) / (2.0 * fa), (-fb + s) / (2.0 * fa)) };
        match q.roots() {
            Roots::TwoRealRoots(x, y) => ensure!(x >= y && (x - hi).abs() <= 1e-12 * size && (y - lo).abs() <= 1e-12 * size, "roots of {:?} are {}, {}, but {}, {} are reported", q, hi, lo, x, y),
            o => return Err(format!("roots of {:?} are reported as {:?}", q, o)),
        }
        match q.real_factors() {
            None => return Err(format!("no real factors of {:?}", q)),
            Some((k, f, g)) => {
                let (f, g) = (cget(&f), cget(&g));
                prod(k, (z(f.0), z(f.1)), (z(g.0), z(g.1)), size)?;
            }
        }
        // exact integer roots
        let r = s as i64;
        if r * r == d && (-b + r) % (2 * a) == 0 && (-b - r) % (2 * a) == 0 {
            let (x, y) = ((-b + r) / (2 * a), (-b - r) / (2 * a));
            let (x, y) = (x.max(y), x.min(y));
            ensure!(p.roots() == Roots::TwoRealRoots(x, y), "roots of {:?} are {}, {}, but {:?} is reported", p, x, y, p.roots());
            match p.real_factors() {
                Some((k, f, g)) => {
                    let (f, g) = (cget(&f), cget(&g));
                    let pr = [k * f.0 * g.0, k * (f.0 * g.1 + f.1 * g.0), k * f.1 * g.1];
                    ensure!(pr == [a, b, c], "real factors of {:?} multiply to {:?}", p, pr);
                }
                None => return Err(format!("no real factors of {:?}", p)),
            }
            let (k, f, g) = p.complex_factors();
            let (f, g) = (cget(&f), cget(&g));
            let pr = [f.0 * g.0 * k, (f.0 * g.1 + f.1 * g.0) * k, f.1 * g.1 * k];
            ensure!(pr == [Complex::new(a, 0), Complex::new(b, 0), Complex::new(c, 0)], "complex factors of {:?} multiply to {:?}", p, pr);
        }
    } else {
        ctx.outcome("conjugate pair");
        let (re, im) = (-fb / (2.0 * fa), s / (2.0 * fa.abs()));
        match q.roots() {
            Roots::TwoComplexRoots(x, y) => ensure!((x.re - re).abs() <= 1e-12 * size && x.re == y.re && x.im == -y.im && (x.im.abs() - im).abs() <= 1e-12 * size, "roots of {:?} are {} +- {}i, but {}, {} are reported", q, re, im, x, y),
            o => return Err(format!("roots of {:?} are reported as {:?}", q, o)),
        }
        ensure!(q.real_factors().is_none() && p.real_factors().is_none(), "real factors of {:?}, which has no real roots", q);
    }
    Ok(())
}

// ---------------------------------------------------------------- trimming
fn trim<N: Ring>(ctx: &mut Ctx, v: &[(usize, i64)]) -> R {
    let p = sparse::<N>(v);
    let mut q = p.clone();
    ctx.op(|| format!("{:?}.trim()", p));
    q.trim();
    let want: Vec<(usize, u128)> = p.raw().into_iter().zip(p.terms.values()).filter(|x| !x.1.is_zero()).map(|x| x.0).collect();
    ensure!(q.raw() == want, "{:?} trimmed is {:?}", p, q);
    ctx.state(&q.raw());
    let m = p.m()?;
    chk(ctx, "trim", &q, &m)?;
    ensure!(q == p, "trimming changed {:?} to the different {:?}", p, q);
    q.trim();
    ensure!(q.raw() == want, "trimming twice changed {:?}", q);
    Ok(())
}

fn build(t: bool) -> Suites {
    let mut s = Suites::default();
    macro_rules! caps {
        ($ty:ident, $vals:expr; $($n:literal)*) => {$({
            let d = Arc::new(vecs_exact($n, $vals));
            let e = d.clone();
            s.add(&format!("{} capacity {}", stringify!($ty), $n), &format!("every coefficient array over {:?}: all observers, evaluation at 9 points, derivative, integral, zeroing, equality with zero and with a clone", $vals), d.len() as u64, move |c, i| $ty::all::<$n>(c, &d[i as usize]));
            s.add(&format!("{} capacity {} updates", stringify!($ty), $n), "every array, one try_add_term or try_sub_term at every degree up to and beyond the capacity", e.len() as u64, move |c, i| $ty::updates::<$n>(c, &e[i as usize]));
        })*};
    }
    if t {
        caps!(i32, &[-3i64, -1, 0, 1, 2, 7]; 0 1 2 3 4 5 6 7);
        caps!(i64, &[-1i64, 0, 4]; 8 9 10);
    } else {
        caps!(i32, &[-3i64, -1, 0, 2]; 0 1 2 3 4 5 6);
        caps!(i64, &[-1i64, 0, 4]; 7 8);
    }
    caps!(u32, &[0i64, 1, 3]; 0 1 2 3 4 5 6);
    caps!(f64, &[-2i64, 0, 1]; 0 1 2 3 4 5 6);
    caps!(f32, &[-2i64, 0, 1]; 1 2 3 4);
    macro_rules! long {
        ($ty:ident, $c:expr; $($n:literal)*) => {$({
            // long arrays: every position of at most two non-zeros, and all-non-zero
            let mut d: Vec<Vec<i64>> = long_two($n, $c, 1).into_iter().filter(|v| v.len() == $n).collect();
            d.extend(full([$n], 3).into_iter().map(|v| v.into_iter().map(|c| if <$ty as Co>::SIGNED { c } else { c.abs() }).collect()));
            let d = Arc::new(d);
            s.add(&format!("{} capacity {}", stringify!($ty), $n), "every array with at most two non-zero coefficients, and one without zeros", d.len() as u64, move |c, i| $ty::all::<$n>(c, &d[i as usize]));
            let u: Vec<Vec<i64>> = vec![vec![0; $n], vec![1; $n], (0..$n).map(|i| if i % 3 == 0 { 2 } else { 0 }).collect()];
            s.add(&format!("{} capacity {} updates", stringify!($ty), $n), "all zero, all one, every third non-zero: one try_add_term or try_sub_term at every degree up to and beyond the capacity", 3, move |c, i| $ty::updates::<$n>(c, &u[i as usize]));
        })*};
    }
    long!(i32, 2; 8 12 16 17 31 32 33 64);
    long!(i8, 1; 100 127 128);
    long!(u8, 1; 128 200 255 256);
    long!(i16, 1; 129);
    long!(u16, 1; 257);
    long!(f64, 3; 20 65);
    macro_rules! mids {
        ($u:expr, $($ty:ident)*; $n:tt) => {$(mids!(@ $ty $u $n);)*};
        (@ $ty:ident $u:literal [$($n:literal)*]) => {{
            s.add(&format!("{} mid lengths", stringify!($ty)), "capacities 1..=16 and 20, 24: the eight shapes of that length; everything, and every update", [$($n),*].len() as u64 * SHAPES, move |c, i| {
                let n = [$($n as u64),*][(i / SHAPES) as usize];
                let v = mid_len(n * SHAPES + i % SHAPES, $u);
                assert_eq!(v.len() as u64, n);
                match n {
                    $($n => { $ty::all::<$n>(c, &v)?; $ty::updates::<$n>(c, &v) })*
                    _ => unreachable!(),
                }
            });
        }};
    }
    mids!(false, i8 i16 i32 i64 i128 f32 f64; [1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 20 24]);
    mids!(true, u8 u16 u32 u64 u128; [1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 20 24]);
    s.add("tiny floats", "every array of capacity 1..=4 over 9 f64 values near zero and one and their extremes, negative zero and NaN: term list, lookup, degree, evaluation at 0 and 1, equality, updates", (11 + 121 + 1331 + 14641) as u64, |c, i| {
        let mut i = i as usize;
        let (mut n, mut k) = (1, 11);
        while i >= k { i -= k; n += 1; k *= 11; }
        let vals: Vec<f64> = TINY64.iter().cloned().chain([-0.0, f64::NAN]).collect();
        let mut v = vec![];
        for _ in 0..n { v.push(vals[i % 11]); i /= 11; }
        match n { 1 => tiny::<1>(c, &v), 2 => tiny::<2>(c, &v), 3 => tiny::<3>(c, &v), _ => tiny::<4>(c, &v) }
    });
    s.add("capacity 2 root, all of i8", "every pair of i8 coefficients whose quotient exists", 65536, |c, i| {
        let (a, b) = ((i / 256) as u8 as i8, (i % 256) as u8 as i8);
        if b == i8::MIN && a != 0 { c.skip(); return Ok(()); }
        let p = ArrayPolynomial::new([a, b]);
        c.op(|| format!("{:?}.root()", p));
        let w = if a != 0 { Roots::OneRealRoot(-b / a) } else if b == 0 { Roots::InfiniteRoots } else { Roots::NoRoots };
        ensure!(p.root() == w, "root of {:?} is {:?}, not {:?}", p, p.root(), w);
        Ok(())
    });
    s.add("capacity 2 root, tiny floats", "every pair of 9 f64 values near zero and one and their extremes, and negative zero", 100, |c, i| {
        let vals: Vec<f64> = TINY64.iter().cloned().chain([-0.0]).collect();
        let (a, b) = (vals[(i / 10) as usize], vals[(i % 10) as usize]);
        let p = ArrayPolynomial::new([a, b]);
        c.op(|| format!("{:?}.root()", p));
        let w = if a != 0.0 { Roots::OneRealRoot(-b / a) } else if b == 0.0 { Roots::InfiniteRoots } else { Roots::NoRoots };
        let close = match (p.root(), w.clone()) {
            (Roots::OneRealRoot(x), Roots::OneRealRoot(y)) => x == y || (x - y).abs() <= 1e-14 * y.abs(),
            (x, y) => x == y,
        };
        ensure!(close, "root of {:?} is {:?}, not {:?}", p, p.root(), w);
        Ok(())
    });
    macro_rules! eqs {
        ($ty:ident, $vals:expr; $($n:literal)*) => {$({
            let d = Arc::new(vecs_exact($n, $vals));
            let n = d.len();
            s.add(&format!("equality {} capacity {}", stringify!($ty), $n), &format!("every pair of arrays over {:?}", $vals), (n * n) as u64, move |c, i| {
                let (i, j) = split(i, n);
                $ty::equality::<$n>(c, &d[i], &d[j])
            });
        })*};
    }
    eqs!(i32, &[-1i64, 0, 1, 2]; 0 1 2 3 4);
    eqs!(f64, &[-1i64, 0, 1]; 1 2 3 4);
    hist::<i32, 0>(&mut s, 2);
    hist::<i32, 1>(&mut s, 3);
    hist::<i32, 2>(&mut s, 3);
    hist::<i32, 3>(&mut s, 2);
    hist::<u8, 3>(&mut s, 3);
    hist::<f64, 4>(&mut s, if t { 2 } else { 1 });
    if t {
        hist::<i32, 5>(&mut s, 2);
    }
    let k = if t { 40i64 } else { 20 };
    let w = (2 * k + 1) as usize;
    s.add("capacity 3 closed forms", &format!("all a, b, c in -{k}..={k}, i64 and f64"), (w * w * w) as u64, move |c, i| {
        let (x, y, z) = split3(i, w, w);
        quad(c, x as i64 - k, y as i64 - k, z as i64 - k)
    });
    s.add("capacity 3 integer roots", "all pairs of integer roots in -40..=40, leading coefficient +-1, 2, 3", 81 * 81 * 6, |c, i| {
        let (x, y, z) = split3(i, 81, 6);
        let (x, y, a) = (x as i64 - 40, y as i64 - 40, [1, -1, 2, -2, 3, -3][z]);
        quad(c, a, -a * (x + y), a * x * y)
    });
    s.add("capacity 2 closed forms", "all a, b in -100..=100, i32 and f64", 201 * 201, |c, i| {
        let (x, y) = split(i, 201);
        linear(c, x as i32 - 100, y as i32 - 100)
    });
    let d = Arc::new(maps(if t { &[0, 1, 2, 3, 5, 64, usize::MAX] } else { &[0, 1, 2, 5, usize::MAX] }, &[-1, 0, 2]));
    s.add("trim", "every sparse map over the degrees 0, 1, 2, 5, usize::MAX (thorough: also 3, 64), each absent, stored zero, -1 or 2; i32, f64, rationals", d.len() as u64, move |c, i| {
        let v = &d[i as usize];
        trim::<i32>(c, v)?;
        trim::<f64>(c, v)?;
        trim::<num::rational::Ratio<i64>>(c, v)?;
        let abs: Vec<(usize, i64)> = v.iter().map(|x| (x.0, x.1.abs())).collect();
        trim::<u8>(c, &abs)?;
        // negative zero is a zero, tiny and undefined values are not
        let mut p: SparsePolynomial<f64> = SparsePolynomial { terms: v.iter().map(|&(d, c)| (d, match c { 0 => -0.0, 2 => 5e-324, _ => f64::NAN })).collect() };
        c.op(|| format!("{:?}.trim()", p));
        let n = v.iter().filter(|x| x.1 != 0).count();
        p.trim();
        ensure!(p.terms.len() == n && v.iter().all(|x| (x.1 != 0) == p.terms.contains_key(&x.0)), "trim of {:?} (0: -0, 2: tiny, -1: NaN) leaves {:?}", v, p);
        Ok(())
    });
    let lens: Vec<usize> = lengths(40);
    s.add("trim of long polynomials", "every length 0..=40 and around powers of two up to 1025: all zero, every other, all but one, none zero", lens.len() as u64 * 4, move |c, i| {
        let (l, k) = split(i, 4);
        let v: Vec<(usize, i64)> = (0..lens[l]).map(|d| (d * 3, match k { 0 => 0, 1 => (d % 2) as i64, 2 => (d != lens[l] / 2) as i64, _ => 4 })).collect();
        trim::<i32>(c, &v)
    });
    let _ = Polynomial::<i32>::zero();
    s
}
fn main() {
    vharness::engine::main(Prop {
        id: "C16",
        build,
        assumptions: &[
            "the array polynomial type is reached through the guarded re-export (cfg rustnomial_verif)",
            "coefficient overflow, and derivatives or integrals whose degree the coefficient type cannot represent, are outside this property (see C17)",
            "floats: roots and products of factors to 1e-12 of the largest root",
        ],
    });
}
