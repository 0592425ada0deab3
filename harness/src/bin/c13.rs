//! C13: numerically found roots.
use num::bigint::BigInt;
use num::{Complex, Integer, One, Signed, Zero};
use rustnomial::{Polynomial, Roots, SparsePolynomial};
use std::collections::BTreeMap;
use std::sync::Arc;
use vharness::dom::*;
use vharness::engine::*;
use vharness::ensure;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Infinite,
    None,
    AllReal,
    OnlyReal,
    Complex,
}
#[derive(Clone, Debug)]
struct Ans {
    kind: Kind,
    real: Vec<f64>,
    cplx: Vec<Complex<f64>>,
}
fn ans(r: Roots<f64>) -> Ans {
    let a = |kind, real, cplx| Ans { kind, real, cplx };
    match r {
        Roots::InfiniteRoots => a(Kind::Infinite, vec![], vec![]),
        Roots::NoRoots | Roots::NoRootsFound => a(Kind::None, vec![], vec![]),
        Roots::OneRealRoot(x) => a(Kind::AllReal, vec![x], vec![]),
        Roots::TwoRealRoots(x, y) => a(Kind::AllReal, vec![x, y], vec![]),
        Roots::ThreeRealRoots(x, y, z) => a(Kind::AllReal, vec![x, y, z], vec![]),
        Roots::ManyRealRoots(v) => a(Kind::AllReal, v, vec![]),
        Roots::OnlyRealRoots(v) => a(Kind::OnlyReal, v, vec![]),
        Roots::OneComplexRoot(x) => a(Kind::Complex, vec![], vec![x]),
        Roots::TwoComplexRoots(x, y) => a(Kind::Complex, vec![], vec![x, y]),
        Roots::ThreeComplexRoots(x, y, z) => a(Kind::Complex, vec![], vec![x, y, z]),
        Roots::ManyComplexRoots(v) => a(Kind::Complex, vec![], v),
    }
}
fn to_sparse(v: &[f64], zeros: bool) -> SparsePolynomial<f64> {
    let n = v.len();
    SparsePolynomial { terms: v.iter().enumerate().filter(|x| zeros || *x.1 != 0.0).map(|(i, &c)| (n - 1 - i, c)).collect::<BTreeMap<_, _>>() }
}
/// Solves every stored form of the polynomial; the answers must agree.
fn solve(ctx: &mut Ctx, v: &[f64], tol: f64) -> Result<Ans, String> {
    ctx.op(|| format!("Polynomial::new({:?}).roots()", v));
    ctx.state(&v.iter().map(|x| x.to_bits()).collect::<Vec<_>>());
    let d = ans(Polynomial { terms: v.to_vec() }.roots());
    for form in 0..3 {
        let o = match form {
            0 => {
                ctx.op(|| format!("the same with two leading zeros: {:?}", v));
                let mut w = vec![0.0, 0.0];
                w.extend(v);
                Polynomial { terms: w }.roots()
            }
            1 => {
                ctx.op(|| format!("sparse {:?}", v));
                to_sparse(v, false).roots()
            }
            _ => {
                ctx.op(|| format!("sparse with stored zeros {:?}", v));
                let mut p = to_sparse(v, true);
                p.terms.insert(v.len() + 3, 0.0);
                p.roots()
            }
        };
        let o = ans(o);
        let close = |a: &[f64], b: &[f64]| {
            let (mut a, mut b) = (a.to_vec(), b.to_vec());
            a.sort_by(|x, y| x.total_cmp(y));
            b.sort_by(|x, y| x.total_cmp(y));
            a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| (x - y).abs() <= tol * (x.abs() + y.abs()) || x.is_nan() && y.is_nan() || x == y)
        };
        let parts = |a: &Ans| (a.cplx.iter().map(|z| z.re).collect::<Vec<_>>(), a.cplx.iter().map(|z| z.im).collect::<Vec<_>>());
        let ((ar, ai), (br, bi)) = (parts(&d), parts(&o));
        ensure!(d.kind == o.kind && close(&d.real, &o.real) && close(&ar, &br) && close(&ai, &bi), "forms of {:?} give different roots: {:?} and (form {}) {:?}", v, d, form, o);
    }
    Ok(d)
}
fn trim(v: &[f64]) -> &[f64] {
    let i = v.iter().position(|x| *x != 0.0).unwrap_or(v.len());
    &v[i..]
}

// ---------------------------------------------------------------- degree <= 3 (all roots are reported)
/// `iv` are the coefficients as integers (for the exact discriminant), `v` the same times 2^k.
fn low(ctx: &mut Ctx, iv: &[i64], k: i32) -> R {
    low_at(ctx, iv, k, 0)
}
/// and with the roots scaled by 2^j.
fn low_at(ctx: &mut Ctx, iv: &[i64], k: i32, j: i32) -> R {
    let v: Vec<f64> = iv.iter().enumerate().map(|(i, &c)| c as f64 * 2f64.powi(k + j * i as i32)).collect();
    let a = solve(ctx, &v, 1e-9)?;
    let t = trim(&v);
    let it: Vec<i128> = iv[iv.len() - t.len()..].iter().map(|&c| c as i128).collect();
    let say = |m: &str| Err(format!("roots of {:?} are reported as {:?}: {}", v, a, m));
    if t.is_empty() {
        ctx.outcome("zero");
        return if a.kind == Kind::Infinite { Ok(()) } else { say("zero has infinitely many") };
    }
    if t.len() == 1 {
        ctx.outcome("constant");
        return if a.kind == Kind::None { Ok(()) } else { say("a constant has none") };
    }
    if it[1..].iter().all(|&c| c == 0) {
        ctx.outcome("monomial");
        return if a.kind == Kind::AllReal && !a.real.is_empty() && a.real.iter().all(|&r| r == 0.0) { Ok(()) } else { say("the only root is 0") };
    }
    let disc = match it[..] {
        [_, _] => 1,
        [a, b, c] => b * b - 4 * a * c,
        [a, b, c, d] => 18 * a * b * c * d - 4 * b * b * b * d + b * b * c * c - 4 * a * c * c * c - 27 * a * a * d * d,
        _ => unreachable!(),
    };
    let z: Vec<Complex<f64>> = match a.kind {
        Kind::AllReal => a.real.iter().map(|&r| Complex::new(r, 0.0)).collect(),
        Kind::Complex => a.cplx.clone(),
        _ => return say("wrong kind"),
    };
    if z.len() != t.len() - 1 {
        return say("wrong number of roots");
    }
    // an exactly real spectrum may be reported as complex (and the reverse) only when roots coincide
    if disc > 0 && a.kind != Kind::AllReal || disc < 0 && a.kind != Kind::Complex {
        return say("wrong kind");
    }
    ctx.outcome(if disc > 0 { "distinct real roots" } else if disc < 0 { "conjugate pair" } else { "multiple root" });
    if a.kind == Kind::Complex {
        let mut im: Vec<f64> = z.iter().map(|x| x.im).filter(|x| *x != 0.0).collect();
        im.sort_by(|x, y| x.total_cmp(y));
        if im.len() != 2 || im[0] != -im[1] {
            return say("not a conjugate pair");
        }
        let re: Vec<f64> = z.iter().filter(|x| x.im != 0.0).map(|x| x.re).collect();
        if re[0] != re[1] {
            return say("not a conjugate pair");
        }
    }
    // a * prod (x - z) gives the coefficients back
    let mut pr = vec![Complex::new(t[0], 0.0)];
    for r in &z {
        pr.push(Complex::new(0.0, 0.0));
        for i in (1..pr.len()).rev() {
            let s = pr[i - 1];
            pr[i] -= s * *r;
        }
    }
    let big = z.iter().map(|x| x.norm()).fold(0.0, f64::max);
    let mut s = t[0].abs();
    for i in 0..t.len() {
        if !((pr[i] - t[i]).norm() <= 1e-9 * s) {
            return say(&format!("their polynomial is {:?}", pr));
        }
        s *= big;
    }
    // and each is a root on its own, relative to the size of the terms at that point
    for r in &z {
        let (mut val, mut size) = (Complex::new(0.0, 0.0), 0.0);
        for &c in t {
            val = val * *r + c;
            size = size * (r.norm() + 1e-3 * big) + c.abs();
        }
        if !(val.norm() <= 1e-7 * size) {
            return say(&format!("{} is not a root (value {})", r, val));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- degree >= 4
/// Polynomial with known simple real roots (and a factor without any).
fn known(ctx: &mut Ctx, v: &[f64], roots: &[f64], multiple: &[f64], scale: f64, what: &dyn Fn() -> String) -> R {
    let a = solve(ctx, v, 1e-7)?;
    let deg = trim(v).len() - 1;
    let say = |m: String| Err(format!("roots of {:?} ({}) are {:?} and multiple {:?}, but {:?} is reported: {}", v, what(), roots, multiple, a, m));
    if !a.cplx.is_empty() || a.kind == Kind::Infinite {
        return say("wrong kind".into());
    }
    let span = roots.iter().chain(multiple).fold(scale, |m, x| m.max(x.abs()));
    let near = |x: f64, y: f64, t: f64| (x - y).abs() <= t * span;
    for &r in &a.real {
        let ok = roots.iter().any(|&w| near(r, w, 1e-5)) || multiple.iter().any(|&w| near(r, w, 2e-2));
        if !ok {
            return say(format!("{} is not a root", r));
        }
    }
    for &w in roots {
        let n = a.real.iter().filter(|&&r| near(r, w, 1e-5)).count();
        if n != 1 {
            return say(format!("{} is reported {} times", w, n));
        }
    }
    if multiple.is_empty() {
        let want = if roots.len() == deg { Kind::AllReal } else if roots.is_empty() { Kind::None } else { Kind::OnlyReal };
        if a.kind != want {
            return say(format!("expected {:?}", want));
        }
        ctx.outcome(match want {
            Kind::AllReal => "all roots real",
            Kind::None => "no real root",
            _ => "some real roots",
        });
    } else {
        ctx.outcome("with multiple roots");
    }
    Ok(())
}
fn mulp(a: &[f64], b: &[f64]) -> Vec<f64> {
    let mut o = vec![0.0; a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            o[i + j] += x * y;
        }
    }
    o
}
const QUADS: [[f64; 3]; 5] = [[1.0, 0.0, 1.0], [1.0, 1.0, 1.0], [1.0, -2.0, 5.0], [1.0, 0.0, 4.0], [1.0, 3.0, 4.0]];
/// All subsets of {lo..=hi} with at most n elements.
fn subsets(lo: i64, hi: i64, n: usize) -> Vec<Vec<i64>> {
    let mut o = vec![];
    for m in 0u32..1 << (hi - lo + 1) {
        if m.count_ones() as usize <= n {
            o.push((0..=(hi - lo)).filter(|i| m >> i & 1 == 1).map(|i| i + lo).collect());
        }
    }
    o
}
fn grid(s: &mut Suites, lo: i64, hi: i64, n: usize, maxdeg: usize, scales: &'static [f64], leads: &'static [f64]) {
    let subs = Arc::new(subsets(lo, hi, n));
    // combinations of at most two quadratic factors (each at most twice)
    let mut qs: Vec<Vec<usize>> = vec![vec![]];
    for i in 0..5 {
        qs.push(vec![i]);
        for j in i..5 {
            qs.push(vec![i, j]);
        }
    }
    let qs = Arc::new(qs);
    let (ns, nq) = (subs.len(), qs.len());
    s.add("products of known factors", &format!("every set of at most {n} distinct integer roots in {lo}..={hi} x every multiset of at most 2 of 5 quadratics without real roots, total degree 4..={maxdeg}; variable scaled by {:?}, leading coefficient {:?}", scales, leads), (ns * nq) as u64, move |c, i| {
        let (a, b) = split(i, nq);
        let deg = subs[a].len() + 2 * qs[b].len();
        if deg < 4 || deg > maxdeg {
            return Ok(());
        }
        for &sc in scales {
            for &l in leads {
                let mut v = vec![l];
                let mut roots = vec![];
                for &r in &subs[a] {
                    let r = r as f64 * sc;
                    roots.push(r);
                    v = mulp(&v, &[1.0, -r]);
                }
                for &q in &qs[b] {
                    let q = QUADS[q];
                    v = mulp(&v, &[q[0], q[1] * sc, q[2] * sc * sc]);
                }
                known(c, &v, &roots, &[], sc, &|| format!("scale {}, lead {}", sc, l))?;
            }
        }
        Ok(())
    });
    let subs = Arc::new(subsets(lo, hi, n.min(4)));
    let ns = subs.len();
    s.add("products with double roots", &format!("every set of at most {} distinct integer roots in {lo}..={hi} with every non-empty subset doubled, degree 4..=7; variable scaled by {:?}", n.min(4), scales), ns as u64, move |c, i| {
        let r = &subs[i as usize];
        for m in 1u32..1 << r.len() {
            if r.len() + (m.count_ones() as usize) < 4 || r.len() + m.count_ones() as usize > 7 {
                continue;
            }
            for &sc in scales {
                let (mut v, mut simple, mut multiple) = (vec![1.0], vec![], vec![]);
                for (j, &x) in r.iter().enumerate() {
                    let x = x as f64 * sc;
                    v = mulp(&v, &[1.0, -x]);
                    if m >> j & 1 == 1 {
                        v = mulp(&v, &[1.0, -x]);
                        multiple.push(x);
                    } else {
                        simple.push(x);
                    }
                }
                let a = solve(c, &v, 1e-5)?;
                let span = r.iter().map(|x| x.abs()).max().unwrap() as f64 * sc;
                for &g in &a.real {
                    ensure!(simple.iter().chain(&multiple).any(|&w| (w - g).abs() <= 2e-2 * span), "{:?} has simple roots {:?} and double roots {:?}, but {:?} is reported: {} is not a root", v, simple, multiple, a, g);
                }
                ensure!(a.cplx.is_empty() && a.kind != Kind::Infinite, "{:?}: {:?}", v, a);
            }
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- exact real root counting (Sturm)
type P = Vec<BigInt>; // highest degree first, non-zero lead
fn tr(mut p: P) -> P {
    while p.first().map_or(false, |c| c.is_zero()) {
        p.remove(0);
    }
    p
}
fn prim(p: P) -> P {
    let g = p.iter().fold(BigInt::zero(), |g, c| g.gcd(c));
    if g.is_zero() || g.is_one() {
        p
    } else {
        p.into_iter().map(|c| c / &g).collect()
    }
}
fn diff(p: &P) -> P {
    let n = p.len() - 1;
    tr(p[..n].iter().enumerate().map(|(i, c)| c * BigInt::from(n - i)).collect())
}
fn sturm(p: &P) -> Vec<P> {
    let mut ch = vec![p.clone(), diff(p)];
    loop {
        let n = ch.len();
        let (a, b) = (&ch[n - 2], &ch[n - 1]);
        if b.is_empty() {
            ch.pop();
            return ch;
        }
        // pseudo-remainder with a positive multiplier
        let mut r = a.clone();
        let lb = b[0].clone();
        while r.len() >= b.len() {
            let l = r[0].clone();
            for c in r.iter_mut() {
                *c *= lb.abs();
            }
            let f = if lb.is_negative() { -l } else { l };
            for (i, c) in b.iter().enumerate() {
                r[i] -= c * &f;
            }
            r = tr(r);
            if r.is_empty() {
                break;
            }
        }
        ch.push(prim(r.into_iter().map(|c| -c).collect()));
    }
}
/// Sign variations at k / 2^24; k = None: -infinity (neg) or +infinity.
fn vars(ch: &[P], at: Option<&BigInt>, neg: bool) -> usize {
    let (mut n, mut last) = (0, 0);
    for p in ch {
        let s = match at {
            None => {
                let s = if p[0].is_positive() { 1 } else { -1 };
                if neg && (p.len() - 1) % 2 == 1 { -s } else { s }
            }
            Some(k) => {
                let mut v = BigInt::zero();
                let mut sh = 0;
                for c in p {
                    v = v * k + (c << sh);
                    sh += 24;
                }
                if v.is_zero() { 0 } else if v.is_positive() { 1 } else { -1 }
            }
        };
        if s != 0 {
            if last != 0 && s != last {
                n += 1;
            }
            last = s;
        }
    }
    n
}
fn count_all(ch: &[P]) -> usize {
    vars(ch, None, true) - vars(ch, None, false)
}
/// Distinct real roots in about [r - d, r + d].
fn count_near(ch: &[P], r: f64, d: f64) -> usize {
    let (lo, hi) = (((r - d) * 16777216.0).floor(), ((r + d) * 16777216.0).ceil());
    let (mut lo, mut hi) = (BigInt::from(lo as i128), BigInt::from(hi as i128));
    lo -= 1;
    hi += 1;
    vars(ch, Some(&lo), false).saturating_sub(vars(ch, Some(&hi), false))
}
/// Any integer polynomial: exact count of its real roots against the report.
fn counted(ctx: &mut Ctx, iv: &[i64], scales: &[f64]) -> R {
    let p = tr(iv.iter().map(|&c| BigInt::from(c)).collect());
    if p.len() < 5 {
        return low(ctx, iv, 0);
    }
    let ch = sturm(&p);
    let g = ch.last().unwrap();
    let simple = g.len() == 1 || count_all(&sturm(g)) == 0;
    for &sc in scales {
        counted_at(ctx, iv, sc, &p, &ch, simple)?;
    }
    Ok(())
}
/// The polynomial times the power of two `sc`.
fn counted_at(ctx: &mut Ctx, iv: &[i64], sc: f64, p: &P, ch: &[P], simple: bool) -> R {
    let v: Vec<f64> = iv.iter().map(|&c| c as f64 * sc).collect();
    let a = solve(ctx, &v, if simple { 1e-7 } else { 1e-4 })?;
    let n = count_all(ch);
    let say = |m: String| Err(format!("{:?} has {} distinct real roots ({}), but {:?} is reported: {}", v, n, if simple { "all simple" } else { "some multiple" }, a, m));
    if !a.cplx.is_empty() || a.kind == Kind::Infinite {
        return say("wrong kind".into());
    }
    if p[1..].iter().all(|c| c.is_zero()) {
        return if a.kind == Kind::AllReal && !a.real.is_empty() && a.real.iter().all(|&r| r == 0.0) { Ok(()) } else { say("the only root is 0".into()) };
    }
    let d = if simple { 1e-6 } else { 3e-2 };
    // a root of multiplicity m is only determined up to the m-th root of the rounding error
    let tiny = |r: f64| {
        let (val, size) = v.iter().map(|c| c / sc).fold((0.0, 0.0), |(a, b): (f64, f64), c| (a * r + c, b * r.abs().max(1.0) + c.abs()));
        val.abs() <= 1e-7 * size
    };
    for &r in &a.real {
        if !r.is_finite() || count_near(ch, r, d * r.abs().max(1.0)) == 0 && (simple || !tiny(r)) {
            return say(format!("no real root within {:e} of {}", d, r));
        }
    }
    if simple {
        let mut s = a.real.clone();
        s.sort_by(|x, y| x.total_cmp(y));
        for w in s.windows(2) {
            if w[1] - w[0] < 1e-5 {
                return say(format!("{} and {} are the same root", w[0], w[1]));
            }
        }
        if s.len() != n {
            return say("a root is missing".into());
        }
        let want = if n == p.len() - 1 { Kind::AllReal } else if n == 0 { Kind::None } else { Kind::OnlyReal };
        if a.kind != want {
            return say(format!("expected {:?}", want));
        }
        ctx.outcome(match want {
            Kind::AllReal => "all roots real",
            Kind::None => "no real root",
            _ => "some real roots",
        });
    } else {
        if n == 0 && a.kind != Kind::None {
            return say("no real root exists".into());
        }
        ctx.outcome("with multiple roots");
    }
    Ok(())
}
fn digits(mut i: u64, n: usize, k: i64) -> Vec<i64> {
    let w = (2 * k + 1) as u64;
    (0..n)
        .map(|_| {
            let d = (i % w) as i64 - k;
            i /= w;
            d
        })
        .collect()
}

fn build(t: bool) -> Suites {
    let mut s = Suites::default();
    let k = if t { 11i64 } else { 6 };
    s.add("all small cubics and below", &format!("all coefficient vectors of length 4 over -{k}..={k}, scaled by 2^-40, 1, 2^33, 2^-200, 2^200; roots scaled by 2^-30, 2^30, 2^-100, 2^80"), ((2 * k + 1) as u64).pow(4), move |c, i| {
        let v = digits(i, 4, k);
        for (e, j) in [(0, 0), (-40, 0), (33, 0), (200, 0), (-200, 0), (0, -30), (0, 30), (60, -100), (-300, 80)] {
            low_at(c, &v, e, j)?;
        }
        Ok(())
    });
    let r = if t { 24i64 } else { 12 };
    let w = (2 * r + 1) as u64;
    s.add("all cubics with integer roots", &format!("every triple of integer roots in -{r}..={r}, leading coefficient +-1, 2, 3"), w.pow(3), move |c, i| {
        let v = digits(i, 3, r);
        if v[0] > v[1] || v[1] > v[2] {
            return Ok(());
        }
        for a in [1i64, -1, 2, -3] {
            low(c, &[a, -a * (v[0] + v[1] + v[2]), a * (v[0] * v[1] + v[0] * v[2] + v[1] * v[2]), -a * v[0] * v[1] * v[2]], 0)?;
        }
        Ok(())
    });
    s.add("all cubics with Gaussian integer roots", "real root in -10..=10, pair re in -10..=10, im in 1..=10, leading coefficient +-1, 2", 21 * 21 * 10, |c, i| {
        let (x, y, z) = split3(i, 21, 10);
        let (x, y, z) = (x as i64 - 10, y as i64 - 10, z as i64 + 1);
        for a in [1i64, -1, 2] {
            let n = y * y + z * z;
            low(c, &[a, -a * (x + 2 * y), a * (n + 2 * x * y), -a * x * n], 0)?;
        }
        Ok(())
    });
    if t {
        grid(&mut s, -6, 6, 6, 10, &[1.0, 0.5, 0.1, 3.0, 10.0, 100.0, 0.01], &[1.0, -2.0, 0.3]);
    } else {
        grid(&mut s, -5, 5, 6, 9, &[1.0, 0.5, 0.1, 3.0, 10.0], &[1.0, -2.0, 0.3]);
    }
    // extreme scales of coefficients and roots
    let subs = Arc::new(subsets(-3, 3, if t { 6 } else { 5 }));
    let ns = subs.len();
    s.add("products at extreme scales", "every set of at most 5 (thorough 6) distinct integer roots in -3..=3 x none or one of 5 quadratics, degree 4..=8; coefficients scaled by 1e-250 to 1e200, roots by 1e-12 to 1e12", (ns * 6) as u64, move |c, i| {
        let (a, b) = split(i, 6);
        let deg = subs[a].len() + if b == 0 { 0 } else { 2 };
        if deg < 4 {
            return Ok(());
        }
        for (sc, l) in [(1.0, 1e-250), (1.0, -1e-100), (1.0, 1e-18), (1.0, 1e-13), (1.0, 1e17), (1.0, -1e200), (1e-3, 1.0), (1e3, 1.0), (1e-6, 1.0), (1e6, 1.0), (1e-12, 1.0), (1e12, 1.0), (1e-6, 1e30), (1e6, 1e-40)] {
            let mut v = vec![l];
            let mut roots = vec![];
            for &r in &subs[a] {
                let r = r as f64 * sc;
                roots.push(r);
                v = mulp(&v, &[1.0, -r]);
            }
            if b > 0 {
                let q = QUADS[b - 1];
                v = mulp(&v, &[q[0], q[1] * sc, q[2] * sc * sc]);
            }
            known(c, &v, &roots, &[], sc, &|| format!("scale {}, lead {}", sc, l))?;
        }
        Ok(())
    });
    // products of up to five of the quadratics with few linear factors: degree up to 12
    let mut qs: Vec<Vec<usize>> = vec![vec![]];
    let mut last = qs.clone();
    for _ in 0..if t { 5 } else { 4 } {
        let mut nx: Vec<Vec<usize>> = vec![];
        for l in &last {
            for q in l.last().cloned().unwrap_or(0)..5 {
                let mut w = l.clone();
                w.push(q);
                nx.push(w);
            }
        }
        qs.extend(nx.iter().cloned());
        last = nx;
    }
    let qs: Vec<Vec<usize>> = qs.into_iter().filter(|q| q.len() >= 2).collect();
    let subs = Arc::new(subsets(-3, 3, if t { 3 } else { 2 }));
    let (qn, sn) = (qs.len(), subs.len());
    s.add("mostly complex spectra", &format!("every multiset of 2..={} of the 5 quadratics x every set of at most {} distinct integer roots in -3..=3, leading coefficient 1, -2, 0.3, 100: no root reported but these", if t { 5 } else { 4 }, if t { 3 } else { 2 }), (qn * sn) as u64, move |c, i| {
        let (a, b) = split(i, sn);
        for l in [1.0, -2.0, 0.3, 100.0] {
            let mut v = vec![l];
            let mut roots = vec![];
            for &r in &subs[b] {
                roots.push(r as f64);
                v = mulp(&v, &[1.0, -r as f64]);
            }
            for &q in &qs[a] {
                v = mulp(&v, &QUADS[q]);
            }
            known(c, &v, &roots, &[], 1.0, &|| format!("quadratics {:?}, lead {}", qs[a], l))?;
        }
        Ok(())
    });
    for (deg, k) in if t { vec![(4usize, 6i64), (5, 3), (6, 2), (7, 1), (8, 1), (9, 1), (10, 1), (11, 1)] } else { vec![(4usize, 4i64), (5, 2), (6, 1), (7, 1), (8, 1), (9, 1)] } {
        s.add(&format!("all small degree {deg}"), &format!("all coefficient vectors of length {} over -{k}..={k}, as they are and (degree <= 9) times -8, against the exact number of real roots", deg + 1), ((2 * k + 1) as u64).pow(deg as u32 + 1), move |c, i| counted(c, &digits(i, deg + 1, k), if deg <= 9 { &[1.0, -8.0] } else { &[1.0] }));
    }
    let top = if t { 160 } else { 60 };
    let mut nm: Vec<(usize, usize)> = vec![];
    for n in (4..=top).rev() {
        let mut ms: Vec<usize> = if t && n <= 40 { (1..n).collect() } else { vec![1, 2, n / 2, n - 1] };
        ms.dedup();
        nm.extend(ms.into_iter().map(|m| (n, m)));
    }
    let nm = Arc::new(nm);
    s.add("two and three terms", &format!("x^n + a x^m + b, every n in 4..={top}, m in 1..n (n > 40 and quick: 1, 2, n/2, n-1), a, b in -2..=2 (n > 40: |a| + |b| <= 1); times 1 and (n <= 40) -1/4"), nm.len() as u64 * 25, move |c, i| {
        let (i, ab) = split(i, 25);
        let (n, m) = nm[i];
        let (a, b) = (ab as i64 / 5 - 2, ab as i64 % 5 - 2);
        if n > 40 && a.abs() + b.abs() > 1 {
            return Ok(());
        }
        let mut v = vec![0i64; n + 1];
        v[0] = 1;
        v[n - m] += a;
        v[n] = b;
        counted(c, &v, if n > 40 { &[1.0] } else { &[1.0, -0.25] })
    });
    let ext = [0.0, 1.0, -1.0, 3.0, f64::MAX, -f64::MAX, f64::MIN_POSITIVE, 5e-324, 1e300, -1e-300, 1e154, -1e77, 1e-160];
    let len = if t { 6 } else { 5 };
    s.add("extreme coefficients", &format!("all coefficient vectors of length {len} over {:?}: termination, zero and constant", ext), 13u64.pow(len), move |c, mut i| {
        let v: Vec<f64> = (0..len)
            .map(|_| {
                let d = ext[(i % 13) as usize];
                i /= 13;
                d
            })
            .collect();
        c.op(|| format!("roots of {:?}", v));
        c.state(&v.iter().map(|x| x.to_bits()).collect::<Vec<_>>());
        let a = ans(Polynomial { terms: v.clone() }.roots());
        let b = ans(to_sparse(&v, true).roots());
        let n = trim(&v).len();
        for a in [&a, &b] {
            ensure!((a.kind == Kind::Infinite) == (n == 0), "roots of {:?} are reported as {:?}", v, a);
            ensure!(n != 1 || a.kind == Kind::None, "roots of {:?} are reported as {:?}", v, a);
        }
        Ok(())
    });
    s.add("huge monomials", "c x^d with d up to usize::MAX and c in +-1, 0, 1e300: only the root 0", 8 * 4, |c, i| {
        let (d, k) = split(i, 4);
        let d = [1usize, 2, 3, 4, 1 << 20, 1 << 32, usize::MAX - 1, usize::MAX][d];
        let k = [1.0, -1.0, 0.0, 1e300][k];
        c.op(|| format!("roots of sparse {} x^{}", k, d));
        let a = ans(SparsePolynomial { terms: [(d, k)].into_iter().collect() }.roots());
        if k == 0.0 {
            ensure!(a.kind == Kind::Infinite, "{:?}", a);
        } else {
            ensure!(a.kind == Kind::AllReal && !a.real.is_empty() && a.real.iter().all(|&r| r == 0.0), "roots of {} x^{} are reported as {:?}", k, d, a);
        }
        Ok(())
    });
    s
}
fn main() {
    vharness::engine::main(Prop {
        id: "C13",
        build,
        assumptions: &[
            "accuracy: reported roots within 1e-5 of the largest root's size (grids) or 1e-6 (exactly counted polynomials); near multiple roots 3e-2 and only soundness",
            "coefficients whose intermediate values overflow f64: only termination and the zero/constant classification are checked",
            "a monomial reports its root 0 at least once; NoRoots and NoRootsFound are not told apart",
            "when all roots are real the answer is the all-real kind, when some are the only-real kind (degree 4 and up)",
        ],
    });
}
