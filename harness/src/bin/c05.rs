//! C05: derivatives, integrals and the integral wrapper.
use rustnomial::{Derivable, Evaluable, FreeSizePolynomial, Integrable, Integral, LinearBinomial, Monomial, Polynomial, QuadraticTrinomial, SparsePolynomial};
use std::sync::Arc;
use vharness::coef::*;
use vharness::dom::*;
use vharness::engine::*;
use vharness::ensure;
use vharness::model::*;

/// Degrees whose successor is small enough for every number up to it to be exact in the type.
fn degree_ok<N: Co>(m: &M) -> bool {
    m.iter().all(|x| (x.0 as i128) < N::MAX - 1)
}
const POINTS: [i64; 7] = [0, 1, -1, 2, -2, 3, 5];

macro_rules! calc {
    ($t:ident) => {
        mod $t {
            use super::*;
            type N = $t;
            pub fn deriv_all(ctx: &mut Ctx, v: &[i64]) -> R {
                let m = of_dense(v);
                let w = deriv(&m);
                if !fits::<N>(&w) || !degree_ok::<N>(&m) {
                    ctx.skip();
                    return Ok(());
                }
                let p = dense::<N>(v);
                ctx.op(|| format!("dense {:?}.derivative()", p));
                chk(ctx, "dense derivative", &p.derivative(), &w)?;
                deriv_sparse(ctx, &as_map(v))?;
                deriv_sparse(ctx, &stripped(v))?;
                if v.len() == 2 {
                    ctx.op(|| "binomial derivative".into());
                    let d: LinearBinomial<N> = bi::<N>(v).derivative();
                    chk(ctx, "binomial derivative", &d, &w)?;
                }
                if v.len() == 3 {
                    ctx.op(|| "trinomial derivative".into());
                    let d: QuadraticTrinomial<N> = tri::<N>(v).derivative();
                    chk(ctx, "trinomial derivative", &d, &w)?;
                }
                Ok(())
            }
            pub fn deriv_sparse(ctx: &mut Ctx, v: &[(usize, i64)]) -> R {
                let m = of_map(v);
                if !m.iter().all(|x| N::fits(x.0 as i128)) {
                    ctx.skip();
                    return Ok(());
                }
                let w = deriv(&m);
                if !fits::<N>(&w) {
                    ctx.skip();
                    return Ok(());
                }
                let p = sparse::<N>(v);
                ctx.op(|| format!("sparse {:?}.derivative()", p));
                chk(ctx, "sparse derivative", &p.derivative(), &w)?;
                if v.len() == 1 {
                    let p: Monomial<N> = mono(v[0].1, v[0].0);
                    ctx.op(|| format!("{:?}.derivative()", p));
                    chk(ctx, "monomial derivative", &p.derivative(), &w)?;
                }
                Ok(())
            }
            /// Everything observable of an integral against the antiderivative in the model.
            /// `exact`: no coefficient division was truncated or rounded.
            fn wrapper<P>(ctx: &mut Ctx, what: &str, g: Integral<N, P>, w: &M, m: &M, exact: bool) -> R
            where
                P: FreeSizePolynomial<N> + Evaluable<N> + Clone + Rep + Derivable<N> + std::fmt::Display + rustnomial::SizedPolynomial<N>,
            {
                if exact || !N::FLOAT {
                    chk(ctx, what, g.inner(), w)?;
                    ctx.op(|| format!("display of {:?}", g.inner()));
                    let text = g.to_string();
                    let want = if w.is_empty() { "C".to_string() } else { format!("{} + C", render(w)) };
                    ensure!(text == want, "{}: displayed as {:?}, not {:?}", what, text, want);
                }
                if exact && fits::<N>(m) && degree_ok::<N>(m) {
                    ctx.op(|| "derivative of the integral".into());
                    chk(ctx, "derivative of the integral", &g.inner().derivative(), m)?;
                }
                for c in [0i64, 1, -1, 2, 7] {
                    if !N::fits(c as i128) || (N::FLOAT && !exact) {
                        continue;
                    }
                    let sum = add(w, &norm([(0, c as i128)]));
                    if !fits::<N>(&sum) {
                        continue;
                    }
                    let r = g.replace_c(N::mk(c as i128));
                    ctx.op(|| format!("replace_c({})", c));
                    chk(ctx, "replace_c", &r, &sum)?;
                    chk(ctx, "integral after replace_c", g.inner(), w)?;
                }
                if exact || !N::FLOAT {
                    for a in POINTS {
                        for b in POINTS {
                            let at = |x: i64| if N::fits(x as i128) && eval_abs(w, x as i128).is_some_and(N::fits) { eval(w, x as i128) } else { None };
                            let (Some(fa), Some(fb)) = (at(a), at(b)) else { continue };
                            if !fb.checked_sub(fa).is_some_and(N::fits) {
                                continue;
                            }
                            ctx.op(|| format!("eval({}, {})", a, b));
                            let got = g.eval(N::mk(a as i128), N::mk(b as i128));
                            ensure!(got.val() == Some(fb - fa), "{}: from {} to {} gives {:?}, not {}", what, a, b, got, fb - fa);
                        }
                    }
                }
                Ok(())
            }
            pub fn integ_all(ctx: &mut Ctx, v: &[i64]) -> R {
                let m = of_dense(v);
                if !degree_ok::<N>(&m) {
                    ctx.skip();
                    return Ok(());
                }
                let w = integ(&m);
                let exact = m.iter().all(|x| x.1 % (x.0 as i128 + 1) == 0);
                let p = dense::<N>(v);
                ctx.op(|| format!("dense {:?}.integral()", p));
                wrapper(ctx, "dense integral", p.integral(), &w, &m, exact)?;
                integ_sparse(ctx, &as_map(v))?;
                integ_sparse(ctx, &stripped(v))?;
                if v.len() == 2 {
                    ctx.op(|| "binomial integral".into());
                    wrapper(ctx, "binomial integral", bi::<N>(v).integral(), &w, &m, exact)?;
                }
                if v.len() == 3 {
                    ctx.op(|| "trinomial integral".into());
                    wrapper(ctx, "trinomial integral", tri::<N>(v).integral(), &w, &m, exact)?;
                }
                Ok(())
            }
            pub fn integ_sparse(ctx: &mut Ctx, v: &[(usize, i64)]) -> R {
                let m = of_map(v);
                if !degree_ok::<N>(&m) || m.iter().any(|x| x.0 == usize::MAX) {
                    ctx.skip();
                    return Ok(());
                }
                let w = integ(&m);
                let exact = m.iter().all(|x| x.1 % (x.0 as i128 + 1) == 0);
                let p = sparse::<N>(v);
                ctx.op(|| format!("sparse {:?}.integral()", p));
                wrapper(ctx, "sparse integral", p.integral(), &w, &m, exact)?;
                if v.len() == 1 {
                    let p: Monomial<N> = mono(v[0].1, v[0].0);
                    ctx.op(|| format!("{:?}.integral()", p));
                    wrapper(ctx, "monomial integral", p.integral(), &w, &m, exact)?;
                }
                Ok(())
            }
            /// An integral made from a given antiderivative, which may have a constant of its own.
            pub fn given(ctx: &mut Ctx, v: &[i64]) -> R {
                let w = of_dense(v);
                let m = deriv(&w);
                let p = dense::<N>(v);
                ctx.op(|| format!("Integral::new(dense {:?})", p));
                wrapper(ctx, "dense Integral::new", Integral::new(p.clone()), &w, &m, true)?;
                wrapper(ctx, "clone of dense Integral::new", Integral::new(p).clone(), &w, &m, true)?;
                for t in [as_map(v), stripped(v)] {
                    let p = sparse::<N>(&t);
                    ctx.op(|| format!("Integral::new(sparse {:?})", p));
                    wrapper(ctx, "sparse Integral::new", Integral::new(p.clone()), &w, &m, true)?;
                    wrapper(ctx, "clone of sparse Integral::new", Integral::new(p).clone(), &w, &m, true)?;
                }
                Ok(())
            }
            /// Coefficients that make every division exact: entry k times degree+1.
            pub fn exact(v: &[i64]) -> Vec<i64> {
                let n = v.len();
                v.iter().enumerate().map(|(i, &c)| c * (n - i) as i64).collect()
            }
            pub fn suites(s: &mut Suites, dom: &Arc<Vec<Vec<i64>>>, ms: &Arc<Vec<Vec<(usize, i64)>>>) {
                let d = dom.clone();
                s.add(concat!(stringify!($t), " vectors"), "every coefficient vector (stored leading zeros included), and the vector scaled so that its integral divides exactly: derivative, integral, integral wrapper, all representations", d.len() as u64, move |c, i| {
                    let v = &d[i as usize];
                    if v.iter().all(|&x| N::fits(x as i128)) {
                        deriv_all(c, v)?;
                        integ_all(c, v)?;
                    }
                    let e = exact(v);
                    if e.iter().all(|&x| N::fits(x as i128)) {
                        integ_all(c, &e)?;
                    }
                    Ok(())
                });
                let d = dom.clone();
                s.add(concat!(stringify!($t), " given antiderivatives"), "an integral made from every such coefficient vector of length <= 120 (with constants of its own, stored zeros), dense and sparse, and its clone: antiderivative, display, constant added, differences between every two points", d.len() as u64, move |c, i| {
                    let v = &d[i as usize];
                    if v.len() <= 120 && v.iter().all(|&x| N::fits(x as i128)) {
                        given(c, v)?;
                    }
                    Ok(())
                });
                let ms = ms.clone();
                s.add(concat!(stringify!($t), " maps"), "every sparse map over the degree set, entries absent, explicit zero or non-zero; single entries also as monomials", ms.len() as u64, move |c, i| {
                    deriv_sparse(c, &ms[i as usize])?;
                    integ_sparse(c, &ms[i as usize])
                });
            }
        }
    };
}
calc!(i8);
calc!(i16);
calc!(i32);
calc!(i64);
calc!(i128);
calc!(u8);
calc!(u16);
calc!(u32);
calc!(u64);
calc!(u128);
calc!(f32);
calc!(f64);

/// Fractional coefficients: each antiderivative coefficient is the float quotient.
macro_rules! frac {
    ($s:expr, $t:ty, $th:expr) => {{
        let co: [$t; 6] = [0.0, 0.1, -2.5, 1e20, -1e-20, 7.0];
        let n = if $th { 5 } else { 4 };
        let total: u64 = (0..=n).map(|k| 6u64.pow(k)).sum();
        $s.add(concat!(stringify!($t), " fractional"), "every vector of length <=4 (thorough <=5) over 6 fractional coefficients: each coefficient of the derivative and the integral is the float product/quotient; integral differences over every pair of points", total, move |ctx, i| {
            let (mut i, mut len) = (i, 0u32);
            while i >= 6u64.pow(len) { i -= 6u64.pow(len); len += 1; }
            let v: Vec<$t> = (0..len).map(|k| co[(i / 6u64.pow(k) % 6) as usize]).collect();
            let near = |a: $t, b: $t| a == b || (a - b).abs() <= 4.0 * <$t>::EPSILON * b.abs();
            let at = |t: &[$t], d: usize| if d < t.len() { t[t.len() - 1 - d] } else { 0.0 };
            let p = Polynomial { terms: v.clone() };
            let sp = SparsePolynomial { terms: v.iter().rev().cloned().enumerate().collect() };
            ctx.op(|| format!("derivative and integral of {:?}", v));
            let (dp, ip, ds, is) = (p.derivative(), p.integral(), sp.derivative(), sp.integral());
            ctx.state(&(dp.terms.iter().map(|c| c.to_bits()).collect::<Vec<_>>()));
            ctx.state(&(ip.inner().terms.iter().map(|c| c.to_bits()).collect::<Vec<_>>()));
            for d in 0..len as usize + 2 {
                let w = at(&v, d + 1) * (d as $t + 1.0);
                let sd = |p: &SparsePolynomial<$t>| p.terms.get(&d).cloned().unwrap_or(0.0);
                ensure!(near(at(&dp.terms, d), w), "dense derivative of {:?}: {:?}", v, dp);
                ensure!(near(sd(&ds), w), "sparse derivative of {:?}: {:?}", v, ds);
                let w = if d == 0 { 0.0 } else { at(&v, d - 1) / d as $t };
                ensure!(near(at(&ip.inner().terms, d), w), "dense integral of {:?}: {:?}", v, ip);
                ensure!(near(sd(is.inner()), w), "sparse integral of {:?}: {:?}", v, is);
            }
            for &c in &co {
                let (a, b) = (ip.replace_c(c), is.replace_c(c));
                for d in 0..len as usize + 2 {
                    let w = if d == 0 { c } else { at(&ip.inner().terms, d) };
                    ensure!(at(&a.terms, d) == w && b.terms.get(&d).cloned().unwrap_or(0.0) == if d == 0 { c } else { is.inner().terms.get(&d).cloned().unwrap_or(0.0) }, "replace_c({}) of {:?}: {:?} / {:?}", c, v, a, b);
                }
            }
            let pts: [$t; 5] = [0.0, 0.5, -1.25, 3.0, 10.0];
            for &x in &pts {
                for &y in &pts {
                    let f = |x: $t| { let (mut s, mut m) = (0.0f64, 0.0f64); for d in 0..len as usize { let t = at(&v, d) as f64 * (x as f64).powi(d as i32 + 1) / (d as f64 + 1.0); s += t; m += t.abs(); } (s, m) };
                    let ((fx, mx), (fy, my)) = (f(x), f(y));
                    let tol = 64.0 * <$t>::EPSILON as f64 * (mx + my);
                    ctx.op(|| format!("eval({}, {})", x, y));
                    let (g, h) = (ip.eval(x, y), is.eval(x, y));
                    ensure!((g as f64 - (fy - fx)).abs() <= tol, "dense integral of {:?} from {} to {}: {}, not {}", v, x, y, g, fy - fx);
                    ensure!((h as f64 - (fy - fx)).abs() <= tol, "sparse integral of {:?} from {} to {}: {}, not {}", v, x, y, h, fy - fx);
                }
            }
            if len == 2 {
                let q = LinearBinomial { coefficients: [v[0], v[1]] };
                let (d, g) = (q.derivative(), q.integral());
                ensure!(near(d.coefficients[1], v[0]) && d.coefficients[0] == 0.0, "binomial derivative {:?}", d);
                for d in 0..5 { ensure!(near(at(&g.inner().terms, d), if d == 0 { 0.0 } else { at(&v, d - 1) / d as $t }), "binomial integral of {:?}: {:?}", v, g); }
            }
            if len == 3 {
                let q = QuadraticTrinomial { coefficients: [v[0], v[1], v[2]] };
                let (d, g) = (q.derivative(), q.integral());
                ensure!(near(d.coefficients[1], v[0] * 2.0) && d.coefficients[0] == 0.0 && near(d.coefficients[2], v[1]), "trinomial derivative {:?}", d);
                for d in 0..5 { ensure!(near(at(&g.inner().terms, d), if d == 0 { 0.0 } else { at(&v, d - 1) / d as $t }), "trinomial integral of {:?}: {:?}", v, g); }
            }
            if len == 1 {
                for deg in [0usize, 1, 2, 5, 40, 1000] {
                    let q = Monomial { coefficient: v[0], deg };
                    let (d, g) = (q.derivative(), q.integral());
                    let dc = if deg == 0 { 0.0 } else { v[0] * deg as $t };
                    ensure!(near(d.coefficient, dc) && (dc == 0.0 || d.deg == deg - 1), "{:?} derivative {:?}", q, d);
                    ensure!(near(g.inner().terms.get(&(deg + 1)).cloned().unwrap_or(0.0), v[0] / (deg as $t + 1.0)), "{:?} integral {:?}", q, g);
                }
            }
            Ok(())
        });
    }};
}

fn build(th: bool) -> Suites {
    let mut s = Suites::default();
    let mut sv = vecs(if th { 6 } else { 5 }, &[0, 1, -1, 2, -6]);
    sv.extend(vecs(3, &[0, 1, 5, -7, 12, 60, -120]));
    let mut uv = vecs(if th { 6 } else { 5 }, &[0, 1, 2, 6]);
    uv.extend(vecs(3, &[0, 1, 5, 7, 12, 60, 120]));
    for v in [&mut sv, &mut uv] {
        v.extend(long_one(if th { 120 } else { 60 }, 1));
    }
    let mut wide = sv.clone();
    wide.extend(patterns(if th { 14 } else { 11 }, &[3, -5, 7, -11, 13, -17, 19]));
    wide.extend(long_two(if th { 40 } else { 24 }, 2, -3));
    wide.extend(full(lengths(100), 1));
    wide.extend(long_blocks(th));
    let (sv, uv, wide) = (Arc::new(sv), Arc::new(uv), Arc::new(wide));
    let degs = [0usize, 1, 2, 6, 126, 300, 70000];
    let sm = Arc::new(maps(&degs, &[0, 1, -2]));
    let um = Arc::new(maps(&degs, &[0, 1, 14]));
    let big: Vec<usize> = vec![0, 1, 126, (1 << 24) - 2, 1 << 31, (1 << 32) - 1, 1 << 40, usize::MAX];
    let bm = Arc::new(maps(&big, &[0, 12]));
    i8::suites(&mut s, &sv, &sm);
    i16::suites(&mut s, &sv, &sm);
    i32::suites(&mut s, &sv, &sm);
    i64::suites(&mut s, &wide, &bm);
    i128::suites(&mut s, &wide, &bm);
    u8::suites(&mut s, &uv, &um);
    u16::suites(&mut s, &uv, &um);
    u32::suites(&mut s, &uv, &um);
    u64::suites(&mut s, &uv, &bm);
    u128::suites(&mut s, &uv, &bm);
    f32::suites(&mut s, &sv, &sm);
    f64::suites(&mut s, &wide, &bm);
    let ed = edge_degs();
    let ed2 = ed.clone();
    s.add("i128 edge degrees", "for every degree d around a power of two or ten up to 2^64-1: every map over degrees {0, d-1, d, d+1}, each absent, explicit zero or one of 2 values, in i128, u128, i64, u64 and f64 as far as the degrees fit", ed.len() as u64, move |c, i| {
        for m in around(ed[i as usize], &[0, 2, 5]) {
            i128::deriv_sparse(c, &m)?;
            i128::integ_sparse(c, &m)?;
            u128::deriv_sparse(c, &m)?;
            u128::integ_sparse(c, &m)?;
            i64::deriv_sparse(c, &m)?;
            i64::integ_sparse(c, &m)?;
            u64::deriv_sparse(c, &m)?;
            u64::integ_sparse(c, &m)?;
            f64::deriv_sparse(c, &m)?;
            f64::integ_sparse(c, &m)?;
        }
        Ok(())
    });
    s.add("i64 edge degrees, exact", "c*(d+1)*x^d for every such degree below 2^61: integral and back", ed2.len() as u64, move |c, i| {
        let d = ed2[i as usize];
        if d >> 61 == 0 {
            for k in [1, -3] {
                i64::integ_sparse(c, &[(d, k * (d as i64 + 1))])?;
                if d > 0 {
                    i128::integ_sparse(c, &[(0, 5), (d, k * (d as i64 + 1))])?;
                }
            }
        }
        Ok(())
    });
    let hu = huge(th);
    s.add("i64 huge", "vectors of lengths 2^16 and 2^16+1 (thorough around 2^15, 2^16, 10^5, up to 2^20), as they are and scaled to divide exactly", hu.len() as u64, move |c, i| {
        let v = &hu[i as usize];
        i64::deriv_all(c, v)?;
        i64::integ_all(c, v)?;
        i64::integ_all(c, &i64::exact(v))
    });
    // whole small types
    s.add("i8 all one-term", "every i8 coefficient at every degree 0..=125", 256 * 126, |c, i| {
        let (a, d) = split(i, 126);
        let v = [(d, a as i64 - 128)];
        i8::deriv_sparse(c, &v)?;
        i8::integ_sparse(c, &v)
    });
    s.add("u8 all one-term", "every u8 coefficient at every degree 0..=253", 256 * 254, |c, i| {
        let (a, d) = split(i, 254);
        let v = [(d, a as i64)];
        u8::deriv_sparse(c, &v)?;
        u8::integ_sparse(c, &v)
    });
    s.add("i16 one-term", "every degree 0..=32765 with coefficients 1, degree+1, -(degree+1)", 32766, |c, i| {
        let d = i as usize;
        for k in [1, d as i64 + 1, -(d as i64 + 1)] {
            i16::deriv_sparse(c, &[(d, k)])?;
            i16::integ_sparse(c, &[(d, k)])?;
            i64::deriv_sparse(c, &[(d, k)])?;
            i64::integ_sparse(c, &[(d, k)])?;
        }
        Ok(())
    });
    frac!(s, f64, th);
    frac!(s, f32, th);
    s.add("i64 every length", "for every length 0..=1300 (thorough 4200) and 35 lengths around round numbers and powers of two up to 32770, eight shapes (all non-zero; only the constant, leading or middle entry; one leading zero; all zero; alternating; leading half zero): derivative, integral and wrapper, and of the vector scaled to divide exactly", every_count(if th { 4200 } else { 1300 }), |c, i| {
        let a = every_len(i);
        i64::deriv_all(c, &a)?;
        i64::integ_all(c, &a)?;
        i64::integ_all(c, &i64::exact(&a))
    });
    macro_rules! all_types {
        ($u:expr; $($t:ident),*) => {$(
            s.add(concat!(stringify!($t), " mid lengths"), "for every length 0..=140 (thorough 700), eight shapes (all non-zero; only the constant, leading or middle entry; one leading zero; all zero; alternating; leading half zero): derivative, integral and wrapper, and of the vector scaled to divide exactly", mid_count(if th { 700 } else { 140 }), |c, i| {
                let a = mid_len(i, $u);
                $t::deriv_all(c, &a)?;
                $t::integ_all(c, &a)?;
                let e = $t::exact(&a);
                if !e.iter().all(|&x| <$t as Co>::fits(x as i128)) {
                    return Ok(());
                }
                $t::integ_all(c, &e)
            });
        )*};
    }
    all_types!(false; i8, i16, i32, i128, f32, f64);
    all_types!(true; u8, u16, u32, u64, u128);
    s.add("lifted", &format!("{}: derivative and integral in i128, u128 and f64; the terms multiplied by degree + 1 where an i64 holds that, so that the integral divides exactly", LIFTED), lifted_count(), |c, i| {
        let a = lifted(i, false);
        i128::deriv_sparse(c, &a)?;
        let u = lifted(i, true);
        u128::deriv_sparse(c, &u)?;
        f64::deriv_sparse(c, &a)?;
        i128::integ_sparse(c, &a)?;
        u128::integ_sparse(c, &u)?;
        f64::integ_sparse(c, &a)?;
        let scale = |v: &[(usize, i64)]| v.iter().map(|&(d, k)| Some((d, k.checked_mul(i64::try_from(d).ok()?.checked_add(1)?)?))).collect::<Option<Vec<_>>>();
        if let (Some(a), Some(u)) = (scale(&a), scale(&u)) {
            i128::integ_sparse(c, &a)?;
            u128::integ_sparse(c, &u)?;
        }
        Ok(())
    });
    s.spare(&["mid lengths"]);
    s
}
fn main() {
    vharness::engine::main(Prop {
        id: "C05",
        assumptions: &["coefficient arithmetic of the primitive types is right", "coefficients of results must fit; representability of degrees at the very limit is C17's", "float quotients and evaluations are judged with a small multiple of the type's epsilon"],
        build,
    });
}
