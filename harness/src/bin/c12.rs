//! C12: closed-form roots and factors.
use num::rational::Ratio;
use num::Complex;
use rustnomial::{LinearBinomial, Monomial, QuadraticTrinomial, Roots};
use std::fmt::Debug;
use std::sync::Arc;
use vharness::coef::*;
use vharness::dom::*;
use vharness::engine::*;
use vharness::ensure;
use vharness::model::*;

fn isqrt(v: i128) -> i128 {
    let mut r = (v as f64).sqrt() as i128;
    while r * r > v {
        r -= 1;
    }
    while (r + 1) * (r + 1) <= v {
        r += 1;
    }
    r
}
fn linear<N: Co, D: Debug>(ctx: &mut Ctx, p: &D, a: i128, b: i128, got: Roots<N>, exact_field: bool) -> R
where
    N: num::Zero,
{
    let ok = if a == 0 {
        if b == 0 {
            ctx.outcome("all points");
            matches!(got, Roots::InfiniteRoots)
        } else {
            ctx.outcome("no root");
            matches!(got, Roots::NoRoots)
        }
    } else {
        ctx.outcome("one root");
        match got {
            Roots::OneRealRoot(r) => {
                exact_field || r.val().map_or(false, |r| (a * r + b).abs() < a.abs())
            }
            _ => false,
        }
    };
    ensure!(ok, "root of {:?} is reported as {:?}", p, got);
    Ok(())
}
macro_rules! ints {
    ($($t:ident),*) => {$(
        #[allow(dead_code)]
        mod $t {
            use super::*;
            type N = $t;
            // everything the closed form needs, within the type
            fn in_range(a: i128, b: i128, c: i128) -> bool {
                let f = |v: i128| <N as Co>::fits(v) && <N as Co>::fits(-v);
                let (ac, d) = (a * c * 4, b * b - 4 * a * c);
                f(a * 2) && f(b * b) && f(ac) && f(d) && f(b.abs() + isqrt(d.abs())) && f(c)
            }
            pub fn quad(ctx: &mut Ctx, a: i128, b: i128, c: i128) -> R {
                if !in_range(a, b, c) {
                    ctx.skip();
                    return Ok(());
                }
                let p = QuadraticTrinomial::<N>::new([a as N, b as N, c as N]);
                ctx.op(|| format!("discriminant, roots and factors of {:?} ({})", p, stringify!($t)));
                ctx.state(&(5u8, p.raw()));
                let d = b * b - 4 * a * c;
                let g = p.discriminant();
                ensure!(g as i128 == d, "discriminant of {:?} is reported as {}", p, g);
                let roots = p.roots();
                if a == 0 {
                    return linear::<N, _>(ctx, &p, b, c, roots, false);
                }
                let s = isqrt(d.abs());
                let whole = s * s == d.abs();
                let (n1, n2) = (-b + s, -b - s);
                if d >= 0 {
                    ctx.outcome(if d == 0 { "double root" } else { "two real roots" });
                    let (r1, r2) = match roots {
                        Roots::TwoRealRoots(x, y) => (x as i128, y as i128),
                        _ => return Err(format!("roots of {:?} (discriminant {}) are reported as {:?}", p, d, roots)),
                    };
                    ensure!(r1 >= r2, "roots of {:?} are reported as {:?}: the larger is not first", p, roots);
                    let exact = whole && n1 % (2 * a) == 0 && n2 % (2 * a) == 0;
                    if exact {
                        let (mut w1, mut w2) = (n1 / (2 * a), n2 / (2 * a));
                        if w1 < w2 { std::mem::swap(&mut w1, &mut w2); }
                        ensure!((r1, r2) == (w1, w2), "roots of {:?} are {} and {}, but {:?} is reported", p, w1, w2, roots);
                    }
                    // otherwise the formula in integer arithmetic: square root rounded down, division truncated
                    let (w1, w2) = ((n1 / (2 * a)).max(n2 / (2 * a)), (n1 / (2 * a)).min(n2 / (2 * a)));
                    ensure!((r1, r2) == (w1, w2), "roots of {:?} (discriminant {}) are reported as {:?}", p, d, roots);
                    match p.real_factors() {
                        None => return Err(format!("{:?} has real roots but no real factors are offered", p)),
                        Some((k, f, g)) => if exact {
                            product(&p, k as i128, (f.coefficients[0] as i128, f.coefficients[1] as i128), (g.coefficients[0] as i128, g.coefficients[1] as i128), a, b, c)?;
                        }
                    }
                    if exact {
                        let (k, f, g) = p.complex_factors();
                        let im = [f.coefficients[0].im, f.coefficients[1].im, g.coefficients[0].im, g.coefficients[1].im];
                        ensure!(im == [0; 4], "complex factors of {:?} are {:?}, {:?}", p, f, g);
                        product(&p, k as i128, (f.coefficients[0].re as i128, f.coefficients[1].re as i128), (g.coefficients[0].re as i128, g.coefficients[1].re as i128), a, b, c)?;
                    }
                } else {
                    ctx.outcome("conjugate pair");
                    let (z, w) = match roots {
                        Roots::TwoComplexRoots(z, w) => (z, w),
                        _ => return Err(format!("roots of {:?} (discriminant {}) are reported as {:?}", p, d, roots)),
                    };
                    ensure!(z.re == w.re && z.im == -w.im, "roots of {:?} are reported as {:?}: not a conjugate pair", p, roots);
                    let (re, im) = (z.re as i128, (z.im as i128).abs());
                    ensure!(re == -b / (2 * a) && im == s / (2 * a).abs(), "roots of {:?} (discriminant {}) are reported as {:?}", p, d, roots);
                    ensure!(p.real_factors().is_none(), "{:?} has no real roots but real factors are offered", p);
                    if whole && s % (2 * a) == 0 && b % (2 * a) == 0 {
                        ctx.outcome("Gaussian integer roots");
                        let (re, im) = (-b / (2 * a), (s / (2 * a)).abs());
                        ensure!(z.re as i128 == re && (z.im as i128).abs() == im, "roots of {:?} are {} +- {}i, but {:?} is reported", p, re, im, roots);
                        let (k, f, g) = p.complex_factors();
                        let z = |c: Complex<N>| Complex::new(c.re as i128, c.im as i128);
                        let k = Complex::new(k as i128, 0);
                        let (f0, f1, g0, g1) = (z(f.coefficients[0]), z(f.coefficients[1]), z(g.coefficients[0]), z(g.coefficients[1]));
                        let pr = [k * f0 * g0, k * (f0 * g1 + f1 * g0), k * f1 * g1];
                        ensure!(pr == [Complex::new(a, 0), Complex::new(b, 0), Complex::new(c, 0)], "complex factors of {:?} are {}, {:?}, {:?}, whose product is {:?}", p, k, f, g, pr);
                    }
                }
                Ok(())
            }
            fn product(p: &QuadraticTrinomial<N>, k: i128, f: (i128, i128), g: (i128, i128), a: i128, b: i128, c: i128) -> R {
                let pr = [k * f.0 * g.0, k * (f.0 * g.1 + f.1 * g.0), k * f.1 * g.1];
                ensure!(pr == [a, b, c], "factors of {:?} are {}, {:?}, {:?}, whose product is {:?}", p, k, f, g, pr);
                Ok(())
            }
            pub fn lin(ctx: &mut Ctx, a: i128, b: i128) -> R {
                let p = LinearBinomial::<N>::new([a as N, b as N]);
                ctx.op(|| format!("root of {:?} ({})", p, stringify!($t)));
                ctx.state(&(4u8, p.raw()));
                linear::<N, _>(ctx, &p, a, b, p.root(), false)
            }
        }
    )*};
}
ints!(i16, i32, i64, i128, isize);
mod lin8 {
    use super::*;
    pub fn lin(ctx: &mut Ctx, a: i8, b: i8) -> R {
        if b == i8::MIN {
            return Ok(());
        }
        let p = LinearBinomial::<i8>::new([a, b]);
        ctx.op(|| format!("root of {:?} (i8)", p));
        linear::<i8, _>(ctx, &p, a as i128, b as i128, p.root(), false)
    }
}
macro_rules! floats {
    ($($t:ident $tol:expr;)*) => {$(
        mod $t {
            use super::*;
            type N = $t;
            const TOL: f64 = $tol;
            // coefficients a, b, c are given exactly as integers times 2^k
            pub fn quad(ctx: &mut Ctx, ai: i128, bi: i128, ci: i128, k: i32) -> R {
                quad_at(ctx, ai, bi, ci, k, 0)
            }
            // and the roots scaled by 2^j
            pub fn quad_at(ctx: &mut Ctx, ai: i128, bi: i128, ci: i128, k: i32, j: i32) -> R {
                let (sc, sx) = (2f64.powi(k), 2f64.powi(j));
                let (a, b, c) = (ai as f64 * sc, bi as f64 * sc * sx, ci as f64 * sc * sx * sx);
                let p = QuadraticTrinomial::<N>::new([a as N, b as N, c as N]);
                ctx.op(|| format!("discriminant, roots and factors of {:?} ({})", p, stringify!($t)));
                ctx.state(&(5u8, p.raw()));
                let d = bi * bi - 4 * ai * ci;
                let g = p.discriminant() as f64;
                let mag = (b * b).abs() + (4.0 * a * c).abs();
                ensure!((g - d as f64 * sc * sc * sx * sx).abs() <= TOL * mag, "discriminant of {:?} is reported as {}", p, g);
                let roots = p.roots();
                if ai == 0 {
                    let ok = match (&roots, bi, ci) {
                        (Roots::InfiniteRoots, 0, 0) => true,
                        (Roots::NoRoots, 0, c) => c != 0,
                        (Roots::OneRealRoot(r), b, c) => b != 0 && (*r as f64 + c as f64 / b as f64 * sx).abs() <= TOL * (c as f64 / b as f64 * sx).abs(),
                        _ => false,
                    };
                    ctx.outcome("lower degree");
                    ensure!(ok, "roots of {:?} are reported as {:?}", p, roots);
                    return Ok(());
                }
                // reference roots, from the exact discriminant and without cancellation
                let (fa, fb, fc) = (ai as f64, bi as f64 * sx, ci as f64 * sx * sx);
                if d >= 0 {
                    ctx.outcome("real roots");
                    let q = -0.5 * (fb + fb.signum() * (d as f64).sqrt() * sx);
                    let (mut w1, mut w2) = if q == 0.0 { (0.0, 0.0) } else { (q / fa, fc / q) };
                    if d == 0 { w1 = -fb / (2.0 * fa); w2 = w1; }
                    if w1 < w2 { std::mem::swap(&mut w1, &mut w2); }
                    let size = w1.abs().max(w2.abs());
                    let (r1, r2) = match roots {
                        Roots::TwoRealRoots(x, y) => (x as f64, y as f64),
                        _ => return Err(format!("roots of {:?} are {}, {}, but {:?} is reported", p, w1, w2, roots)),
                    };
                    ensure!(r1 >= r2, "roots of {:?} are reported as {:?}: the larger is not first", p, roots);
                    // each root within rounding of the larger one
                    ensure!((r1 - w1).abs() <= TOL * size && (r2 - w2).abs() <= TOL * size, "roots of {:?} are {}, {}, but {:?} is reported", p, w1, w2, roots);
                    match p.real_factors() {
                        None => return Err(format!("{:?} has real roots but no real factors are offered", p)),
                        Some((k, f, g)) => {
                            let z = |c: N| Complex::new(c as f64, 0.0);
                            product(&p, k as f64, f.coefficients.map(z), g.coefficients.map(z), [a, b, c], size)?;
                        }
                    }
                    factors(&p, [a, b, c], size)
                } else {
                    ctx.outcome("conjugate pair");
                    let (re, im) = (-fb / (2.0 * fa), (-d as f64).sqrt() * sx / (2.0 * fa.abs()));
                    let (z, w) = match roots {
                        Roots::TwoComplexRoots(z, w) => (z, w),
                        _ => return Err(format!("roots of {:?} are {} +- {}i, but {:?} is reported", p, re, im, roots)),
                    };
                    ensure!(z.re == w.re && z.im == -w.im && z.im != 0.0, "roots of {:?} are reported as {:?}: not a conjugate pair", p, roots);
                    let size = re.abs() + im;
                    ensure!((z.re as f64 - re).abs() <= TOL * size && ((z.im as f64).abs() - im).abs() <= TOL * size, "roots of {:?} are {} +- {}i, but {:?} is reported", p, re, im, roots);
                    ensure!(p.real_factors().is_none(), "{:?} has no real roots but real factors are offered", p);
                    factors(&p, [a, b, c], size)
                }
            }
            fn factors(p: &QuadraticTrinomial<N>, want: [f64; 3], size: f64) -> R {
                let (k, f, g) = p.complex_factors();
                let z = |c: Complex<N>| Complex::new(c.re as f64, c.im as f64);
                product(p, k as f64, f.coefficients.map(z), g.coefficients.map(z), want, size)
            }
            fn product(p: &QuadraticTrinomial<N>, k: f64, f: [Complex<f64>; 2], g: [Complex<f64>; 2], want: [f64; 3], size: f64) -> R {
                let pr = [f[0] * g[0] * k, (f[0] * g[1] + f[1] * g[0]) * k, f[1] * g[1] * k];
                let mut tol = 4.0 * TOL * want[0].abs();
                for i in 0..3 {
                    ensure!((pr[i] - want[i]).norm() <= tol, "factors of {:?} are {}, {:?}, {:?}, whose product is {:?}", p, k, f, g, pr);
                    tol *= size;
                }
                Ok(())
            }
            pub fn lin(ctx: &mut Ctx, a: f64, b: f64) -> R {
                let p = LinearBinomial::<N>::new([a as N, b as N]);
                ctx.op(|| format!("root of {:?} ({})", p, stringify!($t)));
                ctx.state(&(4u8, p.raw()));
                let r = p.root();
                let ok = match r {
                    Roots::InfiniteRoots => a == 0.0 && b == 0.0,
                    Roots::NoRoots => a == 0.0 && b != 0.0,
                    Roots::OneRealRoot(x) => a != 0.0 && (x as f64 + b / a).abs() <= TOL * (b / a).abs(),
                    _ => false,
                };
                ensure!(ok, "root of {:?} is reported as {:?}", p, r);
                Ok(())
            }
        }
    )*};
}
floats! { f32 2e-5; f64 1e-13; }

fn mono_case<N: Ring + Default>(ctx: &mut Ctx, c: N, d: usize) -> R {
    let p = Monomial { coefficient: c, deg: d };
    ctx.op(|| format!("root of {:?}", p));
    ctx.state(&(3u8, p.raw()));
    let r = p.root();
    let ok = match &r {
        Roots::InfiniteRoots => c.is_zero(),
        Roots::NoRoots => !c.is_zero() && d == 0,
        Roots::OneRealRoot(x) => !c.is_zero() && d > 0 && x.is_zero(),
        _ => false,
    };
    ensure!(ok, "root of {:?} is reported as {:?}", p, r);
    Ok(())
}
fn build(t: bool) -> Suites {
    let mut s = Suites::default();
    let k = if t { 150i64 } else { 60 };
    let w = (2 * k + 1) as usize;
    s.add("all small quadratics i32", &format!("all a, b, c in -{k}..={k}, i32"), (w * w * w) as u64, move |c, i| {
        let (x, y, z) = split3(i, w, w);
        i32::quad(c, x as i128 - k as i128, y as i128 - k as i128, z as i128 - k as i128)
    });
    let k = if t { 60i64 } else { 30 };
    let w = (2 * k + 1) as usize;
    s.add("all small quadratics i64/i128/isize/floats", &format!("all a, b, c in -{k}..={k}; floats also scaled by 2^-20 and 2^20, and with roots scaled by 2^-30 and 2^30 (f64 2^-200, 2^200)"), (w * w * w) as u64, move |c, i| {
        let (x, y, z) = split3(i, w, w);
        let (x, y, z) = (x as i128 - k as i128, y as i128 - k as i128, z as i128 - k as i128);
        i64::quad(c, x, y, z)?;
        i128::quad(c, x, y, z)?;
        isize::quad(c, x, y, z)?;
        for e in [-20, 0, 20] {
            f64::quad(c, x, y, z, e)?;
            f32::quad(c, x, y, z, e)?;
        }
        for j in [-30, 30] {
            f32::quad_at(c, x, y, z, 0, j)?;
            f64::quad_at(c, x, y, z, j, j)?;
            f64::quad_at(c, x, y, z, 0, j * 20 / 3)?;
        }
        Ok(())
    });
    // i16: everything with a = +-1 (and +-2..) that fits at all
    let aa: Vec<i128> = if t { vec![1, -1, 2, -2, 3, -3, 4, 5, 7, -8, 0] } else { vec![1, -1, 2, -3] };
    let step = 1;
    s.add("whole i16 range", &format!("leading coefficient in {:?}, every b in -181..=181, every c in -8191..=8191", aa), 363 * aa.len() as u64, move |c, i| {
        let (b, a) = split(i, aa.len());
        for k in -8191i128..=8191 {
            if k % step == 0 || k.abs() < 600 {
                i16::quad(c, aa[a], b as i128 - 181, k)?;
            }
        }
        Ok(())
    });
    let k = if t { 300i64 } else { 120 };
    let w = (2 * k + 1) as usize;
    s.add("all integer root pairs", &format!("all pairs of integer roots in -{k}..={k}, leading coefficient +-1, 2, 3, 7, 64; i32, i64, i16 where it fits, f32, f64"), (w * w) as u64, move |c, i| {
        let (x, y) = split(i, w);
        let (x, y) = (x as i128 - k as i128, y as i128 - k as i128);
        for a in [1i128, -1, 2, -2, 3, -3, 7, -7, 64, -64] {
            i16::quad(c, a, -a * (x + y), a * x * y)?;
            i32::quad(c, a, -a * (x + y), a * x * y)?;
            i64::quad(c, a, -a * (x + y), a * x * y)?;
            if !t && a.abs() == 7 { continue; }
            f64::quad(c, a, -a * (x + y), a * x * y, 0)?;
            f32::quad(c, a, -a * (x + y), a * x * y, 0)?;
        }
        Ok(())
    });
    s.add("all Gaussian integer roots", "re in -40..=40, im in 0..=40, leading coefficient +-1, 2, 3", 81 * 41, move |c, i| {
        let (x, y) = split(i, 41);
        let (x, y) = (x as i128 - 40, y as i128);
        for a in [1i128, -1, 2, -2, 3, -3] {
            i16::quad(c, a, -2 * a * x, a * (x * x + y * y))?;
            i32::quad(c, a, -2 * a * x, a * (x * x + y * y))?;
            i64::quad(c, a, -2 * a * x, a * (x * x + y * y))?;
            f64::quad(c, a, -2 * a * x, a * (x * x + y * y), 0)?;
            f32::quad(c, a, -2 * a * x, a * (x * x + y * y), 0)?;
        }
        Ok(())
    });
    // large roots: powers of two and limits
    let mut big: Vec<i128> = vec![];
    for b in [10u32, 14, 15, 20, 29, 30, 31, 40, 52, 60] {
        for d in -3i128..=3 {
            big.push((1 << b) + d);
            big.push(-(1 << b) + d);
        }
    }
    big.extend(-3..=3);
    big.extend([46340, 46339, -46340, 23170, 23169, 3037000499, 1518500249]);
    let n = big.len();
    let bigs = Arc::new(big);
    s.add("large integer roots", "all pairs from 2^k+d and limit values, and the constant one off, all integer types where everything fits", (n * n) as u64, move |c, i| {
        let (x, y) = split(i, n);
        let (x, y) = (bigs[x], bigs[y]);
        for a in [1i128, -1, 2] {
            if x.abs() < 1 << 41 && y.abs() < 1 << 41 {
                i32::quad(c, a, -a * (x + y), a * x * y)?;
                i64::quad(c, a, -a * (x + y), a * x * y)?;
                i128::quad(c, a, -a * (x + y), a * x * y)?;
                isize::quad(c, a, -a * (x + y), a * x * y)?;
                i16::quad(c, a, -a * (x + y), a * x * y)?;
                for e in [-1, 1] {
                    i32::quad(c, a, -a * (x + y), a * x * y + e)?;
                    i64::quad(c, a, -a * (x + y), a * x * y + e)?;
                    i128::quad(c, a, -a * (x + y), a * x * y + e)?;
                    isize::quad(c, a, -a * (x + y), a * x * y + e)?;
                }
            }
        }
        Ok(())
    });
    // square roots at every magnitude
    s.add("perfect squares", "b = 0, c = -n^2 and -n^2-1 for every n <= 46340, all integer types; near 2^29 and 2^60", 46341, move |c, i| {
        let n = i as i128;
        for e in [0i128, -1, 1] {
            i32::quad(c, 1, 0, -n * n + e)?;
            i64::quad(c, 1, 0, -n * n + e)?;
            i16::quad(c, 1, 0, -n * n + e)?;
            isize::quad(c, 1, 0, -n * n + e)?;
            isize::quad(c, -1, 0, (n + (1 << 29)) * (n + (1 << 29)) + e)?;
            i128::quad(c, 1, 0, -(n + (1 << 60)) * (n + (1 << 60)) + e)?;
            i128::quad(c, 1, 0, -n * n + e)?;
            i64::quad(c, 1, 0, -(n + (1 << 29)) * (n + (1 << 29)) + e)?;
            i32::quad(c, 1, 0, n * n + e)?;
        }
        Ok(())
    });
    s.add("all linear i8/i16", "every pair of i8 coefficients; i16 with a in -40..=40 and every b", 256 * 256, |c, i| {
        lin8::lin(c, i as u8 as i8, (i >> 8) as u8 as i8)?;
        let b = i as u16 as i16;
        if b != i16::MIN {
            for a in -40..=40 {
                i16::lin(c, a, b as i128)?;
            }
        }
        Ok(())
    });
    s.add("linear, other types", "all a, b in -60..=60; floats scaled by 2^-100, 1, 2^100 and quarter fractions; rationals", 121 * 121, |c, i| {
        let (a, b) = split(i, 121);
        let (a, b) = (a as i128 - 60, b as i128 - 60);
        i32::lin(c, a, b)?;
        i64::lin(c, a * 1_000_000_007, b * 1_000_000_007)?;
        i128::lin(c, a, b)?;
        isize::lin(c, a, b)?;
        for e in [2f64.powi(-100), 0.25, 1.0, 2f64.powi(100)] {
            f64::lin(c, a as f64 * e, b as f64)?;
            f32::lin(c, a as f64 * e, b as f64)?;
            f64::lin(c, a as f64, b as f64 * e)?;
        }
        let p = LinearBinomial::<Ratio<i64>>::new([Ratio::new(a as i64, 3), Ratio::new(b as i64, 7)]);
        let r = p.root();
        if a != 0 {
            let w = Roots::OneRealRoot(Ratio::new(-3 * b as i64, 7 * a as i64));
            ensure!(r == w, "root of {:?} is reported as {:?}", p, r);
        } else {
            linear(c, &p, a, b, r, true)?;
        }
        // complex coefficients
        let z = Complex::new(a as f64, 1.0);
        let p = LinearBinomial::<Complex<f64>>::new([z, Complex::new(b as f64, -2.0)]);
        match p.root() {
            Roots::OneRealRoot(x) => ensure!((x * z + p.coefficients[1]).norm() < 1e-12 * (1.0 + p.coefficients[1].norm()), "root of {:?} is {:?}", p, x),
            o => return Err(format!("root of {:?} is reported as {:?}", p, o)),
        }
        Ok(())
    });
    let degs = [0usize, 1, 2, 3, 7, 63, 64, 1 << 32, usize::MAX];
    s.add("monomials", "every i8 value and 9 degrees, also u8, f64, i32, rationals", 256 * 9, move |c, i| {
        let (v, d) = split(i, 9);
        let d = degs[d];
        mono_case::<i8>(c, v as u8 as i8, d)?;
        mono_case::<u8>(c, v as u8, d)?;
        mono_case::<f64>(c, v as f64 / 8.0 - 16.0, d)?;
        mono_case::<i32>(c, (v as i32 - 128) << 23, d)?;
        mono_case::<u128>(c, (v as u128) << 120, d)
    });
    s
}
fn main() {
    vharness::engine::main(Prop {
        id: "C12",
        build,
        assumptions: &[
            "coefficient overflow inside the closed form (b^2, 4ac, 2a, -b +- sqrt) is outside the property",
            "for integer coefficients whose roots are not all integers the expected values are the quadratic formula in integer arithmetic: square root rounded down, division truncated",
            "floats: each root to 1e-13 (f64) or 2e-5 (f32) of the larger root; products of factors likewise",
            "which of a conjugate pair comes first is left open; factors are checked for genuine quadratics (a != 0)",
        ],
    });
}
