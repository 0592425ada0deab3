//! C09: parsing.
use rustnomial::{LinearBinomial, Monomial, Polynomial, PolynomialFromStringError, QuadraticTrinomial, SparsePolynomial, Term, TryAddError};
use std::str::FromStr;
use std::sync::Arc;
use vharness::coef::*;
use vharness::dom::*;
use vharness::engine::*;
use vharness::ensure;
use vharness::model::*;

// ---------------------------------------------------------------- reference grammar
/// One signed term of the text: sign, text of the number if any, x present, text of the degree if any.
#[derive(Clone, Debug, PartialEq)]
struct RawTerm {
    neg: bool,
    num: Option<String>,
    x: bool,
    deg: Option<String>,
}
/// poly := sign? body (sign body)* ;  body := num | num? 'x' ('^' digits)? ;  separators " ,_" are dropped first.
fn grammar(s: &str) -> Option<Vec<RawTerm>> {
    let t: Vec<char> = s.chars().filter(|c| !matches!(c, ' ' | ',' | '_')).collect();
    let (mut i, mut out) = (0, vec![]);
    while i < t.len() {
        let mut r = RawTerm { neg: false, num: None, x: false, deg: None };
        match t[i] {
            '+' => i += 1,
            '-' => {
                r.neg = true;
                i += 1
            }
            _ if out.is_empty() => {}
            _ => return None,
        }
        let k = i;
        while i < t.len() && (t[i].is_ascii_digit() || t[i] == '.') {
            i += 1;
        }
        if i > k {
            r.num = Some(t[k..i].iter().collect());
        }
        if i < t.len() && t[i] == 'x' {
            r.x = true;
            i += 1;
            if i < t.len() && t[i] == '^' {
                i += 1;
                let k = i;
                while i < t.len() && t[i].is_ascii_digit() {
                    i += 1;
                }
                if i == k {
                    return None;
                }
                r.deg = Some(t[k..i].iter().collect());
            }
        }
        if !r.x && r.num.is_none() {
            return None;
        }
        out.push(r);
    }
    if out.is_empty() {
        None
    } else {
        Some(out)
    }
}
/// A leading comma or underscore directly in front of a first sign: left open.
fn leading_separator_then_sign(s: &str) -> bool {
    let b: Vec<char> = s.chars().take_while(|c| matches!(c, ' ' | ',' | '_')).collect();
    b.iter().any(|&c| c != ' ') && matches!(s.chars().nth(b.len()), Some('+' | '-'))
}
/// Decimal digits, exactly; None if there is anything else or it does not fit in i128.
fn digits(s: &str) -> Option<i128> {
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let mut v: i128 = 0;
    for b in s.bytes() {
        v = v.checked_mul(10)?.checked_add((b - b'0') as i128)?;
    }
    Some(v)
}
fn signed_digits(neg: bool, s: &str) -> Option<i128> {
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let mut v: i128 = 0;
    for b in s.bytes() {
        let d = (b - b'0') as i128;
        v = v.checked_mul(10)?.checked_add(if neg { -d } else { d })?;
    }
    Some(v)
}
fn degree(t: &RawTerm) -> Option<usize> {
    match (&t.deg, t.x) {
        (_, false) => Some(0),
        (None, true) => Some(1),
        (Some(d), true) => digits(d).and_then(|v| usize::try_from(v).ok()),
    }
}
enum Want {
    /// Not well-formed, or a number or degree that is not representable.
    Bad,
    /// Outside the property (sums do not fit) or left open.
    Open,
    Terms(Vec<(i128, usize)>),
}
fn interpret<N: Co>(s: &str) -> Want {
    if leading_separator_then_sign(s) {
        return Want::Open;
    }
    let Some(ts) = grammar(s) else { return Want::Bad };
    let mut out = vec![];
    for t in &ts {
        let Some(d) = degree(t) else { return Want::Bad };
        let v = match &t.num {
            None => if t.neg { Some(-1) } else { Some(1) },
            Some(n) => signed_digits(t.neg, n),
        };
        let Some(v) = v else {
            // beyond the model's integers; only u128 reaches there, checked by its own suite
            if N::NAME == "u128" && !t.neg && t.num.as_ref().unwrap().bytes().all(|b| b.is_ascii_digit()) {
                return Want::Open;
            }
            return Want::Bad;
        };
        if t.neg && v == 0 && !N::SIGNED {
            return Want::Open; // "-0" into an unsigned type
        }
        if !N::fits(v) {
            return Want::Bad;
        }
        out.push((v, d));
    }
    let (mut pos, mut neg) = (0i128, 0i128);
    for x in &out {
        if x.0 > 0 {
            pos = match pos.checked_add(x.0) { Some(p) => p, None => return Want::Open };
        } else {
            neg = match neg.checked_add(x.0) { Some(p) => p, None => return Want::Open };
        }
    }
    if !N::fits(pos) || (neg != 0 && !N::fits(neg)) {
        return Want::Open;
    }
    Want::Terms(out)
}

/// How a form of bounded capacity takes the terms, one by one.
#[derive(Clone, Copy)]
enum Cap {
    Growable,
    UpTo(usize),
    OneTerm,
}
fn judge<P: Rep>(ctx: &mut Ctx, what: &str, s: &str, cap: Cap, want: &Want, got: Result<P, PolynomialFromStringError>) -> R {
    match want {
        Want::Open => {
            ctx.skip();
            if let Ok(p) = &got {
                ctx.state(&p.raw());
            }
            Ok(())
        }
        Want::Bad => {
            ctx.outcome("rejected text");
            ensure!(got.is_err(), "{}: {:?} is not well-formed (or not representable) but parses as {:?}", what, s, got);
            Ok(())
        }
        Want::Terms(t) => {
            let sum = norm(t.iter().map(|x| (x.1, x.0)));
            // does every prefix fit, and does the sum?
            let holds = |m: &M| match cap {
                Cap::Growable => true,
                Cap::UpTo(k) => m.iter().all(|x| x.0 <= k),
                Cap::OneTerm => m.len() <= 1,
            };
            let mut acc = M::new();
            let mut prefixes = true;
            for x in t {
                let skipped_zero = x.0 == 0 && matches!(cap, Cap::UpTo(k) if x.1 > k);
                acc = add(&acc, &norm([(x.1, x.0)]));
                prefixes &= holds(&acc) && !skipped_zero && !matches!(cap, Cap::UpTo(k) if x.1 > k);
            }
            if matches!(cap, Cap::OneTerm) && t.iter().any(|x| x.0 == 0) {
                prefixes &= t.len() == 1;
            }
            let error = match cap {
                Cap::UpTo(_) => TryAddError::DegreeOutOfBounds,
                _ => TryAddError::TooManyTerms,
            };
            match got {
                Ok(p) => {
                    ensure!(holds(&sum), "{}: {:?} parses as {:?} although the form cannot hold {}", what, s, p, show(&sum));
                    chk(ctx, &format!("{}: parsing {:?}", what, s), &p, &sum)
                }
                Err(e) => {
                    ctx.outcome("terms the form cannot hold");
                    ensure!(!prefixes, "{}: {:?} is well-formed and holdable but is rejected: {:?}", what, s, e);
                    ensure!(e == PolynomialFromStringError::AddingTerm(error), "{}: {:?} is rejected with {:?}, not as a term that cannot be added ({:?})", what, s, e, error);
                    Ok(())
                }
            }
        }
    }
}
fn small_degrees(w: &Want) -> bool {
    match w {
        Want::Terms(t) => t.iter().all(|x| x.1 < 100_000),
        _ => true,
    }
}
macro_rules! typ {
    ($($t:ident),*) => {$(
        #[allow(dead_code)]
        mod $t {
            use super::*;
            type N = $t;
            /// A text into every representation.
            pub fn all(ctx: &mut Ctx, s: &str) -> R {
                let w = interpret::<N>(s);
                ctx.op(|| format!("parse {:?} as {}", s, N::NAME));
                if !matches!(w, Want::Open) {
                    if small_degrees(&w) && !has_big_degree(s) {
                        judge(ctx, "dense", s, Cap::Growable, &w, Polynomial::<N>::from_str(s))?;
                    }
                    judge(ctx, "sparse", s, Cap::Growable, &w, SparsePolynomial::<N>::from_str(s))?;
                    judge(ctx, "monomial", s, Cap::OneTerm, &w, Monomial::<N>::from_str(s))?;
                    judge(ctx, "binomial", s, Cap::UpTo(1), &w, LinearBinomial::<N>::from_str(s))?;
                    judge(ctx, "trinomial", s, Cap::UpTo(2), &w, QuadraticTrinomial::<N>::from_str(s))?;
                } else {
                    ctx.skip();
                }
                term(ctx, s, &w)
            }
            pub fn one(ctx: &mut Ctx, s: &str) -> R {
                let w = interpret::<N>(s);
                ctx.op(|| format!("parse {:?} as sparse {}", s, N::NAME));
                if matches!(w, Want::Open) { ctx.skip(); return Ok(()); }
                judge(ctx, "sparse", s, Cap::Growable, &w, SparsePolynomial::<N>::from_str(s))
            }
            /// A text as one term.
            pub fn term(ctx: &mut Ctx, s: &str, w: &Want) -> R {
                if matches!(w, Want::Open) { return Ok(()); }
                ctx.op(|| format!("parse {:?} as a term", s));
                let got = Term::<N>::from_str(s);
                match w {
                    Want::Terms(t) if t.len() == 1 => {
                        let (c, d) = t[0];
                        let want = if c == 0 { Term::ZeroTerm } else { Term::Term(N::mk(c), d) };
                        ensure!(got == Ok(want.clone()), "term {:?} parses as {:?}, not {:?}", s, got, want);
                    }
                    _ => ensure!(got.is_err(), "{:?} is not one well-formed term but parses as {:?}", s, got),
                }
                Ok(())
            }
        }
    )*};
}
typ!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);
/// Digit runs long enough to make a dense polynomial exhaust memory if they are taken for a degree.
fn has_big_degree(s: &str) -> bool {
    s.chars().filter(|c| c.is_ascii_digit()).count() > 7
}

macro_rules! float {
    ($name:ident, $t:ty) => {
        mod $name {
            use super::*;
            pub fn all(ctx: &mut Ctx, s: &str) -> R {
                if leading_separator_then_sign(s) {
                    ctx.skip();
                    return Ok(());
                }
                let want: Option<Vec<($t, usize)>> = grammar(s).and_then(|ts| {
                    ts.iter()
                        .map(|t| {
                            let v: $t = match &t.num {
                                None => 1.0,
                                Some(n) => n.parse().ok()?,
                            };
                            Some((if t.neg { -v } else { v }, degree(t)?))
                        })
                        .collect()
                });
                let mut max: std::collections::BTreeMap<usize, (f64, f64)> = Default::default();
                if let Some(ts) = &want {
                    for x in ts {
                        let e = max.entry(x.1).or_insert((0.0, 0.0));
                        e.0 += x.0 as f64;
                        e.1 += (x.0 as f64).abs();
                    }
                }
                let good = |t: Vec<($t, usize)>| {
                    t.iter().all(|x| max.contains_key(&x.1))
                        && max.iter().all(|(d, (w, mag))| {
                            let g = t.iter().find(|x| x.1 == *d).map_or(0.0, |x| x.0 as f64);
                            (g - w).abs() <= 8.0 * <$t>::EPSILON as f64 * mag
                        })
                };
                ctx.op(|| format!("parse {:?} as {}", s, stringify!($t)));
                if !has_big_degree(s) {
                    let p = Polynomial::<$t>::from_str(s);
                    match (&p, &want) {
                        (Ok(p), Some(_)) => {
                            ctx.state(&p.raw());
                            ctx.outcome("parsed");
                            ensure!(good(p.ordered_term_iter().collect()), "dense: {:?} parses as {:?}, not {:?}", s, p, want)
                        }
                        (Err(_), None) => ctx.outcome("rejected text"),
                        _ => return Err(format!("dense: {:?} gives {:?}; the text denotes {:?}", s, p, want)),
                    }
                }
                let p = SparsePolynomial::<$t>::from_str(s);
                match (&p, &want) {
                    (Ok(p), Some(_)) => ensure!(good(p.ordered_term_iter().collect()), "sparse: {:?} parses as {:?}, not {:?}", s, p, want),
                    (Err(_), None) => {}
                    _ => return Err(format!("sparse: {:?} gives {:?}; the text denotes {:?}", s, p, want)),
                }
                let p = QuadraticTrinomial::<$t>::from_str(s);
                match (&p, &want) {
                    (Ok(p), Some(_)) => ensure!(good(p.ordered_term_iter().collect()), "trinomial: {:?} parses as {:?}, not {:?}", s, p, want),
                    (Err(_), None) => {}
                    (Err(PolynomialFromStringError::AddingTerm(TryAddError::DegreeOutOfBounds)), Some(t)) => ensure!(t.iter().any(|x| x.1 > 2), "trinomial: {:?} gives {:?}", s, p),
                    _ => return Err(format!("trinomial: {:?} gives {:?}; the text denotes {:?}", s, p, want)),
                }
                let t = Term::<$t>::from_str(s);
                match (&t, &want) {
                    (Ok(t), Some(w)) if w.len() == 1 => ensure!(*t == Term::new(w[0].0, w[0].1), "term: {:?} parses as {:?}", s, t),
                    (Err(_), w) => ensure!(w.as_ref().is_none_or(|w| w.len() != 1), "term: {:?} is rejected ({:?})", s, t),
                    _ => return Err(format!("term: {:?} parses as {:?}; the text denotes {:?}", s, t, want)),
                }
                Ok(())
            }
        }
    };
}
float!(f64s, f64);
float!(f32s, f32);

fn word(alpha: &[&str], mut i: u64) -> String {
    let k = alpha.len() as u64;
    let mut len = 0;
    while i >= k.pow(len) {
        i -= k.pow(len);
        len += 1;
    }
    (0..len).map(|j| alpha[(i / k.pow(j) % k) as usize]).collect()
}
fn words(alpha: usize, max: u32) -> u64 {
    (0..=max).map(|j| (alpha as u64).pow(j)).sum()
}
fn build(th: bool) -> Suites {
    let mut s = Suites::default();
    const CH: [&str; 12] = ["x", "^", "+", "-", "1", "2", "0", " ", ",", "_", ".", "a"];
    s.add("all texts", "every text of up to 6 (thorough 7) characters over \"x^+-120 ,_.a\", into every representation of i32 and as a term", words(12, if th { 7 } else { 6 }), |c, i| i32::all(c, &word(&CH, i)));
    s.add("all texts f64", "every text of up to 5 (thorough 6) characters over the same alphabet, f64", words(12, if th { 6 } else { 5 }), |c, i| f64s::all(c, &word(&CH, i)));
    s.add("all texts f32", "every text of up to 5 characters over the same alphabet, f32", words(12, 5), |c, i| f32s::all(c, &word(&CH, i)));
    s.add("all texts u8", "every text of up to 5 characters over the same alphabet, u8", words(12, 5), |c, i| u8::all(c, &word(&CH, i)));
    const CORE: [&str; 6] = ["x", "^", "+", "-", "2", " "];
    s.add("core texts", "every text of up to 8 (thorough 9) characters over \"x^+-2 \", i64", words(6, if th { 9 } else { 8 }), |c, i| i64::all(c, &word(&CORE, i)));
    const TOK: [&str; 14] = ["x", "^", "+", "-", "12", "3", "0", " ", "x^2", "x^10", "-x", "1.5", "_", "x^0"];
    let n = if th { 6 } else { 5 };
    s.add("token sequences", "every sequence of up to 5 (thorough 6) of 14 tokens, all representations of i32", words(14, n), |c, i| i32::all(c, &word(&TOK, i)));
    s.add("token sequences f64", "every sequence of up to 5 of 14 tokens, f64", words(14, 5), |c, i| f64s::all(c, &word(&TOK, i)));
    macro_rules! each {
        ($($t:ident),*) => {$(
            s.add(concat!("token sequences ", stringify!($t)), "every sequence of up to 4 of 14 tokens, all representations", words(14, 4), |c, i| $t::all(c, &word(&TOK, i)));
        )*};
    }
    each!(i8, i16, i64, i128, isize, u8, u16, u32, u64, u128, usize);
    // any character at any place of valid texts
    let base = ["", "x", "5", "-x^2+3x-1", "5x^2 + 11x + 2", "x^10", "-1,000_000 x ^ 1 2", "+7 - 7x"];
    let odd: Vec<char> = (0u32..0x250).chain([0x2010, 0x2212, 0x2009, 0x3000, 0xFF58, 0xFF0B, 0x660, 0x1F600, 0xFEFF, 0x10FFFF]).filter_map(char::from_u32).collect();
    let texts: Arc<Vec<String>> = Arc::new(
        base.iter()
            .flat_map(|b| (0..=b.len()).flat_map(|k| odd.iter().map(move |c| format!("{}{}{}", &b[..k], c, &b[k..]))).collect::<Vec<_>>())
            .collect(),
    );
    let t2 = texts.clone();
    s.add("foreign characters", "every character up to U+024F, and ten further ones, inserted at every place of 8 valid texts: i32", texts.len() as u64, move |c, i| i32::all(c, &texts[i as usize]));
    s.add("foreign characters f64", "the same, f64", t2.len() as u64, move |c, i| f64s::all(c, &t2[i as usize]));
    // (the surrogates, which are not characters, are left out)
    s.add("every character", "every Unicode character from U+0080 on alone, before, in, after and between the terms of a text (9 places, blocks of 256 characters): an error in i32 and f64, dense and sparse", 0x1100, |c, i| {
        for ch in (i as u32 * 256..(i as u32 + 1) * 256).filter(|&c| c >= 0x80).filter_map(char::from_u32) {
            for t in [format!("{}", ch), format!("{}x", ch), format!("3{}x^2", ch), format!("x^{}", ch), format!("x^2{}", ch), format!("x{}2", ch), format!("4x^2{}1", ch), format!("4x^2 {} 1", ch), format!("-{}5", ch)] {
                c.op(|| format!("parse {:?}", t));
                ensure!(t.parse::<Polynomial<i32>>().is_err(), "{:?} is read as a dense i32 polynomial", t);
                ensure!(t.parse::<SparsePolynomial<i32>>().is_err(), "{:?} is read as a sparse i32 polynomial", t);
                ensure!(t.parse::<Polynomial<f64>>().is_err(), "{:?} is read as a dense f64 polynomial", t);
                ensure!(t.parse::<rustnomial::Term<i32>>().is_err(), "{:?} is read as a term", t);
            }
        }
        Ok(())
    });
    // deleting, doubling and swapping characters of valid texts
    let long = ["-12x^3 + 45x^2 - 6x + 78", "3x^2-4x+5", " 7 x ^ 2 + x - 1_0", "x^2+x^2-2x^2+9", "1+2+3-x", "100x^5 - 20x^4 + 3x^3 - x^2 + 7x - 9"];
    let mut ed: Vec<String> = vec![];
    for b in long {
        for i in 0..b.len() {
            for j in i..=b.len() {
                ed.push(format!("{}{}", &b[..i], &b[j..]));
                ed.push(b[i..j].to_string());
                ed.push(format!("{}{}{}", &b[..j], &b[i..j], &b[j..]));
            }
        }
    }
    let e2 = ed.clone();
    s.add("edited texts", "every substring, every deletion of a substring and every doubling of a substring of 6 valid texts: i32", ed.len() as u64, move |c, i| i32::all(c, &ed[i as usize]));
    s.add("edited texts f64", "the same, f64", e2.len() as u64, move |c, i| f64s::all(c, &e2[i as usize]));
    // sums of terms in every order
    const TERMS: [&str; 16] = ["x", "-x", "+x", "3", "-3", "+4", "2x", "-5x", "x^2", "-x^2", "7x^2", "x^0", "4x^1", "x^3", "0x^2", "0"];
    let k = TERMS.len() as u64;
    let m = if th { 5 } else { 4 };
    let sum = move |i: u64, join: usize| {
        let (mut i, mut len) = (i, 1u32);
        while i >= k.pow(len) {
            i -= k.pow(len);
            len += 1;
        }
        let mut o = String::new();
        for j in 0..len {
            let t = TERMS[(i / k.pow(j) % k) as usize];
            if j > 0 {
                o += ["", " ", "_"][join];
                if !t.starts_with(['+', '-']) {
                    o += "+";
                    o += ["", " ", ""][join];
                }
            }
            o += t;
        }
        o
    };
    let total: u64 = (1..=m).map(|j| k.pow(j)).sum();
    s.add("sums", "every sum of 1 to 4 (thorough 5) of 16 terms in every order, joined with and without separators, every representation of i32", total * 3, move |c, i| i32::all(c, &sum(i / 3, (i % 3) as usize)));
    macro_rules! eachs {
        ($($t:ident),*) => {$(
            s.add(concat!("sums ", stringify!($t)), "every sum of 1 to 3 of 16 terms in every order", (1..=3).map(|j| k.pow(j)).sum(), move |c, i| $t::all(c, &sum(i, 1)));
        )*};
    }
    eachs!(i8, i16, i64, i128, isize, u8, u16, u32, u64, u128, usize);
    s.add("sums f64", "every sum of 1 to 4 of 16 terms in every order", (1..=4).map(|j| k.pow(j)).sum(), move |c, i| f64s::all(c, &sum(i, 1)));
    // numbers
    s.add("all small numbers", "every integer -70000..=70000 as constant, coefficient and with separators, into the 8/16/32-bit types", 140001, |c, i| {
        let v = i as i64 - 70000;
        for t in [format!("{}", v), format!("{}x", v), format!("{}x^2", v), format!("x^3 {} {}", if v < 0 { '-' } else { '+' }, v.abs())] {
            i8::all(c, &t)?;
            u8::one(c, &t)?;
            i16::one(c, &t)?;
            u16::all(c, &t)?;
            i32::one(c, &t)?;
        }
        Ok(())
    });
    let mut nums: Vec<String> = vec![];
    for b in 0..130u32 {
        let p: num::BigInt = num::BigInt::from(1) << b;
        for d in -2..=2 {
            let v: num::BigInt = &p + num::BigInt::from(d);
            nums.push(v.to_string());
            nums.push((-v).to_string());
        }
    }
    for z in ["0", "00", "0000000000000000000000000000000000000000000001", "999999999999999999999999999999999999999999", "-0", "+0", "-00"] {
        nums.push(z.to_string());
    }
    s.add("limit numbers", "2^k+d for k<130, |d|<=2 and their negatives, as constant, coefficient and degree, into every integer type", nums.len() as u64, move |c, i| {
        let n = &nums[i as usize];
        if n != "-0" && n != "-00" {
            // directly against the standard library's number parser, beyond the model's integers too
            c.op(|| format!("parse {}x^7 as u128", n));
            let (w, g) = (n.parse::<u128>().ok(), SparsePolynomial::<u128>::from_str(&format!("{}x^7", n)).ok());
            let g = g.map(|p| p.terms.get(&7).copied().unwrap_or(0));
            ensure!(w == g, "u128: {}x^7 parses with coefficient {:?}", n, g);
        }
        for t in [n.clone(), format!("{}x", n), format!("{}x^7", n), format!("x^{}", n), format!("2x^{}", n)] {
            i8::one(c, &t)?;
            i16::one(c, &t)?;
            i32::one(c, &t)?;
            i64::one(c, &t)?;
            i128::one(c, &t)?;
            isize::one(c, &t)?;
            u8::one(c, &t)?;
            u16::one(c, &t)?;
            u32::one(c, &t)?;
            u64::one(c, &t)?;
            usize::one(c, &t)?;
            u128::one(c, &t)?;
            let w = interpret::<i32>(&t);
            if !matches!(w, Want::Open) {
                judge(c, "monomial", &t, Cap::OneTerm, &w, Monomial::<i32>::from_str(&t))?;
                judge(c, "binomial", &t, Cap::UpTo(1), &w, LinearBinomial::<i32>::from_str(&t))?;
                judge(c, "trinomial", &t, Cap::UpTo(2), &w, QuadraticTrinomial::<i32>::from_str(&t))?;
                i32::term(c, &t, &w)?;
            }
        }
        Ok(())
    });
    s.add("all degrees", "every degree 0..=3000 with coefficient -7, sparse, dense, monomial, binomial, trinomial", 3001, |c, i| i32::all(c, &format!("-7x^{}", i)));
    s.add("f64 decimals", "every decimal a.b with a<200, b<100 (two digits), with and without x", 20000, |c, i| {
        f64s::all(c, &format!("{}.{:02}", i / 100, i % 100))?;
        f64s::all(c, &format!("-{}.{:02}x^3 + {}.x - .{:02}", i / 100, i % 100, i / 100, i % 100))?;
        f32s::all(c, &format!("-{}.{:02}x^2", i / 100, i % 100))
    });
    // a fragment after a prefix of every length
    let frag = ["", "+x", "-x", "--x", "+-3", "x", "5", "+5", "^2", "^", "+", "-", " ", "_", ",", "x^", "x^2", "x^x", "2x", "+2x^3", "-0", "\u{e9}", "+\u{e9}", "a", ".", "+1.5", "xx", "+x2", "++", "- -1", "+ x ^ 2", "\u{2212}1", "\t", "+\n3", "+3x^2^2", "..", "*x", "=", "+(", "X", "+3x\u{e9}", "+ +", "+x^-1", "+x^+1", "-x^1_0", "\u{1F600}", "+x^99999999999999999999", "+99999999999999999999"];
    let suf = ["", "+x", "-7", " "];
    let (nf, ns) = (frag.len(), suf.len());
    s.add("every length", "a valid prefix of every length 0..=330 (thorough 1100) in 6 styles (short sums, spaces, separators, powers, leading zeros, alternating signs), then each of 48 valid and invalid fragments, then each of 4 endings: all representations of i32, f64", (if th { 1101 } else { 331 }) * 6 * (nf * ns) as u64, move |c, i| {
        let (p, f, e) = split3(i, nf, ns);
        let (len, style) = (p / 6, p % 6);
        let unit = ["+1", " ", "_ ,", "+x^2", "0", "+x-x"][style];
        let k = len / unit.len();
        let mut t = unit.repeat(k);
        while t.len() < len {
            t.push(' ');
        }
        t += frag[f];
        t += suf[e];
        i32::all(c, &t)?;
        if len % 7 == 0 || len < 70 {
            f64s::all(c, &t)?;
        }
        Ok(())
    });
    // words which a number parser or another notation would accept
    let odd = ["inf", "Inf", "INF", "infinity", "Infinity", "nan", "NaN", "NAN", "-inf", "+nan", "-nan", "e5", "E5", "1e2", "1E2", "1e+2", "1e-2", "2e", "e", "E", "0x1", "0X1F", "0b1", "0o7", "1f64", "3i32", "5u8", "**2", "*", "2*x", "x*2", "/2", "1/2", "y", "X^2", "t", "x1", "x2", "x^1.5", "x^2.0", "x^2x", "x^+2", "x^-2", "x^(2)", "(x)", "(3)", "[1]", "$", "x\u{b2}", "\u{bd}", "\u{221e}", "1'000", "1.2.3", "..5", ".", "-.", "+.", ".x", "x.", "5.", ".5", "\r\n", "\u{b}", "\u{a0}", "\u{85}", "\0", "%", "#", "=0", "<", "true", "None", "i", "2i", "\"", "'"];
    let mut ws: Vec<String> = vec![];
    for b in base {
        for k in 0..=b.len() {
            for o in odd {
                for (p, q) in [("", ""), ("+", ""), ("-", ""), ("+", "+"), (" ", " "), ("", "x"), ("", "x^2"), ("", "+1")] {
                    ws.push(format!("{}{}{}{}{}", &b[..k], p, o, q, &b[k..]));
                }
            }
        }
    }
    let w2 = Arc::new(ws);
    macro_rules! eachw {
        ($($t:ident),*) => {$({
            let w = w2.clone();
            s.add(concat!("foreign words ", stringify!($t)), "each of 74 words that other notations or number parsers accept (inf, NaN, 1e2, 0x1, x^1.5, ...), with and without signs or x around it, at every place of 8 valid texts", w.len() as u64, move |c, i| $t::all(c, &w[i as usize]));
        })*};
    }
    eachw!(f64s, f32s, i32, u8, i64, u64, i128);
    // sums of every number of terms
    let tail = ["", "+x^1", "-", "+", "x", "+a", "-3x^2", "+5", " ", "+ x^9 ", "--1", "+\u{e9}", "5", "x^2", "+3.5", "+99999999999"];
    s.add("many terms", "sums of every number of terms 0..=1400 (thorough 4200), and 35 numbers around round ones and powers of two up to 32770, in 4 styles (the same term, growing degrees, falling degrees, separated constants), then each of 16 (quick, beyond 330 terms: 5) valid and invalid endings; quick: beyond 5001 only the first and last style: all representations of i32, f64", every_count(if th { 4200 } else { 1400 }) / SHAPES * 4 * 16, move |c, i| {
        let (n, k, e) = split3(i, 4, 16);
        let n = if n < FAR.len() { FAR[n] } else { n - FAR.len() };
        if n > 5001 && (k == 1 || k == 2) && !th || n > 330 && e >= 5 && !th {
            return Ok(());
        }
        let mut t = String::new();
        for j in 0..n {
            match k {
                0 => t += "+x",
                1 => t += &format!("-{}x^{}", j % 7, j),
                2 => t += &format!("{}{}x^{}", if j == 0 { "" } else { " + " }, j % 5 + 1, n - j),
                _ => t += &format!(" {} {},{:02}_0", if j % 3 == 1 { '-' } else { '+' }, j % 4 + 1, j % 10),
            }
        }
        t += tail[e];
        i32::all(c, &t)?;
        if n % 16 < 2 {
            f64s::all(c, &t)?;
        }
        Ok(())
    });
    s
}
fn main() {
    vharness::engine::main(Prop {
        id: "C09",
        assumptions: &[
            "the numeric value of a float literal is what str::parse says",
            "sums that overflow the coefficient type are outside the property",
            "left open: a comma or underscore in front of the first sign; \"-0\" into an unsigned type; a zero-coefficient term of a degree the form cannot hold; a sum that fits although a prefix of it does not; which error variant malformed text gets",
            "dense polynomials of degree >= 100000 are not built (memory)",
        ],
        build,
    });
}
