//! C08: term-by-term updates, as operation sequences.
use rustnomial::{FreeSizePolynomial, LinearBinomial, Monomial, MutablePolynomial, Polynomial, QuadraticTrinomial, SizedPolynomial, SparsePolynomial, Term, TryAddError};
use vharness::coef::*;
use vharness::dom::*;
use vharness::engine::*;
use vharness::ensure;
use vharness::model::*;
use vharness::obs::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Cap {
    Growable,
    UpTo(usize),
    OneTerm,
}
fn coeff_at(m: &M, d: usize) -> i128 {
    m.iter().find(|x| x.0 == d).map_or(0, |x| x.1)
}
/// What the update must do: new model, or the error it must be refused with; `free`: a zero term may be either.
enum Expect {
    Outside,
    Done(M),
    Refused(TryAddError),
    NoChange(TryAddError),
}
fn expect<N: Co>(cap: Cap, m: &M, c: i128, d: usize, sub: bool) -> Expect {
    let refusal = match cap {
        Cap::Growable => {
            if sub && !N::SIGNED && coeff_at(m, d) == 0 {
                Some(TryAddError::CanNotNegate)
            } else {
                None
            }
        }
        Cap::UpTo(k) if d > k => Some(TryAddError::DegreeOutOfBounds),
        Cap::OneTerm if !m.is_empty() && m[0].0 != d => Some(TryAddError::TooManyTerms),
        _ => None,
    };
    match (refusal, c) {
        (Some(e), 0) => Expect::NoChange(e),
        (Some(e), _) => Expect::Refused(e),
        (None, _) => {
            let n = add(m, &norm([(d, if sub { -c } else { c })]));
            if N::fits(coeff_at(&n, d)) {
                Expect::Done(n)
            } else {
                Expect::Outside
            }
        }
    }
}
/// Applies one update to the real object and judges it.
fn apply<N: Ring, P: MutablePolynomial<N> + SizedPolynomial<N> + Iterate<N> + Rep>(ctx: &mut Ctx, cap: Cap, p: &mut P, m: &M, c: i128, d: usize, sub: bool) -> Result<Option<M>, String> {
    let e = expect::<N>(cap, m, c, d, sub);
    if let Expect::Outside = e {
        return Ok(None);
    }
    let name = if sub { "try_sub_term" } else { "try_add_term" };
    ctx.op(|| format!("{:?}.{}({}, {})", p, name, c, d));
    let r = if sub { p.try_sub_term(N::mk(c), d) } else { p.try_add_term(N::mk(c), d) };
    let n = match e {
        Expect::Done(n) => {
            ctx.outcome("updated");
            if r.is_err() {
                return Err(format!("{}({}, {}) on {} was refused with {:?}", name, c, d, show(m), r));
            }
            n
        }
        Expect::Refused(w) => {
            ctx.outcome(match w {
                TryAddError::DegreeOutOfBounds => "refused: degree out of bounds",
                TryAddError::TooManyTerms => "refused: too many terms",
                TryAddError::CanNotNegate => "refused: can not negate",
            });
            if r != Err(w) {
                return Err(format!("{}({}, {}) on {} gives {:?}, not {:?}", name, c, d, show(m), r, w));
            }
            m.clone()
        }
        Expect::NoChange(w) => {
            ctx.outcome("zero term where none fits");
            if r != Ok(()) && r != Err(w) {
                return Err(format!("{}({}, {}) on {} gives {:?}", name, c, d, show(m), r));
            }
            m.clone()
        }
        Expect::Outside => unreachable!(),
    };
    observe::<N, P>(ctx, name, p, &n)?;
    Ok(Some(n))
}

struct Mach<N, P> {
    name: String,
    cap: Cap,
    init: Vec<(P, M)>,
    ops: Vec<(u8, i128, usize)>,
    limit: i128,
    free: Option<fn(&mut P, N, usize)>,
}
impl<N, P> Machine for Mach<N, P>
where
    N: Ring,
    P: MutablePolynomial<N> + SizedPolynomial<N> + Iterate<N> + Rep + Clone + Send + Sync + 'static,
{
    type S = (P, M);
    fn name(&self) -> &str {
        &self.name
    }
    fn bounds(&self) -> String {
        format!("{} initial objects, {} updates enabled in every state (try_add_term, try_sub_term, add_term, set_to_zero), coefficients kept within +-{}; searched until no new state", self.init.len(), self.ops.len(), self.limit)
    }
    fn max_depth(&self) -> usize {
        60
    }
    fn init(&self) -> Vec<Self::S> {
        self.init.clone()
    }
    fn nops(&self) -> usize {
        self.ops.len()
    }
    fn key(&self, s: &Self::S) -> u128 {
        h128(&(s.0.raw(), &s.1))
    }
    fn check(&self, ctx: &mut Ctx, s: &Self::S) -> R {
        observe::<N, P>(ctx, "state", &s.0, &s.1)
    }
    fn step(&self, ctx: &mut Ctx, s: &Self::S, op: usize) -> Result<Option<Self::S>, String> {
        let (kind, c, d) = self.ops[op];
        let mut p = s.0.clone();
        let n = match kind {
            0 | 1 => {
                if let Expect::Done(n) = expect::<N>(self.cap, &s.1, c, d, kind == 1) {
                    if max_abs(&n) > self.limit {
                        return Ok(None);
                    }
                }
                apply::<N, P>(ctx, self.cap, &mut p, &s.1, c, d, kind == 1)?
            }
            2 => {
                let n = add(&s.1, &norm([(d, c)]));
                if max_abs(&n) > self.limit || n.iter().any(|x| !N::fits(x.1)) {
                    return Ok(None);
                }
                ctx.op(|| format!("{:?}.add_term({}, {})", p, c, d));
                match self.free {
                    Some(f) => f(&mut p, N::mk(c), d),
                    None => return Ok(None),
                }
                observe::<N, P>(ctx, "add_term", &p, &n)?;
                Some(n)
            }
            _ => {
                ctx.op(|| format!("{:?}.set_to_zero()", p));
                p.set_to_zero();
                Some(vec![])
            }
        };
        Ok(n.map(|n| (p, n)))
    }
}
fn ops(cs: &[i128], ds: &[usize]) -> Vec<(u8, i128, usize)> {
    let mut o = vec![(3, 0, 0)];
    for k in 0..3 {
        for &c in cs {
            for &d in ds {
                o.push((k, c, d));
            }
        }
    }
    o
}
macro_rules! machines {
    ($s:expr, $th:expr; $($t:ident: $cs:expr),*) => {$({
        type N = $t;
        let cs: &[i128] = &$cs;
        let lim = if <N as Co>::SIGNED { 2 } else { 3 };
        let (dd, sd): (&[usize], &[usize]) = if $th { (&[0, 1, 3, 4, 5], &[0, 1, 3, 4, usize::MAX]) } else { (&[0, 1, 3, 5], &[0, 1, 3, usize::MAX]) };
        let mk = |v: &[i64]| (dense::<N>(v), of_dense(v));
        $s.add_bfs(Mach { name: format!("{} dense updates", N::NAME), cap: Cap::Growable, init: vec![mk(&[]), mk(&[0, 0, 0, 0, 0, 0, 0, 0]), mk(&[0, 0, 1]), mk(&[1, 0])], ops: ops(cs, dd), limit: lim, free: Some(|p: &mut Polynomial<N>, c, d| p.add_term(c, d)) });
        let mk = |v: &[(usize, i64)]| (sparse::<N>(v), of_map(v));
        $s.add_bfs(Mach { name: format!("{} sparse updates", N::NAME), cap: Cap::Growable, init: vec![mk(&[]), mk(&[(0, 0), (3, 0)]), mk(&[(1, 1), (usize::MAX, 0)])], ops: ops(cs, sd), limit: lim, free: Some(|p: &mut SparsePolynomial<N>, c, d| p.add_term(c, d)) });
        let mk = |c: i64, d: usize| (mono::<N>(c, d), norm([(d, c as i128)]));
        $s.add_bfs(Mach { name: format!("{} monomial updates", N::NAME), cap: Cap::OneTerm, init: vec![mk(0, 0), mk(0, 7), mk(1, 3), mk(0, usize::MAX)], ops: ops(cs, &[0, 1, 2, 3, 7, 1 << 32, usize::MAX]), limit: 5, free: None });
        let mk = |v: &[i64]| (bi::<N>(v), of_dense(v));
        $s.add_bfs(Mach { name: format!("{} binomial updates", N::NAME), cap: Cap::UpTo(1), init: vec![mk(&[0, 0]), mk(&[1, 2])], ops: ops(cs, &[0, 1, 2, 3, 1 << 32, usize::MAX]), limit: 5, free: None });
        let mk = |v: &[i64]| (tri::<N>(v), of_dense(v));
        $s.add_bfs(Mach { name: format!("{} trinomial updates", N::NAME), cap: Cap::UpTo(2), init: vec![mk(&[0, 0, 0]), mk(&[1, 0, 2])], ops: ops(cs, &[0, 1, 2, 3, 4, (1 << 32) + 1, usize::MAX]), limit: if $th { 4 } else { 3 }, free: None });
        // single updates of every stored form
        let vs = vecs(4, if <N as Co>::SIGNED { &[0, 1, -2] } else { &[0, 1, 3] });
        let degs: Vec<usize> = (0..=12).chain([30, 64]).collect();
        let coefs: Vec<i128> = cs.iter().cloned().chain([5, 100]).collect();
        let (q, r) = (degs.len(), coefs.len());
        $s.add(concat!(stringify!($t), " single updates"), "every vector of length <=4 with stored zeros, dense and sparse, every degree 0..=12, 30, 64, every coefficient, add and subtract", (vs.len() * q * r) as u64, move |ctx, i| {
            let (v, d, c) = split3(i, q, r);
            let (v, d, c) = (&vs[v], degs[d], coefs[c]);
            let m = of_dense(v);
            for sub in [false, true] {
                apply::<N, _>(ctx, Cap::Growable, &mut dense::<N>(v), &m, c, d, sub)?;
                apply::<N, _>(ctx, Cap::Growable, &mut sparse::<N>(&as_map(v)), &m, c, d, sub)?;
                apply::<N, _>(ctx, Cap::Growable, &mut sparse::<N>(&stripped(v)), &m, c, d, sub)?;
                if v.len() == 2 { apply::<N, _>(ctx, Cap::UpTo(1), &mut bi::<N>(v), &m, c, d, sub)?; }
                if v.len() == 3 { apply::<N, _>(ctx, Cap::UpTo(2), &mut tri::<N>(v), &m, c, d, sub)?; }
            }
            Ok(())
        });
        let pairs: Vec<(i64, usize)> = cs.iter().flat_map(|&c| [0usize, 1, 4].map(move |d| (c as i64, d))).collect();
        let k = pairs.len() as u64;
        let l = if $th { 5u32 } else { 4 };
        let total: u64 = (0..=l).map(|j| k.pow(j)).sum();
        $s.add(concat!(stringify!($t), " term lists"), "every list of up to 4 (thorough 5) terms over the coefficients and degrees {0,1,4}, repeats included: from_terms equals their sum, in both growable representations", total, move |ctx, i| {
            let (mut i, mut len) = (i, 0u32);
            while i >= k.pow(len) { i -= k.pow(len); len += 1; }
            let list: Vec<(i64, usize)> = (0..len).map(|j| pairs[(i / k.pow(j) % k) as usize]).collect();
            let m = norm(list.iter().map(|x| (x.1, x.0 as i128)));
            let t: Vec<(N, usize)> = list.iter().map(|x| (N::mk(x.0 as i128), x.1)).collect();
            ctx.op(|| format!("from_terms({:?})", t));
            observe::<N, _>(ctx, "dense from_terms", &Polynomial::from_terms(&t), &m)?;
            ctx.op(|| "sparse".into());
            observe::<N, _>(ctx, "sparse from_terms", &SparsePolynomial::from_terms(&t), &m)
        });
    })*};
}
fn build(th: bool) -> Suites {
    let mut s = Suites::default();
    machines!(s, th; i32: [0, 1, -1, 2], u8: [0, 1, 2, 3], i8: [0, 1, -1, 2], i64: [0, 1, -1, 2], f64: [0, 1, -1, 2], u32: [0, 1, 2, 3], usize: [0, 1, 2, 3],
        u16: [0, 1, 2, 3], u64: [0, 1, 2, 3], u128: [0, 1, 2, 3], i16: [0, 1, -1, 2], i128: [0, 1, -1, 2], isize: [0, 1, -1, 2], f32: [0, 1, -1, 2]);
    s.add("i8 every coefficient", "every stored i8 coefficient plus and minus every i8 coefficient that fits, every representation, present degree", 65536, |ctx, i| {
        let (a, b) = split(i, 256);
        let (a, b) = (a as i64 - 128, b as i128 - 128);
        for sub in [false, true] {
            apply::<i8, _>(ctx, Cap::Growable, &mut dense::<i8>(&[1, a, 0]), &of_dense(&[1, a, 0]), b, 1, sub)?;
            apply::<i8, _>(ctx, Cap::Growable, &mut sparse::<i8>(&[(9, a)]), &of_map(&[(9, a)]), b, 9, sub)?;
            apply::<i8, _>(ctx, Cap::OneTerm, &mut mono::<i8>(a, 9), &of_map(&[(9, a)]), b, 9, sub)?;
            apply::<i8, _>(ctx, Cap::UpTo(1), &mut bi::<i8>(&[a, 3]), &of_dense(&[a, 3]), b, 1, sub)?;
            apply::<i8, _>(ctx, Cap::UpTo(2), &mut tri::<i8>(&[a, 3, 1]), &of_dense(&[a, 3, 1]), b, 2, sub)?;
        }
        Ok(())
    });
    s.add("u8 every coefficient", "every stored u8 coefficient plus and minus every u8 coefficient that fits, every representation, present or absent degree", 65536, |ctx, i| {
        let (a, b) = split(i, 256);
        let (a, b) = (a as i64, b as i128);
        for sub in [false, true] {
            apply::<u8, _>(ctx, Cap::Growable, &mut dense::<u8>(&[1, a, 0]), &of_dense(&[1, a, 0]), b, 1, sub)?;
            apply::<u8, _>(ctx, Cap::Growable, &mut sparse::<u8>(&[(9, a)]), &of_map(&[(9, a)]), b, 9, sub)?;
            apply::<u8, _>(ctx, Cap::OneTerm, &mut mono::<u8>(a, 9), &of_map(&[(9, a)]), b, 9, sub)?;
            apply::<u8, _>(ctx, Cap::UpTo(1), &mut bi::<u8>(&[a, 3]), &of_dense(&[a, 3]), b, 1, sub)?;
            apply::<u8, _>(ctx, Cap::UpTo(2), &mut tri::<u8>(&[a, 3, 1]), &of_dense(&[a, 3, 1]), b, 2, sub)?;
        }
        Ok(())
    });
    s.add("u16 refusals at the largest degrees", "subtracting from an unsigned dense polynomial at degrees up to 2^64-1 is refused without effect", 8, |ctx, i| {
        let v: &[i64] = [&[][..], &[0], &[3], &[1, 0, 2]][i as usize % 4];
        for d in [1usize << 20, 1 << 40, usize::MAX - 1, usize::MAX] {
            apply::<u16, _>(ctx, Cap::Growable, &mut dense::<u16>(v), &of_dense(v), 1 + i as i128, d, true)?;
        }
        Ok(())
    });
    let lb = pair_blocks(th);
    let ds: Vec<usize> = (0..=40).chain([63, 64, 65, 66, 127, 128, 255, 256, 257, 258, 320, 511, 512, 1023, 1024, 1025, 1026, 1100, 2048, 5000]).collect();
    let n = ds.len();
    s.add("i64 updates of long polynomials", "every vector made of alternating runs of zeros and non-zeros (pairs set, lengths up to 2050): add and subtract a term at degrees 0..=40 and around powers of two up to 5000, dense and sparse, with a fresh coefficient and with the one that cancels", (lb.len() * n) as u64, move |ctx, i| {
        let (a, d) = split(i, n);
        let (v, d) = (&lb[a], ds[d]);
        let m = of_dense(v);
        let have = coeff_at(&m, d);
        for c in [4, have, -have] {
            for sub in [false, true] {
                apply::<i64, _>(ctx, Cap::Growable, &mut dense::<i64>(v), &m, c, d, sub)?;
                apply::<i64, _>(ctx, Cap::Growable, &mut sparse::<i64>(&as_map(v)), &m, c, d, sub)?;
                apply::<i64, _>(ctx, Cap::Growable, &mut sparse::<i64>(&stripped(v)), &m, c, d, sub)?;
            }
        }
        Ok(())
    });
    let ed = edge_degs();
    s.add("i64 edge degrees", "for every degree d around a power of two or ten up to 2^64-1: every map over degrees {0, d-1, d, d+1}, each absent, explicit zero or one of 2 values: add and subtract terms at d-1, d, d+1 and 0, fresh and cancelling; monomials likewise, u64 too", ed.len() as u64, move |c, i| {
        let d = ed[i as usize];
        for v in around(d, &[0, 1, 2]) {
            let m = of_map(&v);
            for e in [0, d.saturating_sub(1), d, d.saturating_add(1)] {
                for k in [1, 2, -1] {
                    for sub in [false, true] {
                        apply::<i64, _>(c, Cap::Growable, &mut sparse::<i64>(&v), &m, k, e, sub)?;
                        if k > 0 {
                            apply::<u64, _>(c, Cap::Growable, &mut sparse::<u64>(&v), &m, k, e, sub)?;
                        }
                        if v.len() == 1 {
                            apply::<i64, _>(c, Cap::OneTerm, &mut mono::<i64>(v[0].1, v[0].0), &m, k, e, sub)?;
                        }
                    }
                }
            }
        }
        Ok(())
    });
    // longer lists over fewer terms
    let pairs = [(1i64, 0usize), (2, 1), (-1, 1), (3, 2), (-3, 5)];
    let k = pairs.len() as u64;
    let l = if th { 8u32 } else { 7 };
    let total: u64 = (0..=l).map(|j| k.pow(j)).sum();
    s.add("i64 longer term lists", "every list of up to 7 (thorough 8) terms over 5 terms of 4 degrees: from_terms, and the same with a zero term at every place, equals their sum", total, move |ctx, i| {
        let (mut i, mut len) = (i, 0u32);
        while i >= k.pow(len) { i -= k.pow(len); len += 1; }
        let list: Vec<(i64, usize)> = (0..len).map(|j| pairs[(i / k.pow(j) % k) as usize]).collect();
        let m = norm(list.iter().map(|x| (x.1, x.0 as i128)));
        ctx.op(|| format!("from_terms({:?})", list));
        chk(ctx, "dense from_terms", &Polynomial::from_terms(&list), &m)?;
        ctx.op(|| "sparse".into());
        chk(ctx, "sparse from_terms", &SparsePolynomial::from_terms(&list), &m)?;
        if len < 6 {
            for at in 0..=list.len() {
                for d in [0, 3, 9] {
                    let mut z = list.clone();
                    z.insert(at, (0, d));
                    ctx.op(|| format!("from_terms({:?})", z));
                    chk(ctx, "dense from_terms", &Polynomial::from_terms(&z), &m)?;
                    ctx.op(|| "sparse".into());
                    chk(ctx, "sparse from_terms", &SparsePolynomial::from_terms(&z), &m)?;
                }
            }
        }
        Ok(())
    });
    // long lists: ascending, descending, interleaved, with blocks of repeats
    let lens: Vec<usize> = (5..=70).chain([100, 127, 128, 129, 255, 256, 257, 500, 512, 1000, 1024, 1025, 5000]).collect();
    s.add("i64 long term lists", "lists of every length 5..=70 and around powers of two up to 5000: ascending, descending, from both ends, with every 1st, 2nd, 3rd or 7th degree repeated, with zero terms", (lens.len() * 64) as u64, move |ctx, i| {
        let (n, f) = split(i, 64);
        let n = lens[n];
        let (order, rep, zeros) = (f % 4, [usize::MAX, 1, 2, 3, 7, 5, 11, 13][f / 4 % 8], f / 32 == 1);
        let mut list: Vec<(i64, usize)> = vec![];
        for j in 0..n {
            let d = match order { 0 => j, 1 => n - 1 - j, 2 => if j % 2 == 0 { j / 2 } else { n - 1 - j / 2 }, _ => j * 3 };
            list.push(((j % 7) as i64 - 8, d));
            if j % rep == 0 {
                list.push(((j % 5) as i64 + 9, d));
            }
            if zeros && j % 4 == 1 {
                list.push((0, d + 2));
            }
        }
        let m = norm(list.iter().map(|x| (x.1, x.0 as i128)));
        ctx.op(|| format!("from_terms({:?})", list));
        chk(ctx, "dense from_terms", &Polynomial::from_terms(&list), &m)?;
        ctx.op(|| "sparse".into());
        chk(ctx, "sparse from_terms", &SparsePolynomial::from_terms(&list), &m)?;
        ctx.op(|| "the same by try_add_term".into());
        let (mut a, mut b) = (Polynomial::<i64>::zero(), SparsePolynomial::<i64>::zero());
        for &(c, d) in &list {
            ensure!(a.try_add_term(c, d).is_ok() && b.try_add_term(c, d).is_ok(), "try_add_term({}, {}) refused", c, d);
        }
        chk(ctx, "dense updates", &a, &m)?;
        chk(ctx, "sparse updates", &b, &m)?;
        ctx.op(|| "undone by try_sub_term".into());
        for &(c, d) in &list {
            ensure!(a.try_sub_term(c, d).is_ok() && b.try_sub_term(c, d).is_ok(), "try_sub_term({}, {}) refused", c, d);
        }
        chk(ctx, "dense undone", &a, &vec![])?;
        chk(ctx, "sparse undone", &b, &vec![])
    });
    s.add("terms", "every i8 coefficient at several degrees as a Term", 256, |ctx, i| {
        let c = i as i64 as u8 as i8;
        for d in [0usize, 1, 2, 1 << 40, usize::MAX] {
            ctx.op(|| format!("Term::new({}, {})", c, d));
            let t = Term::new(c, d);
            ctx.state(&(c, d));
            ensure!(t == if c == 0 { Term::ZeroTerm } else { Term::Term(c, d) }, "Term::new({}, {}) is {:?}", c, d, t);
        }
        Ok(())
    });
    let _: Option<(LinearBinomial<u8>, QuadraticTrinomial<u8>, Monomial<u8>)> = None;
    s.add("i64 every length", "for every length 0..=1300 (thorough 4200) and 35 lengths around round numbers and powers of two up to 32770, eight shapes (all non-zero; only the constant, leading or middle entry; one leading zero; all zero; alternating; leading half zero): add and subtract terms at degrees 0, half, n-1, n, n+1, fresh and cancelling, dense and sparse", every_count(if th { 4200 } else { 1300 }), |ctx, i| {
        let v = every_len(i);
        let m = of_dense(&v);
        let n = v.len();
        for d in [0, n / 2, n.saturating_sub(1), n, n + 1] {
            let have = coeff_at(&m, d);
            for c in [4, have] {
                for sub in [false, true] {
                    apply::<i64, _>(ctx, Cap::Growable, &mut dense::<i64>(&v), &m, c, d, sub)?;
                    apply::<i64, _>(ctx, Cap::Growable, &mut sparse::<i64>(&stripped(&v)), &m, c, d, sub)?;
                }
            }
        }
        Ok(())
    });
    let ed = edge_degs();
    s.add("refusals at edge degrees", "a term at every degree around a power of two or ten up to 2^64-1 added to and subtracted from binomials, trinomials and monomials (i64, u8) and subtracted from dense u16", ed.len() as u64, move |c, i| {
        let d = ed[i as usize];
        for sub in [false, true] {
            for k in [1, 3] {
                for v in [[0, 0, 0], [4, 0, 5], [0, 7, 9]] {
                    let (b, t) = (&v[..2], &v[..]);
                    apply::<i64, _>(c, Cap::UpTo(1), &mut bi::<i64>(b), &of_dense(b), k, d, sub)?;
                    apply::<u8, _>(c, Cap::UpTo(1), &mut bi::<u8>(b), &of_dense(b), k, d, sub)?;
                    apply::<i64, _>(c, Cap::UpTo(2), &mut tri::<i64>(t), &of_dense(t), k, d, sub)?;
                    apply::<u8, _>(c, Cap::UpTo(2), &mut tri::<u8>(t), &of_dense(t), k, d, sub)?;
                    for e in [0, 1, 2, 5, d, d ^ (1 << 63), d ^ (1 << 32), d.wrapping_add(1)] {
                        let m = norm([(e, v[0] as i128)]);
                        apply::<i64, _>(c, Cap::OneTerm, &mut mono::<i64>(v[0], e), &m, k, d, sub)?;
                        apply::<u8, _>(c, Cap::OneTerm, &mut mono::<u8>(v[0], e), &m, k, d, sub)?;
                    }
                    if sub && d > 3 {
                        apply::<u16, _>(c, Cap::Growable, &mut dense::<u16>(t), &of_dense(t), k, d, true)?;
                    }
                }
            }
        }
        Ok(())
    });
    macro_rules! floats {
        ($t:ty, $vals:expr) => {{
            let vals = $vals;
            let k = vals.len();
            let forms: Vec<Vec<$t>> = any_vecs::<$t>(2, &[0.0, 1.0, vals[2], vals[3]]).into_iter().chain(any_vecs(3, &[0.0, vals[1]])).collect();
            s.add(concat!(stringify!($t), " tiny and huge"), "every update by 9 values from the smallest subnormal to 1e300 (1e30 for f32) and their opposites, at degrees 0..=4, of small polynomials with tiny coefficients: exactly the float sum or difference", (forms.len() * k * 5) as u64, move |c, i| {
                let (v, d, k) = split3(i, 5, k);
                let v = &forms[v];
                let at = |e: usize| if e < v.len() { v[v.len() - 1 - e] } else { 0.0 };
                for x in [vals[k], -vals[k]] {
                    for sub in [false, true] {
                        let want: Vec<($t, usize)> = (0..6).rev().map(|e| (if e != d { at(e) } else if sub { at(e) - x } else { at(e) + x }, e)).filter(|t| t.0 != 0.0).collect();
                        c.op(|| format!("{} {} x^{} on {:?}", if sub { "subtract" } else { "add" }, x, d, v));
                        macro_rules! go { ($p:expr, $fits:expr) => {{
                            let mut p = $p;
                            let r = if sub { p.try_sub_term(x, d) } else { p.try_add_term(x, d) };
                            c.state(&p.raw());
                            if $fits {
                                ensure!(r.is_ok() && p.terms_as_vec() == want && p.is_zero() == want.is_empty(), "{} {} x^{} on {:?}: {:?}, {:?}", if sub { "subtract" } else { "add" }, x, d, v, r, p);
                            } else if x != 0.0 {
                                ensure!(r.is_err(), "{} x^{} taken by {:?}", x, d, p);
                            }
                        }}; }
                        go!(Polynomial { terms: v.clone() }, true);
                        go!(SparsePolynomial { terms: v.iter().rev().cloned().enumerate().collect() }, true);
                        if v.len() == 2 {
                            go!(LinearBinomial { coefficients: [v[0], v[1]] }, d < 2);
                        }
                        if v.len() == 3 {
                            go!(QuadraticTrinomial { coefficients: [v[0], v[1], v[2]] }, d < 3);
                        }
                        if v.len() == 1 {
                            go!(Monomial { coefficient: v[0], deg: 0 }, d == 0 || v[0] == 0.0);
                        }
                    }
                }
                Ok(())
            });
        }};
    }
    floats!(f64, TINY64);
    floats!(f32, TINY32);
    macro_rules! all_types {
        ($u:expr; $($t:ty),*) => {$(
            s.add(concat!(stringify!($t), " mid lengths"), "for every length 0..=140 (thorough 700), eight shapes (all non-zero; only the constant, leading or middle entry; one leading zero; all zero; alternating; leading half zero): add and subtract terms at degrees 0, half, n-1, n, n+1, fresh and cancelling, dense and sparse", mid_count(if th { 700 } else { 140 }), |ctx, i| {
                let v = mid_len(i, $u);
                let m = of_dense(&v);
                let n = v.len();
                for d in [0, n / 2, n.saturating_sub(1), n, n + 1] {
                    let have = coeff_at(&m, d);
                    for c in [4, have] {
                        for sub in [false, true] {
                            apply::<$t, _>(ctx, Cap::Growable, &mut dense::<$t>(&v), &m, c, d, sub)?;
                            apply::<$t, _>(ctx, Cap::Growable, &mut sparse::<$t>(&stripped(&v)), &m, c, d, sub)?;
                        }
                    }
                }
                Ok(())
            });
        )*};
    }
    all_types!(false; i8, i16, i32, i128, isize, f32, f64);
    all_types!(true; u8, u16, u32, u64, u128, usize);
    s.add("i64 lifted", &format!("{}: add and subtract a term at the lift, its neighbours, the degree above the highest, 0 and 2^64-1, fresh and cancelling, i64 and u64", LIFTED), lifted_count(), |ctx, i| {
        let (v, u) = (lifted(i, false), lifted(i, true));
        let (m, w) = (of_map(&v), of_map(&u));
        let lift = LIFTS[(i / 4 % 8) as usize];
        let top = v.iter().map(|x| x.0).max().unwrap_or(0);
        for d in [0, lift - 1, lift, lift + 1, lift + 7, top + 1, usize::MAX] {
            for c in [4, coeff_at(&m, d)] {
                for sub in [false, true] {
                    apply::<i64, _>(ctx, Cap::Growable, &mut sparse::<i64>(&v), &m, c, d, sub)?;
                    if c >= 0 && coeff_at(&w, d) != 2 && coeff_at(&w, d) != 1 && coeff_at(&w, d) != 3 {
                        apply::<u64, _>(ctx, Cap::Growable, &mut sparse::<u64>(&u), &w, c.min(if coeff_at(&w, d) > 0 { coeff_at(&w, d) } else { c }), d, sub)?;
                    }
                }
            }
        }
        Ok(())
    });
    s.spare(&["single updates", "mid lengths", "i8 every", "u8 every"]);
    s
}
fn main() {
    vharness::engine::main(Prop {
        id: "C08",
        assumptions: &["coefficient overflow (including unsigned underflow of a present term, or of a fixed-size form) is outside the property", "whether adding a zero term at a degree the form cannot hold succeeds without effect or is refused is left open"],
        build,
    });
}
