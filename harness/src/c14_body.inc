// Included once per coefficient type N (named TN).
pub fn all_dense(d: &Dom) -> Vec<Polynomial<N>> { d.dense.iter().map(|v| dense(v)).collect() }
pub fn all_sparse(d: &Dom) -> Vec<SparsePolynomial<N>> { d.sparse.iter().map(|v| sparse(v)).collect() }
pub fn all_mono(d: &Dom) -> Vec<Monomial<N>> { d.mono.iter().map(|v| mono(v.0, v.1)).collect() }
pub fn all_bi(d: &Dom) -> Vec<LinearBinomial<N>> { d.bi.iter().map(|v| bi(v)).collect() }
pub fn all_tri(d: &Dom) -> Vec<QuadraticTrinomial<N>> { d.tri.iter().map(|v| tri(v)).collect() }

// one source iterator into one sink
fn helpers<P>(ctx: &mut Ctx, sink: &P, src: &M, it: &[(N, usize)], second: &[M]) -> R
where
    P: MutablePolynomial<N> + SizedPolynomial<N> + Rep + Clone + Sink,
{
    let sm = sink.m()?;
    let tm = rterms(src);
    let tm = if it.len() == tm.len() { tm } else { it.iter().map(|x| (x.0.val().unwrap(), x.1)).collect() };
    each::<P>(ctx, sink, &sm, it, &tm, src, second)
}
fn each<P>(ctx: &mut Ctx, sink: &P, sm: &M, it: &[(N, usize)], tm: &[(i128, usize)], src: &M, second: &[M]) -> R
where
    P: MutablePolynomial<N> + SizedPolynomial<N> + Rep + Clone + Sink,
{
    for sub in [false, true] {
        let want = fold::<N>(P::CAP, sm, tm, sub);
        if let Want::Open = want {
            ctx.skip();
            continue;
        }
        let mut s = sink.clone();
        let name = if sub { "sub_poly" } else { "add_poly" };
        ctx.op(|| format!("{}({:?}, {:?})", name, it, sink));
        let r = if sub { sub_poly(it.iter().cloned(), &mut s) } else { add_poly(it.iter().cloned(), &mut s) };
        judge(ctx, &format!("{}({:?}, {:?})", name, it, sink), r, &s, want)?;
    }
    for b in second {
        let want = product::<N>(P::CAP, sm, src, b);
        if let Want::Open = want {
            ctx.skip();
            continue;
        }
        let l: Vec<(N, usize)> = b.iter().rev().map(|&(d, c)| (<N as Co>::mk(c), d)).collect();
        let mut s = sink.clone();
        ctx.op(|| format!("mul_poly_vec({:?}, {:?}, {:?})", it, l, sink));
        let r = mul_poly_vec(it.iter().cloned(), &l, &mut s);
        judge(ctx, &format!("mul_poly_vec({:?}, {:?}, {:?})", it, l, sink), r, &s, want)?;
    }
    Ok(())
}
fn into_all(ctx: &mut Ctx, d: &Dom, src: &M, it: &[(N, usize)], second: &[M]) -> R {
    for s in all_dense(d) { helpers(ctx, &s, src, it, second)?; }
    for s in all_sparse(d) { helpers(ctx, &s, src, it, second)?; }
    for s in all_mono(d) { helpers(ctx, &s, src, it, second)?; }
    for s in all_bi(d) { helpers(ctx, &s, src, it, second)?; }
    for s in all_tri(d) { helpers(ctx, &s, src, it, second)?; }
    Ok(())
}
pub fn suites(s: &mut Suites, t: bool) {
    let d = Arc::new(domain(t, <N as Co>::SIGNED));
    let second: Vec<M> = vecs(3, &[0, 1, 2]).iter().map(|v| of_dense(v)).filter(|m| m.len() != 1 || m[0].1 == 2).collect();
    let second = Arc::new(second);
    let n = d.dense.len() + d.sparse.len() + d.mono.len() + d.bi.len() + d.tri.len() + d.raw.len();
    let (d1, s1) = (d.clone(), second.clone());
    s.add(&format!("helpers {}", TN), &format!("every source ({} values: dense, sparse, monomial, binomial, trinomial, raw term lists in any order with repeated degrees) into every sink ({} values of 5 types): add_poly, sub_poly, mul_poly_vec with {} second factors", n, n - d.raw.len(), second.len()), n as u64, move |ctx, i| {
        let mut i = i as usize;
        macro_rules! src {
            ($all:ident) => {{
                let v = $all(&d1);
                if i < v.len() {
                    let p = &v[i];
                    let m = p.m()?;
                    return into_all(ctx, &d1, &m, &p.ordered_term_iter().collect::<Vec<_>>(), &s1);
                }
                i -= v.len();
            }};
        }
        src!(all_dense);
        src!(all_sparse);
        src!(all_mono);
        src!(all_bi);
        src!(all_tri);
        let l = &d1.raw[i];
        let it: Vec<(N, usize)> = l.iter().map(|&(c, d)| (<N as Co>::mk(c), d)).collect();
        let src = norm(l.iter().map(|&(c, d)| (d, c)));
        // repeated degrees: products are judged on the list itself only when it has none
        let dup = src.len() != l.len();
        let none: Vec<M> = vec![];
        let sec = if dup { &none } else { &*s1 };
        macro_rules! snk {
            ($($all:ident),*) => {$( for s in $all(&d1) {
                let sm = s.m()?;
                each(ctx, &s, &sm, &it, l, &src, sec)?;
            } )*};
        }
        snk!(all_dense, all_sparse, all_mono, all_bi, all_tri);
        Ok(())
    });
    // macros: every pair of representations, one to three arguments
    macro_rules! pairs {
        ($name:expr; $($a:ident $b:ident;)*) => {
            $({
                let (va, vb) = (Arc::new($a(&d)), Arc::new($b(&d)));
                let n = vb.len();
                s.add(&format!("macros {} {} {}", TN, stringify!($a), stringify!($b)), "every pair of values: poly_add!, poly_sub!, poly_mul! with 1 to 3 arguments, fresh result and into a sink (first operand as sink)", (va.len() * n) as u64, move |ctx, i| {
                    let (i, j) = split(i, n);
                    let (a, b) = (&va[i], &vb[j]);
                    let (ma, mb) = (a.m()?, b.m()?);
                    ctx.op(|| format!("macros on {:?} and {:?}", a, b));
                    let fresh = |ctx: &mut Ctx, what: &str, got: Polynomial<N>, want: &M| chk(ctx, &format!("{} of {:?}, {:?}", what, a, b), &got, want);
                    fresh(ctx, "poly_add!(a)", poly_add!(a), &ma)?;
                    let sum = add(&ma, &mb);
                    if fits::<N>(&sum) {
                        fresh(ctx, "poly_add!(a, b)", poly_add!(a, b), &sum)?;
                    }
                    let sum3 = add(&sum, &ma);
                    if fits::<N>(&sum3) && fits::<N>(&sum) {
                        fresh(ctx, "poly_add!(a, b, a)", poly_add!(a, b, a), &sum3)?;
                    }
                    let dif = sub(&ma, &mb);
                    if fits::<N>(&dif) {
                        fresh(ctx, "poly_sub!(a, b)", poly_sub!(a, b), &dif)?;
                    }
                    let dif3 = sub(&dif, &mb);
                    if fits::<N>(&dif3) && fits::<N>(&dif) {
                        fresh(ctx, "poly_sub!(a, b, b)", poly_sub!(a, b, b), &dif3)?;
                    }
                    let pr = mul(&ma, &mb);
                    fresh(ctx, "poly_mul!(a, b)", poly_mul!(a, b), &pr)?;
                    let pr3 = mul(&pr, &mb);
                    fresh(ctx, "poly_mul!(a, b, b)", poly_mul!(a, b, b), &pr3)?;
                    // into a sink
                    let cap = cap_of(a);
                    let (ta, tb) = (rterms(&ma), rterms(&mb));
                    let _ = ta;
                    let mut bb = tb.clone();
                    bb.extend(tb.clone());
                    {
                        let w = fold::<N>(cap, &ma, &tb, false);
                        if !matches!(w, Want::Open) {
                            let mut s = a.clone();
                            let r = poly_add!(s; b);
                            judge(ctx, &format!("poly_add!({:?}; {:?})", a, b), r, &s, w)?;
                        }
                        let w = fold::<N>(cap, &ma, &bb, false);
                        if !matches!(w, Want::Open) {
                            let mut s = a.clone();
                            let r = poly_add!(s; b, b);
                            judge(ctx, &format!("poly_add!({:?}; {:?} twice)", a, b), r, &s, w)?;
                        }
                        let w = fold::<N>(cap, &ma, &tb, true);
                        if !matches!(w, Want::Open) {
                            let mut s = a.clone();
                            let r = poly_sub!(s; b);
                            judge(ctx, &format!("poly_sub!({:?}; {:?})", a, b), r, &s, w)?;
                        }
                        // after an error the macro goes on with its next argument
                            let go = <N as Co>::SIGNED || matches!(fold::<N>(cap, &ma, &tb, true), Want::Done(_));
                            let w = if go { fold::<N>(cap, &ma, &bb, true) } else { Want::Open };
                        if !matches!(w, Want::Open) {
                            let mut s = a.clone();
                            let r = poly_sub!(s; b, b);
                            judge(ctx, &format!("poly_sub!({:?}; {:?} twice)", a, b), r, &s, w)?;
                        }
                        let mut s = a.clone();
                        let r = poly_mul!(s; b);
                        let w = product::<N>(cap, &vec![], &ma, &mb);
                        let again = matches!(w, Want::Done(_));
                        judge(ctx, &format!("poly_mul!({:?}; {:?})", a, b), r, &s, w)?;
                        if again {
                            let mut s = a.clone();
                            let r = poly_mul!(s; b, b);
                            judge(ctx, &format!("poly_mul!({:?}; {:?} twice)", a, b), r, &s, product::<N>(cap, &vec![], &pr, &mb))?;
                        }
                    }
                    Ok(())
                });
            })*
        };
    }
    pairs! { "x";
        all_dense all_dense; all_dense all_sparse; all_dense all_mono; all_dense all_bi; all_dense all_tri;
        all_sparse all_dense; all_sparse all_sparse; all_sparse all_mono; all_sparse all_bi; all_sparse all_tri;
        all_mono all_dense; all_mono all_sparse; all_mono all_mono; all_mono all_bi; all_mono all_tri;
        all_bi all_dense; all_bi all_sparse; all_bi all_mono; all_bi all_bi; all_bi all_tri;
        all_tri all_dense; all_tri all_sparse; all_tri all_mono; all_tri all_bi; all_tri all_tri;
    }
    chains(s, t);
    // literal macros
    let vals: Vec<i64> = if <N as Co>::SIGNED { vec![-6, -1, 0, 4, 12] } else { vec![0, 1, 4, 6, 12] };
    let lits = Arc::new(vecs(if t { 5 } else { 4 }, &vals));
    s.add(&format!("literal macros {}", TN), &format!("polynomial!, derivative!, integral! with every list of up to {} of the values {:?}", if t { 5 } else { 4 }, vals), lits.len() as u64, move |ctx, i| {
        let v = &lits[i as usize];
        let c: Vec<N> = v.iter().map(|&x| <N as Co>::mk(x as i128)).collect();
        ctx.op(|| format!("literal macros with {:?}", v));
        let (p, d): (Polynomial<N>, Polynomial<N>) = match c[..] {
            [] => (polynomial!(), derivative!()),
            [a] => (polynomial!(a), derivative!(a)),
            [a, b] => (polynomial!(a, b), derivative!(a, b)),
            [a, b, c] => (polynomial!(a, b, c), derivative!(a, b, c)),
            [a, b, c, d] => (polynomial!(a, b, c, d), derivative!(a, b, c, d)),
            [a, b, c, d, e] => (polynomial!(a, b, c, d, e), derivative!(a, b, c, d, e)),
            _ => unreachable!(),
        };
        let m = of_dense(v);
        chk(ctx, &format!("polynomial! of {:?}", v), &p, &m)?;
        chk(ctx, &format!("derivative! of {:?}", v), &d, &deriv(&m))?;
        let w: M = m.iter().map(|&(d, c)| (d, c * 60)).collect();
        if !fits::<N>(&w) {
            return Ok(());
        }
        // multiples of 60, so that every division is exact
        let k = <N as Co>::mk(60);
        let q: Polynomial<N> = match c[..] {
            [] => integral!().inner().clone(),
            [a] => integral!(a * k).inner().clone(),
            [a, b] => integral!(a * k, b * k).inner().clone(),
            [a, b, c] => integral!(a * k, b * k, c * k).inner().clone(),
            [a, b, c, d] => integral!(a * k, b * k, c * k, d * k).inner().clone(),
            [a, b, c, d, e] => integral!(a * k, b * k, c * k, d * k, e * k).inner().clone(),
            _ => unreachable!(),
        };
        chk(ctx, &format!("integral! of 60 * {:?}", v), &q, &integ(&w))
    });
}

/// Five operands of five types at once.
pub fn chains(s: &mut Suites, t: bool) {
    let sg = <N as Co>::SIGNED;
    let pv: Vec<Vec<i64>> = if sg { vec![vec![], vec![2], vec![-1, 0, 1], vec![0, 3, 0]] } else { vec![vec![], vec![2], vec![1, 0, 1], vec![0, 3, 0]] };
    let ps: Vec<Vec<(usize, i64)>> = if sg { vec![vec![], vec![(0, -2)], vec![(1, 1), (0, 0)], vec![(7, 1), (1, -1)]] } else { vec![vec![], vec![(0, 2)], vec![(1, 1), (0, 0)], vec![(7, 1), (1, 1)]] };
    let pt: Vec<Vec<i64>> = if sg { vec![vec![0, 0, 0], vec![0, 0, 1], vec![1, 0, -1], vec![0, 1, 0]] } else { vec![vec![0, 0, 0], vec![0, 0, 1], vec![1, 0, 1], vec![0, 1, 0]] };
    let pb: Vec<Vec<i64>> = if sg { vec![vec![0, 0], vec![0, -1], vec![1, 1], vec![-2, 0]] } else { vec![vec![0, 0], vec![0, 1], vec![1, 1], vec![2, 0]] };
    let pm: Vec<(i64, usize)> = if sg { vec![(0, 3), (-1, 0), (1, 1), (1, 5)] } else { vec![(0, 3), (1, 0), (1, 1), (1, 5)] };
    // sinks: large enough values that unsigned subtraction is sometimes possible
    let dom = domain(false, sg);
    let mut sd: Vec<Vec<i64>> = vec![vec![], vec![5, 9, 9], vec![9, 9, 9, 9, 9, 9, 9, 9, 9], vec![0, 4]];
    let mut st = vec![vec![0, 0, 0], vec![9, 9, 9], vec![0, 9, 0]];
    let mut sb = vec![vec![0, 0], vec![9, 9], vec![0, 9]];
    if t {
        sd.extend(dom.dense.iter().cloned());
        st.extend(dom.tri.iter().cloned());
        sb.extend(dom.bi.iter().cloned());
    }
    let sm: Vec<(i64, usize)> = vec![(0, 0), (9, 0), (9, 1), (9, 5), (0, 7)];
    s.add(&format!("macro chains {}", TN), "every choice of five operands (4 values each of dense, sparse, trinomial, binomial, monomial): poly_add!, poly_sub!, poly_mul! with 4 and 5 arguments, in two argument orders, fresh and into sinks of all five types", 1024, move |ctx, i| {
        let k: Vec<usize> = (0..5).map(|j| (i >> (2 * j) & 3) as usize).collect();
        let (a, b, c, d, e) = (dense::<N>(&pv[k[0]]), sparse::<N>(&ps[k[1]]), tri::<N>(&pt[k[2]]), bi::<N>(&pb[k[3]]), mono::<N>(pm[k[4]].0, pm[k[4]].1));
        let ms = [a.m()?, b.m()?, c.m()?, d.m()?, e.m()?];
        let name = || format!("{:?}", (&a, &b, &c, &d, &e));
        ctx.op(|| format!("macros with five operands {}", name()));
        let rev: Vec<M> = ms.iter().rev().cloned().collect();
        let total = ms.iter().fold(M::new(), |x, y| add(&x, y));
        chk(ctx, "poly_add! of 5", &poly_add!(a, b, c, d, e), &total)?;
        chk(ctx, "poly_add! of 5, reversed", &poly_add!(e, d, c, b, a), &total)?;
        chk(ctx, "poly_add! of 4", &poly_add!(&a, &b, &c, &d), &add(&add(&ms[0], &ms[1]), &add(&ms[2], &ms[3])))?;
        let subs = |v: &[M]| -> Option<M> {
            let mut r = v[0].clone();
            for m in &v[1..] {
                r = sub(&r, m);
                if !fits::<N>(&r) {
                    return None;
                }
            }
            Some(r)
        };
        if let Some(w) = subs(&ms) {
            chk(ctx, "poly_sub! of 5", &poly_sub!(a, b, c, d, e), &w)?;
        }
        if let Some(w) = subs(&rev) {
            chk(ctx, "poly_sub! of 5, reversed", &poly_sub!(e, d, c, b, a), &w)?;
        }
        if let Some(w) = subs(&ms[..4]) {
            chk(ctx, "poly_sub! of 4", &poly_sub!(a, b, c, d), &w)?;
        }
        let prod = ms.iter().fold(vec![(0, 1)], |x: M, y| mul(&x, y));
        if fits::<N>(&prod) {
            chk(ctx, "poly_mul! of 5", &poly_mul!(a, b, c, d, e), &prod)?;
            chk(ctx, "poly_mul! of 5, reversed", &poly_mul!(e, d, c, b, a), &prod)?;
            chk(ctx, "poly_mul! of 4", &poly_mul!(a, b, c, d), &ms[..4].iter().fold(vec![(0, 1)], |x: M, y| mul(&x, y)))?;
        }
        macro_rules! sinks {
            ($it:expr) => {
                for sink in $it {
                    let m = sink.m()?;
                    let cap = cap_of(&sink);
                    let list = |v: &[M]| v.iter().flat_map(|m| rterms(m)).collect::<Vec<_>>();
                    // after an error the macro goes on with its next argument, which may underflow
                    let open = |w: &Want, sub: bool| matches!(w, Want::Open) || sub && !sg && !matches!(w, Want::Done(_));
                    for (r, l) in [(0, &ms), (1, &[rev[0].clone(), rev[1].clone(), rev[2].clone(), rev[3].clone(), rev[4].clone()])] {
                        for n in [4usize, 5] {
                            let w = fold::<N>(cap, &m, &list(&l[..n]), false);
                            if !open(&w, false) {
                                let mut s = sink.clone();
                                let g = match (r, n) {
                                    (0, 4) => poly_add!(s; a, b, c, d),
                                    (0, _) => poly_add!(s; a, b, c, d, e),
                                    (_, 4) => poly_add!(s; e, d, c, b),
                                    _ => poly_add!(s; e, d, c, b, a),
                                };
                                judge(ctx, &format!("poly_add!({:?}; {} of {}, reversed: {})", sink, n, name(), r), g, &s, w)?;
                            }
                            let w = fold::<N>(cap, &m, &list(&l[..n]), true);
                            if !open(&w, true) {
                                let mut s = sink.clone();
                                let g = match (r, n) {
                                    (0, 4) => poly_sub!(s; a, b, c, d),
                                    (0, _) => poly_sub!(s; a, b, c, d, e),
                                    (_, 4) => poly_sub!(s; e, d, c, b),
                                    _ => poly_sub!(s; e, d, c, b, a),
                                };
                                judge(ctx, &format!("poly_sub!({:?}; {} of {}, reversed: {})", sink, n, name(), r), g, &s, w)?;
                            }
                            // products: stage by stage, the first refusal counts
                            let mut w = Want::Done(m.clone());
                            for x in &l[..n] {
                                w = match w {
                                    Want::Done(y) => product::<N>(cap, &vec![], &y, x),
                                    o => o,
                                };
                            }
                            if !open(&w, false) {
                                let mut s = sink.clone();
                                let g = match (r, n) {
                                    (0, 4) => poly_mul!(s; a, b, c, d),
                                    (0, _) => poly_mul!(s; a, b, c, d, e),
                                    (_, 4) => poly_mul!(s; e, d, c, b),
                                    _ => poly_mul!(s; e, d, c, b, a),
                                };
                                judge(ctx, &format!("poly_mul!({:?}; {} of {}, reversed: {})", sink, n, name(), r), g, &s, w)?;
                            }
                        }
                    }
                }
            };
        }
        sinks!(sd.iter().map(|v| dense::<N>(v)));
        sinks!(sd.iter().map(|v| sparse::<N>(&as_map(v))));
        sinks!(st.iter().map(|v| tri::<N>(v)));
        sinks!(sb.iter().map(|v| bi::<N>(v)));
        sinks!(sm.iter().map(|v| mono::<N>(v.0, v.1)));
        Ok(())
    });
}
