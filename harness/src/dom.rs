//! Finite operand domains, enumerated completely.

/// All vectors of length 0..=max over `vals` (shortest first).
pub fn vecs(max: usize, vals: &[i64]) -> Vec<Vec<i64>> {
    let mut all = vec![vec![]];
    let mut last: Vec<Vec<i64>> = vec![vec![]];
    for _ in 0..max {
        let mut nx = vec![];
        for v in &last {
            for &c in vals {
                let mut w = v.clone();
                w.push(c);
                nx.push(w);
            }
        }
        all.extend(nx.iter().cloned());
        last = nx;
    }
    all
}
/// All vectors of exactly length n over `vals`.
pub fn vecs_exact(n: usize, vals: &[i64]) -> Vec<Vec<i64>> {
    vecs(n, vals).into_iter().filter(|v| v.len() == n).collect()
}
/// Every zero/non-zero pattern of length 0..=max; the non-zero at position i is coeffs[i % len] (all different).
pub fn patterns(max: usize, coeffs: &[i64]) -> Vec<Vec<i64>> {
    let mut o = vec![];
    for n in 0..=max {
        for m in 0..1u32 << n {
            o.push((0..n).map(|i| if m >> i & 1 == 1 { coeffs[i % coeffs.len()] } else { 0 }).collect());
        }
    }
    o
}
/// Every vector of length 0..=max with at most two non-zero entries.
pub fn long_two(max: usize, c1: i64, c2: i64) -> Vec<Vec<i64>> {
    let mut o = vec![];
    for n in 0..=max {
        o.push(vec![0; n]);
        for i in 0..n {
            let mut v = vec![0; n];
            v[i] = c1;
            o.push(v.clone());
            for j in i + 1..n {
                let mut w = v.clone();
                w[j] = c2;
                o.push(w);
            }
        }
    }
    o
}
/// Every vector of length 0..=max with at most one non-zero entry, plus all-non-zero ones.
pub fn long_one(max: usize, c: i64) -> Vec<Vec<i64>> {
    let mut o = vec![];
    for n in 0..=max {
        o.push(vec![0; n]);
        for i in 0..n {
            let mut v = vec![0; n];
            v[i] = c + i as i64 % 3;
            o.push(v);
        }
        o.push((0..n).map(|i| 1 + (i as i64 % 3)).collect());
    }
    o
}
/// All sparse maps over the given degrees: each degree absent or with one of `vals` (0 = explicit zero entry).
pub fn maps(degs: &[usize], vals: &[i64]) -> Vec<Vec<(usize, i64)>> {
    let mut all: Vec<Vec<(usize, i64)>> = vec![vec![]];
    for &d in degs {
        let mut nx = vec![];
        for v in &all {
            nx.push(v.clone());
            for &c in vals {
                let mut w = v.clone();
                w.push((d, c));
                nx.push(w);
            }
        }
        all = nx;
    }
    all.sort_by_key(|v| v.len());
    all
}
/// Dense vectors as explicit maps (stored zeros become explicit zero entries).
pub fn as_map(v: &[i64]) -> Vec<(usize, i64)> {
    let n = v.len();
    v.iter().enumerate().map(|(i, &c)| (n - 1 - i, c)).collect()
}
pub fn split(idx: u64, n: usize) -> (usize, usize) {
    ((idx / n as u64) as usize, (idx % n as u64) as usize)
}
pub fn split3(idx: u64, b: usize, c: usize) -> (usize, usize, usize) {
    let k = (idx % c as u64) as usize;
    let r = idx / c as u64;
    ((r / b as u64) as usize, (r % b as u64) as usize, k)
}

/// One vector of every listed length, every coefficient non-zero and varying with the position.
pub fn full(lens: impl IntoIterator<Item = usize>, k: i64) -> Vec<Vec<i64>> {
    lens.into_iter().map(|n| (0..n).map(|i| { let c = (i as i64 * 7 + k) % 11 - 5; if c == 0 { 6 } else { c } }).collect()).collect()
}
/// Lengths 0..=dense_to and lengths around powers of two up to 1025.
pub fn lengths(dense_to: usize) -> Vec<usize> {
    (0..=dense_to).chain([255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025].into_iter().filter(|&x| x > dense_to)).collect()
}

/// The same polynomial with only its non-zero terms stored.
pub fn stripped(v: &[i64]) -> Vec<(usize, i64)> {
    as_map(v).into_iter().filter(|x| x.1 != 0).collect()
}
/// Every vector made of up to `max` alternating runs of zeros and of non-zeros (either first), each
/// run of one of the given lengths; the non-zero coefficients vary with the position.
pub fn blocks(runs: &[usize], max: usize) -> Vec<Vec<i64>> {
    let mut o = vec![vec![]];
    let mut last: Vec<(bool, Vec<i64>)> = vec![(true, vec![]), (false, vec![])];
    for _ in 0..max {
        let mut nx = vec![];
        for (zero, v) in &last {
            for &l in runs {
                let mut w = v.clone();
                for _ in 0..l {
                    let c = (w.len() as i64 * 7 + 1) % 11 - 5;
                    w.push(if *zero { 0 } else if c == 0 { 6 } else { c });
                }
                nx.push((!*zero, w));
            }
        }
        o.extend(nx.iter().map(|x| x.1.clone()));
        last = nx;
    }
    o
}
/// Block vectors around every size a length or a run of zeros is likely to be compared with.
pub fn long_blocks(th: bool) -> Vec<Vec<i64>> {
    let mut o = blocks(if th { &[1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33] } else { &[1, 2, 7, 8, 9, 31, 32, 33] }, 3);
    o.extend(blocks(&[1, 15, 16, 17, 63, 64, 65, 99, 100, 101, 127, 128, 129], 2));
    o.extend(blocks(&[1, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025], 2));
    o.extend(blocks(&[1, 20, 300, 2000], 3));
    o.extend(blocks(&[1, 4096, 4097], 2));
    o
}
/// A smaller set of the same kind, for pairs.
pub fn pair_blocks(th: bool) -> Vec<Vec<i64>> {
    let mut o = blocks(if th { &[1, 2, 7, 8, 16, 33] } else { &[1, 8, 33] }, 3);
    o.extend(blocks(if th { &[1, 20, 64, 129, 256, 513, 1025] } else { &[1, 65, 257, 1025] }, 2));
    o
}

/// Degrees around every power of two and of ten of the 64-bit range.
pub fn edge_degs() -> Vec<usize> {
    let mut o: Vec<usize> = (0..8).collect();
    for k in 3..64 {
        let p = 1usize << k;
        o.extend([p - 1, p, p + 1, p + (p >> 1)]);
    }
    let mut p = 10usize;
    for _ in 0..18 {
        o.extend([p - 1, p, p + 1]);
        p *= 10;
    }
    o.extend([usize::MAX - 2, usize::MAX - 1, usize::MAX]);
    o.sort();
    o.dedup();
    o
}
/// Every map over the degrees {0, d-1, d, d+1}, each absent or with one of `vals`.
pub fn around(d: usize, vals: &[i64]) -> Vec<Vec<(usize, i64)>> {
    let mut ds = vec![0, d.saturating_sub(1), d, d.saturating_add(1)];
    ds.sort();
    ds.dedup();
    maps(&ds, vals)
}
/// Vectors longer than 2^16: all non-zero, all zero, only the ends, only an inner position, zeros first.
pub fn huge(th: bool) -> Vec<Vec<i64>> {
    let mut o = vec![vec![], vec![3, 0, 5]];
    let lens: &[usize] = if th { &[32767, 32768, 32769, 65535, 65536, 65537, 100_001, 131_073, 262_145, 1_048_577] } else { &[65536, 65537] };
    for &n in lens {
        let f: Vec<i64> = (0..n).map(|i| { let c = (i as i64 * 7 + 1) % 11 - 5; if c == 0 { 6 } else { c } }).collect();
        let mut ends = vec![0; n];
        ends[0] = 2;
        ends[n - 1] = -3;
        let mut inner = vec![0; n];
        inner[n - n / 3] = 4;
        inner[n - 2] = 1;
        let mut late = f.clone();
        late[..n / 2].iter_mut().for_each(|c| *c = 0);
        o.extend([f, ends, inner, late]);
    }
    o
}

pub const SHAPES: u64 = 8;
/// Lengths beyond the dense range of `every_len`: round numbers and powers of two, with neighbours.
pub const FAR: [usize; 35] = [
    1499, 1500, 1501, 1999, 2000, 2001, 2047, 2048, 2049, 2050, 2999, 3000, 3001, 4095, 4096, 4097, 4098, 4999, 5000, 5001, 8191, 8192, 8193, 8194, 9999, 10000, 10001, 16383, 16384, 16385, 16386, 32767, 32768, 32769, 32770,
];
/// Vector number `i` of the space "every length, eight shapes": the length is entry i / 8 of FAR
/// followed by 0, 1, 2, ..., and by i % 8: all non-zero; only the constant; only the leading entry;
/// only the middle one; a leading zero and then all non-zero; all zero; alternating; the leading
/// half zero.
pub fn every_len(i: u64) -> Vec<i64> {
    let k = (i / SHAPES) as usize;
    let n = if k < FAR.len() { FAR[k] } else { k - FAR.len() };
    let f = |j: usize| { let c = (j as i64 * 7 + n as i64) % 11 - 5; if c == 0 { 6 } else { c } };
    let keep = |p: &dyn Fn(usize) -> bool| (0..n).map(|j| if p(j) { f(j) } else { 0 }).collect();
    match i % SHAPES {
        0 => keep(&|_| true),
        1 => keep(&|j| j + 1 == n),
        2 => keep(&|j| j == 0),
        3 => keep(&|j| j == n / 2),
        4 => keep(&|j| j > 0),
        5 => keep(&|_| false),
        6 => keep(&|j| j % 2 == 0),
        _ => keep(&|j| j >= n / 2),
    }
}
/// Number of vectors with lengths 0..=max and the far ones.
pub fn every_count(max: usize) -> u64 {
    (FAR.len() as u64 + max as u64 + 1) * SHAPES
}
/// The same without the far lengths; with `unsigned` no coefficient is negative.
pub fn mid_len(i: u64, unsigned: bool) -> Vec<i64> {
    every_len(i + FAR.len() as u64 * SHAPES).into_iter().map(|c| if unsigned { c.abs() } else { c }).collect()
}
pub fn mid_count(max: usize) -> u64 {
    (max as u64 + 1) * SHAPES
}
/// All vectors of length 0..=max over any values.
pub fn any_vecs<T: Copy>(max: usize, vals: &[T]) -> Vec<Vec<T>> {
    let mut all: Vec<Vec<T>> = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..max {
        last = last.iter().flat_map(|v| vals.iter().map(move |&c| { let mut w = v.clone(); w.push(c); w })).collect();
        all.extend(last.iter().cloned());
    }
    all
}
/// Floats that a tolerance could mistake for zero, for one, or for each other.
pub const TINY64: [f64; 9] = [0.0, 5e-324, 1e-300, -1e-16, 1e-9, 1.0, 1.0 + f64::EPSILON, -0.1, 1e300];
pub const TINY32: [f32; 9] = [0.0, 1e-45, 1e-30, -1e-8, 1e-5, 1.0, 1.0 + f32::EPSILON, -0.1, 1e30];

/// Large degrees to which whole polynomials are lifted.
pub const LIFTS: [usize; 8] = [1 << 16, (1 << 31) - 3, (1 << 32) - 5, 1 << 40, (1 << 53) - 7, 1 << 62, usize::MAX / 2 - 10, usize::MAX - 200];
pub const LIFTED: &str = "for every length 0..=24, eight shapes, lifted by each of 8 degrees from 2^16 to 2^64-201 (around 2^31, 2^32, 2^53, 2^63), with and without two low terms, zeros stored and absent";
/// A sparse polynomial with up to 26 terms, most of them of large degrees.
pub fn lifted(i: u64, unsigned: bool) -> Vec<(usize, i64)> {
    let (low, stored, lift) = (i % 2 == 1, i / 2 % 2 == 1, LIFTS[(i / 4 % 8) as usize]);
    let v = mid_len(i / 32, unsigned);
    let mut m: Vec<(usize, i64)> = if low { vec![(0, 4), (3, if unsigned { 5 } else { -5 })] } else { vec![] };
    let n = v.len();
    m.extend(v.iter().enumerate().rev().filter(|x| stored || *x.1 != 0).map(|(j, &c)| (lift + n - 1 - j, c)));
    m
}
/// The steps of the index: the same with the next length, and the next shape.
pub const LIFT_LEN: u64 = 32 * SHAPES;
pub fn lifted_count() -> u64 {
    32 * mid_count(24)
}
