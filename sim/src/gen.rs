//! Generators: schedules, requests, polynomials with known factorisation, algebraic numbers.

use crate::field::{self, fields, M};
use crate::oracle::{self, Q};
use algsim_rt::plan::Plan;
use algsim_rt::rt::{Mode, Rng};
use algsim_rt::streams::BIASES;
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Signed, Zero};

pub fn schedule(r: &mut Rng, p: &mut Plan) {
    p.sched_seed = r.next() >> 1;
    p.spurious = r.chance(1, 4);
    p.mode = match r.us(23) {
        0 | 1 => Mode::Serial,
        2..=7 => Mode::Gap(*r.pick(&[4, 12, 40, 120, 400, 1500, 8000, 60000])),
        8..=14 => Mode::Rare { visits: *r.pick(&[1, 1, 2, 3, 6, 20]), den: *r.pick(&[1, 2, 3, 6, 15]) },
        15..=17 => Mode::Turns { victim: r.us(2), mean: *r.pick(&[6, 40, 250, 1500, 9000, 60_000]) },
        _ => Mode::Pct { changes: 1 + r.below(4) as u32, len: *r.pick(&[300, 3000, 20_000, 150_000, 1_500_000]) },
    };
}

/// the random streams behind the library's own generator: the real one, fair, or adversarial
pub fn internal_streams(r: &mut Rng, p: &mut Plan, n: usize) {
    for _ in 0..n {
        p.irng.push(match r.us(6) {
            0 | 1 => "real".into(),
            2 => format!("fair:{}", r.next() >> 40),
            _ => stream(r, 400),
        });
    }
}
pub fn stream(r: &mut Rng, max: u64) -> String {
    let n = match r.us(4) {
        0 => 1 + r.below(4),
        1 => 1 + r.below(40.min(max)),
        _ => 1 + r.below(max),
    };
    format!("{}:{}:{}", r.pick(&BIASES), n, r.next() >> 40)
}

/// requested precisions, clustered around `pivot` so that requests meet in the same state
pub fn precision(r: &mut Rng, pivot: usize) -> usize {
    match r.us(12) {
        0..=1 => r.us(40),
        2 => r.us(140),
        3 => (64 * (1 + r.us(16)) + r.us(5)).saturating_sub(2),
        4 => {
            // around powers of 2^(1/3)
            let k = 15 + r.us(18);
            (2f64.powf(k as f64 / 3.0) as usize + r.us(4)).saturating_sub(3)
        }
        5 => log_uniform(r, 1200),
        6 => pivot,
        7 => pivot + r.us(3),
        8 => pivot.saturating_sub(r.us(3)),
        9 => pivot * 5 / 4 + r.us(20),
        10 => pivot / 2 + r.us(9),
        _ => (pivot as i64 + r.range(-40, 40)).max(0) as usize,
    }
}
pub fn log_uniform(r: &mut Rng, max: u64) -> usize {
    let b = 64 - max.leading_zeros() as u64;
    let k = r.below(b + 1);
    (r.below(1 << k)).min(max) as usize
}
pub fn big(r: &mut Rng, bits: usize) -> BigInt {
    let mut x = BigInt::zero();
    for _ in 0..bits / 64 + 1 {
        x = (x << 64) + r.next();
    }
    x >> (64 * (bits / 64 + 1) - bits)
}

/// arguments of the logarithm: lo hi d, positive
pub fn log_arg(r: &mut Rng, pivot: usize) -> String {
    // the cost grows fast with the precision: mostly cheap ones
    let top = match r.us(40) {
        0 if r.chance(1, 8) => 1000,
        0 | 1 => 300,
        2..=7 => 120,
        8..=20 => 56,
        _ => 30,
    };
    let d = match precision(r, pivot) {
        d if d > top => r.us(top + 1),
        d => d,
    };
    let one = BigInt::one() << d;
    let mut lo = match r.us(9) {
        8 => {
            // a large power of two times something: the shift multiplies the error of ln 2
            if r.chance(1, 10) {
                // (with other digits the library takes long)
                let k = log_uniform(r, 300_000);
                let lo = (&one << k) + r.range(0, 3);
                return format!("{lo} {lo} {d}");
            }
            let k = log_uniform(r, 5000);
            (&one << k) + big(r, d + k)
        }
        0 => BigInt::one(),
        1 => one.clone(),
        2 => &one << r.us(12),
        3 => (&one >> r.us(12)).max(BigInt::one()),
        4 => (&one * 3) >> 1,
        5 => {
            let b = 1 + r.us(d + 20);
            big(r, b)
        }
        6 => &one + r.range(-3, 3),
        _ => &one * r.range(1, 1000) + big(r, d),
    };
    if r.chance(1, 5) {
        lo += r.range(-2, 2);
    }
    if !lo.is_positive() {
        lo = BigInt::one();
    }
    let hi = widen(r, &lo, d);
    format!("{lo} {hi} {d}")
}
fn widen(r: &mut Rng, lo: &BigInt, d: usize) -> BigInt {
    match r.us(5) {
        0 | 1 => lo.clone(),
        2 => lo + r.range(1, 5),
        3 => {
            let b = r.us(d + 3);
            lo + big(r, b)
        }
        _ => lo + (BigInt::one() << d) * r.range(0, 9),
    }
}
/// arguments of the exponential
pub fn exp_arg(r: &mut Rng, pivot: usize) -> String {
    let d = precision(r, pivot).min(if r.chance(1, 10) { 3000 } else { 300 });
    let one = BigInt::one() << d;
    let lo = match r.us(9) {
        0 => BigInt::zero(),
        1 => one.clone(),
        2 => -&one,
        3 => BigInt::from(r.range(-4, 4)),
        4 => {
            let b = 1 + r.us(d + 4);
            big(r, b)
        }
        5 => {
            let b = 1 + r.us(d + 7);
            -big(r, b)
        }
        6 => {
            // near a multiple of ln 2
            let (a, _) = oracle::ln2(d);
            a * r.range(-30, 30) + r.range(-2, 2)
        }
        7 => &one * r.range(-200, 60),
        _ => big(r, d) - big(r, d),
    };
    let hi = match r.us(4) {
        3 => &lo + &one * r.range(0, 4),
        _ => widen(r, &lo, d.min(6)),
    };
    // keep the result at a sensible size
    let lim = &one * 300;
    let hi = if hi > lim { lo.clone() } else { hi };
    if r.chance(1, 14) {
        // large arguments: the reduction multiplies every error
        let top = match r.us(60) {
            0 if d < 40 => 10_000,
            0..=9 => 2500,
            _ => 500,
        };
        let lo = &one * r.range(1, top) + big(r, d);
        let hi = if r.chance(2, 3) { lo.clone() } else { &lo + r.range(0, 3) };
        return format!("{lo} {hi} {d}");
    }
    if r.chance(1, 14) {
        // far below zero, sometimes up to the middle
        let lo = -(&one * (1 + log_uniform(r, 200_000))) + r.range(-2, 2);
        let hi = match r.us(3) {
            0 => BigInt::from(r.range(-2, 2)).max(lo.clone()),
            1 => &lo + &one * r.us(40),
            _ => lo.clone(),
        };
        return format!("{lo} {hi} {d}");
    }
    format!("{lo} {hi} {d}")
}

// ---------------------------------------------------------------- polynomials

pub fn ptext(v: &[BigInt]) -> String {
    if v.is_empty() {
        return "0".into();
    }
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
fn imul(a: &[BigInt], b: &[BigInt]) -> Vec<BigInt> {
    let mut r = vec![BigInt::zero(); a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            r[i + j] += x * y;
        }
    }
    r
}
fn ivec(v: &[i64]) -> Vec<BigInt> {
    v.iter().map(|x| BigInt::from(*x)).collect()
}
fn prim(v: &[BigInt]) -> Vec<BigInt> {
    oracle::primitive(&oracle::q(v))
}
fn cyclotomic(n: usize) -> Vec<BigInt> {
    let mut p = vec![Q::zero(); n + 1];
    p[0] = -Q::one();
    p[n] = Q::one();
    for d in (1..n).filter(|d| n % d == 0) {
        p = oracle::pdivrem(&p, &oracle::q(&cyclotomic(d))).0;
    }
    oracle::primitive(&p)
}
fn shift(p: &[BigInt], c: i64) -> Vec<BigInt> {
    let mut r: Vec<BigInt> = vec![];
    for x in p.iter().rev() {
        // r = r * (X + c) + x
        let mut n = vec![BigInt::zero(); r.len() + 1];
        for (i, y) in r.iter().enumerate() {
            n[i + 1] += y;
            n[i] += y * c;
        }
        if n.is_empty() {
            n.push(BigInt::zero());
        }
        n[0] += x;
        r = n;
    }
    while r.last().map_or(false, |x| x.is_zero()) {
        r.pop();
    }
    r
}
pub fn irreducible(r: &mut Rng, maxdeg: usize) -> Vec<BigInt> {
    loop {
        let p = match r.us(10) {
            0 | 1 => {
                let bits = if r.chance(1, 6) { 30 + r.us(60) } else { 5 };
                let a: BigInt = big(r, bits) + 1;
                let b = if r.chance(1, 15) { edge(r) } else { big(r, bits) - big(r, bits) };
                if !a.gcd(&b).is_one() {
                    continue;
                }
                vec![b, a]
            }
            2 | 3 | 4 => {
                let pr = *r.pick(&[2i64, 3, 5, 7, 11, 13, 101]);
                let n = 2 + r.us(maxdeg.max(2) - 1);
                let bits = if r.chance(1, 8) { 40 + r.us(80) } else { 3 };
                let mut v: Vec<BigInt> = (0..=n).map(|_| (big(r, bits) - big(r, bits)) * pr).collect();
                let unit = |r: &mut Rng| loop {
                    let x = r.range(-9, 9);
                    if x % pr != 0 {
                        return BigInt::from(x);
                    }
                };
                v[0] = unit(r) * pr;
                v[n] = unit(r);
                let mut v = prim(&v);
                if r.chance(1, 3) {
                    v = shift(&v, r.range(-3, 3));
                }
                if r.chance(1, 3) && !v[0].is_zero() {
                    v.reverse();
                }
                prim(&v)
            }
            5 => cyclotomic(3 + r.us(28)),
            6 => {
                // sqrt(a) + sqrt(b)
                let (a, b) = *r.pick(&[(2i64, 3i64), (2, 5), (3, 5), (2, 7), (5, 7), (3, 7), (6, 5), (-1, 2), (-1, 3), (-2, 3)]);
                ivec(&[(a - b) * (a - b), 0, -2 * (a + b), 0, 1])
            }
            7 => {
                let n = 2 + r.us(maxdeg.max(2) - 1);
                let mut v = vec![BigInt::zero(); n + 1];
                v[n] = BigInt::one();
                v[1] -= 1;
                v[0] -= 1;
                v
            }
            8 => {
                if maxdeg < 8 || !r.chance(1, 4) {
                    continue;
                }
                ivec(&[576, 0, -960, 0, 352, 0, -40, 0, 1])
            }
            _ => {
                let n = 2 + r.us(maxdeg.max(2) - 1);
                let v: Vec<BigInt> = (0..=n).map(|_| BigInt::from(r.range(-12, 12))).collect();
                if v[n].is_zero() || v[0].is_zero() {
                    continue;
                }
                let v = prim(&v);
                if !oracle::certified_irreducible(&v) {
                    continue;
                }
                v
            }
        };
        if p.len() - 1 <= maxdeg.max(1) {
            return p;
        }
    }
}
/// (coefficients, canonical factorisation)
pub fn factorable(r: &mut Rng, maxdeg: usize) -> (Vec<BigInt>, String) {
    let c = match r.us(10) {
        0..=4 => BigInt::one(),
        5 | 6 => -BigInt::one(),
        7 => BigInt::from(r.range(-60, 60)),
        8 if r.chance(1, 3) => edge(r),
        8 => BigInt::from(*r.pick(&[2i64, -4, 6, 30, -210, 1 << 40])),
        _ => big(r, 90) - big(r, 90),
    };
    if r.chance(1, 60) {
        return (vec![], "0 ".into());
    }
    let c = if c.is_zero() { BigInt::one() } else { c };
    if r.chance(1, 40) {
        return (vec![c.clone()], format!("{c} "));
    }
    let mut left = 1 + r.us(maxdeg);
    let mut fs: Vec<(Vec<BigInt>, usize)> = vec![];
    while left > 0 && fs.len() < 6 {
        let d = 1 + r.us(left);
        let p = irreducible(r, d);
        let n = p.len() - 1;
        let mut k = 1;
        while r.chance(1, 5) && n * (k + 1) <= left {
            k += 1;
        }
        left -= (n * k).min(left);
        match fs.iter_mut().find(|x| x.0 == p) {
            Some(x) => x.1 += k,
            None => fs.push((p, k)),
        }
        // conjugate-like neighbours of an existing factor are the hard cases
        if r.chance(1, 4) && left >= n {
            let mut q: Vec<BigInt> = fs.last().unwrap().0.clone();
            for (i, x) in q.iter_mut().enumerate() {
                if i % 2 == 1 {
                    *x = -&*x;
                }
            }
            let q = prim(&q);
            if !fs.iter().any(|x| x.0 == q) {
                left -= n;
                fs.push((q, 1));
            }
        }
    }
    let mut p = vec![c.clone()];
    for (f, k) in &fs {
        for _ in 0..*k {
            p = imul(&p, f);
        }
    }
    let mut v: Vec<String> = fs.iter().map(|(f, k)| format!("({})^{}", ptext(f), k)).collect();
    v.sort();
    (p, format!("{} {}", c, v.join(" ")))
}
/// more factors, higher multiplicities or a higher degree than usual
pub fn long(r: &mut Rng) -> (Vec<BigInt>, String) {
    let mut fs: Vec<(Vec<BigInt>, usize)> = vec![];
    let add = |fs: &mut Vec<(Vec<BigInt>, usize)>, p: Vec<BigInt>, k: usize| match fs.iter_mut().find(|x| x.0 == p) {
        Some(x) => x.1 += k,
        None => fs.push((p, k)),
    };
    match r.us(4) {
        0 | 1 => {
            // a few dozen linear factors
            let n = 20 + log_uniform(r, 26);
            let first = r.range(-(n as i64), 3);
            let lead = r.chance(1, 4);
            for i in 0..n {
                let a = if lead && r.chance(1, 8) { r.range(1, 3) } else { 1 };
                add(&mut fs, prim(&[BigInt::from(first + i as i64), BigInt::from(a)]), 1);
            }
            if r.chance(1, 3) {
                add(&mut fs, irreducible(r, 3), 1);
            }
        }
        2 => {
            // a high power of X
            add(&mut fs, vec![BigInt::zero(), BigInt::one()], 32 + r.us(300));
            for _ in 0..1 + r.us(2) {
                add(&mut fs, irreducible(r, 4), 1);
            }
        }
        _ => {
            // X^n - 1 or X^n + 1, from cyclotomic polynomials
            let n = 20 + log_uniform(r, 44);
            let minus = r.chance(1, 2);
            let mut cyc: Vec<(usize, Vec<BigInt>)> = vec![];
            for d in (1..=2 * n).filter(|d| 2 * n % d == 0) {
                let mut p = vec![BigInt::zero(); d + 1];
                p[d] = BigInt::one();
                p[0] = -BigInt::one();
                for (_, q) in cyc.iter().filter(|x| d % x.0 == 0) {
                    // exact division by a monic polynomial
                    let m = q.len() - 1;
                    let mut out = vec![BigInt::zero(); p.len() - m];
                    for i in (0..out.len()).rev() {
                        let c = p[i + m].clone();
                        for (j, x) in q.iter().enumerate() {
                            p[i + j] -= &c * x;
                        }
                        out[i] = c;
                    }
                    p = out;
                }
                cyc.push((d, p));
            }
            for (d, p) in cyc {
                if (n % d == 0) == minus {
                    add(&mut fs, p, 1);
                }
            }
        }
    }
    let c = BigInt::from(*r.pick(&[1i64, 1, 1, -1, 6]));
    let mut p = vec![c.clone()];
    for (f, k) in &fs {
        if f.len() == 2 && f[0].is_zero() {
            let mut v = vec![BigInt::zero(); *k];
            v.extend(p);
            p = v;
        } else {
            for _ in 0..*k {
                p = imul(&p, f);
            }
        }
    }
    let mut v: Vec<String> = fs.iter().map(|(f, k)| format!("({})^{}", ptext(f), k)).collect();
    v.sort();
    (p, format!("{} {}", c, v.join(" ")))
}
/// families that are hard in a particular way; to be judged by the oracle's own factoring
pub fn family(r: &mut Rng, maxdeg: usize) -> Vec<BigInt> {
    const PR: [i64; 24] = [3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97];
    let lin = |a: BigInt, b: BigInt| vec![b, a];
    let mut p = vec![BigInt::one()];
    match r.us(9) {
        7 => {
            // multiplicities far beyond the degree of the factors
            for _ in 0..1 + r.us(2) {
                let q = lin(BigInt::from(r.range(1, 3)), BigInt::from(r.range(-3, 3)));
                for _ in 0..1 + log_uniform(r, 31) {
                    p = imul(&p, &q);
                }
            }
        }
        8 => {
            // factors with huge coefficients
            for _ in 0..1 + r.us(3) {
                let bits = 64 + log_uniform(r, 1000);
                let a = if r.chance(1, 2) { BigInt::one() } else { big(r, bits) + 1 };
                let b = big(r, bits) - big(r, bits);
                p = imul(&p, &prim(&lin(a, b)));
            }
        }
        0 => {
            // roots that coincide modulo the first primes
            let k = 1 + r.us(PR.len());
            let m: BigInt = PR[..k].iter().map(|x| BigInt::from(*x)).product();
            let a = BigInt::from(r.range(-9, 9));
            p = imul(&p, &lin(BigInt::one(), a.clone()));
            for _ in 0..1 + r.us(2) {
                let b = &a + &m * *r.pick(&[-3i64, -1, 1, 2]);
                p = imul(&p, &lin(BigInt::one(), b));
            }
            if maxdeg > 4 {
                p = imul(&p, &irreducible(r, maxdeg - 3));
            }
        }
        1 => {
            // leading coefficients divisible by the first primes
            let k = 1 + r.us(PR.len());
            let mut parts = vec![BigInt::one(); 2 + r.us(2)];
            for x in &PR[..k] {
                let i = r.us(parts.len());
                parts[i] *= *x;
            }
            for a in parts {
                let b: BigInt = (BigInt::from(r.range(-60, 60)) << 1) + 1;
                p = imul(&p, &prim(&lin(a, b)));
            }
            if maxdeg > 4 && r.chance(1, 2) {
                p = imul(&p, &irreducible(r, maxdeg - 3));
            }
        }
        2 => {
            // many linear factors
            for _ in 0..maxdeg.min(11) {
                p = imul(&p, &lin(BigInt::from(r.range(1, 3)), BigInt::from(r.range(-12, 12))));
            }
        }
        3 => {
            // high powers, with gaps between them
            let mut left = maxdeg;
            for _ in 0..1 + r.us(3) {
                let d = 1 + r.us(2);
                let q = irreducible(r, d);
                let n = q.len() - 1;
                let k = (1 + r.us(7)).min(left / n);
                for _ in 0..k {
                    p = imul(&p, &q);
                }
                left -= n * k;
            }
        }
        4 => {
            // X^n - c^n, X^n + c^n
            let n = 2 + r.us(maxdeg.max(3) - 1);
            let c = BigInt::from(*r.pick(&[1i64, 1, 1, -1, 2, -2, 3]));
            p = vec![BigInt::zero(); n + 1];
            p[n] = BigInt::from(*r.pick(&[1i64, 1, 1, 4, 9, 16, -1]));
            p[0] = num_traits::Pow::pow(c, n) * if r.chance(1, 2) { 1 } else { -1 };
        }
        5 => {
            // a power of X, and a polynomial in X^k
            let k = 2 + r.us(2);
            let q = irreducible(r, (maxdeg / k).max(1));
            p = vec![BigInt::zero(); (q.len() - 1) * k + 1];
            for (i, c) in q.into_iter().enumerate() {
                p[i * k] = c;
            }
            for _ in 0..r.us(4) {
                p.insert(0, BigInt::zero());
            }
        }
        _ => {
            // two factors that differ in one coefficient only
            let q = irreducible(r, (maxdeg / 2).max(1));
            let mut s = q.clone();
            let i = r.us(s.len());
            s[i] += *r.pick(&[-2i64, -1, 1, 2]);
            if s.last().map_or(true, |x| x.is_zero()) {
                s = q.clone();
            }
            p = imul(&q, &s);
        }
    }
    if r.chance(1, 4) {
        let c = BigInt::from(*r.pick(&[-1i64, 2, -6, 210]));
        for x in &mut p {
            *x = &*x * &c;
        }
    }
    p
}
/// changes one number of a request, to get requests that are easily confused
pub fn mutate(r: &mut Rng, op: &str) -> String {
    let mut tok: Vec<String> = vec![String::new()];
    for c in op.chars() {
        let num = c.is_ascii_digit() || c == '-';
        let last = tok.last_mut().unwrap();
        let was = last.chars().next().map_or(false, |x| x.is_ascii_digit() || x == '-');
        if last.is_empty() || num == was {
            last.push(c);
        } else {
            tok.push(c.to_string());
        }
    }
    let nums: Vec<usize> = (1..tok.len())
        .filter(|i| tok[*i].parse::<BigInt>().is_ok() && !tok[*i - 1].ends_with(|c: char| c.is_ascii_alphabetic()))
        .collect();
    if nums.is_empty() {
        return op.into();
    }
    match r.us(4) {
        0 if nums.len() > 1 => {
            let (i, j) = (*r.pick(&nums), *r.pick(&nums));
            tok.swap(i, j);
        }
        1 => {
            let i = *r.pick(&nums);
            let x: BigInt = tok[i].parse().unwrap();
            tok[i] = (-x).to_string();
        }
        _ => {
            let i = *r.pick(&nums);
            let x: BigInt = tok[i].parse().unwrap();
            tok[i] = (x + *r.pick(&[-2i64, -1, 1, 2])).to_string();
        }
    }
    tok.concat()
}
/// small coefficients, a factor with much larger ones: (X^k - 1) times a slowly varying polynomial
/// a value to be shared; see exec/src/ops.rs for the syntax
pub fn object(r: &mut Rng, kind: &str) -> String {
    let m = match kind {
        "M" => *r.pick(&[2i64, 3, 7, 101, 32749, 2147483647]),
        "Z" => *r.pick(&[2i64, 3, 7, 101, 1_000_000_007, i64::MAX - 24]),
        "B" => *r.pick(&[2i64, 4, 12, 101, 1 << 40, i64::MAX]),
        _ => 0,
    };
    object_mod(r, kind, m)
}
fn object_mod(r: &mut Rng, kind: &str, m: i64) -> String {
    let below = |r: &mut Rng, m: i64| (r.next() % m as u64) as i64;
    match kind {
        "P" => match r.us(4) {
            0 => ptext(&factorable(r, 6).0),
            1 => ptext(&family(r, 6)),
            2 if r.chance(1, 8) => "0".into(),
            _ => ptext(&dense(r, 6)),
        },
        "Q" => {
            let p = if r.chance(1, 3) { factorable(r, 6).0 } else { dense(r, 5) };
            if p.is_empty() {
                return "0/1".into();
            }
            p.iter().map(|c| format!("{c}/{}", r.pick(&[1, 1, 1, 2, 3, 12]))).collect::<Vec<_>>().join(",")
        }
        "M" => {
            let n = r.us(6);
            let mut v: Vec<String> = (0..n).map(|_| below(r, m).to_string()).collect();
            v.push((1 + below(r, m - 1)).to_string());
            format!("{m}:{}", v.join(","))
        }
        "I" => {
            let b = *r.pick(&[4usize, 10, 10, 40, 90]);
            let lo = if r.chance(1, 12) { edge(r) } else { big(r, b) } - if r.chance(1, 2) { BigInt::zero() } else { big(r, b) };
            let hi = match r.us(3) {
                0 => lo.clone(),
                1 => &lo + 1,
                _ => &lo + big(r, b / 2),
            };
            format!("{lo}:{hi}:{}", log_uniform(r, 40))
        }
        "Z" => format!("{}:{m}", below(r, m)),
        _ => format!("{}:{m}", below(r, m)),
    }
}
fn modulus_of(kind: &str, v: &str) -> i64 {
    let (a, b) = v.split_once(':').unwrap_or(("0", "0"));
    if kind == "M" { a } else { b }.parse().unwrap_or(0)
}
/// another value that fits together with the given one
pub fn object_like(r: &mut Rng, kind: &str, v: &str) -> String {
    object_mod(r, kind, modulus_of(kind, v))
}
/// the same residues for another modulus
pub fn other_modulus(r: &mut Rng, kind: &str, v: &str) -> String {
    let m = modulus_of(kind, v);
    let (a, b) = v.split_once(':').unwrap();
    let c: Vec<i64> = if kind == "M" { b } else { a }.split(',').filter_map(|x| x.parse().ok()).collect();
    let n = *r.pick(&[2i64, 3, 5, 7, 11, 103, 32719, 1_000_000_007]);
    if n == m || *c.last().unwrap() % n == 0 {
        return v.into();
    }
    let c: Vec<String> = c.iter().map(|x| (x % n).to_string()).collect();
    if kind == "M" { format!("{n}:{}", c.join(",")) } else { format!("{}:{n}", c[0]) }
}
/// the value with one number changed
pub fn mutate_value(r: &mut Rng, kind: &str, v: &str) -> String {
    match kind {
        "M" | "Z" | "B" => object_like(r, kind, v),
        "I" => {
            let w = mutate(r, &format!("x {v}"));
            let w = w[2..].to_string();
            let n: Vec<BigInt> = w.split(':').filter_map(|x| x.parse().ok()).collect();
            if n.len() == 3 && n[0] <= n[1] && n[2] >= BigInt::zero() && n[2] <= BigInt::from(200) { w } else { v.into() }
        }
        "Q" => {
            let w = mutate(r, &format!("x {v}"))[2..].to_string();
            let ok = w.split(',').all(|x| x.split_once('/').map_or(false, |x| x.1.parse::<BigInt>().map_or(false, |d| d > BigInt::zero())));
            if ok { w } else { v.into() }
        }
        _ => mutate(r, &format!("x {v}"))[2..].to_string(),
    }
}
pub fn util_int(r: &mut Rng) -> BigInt {
    let b = *r.pick(&[3usize, 8, 16, 31, 40, 62, 100]);
    let x = big(r, b);
    let x = if r.chance(1, 4) { BigInt::one() << b } else { x } + BigInt::from(r.range(-1, 1));
    if r.chance(1, 5) { -x } else { x }
}

/// a polynomial with smaller coefficients than its factors
pub fn flat(r: &mut Rng, maxdeg: usize) -> Vec<BigInt> {
    fn mul(a: &[i64], b: &[i64]) -> Vec<i64> {
        let mut v = vec![0; a.len() + b.len() - 1];
        for (i, x) in a.iter().enumerate() {
            for (j, y) in b.iter().enumerate() {
                v[i + j] += x * y;
            }
        }
        v
    }
    fn norm(a: &[i64]) -> i64 {
        a.iter().map(|x| x.abs()).max().unwrap_or(0)
    }
    let score = |g: &[i64], h: &[i64]| {
        let f = mul(g, h);
        let sum: i64 = f.iter().map(|x| x.abs()).sum();
        1_000_000 * norm(g).min(norm(h)) / norm(&f).max(1) - 10_000 * sum / f.len() as i64
    };
    let top = maxdeg.max(8);
    let n = 3 + r.us(top - 5);
    let m = (3 + r.us(top - 5)).min(top - n).max(2);
    let random = |r: &mut Rng, n: usize| {
        let mut v: Vec<i64> = (0..n).map(|_| r.range(-3, 3)).collect();
        v[0] = 1;
        v.push(1);
        v
    };
    let (mut g, mut h) = (random(r, n), random(r, m));
    let mut s = score(&g, &h);
    for _ in 0..300 + r.us(900) {
        let (mut a, mut b) = (g.clone(), h.clone());
        let t = if r.chance(1, 2) { &mut a } else { &mut b };
        let i = r.us(t.len() - 1);
        t[i] += *r.pick(&[-1i64, 1]);
        if t[0] == 0 {
            continue;
        }
        let z = score(&a, &b);
        if z >= s || r.chance(1, 50) {
            (g, h, s) = (a, b, z);
        }
    }
    mul(&g, &h).into_iter().map(BigInt::from).collect()
}
pub fn smooth(r: &mut Rng, maxdeg: usize) -> Vec<BigInt> {
    if r.chance(1, 2) {
        return flat(r, maxdeg);
    }
    let k = *r.pick(&[1usize, 1, 1, 2, 3, 4]);
    let n = maxdeg.max(6) - k;
    let amp = *r.pick(&[6.0f64, 30.0, 200.0, 1e4, 1e9]);
    let width = 0.2 + r.us(10) as f64 / 10.0;
    let noise = *r.pick(&[0i64, 1, 2, 5]);
    let mut g: Vec<BigInt> = (0..=n)
        .map(|i| {
            let x = (i as f64 - n as f64 / 2.0) / (n as f64 / 2.0) / width;
            BigInt::from((amp / (1.0 + x * x)) as i64 + r.range(-noise, noise))
        })
        .collect();
    g[0] = BigInt::from(r.range(1, 5));
    g[n] = BigInt::from(r.range(1, 3));
    if r.chance(1, 2) {
        // rises ever faster, then falls ever faster
        g = vec![BigInt::one()];
        let mut d = 1;
        let top = r.range(1, 3);
        for i in 0..n {
            d += if i < n / 2 { r.range(0, top) } else { -r.range(0, top) };
            let v = &g[i] + d;
            g.push(v.max(BigInt::one()));
        }
    }
    let mut h = vec![BigInt::zero(); k + 1];
    h[0] = -BigInt::one();
    h[k] = BigInt::one();
    let mut p = imul(&g, &h);
    if r.chance(1, 6) {
        for x in &mut p {
            *x = -&*x;
        }
    }
    p
}
pub fn dense(r: &mut Rng, maxdeg: usize) -> Vec<BigInt> {
    let n = 1 + r.us(maxdeg);
    let m = *r.pick(&[1i64, 2, 5, 100]);
    let mut v: Vec<BigInt> = (0..=n).map(|_| BigInt::from(r.range(-m, m))).collect();
    if r.chance(1, 10) {
        for _ in 0..1 + r.us(3) {
            let i = r.us(n + 1);
            v[i] = edge(r);
        }
    }
    if v[n].is_zero() {
        v[n] = BigInt::one();
    }
    v
}
/// at the end of the range of a machine integer
pub fn edge(r: &mut Rng) -> BigInt {
    let x = (BigInt::one() << *r.pick(&[7usize, 8, 15, 16, 31, 31, 32, 53, 63, 63, 64, 127, 128])) + r.range(-1, 1);
    if r.chance(1, 2) { -x } else { x }
}

/// two fractions as close to each other as their denominators allow
pub fn neighbours(r: &mut Rng) -> (Q, Q) {
    let top = *r.pick(&[20, 50, 70]);
    let bits = 2 + r.us(top);
    let (mut a, mut b) = ((BigInt::zero(), BigInt::one()), (BigInt::one(), BigInt::one()));
    while a.1.bits().max(b.1.bits()) as usize <= bits {
        let k = BigInt::from(1 + log_uniform(r, 40));
        let m = (&a.0 * &k + &b.0, &a.1 * &k + &b.1);
        let n = if k.is_one() { a.clone() } else { (&m.0 - &a.0, &m.1 - &a.1) };
        // (m and n are neighbours, and so are m and a)
        (a, b) = match r.us(3) {
            0 => (m, n),
            1 => (m, a),
            _ => (a, m),
        };
    }
    let at = Q::from(match r.us(4) {
        0 => edge(r),
        1 => BigInt::from(r.range(-9, 9)),
        _ => BigInt::zero(),
    });
    let (x, y) = (Q::new(a.0, a.1) + &at, Q::new(b.0, b.1) + &at);
    if r.chance(1, 4) {
        (-x, -y)
    } else {
        (x, y)
    }
}

// ---------------------------------------------------------------- algebraic numbers

pub fn small_rat(r: &mut Rng) -> Q {
    let n = match r.us(5) {
        0 => r.range(-2, 2),
        1..=3 => r.range(-9, 9),
        _ => r.range(-400, 400),
    };
    let d = *r.pick(&[1i64, 1, 1, 2, 2, 3, 4, 5, 8, 12]);
    Q::new(n.into(), d.into())
}
/// a rational number that does not fit in a machine word or only just, often next to a perfect
/// power or a power of two
pub fn large_rat(r: &mut Rng) -> Q {
    let part = |r: &mut Rng| -> BigInt {
        let b = 2 + r.us(70);
        let near = BigInt::from(r.range(-1, 1));
        match r.us(7) {
            5 | 6 => {
                // few bits set
                let mut x = BigInt::from(*r.pick(&[1i64, 1, 3, 5, 7])) << r.us(200);
                if r.chance(1, 2) {
                    x += BigInt::one() << r.us(130);
                }
                x
            }
            0 | 1 => {
                let q = 2 + r.us(3);
                let b = 2 + r.us(140 / q);
                num_traits::Pow::pow(&big(r, b), q as u32) + near
            }
            2 => (BigInt::one() << *r.pick(&[31usize, 32, 52, 53, 63, 64, 65, 96, 127, 128])) + near,
            3 => big(r, b) * big(r, b),
            _ => big(r, b),
        }
    };
    let n = part(r);
    let d = if r.chance(1, 3) { part(r) } else { BigInt::one() };
    let n = if r.chance(1, 4) { -n } else { n };
    if d.is_zero() {
        return Q::from(n);
    }
    if r.chance(1, 4) && !n.is_zero() {
        return Q::new(d, n);
    }
    Q::new(n, d)
}
/// an element of the field, of degree at most maxdeg
pub fn element(r: &mut Rng, field: usize, emb: usize, maxdeg: usize) -> M {
    let f = &fields()[field];
    let n = f.f.len() - 1;
    for _ in 0..20 {
        let mut v = vec![Q::zero(); n];
        match r.us(7) {
            0 | 1 if !f.special.is_empty() => {
                let s = r.pick(&f.special).clone();
                let c = if r.chance(1, 2) { Q::one() } else { small_rat(r) };
                for (i, x) in s.iter().enumerate() {
                    v[i] += x * &c;
                }
                if r.chance(1, 2) {
                    v[0] += small_rat(r);
                }
            }
            2 | 3 => {
                v[1.min(n - 1)] = Q::one();
                if r.chance(1, 2) {
                    v[0] += small_rat(r);
                }
            }
            4 => {
                let k = r.us(n);
                v[k] = small_rat(r);
                v[0] += small_rat(r);
            }
            5 => {
                for _ in 0..2 {
                    let k = r.us(n);
                    v[k] += BigInt::from(r.range(-3, 3));
                }
            }
            _ => v[0] = small_rat(r),
        }
        let m = M::new(field, emb, v);
        if m.min_poly().len() - 1 <= maxdeg {
            return m;
        }
    }
    M::rat(small_rat(r))
}
/// the operation that creates the element
pub fn source(r: &mut Rng, m: &M, plain: bool) -> String {
    if let Some(x) = m.to_rat() {
        if r.chance(1, 3) {
            // a rational given by an interval that is not a point
            let (lo, hi, d) = m.isolate(r, plain);
            return format!("root {} {} {} {} | {}", ptext(&m.min_poly()), lo, hi, d, m.text());
        }
        if x.is_integer() {
            return format!("int {} {}", x.numer(), r.us(16));
        }
        return format!("rat {}/{} {}", x.numer(), x.denom(), r.us(14));
    }
    let (lo, hi, d) = m.isolate(r, plain);
    format!("root {} {} {} {} | {}", ptext(&m.min_poly()), lo, hi, d, m.text())
}
pub fn pick_field(r: &mut Rng) -> (usize, usize) {
    let f = *r.pick(&[0usize, 0, 1, 1, 2, 2, 2, 3, 3, 4, 4, 4, 5, 6, 6, 7, 8, 9, 10, 11, 11, 12, 13]);
    (f, r.us(field::fields()[f].roots.len()))
}
