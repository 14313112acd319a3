//! Reference computations that share no code with the library under test (only the bignum
//! crate): fixed-point logarithm and exponential with error bounds, rational polynomials,
//! Sturm counting, irreducibility certificates.

use num_bigint::BigInt;
use num_integer::Integer;
use num_rational::Ratio;
use num_traits::{One, Signed, ToPrimitive, Zero};

pub type Q = Ratio<BigInt>;

/// atanh(1/n) * 2^w, error below (number of terms) units
fn atanh_inv(n: u32, w: usize) -> BigInt {
    let n2 = BigInt::from(n) * n;
    let mut t = (BigInt::one() << w) / n;
    let mut s = BigInt::zero();
    let mut k = 1u32;
    while !t.is_zero() {
        s += &t / k;
        t /= &n2;
        k += 2;
    }
    s
}

thread_local! {
    static LN2: std::cell::RefCell<Option<(usize, BigInt)>> = const { std::cell::RefCell::new(None) };
}
/// bounds (lo, hi) of ln(2) * 2^bits, a few units apart
pub fn ln2(bits: usize) -> (BigInt, BigInt) {
    LN2.with(|c| {
        let mut c = c.borrow_mut();
        if c.as_ref().map_or(true, |x| x.0 < bits + 64) {
            let w = (bits + 64).max(4096);
            let v = atanh_inv(26, w) * 18 - atanh_inv(4801, w) * 2 + atanh_inv(8749, w) * 8;
            *c = Some((w, v));
        }
        let (w, v) = c.as_ref().unwrap();
        // |error| < 2^32 units of 2^-w
        let s = *w - bits;
        let e = BigInt::one() << 32;
        ((v - &e) >> s, ((v + &e) >> s) + 1)
    })
}
pub fn warm_ln2(bits: usize) {
    ln2(bits);
}

fn fixed(x: &Q, w: usize) -> BigInt {
    (x.numer() << w).div_floor(x.denom())
}

/// bounds of exp(x) * 2^bits
pub fn exp(x: &Q, bits: usize) -> (BigInt, BigInt) {
    let xi = x.ceil().to_integer();
    // e^x < 2^m
    let m = if xi.is_positive() { xi.to_usize().expect("oracle: argument too big") * 2 } else { 0 };
    if xi.is_negative() && -&xi > BigInt::from(bits + 64) {
        return (BigInt::zero(), BigInt::one());
    }
    let k = xi.bits() as usize + 8;
    let w = bits + m + 2 * k + 96;
    let r = fixed(x, w) >> k; // |r| < 2^-8 + rounding
    let one = BigInt::one() << w;
    let mut t = one.clone();
    let mut s = one;
    let mut i = 1u32;
    loop {
        t = (t * &r) >> w;
        t = t.div_floor(&BigInt::from(i));
        if t.is_zero() || t == BigInt::from(-1) {
            break;
        }
        s += &t;
        i += 1;
    }
    for _ in 0..k {
        s = (&s * &s) >> w;
    }
    // relative error: below 2^k * (a few hundred) * 2^-w; absolute after scaling far below 2^-bits-16
    let sh = w - bits;
    let e = BigInt::one() << (sh - 16);
    let lo = (&s - &e) >> sh;
    let hi = ((s + e) >> sh) + 1;
    (if lo.is_negative() { BigInt::zero() } else { lo }, hi)
}

/// bounds of ln(x) * 2^bits
pub fn ln(x: &Q, bits: usize) -> (BigInt, BigInt) {
    assert!(x.is_positive());
    let e = x.numer().bits() as i64 - x.denom().bits() as i64;
    let w = bits + 96 + (64 - e.unsigned_abs().leading_zeros() as usize);
    let two_e = |e: i64| -> Q {
        if e >= 0 {
            Q::from(BigInt::one() << e as usize)
        } else {
            Q::new(BigInt::one(), BigInt::one() << (-e) as usize)
        }
    };
    let m = x / two_e(e); // in (1/2, 2)
    let z = (&m - Q::one()) / (&m + Q::one()); // |z| <= 1/3
    let zf = fixed(&z, w);
    let z2 = (&zf * &zf) >> w;
    let mut t = zf;
    let mut s = BigInt::zero();
    let mut k = 1u32;
    loop {
        let d = t.div_floor(&BigInt::from(k));
        if d.is_zero() || d == BigInt::from(-1) {
            break;
        }
        s += d;
        t = (t * &z2) >> w;
        k += 2;
    }
    s *= 2;
    let (l0, l1) = ln2(w);
    let (a, b) = if e >= 0 { (l0 * e, l1 * e) } else { (l1 * e, l0 * e) };
    let err = BigInt::one() << (w - bits - 16);
    (((&s + a) - &err) >> (w - bits), ((s + b + err) >> (w - bits)) + 1)
}

#[derive(PartialEq, Debug, Clone, Copy)]
pub enum Tri {
    Yes,
    No,
    Unknown,
}
/// is n / 2^d <= f (below) respectively n / 2^d >= f (above)?
pub fn bound_ok(n: &BigInt, d: usize, below: bool, f: &dyn Fn(usize) -> (BigInt, BigInt)) -> Tri {
    let mut extra = 40;
    for _ in 0..4 {
        let (lo, hi) = f(d + extra);
        let s = n << extra;
        if below {
            if s <= lo {
                return Tri::Yes;
            }
            if s > hi {
                return Tri::No;
            }
        } else {
            if s >= hi {
                return Tri::Yes;
            }
            if s < lo {
                return Tri::No;
            }
        }
        extra *= 3;
    }
    Tri::Unknown
}

// ------------------------------------------------------------- rational polynomials

pub fn trim(v: &mut Vec<Q>) {
    while v.last().map_or(false, |x| x.is_zero()) {
        v.pop();
    }
}
pub fn q(v: &[BigInt]) -> Vec<Q> {
    v.iter().map(|x| Q::from(x.clone())).collect()
}
pub fn padd(a: &[Q], b: &[Q]) -> Vec<Q> {
    let mut r: Vec<Q> = (0..a.len().max(b.len()))
        .map(|i| a.get(i).cloned().unwrap_or_else(Q::zero) + b.get(i).cloned().unwrap_or_else(Q::zero))
        .collect();
    trim(&mut r);
    r
}
pub fn pmul(a: &[Q], b: &[Q]) -> Vec<Q> {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut r = vec![Q::zero(); a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            r[i + j] += x * y;
        }
    }
    trim(&mut r);
    r
}
pub fn pdivrem(a: &[Q], b: &[Q]) -> (Vec<Q>, Vec<Q>) {
    let mut r = a.to_vec();
    trim(&mut r);
    let lb = b.last().unwrap();
    let mut quo = vec![Q::zero(); (r.len() + 1).saturating_sub(b.len())];
    while r.len() >= b.len() {
        let c = r.last().unwrap() / lb;
        let s = r.len() - b.len();
        for (i, y) in b.iter().enumerate() {
            r[s + i] -= &c * y;
        }
        quo[s] = c;
        r.pop();
        trim(&mut r);
    }
    trim(&mut quo);
    (quo, r)
}
pub fn pderiv(a: &[Q]) -> Vec<Q> {
    let mut r: Vec<Q> = a.iter().enumerate().skip(1).map(|(i, x)| x * BigInt::from(i)).collect();
    trim(&mut r);
    r
}
pub fn pgcd(a: &[Q], b: &[Q]) -> Vec<Q> {
    let (mut a, mut b) = (a.to_vec(), b.to_vec());
    trim(&mut a);
    trim(&mut b);
    while !b.is_empty() {
        let r = pdivrem(&a, &b).1;
        // keep the numbers small
        let r = q(&primitive(&r));
        a = b;
        b = r;
    }
    a
}
pub fn peval(a: &[Q], x: &Q) -> Q {
    let mut r = Q::zero();
    for c in a.iter().rev() {
        r = r * x + c;
    }
    r
}
/// integer polynomial with content 1 and positive leading coefficient, same roots
pub fn primitive(a: &[Q]) -> Vec<BigInt> {
    let mut v = a.to_vec();
    trim(&mut v);
    if v.is_empty() {
        return vec![];
    }
    let mut l = BigInt::one();
    for x in &v {
        l = l.lcm(x.denom());
    }
    let mut n: Vec<BigInt> = v.iter().map(|x| x.numer() * (&l / x.denom())).collect();
    let mut g = BigInt::zero();
    for x in &n {
        g = g.gcd(x);
    }
    if n.last().unwrap().is_negative() {
        g = -g;
    }
    for x in &mut n {
        *x = &*x / &g;
    }
    n
}
pub fn squarefree_part(a: &[Q]) -> Vec<Q> {
    let g = pgcd(a, &pderiv(a));
    pdivrem(a, &g).0
}
fn sturm(a: &[BigInt]) -> Vec<Vec<Q>> {
    let p = q(a);
    let mut s = vec![p.clone(), pderiv(&p)];
    loop {
        let n = s.len();
        if s[n - 1].is_empty() {
            s.pop();
            return s;
        }
        let r = pdivrem(&s[n - 2], &s[n - 1]).1;
        if r.is_empty() {
            return s;
        }
        // negate, scale by a positive number
        let prim = primitive(&r);
        let same = prim.last().unwrap().is_positive() == r.last().unwrap().is_positive();
        s.push(prim.into_iter().map(|x| Q::from(if same { -x } else { x })).collect());
    }
}
fn variations(s: &[Vec<Q>], x: &Q) -> usize {
    let mut last = 0;
    let mut n = 0;
    for p in s {
        let v = peval(p, x);
        let g = if v.is_positive() {
            1
        } else if v.is_negative() {
            -1
        } else {
            continue;
        };
        if last != 0 && g != last {
            n += 1;
        }
        last = g;
    }
    n
}
/// number of distinct real roots of a square-free polynomial in the closed interval
pub fn count_roots(a: &[BigInt], lo: &Q, hi: &Q) -> usize {
    let s = sturm(a);
    let at_lo = peval(&s[0], lo).is_zero() as usize;
    // Sturm counts (lo, hi]
    variations(&s, lo) - variations(&s, hi) + at_lo
}

// ------------------------------------------------------------- irreducibility mod p

type P64 = Vec<u64>;
fn tr(v: &mut P64) {
    while v.last() == Some(&0) {
        v.pop();
    }
}
fn inv(a: u64, p: u64) -> u64 {
    let mut r = 1u128;
    let mut b = a as u128;
    let mut e = p - 2;
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % p as u128;
        }
        b = b * b % p as u128;
        e >>= 1;
    }
    r as u64
}
fn mrem(a: &mut P64, b: &P64, p: u64) {
    let il = inv(*b.last().unwrap(), p);
    tr(a);
    while a.len() >= b.len() {
        let c = (*a.last().unwrap() as u128 * il as u128 % p as u128) as u64;
        let s = a.len() - b.len();
        for (i, y) in b.iter().enumerate() {
            a[s + i] = ((a[s + i] as u128 + (p as u128 - c as u128 * *y as u128 % p as u128)) % p as u128) as u64;
        }
        tr(a);
    }
}
fn mmul(a: &P64, b: &P64, m: &P64, p: u64) -> P64 {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut r = vec![0u64; a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            r[i + j] = ((r[i + j] as u128 + *x as u128 * *y as u128) % p as u128) as u64;
        }
    }
    mrem(&mut r, m, p);
    r
}
fn mgcd(a: &P64, b: &P64, p: u64) -> P64 {
    let (mut a, mut b) = (a.clone(), b.clone());
    tr(&mut a);
    tr(&mut b);
    while !b.is_empty() {
        mrem(&mut a, &b, p);
        std::mem::swap(&mut a, &mut b);
    }
    a
}
/// degrees of the irreducible factors modulo p (distinct-degree), None when p is unsuitable
pub fn mod_degrees(a: &[BigInt], p: u64) -> Option<Vec<usize>> {
    let pb = BigInt::from(p);
    let mut f: P64 = a.iter().map(|x| x.mod_floor(&pb).to_u64().unwrap()).collect();
    if *f.last()? == 0 {
        return None;
    }
    let mut d: P64 = f.iter().enumerate().skip(1).map(|(i, x)| (*x as u128 * i as u128 % p as u128) as u64).collect();
    tr(&mut d);
    if mgcd(&f, &d, p).len() != 1 {
        return None;
    }
    let mut out = vec![];
    let mut h: P64 = vec![0, 1];
    mrem(&mut h, &f, p);
    let mut k = 0;
    while f.len() > 1 {
        k += 1;
        if 2 * k > f.len() - 1 {
            out.push(f.len() - 1);
            break;
        }
        // h = h^p mod f
        let mut r: P64 = vec![1];
        let mut b = h.clone();
        let mut e = p;
        while e > 0 {
            if e & 1 == 1 {
                r = mmul(&r, &b, &f, p);
            }
            b = mmul(&b, &b, &f, p);
            e >>= 1;
        }
        h = r;
        let mut g = h.clone();
        while g.len() < 2 {
            g.push(0);
        }
        g[1] = (g[1] + p - 1) % p;
        tr(&mut g);
        let g = mgcd(&f, &g, p);
        if g.len() > 1 {
            for _ in 0..(g.len() - 1) / k {
                out.push(k);
            }
            // f /= g
            let mut q = vec![0u64; f.len() - g.len() + 1];
            let il = inv(*g.last().unwrap(), p);
            let mut r = f.clone();
            while r.len() >= g.len() {
                let c = (*r.last().unwrap() as u128 * il as u128 % p as u128) as u64;
                let s = r.len() - g.len();
                q[s] = c;
                for (i, y) in g.iter().enumerate() {
                    r[s + i] = ((r[s + i] as u128 + (p as u128 - c as u128 * *y as u128 % p as u128)) % p as u128) as u64;
                }
                tr(&mut r);
            }
            f = q;
            mrem(&mut h, &f, p);
        }
    }
    Some(out)
}
/// true: certainly irreducible over the rationals (primitive input assumed); false: no certificate
pub fn certified_irreducible(a: &[BigInt]) -> bool {
    let n = a.len() - 1;
    if n == 1 {
        return true;
    }
    if n == 0 {
        return false;
    }
    // possible degrees of a factor: intersect the subset sums over several primes
    let mut possible: u128 = (1 << (n + 1)) - 1;
    for p in [3u64, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 101, 103, 107, 109, 113, 127] {
        if let Some(d) = mod_degrees(a, p) {
            let mut s: u128 = 1;
            for k in d {
                s |= s << k;
            }
            possible &= s;
            if possible == (1 | 1 << n) {
                return true;
            }
        }
    }
    false
}

// ------------------------------------------------------------- complete factorisation

/// polynomials over the integers modulo a (Mersenne) prime
struct Fp {
    p: BigInt,
    bits: u64,
}
type PB = Vec<BigInt>;
fn trb(v: &mut PB) {
    while v.last().map_or(false, |x| x.is_zero()) {
        v.pop();
    }
}
impl Fp {
    fn red(&self, x: &BigInt) -> BigInt {
        x.mod_floor(&self.p)
    }
    fn inv(&self, x: &BigInt) -> BigInt {
        x.modpow(&(&self.p - 2), &self.p)
    }
    fn monic(&self, a: &PB) -> PB {
        match a.last() {
            None => vec![],
            Some(l) => {
                let i = self.inv(l);
                a.iter().map(|x| self.red(&(x * &i))).collect()
            }
        }
    }
    /// quotient and remainder by a monic polynomial
    fn divrem(&self, a: &PB, m: &PB) -> (PB, PB) {
        let mut r = a.clone();
        let n = m.len();
        if r.len() < n {
            return (vec![], r);
        }
        let mut q = vec![BigInt::zero(); r.len() - n + 1];
        for s in (0..q.len()).rev() {
            let c = self.red(&r[s + n - 1]);
            if !c.is_zero() {
                for i in 0..n {
                    r[s + i] -= &c * &m[i];
                }
            }
            q[s] = c;
        }
        r.truncate(n - 1);
        let mut r: PB = r.iter().map(|x| self.red(x)).collect();
        trb(&mut r);
        (q, r)
    }
    fn mul(&self, a: &PB, b: &PB) -> PB {
        if a.is_empty() || b.is_empty() {
            return vec![];
        }
        let mut r = vec![BigInt::zero(); a.len() + b.len() - 1];
        for (i, x) in a.iter().enumerate() {
            for (j, y) in b.iter().enumerate() {
                r[i + j] += x * y;
            }
        }
        let mut r: PB = r.iter().map(|x| self.red(x)).collect();
        trb(&mut r);
        r
    }
    fn pow(&self, a: &PB, e: &BigInt, m: &PB) -> PB {
        let mut r: PB = vec![BigInt::one()];
        for k in (0..e.bits()).rev() {
            r = self.divrem(&self.mul(&r, &r), m).1;
            if e.bit(k) {
                r = self.divrem(&self.mul(&r, a), m).1;
            }
        }
        r
    }
    fn gcd(&self, a: &PB, b: &PB) -> PB {
        let (mut a, mut b) = (a.clone(), self.monic(b));
        while !b.is_empty() {
            let r = self.divrem(&a, &b).1;
            a = std::mem::replace(&mut b, self.monic(&r));
        }
        self.monic(&a)
    }
    fn sub(&self, a: &PB, b: &PB) -> PB {
        let mut r: PB = (0..a.len().max(b.len()))
            .map(|i| {
                let z = BigInt::zero();
                self.red(&(a.get(i).unwrap_or(&z) - b.get(i).unwrap_or(&z)))
            })
            .collect();
        trb(&mut r);
        r
    }
    /// monic irreducible factors of a monic square-free polynomial
    fn split(&self, f: &PB) -> Vec<PB> {
        let mut out = vec![];
        let mut f = f.clone();
        let x: PB = vec![BigInt::zero(), BigInt::one()];
        let mut h = x.clone();
        let mut d = 0;
        while f.len() > 1 {
            d += 1;
            if 2 * d > f.len() - 1 {
                out.push(f);
                break;
            }
            h = self.divrem(&h, &f).1;
            h = self.pow(&h, &self.p, &f);
            let g = self.gcd(&f, &self.sub(&h, &x));
            if g.len() > 1 {
                f = self.divrem(&f, &g).0;
                self.equal(&g, d, &mut out);
            }
        }
        out
    }
    fn equal(&self, g: &PB, d: usize, out: &mut Vec<PB>) {
        if g.len() - 1 == d {
            out.push(g.clone());
            return;
        }
        // (p^d - 1) / 2
        let mut e = BigInt::one();
        for _ in 0..d {
            e *= &self.p;
        }
        e = (e - 1) >> 1;
        let mut s = 0x1234_5678_9abc_def1u64 ^ g.len() as u64;
        loop {
            let a: PB = (0..g.len() - 1)
                .map(|_| {
                    let mut x = BigInt::zero();
                    for _ in 0..self.bits / 64 + 1 {
                        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                        x = (x << 64) + (s ^ (s >> 29));
                    }
                    self.red(&x)
                })
                .collect();
            let mut a = a;
            trb(&mut a);
            if a.len() < 2 {
                continue;
            }
            let t = self.sub(&self.pow(&a, &e, g), &vec![BigInt::one()]);
            let u = self.gcd(g, &t);
            if u.len() > 1 && u.len() < g.len() {
                let v = self.divrem(g, &u).0;
                self.equal(&u, d, out);
                self.equal(&v, d, out);
                return;
            }
        }
    }
}

/// irreducible factors (primitive, positive leading coefficient) of a primitive square-free
/// polynomial; one prime above twice the factor bound, no lifting, plain recombination
pub fn factor_squarefree(a: &[BigInt]) -> Vec<Vec<BigInt>> {
    if a.len() <= 2 || certified_irreducible(a) {
        return vec![a.to_vec()];
    }
    let n = a.len() - 1;
    let lc = a[n].clone();
    let norm: BigInt = a.iter().map(|x| x.abs()).sum();
    let bound: BigInt = (norm << (n + 2)) * &lc;
    let mut parts = None;
    for bits in [127u64, 521, 1279, 2203, 4423, 9689] {
        let f = Fp { p: (BigInt::one() << bits) - 1, bits };
        if f.p <= bound || (&lc % &f.p).is_zero() {
            continue;
        }
        let m = f.monic(&a.iter().map(|x| f.red(x)).collect());
        let d: PB = m.iter().enumerate().skip(1).map(|(i, x)| f.red(&(x * i))).collect();
        if f.gcd(&m, &d).len() != 1 {
            continue;
        }
        let v = f.split(&m);
        parts = Some((f, v));
        break;
    }
    let (f, mut v) = parts.expect("oracle: coefficients too large");
    v.sort_by_key(|x| x.len());
    let mut out = vec![];
    let mut rest = a.to_vec();
    let mut size = 1;
    'next: while 2 * size <= v.len() {
        let mut idx: Vec<usize> = (0..size).collect();
        loop {
            let mut g: PB = vec![f.red(rest.last().unwrap())];
            for i in &idx {
                g = f.mul(&g, &v[*i]);
            }
            let half = &f.p >> 1;
            let g: Vec<Q> = g.into_iter().map(|x| Q::from(if x > half { x - &f.p } else { x })).collect();
            let g = primitive(&g);
            let (quo, rem) = pdivrem(&q(&rest), &q(&g));
            if rem.is_empty() {
                rest = primitive(&quo);
                out.push(g);
                let mut k = 0;
                v.retain(|_| {
                    k += 1;
                    !idx.contains(&(k - 1))
                });
                continue 'next;
            }
            // next subset
            let mut i = size;
            loop {
                if i == 0 {
                    size += 1;
                    continue 'next;
                }
                i -= 1;
                if idx[i] < v.len() - size + i {
                    idx[i] += 1;
                    for j in i + 1..size {
                        idx[j] = idx[j - 1] + 1;
                    }
                    break;
                }
            }
        }
    }
    if rest.len() > 1 {
        out.push(rest);
    }
    out
}
pub fn irreducible(a: &[BigInt]) -> bool {
    if a.len() < 2 {
        return false;
    }
    if a.len() == 2 || certified_irreducible(a) {
        return true;
    }
    let s = squarefree_part(&q(a));
    s.len() == a.len() && factor_squarefree(&primitive(&s)).len() == 1
}
/// all factors of a non-zero primitive polynomial with their multiplicities
pub fn factor(a: &[BigInt]) -> Vec<(Vec<BigInt>, usize)> {
    let mut rest = q(a);
    factor_squarefree(&primitive(&squarefree_part(&rest)))
        .into_iter()
        .filter(|g| g.len() > 1)
        .map(|g| {
            let gq = q(&g);
            let mut k = 0;
            loop {
                let (quo, rem) = pdivrem(&rest, &gq);
                if !rem.is_empty() {
                    break;
                }
                rest = quo;
                k += 1;
            }
            (g, k)
        })
        .collect()
}
