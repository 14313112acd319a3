//! Exact model of real algebraic numbers: elements of small real number fields, written as
//! rational combinations of powers of one generator, with a high-precision real value.
//! Shares nothing with the library's representation (resultants, factoring, isolation).

use crate::oracle::{self, Q};
use algsim_rt::rt::Rng;
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Pow, Signed, ToPrimitive, Zero};
use std::cmp::Ordering;

/// fractional bits of the real values; enough to separate all roots that occur
pub const W: usize = 1400;

pub struct Field {
    pub f: Vec<BigInt>,
    /// real roots, ascending, floor(root * 2^W)
    pub roots: Vec<BigInt>,
    /// elements of interest (subfields, conjugates)
    pub special: Vec<Vec<Q>>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct M {
    pub field: usize,
    pub emb: usize,
    /// coefficients of the powers of the generator, trailing zeros removed
    pub v: Vec<Q>,
}

fn b(x: i64) -> BigInt {
    BigInt::from(x)
}
fn qq(n: i64, d: i64) -> Q {
    Q::new(b(n), b(d))
}

fn eval_fixed_sign(f: &[BigInt], x: &BigInt) -> i32 {
    // exact: sum f_i x^i 2^(W(n-i))
    let n = f.len() - 1;
    let mut r = BigInt::zero();
    for (i, c) in f.iter().enumerate().rev() {
        r = r * x + (c << (W * (n - i)));
    }
    if r.is_positive() {
        1
    } else if r.is_negative() {
        -1
    } else {
        0
    }
}

fn real_roots(f: &[BigInt]) -> Vec<BigInt> {
    // all roots lie in (-16, 16); separate on a grid of 1/64, then bisect
    let mut out = vec![];
    let step = BigInt::one() << (W - 6);
    let mut x = -(BigInt::one() << (W + 4)) + 1; // never hit a root exactly
    let mut s = eval_fixed_sign(f, &x);
    for _ in 0..32 * 64 {
        let y = &x + &step;
        let t = eval_fixed_sign(f, &y);
        if s * t < 0 {
            let (mut lo, mut hi) = (x.clone(), y.clone());
            while &hi - &lo > BigInt::one() {
                let m = (&lo + &hi) >> 1;
                if eval_fixed_sign(f, &m) == s {
                    lo = m;
                } else {
                    hi = m;
                }
            }
            out.push(lo);
        }
        x = y;
        s = t;
    }
    out
}

pub fn fields() -> &'static Vec<Field> {
    static F: std::sync::OnceLock<Vec<Field>> = std::sync::OnceLock::new();
    F.get_or_init(|| {
        let mut out = vec![];
        let mut add = |f: &[i64], special: Vec<Vec<Q>>| {
            let f: Vec<BigInt> = f.iter().map(|x| b(*x)).collect();
            let roots = real_roots(&f);
            out.push(Field { f, roots, special });
        };
        let z = || qq(0, 1);
        add(&[-2, 0, 1], vec![]); // 0: sqrt 2
        add(&[-1, -1, 1], vec![]); // 1: golden ratio
        // 2: sqrt2 + sqrt3
        add(
            &[1, 0, -10, 0, 1],
            vec![
                vec![z(), qq(-9, 2), z(), qq(1, 2)],
                vec![z(), qq(11, 2), z(), qq(-1, 2)],
                vec![qq(-5, 2), z(), qq(1, 2)],
            ],
        );
        add(&[-2, 0, 0, 1], vec![]); // 3: cube root of 2
        add(&[1, -3, 0, 1], vec![vec![qq(-2, 1), z(), qq(1, 1)]]); // 4: cyclic, three real roots
        add(&[-1, -1, 0, 1], vec![]); // 5
        add(&[-2, 0, 0, 0, 1], vec![vec![z(), z(), qq(1, 1)]]); // 6: fourth root of 2
        // 7: sixth root of 2
        add(&[-2, 0, 0, 0, 0, 0, 1], vec![vec![z(), z(), qq(1, 1)], vec![z(), z(), z(), qq(1, 1)], vec![z(), z(), z(), z(), qq(1, 1)]]);
        add(&[-1, -1, 0, 0, 0, 1], vec![]); // 8
        add(&[1, -5, 0, 0, 0, 1], vec![]); // 9: three real roots
        // 10: sqrt2 + sqrt3 + sqrt5
        let v8 = |x: [(i64, i64); 8]| x.iter().map(|(a, b)| qq(*a, *b)).collect::<Vec<_>>();
        add(
            &[576, 0, -960, 0, 352, 0, -40, 0, 1],
            vec![
                v8([(0, 1), (5, 3), (0, 1), (-7, 72), (0, 1), (-7, 144), (0, 1), (1, 576)]),
                v8([(0, 1), (15, 4), (0, 1), (-61, 24), (0, 1), (37, 96), (0, 1), (-1, 96)]),
                v8([(0, 1), (-53, 12), (0, 1), (95, 36), (0, 1), (-97, 288), (0, 1), (5, 576)]),
                v8([(5, 1), (0, 1), (-41, 12), (0, 1), (5, 12), (0, 1), (-1, 96), (0, 1)]),
                v8([(-8, 1), (0, 1), (27, 4), (0, 1), (-9, 8), (0, 1), (1, 32), (0, 1)]),
            ],
        );
        add(&[2, 0, -4, 0, 1], vec![vec![qq(-2, 1), z(), qq(1, 1)]]); // 11: cyclic quartic
        add(&[-1, -1, 0, 0, 1], vec![]); // 12
        add(&[-3, 0, 1], vec![]); // 13: sqrt 3
        out
    })
}

impl M {
    pub fn new(field: usize, emb: usize, mut v: Vec<Q>) -> M {
        oracle::trim(&mut v);
        M { field, emb, v }
    }
    pub fn rat(x: Q) -> M {
        M::new(0, 0, vec![x])
    }
    pub fn is_rat(&self) -> bool {
        self.v.len() <= 1
    }
    pub fn to_rat(&self) -> Option<Q> {
        match self.v.len() {
            0 => Some(Q::zero()),
            1 => Some(self.v[0].clone()),
            _ => None,
        }
    }
    pub fn is_zero(&self) -> bool {
        self.v.is_empty()
    }
    fn fq(&self) -> Vec<Q> {
        oracle::q(&fields()[self.field].f)
    }
    fn same(&self, o: &M) -> Option<(usize, usize)> {
        if o.is_rat() {
            Some((self.field, self.emb))
        } else if self.is_rat() || (self.field, self.emb) == (o.field, o.emb) {
            Some((o.field, o.emb))
        } else {
            None
        }
    }
    pub fn add(&self, o: &M) -> Option<M> {
        let (f, e) = self.same(o)?;
        Some(M::new(f, e, oracle::padd(&self.v, &o.v)))
    }
    pub fn neg(&self) -> M {
        M::new(self.field, self.emb, self.v.iter().map(|x| -x).collect())
    }
    pub fn sub(&self, o: &M) -> Option<M> {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &M) -> Option<M> {
        let (f, e) = self.same(o)?;
        let p = oracle::pmul(&self.v, &o.v);
        let r = oracle::pdivrem(&p, &oracle::q(&fields()[f].f)).1;
        Some(M::new(f, e, r))
    }
    pub fn inv(&self) -> Option<M> {
        if self.is_zero() {
            return None;
        }
        // extended Euclid over the rationals
        let (mut r0, mut r1) = (self.fq(), self.v.clone());
        let (mut t0, mut t1): (Vec<Q>, Vec<Q>) = (vec![], vec![Q::one()]);
        while !r1.is_empty() {
            let (qu, r) = oracle::pdivrem(&r0, &r1);
            let t = oracle::padd(&t0, &oracle::pmul(&qu, &t1).iter().map(|x| -x).collect::<Vec<_>>());
            r0 = std::mem::replace(&mut r1, r);
            t0 = std::mem::replace(&mut t1, t);
        }
        let c = r0[0].recip();
        let v: Vec<Q> = t0.iter().map(|x| x * &c).collect();
        Some(M::new(self.field, self.emb, oracle::pdivrem(&v, &self.fq()).1))
    }
    pub fn div(&self, o: &M) -> Option<M> {
        self.mul(&o.inv()?)
    }
    pub fn powi(&self, e: i64) -> Option<M> {
        let mut base = if e < 0 { self.inv()? } else { self.clone() };
        let mut n = e.unsigned_abs();
        let mut r = M::new(self.field, self.emb, vec![Q::one()]);
        while n > 0 {
            if n & 1 == 1 {
                r = r.mul(&base)?;
            }
            base = base.mul(&base)?;
            n >>= 1;
        }
        Some(r)
    }
    /// primitive minimal polynomial with positive leading coefficient
    pub fn min_poly(&self) -> Vec<BigInt> {
        if let Some(x) = self.to_rat() {
            return vec![-x.numer(), x.denom().clone()];
        }
        let n = fields()[self.field].f.len() - 1;
        // first linear dependency among the powers: rows reduced by elimination
        let mut rows: Vec<(Vec<Q>, Vec<Q>, usize)> = vec![]; // (vector, combination, pivot)
        let mut p = M::new(self.field, self.emb, vec![Q::one()]);
        for k in 0..=n {
            let mut v = p.v.clone();
            v.resize(n, Q::zero());
            let mut c = vec![Q::zero(); k + 1];
            c[k] = Q::one();
            for (rv, rc, pv) in &rows {
                if !v[*pv].is_zero() {
                    let m = &v[*pv] / &rv[*pv];
                    for i in 0..n {
                        let d = &m * &rv[i];
                        v[i] -= d;
                    }
                    for i in 0..rc.len() {
                        let d = &m * &rc[i];
                        c[i] -= d;
                    }
                }
            }
            match v.iter().position(|x| !x.is_zero()) {
                None => return oracle::primitive(&c),
                Some(pv) => rows.push((v, c, pv)),
            }
            p = p.mul(self).unwrap();
        }
        unreachable!()
    }
    /// bounds of value * 2^bits, bits <= W - 200
    pub fn approx(&self, bits: usize) -> (BigInt, BigInt) {
        let f = &fields()[self.field];
        let th = Q::new(f.roots[self.emb].clone(), BigInt::one() << W);
        let m = oracle::peval(&self.v, &th);
        // |d/dx| <= sum i |c_i| 16^(i-1)
        let mut e = Q::zero();
        let mut p = Q::one();
        for (i, c) in self.v.iter().enumerate().skip(1) {
            e += c.abs() * &p * b(i as i64);
            p *= b(16);
        }
        e *= Q::new(BigInt::one(), BigInt::one() << W);
        let s = Q::from(BigInt::one() << bits);
        let lo = (&m - &e) * &s;
        let hi = (m + e) * s;
        (lo.floor().to_integer(), hi.ceil().to_integer())
    }
    pub fn sign(&self) -> Ordering {
        if let Some(x) = self.to_rat() {
            return x.cmp(&Q::zero());
        }
        let (lo, hi) = self.approx(W - 300);
        if lo.is_positive() {
            Ordering::Greater
        } else if hi.is_negative() {
            Ordering::Less
        } else {
            panic!("model: sign undecided");
        }
    }
    pub fn floor(&self) -> BigInt {
        if let Some(x) = self.to_rat() {
            return x.floor().to_integer();
        }
        let (lo, hi) = self.approx(W - 300);
        let (a, c) = (lo >> (W - 300), hi >> (W - 300));
        assert!(a == c, "model: floor undecided");
        a
    }
    pub fn ceil(&self) -> BigInt {
        -self.neg().floor()
    }
    pub fn trunc(&self) -> BigInt {
        if self.sign() == Ordering::Less {
            self.ceil()
        } else {
            self.floor()
        }
    }
    /// works across fields
    pub fn cmp(&self, o: &M) -> Ordering {
        if let Some(d) = self.sub(o) {
            return d.sign();
        }
        let (a0, a1) = self.approx(W - 300);
        let (b0, b1) = o.approx(W - 300);
        if a0 > b1 {
            Ordering::Greater
        } else if a1 < b0 {
            Ordering::Less
        } else {
            // indistinguishable at 1100 bits: the same root of the same polynomial
            assert!(self.min_poly() == o.min_poly(), "model: comparison undecided");
            Ordering::Equal
        }
    }
    /// floor(log2) and ceil(log2) of a positive value
    pub fn log2(&self) -> (i64, i64) {
        let x = match self.to_rat() {
            Some(x) => x,
            None => {
                let (lo, _) = self.approx(W - 300);
                // irrational: no power of two, and 1000 bits of precision
                Q::new(lo, BigInt::one() << (W - 300))
            }
        };
        let mut k = x.numer().bits() as i64 - x.denom().bits() as i64;
        let two = |k: i64| {
            if k >= 0 {
                Q::from(BigInt::one() << k as usize)
            } else {
                Q::new(BigInt::one(), BigInt::one() << (-k) as usize)
            }
        };
        while two(k) > x {
            k -= 1;
        }
        while two(k + 1) <= x {
            k += 1;
        }
        if self.is_rat() && two(k) == x {
            (k, k)
        } else {
            (k, k + 1)
        }
    }
    pub fn text(&self) -> String {
        let v: Vec<String> = self.v.iter().map(|x| format!("{}/{}", x.numer(), x.denom())).collect();
        format!("{}:{}:{}", self.field, self.emb, if v.is_empty() { "0/1".into() } else { v.join(",") })
    }
    pub fn parse(s: &str) -> Option<M> {
        let mut f = s.split(':');
        let field: usize = f.next()?.parse().ok()?;
        let emb: usize = f.next()?.parse().ok()?;
        if field >= fields().len() || emb >= fields()[field].roots.len() {
            return None;
        }
        let v: Option<Vec<Q>> = f.next()?.split(',').map(algsim_exec::rat).collect();
        Some(M::new(field, emb, v?))
    }
    /// an isolating interval (lo, hi, log2_denom) of this value, varied by the generator
    pub fn isolate(&self, r: &mut Rng, plain: bool) -> (BigInt, BigInt, usize) {
        let p = self.min_poly();
        if !self.is_rat() && (plain || r.chance(1, 4)) {
            // between two integers
            let (lo, hi) = (self.floor(), self.ceil());
            if count(&p, &lo, &hi, 0) == 1 {
                return (lo, hi, 0);
            }
        }
        let mut d = if r.chance(1, 12) { 20 + r.us(80) } else { r.us(7) };
        let (mut lo, mut hi);
        loop {
            if let Some(x) = self.to_rat() {
                let y = x * Q::from(BigInt::one() << d);
                lo = y.floor().to_integer();
                hi = y.ceil().to_integer();
                break;
            }
            let (a, c) = self.approx(W - 300);
            lo = a >> (W - 300 - d);
            hi = (c >> (W - 300 - d)) + 1;
            if count(&p, &lo, &hi, d) == 1 {
                break;
            }
            d += 1 + r.us(2);
        }
        // widen while it still isolates
        for _ in 0..r.us(5) {
            let k = b(1 + r.below(6) as i64);
            let (l2, h2) = match r.us(3) {
                0 => (&lo - k, hi.clone()),
                1 => (lo.clone(), &hi + k),
                _ => (&lo - &k, &hi + k),
            };
            if count(&p, &l2, &h2, d) == 1 {
                lo = l2;
                hi = h2;
            }
        }
        if !self.is_rat() && r.chance(1, 4) {
            // (nearly) as wide as an isolating interval can be, up to the neighbouring roots
            for side in [-1, 1] {
                if !r.chance(2, 3) {
                    continue;
                }
                let mut step = BigInt::one();
                let mut grow = true;
                while step.is_positive() {
                    let (l2, h2) = if side < 0 { (&lo - &step, hi.clone()) } else { (lo.clone(), &hi + &step) };
                    if step.bits() < 12 + d as u64 && count(&p, &l2, &h2, d) == 1 {
                        lo = l2;
                        hi = h2;
                        if grow {
                            step *= 2;
                            continue;
                        }
                    }
                    grow = false;
                    step >>= 1;
                }
            }
        }
        (lo, hi, d)
    }
    /// another root of the same minimal polynomial, in the same field
    pub fn conjugate(&self, r: &mut Rng) -> Option<M> {
        let p = self.min_poly();
        if p.len() == 3 {
            return M::rat(-Q::new(p[1].clone(), p[2].clone())).sub(self);
        }
        let z = || Q::zero();
        let one = Q::one;
        let images: Vec<Vec<Q>> = match self.field {
            0 | 6 | 7 | 10 | 13 => vec![vec![z(), -one()]],
            1 => vec![vec![one(), -one()]],
            2 => vec![vec![z(), -one()], vec![z(), qq(10, 1), z(), -one()], vec![z(), qq(-10, 1), z(), one()]],
            4 => vec![vec![qq(-2, 1), z(), one()], vec![qq(2, 1), -one(), -one()]],
            11 => vec![vec![z(), -one()], vec![z(), qq(-3, 1), z(), one()], vec![z(), qq(3, 1), z(), -one()]],
            _ => return None,
        };
        let g = M::new(self.field, self.emb, r.pick(&images).clone());
        let mut x = M::new(self.field, self.emb, vec![]);
        for c in self.v.iter().rev() {
            x = x.mul(&g)?.add(&M::new(self.field, self.emb, vec![c.clone()]))?;
        }
        Some(x)
    }
    /// this value moved by a dyadic rational to within about 2^-k of the target
    pub fn moved_near(&self, target: &Q, k: usize, up: bool) -> M {
        let (a, _) = self.approx(k);
        let a = if up { a } else { a + 1 };
        self.add(&M::rat(target - Q::new(a, BigInt::one() << k))).unwrap()
    }
}

pub fn count(p: &[BigInt], lo: &BigInt, hi: &BigInt, d: usize) -> usize {
    let den = BigInt::one() << d;
    oracle::count_roots(p, &Q::new(lo.clone(), den.clone()), &Q::new(hi.clone(), den))
}

/// A positive number `x^e`, e = p/q in lowest terms with q > 1
#[derive(Clone, Debug)]
pub struct RootOf {
    pub x: M,
    pub e: Q,
}
impl RootOf {
    /// bounds of x^e * 2^bits
    pub fn approx(&self, bits: usize) -> (BigInt, BigInt) {
        let p = self.e.numer().to_i64().unwrap();
        let qn = self.e.denom().to_u32().unwrap();
        let y = self.x.powi(p).unwrap();
        // y * 2^(q*bits), then the q-th root
        let (lo, hi) = y.approx(W - 300);
        let sc = qn as usize * bits;
        let t = W - 300;
        let shift = |v: BigInt, up: bool| -> BigInt {
            if sc >= t {
                v << (sc - t)
            } else if up {
                (v >> (t - sc)) + 1
            } else {
                v >> (t - sc)
            }
        };
        (shift(lo, false).max(BigInt::zero()).nth_root(qn), shift(hi, true).nth_root(qn) + 1)
    }
    /// exact minimal polynomial when x is rational
    pub fn min_poly(&self) -> Option<Vec<BigInt>> {
        let a = self.x.to_rat()?;
        let qn = self.e.denom().to_u32()?;
        // largest d dividing q such that a is a perfect d-th power
        let mut best = (1u32, a.clone());
        for d in (1..=qn).filter(|d| qn % d == 0) {
            let (n, m) = (a.numer().nth_root(d), a.denom().nth_root(d));
            if Pow::pow(&n, d) == *a.numer() && Pow::pow(&m, d) == *a.denom() {
                best = (d, Q::new(n, m));
            }
        }
        let m = qn / best.0;
        let p = self.e.numer().to_i32()?;
        let c = Pow::pow(best.1, p);
        let mut v = vec![BigInt::zero(); m as usize + 1];
        v[0] = -c.numer();
        v[m as usize] = c.denom().clone();
        Some(v)
    }
}

#[derive(Clone, Debug)]
pub enum Model {
    F(M),
    R(RootOf),
}
impl Model {
    /// x^e for the real power; None: there is no real result
    pub fn pow(x: &Model, e: &Q) -> Option<Option<Model>> {
        match x {
            Model::R(r) => {
                let e2 = &r.e * e;
                Model::pow(&Model::F(r.x.clone()), &e2)
            }
            Model::F(m) => {
                if m.is_zero() {
                    return Some(if e.is_positive() { Some(Model::F(m.clone())) } else { None });
                }
                if let Some(one) = m.to_rat().filter(|x| x.is_integer() && x.numer().magnitude().is_one()) {
                    return Some(if one.is_positive() || e.is_integer() && e.numer().is_even() {
                        Some(Model::F(M::rat(Q::one())))
                    } else if e.is_integer() {
                        Some(Model::F(m.clone()))
                    } else {
                        None
                    });
                }
                if e.is_integer() {
                    let k = e.numer().to_i64().filter(|k| k.abs() < 100_000)?;
                    return Some(Some(Model::F(m.powi(k)?)));
                }
                if m.sign() == Ordering::Less {
                    return Some(None);
                }
                let e = e.clone();
                if e.numer().is_zero() {
                    return Some(Some(Model::F(M::rat(Q::one()))));
                }
                let _ = e.denom().is_even();
                Some(Some(Model::R(RootOf { x: m.clone(), e })))
            }
        }
    }
}
