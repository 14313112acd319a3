//! Reads printed values back, to judge that the text denotes the value. Evaluates the text as
//! an expression at several points instead of expecting a particular layout.

use crate::oracle::Q;
use algsim_exec as exec;
use num_bigint::BigInt;
use num_traits::{One, Zero};

#[derive(Clone, Debug, PartialEq)]
struct V {
    v: Q,
    /// modulus, zero: none
    m: BigInt,
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
    x: Q,
    y: Q,
    z: Q,
}
impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.s.len() && self.s[self.i] == b' ' {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        self.s.get(self.i).copied().unwrap_or(0)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expr(&mut self) -> Option<V> {
        let mut a = self.term()?;
        loop {
            if self.eat(b'+') {
                let b = self.term()?;
                a = comb(a, b, |x, y| x + y)?;
            } else if self.eat(b'-') {
                let b = self.term()?;
                a = comb(a, b, |x, y| x - y)?;
            } else {
                return Some(a);
            }
        }
    }
    fn term(&mut self) -> Option<V> {
        let mut a = self.factor()?;
        loop {
            if self.eat(b'*') {
                let b = self.factor()?;
                a = comb(a, b, |x, y| x * y)?;
            } else if self.eat(b'/') {
                let b = self.factor()?;
                if b.v.is_zero() {
                    return None;
                }
                a = comb(a, b, |x, y| x / y)?;
            } else {
                return Some(a);
            }
        }
    }
    fn factor(&mut self) -> Option<V> {
        if self.eat(b'-') {
            let a = self.factor()?;
            return Some(V { v: -a.v, m: a.m });
        }
        let a = self.atom()?;
        if self.eat(b'^') {
            let n = self.int()?;
            let n: u32 = n.to_string().parse().ok()?;
            let mut r = Q::one();
            for _ in 0..n {
                r *= &a.v;
            }
            return Some(V { v: r, m: a.m });
        }
        Some(a)
    }
    fn int(&mut self) -> Option<BigInt> {
        self.ws();
        let b = self.i;
        if self.s.get(self.i) == Some(&b'-') {
            self.i += 1;
        }
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
            self.i += 1;
        }
        exec::bi(std::str::from_utf8(&self.s[b..self.i]).ok()?)
    }
    fn atom(&mut self) -> Option<V> {
        let c = self.peek();
        let plain = |v: Q| Some(V { v, m: BigInt::zero() });
        if c == b'(' {
            self.i += 1;
            let a = self.expr()?;
            return self.eat(b')').then_some(a);
        }
        if c.is_ascii_digit() {
            return plain(Q::from(self.int()?));
        }
        if c == b'X' {
            self.i += 1;
            let x = self.x.clone();
            return plain(x);
        }
        if c == b'Y' {
            self.i += 1;
            let y = self.y.clone();
            return plain(y);
        }
        if c == b'Z' {
            self.i += 1;
            let z = self.z.clone();
            return plain(z);
        }
        if self.s[self.i..].starts_with(b"mod_int(") {
            self.i += 8;
            let v = self.int()?;
            if !self.eat(b',') {
                return None;
            }
            let m = self.int()?;
            return self.eat(b')').then_some(V { v: Q::from(v), m });
        }
        None
    }
}
fn comb(a: V, b: V, f: impl Fn(Q, Q) -> Q) -> Option<V> {
    let m = if a.m.is_zero() {
        b.m
    } else if b.m.is_zero() || a.m == b.m {
        a.m
    } else {
        return None;
    };
    Some(V { v: f(a.v, b.v), m })
}
fn value(s: &str, x: i64, y: i64) -> Option<V> {
    value3(s, x, y, 0)
}
fn value3(s: &str, x: i64, y: i64, z: i64) -> Option<V> {
    let i = |x: i64| Q::from(BigInt::from(x));
    let mut p = P { s: s.as_bytes(), i: 0, x: i(x), y: i(y), z: i(z) };
    let v = p.expr()?;
    p.ws();
    (p.i == s.len()).then_some(v)
}
fn horner(v: &[Q], x: i64) -> Q {
    let mut r = Q::zero();
    for c in v.iter().rev() {
        r = r * BigInt::from(x) + c;
    }
    r
}
fn list(s: &str) -> Option<Vec<Q>> {
    s.split(',').map(exec::rat).collect()
}
const PTS: [i64; 5] = [0, 1, -3, 1_000_003, -777_777_777];

fn poly_is(text: &str, v: &[Q]) -> bool {
    PTS.iter().all(|&x| value(text, x, 0).map_or(false, |a| a.v == horner(v, x) && a.m.is_zero()))
}

/// None: the text denotes the value (or the kind has no defined reading)
pub fn denotes(key: &str, text: &str) -> Option<String> {
    let f: Vec<&str> = key.split(' ').collect();
    let bad = || Some("the text does not denote the value".to_string());
    let ok = match f[0] {
        "poly" | "polyrat" | "polyi" => poly_is(text, &list(f[1])?),
        "polypoly" => {
            let rows: Option<Vec<Vec<Q>>> = f[1].split(';').map(list).collect();
            let rows = rows?;
            PTS.iter().all(|&x| {
                PTS.iter().all(|&y| {
                    let v: Vec<Q> = rows.iter().map(|r| horner(r, x)).collect();
                    value(text, x, y).map_or(false, |a| a.v == horner(&v, y))
                })
            })
        }
        "poly3" => {
            let rows: Option<Vec<Vec<Vec<Q>>>> = f[1].split('|').map(|x| x.split(';').map(list).collect()).collect();
            let rows = rows?;
            PTS[1..4].iter().all(|&x| {
                PTS[1..4].iter().all(|&y| {
                    PTS.iter().all(|&z| {
                        let v: Vec<Q> = rows.iter().map(|r| horner(&r.iter().map(|r| horner(r, x)).collect::<Vec<_>>(), y)).collect();
                        value3(text, x, y, z).map_or(false, |a| a.v == horner(&v, z))
                    })
                })
            })
        }
        "polymod" => {
            let m = exec::bi(f[1])?;
            let v = list(f[2])?;
            let degree_ok = true;
            degree_ok
                && PTS.iter().all(|&x| {
                    value(text, x, 0).map_or(false, |a| a.m == m && ((a.v - horner(&v, x)) / &m).is_integer())
                })
        }
        "factor" | "factorrat" => {
            let v = list(f[2])?;
            let k: usize = f[1].parse().ok()?;
            PTS.iter().all(|&x| {
                let h = horner(&v, x);
                let mut w = Q::one();
                for _ in 0..k {
                    w *= &h;
                }
                value(text, x, 0).map_or(false, |a| a.v == w)
            })
        }
        "mod" | "modbig" => value(text, 0, 0).map_or(false, |a| Some(a.m) == exec::bi(f[2]) && Some(a.v) == exec::rat(f[1])),
        "iv" => {
            let d: usize = f[3].parse().ok()?;
            let den = BigInt::one() << d;
            let t = text.strip_prefix('[').and_then(|t| t.strip_suffix(']')).and_then(|t| t.split_once(','));
            t.map_or(false, |(a, b)| {
                value(a, 0, 0).map(|v| v.v) == Some(Q::new(exec::bi(f[1]).unwrap(), den.clone()))
                    && value(b, 0, 0).map(|v| v.v) == Some(Q::new(exec::bi(f[2]).unwrap(), den.clone()))
            })
        }
        "num" | "numdata" | "numalt" => {
            let text = &flat(text)[..];
            let p = field_of(text, "minimal_polynomial: ", ", interval");
            let num = |a: &str, b: &str, w: &str| field_of(text, a, b).map_or(false, |x| x.trim().trim_end_matches(',') == w);
            p.map_or(false, |p| poly_is(p, &list(f[1]).unwrap()))
                && num("lower_bound_numer: ", ",", f[2])
                && num("upper_bound_numer: ", ",", f[3])
                && num("log2_denom: ", " }", f[4])
        }
        "ivdbg" | "ivalt" => {
            let text = &flat(text)[..];
            let num = |a: &str, b: &str, w: &str| field_of(text, a, b).map_or(false, |x| x.trim().trim_end_matches(',') == w);
            num("lower_bound_numer: ", ",", f[1]) && num("upper_bound_numer: ", ",", f[2]) && num("log2_denom: ", " }", f[3])
        }
        _ => true,
    };
    if ok {
        None
    } else {
        bad()
    }
}
fn field_of<'a>(t: &'a str, a: &str, b: &str) -> Option<&'a str> {
    let i = t.find(a)? + a.len();
    let j = t[i..].find(b)?;
    Some(&t[i..i + j])
}
/// the text on one line
fn flat(t: &str) -> String {
    t.split_whitespace().collect::<Vec<_>>().join(" ")
}
