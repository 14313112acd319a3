//! Judges operations on algebraic numbers against the number-field model.

use crate::field::{self, Model, RootOf, M};
use crate::oracle::{self, Q};
use algsim_exec::{self as exec, Rec, Val};
use num_bigint::BigInt;
use num_traits::{One, ToPrimitive, Zero};
use std::cmp::Ordering;

#[derive(Clone, Debug)]
pub enum Expect {
    Num(Model),
    Absent,
    /// no result: the call must end in a panic
    Refuse,
    Ord(Ordering),
    Bool(bool),
    Int(BigInt),
    OptI(Option<i64>),
    OptInt(Option<BigInt>),
    OptRat(Option<Q>),
    /// outside the model
    Skip,
}

pub type Ms = Vec<Option<Model>>;

fn opnd(name: Option<&str>, shared: &Ms, own: &Ms) -> Option<Model> {
    let n = name?;
    let k: usize = n.get(1..)?.parse().ok()?;
    if n.starts_with('s') { shared } else { own }.get(k)?.clone()
}

/// what the operation must yield
pub fn model_op(op: &str, shared: &Ms, own: &Ms) -> Expect {
    eval(op, shared, own).unwrap_or(Expect::Skip)
}

fn eval(op: &str, shared: &Ms, own: &Ms) -> Option<Expect> {
    let (call, note) = op.split_once(" | ").unwrap_or((op, ""));
    let mut f = call.split(' ');
    let name = f.next()?;
    let num = |m: M| Some(Expect::Num(Model::F(m)));
    match name {
        "root" => return num(M::parse(note)?),
        "int" | "rat" => return num(M::rat(exec::rat(f.next()?)?)),
        _ => {}
    }
    let a = opnd(f.next(), shared, own)?;
    if matches!(name, "pow" | "cpow") {
        let e = exec::rat(f.next()?)?;
        if let (Model::F(x), false) = (&a, note.is_empty()) {
            // the base is a perfect power in its field: x = z^q, z > 0
            let z = M::parse(note)?;
            let q = e.denom().to_i64()?;
            if z.sign() == Ordering::Greater && z.powi(q)? == *x {
                return num(z.powi(e.numer().to_i64()?)?);
            }
        }
        return Some(match Model::pow(&a, &e)? {
            Some(m) => Expect::Num(m),
            None if name == "pow" => Expect::Refuse,
            None => Expect::Absent,
        });
    }
    let a = match a {
        Model::F(m) => m,
        Model::R(r) => {
            return match name {
                "copy" => Some(Expect::Num(Model::R(r))),
                "sign" => Some(Expect::Ord(Ordering::Greater)),
                _ => None,
            }
        }
    };
    if matches!(name, "add" | "sub" | "mul" | "div" | "rem" | "cmp" | "eq" | "cdiv" | "abssub" | "max" | "min") {
        let b = match opnd(f.next(), shared, own)? {
            Model::F(m) => m,
            Model::R(_) => return None,
        };
        return match name {
            "add" => num(a.add(&b)?),
            "sub" => num(a.sub(&b)?),
            "mul" => num(a.mul(&b)?),
            "div" | "rem" if b.is_zero() => Some(Expect::Refuse),
            "div" => num(a.div(&b)?),
            "abssub" => num(if a.cmp(&b) == Ordering::Greater { a.sub(&b)? } else { M::rat(Q::zero()) }),
            "max" => num(if a.cmp(&b) == Ordering::Greater { a } else { b }),
            "min" => num(if a.cmp(&b) == Ordering::Less { a } else { b }),
            "cdiv" => {
                if b.is_zero() {
                    Some(Expect::Absent)
                } else {
                    num(a.div(&b)?)
                }
            }
            "rem" => {
                let t = a.div(&b)?.trunc();
                num(a.sub(&b.mul(&M::rat(Q::from(t)))?)?)
            }
            "cmp" => Some(Expect::Ord(a.cmp(&b))),
            _ => Some(Expect::Bool(a.cmp(&b) == Ordering::Equal)),
        };
    }
    let int = |i: BigInt| num(M::rat(Q::from(i)));
    let r = a.to_rat();
    match name {
        "neg" => num(a.neg()),
        "recip" if a.is_zero() => Some(Expect::Refuse),
        "recip" => num(a.inv()?),
        "crecip" => {
            if a.is_zero() {
                Some(Expect::Absent)
            } else {
                num(a.inv()?)
            }
        }
        "abs" => num(if a.sign() == Ordering::Less { a.neg() } else { a }),
        "signum" => int(BigInt::from(a.sign() as i8)),
        "copy" => num(a),
        "set" => int(BigInt::from([0, 1, -1][f.next().and_then(|x| x.parse().ok()).unwrap_or(0usize) % 3])),
        "floor" => int(a.floor()),
        "ceil" => int(a.ceil()),
        "trunc" => int(a.trunc()),
        "fract" => num(a.sub(&M::rat(Q::from(a.floor())))?),
        "ifloor" => Some(Expect::Int(a.floor())),
        "iceil" => Some(Expect::Int(a.ceil())),
        "itrunc" => Some(Expect::Int(a.trunc())),
        "sign" => Some(Expect::Ord(a.sign())),
        "ispos" => Some(Expect::Bool(a.sign() == Ordering::Greater)),
        "isneg" => Some(Expect::Bool(a.sign() == Ordering::Less)),
        "iszero" => Some(Expect::Bool(a.is_zero())),
        "isone" => Some(Expect::Bool(r.map_or(false, |r| r.is_one()))),
        "isnegone" => Some(Expect::Bool(r.map_or(false, |r| (-r).is_one()))),
        "isrational" => Some(Expect::Bool(r.is_some())),
        "isinteger" => Some(Expect::Bool(r.map_or(false, |r| r.is_integer()))),
        "toint" => Some(Expect::OptInt(r.filter(|r| r.is_integer()).map(|r| r.to_integer()))),
        "torat" => Some(Expect::OptRat(r)),
        "degree" => Some(Expect::Int(BigInt::from(a.min_poly().len() - 1))),
        "ilog2" => Some(Expect::OptI(if a.sign() == Ordering::Greater {
            let (x, y) = a.log2();
            (x == y).then_some(x)
        } else {
            None
        })),
        "flog2" => Some(Expect::OptI((a.sign() == Ordering::Greater).then(|| a.log2().0))),
        "clog2" => Some(Expect::OptI((a.sign() == Ordering::Greater).then(|| a.log2().1))),
        _ => None,
    }
}

pub struct Parts {
    pub poly: Vec<BigInt>,
    pub lo: BigInt,
    pub hi: BigInt,
    pub d: usize,
}

/// None: as expected; Some((class, what is wrong)) otherwise
pub fn judge(v: &Val, e: &Expect) -> Option<(&'static str, String)> {
    let wrong = |w: String| Some(("wrong-answer", w));
    match (e, v) {
        (Expect::Skip, _) => None,
        (Expect::Refuse, v) => wrong(format!("there is no result, got {}", exec::canon(v))),
        (Expect::Absent, Val::Absent) => None,
        (Expect::Absent, v) => wrong(format!("expected no result, got {}", exec::canon(v))),
        (_, Val::Absent) => wrong("reported that there is no result".into()),
        (Expect::Ord(a), Val::Ord(b)) if a == b => None,
        (Expect::Bool(a), Val::Bool(b)) if a == b => None,
        (Expect::Int(a), Val::Int(b)) if a == b => None,
        (Expect::OptI(a), Val::OptI(b)) if a == b => None,
        (Expect::OptInt(a), Val::OptInt(b)) if a == b => None,
        (Expect::OptRat(a), Val::OptRat(b)) if same_rat(a, b) => None,
        (Expect::Num(m), v) => match exec::num_parts(v) {
            None => wrong(format!("expected a number, got {}", exec::canon(v))),
            Some((poly, lo, hi, d)) => judge_num(&Parts { poly, lo, hi, d }, m),
        },
        (e, v) => wrong(format!("expected {e:?}, got {}", exec::canon(v))),
    }
}
fn same_rat(a: &Option<Q>, b: &Option<Q>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => !b.denom().is_zero() && a.numer() * b.denom() == b.numer() * a.denom(),
        (None, None) => true,
        _ => false,
    }
}

fn text(p: &[BigInt]) -> String {
    p.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

fn encloses(n: &Parts, approx: &dyn Fn(usize) -> (BigInt, BigInt)) -> bool {
    // precision beyond the model's: compare at the model's
    let cap = field::W - 300;
    if n.d <= cap {
        let (lo, hi) = approx(cap);
        let s = cap - n.d;
        (&n.lo << s) <= hi && (&n.hi << s) >= lo
    } else {
        let (lo, hi) = approx(cap);
        let s = n.d - cap;
        n.lo <= (hi << s) && n.hi >= (lo << s)
    }
}

pub fn judge_num(n: &Parts, m: &Model) -> Option<(&'static str, String)> {
    if n.poly.len() < 2 {
        return Some(("bad-polynomial", format!("minimal polynomial {} is constant", text(&n.poly))));
    }
    if n.lo > n.hi {
        return Some(("bad-interval", "interval is empty".into()));
    }
    let want = match m {
        Model::F(x) => Some(x.min_poly()),
        Model::R(r) => r.min_poly(),
    };
    match want {
        Some(w) if w != n.poly => {
            return Some((
                "bad-polynomial",
                format!("minimal polynomial is {}, reported {}", text(&w), text(&n.poly)),
            ))
        }
        Some(_) => {}
        None => {
            if let Model::R(r) = m {
                if let Some(x) = judge_root_poly(n, r) {
                    return Some(x);
                }
            }
        }
    }
    let inside = match m {
        Model::F(x) => match x.to_rat() {
            Some(x) => {
                let s = x * Q::from(BigInt::one() << n.d);
                Q::from(n.lo.clone()) <= s && s <= Q::from(n.hi.clone())
            }
            None => encloses(n, &|b| x.approx(b)),
        },
        Model::R(r) => encloses(n, &|b| r.approx(b)),
    };
    if !inside {
        return Some(("bad-interval", format!("[{}, {}]/2^{} does not contain the value", n.lo, n.hi, n.d)));
    }
    let c = field::count(&n.poly, &n.lo, &n.hi, n.d);
    if c != 1 {
        return Some(("bad-interval", format!("[{}, {}]/2^{} contains {c} roots of {}", n.lo, n.hi, n.d, text(&n.poly))));
    }
    None
}

/// the polynomial reported for x^(p/q), x irrational: must be primitive, have the value as a
/// root, and be irreducible
fn judge_root_poly(n: &Parts, r: &RootOf) -> Option<(&'static str, String)> {
    let q = r.e.denom().to_usize()?;
    let y = r.x.powi(r.e.numer().to_i64()?)?;
    let f = y.min_poly();
    let mut big = vec![Q::zero(); (f.len() - 1) * q + 1];
    for (i, c) in f.iter().enumerate() {
        big[i * q] = Q::from(c.clone());
    }
    let g = oracle::q(&n.poly);
    if oracle::primitive(&g) != n.poly {
        return Some(("bad-polynomial", format!("{} is not primitive with positive leading coefficient", text(&n.poly))));
    }
    let (h, rem) = oracle::pdivrem(&big, &g);
    if !rem.is_empty() {
        return Some(("bad-polynomial", format!("{} does not divide the polynomial of the root", text(&n.poly))));
    }
    if h.len() > 1 {
        // the value must be a root of g, not of the cofactor
        let h = oracle::primitive(&h);
        let h = oracle::primitive(&oracle::squarefree_part(&oracle::q(&h)));
        let cap = field::W - 320;
        let (lo, hi) = r.approx(cap);
        let in_h = field::count(&h, &lo, &hi, cap);
        let in_g = field::count(&n.poly, &lo, &hi, cap);
        if in_g == 0 && in_h > 0 {
            return Some(("bad-polynomial", format!("the value is not a root of {}", text(&n.poly))));
        }
    }
    if !oracle::irreducible(&n.poly) {
        return Some(("bad-polynomial", format!("{} is reducible", text(&n.poly))));
    }
    None
}

/// models of all results of one task, and the violations found on the way
pub fn walk(ops: &[Rec], shared: &Ms) -> (Ms, Vec<(usize, &'static str, String)>, u64) {
    let mut own: Ms = vec![];
    let mut out = vec![];
    let mut n = 0;
    for (i, r) in ops.iter().enumerate() {
        let mut m = None;
        if let Some(res) = &r.res {
            let e = model_op(&r.op, shared, &own);
            if let Expect::Num(x) = &e {
                m = Some(x.clone());
            }
            match res {
                Ok(v) => {
                    if !matches!(e, Expect::Skip) {
                        n += 1;
                    }
                    if let Some((c, w)) = judge(v, &e) {
                        out.push((i, c, w));
                        m = None;
                    }
                }
                Err(p) => {
                    if !r.fault && !matches!(e, Expect::Skip | Expect::Refuse) {
                        out.push((i, "panic", p.clone()));
                    }
                    m = None;
                }
            }
        }
        own.push(m);
    }
    (own, out, n)
}
