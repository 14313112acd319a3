//! Executes the operations of a plan against the real library.

use algsim_rt::plan::Plan;
use algsim_rt::rt;
use algsim_rt::streams::{self, SimRng, Stream};
use algebraics::interval_arithmetic::DyadicFractionInterval as Iv;
use algebraics::mod_int::{KnownPrime, ModularInteger};
use algebraics::polynomial::{Polynomial, PolynomialFactor, PolynomialFactors};
use algebraics::traits::{ExactDiv, ExtendedGCD, IntervalUnion, GCD};
#[cfg(feature = "alg")]
use algebraics::traits::ExactDivAssign;
#[cfg(feature = "alg")]
use algebraics::RealAlgebraicNumber as Num;
use num_bigint::BigInt;
use num_rational::Ratio;
#[cfg(feature = "alg")]
use num_traits::{One, Pow, Signed, ToPrimitive, Zero};
use std::cmp::Ordering;
use std::fmt::{self, Write as _};

pub mod ops;

#[derive(Clone, Debug)]
pub enum Val {
    Iv(Iv),
    Fac { f: PolynomialFactors<BigInt>, draws: u64, biased: u64, input_ok: bool },
    #[cfg(feature = "alg")]
    Num(Box<Num>),
    Int(BigInt),
    OptI(Option<i64>),
    OptInt(Option<BigInt>),
    OptRat(Option<Ratio<BigInt>>),
    Ord(Ordering),
    Bool(bool),
    Text(String),
    Fmt(FmtOut),
    Obj(ops::Obj),
    /// a checked operation reported that there is no result
    Absent,
}

#[derive(Clone, Debug, Default)]
pub struct FmtOut {
    pub text: String,
    pub err: bool,
    /// the sink refused a write
    pub refused: bool,
    /// write calls after the refused one
    pub after: u32,
    pub calls: u32,
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub op: String,
    pub start: u64,
    pub end: u64,
    pub steps: u64,
    /// None: not executed (no-op, or an operand is missing because its operation was cut short)
    pub res: Option<Result<Val, String>>,
    /// an injected fault hit this operation
    pub fault: bool,
}
impl Rec {
    pub fn canon(&self) -> String {
        match &self.res {
            None => "-".into(),
            Some(Err(e)) => format!("panic: {}", e.split(" at ").next().unwrap_or("")),
            Some(Ok(v)) => canon(v),
        }
    }
}

pub fn canon(v: &Val) -> String {
    match v {
        Val::Iv(i) => format!("[{} {}]/2^{}", i.lower_bound_numer(), i.upper_bound_numer(), i.log2_denom()),
        Val::Fac { f, .. } => canon_factors(f),
        #[cfg(feature = "alg")]
        Val::Num(n) => format!(
            "({})@[{} {}]/2^{}",
            poly_text(n.minimal_polynomial()),
            n.interval().lower_bound_numer(),
            n.interval().upper_bound_numer(),
            n.interval().log2_denom()
        ),
        Val::Int(i) => format!("{i}"),
        Val::OptI(i) => format!("{i:?}"),
        Val::OptInt(i) => i.as_ref().map_or("none".into(), |i| format!("{i}")),
        Val::OptRat(i) => i.as_ref().map_or("none".into(), |i| format!("{}/{}", i.numer(), i.denom())),
        Val::Ord(o) => format!("{o:?}"),
        Val::Bool(b) => format!("{b}"),
        Val::Text(t) => t.clone(),
        Val::Fmt(f) => format!("{:?} err={} refused={} after={}", f.text, f.err, f.refused, f.after),
        Val::Obj(o) => ops::text(o),
        Val::Absent => "absent".into(),
    }
}
pub fn poly_text(p: &Polynomial<BigInt>) -> String {
    let v: Vec<String> = (0..p.len()).map(|i| p.coefficient(i).to_string()).collect();
    v.join(",")
}
pub fn coeffs(p: &Polynomial<BigInt>) -> Vec<BigInt> {
    (0..p.len()).map(|i| p.coefficient(i)).collect()
}
pub fn canon_factors(f: &PolynomialFactors<BigInt>) -> String {
    let mut v: Vec<String> = f
        .polynomial_factors
        .iter()
        .map(|x| format!("({})^{}", poly_text(&x.polynomial), x.power))
        .collect();
    v.sort();
    format!("{} {}", f.constant_factor, v.join(" "))
}

/// a destination for formatted text that fails as told
struct Sink {
    out: FmtOut,
    byte: Option<usize>,
    call: Option<u32>,
    panic_call: Option<u32>,
}
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        rt::quiet_keep(|| {
            if self.out.refused {
                self.out.after += 1;
                return Err(fmt::Error);
            }
            self.out.calls += 1;
            if self.panic_call == Some(self.out.calls) {
                panic!("injected panic of the sink");
            }
            if self.call == Some(self.out.calls) {
                self.out.refused = true;
                return Err(fmt::Error);
            }
            if let Some(b) = self.byte {
                if self.out.text.len() + s.len() > b {
                    // a short write: the beginning is accepted, then the sink is full
                    let room = b - self.out.text.len();
                    let cut = (0..=room).rev().find(|&i| s.is_char_boundary(i)).unwrap_or(0);
                    self.out.text.push_str(&s[..cut]);
                    self.out.refused = true;
                    return Err(fmt::Error);
                }
            }
            self.out.text.push_str(s);
            Ok(())
        })
    }
}

pub fn bi(s: &str) -> Option<BigInt> {
    s.parse().ok()
}
pub fn poly(s: &str) -> Option<Polynomial<BigInt>> {
    if s == "0" || s.is_empty() {
        return Some(Polynomial::from(Vec::<BigInt>::new()));
    }
    let v: Option<Vec<BigInt>> = s.split(',').map(bi).collect();
    Some(v?.into())
}
pub fn rat(s: &str) -> Option<Ratio<BigInt>> {
    match s.split_once('/') {
        None => Some(Ratio::from(bi(s)?)),
        Some((a, b)) => Some(Ratio::new(bi(a)?, bi(b)?)),
    }
}

/// values readable by all tasks; written before the tasks start
static mut SHARED: Vec<Option<Val>> = Vec::new();
static mut HIST: Vec<Vec<Rec>> = Vec::new();

#[allow(static_mut_refs)]
pub fn history() -> &'static Vec<Vec<Rec>> {
    unsafe { &HIST }
}
#[allow(static_mut_refs)]
fn hist_mut() -> &'static mut Vec<Vec<Rec>> {
    unsafe { &mut HIST }
}
#[allow(static_mut_refs)]
pub fn shared() -> &'static Vec<Option<Val>> {
    unsafe { &SHARED }
}
#[allow(static_mut_refs)]
fn shared_mut() -> &'static mut Vec<Option<Val>> {
    unsafe { &mut SHARED }
}

pub enum Step {
    Nop,
    Missing,
    Bad,
    Run(Box<dyn FnOnce() -> Val>),
}

macro_rules! some {
    ($e:expr) => {
        match $e {
            Some(x) => x,
            None => return Step::Bad,
        }
    };
}

#[cfg(feature = "alg")]
fn opnd(name: &str, own: &[Rec]) -> Option<Option<&'static Num>> {
    // operands live until the process ends; own results are only appended
    let k: usize = name.get(1..)?.parse().ok()?;
    let v = match name.as_bytes()[0] {
        b's' => shared().get(k).and_then(|x| x.as_ref()),
        b't' => own.get(k).and_then(|r| r.res.as_ref()).and_then(|r| r.as_ref().ok()),
        _ => return None,
    };
    Some(match v {
        Some(Val::Num(n)) => {
            let p: *const Num = &**n;
            Some(unsafe { &*p })
        }
        _ => None,
    })
}
#[cfg(feature = "alg")]
macro_rules! num {
    ($name:expr, $own:expr) => {
        match opnd(some!($name), $own) {
            None => return Step::Bad,
            Some(None) => return Step::Missing,
            Some(Some(n)) => n,
        }
    };
}

fn iv3(f: &mut std::str::Split<char>) -> Option<Iv> {
    let (a, b, d) = (bi(f.next()?)?, bi(f.next()?)?, f.next()?.parse().ok()?);
    if a > b {
        return None;
    }
    Some(Iv::new(a, b, d))
}

fn run(f: impl FnOnce() -> Val + 'static) -> Step {
    Step::Run(Box::new(f))
}

type MI = ModularInteger<i64, KnownPrime<i64>>;
type MP = Polynomial<ModularInteger<i32, KnownPrime<i32>>>;

pub fn prepare(op: &str, own: &[Rec]) -> Step {
    let op = op.split(" | ").next().unwrap();
    let mut f = op.split(' ');
    let name = f.next().unwrap();
    match name {
        "nop" => Step::Nop,
        "sqrt2" | "ln2" => {
            let p: usize = some!(f.next().and_then(|x| x.parse().ok()));
            if name == "sqrt2" {
                run(move || Val::Iv(Iv::sqrt_2(p)))
            } else {
                run(move || Val::Iv(Iv::natural_log_of_2(p)))
            }
        }
        "log" => {
            let i = some!(iv3(&mut f));
            run(move || Val::Iv(i.log()))
        }
        "exp" => {
            let i = some!(iv3(&mut f));
            run(move || Val::Iv(i.exp()))
        }
        "intoexp" => {
            let i = some!(iv3(&mut f));
            run(move || Val::Iv(i.into_exp()))
        }
        "factor" => {
            let spec = some!(f.next());
            let p = some!(poly(some!(f.next())));
            if spec == "int" {
                run(move || {
                    let t = rt::current_task();
                    let (d0, b0) = if t == rt::NOTASK { (0, 0) } else { streams::internal_draws(t) };
                    let keep = p.clone();
                    let f = p.factor();
                    let (d, b) = if t == rt::NOTASK { (0, 0) } else { streams::internal_draws(t) };
                    Val::Fac { f, draws: d - d0, biased: b - b0, input_ok: keep == p }
                })
            } else {
                let mut r = SimRng(some!(Stream::parse(spec)));
                run(move || {
                    let keep = p.clone();
                    let f = p.factor_with_rng(&mut r);
                    Val::Fac { f, draws: r.0.draws, biased: r.0.biased, input_ok: keep == p }
                })
            }
        }
        // the source dies at some draw; then the same polynomial is factored again with a good one
        "refactor" => {
            let k: u64 = some!(f.next().and_then(|x| x.parse().ok()));
            let seed: u64 = some!(f.next().and_then(|x| x.parse().ok()));
            let p = some!(poly(some!(f.next())));
            run(move || {
                let keep = p.clone();
                let mut r = SimRng(Stream::parse(&format!("panic:{k}:{seed}")).unwrap());
                let died = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.factor_with_rng(&mut r)));
                let input_ok = keep == p;
                let first = died.ok();
                let reached = r.0.panic_at == 0;
                // the source recovers (or never got as far as its failure) and goes on being used
                r.0.panic_at = 0;
                let f = p.factor_with_rng(&mut r);
                rt::quiet(|| {
                    let mut t = format!("{}", canon_factors(&f));
                    if !input_ok {
                        t = "input changed".into();
                    }
                    match first {
                        Some(f1) if reached => t = format!("failure of the source swallowed: {}", canon_factors(&f1)),
                        Some(f1) if canon_factors(&f1) != canon_factors(&f) => t = "two different results".into(),
                        _ => {}
                    }
                    Val::Text(t)
                })
            })
        }
        "fmt" => {
            let kind = some!(f.next());
            let sink = some!(f.next());
            let (k, n) = some!(sink.split_once(':'));
            let n: usize = some!(n.parse().ok());
            let mut s = Sink {
                out: FmtOut::default(),
                byte: (k == "byte").then_some(n),
                call: (k == "call").then_some(n as u32),
                panic_call: (k == "panic").then_some(n as u32),
            };
            macro_rules! go {
                ($fmt:literal, $v:expr) => {{
                    let v = $v;
                    run(move || {
                        let r = write!(s, $fmt, v);
                        s.out.err = r.is_err();
                        Val::Fmt(s.out)
                    })
                }};
            }
            match kind {
                "poly" => go!("{}", some!(poly(some!(f.next())))),
                "polydbg" => go!("{:?}", some!(poly(some!(f.next())))),
                "polyrat" => {
                    let v: Option<Vec<Ratio<BigInt>>> = some!(f.next()).split(',').map(rat).collect();
                    go!("{}", Polynomial::from(some!(v)))
                }
                "polypoly" => {
                    let v: Option<Vec<Polynomial<BigInt>>> = some!(f.next()).split(';').map(poly).collect();
                    go!("{}", Polynomial::from(some!(v)))
                }
                "polymod" => {
                    let m: i32 = some!(f.next().and_then(|x| x.parse().ok()));
                    let v: Option<Vec<_>> = some!(f.next())
                        .split(',')
                        .map(|x| x.parse().ok().map(|x: i32| ModularInteger::new(x, KnownPrime::new_unsafe(m))))
                        .collect();
                    go!("{}", MP::from(some!(v)))
                }
                "factor" => {
                    let power: usize = some!(f.next().and_then(|x| x.parse().ok()));
                    go!("{}", PolynomialFactor { polynomial: some!(poly(some!(f.next()))), power })
                }
                "iv" => go!("{}", some!(iv3(&mut f))),
                "ivdbg" => go!("{:?}", some!(iv3(&mut f))),
                "ivalt" => go!("{:#?}", some!(iv3(&mut f))),
                "poly3" => {
                    let v: Option<Vec<Polynomial<Polynomial<BigInt>>>> = some!(f.next())
                        .split('|')
                        .map(|x| x.split(';').map(poly).collect::<Option<Vec<_>>>().map(Polynomial::from))
                        .collect();
                    go!("{}", Polynomial::from(some!(v)))
                }
                "polyi" => {
                    let v: Option<Vec<i64>> = some!(f.next()).split(',').map(|x| x.parse().ok()).collect();
                    go!("{}", Polynomial::from(some!(v)))
                }
                "factors" => {
                    let p = some!(poly(some!(f.next())));
                    let p: Polynomial<Ratio<BigInt>> = p.iter().map(Ratio::from).collect::<Vec<_>>().into();
                    go!("{:?}", p.square_free_factorization_using_yuns_algorithm())
                }
                "factorrat" => {
                    let power: usize = some!(f.next().and_then(|x| x.parse().ok()));
                    let v: Option<Vec<Ratio<BigInt>>> = some!(f.next()).split(',').map(rat).collect();
                    go!("{}", PolynomialFactor { polynomial: Polynomial::from(some!(v)), power })
                }
                "modbig" => {
                    let v = some!(bi(some!(f.next())));
                    let m = some!(bi(some!(f.next())));
                    go!("{}", ModularInteger::new(v, m))
                }
                "mod" => {
                    let v: i64 = some!(f.next().and_then(|x| x.parse().ok()));
                    let m: i64 = some!(f.next().and_then(|x| x.parse().ok()));
                    let form: u32 = f.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                    use algebraics::mod_int::*;
                    // the kind of modulus varies
                    match (form, m) {
                        (1, _) if m % 2 == 1 => go!("{}", ModularInteger::new(v, KnownOdd::new_unsafe(m))),
                        (2, _) if m % 2 == 1 => go!("{}", ModularInteger::new(v, KnownOdd::new_unsafe(KnownPrime::new_unsafe(m)))),
                        (3, _) => go!("{}", ModularInteger::new(v as u64, m as u64)),
                        (4, 2) => go!("{}", ModularInteger::new(v, Mod2)),
                        (4, 3) => go!("{}", ModularInteger::new(v, KnownPrime::new_unsafe(Mod3))),
                        (4, 7) => go!("{}", ModularInteger::new(v, Mod7)),
                        (4, 16) => go!("{}", ModularInteger::new(v, Mod16)),
                        (5, _) => go!("{}", ModularInteger::new(v as i128, m as i128)),
                        (3 | 4, _) => go!("{}", ModularInteger::new(v, m)),
                        _ => go!("{}", MI::new(v, KnownPrime::new_unsafe(m))),
                    }
                }
                #[cfg(feature = "alg")]
                "num" => {
                    let p = some!(poly(some!(f.next())));
                    go!("{:?}", Num::new_unchecked(p, some!(iv3(&mut f))))
                }
                #[cfg(feature = "alg")]
                "numalt" => {
                    let p = some!(poly(some!(f.next())));
                    go!("{:#?}", Num::new_unchecked(p, some!(iv3(&mut f))))
                }
                #[cfg(feature = "alg")]
                "numdata" => {
                    let p = some!(poly(some!(f.next())));
                    go!("{:?}", Num::new_unchecked(p, some!(iv3(&mut f))).into_data())
                }
                #[cfg(not(feature = "alg"))]
                "num" | "numalt" | "numdata" => Step::Missing,
                _ => Step::Bad,
            }
        }
        "obj" | "v" => ops::prepare(name, f),
        // read-only operations for the sharing checks; the values are part of the operation
        "p2" => {
            let what = some!(f.next()).to_string();
            let a = some!(poly(some!(f.next())));
            let b = some!(poly(some!(f.next())));
            run(move || Val::Text(poly_op2(&what, &a, &b)))
        }
        "p1" => {
            let what = some!(f.next()).to_string();
            let a = some!(poly(some!(f.next())));
            run(move || Val::Text(poly_op1(&what, &a)))
        }
        "i2" => {
            let what = some!(f.next()).to_string();
            let a = some!(iv3(&mut f));
            let b = some!(iv3(&mut f));
            run(move || Val::Text(iv_op2(&what, &a, &b)))
        }
        "m2" => {
            let what = some!(f.next()).to_string();
            let mut n = || f.next().and_then(|x| x.parse::<i64>().ok());
            let (a, b, m) = (some!(n()), some!(n()), some!(n()));
            run(move || {
                let (a, b) = (MI::new(a, KnownPrime::new_unsafe(m)), MI::new(b, KnownPrime::new_unsafe(m)));
                Val::Text(match &what[..] {
                    "add" => format!("{:?}", a + b),
                    "sub" => format!("{:?}", a - b),
                    "mul" => format!("{:?}", a * b),
                    "div" => format!("{:?}", a.checked_exact_div(&b)),
                    "inv" => format!("{:?}", a.checked_inverse()),
                    _ => format!("{:?}", a == b),
                })
            })
        }
        "pmod" => {
            let what = some!(f.next()).to_string();
            let m: i32 = some!(f.next().and_then(|x| x.parse().ok()));
            let mut p = || -> Option<MP> {
                let v: Option<Vec<_>> = f
                    .next()?
                    .split(',')
                    .map(|x| x.parse().ok().map(|x: i32| ModularInteger::new(x, KnownPrime::new_unsafe(m))))
                    .collect();
                Some(v?.into())
            };
            let (a, b) = (some!(p()), some!(p()));
            run(move || {
                Val::Text(match &what[..] {
                    "gcd" => format!("{}", a.gcd(&b)),
                    "mul" => format!("{}", &a * &b),
                    "divrem" => format!("{:?}", a.clone().checked_div_rem(&b).map(|(q, r)| (q.to_string(), r.to_string()))),
                    "egcd" => {
                        let r = a.extended_gcd(&b);
                        format!("{} {} {}", r.gcd, r.x, r.y)
                    }
                    _ => format!("{}", &a + &b),
                })
            })
        }
        _ => prepare_num(name, f, own),
    }
}

fn poly_op2(what: &str, a: &Polynomial<BigInt>, b: &Polynomial<BigInt>) -> String {
    match what {
        "add" => poly_text(&(a + b)),
        "sub" => poly_text(&(a - b)),
        "mul" => poly_text(&(a * b)),
        "gcd" => ratio_poly(a).gcd(&ratio_poly(b)).to_string(),
        "lcm" => ratio_poly(a).lcm(&ratio_poly(b)).to_string(),
        "resultant" => a.clone().resultant(b.clone()).to_string(),
        "pdivrem" => format!("{:?}", a.clone().checked_pseudo_div_rem(b)),
        _ => format!("{}", a == b),
    }
}
fn ratio_poly(a: &Polynomial<BigInt>) -> Polynomial<Ratio<BigInt>> {
    (0..a.len()).map(|i| Ratio::from(a.coefficient(i))).collect()
}
fn poly_op1(what: &str, a: &Polynomial<BigInt>) -> String {
    match what {
        "derivative" => poly_text(&a.derivative()),
        "content" => a.content().to_string(),
        "primitive" => poly_text(&a.primitive_part()),
        "sturm" => a.to_primitive_sturm_sequence().iter().map(poly_text).collect::<Vec<_>>().join(";"),
        "squarefree" => {
            let r = ratio_poly(a).square_free_factorization_using_yuns_algorithm();
            format!("{} {}", r.constant_factor, r.polynomial_factors.iter().map(|p| p.to_string()).collect::<Vec<_>>().join(";"))
        }
        "eval" => (-3..4i32).map(|x| a.eval(&BigInt::from(x)).to_string()).collect::<Vec<_>>().join(","),
        "factor" => canon_factors(&a.factor()),
        "maxnorm" => a.max_norm().to_string(),
        "text" => a.to_string(),
        _ => format!("{:?}", a.iter().rev().map(|x| x.to_string()).collect::<Vec<_>>()),
    }
}
fn iv_op2(what: &str, a: &Iv, b: &Iv) -> String {
    let r = match what {
        "add" => a + b,
        "sub" => a - b,
        "mul" => a * b,
        "div" => {
            if b.contains_zero() {
                return "-".into();
            }
            a / b
        }
        "union" => a.interval_union(b),
        "abs" => a.abs(),
        "square" => a.square(),
        "floor" => a.floor(3),
        "ceil" => a.ceil(3),
        "agm" => a.abs().arithmetic_geometric_mean(&b.abs()),
        "sqrt" => a.abs().sqrt(),
        _ => a.to_converted_log2_denom(b.log2_denom()),
    };
    canon(&Val::Iv(r))
}

#[cfg(not(feature = "alg"))]
fn prepare_num(_: &str, _: std::str::Split<char>, _: &[Rec]) -> Step {
    Step::Missing
}

#[cfg(feature = "alg")]
fn boxed(n: Num) -> Val {
    Val::Num(Box::new(n))
}

#[cfg(feature = "alg")]
fn prepare_num(name: &str, mut f: std::str::Split<char>, own: &[Rec]) -> Step {
    match name {
        "root" => {
            let p = some!(poly(some!(f.next())));
            let i = some!(iv3(&mut f));
            run(move || boxed(Num::new_unchecked(p, i)))
        }
        "int" => {
            let v = some!(bi(some!(f.next())));
            // the source type varies
            let form: u32 = f.next().and_then(|x| x.parse().ok()).unwrap_or(0);
            run(move || {
                boxed(match form {
                    1 => v.to_i8().map(Num::from),
                    2 => v.to_u8().map(Num::from),
                    3 => v.to_i16().map(Num::from),
                    4 => v.to_u16().map(Num::from),
                    5 => v.to_i32().map(Num::from),
                    6 => v.to_u32().map(Num::from),
                    7 => v.to_i64().map(Num::from),
                    8 => v.to_u64().map(Num::from),
                    9 => v.to_i128().map(Num::from),
                    10 => v.to_u128().map(Num::from),
                    11 => v.to_isize().map(Num::from),
                    12 => v.to_usize().map(Num::from),
                    13 => v.to_biguint().map(Num::from),
                    14 => Some(Num::from(Ratio::from(v.clone()))),
                    15 if v.is_zero() => Some(Num::zero()),
                    15 if v.is_one() => Some(Num::one()),
                    15 if (-&v).is_one() => Some(Num::negative_one()),
                    _ => None,
                }
                .unwrap_or_else(|| Num::from(v)))
            })
        }
        "rat" => {
            let v = some!(rat(some!(f.next())));
            let form: u32 = f.next().and_then(|x| x.parse().ok()).unwrap_or(0);
            run(move || {
                macro_rules! by {
                    ($f:ident) => {
                        match (v.numer().$f(), v.denom().$f()) {
                            (Some(n), Some(d)) => Num::from(Ratio::new(n, d)),
                            _ => Num::from(v),
                        }
                    };
                }
                boxed(match form {
                    1 => by!(to_i64),
                    2 => by!(to_i128),
                    3 => by!(to_u64),
                    4 => by!(to_i32),
                    5 => by!(to_i8),
                    6 => by!(to_u8),
                    7 => by!(to_i16),
                    8 => by!(to_u16),
                    9 => by!(to_u32),
                    10 => by!(to_u128),
                    11 => by!(to_isize),
                    12 => by!(to_usize),
                    13 => by!(to_biguint),
                    _ => Num::from(v),
                })
            })
        }
        "add" | "sub" | "mul" | "div" | "rem" | "cmp" | "eq" | "cdiv" | "abssub" | "max" | "min" => {
            let a = num!(f.next(), own);
            let b = num!(f.next(), own);
            // the calling convention (by value, by reference, assigning) varies
            let form: u32 = f.next().and_then(|x| x.parse().ok()).unwrap_or(0);
            macro_rules! op {
                ($op:tt, $assign:tt) => {
                    run(move || boxed(match form {
                        0 => a $op b,
                        1 => a.clone() $op b,
                        2 => a $op b.clone(),
                        3 => a.clone() $op b.clone(),
                        4 => { let mut x = a.clone(); x $assign b; x }
                        _ => { let mut x = a.clone(); x $assign b.clone(); x }
                    }))
                };
            }
            match name {
                "add" => op!(+, +=),
                "sub" => op!(-, -=),
                "mul" => op!(*, *=),
                "div" => op!(/, /=),
                "rem" => op!(%, %=),
                "abssub" => run(move || boxed(a.abs_sub(b))),
                "max" => run(move || boxed(if form % 2 == 0 { a.clone().max(b.clone()) } else { a.max(b).clone() })),
                "min" => run(move || boxed(if form % 2 == 0 { a.clone().min(b.clone()) } else { a.min(b).clone() })),
                "cdiv" => run(move || {
                    match match form {
                        0 => a.checked_exact_div(b),
                        1 => a.clone().checked_exact_div(b),
                        2 => a.checked_exact_div(b.clone()),
                        3 => a.clone().checked_exact_div(b.clone()),
                        4 => {
                            let mut x = a.clone();
                            x.checked_exact_div_assign(b).ok().map(|_| x)
                        }
                        _ => {
                            let mut x = a.clone();
                            x.checked_exact_div_assign(b.clone()).ok().map(|_| x)
                        }
                    } {
                        Some(x) => boxed(x),
                        None => Val::Absent,
                    }
                }),
                "cmp" => run(move || {
                    Val::Ord(match form {
                        0 => a.cmp(b),
                        1 => a.partial_cmp(b).unwrap(),
                        2 => {
                            if a < b {
                                Ordering::Less
                            } else if a > b {
                                Ordering::Greater
                            } else {
                                Ordering::Equal
                            }
                        }
                        _ => b.cmp(a).reverse(),
                    })
                }),
                _ => run(move || Val::Bool(if form % 2 == 0 { a == b } else { !(a != b) })),
            }
        }
        "pow" | "cpow" => {
            let a = num!(f.next(), own);
            let e = some!(rat(some!(f.next())));
            let form: u32 = f.next().and_then(|x| x.parse().ok()).unwrap_or(0);
            let panics = name == "pow";
            // the type of the exponent and the calling convention vary
            run(move || {
                let small = match (e.numer().to_i32(), e.denom().to_i32()) {
                    (Some(n), Some(d)) if n.unsigned_abs() < 1 << 20 && d < 1 << 20 => Some((n, d)),
                    _ => None,
                };
                macro_rules! by {
                    ($e:expr) => {{
                        let e = $e;
                        match (panics, form % 4) {
                            (true, 0) => boxed(a.pow(e)),
                            (true, 1) => boxed(a.clone().pow(e)),
                            (true, 2) => boxed(a.pow(&e)),
                            (true, _) => boxed(a.clone().pow(&e)),
                            (false, k) => match match k {
                                0 => a.checked_pow(e),
                                1 => a.clone().checked_into_pow(e),
                                2 => a.checked_pow(&e),
                                _ => a.clone().checked_into_pow(&e),
                            } {
                                Some(x) => boxed(x),
                                None => Val::Absent,
                            },
                        }
                    }};
                }
                let (n, d) = match small {
                    None => {
                        return match (form / 4, e.is_integer(), e.numer().to_i128(), e.numer().to_u128()) {
                            (1, true, Some(n), _) => by!(n),
                            (2, true, _, Some(n)) => by!(n),
                            (3, true, ..) => by!(e.numer().clone()),
                            (4, ..) => by!((e.numer() * -6, e.denom() * -6)),
                            _ => by!(e.clone()),
                        }
                    }
                    Some(x) => x,
                };
                match form / 4 {
                    1 if d == 1 => by!(n as i128),
                    1 => by!(Ratio::new(n as i64, d as i64)),
                    2 if d == 1 && n >= 0 => by!(n as u64),
                    2 => by!((n, d)),
                    3 if d == 1 && n.abs() < 100 => by!(n as i8),
                    3 => by!((3 * n, 3 * d)),
                    4 => by!((-2 * n as i64, -2 * d as i128)),
                    5 => by!((BigInt::from(n) * 6, BigInt::from(d) * 6)),
                    6 if d == 1 => by!(BigInt::from(n)),
                    6 => by!(Ratio::new(n, d)),
                    7 if d == 1 => by!((n, 1u8)),
                    7 if n >= 0 && d < 1000 => by!((n as usize * 2, d as u16 * 2)),
                    8 if n >= 0 => by!(Ratio::new(n as u32, d as u32)),
                    9 => by!(Ratio::new_raw(BigInt::from(n), BigInt::from(d))),
                    _ => by!(e.clone()),
                }
            })
        }
        _ => {
            let a = num!(f.next(), own);
            let form: u32 = f.next().and_then(|x| x.parse().ok()).unwrap_or(0);
            let own = form % 2 == 1;
            match name {
                "neg" => run(move || boxed(if own { -a.clone() } else { -a })),
                "recip" => run(move || boxed(a.recip())),
                "crecip" => run(move || match a.checked_recip() {
                    Some(x) => boxed(x),
                    None => Val::Absent,
                }),
                "abs" => run(move || boxed(a.abs())),
                "signum" => run(move || boxed(a.signum())),
                "copy" => run(move || boxed(if own {
                    let mut x = Num::from(5);
                    x.clone_from(a);
                    x
                } else {
                    a.clone()
                })),
                "set" => run(move || {
                    let mut x = a.clone();
                    match form % 3 {
                        0 => x.set_zero(),
                        1 => x.set_one(),
                        _ => x.set_negative_one(),
                    }
                    boxed(x)
                }),
                "floor" => run(move || boxed(if own { a.clone().into_floor() } else { a.floor() })),
                "ceil" => run(move || boxed(if own { a.clone().into_ceil() } else { a.ceil() })),
                "trunc" => run(move || boxed(if own { a.clone().into_trunc() } else { a.trunc() })),
                "fract" => run(move || boxed(if own { a.clone().into_fract() } else { a.fract() })),
                "ifloor" => run(move || Val::Int(if own { a.clone().into_integer_floor() } else { a.to_integer_floor() })),
                "iceil" => run(move || Val::Int(if own { a.clone().into_integer_ceil() } else { a.to_integer_ceil() })),
                "itrunc" => run(move || Val::Int(if own { a.clone().into_integer_trunc() } else { a.to_integer_trunc() })),
                "sign" => run(move || Val::Ord(a.cmp_with_zero())),
                "ispos" => run(move || Val::Bool(a.is_positive())),
                "isneg" => run(move || Val::Bool(a.is_negative())),
                "iszero" => run(move || Val::Bool(a.is_zero())),
                "isone" => run(move || Val::Bool(a.is_one())),
                "isnegone" => run(move || Val::Bool(a.is_negative_one())),
                "isrational" => run(move || Val::Bool(a.is_rational())),
                "isinteger" => run(move || Val::Bool(a.is_integer())),
                "toint" => run(move || Val::OptInt(a.to_integer())),
                "torat" => run(move || Val::OptRat(a.to_rational())),
                "degree" => run(move || Val::Int(a.degree().into())),
                "ilog2" => run(move || Val::OptI(a.to_integer_log2())),
                "flog2" => run(move || {
                    Val::OptI(if own { a.clone().into_checked_floor_log2() } else { a.checked_floor_log2() })
                }),
                "clog2" => run(move || {
                    Val::OptI(if own { a.clone().into_checked_ceil_log2() } else { a.checked_ceil_log2() })
                }),
                _ => Step::Bad,
            }
        }
    }
}

/// executes one operation (scheduling points on when called from a task)
fn exec_one(op: &str, own: &[Rec], fail_nth: Option<u64>) -> Rec {
    let in_task = rt::current_task() != rt::NOTASK;
    let mut rec = Rec { op: op.to_string(), start: 0, end: 0, steps: 0, res: None, fault: false };
    let l0 = if in_task {
        let (g, l) = rt::now();
        rec.start = g;
        l
    } else {
        0
    };
    match prepare(op, own) {
        Step::Nop | Step::Missing => {}
        Step::Bad => {
            eprintln!("harness error: bad operation {op:?}");
            std::process::exit(3);
        }
        Step::Run(f) => {
            let (r, fired) = rt::call(fail_nth, f);
            rec.res = Some(r);
            rec.fault = fired;
        }
    }
    if in_task {
        let (g, l) = rt::now();
        rec.end = g;
        rec.steps = l - l0;
        rt::op_boundary();
    }
    rec
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn close(fd: i32) -> i32;
    fn read(fd: i32, p: *mut u8, n: usize) -> isize;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn prctl(option: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn _exit(code: i32) -> !;
}

/// how many allocations the operation makes, found by running it in a copy of this process
fn size_of_op(op: &str) -> u64 {
    unsafe {
        let mut fds = [0i32; 2];
        if pipe(fds.as_mut_ptr()) != 0 {
            return 0;
        }
        let pid = fork();
        if pid == 0 {
            prctl(1, 9, 0, 0, 0);
            let mut n = 0u64;
            if let Step::Run(f) = prepare(op, &[]) {
                let before = rt::outside_allocations();
                std::mem::forget(rt::call(None, f));
                n = rt::outside_allocations() - before;
            }
            write(fds[1], n.to_le_bytes().as_ptr(), 8);
            _exit(0);
        }
        close(fds[1]);
        let mut b = [0u8; 8];
        if pid < 0 || read(fds[0], b.as_mut_ptr(), 8) != 8 {
            b = [0; 8];
        }
        close(fds[0]);
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        u64::from_le_bytes(b)
    }
}

/// runs the plan; afterwards `history()` holds: tasks 0..n, then post (n), then warm (n + 1)
pub fn run_plan(plan: &Plan, on_end: fn(rt::Verdict) -> !) {
    let n = plan.tasks.len();
    rt::seed_entropy(rt::mix(plan.sched_seed ^ 77));
    streams::install(&plan.irng);
    *hist_mut() = vec![Vec::new(); n + 2];
    for op in &plan.shared {
        let r = exec_one(op, &[], None);
        shared_mut().push(r.res.and_then(|r| r.ok()));
    }
    for op in &plan.warm {
        let r = exec_one(op, &history()[n + 1], None);
        hist_mut()[n + 1].push(r);
    }
    let mut ops = plan.tasks.clone();
    let last_waits = !plan.post.is_empty();
    if last_waits {
        ops.push(plan.post.clone());
    }
    for (t, ops) in ops.iter().enumerate() {
        // results are referred to by address: never reallocate
        hist_mut()[t].reserve(ops.len() + 1);
    }
    let cfg = rt::Cfg {
        n: ops.len(),
        mode: plan.mode.clone(),
        seed: plan.sched_seed,
        max_steps: plan.max_steps,
        spurious: plan.spurious,
        last_waits,
        fail_size: if plan.prop == "C13" || plan.alloc_faults.iter().any(|x| x.2 >> 32 != 0) { 1 } else { rt::LARGE_ALLOC },
        decisions: plan.decisions.clone(),
    };
    let mut faults = plan.alloc_faults.clone();
    for (t, i, n) in &mut faults {
        if *n >> 32 != 0 {
            let part = *n & 0xffff_ffff;
            let op = plan.tasks.get(*t).and_then(|x| x.get(*i)).map_or("nop", |x| &x[..]);
            *n = match size_of_op(op) {
                0 => part % 64,
                all => (all as u128 * part as u128 / 1_000_000) as u64,
            };
        }
    }
    rt::run(
        cfg,
        move |t| {
            for (i, op) in ops[t].iter().enumerate() {
                let fail = faults.iter().find(|x| x.0 == t && x.1 == i).map(|x| x.2);
                let r = exec_one(op, &history()[t], fail);
                hist_mut()[t].push(r);
            }
        },
        on_end,
    );
}

/// executes a single operation as the only one of this process
pub fn run_alone(op: &str) -> Rec {
    exec_one(op, &[], None)
}

/// (minimal polynomial, lower numerator, upper numerator, log2 of the denominator)
pub fn num_parts(_v: &Val) -> Option<(Vec<BigInt>, BigInt, BigInt, usize)> {
    #[cfg(feature = "alg")]
    if let Val::Num(n) = _v {
        let i = n.interval();
        return Some((
            coeffs(n.minimal_polynomial()),
            i.lower_bound_numer().clone(),
            i.upper_bound_numer().clone(),
            i.log2_denom(),
        ));
    }
    None
}
