//! Operations on polynomials, intervals and modular integers that several tasks share.
//!
//! `obj KIND VALUE` makes a value, `v KIND WHAT FORM A B` works on two of them. An operand is a
//! value or `s<k>`, the k-th shared value. WHAT decides which operands matter; FORM is the calling
//! convention (by reference, by value, assigning).

use super::{bi, canon, canon_factors, poly, poly_text, rat, run, shared, Iv, Step, Val};
use algebraics::mod_int::{KnownPrime, ModularInteger, ModularReducePow};
use algebraics::polynomial::Polynomial;
use algebraics::traits::{
    CeilLog2, ExactDiv, ExactDivAssign, ExtendedGCD, FloorLog2, IntervalUnion, IntervalUnionAssign, TrailingZeros, GCD,
};
use algebraics::util;
use num_bigint::BigInt;
use num_rational::Ratio;
use num_traits::{CheckedAdd, CheckedMul, CheckedSub, Pow, ToPrimitive, Zero};

type Q = Ratio<BigInt>;
pub type MI = ModularInteger<i64, KnownPrime<i64>>;
/// any modulus, any size
type BI = ModularInteger<BigInt, BigInt>;
pub type MP = Polynomial<ModularInteger<i32, KnownPrime<i32>>>;

#[derive(Clone, Debug)]
pub enum Obj {
    P(Polynomial<BigInt>),
    Q(Polynomial<Q>),
    M(MP),
    I(Iv),
    Z(MI),
    B(BI),
}

pub fn text(o: &Obj) -> String {
    match o {
        Obj::P(p) => poly_text(p),
        Obj::Q(p) => qtext(p),
        Obj::M(p) => mtext(p),
        Obj::I(i) => canon(&Val::Iv(i.clone())),
        Obj::Z(z) => ztext(z),
        Obj::B(z) => btext(z),
    }
}
fn qtext(p: &Polynomial<Q>) -> String {
    (0..p.len()).map(|i| p.coefficient(i)).map(|c| format!("{}/{}", c.numer(), c.denom())).collect::<Vec<_>>().join(",")
}
fn mtext(p: &MP) -> String {
    p.iter().map(|c| format!("{}:{}", c.value(), **c.modulus())).collect::<Vec<_>>().join(",")
}
fn ztext(z: &MI) -> String {
    format!("{}:{}", z.value(), **z.modulus())
}
fn btext(z: &BI) -> String {
    format!("{}:{}", z.value(), z.modulus())
}

fn make(kind: &str, v: &str) -> Option<Obj> {
    Some(match kind {
        "P" => Obj::P(poly(v)?),
        "Q" => {
            let v: Option<Vec<Q>> = v.split(',').map(rat).collect();
            Obj::Q(v?.into())
        }
        "M" => {
            let (m, c) = v.split_once(':')?;
            let m: i32 = m.parse().ok()?;
            let v: Option<Vec<_>> =
                c.split(',').map(|x| x.parse().ok().map(|x: i32| ModularInteger::new(x, KnownPrime::new_unsafe(m)))).collect();
            Obj::M(v?.into())
        }
        "I" => {
            let mut f = v.split(':');
            let (a, b, d) = (bi(f.next()?)?, bi(f.next()?)?, f.next()?.parse().ok()?);
            if a > b {
                return None;
            }
            Obj::I(Iv::new(a, b, d))
        }
        "Z" => {
            let (a, m) = v.split_once(':')?;
            Obj::Z(MI::new(a.parse().ok()?, KnownPrime::new_unsafe(m.parse().ok()?)))
        }
        "B" => {
            let (a, m) = v.split_once(':')?;
            Obj::B(BI::new(bi(a)?, bi(m)?))
        }
        _ => return None,
    })
}

/// None: malformed; Some(None): the shared value is not there
fn operand(kind: &str, v: &str) -> Option<Option<&'static Obj>> {
    if let Some(k) = v.strip_prefix('s') {
        let k: usize = k.parse().ok()?;
        return Some(match shared().get(k).and_then(|x| x.as_ref()) {
            Some(Val::Obj(o)) => {
                let p: *const Obj = o;
                // shared values stay where they are until the process ends
                Some(unsafe { &*p })
            }
            _ => None,
        });
    }
    Some(Some(Box::leak(Box::new(make(kind, v)?))))
}

pub fn prepare(name: &str, mut f: std::str::Split<char>) -> Step {
    let (Some(kind), Some(what)) = (f.next(), f.next()) else { return Step::Bad };
    if name == "obj" {
        // the second word is the value
        let (kind, v) = (kind.to_string(), what.to_string());
        if make(&kind, &v).is_none() {
            return Step::Bad;
        }
        return run(move || Val::Obj(make(&kind, &v).unwrap()));
    }
    let Some(form) = f.next().and_then(|x| x.parse::<u32>().ok()) else { return Step::Bad };
    let (Some(a), Some(b)) = (f.next(), f.next()) else { return Step::Bad };
    if kind == "U" {
        let (Some(a), Some(b)) = (bi(a), bi(b)) else { return Step::Bad };
        let what = what.to_string();
        return run(move || Val::Text(int_op(&what, &a, &b)));
    }
    let (Some(a), Some(b)) = (operand(kind, a), operand(kind, b)) else { return Step::Bad };
    let (Some(a), Some(b)) = (a, b) else { return Step::Missing };
    let what = what.to_string();
    match (a, b) {
        (Obj::P(a), Obj::P(b)) => run(move || Val::Text(p_op(&what, form, a, b))),
        (Obj::Q(a), Obj::Q(b)) => run(move || Val::Text(q_op(&what, form, a, b))),
        (Obj::M(a), Obj::M(b)) => {
            // different moduli do not mix
            let same = a.is_empty() || b.is_empty() || a.nonzero_coefficient(0).unwrap().modulus() == b.nonzero_coefficient(0).unwrap().modulus();
            let b = if same { b } else { a };
            run(move || Val::Text(m_op(&what, form, a, b)))
        }
        (Obj::I(a), Obj::I(b)) => run(move || Val::Text(i_op(&what, form, a, b))),
        (Obj::Z(a), Obj::Z(b)) => {
            let b = if a.modulus() == b.modulus() { b } else { a };
            run(move || Val::Text(z_op(&what, form, a, b)))
        }
        (Obj::B(a), Obj::B(b)) => {
            let b = if a.modulus() == b.modulus() { b } else { a };
            run(move || Val::Text(b_op(&what, form, a, b)))
        }
        _ => Step::Bad,
    }
}

macro_rules! forms {
    ($form:expr, $a:expr, $b:expr, $op:tt, $assign:tt) => {
        match $form {
            0 => $a $op $b,
            1 => $a.clone() $op $b,
            2 => $a $op $b.clone(),
            3 => $a.clone() $op $b.clone(),
            4 => { let mut x = $a.clone(); x $assign $b; x }
            _ => { let mut x = $a.clone(); x $assign $b.clone(); x }
        }
    };
}
fn opt<T>(x: Option<T>, f: impl Fn(&T) -> String) -> String {
    x.map_or("none".into(), |x| f(&x))
}

pub const P_OPS: &[&str] = &[
    "add", "sub", "mul", "eq", "resultant", "pdivrem", "epdiv", "exdiv", "subgcd", "derivative", "content", "primitive", "sturm", "reduced",
    "eval", "evaliv", "factor", "norms", "text", "debug", "iter", "rev", "neg", "pow", "one", "degree", "cadd", "scale", "monomial", "collect",
];
fn p_op(what: &str, form: u32, a: &Polynomial<BigInt>, b: &Polynomial<BigInt>) -> String {
    let t = poly_text;
    let c = b.coefficient(0);
    match what {
        "add" => t(&forms!(form, a, b, +, +=)),
        "sub" => t(&forms!(form, a, b, -, -=)),
        "mul" => t(&forms!(form, a, b, *, *=)),
        "eq" => format!("{}", a == b),
        "resultant" => a.clone().resultant(b.clone()).to_string(),
        "pdivrem" => opt(a.clone().checked_pseudo_div_rem(b), |r| {
            format!("{} {} {}", t(&r.quotient), t(&r.remainder), r.factor)
        }),
        "epdiv" => opt((a * b).checked_exact_pseudo_div(b), |r| format!("{} {}", t(&r.0), r.1)),
        "exdiv" => opt(if form % 2 == 0 { (a * b).checked_exact_div(b) } else { a.clone().checked_exact_div(b) }, |r| t(r)),
        "subgcd" => t(&a.clone().subresultant_gcd(b.clone())),
        "derivative" => t(&if form % 2 == 0 { a.derivative() } else { a.clone().into_derivative() }),
        "content" => format!("{} {:?}", a.content(), a.nonzero_content()),
        "primitive" => t(&if form % 2 == 0 { a.primitive_part() } else { a.clone().into_primitive_part() }),
        "sturm" => {
            let s = if form % 2 == 0 { a.to_primitive_sturm_sequence() } else { a.clone().into_primitive_sturm_sequence() };
            s.iter().map(t).collect::<Vec<_>>().join(";")
        }
        "reduced" => format!("{} {}", a.reducing_factor(), t(&if form % 2 == 0 { a.to_reduced() } else { a.clone().into_reduced() })),
        "eval" => (-3..4i32)
            .map(|x| if form % 2 == 0 { a.eval(&BigInt::from(x)) } else { a.clone().into_eval(&BigInt::from(x)) })
            .map(|x| x.to_string())
            .collect::<Vec<_>>()
            .join(","),
        "evaliv" => {
            let at = Iv::new(c.clone(), c + 5, 3);
            canon(&Val::Iv(a.eval_generic(&at, Iv::zero(3))))
        }
        "factor" => canon_factors(&a.factor()),
        "norms" => format!("{} {} {:?}", a.max_norm(), a.manhattan_norm(), a.nonzero_max_norm()),
        "text" => a.to_string(),
        "debug" => format!("{a:?} {b:?}"),
        "iter" => a.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
        "rev" => a.clone().into_iter().rev().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
        "neg" => t(&if form % 2 == 0 { -a } else { -a.clone() }),
        "pow" => t(&a.pow(form % 4)),
        "one" => format!("{:?} {} {}", a.to_one_if_nonzero().map(|x| t(&x)), a.is_one(), a.is_zero()),
        "degree" => format!("{:?} {} {:?}", a.degree(), a.len(), a.nonzero_highest_power_coefficient()),
        "cadd" => format!("{:?} {:?} {:?}", a.checked_add(b).map(|x| t(&x)), a.checked_sub(b).map(|x| t(&x)), a.checked_mul(b).map(|x| t(&x))),
        "scale" => t(&match form {
            0 => a * &c,
            1 => a.clone() * c,
            2 => a + &c,
            3 => a.clone() + c,
            4 => a - &c,
            _ => a.clone() - c,
        }),
        "monomial" => t(&Polynomial::make_monomial(c, form as usize)),
        "collect" => t(&match form % 3 {
            0 => a.iter().collect::<Polynomial<BigInt>>(),
            1 => Polynomial::from(a.clone().into_coefficients()),
            _ => Polynomial::from(c),
        }),
        _ => "?".into(),
    }
}

pub const Q_OPS: &[&str] = &[
    "add", "sub", "mul", "div", "rem", "divrem", "gcd", "lcm", "egcd", "egcdlcm", "powmod", "monic", "squarefree", "issquarefree", "sturm",
    "resultant", "eval", "content", "reduced", "derivative", "text", "split", "pow", "scale", "eq",
];
fn q_op(what: &str, form: u32, a: &Polynomial<Q>, b: &Polynomial<Q>) -> String {
    let t = qtext;
    let c = b.coefficient(0);
    let zero = b.is_zero();
    match what {
        "add" => t(&forms!(form, a, b, +, +=)),
        "sub" => t(&forms!(form, a, b, -, -=)),
        "mul" => t(&forms!(form, a, b, *, *=)),
        "div" if !zero => t(&forms!(form, a, b, /, /=)),
        "rem" if !zero => t(&forms!(form, a, b, %, %=)),
        "divrem" => opt(a.clone().checked_div_rem(b), |r| format!("{} {}", t(&r.0), t(&r.1))),
        "gcd" => t(&a.gcd(b)),
        "lcm" => t(&a.lcm(b)),
        "egcd" => {
            let r = a.extended_gcd(b);
            format!("{} {} {}", t(&r.gcd), t(&r.x), t(&r.y))
        }
        "egcdlcm" => {
            let r = a.extended_gcd_lcm(b);
            format!("{} {} {} {}", t(&r.gcd), t(&r.lcm), t(&r.x), t(&r.y))
        }
        "powmod" => opt(a.checked_powmod(form + 2, b), |r| t(r)),
        "monic" => t(&a.clone().into_monic()),
        "squarefree" => {
            let r = a.square_free_factorization_using_yuns_algorithm();
            format!("{} {}", r.constant_factor, r.polynomial_factors.iter().map(t).collect::<Vec<_>>().join(";"))
        }
        "issquarefree" => format!("{}", a.is_square_free()),
        "sturm" => {
            let s = if form % 2 == 0 { a.to_sturm_sequence() } else { a.clone().into_sturm_sequence() };
            s.iter().map(t).collect::<Vec<_>>().join(";")
        }
        "resultant" => a.clone().resultant(b.clone()).to_string(),
        "eval" => (-2..3i32).map(|x| a.eval(&Q::new(x.into(), 3.into())).to_string()).collect::<Vec<_>>().join(","),
        "content" => format!("{} {}", a.content(), t(&a.primitive_part())),
        "reduced" => format!("{} {}", a.reducing_factor(), t(&a.to_reduced())),
        "derivative" => t(&if form % 2 == 0 { a.derivative() } else { a.clone().into_derivative() }),
        "text" => a.to_string(),
        "split" => {
            let (v, d) = a.clone().split_out_divisor();
            format!("{v:?} {d}")
        }
        "pow" => t(&a.pow(form % 4)),
        "scale" => t(&match form {
            0 => a * &c,
            1 => a.clone() * c,
            2 => a + &c,
            3 => a.clone() - c,
            _ if !c.is_zero() => a / &c,
            _ => a.clone(),
        }),
        "eq" => format!("{}", a == b),
        _ => "-".into(),
    }
}

pub const M_OPS: &[&str] = &[
    "add", "sub", "mul", "div", "rem", "divrem", "gcd", "lcm", "egcd", "powmod", "monic", "issquarefree", "resultant", "eval", "reduced",
    "derivative", "text", "pow", "eq", "neg",
];
fn m_op(what: &str, form: u32, a: &MP, b: &MP) -> String {
    let t = mtext;
    let zero = b.is_zero();
    match what {
        "add" => t(&forms!(form, a, b, +, +=)),
        "sub" => t(&forms!(form, a, b, -, -=)),
        "mul" => t(&forms!(form, a, b, *, *=)),
        "div" if !zero => t(&forms!(form, a, b, /, /=)),
        "rem" if !zero => t(&forms!(form, a, b, %, %=)),
        "divrem" => opt(a.clone().checked_div_rem(b), |r| format!("{} {}", t(&r.0), t(&r.1))),
        "gcd" => t(&a.gcd(b)),
        "lcm" => t(&a.lcm(b)),
        "egcd" => {
            let r = a.extended_gcd(b);
            format!("{} {} {}", t(&r.gcd), t(&r.x), t(&r.y))
        }
        "powmod" => opt(a.checked_powmod(BigInt::from(form * 37 + 2), b), |r| t(r)),
        "monic" => t(&a.clone().into_monic()),
        "issquarefree" if !a.is_zero() => format!("{}", a.is_square_free()),
        "resultant" if !a.is_zero() && !zero => opt(a.clone().nonzero_resultant(b.clone()), |x| format!("{}", x.value())),
        "eval" if !a.is_zero() => format!("{}", a.eval(&a.nonzero_coefficient(0).unwrap()).value()),
        "reduced" => t(&a.to_reduced()),
        "derivative" => t(&if form % 2 == 0 { a.derivative() } else { a.clone().into_derivative() }),
        "text" => a.to_string(),
        "pow" => t(&a.pow(form % 3 + 1)),
        "eq" => format!("{}", a == b),
        "neg" => t(&-a),
        _ => "-".into(),
    }
}

pub const I_OPS: &[&str] = &[
    "add", "sub", "mul", "div", "union", "abs", "square", "floor", "ceil", "sqrt", "convert", "agm", "neg", "recip", "pow", "log", "exp",
    "addint", "mulint", "addrat", "mulrat", "divint", "divrat", "ratio", "contains", "same", "text", "debug", "bounds", "fromratio", "sqrt2", "ln2",
];
fn i_op(what: &str, form: u32, a: &Iv, b: &Iv) -> String {
    let own = form % 2 == 1;
    let k = b.lower_bound_numer().clone();
    let n = form as usize * 3;
    let q = Q::new(k.clone(), BigInt::from(form + 2));
    let r = match what {
        "add" => forms!(form, a, b, +, +=),
        "sub" => forms!(form, a, b, -, -=),
        "mul" => forms!(form, a, b, *, *=),
        "div" => {
            if b.contains_zero() {
                return "-".into();
            }
            match form {
                0 => a / b,
                1 => a.clone() / b,
                2 => a / b.clone(),
                3 => match a.checked_exact_div(b) {
                    Some(x) => x,
                    None => return "none".into(),
                },
                4 => {
                    let mut x = a.clone();
                    if x.checked_exact_div_assign(b).is_err() {
                        return "none".into();
                    }
                    x
                }
                _ => a.clone() / b.clone(),
            }
        }
        "union" => match form {
            0 => a.interval_union(b),
            1 => a.clone().interval_union(b),
            2 => a.interval_union(b.clone()),
            3 => a.clone().interval_union(b.clone()),
            _ => {
                let mut x = a.clone();
                x.interval_union_assign(b);
                x
            }
        },
        "abs" => if own { a.clone().into_abs() } else { a.abs() },
        "square" => if own { a.clone().into_square() } else { a.square() },
        "floor" => if own { a.clone().into_floor(n) } else { a.floor(n) },
        "ceil" => if own { a.clone().into_ceil(n) } else { a.ceil(n) },
        "sqrt" => if own { a.abs().into_sqrt() } else { a.abs().sqrt() },
        "convert" => if own { a.clone().into_converted_log2_denom(n) } else { a.to_converted_log2_denom(b.log2_denom()) },
        "agm" => {
            let (x, y) = (a.abs(), b.abs());
            if own { x.into_arithmetic_geometric_mean(y) } else { x.arithmetic_geometric_mean(&y) }
        }
        "neg" => if own { -a.clone() } else { -a },
        "recip" => match a.checked_recip() {
            Some(x) => x,
            None => return "none".into(),
        },
        "pow" => {
            if own {
                a.clone().pow(form as i32)
            } else {
                a.pow(form as u64)
            }
        }
        "log" => {
            if a.lower_bound_numer() <= &BigInt::zero() {
                return "-".into();
            }
            a.log()
        }
        "exp" => {
            // not too large
            let x = Iv::new(a.lower_bound_numer() % 97, a.lower_bound_numer() % 97, a.log2_denom());
            if own { x.into_exp() } else { x.exp() }
        }
        "addint" => if own { a + &k } else { a.clone() - k },
        "mulint" => if own { a * &k } else { a.clone() * k },
        "addrat" => if own { a + &q } else { a.clone() - q },
        "mulrat" => if own { a * &q } else { a.clone() * q },
        "divint" => {
            if k.is_zero() {
                return "-".into();
            }
            if own { a / &k } else { a.clone() / k }
        }
        "divrat" => {
            if q.is_zero() {
                return "-".into();
            }
            if own { a / &q } else { a.clone() / q }
        }
        "ratio" => return format!("{:?}", a.to_ratio_range()),
        "contains" => return format!("{}", a.contains_zero()),
        "same" => return format!("{}", a.is_same(b)),
        "text" => return a.to_string(),
        "debug" => return format!("{a:?}"),
        "bounds" => return format!("{} {}", a.lower_bound(), a.upper_bound()),
        "fromratio" => Iv::from_ratio(q, n),
        "sqrt2" => Iv::sqrt_2(n * 5),
        "ln2" => Iv::natural_log_of_2(n * 5),
        _ => return "?".into(),
    };
    canon(&Val::Iv(r))
}

pub const Z_OPS: &[&str] = &["add", "sub", "mul", "div", "inv", "pow", "neg", "eq", "text", "checked", "from"];
macro_rules! mod_ops {
    ($name:ident, $t:ty, $e:ty, $text:expr, $modulus:expr, $from:expr) => {
        fn $name(what: &str, form: u32, a: &$t, b: &$t) -> String {
            let t = $text;
            match what {
                "add" => t(&forms!(form, a, b, +, +=)),
                "sub" => t(&forms!(form, a, b, -, -=)),
                "mul" => t(&forms!(form, a, b, *, *=)),
                "div" => opt(b.checked_inverse(), |_| t(&forms!(form, a, b, /, /=))),
                "inv" => opt(a.checked_inverse(), |x| t(x)),
                "pow" => format!("{}", a.value().pow_modular_reduce(&<$e>::from(form * 7 + 1), &$modulus(a))),
                "neg" => t(&if form % 2 == 0 { -a } else { -a.clone() }),
                "eq" => format!("{} {}", a == b, a.has_matching_moduli(b)),
                "text" => format!("{a} {a:?}"),
                "checked" => format!("{:?} {:?} {:?}", a.checked_add(b), a.checked_sub(b), a.checked_mul(b)),
                _ => $from(a, b, form),
            }
        }
    };
}
mod_ops!(z_op, MI, i64, ztext, |a: &MI| **a.modulus(), |a: &MI, b: &MI, form: u32| ztext(&match form % 3 {
    0 => MI::from_i64(*b.value(), *a.modulus()),
    1 => MI::from_u64(*b.value() as u64 * 2, *a.modulus()),
    _ => MI::from_bigint(&(BigInt::from(*b.value()) << 40), *a.modulus()),
}));
mod_ops!(b_op, BI, BigInt, btext, |a: &BI| a.modulus().clone(), |a: &BI, b: &BI, form: u32| btext(&match form % 2 {
    0 => BI::from_i64(-99 - form as i64, a.modulus().clone()),
    _ => BI::from_bigint(&(b.value() << 40), a.modulus().clone()),
}));

pub const U_OPS: &[&str] = &["gcd", "egcd", "log2", "prime", "exdiv"];
fn int_op(what: &str, a: &BigInt, b: &BigInt) -> String {
    let (x, y) = (a.to_i64().unwrap_or(7), b.to_i64().unwrap_or(5));
    match what {
        "gcd" => format!("{} {} {} {}", GCD::gcd(a, b), GCD::lcm(a, b), GCD::gcd(&x, &y), GCD::gcd(&(x as i128), &(y as i128))),
        "egcd" => {
            let r = ExtendedGCD::extended_gcd_lcm(a, b);
            let s = ExtendedGCD::extended_gcd(&(x as i128), &(y as i128));
            format!("{} {} {} {} {} {}", r.gcd, r.x, r.y, s.gcd, s.x, s.y)
        }
        "log2" => format!(
            "{:?} {:?} {:?} {:?} {:?} {:?}",
            a.floor_log2(),
            a.ceil_log2(),
            TrailingZeros::trailing_zeros(a),
            x.floor_log2(),
            y.ceil_log2(),
            TrailingZeros::trailing_zeros(&x)
        ),
        "prime" => {
            let v = x as u32;
            format!("{} {:?} {:?} {:?}", util::is_prime_u32(v), util::next_prime_u32(v), util::prev_prime_u32(v), util::prev_prime_i32(y as i32))
        }
        "exdiv" => format!("{:?} {:?}", ExactDiv::checked_exact_div(&(a * b), b), ExactDiv::checked_exact_div(a, b)),
        _ => "?".into(),
    }
}
