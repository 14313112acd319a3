//! Per property: the workload one seed stands for, and the judgement of what happened.

use crate::gen::{self, ptext};
use crate::numcheck::{self, Expect, Ms};
use crate::oracle::{self, Q, Tri};
use crate::field::{Model, M};
use algsim_exec::{self as exec, Rec, Val};
use algsim_rt::plan::Plan;
use algsim_rt::rt::{hash_str, Mode, Rng, Verdict};
use num_bigint::BigInt;
use num_traits::{One, Signed, Zero, ToPrimitive};
use std::cmp::Ordering;

pub const PROPS: [&str; 13] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13"];

/// does this property compare against the same call in a fresh process?
pub fn differential(prop: &str) -> bool {
    matches!(prop, "C02" | "C04" | "C12" | "C13")
}

#[derive(Default, Debug)]
pub struct Out {
    /// (class, description)
    pub viol: Vec<(String, String)>,
    pub evals: u64,
    /// (what to run alone, observed result, work it took, where)
    pub diff: Vec<(String, String, u64, String)>,
    pub probes: Vec<(&'static str, u64)>,
}

// ---------------------------------------------------------------- workloads

fn constant(r: &mut Rng, pivot: usize) -> String {
    if r.chance(1, 150) {
        // far more bits than usual
        let (name, k) = match r.us(8) {
            0 => ("sqrt2", 20_000 + gen::log_uniform(r, 80_000)),
            1 => ("ln2", 1000 + gen::log_uniform(r, 20_000)),
            2..=4 => ("sqrt2", 1000 + gen::log_uniform(r, 10_000)),
            _ => ("ln2", 1000 + gen::log_uniform(r, 8_000)),
        };
        return format!("{name} {k}");
    }
    let p = gen::precision(r, pivot);
    format!("{} {p}", if r.chance(1, 2) { "sqrt2" } else { "ln2" })
}
fn request(r: &mut Rng, pivot: usize, logs: u64) -> String {
    if r.chance(logs, 10) {
        match r.us(3) {
            0 => format!("log {}", gen::log_arg(r, pivot)),
            1 => format!("exp {}", gen::exp_arg(r, pivot)),
            _ => format!("intoexp {}", gen::exp_arg(r, pivot)),
        }
    } else {
        constant(r, pivot)
    }
}
/// the same function with a slightly different argument or precision
fn sibling(r: &mut Rng, op: &str) -> String {
    let f: Vec<&str> = op.split(' ').collect();
    let (lo, hi, d) = (exec::bi(f[1]).unwrap(), exec::bi(f[2]).unwrap(), f[3].parse::<usize>().unwrap());
    match r.us(5) {
        0 => format!("{} {lo} {hi} {}", f[0], d + 1 + r.us(3)),
        1 => format!("{} {lo} {lo} {d}", f[0]),
        2 => format!("{} {hi} {hi} {d}", f[0]),
        3 => format!("{} {lo} {} {d}", f[0], &hi + 1),
        _ => format!("{} {} {} {}", f[0], &lo << 1, &hi << 1, d + 1),
    }
}
fn n_tasks(r: &mut Rng) -> usize {
    *r.pick(&[1, 2, 2, 2, 3, 3, 4])
}

pub fn generate(prop: &str, seed: u64, index: u64, thorough: bool) -> Plan {
    let mut r = Rng::new(seed ^ hash_str(prop) ^ index.wrapping_mul(0x2545_f491_4f6c_dd1d));
    let r = &mut r;
    let mut p = Plan::new(prop, seed, index);
    gen::schedule(r, &mut p);
    let deep = thorough && r.chance(1, 8);
    match prop {
        "C01" | "C02" | "C05" => {
            let n = n_tasks(r);
            let top = match r.us(40) {
                0 => 20_000,
                1..=3 => 5000,
                _ if deep => 3000,
                _ => 500,
            };
            let pivot = gen::log_uniform(r, top);
            let logs = match prop {
                "C01" => 2,
                "C02" => 5,
                _ => 8,
            };
            if r.chance(1, 2) {
                for _ in 0..1 + r.us(3) {
                    p.warm.push(request(r, pivot, 1));
                }
            }
            for _ in 0..n {
                let k = 1 + r.us(if prop == "C01" { 6 } else { 4 });
                let mut ops: Vec<String> = vec![];
                for _ in 0..k {
                    let op = request(r, pivot, logs);
                    let like = ops.last().filter(|x| !x.contains("sqrt2") && !x.contains("ln2"));
                    match like {
                        Some(x) if r.chance(1, 4) => {
                            let x = sibling(r, x);
                            ops.push(x);
                        }
                        _ => ops.push(op),
                    }
                }
                p.tasks.push(ops);
            }
            if r.chance(1, 3) {
                for _ in 0..1 + r.us(2) {
                    p.post.push(request(r, pivot, logs / 2));
                }
            }
        }
        "C03" => {
            let n = 1 + r.us(4);
            let pivot = gen::log_uniform(r, if deep { 3000 } else { 400 });
            if r.chance(1, 3) {
                p.warm.push(request(r, pivot, 2));
            }
            let mut again = vec![];
            // any allocation of any call fails, once everything is set up
            let any = r.chance(1, 2);
            if any {
                for op in ["sqrt2 3", "ln2 3", "log 5 7 3", "exp 5 7 3"] {
                    p.warm.push(op.into());
                }
            }
            for t in 0..n {
                let k = 1 + r.us(4);
                let mut ops = vec![];
                if any && r.chance(3, 4) {
                    // the same call dies again and again
                    let d = r.us(5);
                    let o = request(r, pivot, d as u64 * 2);
                    for _ in 0..1 + gen::log_uniform(r, 7) {
                        p.alloc_faults.push((t, ops.len(), fault_at(r, 500)));
                        ops.push(o.clone());
                    }
                    again.push(o);
                }
                for i in ops.len()..ops.len() + k {
                    match r.us(6) {
                        1 if any => {
                            let o = request(r, pivot, 5);
                            p.alloc_faults.push((t, i, fault_at(r, 500)));
                            again.push(o.clone());
                            ops.push(o);
                        }
                        0 => ops.push(absurd(r)),
                        1 => {
                            // memory runs out while a large request is computed
                            let d = if r.chance(4, 5) { 2450 + r.us(900) } else { 3000 + r.us(3000) };
                            let o = match r.us(12) {
                                0 | 1 => format!("ln2 {}", d.min(4000)),
                                2 => format!("exp {} {} {}", 3 + r.us(5), 9 + r.us(50), d.min(3000)),
                                _ => format!("sqrt2 {d}"),
                            };
                            p.alloc_faults.push((t, i, gen::log_uniform(r, 40) as u64));
                            again.push(o.clone());
                            ops.push(o);
                        }
                        _ => {
                            let o = request(r, pivot, 3);
                            if r.chance(1, 3) {
                                again.push(o.clone());
                            }
                            ops.push(o);
                        }
                    }
                }
                p.tasks.push(ops);
            }
            p.post.push(constant(r, pivot));
            p.post.push(format!("{} {}", r.pick(&["sqrt2", "ln2"]), pivot + r.us(300)));
            for o in again.into_iter().take(3) {
                p.post.push(o);
            }
            p.post.push(request(r, pivot, 9));
        }
        "C04" if r.chance(1, 4) => {
            // one long call, during which others fill the shared state step by step
            let top = *r.pick(&[300, 500, 800, 1200]);
            let d = top / 2 + r.us(top / 2);
            let c = *r.pick(&["ln2", "ln2", "ln2", "sqrt2"]);
            p.tasks.push(vec![match r.us(5) {
                0 if c == "ln2" && d < 350 => format!("log {} {} {d}", 3 + r.us(5), 9 + r.us(50)),
                1 if c == "ln2" && d < 500 => format!("exp {} {} {d}", 3 + r.us(5), 9 + r.us(50)),
                _ => format!("{c} {d}"),
            }]);
            for _ in 0..1 + r.us(2) {
                let mut ops = vec![];
                let mut x = 20 + r.us(30);
                while x < d * 4 / 5 {
                    ops.push(format!("{c} {x}"));
                    x = x * 5 / 4 + 1 + if r.chance(1, 4) { x / 3 } else { 0 };
                }
                p.tasks.push(ops);
            }
            // about the cost of the long call
            let work = if c == "ln2" { d as u64 * 500 } else { 300 };
            p.mode = Mode::Turns { victim: 0, mean: work / *r.pick(&[1, 2, 4, 8]) };
        }
        "C04" => {
            let n = 2 + r.us(4);
            let pivot = gen::log_uniform(r, if deep { 1500 } else { 300 });
            for t in 0..n {
                let k = 1 + r.us(5);
                let mut ops = vec![];
                for i in 0..k {
                    match r.us(12) {
                        0 => ops.push(absurd(r)),
                        1 => {
                            p.alloc_faults.push((t, i, r.below(12)));
                            ops.push(format!("sqrt2 {}", 2450 + r.us(300)));
                        }
                        _ => ops.push(request(r, pivot, 3)),
                    }
                }
                p.tasks.push(ops);
            }
            if r.chance(1, 2) {
                p.post.push(constant(r, pivot));
            }
            p.spurious = r.chance(1, 2);
        }
        "C06" | "C07" => {
            let n = *r.pick(&[1, 1, 2, 2, 3]);
            let maxdeg = match r.us(24) {
                0 => 16,
                1 if deep => 22,
                _ if deep => 14,
                _ => *r.pick(&[4, 6, 8, 10]),
            };
            // the same polynomial under several streams, next to unrelated ones
            let long = prop == "C06" && r.chance(1, 50);
            let n = if long { 1 } else { n };
            let main = if long {
                let (c, e) = gen::long(r);
                (ptext(&c), format!("E{e}"))
            } else {
                poly_case(r, maxdeg)
            };
            for _ in 0..n {
                let mut ops = vec![];
                for _ in 0..1 + r.us(3) {
                    let (c, note) = if r.chance(1, 2) { main.clone() } else { poly_case(r, maxdeg) };
                    ops.push(if prop == "C07" && r.chance(1, 2) {
                        let k = if r.chance(1, 2) { 1 + r.below(6) } else { 1 + r.below(60) };
                        format!("refactor {k} {} {c} | {note}", r.next() >> 40)
                    } else {
                        let s = match r.us(6) {
                            0 if prop == "C06" => format!("fair:{}", r.next() >> 40),
                            1 => "int".into(),
                            _ => gen::stream(r, if prop == "C07" { 1500 } else { 200 }),
                        };
                        format!("factor {s} {c} | {note}")
                    });
                }
                p.tasks.push(ops);
            }
            gen::internal_streams(r, &mut p, n);
            p.max_steps = 2_000_000_000;
        }
        "C08" | "C09" | "C10" => numbers(r, &mut p, prop, deep),
        "C11" => printing(r, &mut p),
        "C12" => sharing(r, &mut p),
        "C13" => {
            sharing(r, &mut p);
            cut_short(r, &mut p);
        }
        _ => panic!("unknown property {prop}"),
    }
    p
}

fn absurd(r: &mut Rng) -> String {
    match r.us(8) {
        0 => format!("sqrt2 {}", usize::MAX - r.us(40)),
        1 => format!("ln2 {}", usize::MAX - r.us(40)),
        2 => format!("sqrt2 {}", 1usize << (34 + r.us(29))),
        3 => format!("ln2 {}", 1usize << (34 + r.us(29))),
        4 => format!("log {} {} {}", -r.range(0, 9), r.range(0, 9), r.us(60)),
        5 => format!("log 0 {} {}", r.range(0, 9), r.us(60)),
        6 => {
            let x = BigInt::one() << (70 + r.us(60));
            format!("exp {x} {x} {}", r.us(20))
        }
        _ => {
            let x = BigInt::one() << (40 + r.us(20));
            format!("intoexp {} {x} 0", -r.range(0, 5))
        }
    }
}
pub fn absurd_op(op: &str) -> bool {
    let f: Vec<&str> = op.split(' ').collect();
    match f[0] {
        "sqrt2" | "ln2" => f[1].parse::<u128>().map_or(true, |x| x > 1 << 30),
        "log" => !exec::bi(f[1]).map_or(false, |x| x.is_positive()),
        "exp" | "intoexp" => {
            let d: usize = f[3].parse().unwrap_or(0);
            exec::bi(f[2]).map_or(true, |x| x >> d > BigInt::from(1u64 << 30))
        }
        _ => false,
    }
}

fn poly_case(r: &mut Rng, maxdeg: usize) -> (String, String) {
    if r.chance(1, 5) {
        (ptext(&gen::dense(r, maxdeg)), "?".into())
    } else if r.chance(1, 6) {
        (ptext(&gen::smooth(r, maxdeg)), "?".into())
    } else if r.chance(1, 3) {
        (ptext(&gen::family(r, maxdeg)), "?".into())
    } else {
        let (c, e) = gen::factorable(r, maxdeg);
        (ptext(&c), format!("E{e}"))
    }
}

fn deg(m: &M) -> usize {
    m.min_poly().len() - 1
}

fn numbers(r: &mut Rng, p: &mut Plan, prop: &str, deep: bool) {
    // intervals between integers, numbers near integers: the same intervals come up again
    let plain = r.chance(1, 5);
    let (f, e) = if plain && r.chance(2, 3) { (2, r.us(4)) } else { gen::pick_field(r) };
    let n = *r.pick(&[1, 1, 2, 2, 3]);
    // degree of the polynomial an operation has to factor
    let cap = match r.us(12) {
        0 | 1 => 16,
        2 if deep => 24,
        _ if deep => 12,
        _ => 9,
    };
    let mut sh: Vec<M> = vec![];
    for _ in 0..2 + r.us(3) {
        let (f, e) = if prop != "C08" && r.chance(1, 5) { gen::pick_field(r) } else { (f, e) };
        let mut m = gen::element(r, f, e, 6);
        let special = &crate::field::fields()[f].special;
        if plain && !special.is_empty() && r.chance(3, 4) {
            m = M::new(f, e, r.pick(special).clone());
            if r.chance(1, 3) {
                m = m.add(&M::rat(Q::from(BigInt::from(r.range(-2, 2))))).unwrap();
            }
        }
        sh.push(m);
    }
    if prop != "C10" && r.chance(1, 3) {
        // roots of one polynomial, with intervals that may overlap
        let m = r.pick(&sh).clone();
        if let Some(c) = m.conjugate(r) {
            sh.push(c);
        }
    }
    let first = sh.len();
    if prop == "C09" && r.chance(1, 3) {
        // very close to an integer, a power of two or zero
        let m = r.pick(&sh).clone();
        if !m.is_rat() && deg(&m) <= 4 {
            let t = match r.us(4) {
                0 => Q::from(BigInt::one() << r.us(9)),
                1 => Q::new(BigInt::one(), BigInt::one() << r.us(9)),
                2 => Q::zero(),
                _ => Q::from(BigInt::from(r.range(-20, 20))),
            };
            let k = 4 + gen::log_uniform(r, 150);
            sh.push(m.moved_near(&t, k, r.chance(1, 2)));
        }
    }
    if prop == "C09" && r.chance(1, 2) {
        // equal and nearly equal values, made in different ways
        let m = sh[0].clone();
        sh.push(m.clone());
        let d = Q::new(r.range(-1, 1).into(), BigInt::one() << gen::log_uniform(r, 127));
        sh.push(m.add(&M::rat(d)).unwrap());
    }
    if prop != "C10" && r.chance(1, 4) {
        // large rational numbers, and quadratic ones on top of them
        let x = gen::large_rat(r);
        if r.chance(1, 3) {
            let m = r.pick(&sh).clone();
            if !m.is_rat() && deg(&m) <= 2 {
                let y = if r.chance(1, 2) { m.add(&M::rat(x.clone())) } else { m.mul(&M::rat(x.clone())) };
                if let Some(y) = y.filter(|y| !y.is_zero()) {
                    sh.push(y);
                }
            }
        }
        sh.push(M::rat(x.clone()));
        if r.chance(1, 2) {
            sh.push(M::rat(x + Q::new(r.range(-1, 1).into(), BigInt::one() << gen::log_uniform(r, 127))));
        }
    }
    if prop == "C09" && r.chance(1, 4) {
        // around powers of two of any size
        let k = gen::log_uniform(r, 300);
        let mut x = BigInt::from(*r.pick(&[1i64, 1, 1, 3, 5])) << k;
        if r.chance(1, 2) {
            x += (BigInt::one() << r.us(k + 1)) * r.range(-1, 1);
        }
        let x = if x.is_zero() { BigInt::one() } else { x };
        let x = if r.chance(1, 2) { Q::new(BigInt::one(), x) } else { Q::from(x) };
        sh.push(M::rat(x));
    }
    let special = first..sh.len();
    // operands that belong together
    let mut pair = None;
    if prop != "C10" && r.chance(1, 2) {
        let (x, y) = if r.chance(1, 2) {
            gen::neighbours(r)
        } else {
            // where machine words end
            let x = gen::edge(r);
            let y = match r.us(4) {
                0 => gen::edge(r),
                1 => BigInt::from(r.range(-3, 3)),
                2 if r.chance(1, 2) => -&x,
                2 => x.clone(),
                _ => &x + r.range(-2, 2),
            };
            let d = if r.chance(1, 4) { gen::edge(r) } else { BigInt::one() };
            (Q::new(x, d), Q::from(y))
        };
        pair = Some((sh.len(), sh.len() + 1));
        let irr = r.pick(&sh).clone();
        for v in [x, y] {
            let m = M::rat(v);
            let moved = if !irr.is_rat() && deg(&irr) <= 2 && r.chance(1, 6) { irr.add(&m) } else { None };
            sh.push(moved.unwrap_or(m));
        }
    }
    let mut pow_notes: Vec<(usize, usize, M)> = vec![];
    if prop == "C10" {
        for k in 0..sh.len() {
            let q = 2 + r.us(3);
            match r.us(5) {
                0 | 1 => {
                    // a perfect power in its field
                    let z = gen::element(r, f, e, if q > 2 { 2 } else { 3 });
                    let z = if z.is_zero() { M::rat(Q::one()) } else { z };
                    let z = if z.sign() == Ordering::Less { z.neg() } else { z };
                    let x = z.powi(q as i64).unwrap();
                    if deg(&x) * q <= cap && big_ok(&x) {
                        sh[k] = x;
                        pow_notes.push((k, q, z));
                    }
                }
                2 => {
                    // a rational, sometimes a perfect power
                    let a = gen::small_rat(r).abs();
                    sh[k] = M::rat(if r.chance(1, 2) { num_traits::Pow::pow(a, q as i32) } else { a });
                }
                3 if r.chance(1, 5) => sh[k] = M::rat(Q::from(BigInt::from(r.range(-1, 1)))),
                3 => sh[k] = gen::element(r, f, e, 3),
                _ if r.chance(1, 2) => sh[k] = M::rat(gen::large_rat(r).abs()),
                _ => sh[k] = M::rat(gen::small_rat(r)),
            }
        }
    }
    if plain || prop != "C09" && r.chance(1, 2) {
        // other roots of the same polynomials, all of them positive now and then
        let up = prop == "C10" && r.chance(2, 3);
        let up = up || r.chance(1, 6);
        for k in 0..sh.len().min(3) {
            let m = sh[k].clone();
            if m.is_rat() || (prop == "C10" && deg(&m) > 3) {
                continue;
            }
            let c = match m.conjugate(r) {
                Some(c) if c != m => c,
                _ => continue,
            };
            let low = m.floor().min(c.floor());
            if up && low.is_negative() && pow_notes.iter().all(|x| x.0 != k) {
                let d = M::rat(Q::from(-low + r.us(3)));
                sh[k] = m.add(&d).unwrap();
                sh.push(c.add(&d).unwrap());
            } else {
                sh.push(c);
            }
        }
    }
    let polys: Vec<Vec<BigInt>> = sh.iter().map(|m| m.min_poly()).collect();
    for m in &sh {
        p.shared.push(gen::source(r, m, plain));
    }
    let shm: Ms = sh.iter().map(|m| Some(Model::F(m.clone()))).collect();
    for _ in 0..n {
        let mut ops: Vec<String> = vec![];
        let mut own: Ms = vec![];
        let len = 1 + r.us(if prop == "C10" { 3 } else { 5 });
        let mut tries = 0;
        while ops.len() < len && tries < 60 {
            tries += 1;
            let pick = |r: &mut Rng, own: &Ms| -> Option<(String, M)> {
                if r.chance(1, 2) {
                    let k = r.us(own.len().max(1));
                    if let Some(Some(Model::F(m))) = own.get(k) {
                        return Some((format!("t{k}"), m.clone()));
                    }
                }
                let k = if !special.is_empty() && r.chance(1, 3) {
                    special.start + r.us(special.len())
                } else {
                    r.us(sh.len())
                };
                Some((format!("s{k}"), sh[k].clone()))
            };
            let (mut an, mut a) = pick(r, &own).unwrap();
            let (mut bn, mut b) = pick(r, &own).unwrap();
            if let (Some((i, j)), true) = (pair, r.chance(1, 3)) {
                let (i, j) = if r.chance(1, 2) { (i, j) } else { (j, i) };
                (an, a, bn, b) = (format!("s{i}"), sh[i].clone(), format!("s{j}"), sh[j].clone());
            }
            let form = r.us(if prop == "C10" { 44 } else { 6 });
            let one = |name: &str| format!("{name} {an} {form}");
            let two = |name: &str| format!("{name} {an} {bn} {form}");
            let arith = |r: &mut Rng| r.us(10);
            let op = match prop {
                "C10" if r.chance(5, 6) => {
                    let name = if r.chance(1, 3) { "pow" } else { "cpow" };
                    let k = r.us(sh.len());
                    if let (Some((_, q, z)), true) = (pow_notes.iter().find(|x| x.0 == k), r.chance(2, 3)) {
                        let e = Q::new(r.range(-2, 3).into(), (*q as i64).into());
                        if *e.denom() != BigInt::from(*q as i64) {
                            continue;
                        }
                        format!("{name} s{k} {}/{} {form} | {}", e.numer(), e.denom(), z.text())
                    } else {
                        let (xn, x) = if r.chance(1, 4) && !own.is_empty() {
                            let k = r.us(own.len());
                            match &own[k] {
                                Some(Model::R(y)) => {
                                    // take a root back to its base
                                    let q = y.e.denom();
                                    ops.push(format!("cpow t{k} {q}/1 {form}"));
                                    own.push(Model::pow(&own[k].clone().unwrap(), &Q::from(q.clone())).flatten());
                                    continue;
                                }
                                Some(Model::F(m)) => (format!("t{k}"), m.clone()),
                                None => continue,
                            }
                        } else {
                            (format!("s{k}"), sh[k].clone())
                        };
                        let e = match x.to_rat() {
                            Some(v) if v.is_integer() && v.numer().bits() <= 1 && r.chance(1, 3) => {
                                // any size of exponent is fine
                                let big = |r: &mut Rng| (BigInt::one() << (1 + gen::log_uniform(r, 150))) + r.range(-1, 1);
                                let n = big(r) * if r.chance(1, 2) { 1 } else { -1 };
                                let d = if r.chance(1, 2) { BigInt::one() } else { big(r) + 2 };
                                Q::new(n, d)
                            }
                            Some(_) if r.chance(1, 6) => {
                                let k = 1 + gen::log_uniform(r, 300) as i64;
                                Q::from(BigInt::from(if r.chance(1, 2) { k } else { -k }))
                            }
                            x => {
                                let q = match r.us(6) {
                                    0 | 1 => 1,
                                    2 if x.is_some() => 2 + r.us(8),
                                    _ => 2 + r.us(4),
                                };
                                Q::new(r.range(-4, 4).into(), (q as i64).into())
                            }
                        };
                        if x.to_rat().is_none() || !e.is_integer() {
                            let easy = x.to_rat().map_or(false, |v| v.is_integer() && v.numer().bits() <= 1);
                            let work = e.denom().to_usize().map(|q| deg(&x) * q);
                            let top = e.numer().to_i64().map(|n| n.unsigned_abs() as usize * deg(&x));
                            if !easy && (work.map_or(true, |w| w > cap) || top.map_or(true, |t| t > 16)) {
                                continue;
                            }
                        }
                        format!("{name} {xn} {}/{} {form}", e.numer(), e.denom())
                    }
                }
                "C09" if r.chance(4, 5) => match r.us(26) {
                    0 => two(*r.pick(&["max", "min"])),
                    1..=4 => two("cmp"),
                    5..=7 => two("eq"),
                    8 => one("floor"),
                    9 => one("ceil"),
                    10 => one("trunc"),
                    11 | 12 => one("fract"),
                    13 => one("ifloor"),
                    14 => one("iceil"),
                    15 => one("itrunc"),
                    16 => one("sign"),
                    17 => one(*r.pick(&["ispos", "isneg", "iszero", "isone", "isnegone"])),
                    18 => one(*r.pick(&["isrational", "isinteger"])),
                    19 => one("toint"),
                    20 => one("torat"),
                    21 => one("degree"),
                    22 => one("ilog2"),
                    23 => one("flog2"),
                    24 => one("clog2"),
                    _ => one(*r.pick(&["abs", "signum", "copy"])),
                },
                _ => match arith(r) {
                    0 | 1 => two("add"),
                    2 | 3 => two("sub"),
                    4 | 5 => two("mul"),
                    6 => two("div"),
                    7 => two(*r.pick(&["rem", "rem", "cdiv", "abssub"])),
                    8 => one(*r.pick(&["recip", "crecip"])),
                    _ => one(*r.pick(&["neg", "neg", "abs", "copy", "set"])),
                },
            };
            let name = op.split(' ').next().unwrap();
            let binary = matches!(name, "add" | "sub" | "mul" | "div" | "rem" | "cmp" | "eq" | "cdiv" | "abssub" | "max" | "min");
            if binary && deg(&a) * deg(&b) > cap {
                continue;
            }
            let ex = numcheck::model_op(&op, &shm, &own);
            let m = match ex {
                Expect::Skip => continue,
                Expect::Num(m) => {
                    if let Model::F(x) = &m {
                        if !big_ok(x) {
                            continue;
                        }
                    }
                    Some(m)
                }
                _ => None,
            };
            ops.push(op.clone());
            own.push(m);
            // the same once more on other roots of the same polynomials
            if r.chance(1, 2) {
                let call = op.split(" | ").next().unwrap();
                let mut w: Vec<String> = call.split(' ').map(|x| x.to_string()).collect();
                let mut changed = false;
                for k in 1..=if binary { 2 } else { 1 } {
                    if let Some(i) = w[k].strip_prefix('s').and_then(|i| i.parse::<usize>().ok()) {
                        let sib: Vec<usize> = (0..sh.len()).filter(|j| *j != i && polys[*j] == polys[i]).collect();
                        if !sib.is_empty() && r.chance(3, 4) {
                            w[k] = format!("s{}", r.pick(&sib));
                            changed = true;
                        }
                    }
                }
                let op = w.join(" ");
                let m = match numcheck::model_op(&op, &shm, &own) {
                    Expect::Num(Model::F(x)) if big_ok(&x) => Some(Model::F(x)),
                    Expect::Num(Model::F(_)) | Expect::Skip => continue,
                    Expect::Num(m) => Some(m),
                    _ => None,
                };
                if changed {
                    ops.push(op);
                    own.push(m);
                }
            }
        }
        p.tasks.push(ops);
    }
    if prop == "C10" && r.chance(1, 3) {
        p.warm.push(constant(r, 200));
    }
    gen::internal_streams(r, p, n);
    p.max_steps = 2_000_000_000;
}
/// coefficients small enough to keep the run short
fn big_ok(x: &M) -> bool {
    let p = x.min_poly();
    let limit = match p.len() {
        0..=2 => 700,
        3 => 300,
        4 => 120,
        _ => 64,
    };
    p.iter().all(|c| c.bits() <= limit)
}

fn printing(r: &mut Rng, p: &mut Plan) {
    let mut vals = vec![];
    for _ in 0..1 + r.us(3) {
        let c = |r: &mut Rng| {
            let b = match r.us(20) {
                0..=3 => 100,
                4 => 200 + r.us(700),
                _ => 4,
            };
            gen::big(r, b) - gen::big(r, b)
        };
        let plist = |r: &mut Rng| {
            let n = if r.chance(1, 10) { r.us(40) } else { r.us(7) };
            let mut v: Vec<BigInt> = (0..n).map(|_| if r.chance(1, 4) { BigInt::zero() } else { c(r) }).collect();
            v.push(BigInt::from(1 + r.below(9) as i64) * if r.chance(1, 2) { -1 } else { 1 });
            v
        };
        vals.push(match r.us(16) {
            0 | 1 => ("poly", if r.chance(1, 12) { "0".to_string() } else { ptext(&plist(r)) }),
            2 => ("polydbg", ptext(&plist(r))),
            3 => {
                let n = 1 + r.us(5);
                let mut v: Vec<Q> = (0..n).map(|_| gen::small_rat(r)).collect();
                v.push(Q::new(r.range(1, 9).into(), r.range(1, 9).into()));
                ("polyrat", v.iter().map(|x| format!("{}/{}", x.numer(), x.denom())).collect::<Vec<_>>().join(","))
            }
            4 => {
                let n = 1 + r.us(4);
                let mut v: Vec<String> = (0..n).map(|_| if r.chance(1, 4) { "0".into() } else { ptext(&plist(r)) }).collect();
                v.push(ptext(&plist(r)));
                ("polypoly", v.join(";"))
            }
            5 => {
                let m = *r.pick(&[2i64, 3, 7, 101, 32749]);
                let n = r.us(5);
                let mut v: Vec<String> = (0..n).map(|_| r.range(0, m - 1).to_string()).collect();
                v.push(r.range(1, m - 1).to_string());
                ("polymod", format!("{m} {}", v.join(",")))
            }
            6 => ("factor", format!("{} {}", 1 + r.us(12), ptext(&plist(r)))),
            7 => {
                let lo = c(r);
                ("iv", format!("{} {} {}", lo, &lo + r.range(0, 99), r.us(90)))
            }
            8 => {
                let lo = c(r);
                ("ivdbg", format!("{} {} {}", lo, &lo + r.range(0, 99), r.us(90)))
            }
            9 => {
                let m = *r.pick(&[2i64, 3, 7, 16, 101, 1_000_000_007, i64::MAX - 24, i64::MAX]);
                ("mod", format!("{} {m} {}", r.range(0, m - 1), r.us(6)))
            }
            10 => {
                let lo = c(r);
                ("ivalt", format!("{} {} {}", lo, &lo + r.range(0, 99), gen::log_uniform(r, 70000)))
            }
            11 => {
                let two = |r: &mut Rng| {
                    let n = 1 + r.us(2);
                    let mut v: Vec<String> = (0..n).map(|_| if r.chance(1, 4) { "0".into() } else { ptext(&plist(r)) }).collect();
                    v.push(ptext(&plist(r)));
                    v.join(";")
                };
                let n = 1 + r.us(2);
                let mut v: Vec<String> = (0..n).map(|_| if r.chance(1, 4) { "0".into() } else { two(r) }).collect();
                v.push(two(r));
                ("poly3", v.join("|"))
            }
            12 => {
                let n = r.us(5);
                let mut v: Vec<String> = (0..n).map(|_| (r.next() as i64 >> r.us(64)).to_string()).collect();
                v.push(r.pick(&[i64::MIN, -1, 1, 2, i64::MAX]).to_string());
                ("polyi", v.join(","))
            }
            13 => {
                if r.chance(1, 2) {
                    ("factors", ptext(&gen::factorable(r, 8).0))
                } else {
                    let n = 1 + r.us(5);
                    let mut v: Vec<Q> = (0..n).map(|_| gen::small_rat(r)).collect();
                    v.push(Q::new(r.range(1, 9).into(), r.range(1, 9).into()));
                    let v = v.iter().map(|x| format!("{}/{}", x.numer(), x.denom())).collect::<Vec<_>>().join(",");
                    ("factorrat", format!("{} {v}", 1 + r.us(12)))
                }
            }
            14 => {
                let b = 2 + r.us(400);
                let m = gen::big(r, b) + 2;
                ("modbig", format!("{} {m}", gen::big(r, b + 8) % &m))
            }
            _ => {
                let (f, e) = gen::pick_field(r);
                let m = gen::element(r, f, e, 6);
                let (lo, hi, d) = m.isolate(r, false);
                (*r.pick(&["num", "numdata", "numalt"]), format!("{} {lo} {hi} {d}", ptext(&m.min_poly())))
            }
        });
    }
    for (k, v) in &vals {
        p.warm.push(format!("fmt {k} byte:1000000 {v}"));
    }
    for _ in 0..1 + r.us(3) {
        let mut ops = vec![];
        for _ in 0..1 + r.us(6) {
            let (k, v) = r.pick(&vals).clone();
            let s = match r.us(8) {
                0 => format!("panic:{}", 1 + r.us(8)),
                1 => format!("call:{}", 1 + gen::log_uniform(r, 40)),
                2 => format!("call:{}", 1 + gen::log_uniform(r, 300)),
                3 => "byte:1000000".into(),
                4 => format!("byte:{}", r.us(3 * v.len() + 60)),
                _ => format!("byte:{}", gen::log_uniform(r, 250)),
            };
            ops.push(format!("fmt {k} {s} {v}"));
        }
        p.tasks.push(ops);
    }
    for (k, v) in &vals {
        p.post.push(format!("fmt {k} byte:1000000 {v}"));
    }
}

fn sharing(r: &mut Rng, p: &mut Plan) {
    let n = 2 + r.us(3);
    let mut pool: Vec<String> = vec![];
    let nums = r.chance(1, 2) && cfg!(feature = "alg");
    if nums {
        let (f, e) = gen::pick_field(r);
        let wide = r.chance(1, 3);
        let mut sh: Vec<M> = (0..2).map(|_| gen::element(r, f, e, if wide { 6 } else { 3 })).collect();
        if wide && r.chance(1, 2) {
            sh.truncate(1);
        }
        // roots of the same polynomial, or of one that differs in signs, order or scale
        for _ in 0..1 + r.us(3) {
            let m = r.pick(&sh).clone();
            let x = match r.us(6) {
                0 | 1 => m.conjugate(r),
                2 | 3 => Some(m.neg()),
                4 if !m.is_zero() => m.inv(),
                _ => {
                    let c = M::rat(gen::small_rat(r));
                    if r.chance(1, 2) { m.add(&c) } else { m.mul(&c) }
                }
            };
            if let Some(x) = x.filter(|x| !x.is_zero() && big_ok(x)) {
                sh.push(x);
            }
        }
        for m in &sh {
            p.shared.push(gen::source(r, m, false));
        }
        for _ in 0..7 {
            let (a, b) = (r.us(sh.len()), r.us(sh.len()));
            let form = r.us(6);
            let binary = deg(&sh[a]) * deg(&sh[b]) <= 9 && big_ok(&sh[a]) && big_ok(&sh[b]);
            pool.push(match r.us(12) {
                0 if binary => format!("add s{a} s{b} {form}"),
                1 if binary => format!("mul s{a} s{b} {form}"),
                2 if binary => format!("cdiv s{a} s{b} {form}"),
                3 if binary => format!("cmp s{a} s{b} {form}"),
                4 | 5 if binary => format!("{} s{a} s{b} {form}", r.pick(&["sub", "eq"])),
                6 if deg(&sh[a]) <= 2 => format!("cpow s{a} {}/{} {form}", r.range(-2, 3), 1 + r.us(3)),
                7 | 8 => format!("{} s{a} {form}", r.pick(&["ifloor", "iceil", "itrunc", "floor", "ceil", "trunc"])),
                9 => format!("{} s{a} {form}", r.pick(&["sign", "abs", "neg", "crecip", "ispos", "isneg"])),
                10 if deg(&sh[a]) <= 4 => format!("fract s{a} {form}"),
                _ => format!("{} s{a} {form}", r.pick(&["flog2", "clog2", "ilog2", "itrunc"])),
            });
        }
    }
    let ints = |r: &mut Rng| ptext(&gen::dense(r, 6));
    for _ in 0..4 + r.us(4) {
        pool.push(match r.us(9) {
            0 | 1 => format!("p2 {} {} {}", r.pick(&["add", "sub", "mul", "gcd", "lcm", "resultant", "pdivrem", "eq"]), ints(r), ints(r)),
            2 | 3 => format!(
                "p1 {} {}",
                r.pick(&["derivative", "content", "primitive", "sturm", "squarefree", "eval", "factor", "maxnorm", "text", "rev"]),
                ints(r)
            ),
            4 => {
                let iv = |r: &mut Rng| {
                    let a = r.range(-999, 999);
                    format!("{a} {} {}", a + r.range(0, 99), r.us(12))
                };
                format!(
                    "i2 {} {} {}",
                    r.pick(&["add", "sub", "mul", "div", "union", "abs", "square", "floor", "ceil", "sqrt", "convert"]),
                    iv(r),
                    iv(r)
                )
            }
            5 => {
                let m = *r.pick(&[2i64, 3, 7, 101, 1_000_000_007, i64::MAX - 24]);
                format!(
                    "m2 {} {} {} {m}",
                    r.pick(&["add", "sub", "mul", "div", "inv", "eq"]),
                    r.next() as i64 & i64::MAX,
                    r.next() as i64 & i64::MAX
                )
            }
            6 => {
                let m = *r.pick(&[2i64, 3, 7, 101, 32749]);
                let v = |r: &mut Rng| {
                    let n = r.us(5);
                    let mut v: Vec<String> = (0..n).map(|_| r.range(0, m - 1).to_string()).collect();
                    v.push(r.range(1, m - 1).to_string());
                    v.join(",")
                };
                format!("pmod {} {m} {} {}", r.pick(&["gcd", "mul", "divrem", "egcd", "add"]), v(r), v(r))
            }
            7 => request(r, 60, 5),
            _ => {
                let (c, _) = gen::factorable(r, 6);
                format!("p1 factor {}", ptext(&c))
            }
        });
    }
    // polynomials, intervals and modular integers that all tasks refer to
    let first = pool.len();
    for _ in 0..1 + r.us(3) {
        let kind = *r.pick(&["P", "P", "Q", "Q", "M", "I", "I", "Z", "B"]);
        let a = gen::object(r, kind);
        let mut names = vec![];
        let mut related = vec![a];
        for _ in 0..1 + r.us(2) {
            let b = if r.chance(1, 2) {
                let v = r.pick(&related).clone();
                gen::mutate_value(r, kind, &v)
            } else if r.chance(1, 3) && matches!(kind, "M" | "Z" | "B") {
                gen::other_modulus(r, kind, &related[0])
            } else {
                gen::object_like(r, kind, &related[0])
            };
            related.push(b);
        }
        for v in related {
            if r.chance(3, 4) {
                names.push(format!("s{}", p.shared.len()));
                p.shared.push(format!("obj {kind} {v}"));
            } else {
                names.push(v);
            }
        }
        let ops = match kind {
            "P" => exec::ops::P_OPS,
            "Q" => exec::ops::Q_OPS,
            "M" => exec::ops::M_OPS,
            "I" => exec::ops::I_OPS,
            _ => exec::ops::Z_OPS,
        };
        let mut what = *r.pick(ops);
        for _ in 0..4 + r.us(5) {
            if r.chance(2, 3) {
                what = *r.pick(ops);
            }
            pool.push(format!("v {kind} {what} {} {} {}", r.us(6), r.pick(&names), r.pick(&names)));
        }
    }
    if r.chance(1, 4) {
        for _ in 0..4 {
            let (a, b) = (gen::util_int(r), gen::util_int(r));
            pool.push(format!("v U {} 0 {a} {b}", r.pick(exec::ops::U_OPS)));
        }
    }
    let objects = first..pool.len();
    // requests that differ from another one in a single number
    for _ in 0..r.us(5) {
        let op = r.pick(&pool).clone();
        if op.starts_with("p1 ") || op.starts_with("p2 ") {
            pool.push(gen::mutate(r, &op));
        } else if op.starts_with("i2 ") {
            let m = gen::mutate(r, &op);
            let v: Vec<i64> = m.split(' ').skip(2).filter_map(|x| x.parse().ok()).collect();
            if v.len() == 6 && v[0] <= v[1] && v[3] <= v[4] && (0..20).contains(&v[2]) && (0..20).contains(&v[5]) {
                pool.push(m);
            }
        } else if op.starts_with("m2 ") {
            let (head, _) = op.rsplit_once(' ').unwrap();
            pool.push(format!("{head} {}", r.pick(&[2i64, 3, 7, 101, 1_000_000_007])));
        }
    }
    for _ in 0..n {
        let k = 2 + r.us(5);
        let ops = (0..k).map(|_| match r.us(6) {
            0 | 1 if nums => r.pick(&pool[..7]).clone(),
            2 | 3 => r.pick(&pool[objects.clone()]).clone(),
            _ => r.pick(&pool).clone(),
        });
        p.tasks.push(ops.collect());
    }
    p.irng = (0..n).map(|_| "real".into()).collect();
    for _ in 0..2 {
        p.post.push(r.pick(&pool).clone());
    }
    p.max_steps = 2_000_000_000;
}

/// memory runs out in the middle of some operations, which are then tried again
/// which allocation of an operation fails: by number or as a fraction of all of them
fn fault_at(r: &mut Rng, top: u64) -> u64 {
    match r.us(3) {
        0 => gen::log_uniform(r, top) as u64,
        // late in the operation
        1 => (1 << 32) + 1_000_000 - gen::log_uniform(r, 300_000) as u64,
        _ => (1 << 32) + r.below(1_000_000),
    }
}
fn cut_short(r: &mut Rng, p: &mut Plan) {
    let mut again = vec![];
    // A lazily initialised static is poisoned when its initialisation dies; that is how `lazy_static`
    // works. So every kind of operation runs once before any fails: with the same operands (then
    // whatever it remembers is complete) or with others (then it is not).
    let hot = r.chance(1, 3);
    let mut warm: Vec<String> = vec![];
    // one value of each kind for it
    let mut spare: Vec<(char, String)> = vec![];
    if !hot && cfg!(feature = "alg") {
        let (f, e) = (2, 0);
        let m = gen::element(r, f, e, 3);
        let k = p.shared.len();
        p.shared.push("root -3,0,1 1 2 0".into());
        p.shared.push(gen::source(r, &m, false));
        for op in ["add", "sub", "mul", "cdiv", "cmp", "eq"] {
            warm.push(format!("{op} s{k} s{} 0", k + 1));
            warm.push(format!("{op} s{k} s{k} 0"));
        }
        for op in ["ifloor", "fract", "sign", "crecip", "flog2", "clog2", "ilog2", "abs"] {
            warm.push(format!("{op} s{k} 0"));
        }
        warm.push(format!("cpow s{k} 2/3 0"));
        warm.push(format!("cpow s{k} -2/1 0"));
    }
    if !hot {
        for op in ["sqrt2 3", "ln2 3", "log 5 7 3", "exp 5 7 3"] {
            warm.push(op.into());
        }
        for k in ["P", "Q", "M", "I", "Z", "B"] {
            let v = gen::object(r, k);
            spare.push((k.chars().next().unwrap(), v));
        }
    }
    let mut before = |r: &mut Rng, op: &String| -> bool {
        let f: Vec<&str> = op.split(' ').collect();
        let w = if hot {
            op.clone()
        } else {
            match f[0] {
                "v" if f[1] == "U" => return false,
                "v" => {
                    let v = &spare.iter().find(|x| f[1].starts_with(x.0)).unwrap().1;
                    format!("v {} {} {} {v} {v}", f[1], f[2], f[3])
                }
                "p1" | "p2" => gen::mutate(r, op),
                "i2" => format!("i2 {} 3 5 2 4 9 2", f[1]),
                "m2" => format!("m2 {} 5 3 {}", f[1], f[4]),
                "pmod" => format!("pmod {} {} 1,1 1", f[1], f[2]),
                _ => return true,
            }
        };
        if !warm.contains(&w) {
            warm.push(w);
        }
        true
    };
    let tasks = std::mem::take(&mut p.tasks);
    let all: Vec<String> = tasks.iter().flatten().cloned().collect();
    for (t, ops) in tasks.into_iter().enumerate() {
        let mut out = vec![];
        for op in ops {
            if before(r, &op) && r.chance(1, 2) {
                let top = *r.pick(&[8, 60, 500, 6000]);
                p.alloc_faults.push((t, out.len(), fault_at(r, top)));
                out.push(op.clone());
                // again and again
                let more = if r.chance(1, 5) { 1 + gen::log_uniform(r, 7) } else { 0 };
                for _ in 0..more {
                    p.alloc_faults.push((t, out.len(), fault_at(r, top)));
                    out.push(op.clone());
                }
                // something of the same kind next, on other operands
                if r.chance(1, 3) {
                    let kind = |x: &str| x.split(' ').take(2).map(String::from).collect::<Vec<_>>();
                    let next = if op.starts_with("p1 factor ") {
                        format!("p1 factor {}", ptext(&gen::factorable(r, 6).0))
                    } else {
                        let same: Vec<&String> = all.iter().filter(|x| kind(x)[0] == kind(&op)[0]).collect();
                        r.pick(&same).to_string()
                    };
                    before(r, &next);
                    out.push(next);
                }
                if r.chance(2, 3) {
                    out.push(op);
                } else {
                    again.push(op);
                }
            } else {
                out.push(op);
            }
        }
        p.tasks.push(out);
    }
    if hot {
        for op in &p.post {
            before(r, op);
        }
    }
    p.post.extend(again);
    p.warm = warm;
}

// ---------------------------------------------------------------- judgement

fn phase(i: usize, n: usize) -> String {
    if i < n {
        format!("task {i}")
    } else if i == n {
        "afterwards".into()
    } else {
        "warm-up".into()
    }
}

/// the key under which the operation runs alone in a fresh process
pub fn alone_key(plan: &Plan, op: &str) -> String {
    let mut k = String::new();
    let refs: Vec<usize> = op.split(' ').filter_map(|x| x.strip_prefix('s').and_then(|x| x.parse().ok())).collect();
    // only the values the operation uses exist in the process it is compared with
    if let Some(last) = refs.iter().max() {
        for (i, s) in plan.shared.iter().enumerate().take(last + 1) {
            k += if refs.contains(&i) { s } else { "nop" };
            k.push('\n');
        }
    }
    k + op
}
pub fn alone_plan(key: &str) -> Plan {
    let mut p = Plan::new("alone", 0, 0);
    let mut l: Vec<String> = key.lines().map(|x| x.to_string()).collect();
    let op = l.pop().unwrap();
    p.shared = l;
    p.tasks = vec![vec![op]];
    p.irng = vec!["real".into()];
    p.max_steps = 4_000_000_000;
    p
}

pub fn check(plan: &Plan, hist: &[Vec<Rec>], verdict: &Verdict) -> Out {
    let mut o = Out::default();
    let n = plan.tasks.len();
    let prop = &plan.prop[..];
    match verdict {
        Verdict::Deadlock => o.viol.push(("deadlock".into(), "all unfinished tasks wait for each other for ever".into())),
        Verdict::Budget => o.viol.push((
            "no-progress".into(),
            format!("not finished after {} scheduling steps", plan.max_steps),
        )),
        Verdict::Finished => {}
    }
    let put = |o: &mut Out, i: usize, op: &str, class: &str, what: String| {
        let op = if op.len() > 300 { format!("{}...", &op[..300]) } else { op.to_string() };
        o.viol.push((class.to_string(), format!("{}: `{op}`: {what}", phase(i, n))));
    };
    match prop {
        "C01" | "C03" | "C05" => {
            for (i, t) in hist.iter().enumerate() {
                for rec in t {
                    let absurd = absurd_op(&rec.op);
                    match &rec.res {
                        None => {}
                        Some(Err(e)) => {
                            let any = plan.alloc_faults.iter().any(|x| x.2 >> 32 != 0);
                            if any && e.contains("instance has previously been poisoned") {
                                // the one-time set-up of a constant was cut short, see C13
                                o.probes.push(("static poisoned", 1));
                                continue;
                            }
                            if rec.fault || absurd {
                                o.evals += 1;
                                o.probes.push(("call died", 1));
                            } else {
                                o.evals += 1;
                                let class = if prop == "C03" { "later-call-dies" } else { "panic" };
                                put(&mut o, i, &rec.op, class, e.clone());
                            }
                        }
                        Some(Ok(Val::Iv(v))) => {
                            if absurd {
                                continue;
                            }
                            let is_const = rec.op.starts_with("sqrt2") || rec.op.starts_with("ln2");
                            if prop == "C01" && !is_const || prop == "C05" && is_const {
                                continue;
                            }
                            o.evals += 1;
                            if let Some((c, w)) = judge_iv(&rec.op, v.lower_bound_numer(), v.upper_bound_numer(), v.log2_denom(), prop == "C05") {
                                put(&mut o, i, &rec.op, c, w);
                            }
                        }
                        Some(Ok(_)) => {}
                    }
                }
            }
        }
        "C02" | "C04" | "C12" | "C13" => {
            for (i, t) in hist.iter().enumerate() {
                for rec in t {
                    if rec.res.is_none() {
                        continue;
                    }
                    if rec.fault || absurd_op(&rec.op) {
                        o.probes.push(("call died", 1));
                        continue;
                    }
                    // a lazily initialised constant whose initialisation was cut short: by design
                    // of std and lazy_static
                    if prop == "C13" && matches!(&rec.res, Some(Err(e)) if e.contains("instance has previously been poisoned")) {
                        o.probes.push(("static poisoned", 1));
                        continue;
                    }
                    o.evals += 1;
                    o.diff.push((alone_key(plan, &rec.op), rec.canon(), rec.steps, phase(i, n)));
                }
            }
            if prop == "C12" || prop == "C13" {
                for (k, (a, op)) in exec::shared().iter().zip(&plan.shared).enumerate() {
                    // shared values must still be what their definition says
                    let Some(now) = a.as_ref().map(exec::canon) else { continue };
                    o.evals += 1;
                    o.diff.push((op.clone(), now, 0, format!("shared value {k}")));
                }
            }
        }
        "C06" | "C07" => {
            let mut seen: Vec<(String, String)> = vec![];
            for (i, t) in hist.iter().enumerate() {
                for rec in t {
                    let (call, note) = rec.op.split_once(" | ").unwrap_or((&rec.op, "?"));
                    match &rec.res {
                        None => {}
                        Some(Err(e)) => {
                            o.evals += 1;
                            put(&mut o, i, &rec.op, "panic", e.clone());
                        }
                        Some(Ok(v)) => {
                            o.evals += 1;
                            let text = exec::canon(v);
                            let coefs = call.rsplit(' ').next().unwrap().to_string();
                            if let Some(e) = note.strip_prefix('E') {
                                if text != *e {
                                    put(&mut o, i, &rec.op, "wrong-factors", format!("expected {e}, got {text}"));
                                }
                            } else if let Some(w) = judge_factors(&coefs, &text) {
                                put(&mut o, i, &rec.op, "wrong-factors", format!("{w}: {text}"));
                            }
                            match seen.iter().find(|x| x.0 == coefs) {
                                Some(x) if x.1 != text => {
                                    let w = format!("{text}, but {} from another stream", x.1);
                                    put(&mut o, i, &rec.op, "stream-dependent", w);
                                }
                                Some(_) => {}
                                None => seen.push((coefs, text)),
                            }
                            if let Val::Fac { draws, biased, input_ok, .. } = v {
                                if !input_ok {
                                    put(&mut o, i, &rec.op, "input-changed", String::new());
                                }
                                o.probes.push(("random draws", *draws));
                                o.probes.push(("biased draws", *biased));
                                let fair = draws - biased;
                                if prop == "C07" && fair > 20_000 {
                                    put(&mut o, i, &rec.op, "too-many-draws", format!("{fair} draws from the fair source"));
                                }
                            }
                        }
                    }
                }
            }
        }
        "C08" | "C09" | "C10" => {
            let shm: Ms = plan
                .shared
                .iter()
                .map(|op| match numcheck::model_op(op, &vec![], &vec![]) {
                    Expect::Num(m) => Some(m),
                    _ => None,
                })
                .collect();
            for (i, t) in hist.iter().enumerate() {
                let (_, v, k) = numcheck::walk(t, &shm);
                o.evals += k;
                for (j, c, w) in v {
                    put(&mut o, i, &t[j].op, c, w);
                }
            }
        }
        "C11" => {
            let key = |op: &str| -> (String, String) {
                let f: Vec<&str> = op.splitn(4, ' ').collect();
                (format!("{} {}", f[1], f[3]), f[2].to_string())
            };
            let mut full: Vec<(String, String)> = vec![];
            for rec in hist.get(n + 1).into_iter().flatten() {
                if let Some(Ok(Val::Fmt(f))) = &rec.res {
                    let (k, _) = key(&rec.op);
                    o.evals += 1;
                    if f.err {
                        put(&mut o, n + 1, &rec.op, "error-without-cause", String::new());
                    } else if let Some(w) = crate::text::denotes(&k, &f.text) {
                        put(&mut o, n + 1, &rec.op, "wrong-text", format!("{w}: {:?}", f.text));
                    }
                    full.push((k, f.text.clone()));
                } else if let Some(Err(e)) = &rec.res {
                    put(&mut o, n + 1, &rec.op, "panic", e.clone());
                }
            }
            for (i, t) in hist.iter().enumerate().take(n + 1) {
                for rec in t {
                    if rec.op == "nop" || rec.res.is_none() {
                        continue;
                    }
                    let (k, sink) = key(&rec.op);
                    o.evals += 1;
                    let whole = full.iter().find(|x| x.0 == k).map(|x| x.1.clone());
                    match rec.res.as_ref().unwrap() {
                        Err(e) => {
                            if e.starts_with("injected panic of the sink") {
                                o.probes.push(("sink panics", 1));
                            } else {
                                put(&mut o, i, &rec.op, "panic", e.clone());
                            }
                        }
                        Ok(Val::Fmt(f)) => {
                            if f.refused {
                                o.probes.push(("sink failures", 1));
                            }
                            if f.err != f.refused {
                                put(&mut o, i, &rec.op, "error-lost", format!("sink failed: {}, reported: {}", f.refused, f.err));
                            }
                            if f.after > 0 {
                                put(&mut o, i, &rec.op, "writes-after-failure", format!("{} more writes", f.after));
                            }
                            if let Some(w) = whole {
                                if !w.starts_with(&f.text) {
                                    put(&mut o, i, &rec.op, "not-a-prefix", format!("{:?} of {w:?}", f.text));
                                } else if !f.refused && f.text != w {
                                    put(&mut o, i, &rec.op, "text-differs", format!("{:?} instead of {w:?}", f.text));
                                }
                            }
                            let _ = sink;
                        }
                        Ok(_) => {}
                    }
                }
            }
        }
        _ => {}
    }
    o
}

/// judges a constant, logarithm or exponential
fn judge_iv(op: &str, lo: &BigInt, hi: &BigInt, d: usize, width: bool) -> Option<(&'static str, String)> {
    let f: Vec<&str> = op.split(' ').collect();
    let show = || format!("[{lo}, {hi}]/2^{d}");
    let want_d: usize = match f[0] {
        "sqrt2" | "ln2" => f[1].parse().unwrap(),
        _ => f[3].parse().unwrap(),
    };
    if d != want_d {
        return Some(("wrong-denominator", format!("expected 2^{want_d}, got {}", show())));
    }
    if lo > hi {
        return Some(("empty-interval", show()));
    }
    match f[0] {
        "sqrt2" => {
            let two = BigInt::from(2) << (2 * d);
            if lo.is_negative() || lo * lo > two || hi * hi < two {
                return Some(("not-enclosed", show()));
            }
            if hi - lo != BigInt::one() {
                return Some(("not-neighbouring", show()));
            }
        }
        "ln2" => {
            let g = |b: usize| oracle::ln2(b);
            if oracle::bound_ok(lo, d, true, &g) == Tri::No || oracle::bound_ok(hi, d, false, &g) == Tri::No {
                return Some(("not-enclosed", show()));
            }
            if hi - lo != BigInt::one() {
                return Some(("not-neighbouring", show()));
            }
        }
        _ => {
            let den = BigInt::one() << d;
            let (a, b) = (exec::bi(f[1]).unwrap(), exec::bi(f[2]).unwrap());
            let (qa, qb) = (Q::new(a.clone(), den.clone()), Q::new(b.clone(), den));
            let fun = |x: &Q, bits: usize| if f[0] == "log" { oracle::ln(x, bits) } else { oracle::exp(x, bits) };
            if oracle::bound_ok(lo, d, true, &|b| fun(&qa, b)) == Tri::No {
                return Some(("not-enclosed", format!("lower bound too high: {}", show())));
            }
            if oracle::bound_ok(hi, d, false, &|b| fun(&qb, b)) == Tri::No {
                return Some(("not-enclosed", format!("upper bound too low: {}", show())));
            }
            if width && a == b && hi - lo > BigInt::from(2) {
                return Some(("too-wide", show()));
            }
        }
    }
    None
}

/// judges a factorisation whose factors are not known beforehand
fn judge_factors(coefs: &str, text: &str) -> Option<String> {
    let want: Vec<BigInt> = coefs.split(',').filter_map(exec::bi).collect();
    let (c, rest) = text.split_once(' ')?;
    let mut prod = vec![Q::from(exec::bi(c)?)];
    let mut seen = vec![];
    for f in rest.split(' ').filter(|x| !x.is_empty()) {
        let (p, k) = f.strip_prefix('(')?.split_once(")^")?;
        let p: Vec<BigInt> = p.split(',').filter_map(exec::bi).collect();
        let k: usize = k.parse().ok()?;
        if p.len() < 2 {
            return Some("a constant factor is listed".into());
        }
        if oracle::primitive(&oracle::q(&p)) != p {
            return Some("a factor is not primitive with positive leading coefficient".into());
        }
        if seen.contains(&p) {
            return Some("a factor is listed twice".into());
        }
        if !oracle::irreducible(&p) {
            return Some("a factor is reducible".into());
        }
        if k == 0 {
            return Some("a factor with multiplicity zero".into());
        }
        for _ in 0..k {
            prod = oracle::pmul(&prod, &oracle::q(&p));
        }
        seen.push(p);
    }
    let mut w = oracle::q(&want);
    oracle::trim(&mut w);
    oracle::trim(&mut prod);
    if prod != w {
        return Some("the product is not the input".into());
    }
    None
}
