//! Runs plans in forked processes, spreads them over workers, minimises failures, reports.

use crate::props::{self, Out};
use algsim_exec as exec;
use algsim_rt::plan::Plan;
use algsim_rt::rt::{self, Decision, Mode, Rng, Verdict};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, buf: *mut u8, n: usize) -> isize;
    fn write(fd: i32, buf: *const u8, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn poll(fds: *mut PollFd, n: u64, timeout: i32) -> i32;
    fn sched_setaffinity(pid: i32, n: usize, mask: *const u64) -> i32;
    fn sched_getaffinity(pid: i32, n: usize, mask: *mut u64) -> i32;
    fn prctl(op: i32, a: usize, b: usize, c: usize, d: usize) -> i32;
}
#[repr(C)]
struct PollFd {
    fd: i32,
    events: i16,
    revents: i16,
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut c = s.chars();
    while let Some(x) = c.next() {
        if x == '\\' {
            match c.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some(y) => o.push(y),
                None => {}
            }
        } else {
            o.push(x);
        }
    }
    o
}
fn write_all(fd: i32, mut b: &[u8]) -> bool {
    while !b.is_empty() {
        let n = unsafe { write(fd, b.as_ptr(), b.len()) };
        if n <= 0 {
            return false;
        }
        b = &b[n as usize..];
    }
    true
}

#[derive(Default, Debug, Clone)]
pub struct Run {
    pub viol: Vec<(String, String)>,
    pub evals: u64,
    pub diff: Vec<(String, String, u64, String)>,
    pub probes: BTreeMap<String, u64>,
    pub stats: rt::Stats,
    pub cov: Vec<u8>,
    pub decisions: Vec<Decision>,
    pub hist: Vec<String>,
    pub harness_error: Option<String>,
    pub hang: bool,
    pub crash: Option<i32>,
    pub done: bool,
}

static mut CHILD: Option<(Plan, i32, bool)> = None;

#[allow(static_mut_refs)]
fn finish(v: Verdict) -> ! {
    rt::detach();
    let (plan, fd, full) = unsafe { CHILD.as_ref().unwrap() };
    let r = std::panic::catch_unwind(|| props::check(plan, exec::history(), &v));
    let mut o = String::new();
    match r {
        Err(_) => o += "X the check itself failed\n",
        Ok(Out { viol, evals, diff, probes }) => {
            for (c, d) in viol {
                o += &format!("V {}\t{}\n", esc(&c), esc(&d));
            }
            for (k, c, s, w) in diff {
                o += &format!("D {}\t{}\t{}\t{}\n", esc(&k), esc(&c), s, esc(&w));
            }
            for (k, n) in probes {
                o += &format!("P {n} {k}\n");
            }
            let s = rt::stats();
            o += &format!(
                "S {evals} {} {} {} {} {} {} {} {} {} {} {}\n",
                s.steps, s.preemptions, s.blocks, s.wakes, s.spurious, s.timeouts, s.alloc_faults, s.huge_faults, s.fair_rotations, s.trace_hash, s.switch_hash
            );
            let hex: String = rt::coverage().iter().map(|b| format!("{b:02x}")).collect();
            o += &format!("C {hex}\n");
            if *full {
                for d in rt::decisions() {
                    o += &format!("N {} {} {}\n", d.task, d.step, d.to);
                }
                for (t, h) in exec::history().iter().enumerate() {
                    for r in h {
                        o += &format!("H {}\n", esc(&format!("{t} [{}..{}] {} -> {}", r.start, r.end, r.op, r.canon())));
                    }
                }
            }
        }
    }
    o += "E\n";
    write_all(*fd, o.as_bytes());
    unsafe { _exit(0) }
}

/// one simulated run, in a process of its own
pub fn run_child(plan: &Plan, full: bool, limit: Duration) -> Run {
    unsafe {
        let mut fds = [0i32; 2];
        if pipe(fds.as_mut_ptr()) != 0 {
            panic!("pipe failed");
        }
        let pid = fork();
        if pid < 0 {
            panic!("fork failed");
        }
        if pid == 0 {
            prctl(1, 9, 0, 0, 0);
            close(fds[0]);
            CHILD = Some((plan.clone(), fds[1], full));
            exec::run_plan(plan, finish);
            finish(Verdict::Finished);
        }
        close(fds[1]);
        let mut buf = Vec::new();
        let end = Instant::now() + limit;
        let mut r = Run::default();
        let mut tmp = vec![0u8; 1 << 16];
        loop {
            let left = end.saturating_duration_since(Instant::now());
            if left.is_zero() {
                r.hang = true;
                kill(pid, 9);
                break;
            }
            let mut p = PollFd { fd: fds[0], events: 1, revents: 0 };
            if poll(&mut p, 1, left.as_millis().min(1000) as i32) > 0 {
                let n = read(fds[0], tmp.as_mut_ptr(), tmp.len());
                if n <= 0 {
                    break;
                }
                buf.extend_from_slice(&tmp[..n as usize]);
            }
        }
        close(fds[0]);
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        let text = String::from_utf8_lossy(&buf).to_string();
        for l in text.lines() {
            let (k, v) = l.split_at(l.len().min(2));
            match k {
                "V " => {
                    let (a, b) = v.split_once('\t').unwrap_or((v, ""));
                    r.viol.push((unesc(a), unesc(b)));
                }
                "D " => {
                    let f: Vec<&str> = v.split('\t').collect();
                    r.diff.push((unesc(f[0]), unesc(f[1]), f[2].parse().unwrap_or(0), unesc(f[3])));
                }
                "P " => {
                    let (n, k) = v.split_once(' ').unwrap_or(("0", v));
                    *r.probes.entry(k.to_string()).or_default() += n.parse::<u64>().unwrap_or(0);
                }
                "S " => {
                    let f: Vec<u64> = v.split(' ').map(|x| x.parse().unwrap_or(0)).collect();
                    r.evals = f[0];
                    r.stats = rt::Stats {
                        steps: f[1],
                        preemptions: f[2],
                        blocks: f[3],
                        wakes: f[4],
                        spurious: f[5],
                        timeouts: f[6],
                        alloc_faults: f[7],
                        huge_faults: f[8],
                        fair_rotations: f[9],
                        trace_hash: f[10],
                        switch_hash: f[11],
                    };
                }
                "C " => {
                    r.cov = (0..v.len() / 2).map(|i| u8::from_str_radix(&v[2 * i..2 * i + 2], 16).unwrap_or(0)).collect();
                }
                "N " => {
                    let f: Vec<u64> = v.split(' ').map(|x| x.parse().unwrap_or(0)).collect();
                    r.decisions.push(Decision { task: f[0] as usize, step: f[1], to: f[2] as usize });
                }
                "H " => r.hist.push(unesc(v)),
                "X " => r.harness_error = Some(v.to_string()),
                _ => r.done |= l == "E",
            }
        }
        if !r.done && !r.hang {
            if st & 0x7f == 0 && (st >> 8) & 0xff == 3 {
                r.harness_error = Some("bad operation".into());
            } else {
                r.crash = Some(st);
            }
        }
        r
    }
}

pub struct Judge {
    alone: HashMap<String, (String, u64)>,
    pub alone_runs: u64,
    limit: Duration,
}
impl Judge {
    pub fn new() -> Self {
        Judge { alone: HashMap::new(), alone_runs: 0, limit: Duration::from_secs(70) }
    }
    /// (result, work) of the operation as the only one in a fresh process
    fn alone(&mut self, key: &str) -> Result<(String, u64), String> {
        if let Some(x) = self.alone.get(key) {
            return Ok(x.clone());
        }
        let mut p = props::alone_plan(key);
        p.prop = "C02".into();
        let r = run_child(&p, false, self.limit);
        self.alone_runs += 1;
        let v = match r.diff.iter().find(|d| d.3 == "task 0") {
            Some(d) => (d.1.clone(), d.2),
            None if r.hang => ("<no answer>".into(), 0),
            None if r.crash.is_some() => ("<process dies>".into(), 0),
            None => return Err(r.harness_error.unwrap_or_else(|| format!("no result for {key:?}"))),
        };
        if self.alone.len() > 200_000 {
            self.alone.clear();
        }
        self.alone.insert(key.to_string(), v.clone());
        Ok(v)
    }
    /// runs the plan and completes the judgement
    pub fn run(&mut self, plan: &Plan, full: bool) -> Run {
        let mut plan = plan.clone();
        if plan.prop == "C04" && plan.expect.is_empty() {
            let mut total = 0;
            for op in plan.warm.iter().chain(plan.tasks.iter().flatten()).chain(&plan.post) {
                if op != "nop" && !props::absurd_op(op) {
                    if let Ok((_, s)) = self.alone(&props::alone_key(&plan, op)) {
                        total += s;
                    }
                }
            }
            plan.max_steps = 10 * total + 30_000_000;
        }
        let mut r = run_child(&plan, full, self.limit);
        if r.hang {
            r = run_child(&plan, full, self.limit * 2);
        }
        if r.hang {
            r.viol.push(("hang".into(), "a call does not return".into()));
        }
        if let Some(st) = r.crash {
            r.viol.push(("process-dies".into(), format!("the process is terminated (status {st:#x})")));
        }
        let diff = std::mem::take(&mut r.diff);
        for (key, got, steps, place) in &diff {
            let (want, work) = match self.alone(key) {
                Ok(x) => x,
                Err(e) => {
                    r.harness_error = Some(e);
                    break;
                }
            };
            let op = key.lines().last().unwrap_or("");
            if plan.prop == "C04" {
                if got.starts_with("panic") && !want.starts_with("panic") {
                    r.viol.push(("call-dies".into(), format!("{place}: `{op}`: {got}")));
                } else if *steps > 3 * work + 100_000 {
                    r.viol.push((
                        "excessive-work".into(),
                        format!("{place}: `{op}` took {steps} steps, alone {work}"),
                    ));
                }
            } else if *got != want {
                r.viol.push(("differs".into(), format!("{place}: `{op}`: {} but alone in a fresh process {}", short(got), short(&want))));
            }
        }
        r
    }
}
fn short(s: &str) -> String {
    if s.len() > 200 {
        format!("{}...", s.chars().take(200).collect::<String>())
    } else {
        s.to_string()
    }
}

// ---------------------------------------------------------------- known findings

pub struct Known {
    entries: Vec<(String, String, String, String)>,
}
impl Known {
    /// lines `finding: property=C09 class=wrong-answer op=<operation as in the replay file> # description`
    pub fn load(root: &str) -> Known {
        let mut entries = vec![];
        if let Ok(s) = std::fs::read_to_string(format!("{root}/known-findings.txt")) {
            for l in s.lines() {
                if let Some(l) = l.strip_prefix("finding: property=") {
                    let (p, l) = l.split_once(" class=").unwrap_or((l, ""));
                    let (c, l) = l.split_once(" op=").unwrap_or((l, ""));
                    let (o, d) = l.split_once(" # ").unwrap_or((l, ""));
                    entries.push((p.into(), c.into(), o.into(), d.into()));
                }
            }
        }
        Known { entries }
    }
    pub fn matches(&self, prop: &str, v: &(String, String)) -> bool {
        self.entries
            .iter()
            .any(|e| e.0 == prop && e.1 == v.0 && !e.2.is_empty() && v.1.contains(&format!("`{}`", e.2)))
    }
    pub fn announce(&self, prop: &str) {
        for e in self.entries.iter().filter(|e| e.0 == prop) {
            println!("KNOWN-FINDING: property={prop} {} ({})", e.3, e.2);
        }
    }
}

// ---------------------------------------------------------------- minimisation

/// the operation without its operands
fn kind_of(op: &str) -> Vec<&str> {
    op.split(' ').take_while(|x| x.starts_with(|c: char| c.is_ascii_alphabetic()) && !x[1..].starts_with(|c: char| c.is_ascii_digit())).collect()
}

pub fn minimise(j: &mut Judge, plan: &Plan, class: &str, budget: Duration) -> Plan {
    let end = Instant::now() + budget;
    let same = |r: &Run| r.harness_error.is_none() && r.viol.iter().any(|v| v.0 == class);
    let first = j.run(plan, true);
    let mut best = plan.clone();
    if plan.prop == "C04" {
        // fix the budget the run was judged with
        best.max_steps = {
            let mut t = 0;
            for op in plan.warm.iter().chain(plan.tasks.iter().flatten()).chain(&plan.post) {
                if op != "nop" && !props::absurd_op(op) {
                    t += j.alone(&props::alone_key(plan, op)).map_or(0, |x| x.1);
                }
            }
            10 * t + 30_000_000
        };
    }
    best.expect = class.to_string();
    // make the schedule explicit
    let mut e = best.clone();
    e.mode = Mode::Replay;
    e.decisions = first.decisions.clone();
    let mut explicit = false;
    if same(&j.run(&e, false)) {
        best = e;
        explicit = true;
    }
    let mut attempt = |p: Plan, best: &mut Plan| -> bool {
        if Instant::now() > end {
            return false;
        }
        if same(&j.run(&p, false)) {
            *best = p;
            true
        } else {
            false
        }
    };
    if explicit {
        let mut p = best.clone();
        p.decisions.clear();
        attempt(p, &mut best);
    }
    for round in 0..2 {
        // whole tasks, then single operations
        for t in 0..best.tasks.len() {
            if best.tasks[t].iter().any(|o| o != "nop") {
                let mut p = best.clone();
                p.tasks[t].iter_mut().for_each(|o| *o = "nop".into());
                attempt(p, &mut best);
            }
        }
        if !best.warm.is_empty() {
            let mut p = best.clone();
            p.warm.clear();
            // C13: what fails must have run before (see props::cut_short)
            let keep = plan.prop == "C13";
            if keep || !attempt(p, &mut best) {
                for i in (0..best.warm.len()).rev() {
                    let used = keep && best.tasks.iter().flatten().chain(&best.post).any(|x| kind_of(x) == kind_of(&best.warm[i]));
                    if best.warm[i] != "nop" && !used {
                        let mut p = best.clone();
                        p.warm[i] = "nop".into();
                        attempt(p, &mut best);
                    }
                }
            }
        }
        for i in (0..best.post.len()).rev() {
            let mut p = best.clone();
            p.post.remove(i);
            attempt(p, &mut best);
        }
        for t in 0..best.tasks.len() {
            for i in (0..best.tasks[t].len()).rev() {
                if best.tasks[t][i] != "nop" {
                    let mut p = best.clone();
                    p.tasks[t][i] = "nop".into();
                    attempt(p, &mut best);
                }
            }
        }
        for i in (0..best.alloc_faults.len()).rev() {
            let mut p = best.clone();
            p.alloc_faults.remove(i);
            attempt(p, &mut best);
        }
        for i in 0..best.irng.len() {
            if best.irng[i] != "real" {
                let mut p = best.clone();
                p.irng[i] = "real".into();
                attempt(p, &mut best);
            }
        }
        if round == 0 {
            if best.spurious {
                let mut p = best.clone();
                p.spurious = false;
                attempt(p, &mut best);
            }
            // switches, in shrinking chunks
            let mut size = best.decisions.len() / 2;
            while explicit && size >= 1 {
                let mut i = 0;
                while i < best.decisions.len() && Instant::now() < end {
                    let mut p = best.clone();
                    p.decisions.drain(i..(i + size).min(best.decisions.len()));
                    if !attempt(p, &mut best) {
                        i += size;
                    }
                }
                size /= 2;
            }
            if explicit && best.decisions.len() == 1 {
                let mut p = best.clone();
                p.decisions.clear();
                attempt(p, &mut best);
            }
        }
    }
    // trailing no-ops and unused tasks at the end carry no information
    for t in 0..best.tasks.len() {
        while best.tasks[t].last().map_or(false, |o| o == "nop") {
            best.tasks[t].pop();
        }
    }
    let p = best.clone();
    if !same(&j.run(&p, false)) {
        // cannot happen; fall back to what was seen
        let mut q = plan.clone();
        q.expect = class.to_string();
        return q;
    }
    best
}

// ---------------------------------------------------------------- batches

#[derive(Default)]
struct Total {
    runs: u64,
    evals: u64,
    steps: u64,
    alone: u64,
    stats: rt::Stats,
    probes: BTreeMap<String, u64>,
    modes: BTreeMap<String, u64>,
    traces: HashSet<u64>,
    switches: HashSet<u64>,
    cov: Vec<u8>,
    determinism: (u64, u64),
    preempted: u64,
    known: u64,
    max: u64,
}

pub struct Opt {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub runs: u64,
    pub wall: Duration,
    pub workers: usize,
    pub root: String,
    pub evidence: bool,
    pub first: u64,
}

fn mode_name(m: &Mode) -> &'static str {
    match m {
        Mode::Serial => "serial",
        Mode::Gap(_) => "random preemption",
        Mode::Rare { .. } => "preemption at rarely visited edges",
        Mode::Turns { .. } => "whole operations of others inside one call",
        Mode::Pct { .. } => "priority changes (long stalls)",
        Mode::Replay => "replay",
    }
}

fn worker(o: &Opt, w: usize, fd: i32) -> ! {
    let mut j = Judge::new();
    let known = Known::load(&o.root);
    let t0 = Instant::now();
    let mut t = Total::default();
    let mut i = o.first + w as u64;
    let mut last_send = Instant::now();
    while i < o.first + o.runs && t0.elapsed() < o.wall {
        let plan = props::generate(&o.prop, o.seed, i, o.tier == "thorough");
        let r0 = Instant::now();
        let mut r = j.run(&plan, false);
        if std::env::var_os("ALGSIM_SLOW").is_some() && r0.elapsed() > Duration::from_secs(2) {
            eprintln!("slow run {i}: {:?} {} steps", r0.elapsed(), r.stats.steps);
        }
        if let Some(e) = &r.harness_error {
            write_all(fd, format!("X run {i}: {e}\n").as_bytes());
            unsafe { _exit(2) }
        }
        let before = r.viol.len();
        r.viol.retain(|v| !known.matches(&o.prop, v));
        t.known += (before - r.viol.len()) as u64;
        if let Some((c, d)) = r.viol.first() {
            write_all(fd, format!("V {i}\t{}\t{}\n", esc(c), esc(d)).as_bytes());
            break;
        }
        // every 64th run is executed twice: the two must be the same execution
        if (i / o.workers as u64) % 64 == 7 {
            let r2 = j.run(&plan, false);
            t.determinism.0 += 1;
            if r2.stats.trace_hash != r.stats.trace_hash || r2.stats.steps != r.stats.steps {
                t.determinism.1 += 1;
            }
        }
        t.runs += 1;
        t.evals += r.evals;
        t.steps += r.stats.steps;
        t.max = t.max.max(r.stats.steps);
        t.stats.preemptions += r.stats.preemptions;
        t.stats.blocks += r.stats.blocks;
        t.stats.wakes += r.stats.wakes;
        t.stats.spurious += r.stats.spurious;
        t.stats.timeouts += r.stats.timeouts;
        t.stats.alloc_faults += r.stats.alloc_faults;
        t.stats.huge_faults += r.stats.huge_faults;
        t.stats.fair_rotations += r.stats.fair_rotations;
        t.preempted += (r.stats.preemptions + r.stats.blocks > 0) as u64;
        for (k, n) in r.probes {
            *t.probes.entry(k).or_default() += n;
        }
        for s in &plan.irng {
            let k = s.split(':').next().unwrap_or("").to_string();
            *t.probes.entry(format!("internal random stream: {k}")).or_default() += 1;
        }
        *t.modes.entry(mode_name(&plan.mode).into()).or_default() += 1;
        t.traces.insert(r.stats.trace_hash);
        if r.stats.switch_hash != 0 {
            t.switches.insert(r.stats.switch_hash);
        }
        if t.cov.len() < r.cov.len() {
            t.cov.resize(r.cov.len(), 0);
        }
        for (a, b) in t.cov.iter_mut().zip(&r.cov) {
            *a |= b;
        }
        if last_send.elapsed() > Duration::from_secs(5) {
            write_all(fd, format!("I {i}\n").as_bytes());
            last_send = Instant::now();
        }
        i += o.workers as u64;
    }
    let mut s = format!(
        "T {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {}\n",
        t.runs,
        t.evals,
        t.steps,
        j.alone_runs,
        t.stats.preemptions,
        t.stats.blocks,
        t.stats.wakes,
        t.stats.spurious,
        t.stats.timeouts,
        t.stats.alloc_faults,
        t.stats.huge_faults,
        t.stats.fair_rotations,
        t.determinism.0,
        t.determinism.1,
        t.preempted,
        t.known,
        t.max
    );
    for (k, n) in &t.probes {
        s += &format!("P {n} {k}\n");
    }
    for (k, n) in &t.modes {
        s += &format!("M {n} {k}\n");
    }
    s += &format!("C {}\n", t.cov.iter().map(|b| format!("{b:02x}")).collect::<String>());
    s += &format!("A {}\n", t.traces.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>().join(" "));
    s += &format!("B {}\n", t.switches.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>().join(" "));
    s += "E\n";
    write_all(fd, s.as_bytes());
    unsafe { _exit(0) }
}

fn cpus() -> Vec<usize> {
    let mut m = [0u64; 16];
    unsafe { sched_getaffinity(0, 128, m.as_mut_ptr()) };
    (0..1024).filter(|i| m[i / 64] >> (i % 64) & 1 == 1).collect()
}

/// returns the exit code
pub fn check(o: &Opt) -> i32 {
    let t0 = Instant::now();
    let cpu = cpus();
    let known = Known::load(&o.root);
    // warm the reference tables before forking
    crate::oracle::warm_ln2(4000);
    crate::field::fields();
    println!("algsim: property={} tier={} seed={} runs<={} workers={}", o.prop, o.tier, o.seed, o.runs, o.workers);
    let mut ws: Vec<(i32, i32, Vec<u8>, bool)> = vec![];
    for w in 0..o.workers {
        unsafe {
            let mut fds = [0i32; 2];
            pipe(fds.as_mut_ptr());
            let pid = fork();
            if pid == 0 {
                prctl(1, 9, 0, 0, 0);
                close(fds[0]);
                if !cpu.is_empty() {
                    let c = cpu[w % cpu.len()];
                    let mut m = [0u64; 16];
                    m[c / 64] = 1 << (c % 64);
                    sched_setaffinity(0, 128, m.as_ptr());
                }
                worker(o, w, fds[1]);
            }
            close(fds[1]);
            ws.push((pid, fds[0], vec![], false));
        }
    }
    let mut fails: Vec<(u64, String, String)> = vec![];
    let mut errors: Vec<String> = vec![];
    let mut grace: Option<Instant> = None;
    let mut tmp = vec![0u8; 1 << 16];
    while ws.iter().any(|w| !w.3) {
        let live: Vec<usize> = (0..ws.len()).filter(|&i| !ws[i].3).collect();
        let mut p: Vec<PollFd> = live.iter().map(|&i| PollFd { fd: ws[i].1, events: 1, revents: 0 }).collect();
        unsafe { poll(p.as_mut_ptr(), p.len() as u64, 200) };
        for (k, &i) in live.iter().enumerate() {
            if p[k].revents == 0 {
                continue;
            }
            let n = unsafe { read(ws[i].1, tmp.as_mut_ptr(), tmp.len()) };
            if n <= 0 {
                ws[i].3 = true;
                continue;
            }
            ws[i].2.extend_from_slice(&tmp[..n as usize]);
            for l in tmp[..n as usize].split(|c| *c == b'\n') {
                if l.starts_with(b"V ") && grace.is_none() {
                    // a short time for the other workers, to prefer an early run
                    grace = Some(Instant::now() + Duration::from_secs(3));
                }
                if l.starts_with(b"X ") {
                    grace = Some(Instant::now());
                }
            }
        }
        if grace.map_or(false, |g| Instant::now() >= g) {
            for w in &mut ws {
                unsafe { kill(w.0, 9) };
                w.3 = true;
            }
        }
    }
    for w in &ws {
        let mut st = 0;
        unsafe {
            waitpid(w.0, &mut st, 0);
            close(w.1);
        }
    }
    let mut t = Total::default();
    let mut finished = 0;
    let mut edges = 0usize;
    for w in &ws {
        let s = String::from_utf8_lossy(&w.2).to_string();
        for l in s.lines() {
            let (k, v) = l.split_at(l.len().min(2));
            match k {
                "V " => {
                    let f: Vec<&str> = v.split('\t').collect();
                    if f.len() == 3 {
                        fails.push((f[0].parse().unwrap_or(0), unesc(f[1]), unesc(f[2])));
                    }
                }
                "X " => errors.push(v.to_string()),
                "T " => {
                    let f: Vec<u64> = v.split(' ').map(|x| x.parse().unwrap_or(0)).collect();
                    t.runs += f[0];
                    t.evals += f[1];
                    t.steps += f[2];
                    t.alone += f[3];
                    t.stats.preemptions += f[4];
                    t.stats.blocks += f[5];
                    t.stats.wakes += f[6];
                    t.stats.spurious += f[7];
                    t.stats.timeouts += f[8];
                    t.stats.alloc_faults += f[9];
                    t.stats.huge_faults += f[10];
                    t.stats.fair_rotations += f[11];
                    t.determinism.0 += f[12];
                    t.determinism.1 += f[13];
                    t.preempted += f[14];
                    t.known += f[15];
                    t.max = t.max.max(f[16]);
                }
                "P " | "M " => {
                    let (n, name) = v.split_once(' ').unwrap_or(("0", v));
                    let m = if k == "P " { &mut t.probes } else { &mut t.modes };
                    *m.entry(name.to_string()).or_default() += n.parse::<u64>().unwrap_or(0);
                }
                "C " => {
                    let c: Vec<u8> = (0..v.len() / 2).map(|i| u8::from_str_radix(&v[2 * i..2 * i + 2], 16).unwrap_or(0)).collect();
                    if t.cov.len() < c.len() {
                        t.cov.resize(c.len(), 0);
                    }
                    for (a, b) in t.cov.iter_mut().zip(&c) {
                        *a |= b;
                    }
                }
                "A " => t.traces.extend(v.split(' ').filter_map(|x| u64::from_str_radix(x, 16).ok())),
                "B " => t.switches.extend(v.split(' ').filter_map(|x| u64::from_str_radix(x, 16).ok())),
                "E" => finished += 1,
                _ => {}
            }
        }
    }
    edges += t.cov.iter().map(|b| b.count_ones() as usize).sum::<usize>();
    let wall = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut viol_json = vec![];
    if !errors.is_empty() {
        for e in &errors {
            eprintln!("algsim: harness error: {e}");
        }
        return 2;
    }
    if fails.is_empty() && finished != o.workers {
        eprintln!("algsim: a worker died");
        return 2;
    }
    fails.sort();
    if let Some((index, class, what)) = fails.first() {
        println!("algsim: violation in run {index} ({class}): {what}");
        let plan = props::generate(&o.prop, o.seed, *index, o.tier == "thorough");
        let mut j = Judge::new();
        // a run that only real time can stop is reported as it is
        let stuck = class == "hang";
        let small = if stuck {
            let mut p = plan.clone();
            p.expect = class.clone();
            p
        } else {
            minimise(&mut j, &plan, class, Duration::from_secs(90))
        };
        let dir = format!("{}/replays", o.root);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-{}-{}.replay", o.prop, o.seed, index);
        let fin = if stuck { Run::default() } else { j.run(&small, true) };
        let mut text = small.to_text();
        for v in &fin.viol {
            text += &format!("# {} {}\n", v.0, v.1.replace('\n', " "));
            println!("algsim: minimised: {} {}", v.0, v.1);
        }
        for h in &fin.hist {
            text += &format!("# {}\n", short(&h.replace('\n', " ")));
        }
        if let Err(e) = std::fs::write(&path, text) {
            eprintln!("algsim: cannot write {path}: {e}");
            return 2;
        }
        // replay the file in a fresh process
        let again = if stuck { Err(std::io::ErrorKind::Other.into()) } else { std::process::Command::new(std::env::current_exe().unwrap())
            .args(["replay", &path, "--root", &o.root])
            .output() };
        let reproduced = again.map_or(false, |a| a.status.code() == Some(1));
        println!(
            "algsim: {} operations, {} switches, {} allocation faults after minimisation; replay {}",
            small.n_ops(),
            small.decisions.len(),
            small.alloc_faults.len(),
            if reproduced { "reproduces it" } else if stuck { "not tried, it would not return" } else { "DOES NOT reproduce it" }
        );
        println!("VIOLATION property={} replay={path}", o.prop);
        viol_json.push(format!("{{\"replay\": {}, \"class\": {}, \"what\": {}, \"reproduced\": {reproduced}}}", js(&path), js(class), js(&short(what))));
        code = 1;
    } else {
        known.announce(&o.prop);
    }
    if o.evidence {
        evidence(o, &t, edges, wall, &viol_json, fails.len());
    }
    println!(
        "algsim: {} runs, {} results judged, {} distinct interleavings, {} edges, longest run {} steps, {:.1} s; determinism {}/{} equal",
        t.runs,
        t.evals,
        t.switches.len(),
        edges,
        t.max,
        wall,
        t.determinism.0 - t.determinism.1,
        t.determinism.0
    );
    code
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}
fn jmap(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, n)| format!("{}: {n}", js(k))).collect();
    format!("{{{}}}", v.join(", "))
}

fn evidence(o: &Opt, t: &Total, edges: usize, wall: f64, viol: &[String], nviol: usize) {
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    faults.insert("preemption at a chosen step".into(), t.stats.preemptions);
    faults.insert("task blocked on a lock".into(), t.stats.blocks);
    faults.insert("spurious wake-up".into(), t.stats.spurious);
    faults.insert("expired timed wait".into(), t.stats.timeouts);
    faults.insert("allocation failure (memory exhaustion) inside a call".into(), t.stats.alloc_faults);
    faults.insert("impossible allocation refused".into(), t.stats.huge_faults);
    faults.insert("forced rotation of a task that never yields".into(), t.stats.fair_rotations);
    for (k, n) in &t.probes {
        faults.insert(k.clone(), *n);
    }
    let samples: Vec<String> = (0..3)
        .map(|i| {
            let p = props::generate(&o.prop, o.seed, o.first + i, o.tier == "thorough");
            js(&p.to_text().chars().take(1500).collect::<String>())
        })
        .collect();
    let hours = (wall / 3600.0).max(1e-9);
    let s = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"samples\": [{}],\n    \"simulated_runs\": {},\n    \"fresh_process_reference_runs\": {},\n    \"runs_per_hour\": {:.0},\n    \"seeds_per_hour\": {:.0},\n    \"simulated_time_steps\": {},\n    \"longest_run_steps\": {},\n    \"faults_injected\": {},\n    \"schedulers\": {},\n    \"distinct_interleavings\": {},\n    \"distinct_executions\": {},\n    \"runs_with_a_switch\": {},\n    \"control_flow_edges_reached\": {},\n    \"control_flow_edges_total\": {},\n    \"determinism_reruns\": {},\n    \"determinism_mismatches\": {},\n    \"known_finding_hits\": {},\n    \"components_real\": {},\n    \"components_stub\": {},\n    \"violation_details\": [{}]\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n",
        js(&o.prop),
        js(&o.tier),
        o.seed,
        t.evals.max(nviol as u64),
        t.traces.len(),
        js("an evaluation is one result of the library judged by the oracle; distinct_nontrivial counts distinct executions (hash over the whole sequence of (task, control-flow edge, allocation, lock event) of a run)"),
        samples.join(", "),
        t.runs,
        t.alone,
        t.runs as f64 / hours,
        t.runs as f64 / hours,
        t.steps,
        t.max,
        jmap(&faults),
        jmap(&t.modes),
        t.switches.len(),
        t.traces.len(),
        t.preempted,
        edges,
        rt::n_guards(),
        t.determinism.0,
        t.determinism.1,
        t.known,
        js("the whole algebraics crate from /repo, num-bigint, num-rational, rand, std's locks (futex protocol in user space)"),
        js("kernel futex and thread scheduler (simulated), OS entropy (seeded), memory exhaustion (simulated), output sinks (simulated), random source: real PCG in part of the runs, simulated streams otherwise"),
        viol.join(", "),
        [
            "sequentially consistent memory: one task runs at a time, switches only at scheduling points (control-flow edges, allocations, lock operations)",
            "memory exhaustion is injected for requests of at least 300 bytes and for impossible sizes",
            "seeded sampling, not enumeration"
        ]
        .iter()
        .map(|x| js(x))
        .collect::<Vec<_>>()
        .join(", "),
        wall,
        nviol
    );
    let dir = format!("{}/evidence", o.root);
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{dir}/{}.json", o.prop), s) {
        eprintln!("algsim: cannot write evidence: {e}");
    }
}

pub fn replay(path: &str) -> i32 {
    let plan = match std::fs::read_to_string(path).map_err(|e| e.to_string()).and_then(|s| Plan::from_text(&s)) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("algsim: {path}: {e}");
            return 2;
        }
    };
    let mut j = Judge::new();
    let r = j.run(&plan, true);
    for h in &r.hist {
        println!("  {}", short(h));
    }
    if let Some(e) = r.harness_error {
        eprintln!("algsim: harness error: {e}");
        return 2;
    }
    for v in &r.viol {
        println!("{}: {}", v.0, v.1);
    }
    println!("steps {} trace {:016x}", r.stats.steps, r.stats.trace_hash);
    if r.viol.iter().any(|v| plan.expect.is_empty() || v.0 == plan.expect) {
        println!("VIOLATION property={} replay={path}", plan.prop);
        1
    } else {
        0
    }
}

/// every run twice; prints a digest that must not depend on the number of workers
pub fn determinism(prop: &str, seed: u64, n: u64) -> i32 {
    let mut bad = 0;
    let mut h = 0u64;
    for i in 0..n {
        let p = props::generate(prop, seed, i, false);
        let a = run_child(&p, true, Duration::from_secs(300));
        let b = run_child(&p, true, Duration::from_secs(300));
        if a.stats.trace_hash != b.stats.trace_hash || a.hist != b.hist || a.decisions != b.decisions {
            println!("run {i} differs: {:x} {:x}", a.stats.trace_hash, b.stats.trace_hash);
            bad += 1;
        }
        // and the recorded switches alone must give the same execution
        let mut q = p.clone();
        q.mode = Mode::Replay;
        q.decisions = a.decisions.clone();
        let c = run_child(&q, true, Duration::from_secs(300));
        if c.stats.trace_hash != a.stats.trace_hash || c.hist != a.hist {
            println!("run {i}: explicit replay differs ({} switches, mode {:?})", a.decisions.len(), p.mode);
            bad += 1;
        }
        h = rt::mix(h ^ a.stats.trace_hash);
    }
    println!("{prop} seed {seed}: {n} runs, {bad} differences, digest {h:016x}");
    let _ = Rng::new(0);
    (bad > 0) as i32
}
