//! The simulator proper: a token-passing scheduler over real threads in which exactly one
//! simulated task runs at a time, and every switch, wake-up and fault is decided by a seeded
//! generator (or by an explicit list when replaying).
//!
//! Scheduling points ("steps"):
//!  * every control-flow edge of the crate under test (SanitizerCoverage callback),
//!  * every heap allocation made by a task,
//!  * every futex wait and wake made by std's Mutex / RwLock / Once / Condvar (the libc
//!    `syscall` symbol is interposed, so a task that would block in the kernel is parked in
//!    the simulator instead), and sched_yield / sleep.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};

pub const MAXT: usize = 8;
pub const NOTASK: usize = usize::MAX;
/// a task may run this many consecutive steps while others are ready; then it is rotated out
pub const FAIR_STEPS: u64 = 4_000_000;
/// requests above this size fail (there is no such memory in the simulated machine)
pub const HUGE_ALLOC: usize = 1 << 28;
/// the memory-exhaustion fault hits requests of at least this size: bignum buffers, not the
/// handful of bytes of a lock or a shared pointer
pub const LARGE_ALLOC: usize = 300;

thread_local! {
    static TID: Cell<usize> = const { Cell::new(NOTASK) };
    static QUIET: Cell<u32> = const { Cell::new(1) };
    static PANIC_MSG: Cell<Option<String>> = const { Cell::new(None) };
}

#[derive(Clone, Debug)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n.max(1) as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// true with probability num/den
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.us(v.len())]
    }
    /// roughly geometric with the given mean, at least 1
    pub fn geo(&mut self, mean: u64) -> u64 {
        let u = (self.next() >> 11) as f64 / (1u64 << 53) as f64;
        1 + (-(1.0 - u).ln() * mean as f64) as u64
    }
}
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0100_0000_01b3);
    }
    mix(h)
}

#[derive(Clone, Debug, PartialEq)]
pub enum Mode {
    /// tasks run to completion one after the other, in random order
    Serial,
    /// preemption after a geometrically distributed number of steps
    Gap(u64),
    /// preemption, with probability 1/den, at edges this run has visited at most `visits`
    /// times: concentrates on straight-line code (locking, publishing) instead of loops
    Rare { visits: u16, den: u64 },
    /// random priorities with `changes` priority drops over the first `len` steps (PCT);
    /// models long stalls of single tasks
    Pct { changes: u32, len: u64 },
    /// one task (the victim) is preempted after a geometrically distributed number of steps,
    /// always by a whole operation of another task: what others complete falls in between
    Turns { victim: usize, mean: u64 },
    /// explicit switch list
    Replay,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Decision {
    pub task: usize,
    pub step: u64,
    pub to: usize,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    Blocked { addr: usize, timed: bool },
    Done,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Finished,
    Deadlock,
    Budget,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub n: usize,
    pub mode: Mode,
    pub seed: u64,
    pub max_steps: u64,
    pub spurious: bool,
    /// the last task starts only when all others have ended
    pub last_waits: bool,
    /// allocations below this size never fail
    pub fail_size: usize,
    pub decisions: Vec<Decision>,
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub steps: u64,
    pub preemptions: u64,
    pub blocks: u64,
    pub wakes: u64,
    pub spurious: u64,
    pub timeouts: u64,
    pub alloc_faults: u64,
    pub huge_faults: u64,
    pub fair_rotations: u64,
    pub trace_hash: u64,
    pub switch_hash: u64,
}

struct Sim {
    cfg: Cfg,
    rng: Rng,
    st: [St; MAXT],
    local: [u64; MAXT],
    prio: [u64; MAXT],
    low_prio: u64,
    changes: Vec<u64>,
    next_change: usize,
    next_at: u64,
    run_len: u64,
    timed_out: [bool; MAXT],
    replay: Vec<Vec<(u64, usize)>>,
    replay_pos: [usize; MAXT],
    made: Vec<Decision>,
    stats: Stats,
    fail_nth: [i64; MAXT],
    fault_fired: [bool; MAXT],
    on_end: fn(Verdict) -> !,
}

static mut SIM: Option<Sim> = None;
static GO: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];
static DONE: AtomicU32 = AtomicU32::new(0);
pub const MAXG: usize = 1 << 16;
static mut VISITS: [u16; MAXG] = [0; MAXG];
static GUARDS: AtomicU32 = AtomicU32::new(0);

#[inline]
fn sim() -> &'static mut Sim {
    // only the token holder gets here
    unsafe { (*std::ptr::addr_of_mut!(SIM)).as_mut().unwrap() }
}

// ---------------------------------------------------------------- raw system calls

#[cfg(target_arch = "x86_64")]
pub unsafe fn raw_syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _);
    r
}
const SYS_FUTEX: i64 = 202;
const SYS_GETRANDOM: i64 = 318;
const SYS_SCHED_YIELD: i64 = 24;
extern "C" {
    fn __errno_location() -> *mut i32;
}
unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}
fn park(w: &AtomicU32) {
    loop {
        if w.swap(0, Ordering::Acquire) == 1 {
            return;
        }
        unsafe {
            raw_syscall(SYS_FUTEX, w as *const _ as usize, 128, 0, 0, 0, 0);
        }
    }
}
fn unpark(w: &AtomicU32) {
    w.store(1, Ordering::Release);
    unsafe {
        raw_syscall(SYS_FUTEX, w as *const _ as usize, 129, 1, 0, 0, 0);
    }
}

// ---------------------------------------------------------------- scheduling

fn note(s: &mut Sim, t: usize, id: u32) {
    s.local[t] += 1;
    s.stats.steps += 1;
    s.run_len += 1;
    s.stats.trace_hash = (s.stats.trace_hash ^ ((t as u64) << 40 | id as u64))
        .wrapping_mul(0x9e37_79b9_7f4a_7c15)
        .rotate_left(23);
}

fn ready(s: &Sim, except: usize) -> Vec<usize> {
    (0..s.cfg.n)
        .filter(|&i| i != except && s.st[i] == St::Ready)
        .collect()
}

fn replay_at(s: &mut Sim, t: usize) -> Option<usize> {
    let step = s.local[t];
    let v = &s.replay[t];
    let p = &mut s.replay_pos[t];
    while *p < v.len() && v[*p].0 < step {
        *p += 1;
    }
    if *p < v.len() && v[*p].0 == step {
        let r = v[*p].1;
        *p += 1;
        Some(r)
    } else {
        None
    }
}

/// hand the token from `t` to `to` and wait to get it back
fn switch(t: usize, to: usize, id: u32) {
    let s = sim();
    s.stats.switch_hash = (s.stats.switch_hash ^ ((t as u64) << 48 | (to as u64) << 40 | id as u64))
        .wrapping_mul(0xd6e8_feb8_6659_fd93)
        .rotate_left(29);
    s.run_len = 0;
    if let Mode::Gap(mean) | Mode::Turns { mean, .. } = s.cfg.mode {
        s.next_at = s.stats.steps + s.rng.geo(mean);
    }
    unpark(&GO[to]);
    park(&GO[t]);
}

fn preempt(s: &mut Sim, t: usize, to: usize, id: u32) {
    if to == t || to >= s.cfg.n || s.st[to] != St::Ready {
        return;
    }
    s.made.push(Decision { task: t, step: s.local[t], to });
    s.stats.preemptions += 1;
    switch(t, to, id);
}

fn highest(s: &Sim, list: &[usize]) -> usize {
    *list.iter().max_by_key(|&&i| s.prio[i]).unwrap()
}

#[inline]
fn hit(id: u32) {
    let t = TID.get();
    if t == NOTASK || QUIET.get() > 0 {
        return;
    }
    hit_slow(t, id);
}

fn hit_slow(t: usize, id: u32) {
    let s = sim();
    note(s, t, id);
    if s.stats.steps > s.cfg.max_steps {
        QUIET.set(1);
        (s.on_end)(Verdict::Budget);
    }
    let visits = unsafe {
        let v = &mut VISITS[id as usize & (MAXG - 1)];
        *v = v.saturating_add(1);
        *v
    };
    let want = match s.cfg.mode {
        Mode::Serial => false,
        Mode::Gap(_) => s.stats.steps >= s.next_at,
        Mode::Turns { victim, .. } => t == victim && s.stats.steps >= s.next_at,
        Mode::Rare { visits: k, den } => visits <= k && s.rng.chance(1, den),
        Mode::Pct { .. } => s.next_change < s.changes.len() && s.stats.steps >= s.changes[s.next_change],
        Mode::Replay => {
            let v = &s.replay[t];
            let p = &mut s.replay_pos[t];
            while *p < v.len() && v[*p].0 < s.local[t] {
                *p += 1;
            }
            *p < v.len() && v[*p].0 == s.local[t]
        }
    };
    let fair = s.run_len > FAIR_STEPS;
    if !want && !fair {
        return;
    }
    QUIET.set(1);
    if fair {
        s.run_len = 0;
    }
    if want {
        let others = ready(s, t);
        match s.cfg.mode {
            Mode::Replay => {
                if let Some(to) = replay_at(s, t) {
                    preempt(s, t, to, id);
                }
            }
            Mode::Pct { .. } => {
                s.next_change += 1;
                s.low_prio -= 1;
                s.prio[t] = s.low_prio;
                if !others.is_empty() {
                    let to = highest(s, &others);
                    preempt(s, t, to, id);
                }
            }
            _ => {
                if let Mode::Gap(mean) | Mode::Turns { mean, .. } = s.cfg.mode {
                    s.next_at = s.stats.steps + s.rng.geo(mean);
                }
                if !others.is_empty() {
                    let to = *s.rng.pick(&others);
                    preempt(s, t, to, id);
                }
            }
        }
    } else {
        // fairness: rotate to the next ready task (a fixed rule, so not a recorded decision)
        if let Some(to) = (1..s.cfg.n).map(|d| (t + d) % s.cfg.n).find(|&i| s.st[i] == St::Ready) {
            s.stats.fair_rotations += 1;
            switch(t, to, id);
        }
    }
    QUIET.set(0);
}

/// the current task cannot go on: choose who runs next. None: nobody can.
fn choose_next(s: &mut Sim, t: usize) -> Option<usize> {
    let mut c = ready(s, NOTASK);
    if c.is_empty() {
        // let a timed wait expire
        for i in 0..s.cfg.n {
            if let St::Blocked { timed: true, .. } = s.st[i] {
                s.st[i] = St::Ready;
                s.timed_out[i] = true;
                s.stats.timeouts += 1;
                c.push(i);
                break;
            }
        }
    }
    if c.is_empty() {
        return None;
    }
    let to = match s.cfg.mode {
        Mode::Replay => match replay_at(s, t) {
            Some(to) if c.contains(&to) => to,
            _ => c[0],
        },
        Mode::Pct { .. } => highest(s, &c),
        _ => *s.rng.pick(&c),
    };
    if to != c[0] {
        s.made.push(Decision { task: t, step: s.local[t], to });
    }
    Some(to)
}

unsafe fn sim_futex(t: usize, addr: usize, op: i32, val: u32, timeout: usize) -> i64 {
    let q = QUIET.replace(1);
    let s = sim();
    let r = match op & 0x7f {
        0 | 9 => {
            note(s, t, 0x4000_0001);
            if (*(addr as *const AtomicU32)).load(Ordering::SeqCst) != val {
                -11
            } else {
                let spurious = match s.cfg.mode {
                    Mode::Replay => {
                        // a recorded decision "t -> t" stands for a spurious wake-up
                        let p = s.replay_pos[t];
                        let v = &s.replay[t];
                        if p < v.len() && v[p] == (s.local[t], t) {
                            s.replay_pos[t] += 1;
                            true
                        } else {
                            false
                        }
                    }
                    _ => s.cfg.spurious && s.rng.chance(1, 4),
                };
                if spurious {
                    s.stats.spurious += 1;
                    s.made.push(Decision { task: t, step: s.local[t], to: t });
                    0
                } else {
                    s.st[t] = St::Blocked { addr, timed: timeout != 0 };
                    s.stats.blocks += 1;
                    match choose_next(s, t) {
                        None => (s.on_end)(Verdict::Deadlock),
                        Some(to) if to == t => {}
                        Some(to) => switch(t, to, 0x4000_0001),
                    }
                    let s = sim();
                    s.st[t] = St::Ready;
                    if std::mem::replace(&mut s.timed_out[t], false) {
                        -110
                    } else {
                        0
                    }
                }
            }
        }
        1 | 10 => {
            note(s, t, 0x4000_0002);
            let mut w: Vec<usize> = (0..s.cfg.n)
                .filter(|&i| matches!(s.st[i], St::Blocked { addr: a, .. } if a == addr))
                .collect();
            let mut n = 0;
            while n < val as i64 as usize && !w.is_empty() {
                let k = if w.len() == 1 {
                    0
                } else if n == 0 && (val as usize) < w.len() {
                    // who is woken first is a scheduling decision
                    match s.cfg.mode {
                        Mode::Replay => replay_at(s, t)
                            .and_then(|x| w.iter().position(|&i| i == x))
                            .unwrap_or(0),
                        _ => {
                            let k = s.rng.us(w.len());
                            if k != 0 {
                                s.made.push(Decision { task: t, step: s.local[t], to: w[k] });
                            }
                            k
                        }
                    }
                } else {
                    0
                };
                let i = w.remove(k);
                s.st[i] = St::Ready;
                n += 1;
            }
            s.stats.wakes += n as u64;
            n as i64
        }
        _ => -38,
    };
    QUIET.set(q);
    r
}

fn task_done(t: usize) {
    QUIET.set(1);
    let s = sim();
    // a step of its own, so that the choice made here has a position of its own
    note(s, t, 0x4000_0005);
    s.st[t] = St::Done;
    let last = s.cfg.n - 1;
    if s.cfg.last_waits && t != last && s.st[..last].iter().all(|x| *x == St::Done) {
        s.st[last] = St::Ready;
    }
    match choose_next(s, t) {
        Some(to) => {
            TID.set(NOTASK);
            s.run_len = 0;
            if let Mode::Gap(mean) | Mode::Turns { mean, .. } = s.cfg.mode {
                s.next_at = s.stats.steps + s.rng.geo(mean);
            }
            unpark(&GO[to]);
        }
        None => {
            if s.st[..s.cfg.n].iter().all(|x| *x == St::Done) {
                TID.set(NOTASK);
                unpark(&DONE);
            } else {
                (s.on_end)(Verdict::Deadlock);
            }
        }
    }
}

/// runs `body(t)` for every task under the simulated scheduler; returns when all are done.
/// When they cannot all finish, `on_end` is called (on the stuck task's thread) instead.
pub fn run<F: Fn(usize) + Send + Sync + 'static>(cfg: Cfg, body: F, on_end: fn(Verdict) -> !) {
    let n = cfg.n;
    assert!(n >= 1 && n <= MAXT);
    let mut rng = Rng::new(cfg.seed ^ 0x5c4e_d000);
    let mut replay = vec![Vec::new(); MAXT];
    for d in &cfg.decisions {
        replay[d.task].push((d.step, d.to));
    }
    for r in &mut replay {
        r.sort_by_key(|x| x.0); // stable: several decisions of one step keep their order
    }
    let mut prio = [0; MAXT];
    for p in prio.iter_mut() {
        *p = (1 << 40) + (rng.next() >> 24);
    }
    let mut changes = Vec::new();
    if let Mode::Pct { changes: c, len } = cfg.mode {
        for _ in 0..c {
            changes.push(1 + rng.below(len));
        }
        changes.sort();
    }
    let next_at = if let Mode::Gap(m) | Mode::Turns { mean: m, .. } = cfg.mode { rng.geo(m) } else { 0 };
    let m = if cfg.last_waits { n - 1 } else { n };
    let first = match cfg.mode {
        Mode::Replay => 0,
        Mode::Pct { .. } => (0..m).max_by_key(|&i| prio[i]).unwrap(),
        _ => rng.us(m),
    };
    let mut made = Vec::with_capacity(4096);
    let first = match cfg.mode {
        // the initial choice is recorded as a decision of step 0
        Mode::Replay => cfg.decisions.iter().find(|d| d.step == 0).map(|d| d.to.min(m - 1)).unwrap_or(0),
        _ => first,
    };
    if first != 0 {
        made.push(Decision { task: 0, step: 0, to: first });
    }
    let mut st = [St::Ready; MAXT];
    if cfg.last_waits {
        assert!(n >= 2);
        st[n - 1] = St::Blocked { addr: 0, timed: false };
    }
    unsafe {
        *std::ptr::addr_of_mut!(SIM) = Some(Sim {
            cfg,
            rng,
            st,
            local: [0; MAXT],
            prio,
            low_prio: 1 << 30,
            changes,
            next_change: 0,
            next_at,
            run_len: 0,
            timed_out: [false; MAXT],
            replay,
            replay_pos: [0; MAXT],
            made,
            stats: Stats::default(),
            fail_nth: [-1; MAXT],
            fault_fired: [false; MAXT],
            on_end,
        });
    }
    let body = std::sync::Arc::new(body);
    for t in 0..n {
        let body = body.clone();
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || {
                park(&GO[t]);
                TID.set(t);
                body(t);
                task_done(t);
            })
            .expect("cannot spawn a task thread");
    }
    unpark(&GO[first]);
    park(&DONE);
}

/// current global and task-local step
pub fn now() -> (u64, u64) {
    let t = TID.get();
    let s = sim();
    (s.stats.steps, if t == NOTASK { 0 } else { s.local[t] })
}
pub fn stats() -> Stats {
    sim().stats.clone()
}
pub fn decisions() -> Vec<Decision> {
    sim().made.clone()
}
pub fn n_guards() -> usize {
    GUARDS.load(Ordering::Relaxed) as usize
}
/// bitmap of the edges reached in this process
pub fn coverage() -> Vec<u8> {
    let n = n_guards().min(MAXG - 1);
    let mut v = vec![0u8; n / 8 + 1];
    for i in 0..=n {
        if unsafe { VISITS[i] } > 0 {
            v[i / 8] |= 1 << (i % 8);
        }
    }
    v
}

/// an operation of the calling task has ended: a scheduling point of its own
pub fn op_boundary() {
    let t = TID.get();
    let s = sim();
    let id = 0x4000_0006;
    note(s, t, id);
    match s.cfg.mode {
        Mode::Replay => {
            if let Some(to) = replay_at(s, t) {
                preempt(s, t, to, id);
            }
        }
        Mode::Turns { victim, .. } if t != victim => preempt(s, t, victim, id),
        _ => {}
    }
}

struct LiveGuard;
impl Drop for LiveGuard {
    fn drop(&mut self) {
        QUIET.set(1);
    }
}

/// Calls the code under test with scheduling points enabled. `fail_nth`: the n-th (large)
/// allocation of this call fails (memory exhaustion), at most once.
/// Returns the value or the panic message, and whether the injected fault was hit.
pub fn call<R>(fail_nth: Option<u64>, f: impl FnOnce() -> R) -> (Result<R, String>, bool) {
    let t = TID.get();
    if t != NOTASK {
        sim().fail_nth[t] = fail_nth.map_or(-1, |x| x as i64);
        sim().fault_fired[t] = false;
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _g = LiveGuard;
        if t != NOTASK {
            QUIET.set(0);
        }
        f()
    }));
    QUIET.set(1);
    let mut fired = false;
    if t != NOTASK {
        sim().fail_nth[t] = -1;
        fired = sim().fault_fired[t];
    }
    let r = match r {
        Ok(v) => Ok(v),
        Err(e) => {
            std::mem::forget(e);
            Err(PANIC_MSG.take().unwrap_or_else(|| "panic".into()))
        }
    };
    (r, fired)
}

/// run harness code inside a call without scheduling points
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let q = QUIET.replace(1);
    let r = f();
    QUIET.set(q);
    r
}

/// like `quiet`, also restoring the state when `f` unwinds
pub fn quiet_keep<R>(f: impl FnOnce() -> R) -> R {
    struct G(u32);
    impl Drop for G {
        fn drop(&mut self) {
            QUIET.set(self.0);
        }
    }
    let _g = G(QUIET.replace(1));
    f()
}

/// the calling task leaves the simulation for good (it reports and ends the process)
pub fn detach() {
    QUIET.set(1);
    TID.set(NOTASK);
}

pub fn current_task() -> usize {
    TID.get()
}

pub fn install_hooks() {
    std::panic::set_hook(Box::new(|info| {
        let q = QUIET.replace(1);
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!(" at {}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line()))
            .unwrap_or_default();
        if std::env::var_os("ALGSIM_PANIC").is_some() {
            eprintln!("panic: {m}{loc}");
        }
        PANIC_MSG.set(Some(format!("{m}{loc}")));
        QUIET.set(q);
    }));
    std::alloc::set_alloc_error_hook(|l| panic!("memory exhausted: cannot allocate {} bytes", l.size()));
}

// ---------------------------------------------------------------- interposed symbols

pub struct SimAlloc;
#[global_allocator]
static ALLOC: SimAlloc = SimAlloc;

/// allocations made so far outside the simulation (used to size operations beforehand)
static OUTSIDE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub fn outside_allocations() -> u64 {
    OUTSIDE.load(std::sync::atomic::Ordering::Relaxed)
}

#[inline]
fn alloc_point(size: usize) -> bool {
    let t = TID.get();
    if t == NOTASK || QUIET.get() > 0 {
        if t == NOTASK {
            OUTSIDE.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        }
        return true;
    }
    hit_slow(t, 0x2000_0000 | (usize::BITS - size.leading_zeros()));
    let s = sim();
    if size > HUGE_ALLOC {
        s.stats.huge_faults += 1;
        return false;
    }
    // (what a panic itself allocates does not fail: that would end the process)
    if size >= s.cfg.fail_size && s.fail_nth[t] >= 0 && !std::thread::panicking() {
        s.fail_nth[t] -= 1;
        if s.fail_nth[t] < 0 {
            s.fault_fired[t] = true;
            s.stats.alloc_faults += 1;
            return false;
        }
    }
    true
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !alloc_point(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !alloc_point(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !alloc_point(n) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    hit(*g);
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, e: *mut u32) {
    if a == e || *a != 0 {
        return;
    }
    let mut n = GUARDS.load(Ordering::Relaxed);
    while a < e {
        n += 1;
        *a = n;
        a = a.add(1);
    }
    GUARDS.store(n, Ordering::Relaxed);
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == SYS_FUTEX {
        let t = TID.get();
        if t != NOTASK {
            return ret(sim_futex(t, a, b as i32, c as u32, if matches!(b & 0x7f, 0 | 9) { d } else { 0 }));
        }
    }
    if n == SYS_GETRANDOM {
        return getrandom(a as *mut u8, b, c as u32) as i64;
    }
    ret(raw_syscall(n, a, b, c, d, e, f))
}

static ENTROPY: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);
pub fn seed_entropy(seed: u64) {
    ENTROPY.store(seed, Ordering::SeqCst);
}
/// the operating system's randomness, replaced by a seeded stream
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        let x = ENTROPY.fetch_add(0x9e37_79b9_7f4a_7c15, Ordering::SeqCst);
        *buf.add(i) = mix(x) as u8;
    }
    len as isize
}

/// the clock seen by tasks advances with the steps taken, 100 ns each
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: i32, ts: *mut [i64; 2]) -> i32 {
    if TID.get() != NOTASK {
        let ns = sim().stats.steps * 100 + if c == 0 { 1_600_000_000_000_000_000 } else { 1_000_000_000_000 };
        *ts = [(ns / 1_000_000_000) as i64, (ns % 1_000_000_000) as i64];
        return 0;
    }
    ret(raw_syscall(228, c as usize, ts as usize, 0, 0, 0, 0)) as i32
}

fn give_way(id: u32) {
    let t = TID.get();
    if t == NOTASK {
        return;
    }
    let q = QUIET.replace(1);
    let s = sim();
    note(s, t, id);
    if s.stats.steps > s.cfg.max_steps {
        (s.on_end)(Verdict::Budget);
    }
    // rotate to the next ready task
    if let Some(to) = (1..s.cfg.n).map(|d| (t + d) % s.cfg.n).find(|&i| s.st[i] == St::Ready) {
        switch(t, to, id);
    }
    QUIET.set(q);
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if TID.get() != NOTASK {
        give_way(0x4000_0003);
        return 0;
    }
    ret(raw_syscall(SYS_SCHED_YIELD, 0, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: usize, b: usize) -> i32 {
    if TID.get() != NOTASK {
        give_way(0x4000_0004);
        return 0;
    }
    ret(raw_syscall(35, a, b, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(a: usize, b: usize, c: usize, d: usize) -> i32 {
    if TID.get() != NOTASK {
        give_way(0x4000_0004);
        return 0;
    }
    -(raw_syscall(230, a, b, c, d, 0, 0) as i32)
}
