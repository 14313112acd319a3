//! A simulated run, as data: what each task does, which faults are injected, how it is
//! scheduled. One seed generates one plan; a plan with an explicit switch list is a replay file.

use crate::rt::{Decision, Mode};

#[derive(Clone, Debug)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub index: u64,
    /// executed first, one after the other, by a single thread, without faults
    pub warm: Vec<String>,
    /// values all tasks can read (results of these operations), made like `warm`
    pub shared: Vec<String>,
    pub tasks: Vec<Vec<String>>,
    /// executed after all tasks have ended, without faults
    pub post: Vec<String>,
    /// (task, operation, n): the n-th large allocation in that operation fails;
    /// n = 2^32 + m: the one after m millionths of all its allocations
    pub alloc_faults: Vec<(usize, usize, u64)>,
    /// random stream behind the library's own generator, per task
    pub irng: Vec<String>,
    pub mode: Mode,
    pub sched_seed: u64,
    pub spurious: bool,
    pub max_steps: u64,
    pub decisions: Vec<Decision>,
    /// replay files only: class of the violation
    pub expect: String,
}

impl Plan {
    pub fn new(prop: &str, seed: u64, index: u64) -> Self {
        Plan {
            prop: prop.into(),
            seed,
            index,
            warm: vec![],
            shared: vec![],
            tasks: vec![],
            post: vec![],
            alloc_faults: vec![],
            irng: vec![],
            mode: Mode::Serial,
            sched_seed: 0,
            spurious: false,
            max_steps: 2_000_000_000,
            decisions: vec![],
            expect: String::new(),
        }
    }
    pub fn n_ops(&self) -> usize {
        self.tasks.iter().flatten().chain(&self.warm).chain(&self.post).filter(|o| *o != "nop").count()
    }
    pub fn to_text(&self) -> String {
        let mut o = String::from("algsim-replay 1\n");
        o += &format!("prop {}\nseed {} {}\n", self.prop, self.seed, self.index);
        for x in &self.warm {
            o += &format!("warm {x}\n");
        }
        for x in &self.shared {
            o += &format!("shared {x}\n");
        }
        o += &format!("tasks {}\n", self.tasks.len());
        for (t, v) in self.tasks.iter().enumerate() {
            for x in v {
                o += &format!("task {t} {x}\n");
            }
        }
        for x in &self.post {
            o += &format!("post {x}\n");
        }
        for (a, b, c) in &self.alloc_faults {
            o += &format!("allocfault {a} {b} {c}\n");
        }
        for x in &self.irng {
            o += &format!("irng {x}\n");
        }
        let m = match &self.mode {
            Mode::Serial => "serial".into(),
            Mode::Gap(g) => format!("gap {g}"),
            Mode::Rare { visits, den } => format!("rare {visits} {den}"),
            Mode::Turns { victim, mean } => format!("turns {victim} {mean}"),
            Mode::Pct { changes, len } => format!("pct {changes} {len}"),
            Mode::Replay => "replay".into(),
        };
        o += &format!("sched {} {} {} {}\n", self.sched_seed, self.spurious as u8, self.max_steps, m);
        for d in &self.decisions {
            o += &format!("switch {} {} {}\n", d.task, d.step, d.to);
        }
        if !self.expect.is_empty() {
            o += &format!("expect {}\n", self.expect);
        }
        o
    }
    pub fn from_text(s: &str) -> Result<Plan, String> {
        let mut p = Plan::new("", 0, 0);
        let mut lines = s.lines().filter(|l| !l.starts_with('#'));
        if lines.next() != Some("algsim-replay 1") {
            return Err("not a replay file".into());
        }
        fn n<T: std::str::FromStr>(x: Option<&str>) -> Result<T, String> {
            x.and_then(|x| x.parse().ok()).ok_or_else(|| "bad number".to_string())
        }
        for l in lines {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            let mut f = v.split(' ');
            match k {
                "prop" => p.prop = v.into(),
                "seed" => {
                    p.seed = n(f.next())?;
                    p.index = n(f.next())?;
                }
                "warm" => p.warm.push(v.into()),
                "shared" => p.shared.push(v.into()),
                "tasks" => p.tasks = vec![vec![]; n(f.next())?],
                "task" => {
                    let (a, b) = v.split_once(' ').ok_or("bad task line")?;
                    let t: usize = n(Some(a))?;
                    p.tasks.get_mut(t).ok_or("bad task number")?.push(b.into());
                }
                "post" => p.post.push(v.into()),
                "allocfault" => p.alloc_faults.push((n(f.next())?, n(f.next())?, n(f.next())?)),
                "irng" => p.irng.push(v.into()),
                "sched" => {
                    p.sched_seed = n(f.next())?;
                    p.spurious = n::<u8>(f.next())? != 0;
                    p.max_steps = n(f.next())?;
                    p.mode = match f.next() {
                        Some("serial") => Mode::Serial,
                        Some("gap") => Mode::Gap(n(f.next())?),
                        Some("rare") => Mode::Rare { visits: n(f.next())?, den: n(f.next())? },
                        Some("pct") => Mode::Pct { changes: n(f.next())?, len: n(f.next())? },
                        Some("turns") => Mode::Turns { victim: n(f.next())?, mean: n(f.next())? },
                        Some("replay") => Mode::Replay,
                        _ => return Err("bad schedule".into()),
                    };
                }
                "switch" => p.decisions.push(Decision { task: n(f.next())?, step: n(f.next())?, to: n(f.next())? }),
                "expect" => p.expect = v.into(),
                "" => {}
                _ => return Err(format!("bad line: {l}")),
            }
        }
        Ok(p)
    }
}
