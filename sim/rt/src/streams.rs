//! Simulated random sources: fair, biased for a while, stuck, failing.

use crate::rt;
use rand::RngCore;

#[derive(Clone, Debug)]
pub struct Stream {
    kind: Kind,
    /// remaining biased draws
    left: u64,
    rng: rt::Rng,
    value: u64,
    cycle: Vec<u64>,
    pos: usize,
    pub draws: u64,
    pub biased: u64,
    /// panic at this draw (1-based), 0: never
    pub panic_at: u64,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Fair,
    Zeros,
    Ones,
    Alt,
    Rep,
    Cycle,
    Low,
    High,
    Count,
}
pub const BIASES: [&str; 8] = ["zeros", "ones", "alt", "rep", "cyc", "low", "high", "count"];

impl Stream {
    /// `fair:SEED`, `KIND:N:SEED` (N biased draws, then fair), `panic:K:SEED` (fair, dies at draw K)
    pub fn parse(spec: &str) -> Option<Stream> {
        let mut f = spec.split(':');
        let kind = f.next()?;
        let mut s = Stream {
            kind: Kind::Fair,
            left: 0,
            rng: rt::Rng::new(0),
            value: 0,
            cycle: vec![],
            pos: 0,
            draws: 0,
            biased: 0,
            panic_at: 0,
        };
        if kind == "fair" {
            s.rng = rt::Rng::new(f.next()?.parse().ok()?);
            return Some(s);
        }
        let n: u64 = f.next()?.parse().ok()?;
        s.rng = rt::Rng::new(f.next()?.parse().ok()?);
        if kind == "panic" {
            s.panic_at = n;
            return Some(s);
        }
        s.kind = match kind {
            "zeros" => Kind::Zeros,
            "ones" => Kind::Ones,
            "alt" => Kind::Alt,
            "rep" => Kind::Rep,
            "cyc" => Kind::Cycle,
            "low" => Kind::Low,
            "high" => Kind::High,
            "count" => Kind::Count,
            _ => return None,
        };
        s.left = n;
        s.value = s.rng.next();
        let l = 2 + s.rng.us(5);
        s.cycle = (0..l).map(|_| s.rng.next()).collect();
        Some(s)
    }
    pub fn next(&mut self) -> u64 {
        self.draws += 1;
        if self.panic_at != 0 && self.draws == self.panic_at {
            self.panic_at = 0;
            panic!("injected failure of the random source");
        }
        if self.left == 0 {
            return self.rng.next();
        }
        self.left -= 1;
        self.biased += 1;
        self.pos += 1;
        match self.kind {
            Kind::Fair => self.rng.next(),
            Kind::Zeros => 0,
            Kind::Ones => u64::MAX,
            Kind::Alt => {
                if self.pos % 2 == 0 {
                    0
                } else {
                    u64::MAX
                }
            }
            Kind::Rep => self.value,
            Kind::Cycle => self.cycle[self.pos % self.cycle.len()],
            // few significant bits in both halves, so that 32-bit draws are small as well
            Kind::Low => self.rng.next() & 0x0000_0003_0000_0003,
            Kind::High => self.rng.next() | 0xffff_fff0_ffff_fff0,
            Kind::Count => (self.pos as u64) << 32 | self.pos as u64,
        }
    }
}

/// the source a caller hands to the library
pub struct SimRng(pub Stream);
impl RngCore for SimRng {
    fn next_u32(&mut self) -> u32 {
        (rt::quiet_keep(|| self.0.next())) as u32
    }
    fn next_u64(&mut self) -> u64 {
        rt::quiet_keep(|| self.0.next())
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let v = self.next_u64().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

static mut INTERNAL: [Option<Stream>; rt::MAXT] = [const { None }; rt::MAXT];
static mut REAL_DRAWS: [u64; rt::MAXT] = [0; rt::MAXT];

fn hook(real: u64) -> u64 {
    let t = rt::current_task();
    if t == rt::NOTASK {
        return real;
    }
    rt::quiet_keep(|| unsafe {
        REAL_DRAWS[t] += 1;
        match &mut INTERNAL[t] {
            None => real,
            Some(s) => s.next(),
        }
    })
}
pub fn install(specs: &[String]) {
    rand_pcg::sim_hook::install(hook);
    for (t, s) in specs.iter().enumerate() {
        unsafe { INTERNAL[t] = Stream::parse(s) };
    }
}
/// (draws, biased draws) of a task's internal stream so far
pub fn internal_draws(t: usize) -> (u64, u64) {
    unsafe { (REAL_DRAWS[t], INTERNAL[t].as_ref().map_or(0, |s| s.biased)) }
}
