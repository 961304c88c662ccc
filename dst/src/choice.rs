//! The only source of randomness.  Every decision of a run is a draw from one of a few named
//! streams; each stream is a PRNG derived from the run's seed while exploring, or a recorded list
//! of values (missing values are 0 = "nothing unusual") while replaying.

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 { 0 } else { self.next() % n }
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    /// true with probability pm / 1000
    pub fn pm(&mut self, pm: u32) -> bool {
        (self.next() % 1000) < pm as u64
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len() as u64) as usize;
        &v[i]
    }
}

pub const SCHED: usize = 0;
pub const FAULT: usize = 1;
pub const SIG: usize = 2;
pub const IO: usize = 3;
pub const NSTREAM: usize = 4;
pub const STREAM_NAMES: [&str; NSTREAM] = ["sched", "fault", "sig", "io"];

pub struct Choices {
    rng: [Rng; NSTREAM],
    pub rec: [Vec<u32>; NSTREAM],
    pub replay: Option<[Vec<u32>; NSTREAM]>,
}
impl Choices {
    pub fn explore(seed: u64) -> Choices {
        let mk = |i: u64| Rng::new(seed.wrapping_mul(0x1000_0001_B3).wrapping_add(i * 0x5851_F42D_4C95_7F2D));
        Choices { rng: [mk(1), mk(2), mk(3), mk(4)], rec: Default::default(), replay: None }
    }
    pub fn replaying(r: [Vec<u32>; NSTREAM]) -> Choices {
        let mut c = Choices::explore(0);
        c.replay = Some(r);
        c
    }
    /// A value in 0..n; `f` proposes it while exploring.
    pub fn draw(&mut self, s: usize, n: u32, f: impl FnOnce(&mut Rng) -> u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let v = match &self.replay {
            Some(r) => r[s].get(self.rec[s].len()).copied().unwrap_or(0),
            None => f(&mut self.rng[s]),
        };
        let v = v % n;
        self.rec[s].push(v);
        v
    }
}
