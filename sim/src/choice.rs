//! One stream of choices decides everything that is not fixed: scenario, schedule, faults, sizes.
//! 0 is always the simplest/most benign alternative, so truncating or zeroing a recorded list simplifies a run.

pub const MAX_LOG: usize = 60_000;

pub struct Choices {
    rng: Option<u64>,
    list: Vec<u32>,
    pos: usize,
    /// recorded choices; the word before it always holds their number (shared with the supervising process)
    pub log: *mut u32,
    pub n: usize,
}

pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Choices {
    pub fn seeded(seed: u64, log: *mut u32) -> Self {
        let mut s = seed;
        let a = splitmix(&mut s);
        Choices { rng: Some(a ^ seed.rotate_left(17)), list: vec![], pos: 0, log, n: 0 }
    }
    pub fn replay(list: Vec<u32>, log: *mut u32) -> Self {
        Choices { rng: None, list, pos: 0, log, n: 0 }
    }
    pub fn below(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        if self.n >= MAX_LOG {
            return 0;
        }
        let v = match &mut self.rng {
            Some(s) => ((splitmix(s) >> 32) * n as u64 >> 32) as u32,
            None => {
                let v = self.list.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v.min(n - 1)
            }
        };
        unsafe {
            *self.log.add(self.n) = v;
            self.n += 1;
            *self.log.sub(1) = self.n as u32;
        }
        v
    }
    /// true with probability num/den; 0 means false
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        if num == 0 {
            return false;
        }
        if num >= den {
            return true;
        }
        self.below(den) >= den - num
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let sum: u32 = w.iter().sum();
        let mut v = self.below(sum);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= *x;
        }
        w.len() - 1
    }
}
