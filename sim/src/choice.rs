//! The single source of every decision in a simulation: a recorded stream of bounded choices.
//! Choice 0 is always the simplest one, so shortening and zeroing a recording simplifies the run.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.0)
    }
}

pub fn mix(z: u64) -> u64 {
    let z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    let z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn seed_of(seed: u64, prop: &str, run: u64) -> u64 {
    let mut h = mix(seed ^ 0x5851_f42d_4c95_7f2d);
    for b in prop.bytes() {
        h = mix(h ^ u64::from(b));
    }
    mix(h ^ mix(run.wrapping_add(1)))
}

enum Mode {
    Gen(Rng),
    Replay(Vec<u32>),
}

pub struct Src {
    mode: Mode,
    pub rec: Vec<u32>,
    /// Written through on every choice, for runs that may not survive.
    pub sink: Option<std::fs::File>,
}

const LIMIT: usize = 60_000;

impl Src {
    pub fn gen(seed: u64) -> Src {
        Src {
            mode: Mode::Gen(Rng::new(seed)),
            rec: Vec::new(),
            sink: None,
        }
    }

    pub fn replay(choices: Vec<u32>) -> Src {
        Src {
            mode: Mode::Replay(choices),
            rec: Vec::new(),
            sink: None,
        }
    }

    /// Choices made elsewhere.
    pub fn extend(&mut self, choices: impl Iterator<Item = u32>) {
        self.rec.extend(choices);
    }

    /// A choice in `0..n`.
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        if n <= 1 {
            return 0;
        }
        let i = self.rec.len();
        let c = if i >= LIMIT {
            return 0;
        } else {
            match &mut self.mode {
                Mode::Gen(rng) => (rng.next() % n as u64) as u32,
                Mode::Replay(v) => v.get(i).copied().unwrap_or(0) % n as u32,
            }
        };
        self.rec.push(c);
        if let Some(f) = &mut self.sink {
            use std::io::Write;
            let _ = f.write_all(&c.to_le_bytes());
        }
        c as usize
    }

    /// True with probability `num/den`; the simple outcome is false.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }

    /// A choice in `lo..=hi`.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }

    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.below(items.len());
        &items[i]
    }

    /// Index chosen with the given weights; earlier entries are simpler.
    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u32 = weights.iter().sum();
        let mut c = self.below(total as usize) as u32;
        for (i, w) in weights.iter().enumerate() {
            if c < *w {
                return i;
            }
            c -= *w;
        }
        0
    }

    /// A full 64 bit value.
    pub fn bits(&mut self) -> u64 {
        let a = self.below(1 << 22) as u64;
        let b = self.below(1 << 21) as u64;
        let c = self.below(1 << 21) as u64;
        a | (b << 22) | (c << 43)
    }
}
