//! A small property-based-testing engine: generators draw from a tape of
//! choices, so that every generated value shrinks by shrinking the tape.

use std::collections::BTreeMap;

/// SplitMix64.
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut r = Rng(0x5EED);
    for p in parts {
        let x = r.next();
        r = Rng(x ^ p.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    }
    r.next()
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h ^= u64::from(*x);
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    mix(&[h, b.len() as u64])
}

enum Mode<'a> {
    Random(Rng),
    Replay,
    Bytes(&'a [u8]),
}

/// Source of choices of a case.
pub struct G<'a> {
    mode: Mode<'a>,
    pub tape: Vec<u32>,
    pos: usize,
    limit: usize,
    /// Where every choice is noted, for cases that take the process down.
    pub log: Option<std::fs::File>,
}

impl<'a> G<'a> {
    pub fn random(seed: u64) -> Self {
        G { mode: Mode::Random(Rng::new(seed)), tape: Vec::new(), pos: 0, limit: 100_000, log: None }
    }
    pub fn replay(tape: Vec<u32>) -> Self {
        G { mode: Mode::Replay, tape, pos: 0, limit: 100_000, log: None }
    }
    pub fn bytes(b: &'a [u8]) -> Self {
        G { mode: Mode::Bytes(b), tape: Vec::new(), pos: 0, limit: 100_000, log: None }
    }
    pub fn used(&self) -> usize {
        self.pos
    }
    /// A value in `0..n`. 0 is the simplest.
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        if n == 1 {
            return 0;
        }
        if self.pos >= self.limit {
            return 0;
        }
        let v = match &mut self.mode {
            Mode::Random(r) => {
                let v = (((u128::from(r.next())) * (n as u128)) >> 64) as usize;
                self.tape.push(v as u32);
                v
            }
            Mode::Replay => match self.tape.get(self.pos) {
                Some(v) => (*v as usize).min(n - 1),
                None => 0,
            },
            Mode::Bytes(b) => {
                let mut take = || {
                    if let Some((x, rest)) = b.split_first() {
                        *b = rest;
                        *x as usize
                    } else {
                        0
                    }
                };
                let v = if n <= 256 { take() % n } else { (take() * 256 + take()) % n };
                self.tape.push(v as u32);
                v
            }
        };
        self.pos += 1;
        if let Some(f) = &mut self.log {
            use std::io::Write;
            let _ = f.write_all(&(v as u32).to_le_bytes());
        }
        v
    }
    /// A value in `a..=b`.
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    /// True with probability `num/den`; false is the simplest.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        &xs[self.below(xs.len())]
    }
    /// Index by weights; index 0 is the simplest.
    pub fn weighted(&mut self, ws: &[usize]) -> usize {
        let total: usize = ws.iter().sum();
        let mut v = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        ws.len() - 1
    }
    /// A small count: geometric with a cap.
    pub fn count(&mut self, max: usize) -> usize {
        let mut n = 0;
        while n < max && self.chance(3, 5) {
            n += 1;
        }
        n
    }
}

/// What one case did.
#[derive(Default)]
pub struct Case {
    /// Printable form of the case (only when wanted).
    pub desc: String,
    /// Hash identifying the generated case.
    pub key: u64,
    pub nontrivial: bool,
    /// Case was outside the domain.
    pub discard: bool,
    pub labels: Vec<&'static str>,
    /// `class: detail` when the property failed.
    pub fail: Option<String>,
}

impl Case {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn fail(&mut self, class: &str, detail: impl AsRef<str>) {
        if self.fail.is_none() {
            self.fail = Some(format!("{class}: {}", detail.as_ref()));
        }
    }
}

pub fn class_of(msg: &str) -> &str {
    msg.split(':').next().unwrap_or("")
}

pub type Labels = BTreeMap<String, u64>;

/// Shrinks `tape` while `still(tape)` holds.
pub fn shrink(mut best: Vec<u32>, mut budget: usize, mut still: impl FnMut(&[u32]) -> bool) -> Vec<u32> {
    let mut improved = true;
    while improved && budget > 0 {
        improved = false;
        // Drop the tail.
        let mut k = best.len() / 2;
        while k > 0 && budget > 0 {
            if k <= best.len() {
                let cand = best[..best.len() - k].to_vec();
                budget -= 1;
                if still(&cand) {
                    best = cand;
                    improved = true;
                    continue;
                }
            }
            k /= 2;
        }
        // Delete chunks.
        for size in [32usize, 16, 8, 5, 4, 3, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() && budget > 0 {
                let mut cand = best.clone();
                cand.drain(i..i + size);
                budget -= 1;
                if still(&cand) {
                    best = cand;
                    improved = true;
                } else {
                    // Delete and decrement the previous (count) choice.
                    if i > 0 && best[i - 1] > 0 && budget > 0 {
                        let mut cand = best.clone();
                        cand[i - 1] -= 1;
                        cand.drain(i..i + size);
                        budget -= 1;
                        if still(&cand) {
                            best = cand;
                            improved = true;
                            continue;
                        }
                    }
                    i += 1;
                }
            }
        }
        // Zero runs, lower values.
        for size in [16usize, 8, 4, 2] {
            let mut i = 0;
            while i + size <= best.len() && budget > 0 {
                if best[i..i + size].iter().any(|x| *x != 0) {
                    let mut cand = best.clone();
                    cand[i..i + size].fill(0);
                    budget -= 1;
                    if still(&cand) {
                        best = cand;
                        improved = true;
                    }
                }
                i += size;
            }
        }
        let mut i = 0;
        while i < best.len() {
            loop {
                let v = best[i];
                let mut lowered = false;
                let mut prev = u32::MAX;
                for c in [0, v / 2, v.saturating_sub(1)] {
                    if c >= v || c == prev || budget == 0 {
                        continue;
                    }
                    prev = c;
                    let mut cand = best.clone();
                    cand[i] = c;
                    budget -= 1;
                    if still(&cand) {
                        best = cand;
                        improved = true;
                        lowered = true;
                        break;
                    }
                }
                if !lowered || i >= best.len() {
                    break;
                }
            }
            i += 1;
        }
    }
    best
}
