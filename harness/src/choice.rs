//! Choice-sequence engine: every random decision of a case is a `draw(n)`, recorded in a trace.
//! Replaying a (possibly edited) trace regenerates a (possibly smaller) case, which is what the
//! shrinker works on and what a replay file stores.

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for p in parts {
        let mut r = Rng(h ^ p.wrapping_mul(0x100_0000_01b3));
        h = r.next();
    }
    h
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3);
    }
    h
}

enum Mode {
    Random(Rng),
    Replay(Vec<u32>, usize),
    Bytes(Vec<u8>, usize),
}

pub struct Src {
    mode: Mode,
    pub trace: Vec<u32>,
    /// Trace positions at which a new step (operation) begins; used by the shrinker.
    pub marks: Vec<usize>,
    /// Receives every choice as it is made, for cases that may end the process.
    pub sink: Option<std::fs::File>,
}

/// In a sink: a mark.
const MARK: u32 = u32::MAX;

/// Trace and marks from a file written through `Src::sink`.
pub fn read_sink(path: &str) -> (Vec<u32>, Vec<usize>) {
    let (mut t, mut m) = (Vec::new(), Vec::new());
    for c in std::fs::read(path).unwrap_or_default().chunks_exact(4) {
        match u32::from_le_bytes(c.try_into().unwrap()) {
            MARK => m.push(t.len()),
            v => t.push(v),
        }
    }
    (t, m)
}

impl Src {
    fn note(&mut self, v: u32) {
        if let Some(f) = &mut self.sink {
            let _ = std::io::Write::write_all(f, &v.to_le_bytes());
        }
    }
    pub fn random(seed: u64) -> Self {
        Self {
            mode: Mode::Random(Rng(seed)),
            trace: Vec::new(),
            marks: Vec::new(),
            sink: None,
        }
    }
    pub fn replay(choices: Vec<u32>) -> Self {
        Self {
            mode: Mode::Replay(choices, 0),
            trace: Vec::new(),
            marks: Vec::new(),
            sink: None,
        }
    }
    pub fn bytes(b: Vec<u8>) -> Self {
        Self {
            mode: Mode::Bytes(b, 0),
            trace: Vec::new(),
            marks: Vec::new(),
            sink: None,
        }
    }
    pub fn mark(&mut self) {
        self.marks.push(self.trace.len());
        self.note(MARK);
    }
    /// A number in `0..n`.
    pub fn draw(&mut self, n: usize) -> usize {
        let n = n.max(1) as u32;
        let v = match &mut self.mode {
            Mode::Random(r) => ((r.next() >> 32) as u32) % n,
            Mode::Replay(c, pos) => {
                let v = c.get(*pos).copied().unwrap_or(0);
                *pos += 1;
                v % n
            }
            Mode::Bytes(b, pos) => {
                let mut v = u32::from(b.get(*pos).copied().unwrap_or(0));
                *pos += 1;
                if n > 256 {
                    v |= u32::from(b.get(*pos).copied().unwrap_or(0)) << 8;
                    *pos += 1;
                }
                v % n
            }
        };
        self.trace.push(v);
        self.note(v);
        v as usize
    }
    /// True with probability num/den; a zero choice is always "false".
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        let v = self.draw(den);
        v >= den - num.min(den)
    }
    /// A number in `lo..=hi`.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.draw(hi - lo + 1)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.draw(xs.len());
        &xs[i]
    }
    /// Weighted choice: returns an index.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut v = self.draw(total.max(1) as usize) as u32;
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        0
    }
    /// True once a replayed/byte source has run out of choices (loops should stop).
    pub fn exhausted(&self) -> bool {
        match &self.mode {
            Mode::Random(_) => false,
            Mode::Replay(c, p) => *p >= c.len(),
            Mode::Bytes(c, p) => *p >= c.len(),
        }
    }
}

/// Shrinks a failing choice sequence. `fails` re-runs a candidate and returns the marks if it still
/// fails in the same way.
pub fn shrink<F>(mut best: Vec<u32>, mut marks: Vec<usize>, budget: usize, mut fails: F) -> Vec<u32>
where
    F: FnMut(&[u32]) -> Option<(Vec<u32>, Vec<usize>)>,
{
    let mut left = budget;
    let start = std::time::Instant::now();
    macro_rules! attempt {
        ($cand:expr) => {{
            let cand: Vec<u32> = $cand;
            if left == 0 || start.elapsed().as_secs() > 20 {
                return best;
            }
            left -= 1;
            match fails(&cand) {
                Some((t, m)) if (t.len(), &t) < (best.len(), &best) || t.len() < best.len() => {
                    best = t;
                    marks = m;
                    true
                }
                _ => false,
            }
        }};
    }
    loop {
        let before = best.clone();
        // 1. Remove groups of whole steps.
        for group in [16usize, 8, 4, 2, 1] {
            let mut i = 0;
            while i < marks.len() {
                let a = marks[i];
                let b = marks.get(i + group).copied().unwrap_or(best.len());
                if a < b && b <= best.len() {
                    let mut c = best[..a].to_vec();
                    c.extend_from_slice(&best[b..]);
                    if attempt!(c) {
                        continue;
                    }
                }
                i += 1;
            }
        }
        // 2. Remove raw chunks.
        for size in [32usize, 8, 4, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() {
                let mut c = best[..i].to_vec();
                c.extend_from_slice(&best[i + size..]);
                if !attempt!(c) {
                    i += size;
                }
            }
        }
        // 3. Lower single choices.
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !attempt!(c) {
                    let (mut lo, mut hi) = (0u32, best[i]);
                    while lo + 1 < hi {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        if i >= c.len() {
                            break;
                        }
                        c[i] = mid;
                        if attempt!(c) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before {
            return best;
        }
    }
}
