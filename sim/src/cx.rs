//! The simulation context: the one source of choices, the event log, the
//! simulated clock, and the counters that end up in the evidence file.
//!
//! Every choice of a run is drawn through `Cx::below`, and recorded on a tape.
//! A run is a pure function of (property, seed), or of (property, tape).

use std::collections::BTreeMap;

#[derive(Debug, Clone)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}
pub type R<T = ()> = Result<T, Viol>;

pub fn viol<T>(class: &str, msg: impl Into<String>) -> R<T> {
    Err(Viol { class: class.to_string(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($fmt:tt)*) => {
        if !$cond {
            return Err($crate::cx::Viol { class: ($class).to_string(), msg: format!($($fmt)*) });
        }
    };
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

#[derive(Default, Clone)]
pub struct Counts(pub BTreeMap<&'static str, u64>);
impl Counts {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.0.entry(k).or_insert(0) += n;
    }
}

pub struct Cx {
    rng: Option<Rng>,
    input: Vec<u64>,
    pos: usize,
    pub tape: Vec<u64>,
    pub spans: Vec<(usize, usize)>,
    stack: Vec<usize>,
    hash: u64,
    shape: u64,
    pub events: u64,
    pub checks: u64,
    pub nfaults: u64,
    pub faults: Counts,
    pub probes: Counts,
    pub tracing: bool,
    pub log: Vec<String>,
    /// simulated microseconds
    pub now: u64,
    pub sim_us: u64,
    exhausted: u64,
    /// every choice is written here at once, for runs that end the process
    pub sink: Option<std::fs::File>,
}

pub const TAPE_LIMIT: usize = 4_000_000;

impl Cx {
    pub fn from_seed(seed: u64) -> Self {
        Self::make(Some(Rng::new(seed)), Vec::new())
    }
    pub fn from_tape(tape: Vec<u64>) -> Self {
        Self::make(None, tape)
    }
    fn make(rng: Option<Rng>, input: Vec<u64>) -> Self {
        Cx {
            rng,
            input,
            pos: 0,
            tape: Vec::new(),
            spans: Vec::new(),
            stack: Vec::new(),
            hash: 0xcbf2_9ce4_8422_2325,
            shape: 0xcbf2_9ce4_8422_2325,
            events: 0,
            checks: 0,
            nfaults: 0,
            faults: Counts::default(),
            probes: Counts::default(),
            tracing: false,
            log: Vec::new(),
            now: 0,
            sim_us: 0,
            exhausted: 0,
            sink: None,
        }
    }

    /// A choice in 0..n. Zero is always the simplest choice.
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &mut self.rng {
            Some(r) => {
                let x = r.next();
                if n == u64::MAX {
                    x
                } else {
                    x % n
                }
            }
            None => {
                let x = self.input.get(self.pos).copied().unwrap_or_else(|| {
                    self.exhausted += 1;
                    0
                });
                self.pos += 1;
                x % n
            }
        };
        if let Some(f) = &mut self.sink {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        if self.tape.len() < TAPE_LIMIT {
            self.tape.push(v);
        }
        v
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    /// true with pct percent; the zero choice is false
    pub fn chance(&mut self, pct: u64) -> bool {
        self.below(100) >= 100 - pct.min(100)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.us(xs.len());
        &xs[i]
    }
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut x = self.below(total);
        for (i, wi) in w.iter().enumerate() {
            if x < *wi {
                return i;
            }
            x -= wi;
        }
        w.len() - 1
    }
    /// n pseudo-random bytes from one choice; choice zero gives zero bytes
    pub fn blob(&mut self, n: usize) -> Vec<u8> {
        let s = self.below(u64::MAX);
        expand(s, n)
    }
    pub fn begin(&mut self) {
        self.stack.push(self.tape.len());
    }
    pub fn end(&mut self) {
        if let Some(s) = self.stack.pop() {
            if self.tape.len() > s {
                self.spans.push((s, self.tape.len()));
            }
        }
    }
    /// Runs `f` between `min` and `max` times, `avg` on average above `min`; each
    /// iteration (its continue-choice included) is one deletable span.
    pub fn repeat(&mut self, min: usize, max: usize, avg: usize, mut f: impl FnMut(&mut Cx, usize) -> R) -> R {
        let mut i = 0;
        let keep = (avg as u64 * 1000) / (avg as u64 + 1);
        while i < max {
            self.begin();
            if i >= min && self.below(1000) < 1000 - keep {
                self.end();
                break;
            }
            let r = f(self, i);
            self.end();
            r?;
            i += 1;
        }
        Ok(())
    }
    /// number of repetitions drawn up-front
    pub fn span<T>(&mut self, f: impl FnOnce(&mut Cx) -> T) -> T {
        self.begin();
        let r = f(self);
        self.end();
        r
    }

    fn fold(h: u64, x: u64) -> u64 {
        (h ^ x).wrapping_mul(0x100_0000_01b3).rotate_left(23) ^ (x >> 7)
    }
    /// One simulator event: goes into the run's hash and, when tracing, the log.
    pub fn ev(&mut self, kind: &'static str, a: u64, b: u64) {
        self.events += 1;
        let mut kh = 0xcbf2_9ce4_8422_2325u64;
        for c in kind.bytes() {
            kh = (kh ^ c as u64).wrapping_mul(0x100_0000_01b3);
        }
        self.hash = Self::fold(Self::fold(Self::fold(self.hash, kh), a), b);
        if self.events < 64 {
            // coarse shape: event kinds with magnitudes, no exact values
            let mag = 64 - a.leading_zeros() as u64;
            self.shape = Self::fold(Self::fold(self.shape, kh), mag);
        }
        if self.tracing {
            let t = self.now;
            self.log.push(format!("[{:>9}us #{:<4}] {} {} {}", t, self.events, kind, a, b));
        }
    }
    pub fn fault(&mut self, kind: &'static str) {
        self.nfaults += 1;
        self.faults.add(kind, 1);
        self.ev(kind, u64::MAX, 0);
    }
    pub fn probe(&mut self, name: &'static str) {
        self.probes.add(name, 1);
    }
    pub fn ok(&mut self) {
        self.checks += 1;
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.tracing {
            let s = f();
            self.log.push(format!("            {}", s));
        }
    }
    pub fn bytes_ev(&mut self, kind: &'static str, b: &[u8]) {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for c in b {
            h = (h ^ *c as u64).wrapping_mul(0x100_0000_01b3);
        }
        self.ev(kind, b.len() as u64, h);
        if self.tracing {
            self.log.push(format!("            {}", hexs(b)));
        }
    }
    pub fn advance(&mut self, us: u64) {
        self.now += us;
        self.sim_us += us;
    }
    pub fn set_now(&mut self, t: u64) {
        if t > self.now {
            self.sim_us += t - self.now;
            self.now = t;
        }
    }
    pub fn hash(&self) -> u64 {
        self.hash
    }
    pub fn shape(&self) -> u64 {
        self.shape
    }
}

pub fn expand(seed: u64, n: usize) -> Vec<u8> {
    if seed == 0 {
        return vec![0; n];
    }
    let mut r = Rng::new(seed);
    let mut v = Vec::with_capacity(n + 8);
    while v.len() < n {
        v.extend_from_slice(&r.next().to_le_bytes());
    }
    v.truncate(n);
    v
}

pub fn hexs(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i >= 96 {
            s.push_str(&format!("..({} bytes)", b.len()));
            break;
        }
        if i > 0 && i % 4 == 0 {
            s.push(' ');
        }
        s.push_str(&format!("{:02x}", x));
    }
    s
}
