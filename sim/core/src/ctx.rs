//! Context of one simulated run: the choice tape, the simulated clock, statistics and the event log.

use crate::rng::{hash_bytes, mix, Rng};
use std::collections::BTreeMap;
use std::fmt::Arguments;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Violation {
    /// Stable short name; minimisation keeps it, known findings are matched on it.
    pub class: String,
    pub detail: String,
}

impl Violation {
    pub fn new(class: impl Into<String>, detail: impl Into<String>) -> Violation {
        Violation { class: class.into(), detail: detail.into() }
    }
}

/// Why a run stopped early.
#[derive(Debug, Clone)]
pub enum Stop {
    Violation(Violation),
    /// A defect of the harness itself: never reported as a violation.
    Harness(String),
}

pub type Run<T = ()> = Result<T, Stop>;

impl From<Violation> for Stop {
    fn from(v: Violation) -> Stop {
        Stop::Violation(v)
    }
}

#[macro_export]
macro_rules! violation {
    ($class: expr, $($arg: tt)*) => {
        return Err($crate::ctx::Stop::Violation($crate::ctx::Violation::new($class, format!($($arg)*))))
    };
}

#[macro_export]
macro_rules! ensure {
    ($cond: expr, $class: expr, $($arg: tt)*) => {
        if !$cond {
            $crate::violation!($class, $($arg)*);
        }
    };
}

enum Source {
    Random(Rng),
    Replay(Vec<u64>, usize),
}

pub struct Ctx {
    source: Source,
    /// Every draw of this run, in order: the replayable schedule and fault trace.
    pub tape: Vec<u64>,
    /// Bounds of the draws, parallel to `tape` (used when minimising).
    pub bounds: Vec<u64>,
    pub now: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub trace: bool,
    pub log: Vec<String>,
    pub digest: u64,
    /// Hash of the kinds of events only (which interleaving / fault placement this run was).
    pub shape: u64,
    pub nontrivial: bool,
    pub steps: u64,
}

impl Ctx {
    fn with(source: Source, trace: bool) -> Ctx {
        Ctx {
            source,
            tape: Vec::new(),
            bounds: Vec::new(),
            now: 0,
            counters: BTreeMap::new(),
            trace,
            log: Vec::new(),
            digest: 0,
            shape: 0,
            nontrivial: false,
            steps: 0,
        }
    }

    pub fn random(seed: u64, trace: bool) -> Ctx {
        Self::with(Source::Random(Rng::new(seed)), trace)
    }

    pub fn replay(tape: Vec<u64>, trace: bool) -> Ctx {
        Self::with(Source::Replay(tape, 0), trace)
    }

    /// The one primitive every choice is made of: a number in 0..n. 0 is always the "simplest" choice.
    pub fn draw(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = match &mut self.source {
            Source::Random(r) => {
                if n == 1 {
                    0
                } else {
                    r.below(n)
                }
            }
            Source::Replay(t, pos) => {
                let v = t.get(*pos).copied().unwrap_or(0);
                *pos += 1;
                if v >= n {
                    v % n
                } else {
                    v
                }
            }
        };
        self.tape.push(v);
        self.bounds.push(n);
        v
    }

    pub fn draw64(&mut self) -> u64 {
        let hi = self.draw(1 << 32);
        let lo = self.draw(1 << 32);
        hi << 32 | lo
    }

    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }

    /// Inclusive range.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }

    /// True with probability p/1000; false is the simple choice.
    pub fn chance(&mut self, p: u64) -> bool {
        let v = self.draw(1000);
        v >= 1000 - p.min(1000)
    }

    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }

    /// Index chosen by weight.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut x = self.draw(total);
        for (i, v) in w.iter().enumerate() {
            if x < *v {
                return i;
            }
            x -= v;
        }
        w.len() - 1
    }

    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n);
        while v.len() + 4 <= n {
            v.extend_from_slice(&(self.draw(1 << 32) as u32).to_le_bytes());
        }
        while v.len() < n {
            v.push(self.draw(256) as u8);
        }
        v
    }

    /// Count an injected fault or a probe.
    pub fn count(&mut self, name: &'static str) {
        *self.counters.entry(name).or_insert(0) += 1;
    }

    pub fn count_n(&mut self, name: &'static str, n: u64) {
        *self.counters.entry(name).or_insert(0) += n;
    }

    /// Record an event. `kind` identifies the event for the shape of the run.
    pub fn event(&mut self, kind: &'static str, args: Arguments) {
        self.steps += 1;
        self.shape = hash_bytes(self.shape, kind.as_bytes());
        let s = format!("t={} {}", self.now, args);
        self.digest = hash_bytes(mix(self.digest, self.now), s.as_bytes());
        if self.trace {
            self.log.push(s);
        }
    }
}

#[macro_export]
macro_rules! ev {
    ($ctx: expr, $kind: literal, $($arg: tt)*) => {
        $ctx.event($kind, format_args!(concat!($kind, " {}"), format_args!($($arg)*)))
    };
}
