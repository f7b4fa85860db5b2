//! The choice tape: every generated case is a pure function of a `Vec<u64>`.
//! proptest generates and shrinks the tape (see `TapeStrategy`); a saved tape replays a case.

use proptest::strategy::{NewTree, Strategy, ValueTree};
use proptest::test_runner::TestRunner;
use std::collections::BTreeMap;

pub type CaseResult = Result<(), String>;

pub struct Ctx<'t> {
    tape: &'t [u64],
    pos: usize,
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub notes: Vec<String>,
    pub want_notes: bool,
    pub thorough: bool,
}

impl<'t> Ctx<'t> {
    pub fn new(tape: &'t [u64], want_notes: bool, thorough: bool) -> Self {
        Ctx { tape, pos: 0, labels: BTreeMap::new(), nontrivial: false, notes: vec![], want_notes, thorough }
    }
    /// Next raw word; an exhausted tape reads as zeros (the simplest choice).
    pub fn u(&mut self) -> u64 {
        let v = self.tape.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        v
    }
    pub fn consumed(&self) -> &[u64] {
        &self.tape[..self.pos.min(self.tape.len())]
    }
    /// Uniform in 0..n (monotone in the word, so smaller words give smaller choices).
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        ((self.u() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    /// false for the zero word
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'x, T>(&mut self, xs: &'x [T]) -> &'x T {
        let i = self.below(xs.len() as u64) as usize;
        &xs[i]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut out = Vec::with_capacity(n + 8);
        while out.len() < n {
            out.extend_from_slice(&self.u().to_le_bytes());
        }
        out.truncate(n);
        out
    }
    /// A seed expanded from one word (used where many words would be needed).
    pub fn rng(&mut self) -> SplitMix {
        SplitMix(self.u())
    }
    pub fn label<S: Into<String>>(&mut self, s: S) {
        *self.labels.entry(s.into()).or_insert(0) += 1;
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.want_notes {
            let mut s = f();
            if s.len() > 600 {
                let mut cut = 600;
                while !s.is_char_boundary(cut) {
                    cut -= 1;
                }
                s.truncate(cut);
                s.push('…');
            }
            self.notes.push(s);
        }
    }
}

/// Deterministic expansion of one tape word into as many words as needed.
#[derive(Clone)]
pub struct SplitMix(pub u64);
impl SplitMix {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}
impl rand::Rng for SplitMix {
    fn next_u32(&mut self) -> u32 {
        (self.next() >> 32) as u32
    }
}

#[derive(Debug, Clone)]
pub struct TapeStrategy {
    pub len: usize,
}

pub struct TapeTree {
    best: Vec<u64>,
    cur: Vec<u64>,
    block: usize,
    start: usize,
    phase: u8, // 0 zero blocks, 1 per-element reductions, 2 done
    step: u8,
}

impl Strategy for TapeStrategy {
    type Tree = TapeTree;
    type Value = Vec<u64>;
    fn new_tree(&self, runner: &mut TestRunner) -> NewTree<Self> {
        let mut v: Vec<u64> = Vec::with_capacity(self.len);
        for _ in 0..self.len {
            v.push(proptest::num::u64::ANY.new_tree(runner)?.current());
        }
        Ok(TapeTree::of(v))
    }
}

impl TapeTree {
    pub fn of(v: Vec<u64>) -> Self {
        let n = v.len().max(1);
        TapeTree { best: v.clone(), cur: v, block: n, start: 0, phase: 0, step: 0 }
    }
    /// Produce the next candidate derived from `best` into `cur`; false when exhausted.
    fn next_candidate(&mut self) -> bool {
        loop {
            match self.phase {
                0 => {
                    if self.start >= self.best.len() {
                        if self.block == 1 {
                            self.phase = 1;
                            self.start = 0;
                            self.step = 0;
                        } else {
                            self.block = (self.block + 1) / 2;
                            self.start = 0;
                        }
                        continue;
                    }
                    let s = self.start;
                    let e = (s + self.block).min(self.best.len());
                    self.start = e;
                    if self.best[s..e].iter().all(|x| *x == 0) {
                        continue;
                    }
                    self.cur = self.best.clone();
                    for x in &mut self.cur[s..e] {
                        *x = 0;
                    }
                    return true;
                }
                1 => {
                    if self.start >= self.best.len() {
                        self.phase = 2;
                        continue;
                    }
                    let v = self.best[self.start];
                    // candidates, coarse to fine
                    let shifts = [32u32, 16, 8, 4, 2, 1];
                    if v == 0 || self.step as usize >= shifts.len() {
                        self.start += 1;
                        self.step = 0;
                        continue;
                    }
                    let nv = v >> shifts[self.step as usize];
                    self.step += 1;
                    self.cur = self.best.clone();
                    self.cur[self.start] = nv;
                    return true;
                }
                _ => return false,
            }
        }
    }
}

impl ValueTree for TapeTree {
    type Value = Vec<u64>;
    fn current(&self) -> Vec<u64> {
        self.cur.clone()
    }
    /// The current value fails: keep it and try something simpler.
    fn simplify(&mut self) -> bool {
        if self.phase == 1 && self.best != self.cur {
            // retry the same reduction on the same element
            self.step = self.step.saturating_sub(1);
        }
        self.best = self.cur.clone();
        self.next_candidate()
    }
    /// The current value passes: go back to the best failing one and try the next candidate.
    fn complicate(&mut self) -> bool {
        self.cur = self.best.clone();
        self.next_candidate()
    }
}

/// The tape written in `data` as little-endian words.
pub fn from_bytes(data: &[u8], len: usize) -> Vec<u64> {
    data.chunks(8)
        .take(len)
        .map(|c| {
            let mut b = [0u8; 8];
            b[..c.len()].copy_from_slice(c);
            u64::from_le_bytes(b)
        })
        .collect()
}
