//! The source of every random choice.
//!
//! A case is a function of a sequence of choices. A fresh case draws them from a seeded generator
//! and records them; a replayed one takes them from the recording. Zero is always the simplest
//! choice, and a recording which has run out yields zeros, so deleting from the recording and
//! lowering its values shrinks the case whatever it is.

use crate::schema::Rng;
use std::io::Write;

pub struct Src {
    rng: Option<Rng>,
    pub choices: Vec<u32>,
    pos: usize,
    /// Where to write each choice as it's made, for a case which may take the process down.
    trace: Option<std::fs::File>,
}

impl Src {
    pub fn fresh(seed: u64) -> Self {
        Src {
            rng: Some(Rng(seed)),
            choices: Vec::new(),
            pos: 0,
            trace: None,
        }
    }

    pub fn replay(choices: Vec<u32>) -> Self {
        Src {
            rng: None,
            choices,
            pos: 0,
            trace: None,
        }
    }

    pub fn trace(&mut self, f: std::fs::File) {
        self.trace = Some(f);
    }

    fn draw(&mut self, n: usize, f: impl FnOnce(&mut Rng) -> usize) -> usize {
        let v = match self.rng.as_mut() {
            Some(r) => {
                let v = f(r);
                self.choices.push(v as u32);
                v
            }
            None => *self.choices.get(self.pos).unwrap_or(&0) as usize % n.max(1),
        };
        self.pos += 1;
        if let Some(t) = self.trace.as_mut() {
            let _ = writeln!(t, "{}", v);
        }
        v
    }

    pub fn used(&self) -> usize {
        self.pos
    }

    /// A number below `n`.
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        self.draw(n, |r| r.below(n))
    }

    /// A number below `n`, most likely a small one.
    pub fn small(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        self.draw(n, |r| {
            let mut v = 0;
            while v + 1 < n && r.pct(65) {
                v += 1;
            }
            v
        })
    }

    pub fn pct(&mut self, p: usize) -> bool {
        self.draw(2, |r| r.pct(p) as usize) == 1
    }

    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }

    /// Picks an index by weight.
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let total: usize = w.iter().sum();
        let v = self.draw(w.len(), |r| {
            let mut v = r.below(total);
            for (i, &x) in w.iter().enumerate() {
                if v < x {
                    return i;
                }
                v -= x;
            }
            unreachable!()
        });
        match w[v] {
            // Only a changed recording picks one which shouldn't be.
            0 => w.iter().position(|&x| x != 0).unwrap_or(0),
            _ => v,
        }
    }

    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            // Zero leaves the order alone.
            let j = i - self.below(i + 1);
            v.swap(i, j);
        }
    }

    pub fn u64(&mut self) -> u64 {
        let hi = self.below(1 << 32) as u64;
        let lo = self.below(1 << 32) as u64;
        hi << 32 | lo
    }
}
